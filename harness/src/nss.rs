//! P17: clean-up of namespaces.
use crate::job;
use crate::jobs::run;
use crate::removal::{Fate, Tree, config, tree};
use crate::svg::{SVG, XLINK, attr, href};
use crate::sym;
use crate::xml::dtd;
use oxvg_optimiser::RemoveXlink;
use roxmltree::{Document, Node};

const INKSCAPE: &str = "http://www.inkscape.org/namespaces/inkscape";
const EDITORS: &[&str] = &[
    INKSCAPE,
    "http://creativecommons.org/ns#",
    "http://ns.adobe.com/AdobeIllustrator/10.0/",
    "http://purl.org/dc/elements/1.1/",
    "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd",
    "http://www.bohemiancoding.com/sketch/ns",
    "http://www.figma.com/figma/ns",
    "http://www.serif.com/",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
];
const URIS: &[&str] = &["urn:x", XLINK, INKSCAPE, SVG];
const MORE: &[&str] = &["urn:y", "http://www.inkscape.org/namespaces/inkscapes", "http://www.serif.com/"];

/// What a prefixed name is used for; `%` is the prefix.
const USES: &[&str] = &[
    "",
    "<rect %:href='#a' x='1'/>",
    "<%:rect x='2'/>",
    "<g %:foo='b'><circle r='3'/></g>",
    "<%:defs><path %:d='M0 0'/></%:defs>",
    "<rect id='%'/>",
    "<svg %:id='q'><%:title>t</%:title></svg>",
    "<g xmlns='urn:x' a='1'><rect/></g>",
    "<g xmlns:%='urn:y' %:x='1'><rect %:y='%:z'/></g>",
];

fn prefix() -> char {
    sym::of(b"abc") as char
}

/// A document with declarations at two levels and one use of a prefix at each.
fn document() -> String {
    let mut s = format!("<svg xmlns='{SVG}'");
    s.push_str(&format!(" xmlns:{}='{}'", prefix(), sym::one(URIS)));
    if sym::pick(2) == 1 {
        s.push_str(&format!(" xmlns:z='{}' z:k='1'", MORE[2]));
    }
    let near = sym::pick(2);
    let p = if sym::deep() { prefix() } else { 'b' };
    s.push_str(&format!(" xmlns:{p}='{}'><g", MORE[near]));
    let inner = sym::pick(3);
    if inner > 0 {
        s.push_str(&format!(" xmlns:{}='{}'", prefix(), [URIS[0], INKSCAPE][inner - 1]));
    }
    s.push('>');
    for (i, u) in [sym::one(USES), if near == 0 { "<%:text/>" } else { "<text %:x='1'/>" }].iter().enumerate() {
        let p = prefix();
        s.push_str(&u.replace('%', &p.to_string()));
        if i == 0 {
            s.push_str("</g>");
        }
    }
    s.push_str("</svg>");
    s
}

fn every(_: &Node) -> Fate {
    Fate::Keep
}
fn every_attr(_: &Node, _: &str, _: &str, _: &str) -> bool {
    true
}

fn parts<'a>(s: &'a str, t: &'a str) -> Option<(Document<'a>, Document<'a>)> {
    let a = dtd(s)?;
    let Some(b) = dtd(t) else {
        sym::check(false, "output isn't well-formed");
        return None;
    };
    sym::cover(1);
    Some((a, b))
}

/// Whether an element or attribute is in the namespace.
fn used(d: &Document, uri: &str) -> bool {
    d.descendants().filter(Node::is_element).any(|e| e.tag_name().namespace() == Some(uri) || e.attributes().any(|a| a.namespace() == Some(uri)))
}

pub fn unused() {
    let s = document();
    sym::assume(dtd(&s).is_some());
    let t = run(&config("{\"removeUnusedNS\":true}"), &s);
    let Some((a, b)) = parts(&s, &t) else { return };
    sym::check(tree(&a, &every, &every_attr) == tree(&b, &every, &every_attr), "names, values and their namespaces");
    let gone = b.root_element().namespaces().all(|n| n.name().is_none() || n.name() == Some("xml") || used(&a, n.uri()));
    sym::check(gone, "unused declarations are removed from the root");
}

pub fn editors() {
    let s = document();
    sym::assume(dtd(&s).is_some());
    let more = sym::pick(2) == 1;
    let jobs = config(if more { "{\"removeEditorsNSData\":{\"additionalNamespaces\":[\"urn:x\"]}}" } else { "{\"removeEditorsNSData\":{}}" });
    let t = run(&jobs, &s);
    let Some((a, b)) = parts(&s, &t) else { return };
    let editor = |u: &str| EDITORS.contains(&u) || more && u == "urn:x";
    let keeps = |e: &Node| if e.is_element() && editor(e.tag_name().namespace().unwrap_or("")) { Fate::Remove } else { Fate::Keep };
    let keeps_attr = |_: &Node, ns: &str, _: &str, _: &str| !editor(ns);
    sym::check(tree(&a, &keeps, &keeps_attr) == tree(&b, &every, &every_attr), "removes what belongs to editors only");
    sym::check(b.descendants().all(|e| e.namespaces().all(|n| !editor(n.uri()))), "declarations of editors are removed");
}

/// The namespaces that count as editors'.
pub fn editor_names() {
    let i = sym::pick(EDITORS.len());
    let mut uri = EDITORS[i].to_string();
    // one character may differ
    let at = sym::pick(uri.len());
    let was = uri.as_bytes()[at];
    let c = sym::byte(b'#', b'z');
    sym::assume(c != b'&' && c != b'<' && c != b'\'');
    uri.replace_range(at..at + 1, &(c as char).to_string());
    let s = format!("<svg xmlns='{SVG}' xmlns:a='{uri}'><a:g/><g a:b='1'/></svg>");
    let t = run(&config("{\"removeEditorsNSData\":{}}"), &s);
    let Some((a, b)) = parts(&s, &t) else { return };
    if sym::conc_flag(c == was) {
        sym::check(t == format!("<svg xmlns=\"{SVG}\"><g/></svg>"), "editor data removed");
    } else {
        sym::check(tree(&a, &every, &every_attr) == tree(&b, &every, &every_attr), "other data kept");
    }
}

pub fn default_namespace() {
    let mut s = document();
    let kind = sym::pick(3);
    if kind == 1 {
        s = s.replacen("<g", "<svg xmlns='http://www.w3.org/2000/svg'><g", 1).replacen("</g>", "</g></svg>", 1);
    }
    if kind == 2 {
        s = s.replacen("<svg xmlns=", "<p:svg xmlns:p=", 1);
        let n = s.len() - 4;
        s.insert_str(n, "p:");
    }
    sym::assume(dtd(&s).is_some());
    let t = run(&config("{\"removeXMLNS\":true}"), &s);
    let Some((a, b)) = parts(&s, &t) else { return };
    // elements of SVG may lose their namespace together with the declaration
    fn plain(l: Vec<Tree>) -> Vec<Tree> {
        l.into_iter()
            .map(|t| match t {
                Tree::Element { ns, name, attrs, kids } => Tree::Element { ns: if ns == SVG { String::new() } else { ns }, name, attrs, kids: plain(kids) },
                t => t,
            })
            .collect()
    }
    sym::check(plain(tree(&a, &every, &every_attr)) == plain(tree(&b, &every, &every_attr)), "only the declaration goes");
    sym::check(b.descendants().all(|e| e.tag_name().name() != "svg" || e.default_tag_name_declared()), "the declaration is gone");
}

trait Declared {
    fn default_tag_name_declared(&self) -> bool;
}
impl Declared for Node<'_, '_> {
    /// No declaration of SVG as default namespace.
    fn default_tag_name_declared(&self) -> bool {
        !self.namespaces().any(|n| n.name().is_none() && n.uri() == SVG)
    }
}

const LINKS: &[&str] = &[
    " %:href='#i@'",
    " %:href='#i@' href='#j'",
    " href='#j' %:title='t@'",
    " %:href='i@' %:show='new'",
    " %:href='i@' %:show='replace' %:title='t'",
    " %:show='new' target='_top'",
    " %:show='other'",
    " %:show='none' %:type='simple' %:role='r@' %:actuate='onLoad' %:arcrole='q'",
    " %:foo='@' foo='@' data-a='b' z:q='1'",
    " z:q='@' z:title='1'",
];
const HOLDERS: &[&str] = &["a", "use", "image", "g", "tref", "z:a", "textPath", "cursor"];
const LEGACY: &[&str] = &["tref", "cursor"];

pub fn xlink() {
    let p = prefix();
    let q = prefix();
    let mut s = format!("<svg xmlns='{SVG}' xmlns:{p}='{XLINK}'");
    s.push_str([" xmlns:z='urn:z' z:k='1' foo='2'", " foo='2' xmlns:z='urn:z'"][sym::pick(2)]);
    s.push_str("><g");
    match sym::pick(4) {
        0 => {}
        1 => s.push_str(&format!(" xmlns:{}='urn:y'", prefix())),
        2 => s.push_str(&format!(" xmlns:{}='{XLINK}' bar='3'", prefix())),
        _ => s.push_str(&format!(" {p}:href='#g' z:bar='1'")),
    }
    s.push('>');
    let holder = sym::one(HOLDERS);
    let mut left = 1;
    let mut links = String::new();
    for c in sym::one(LINKS).chars() {
        match c {
            '%' => links.push(q),
            '@' if left > 0 => {
                left -= 1;
                links.push(sym::of(b"ab1#") as char);
            }
            '@' => links.push('k'),
            c => links.push(c),
        }
    }
    let inside = ["", "<title>u</title>", "t<rect/>"][sym::pick(3)];
    s.push_str(&format!("<{holder}{links}>{inside}</{holder}></g><a foo='1' {p}:href='#last'/></svg>"));
    sym::assume(dtd(&s).is_some());
    let legacy = sym::pick(2) == 1;
    let t = run(&job!(remove_xlink: RemoveXlink { include_legacy: legacy }), &s);
    let Some((a, b)) = parts(&s, &t) else { return };
    let what = format!("{holder} {links:.12} {inside}");
    links_kept(&a.root_element(), &b.root_element(), legacy, &what);
}

fn links_kept(x: &Node, y: &Node, legacy: bool, what: &str) {
    sym::check(x.tag_name() == y.tag_name(), &format!("element {what}"));
    let own = |e: &Node, keep: &dyn Fn(&str) -> bool| {
        let mut l: Vec<_> = e.attributes().filter(|a| a.namespace() != Some(XLINK) && keep(a.name())).map(|a| (a.namespace().map(str::to_string), a.name().to_string(), a.value().to_string())).collect();
        l.sort();
        l
    };
    let other = |n: &str| n != "href" && n != "target";
    sym::check(own(x, &other) == own(y, &other), &format!("other attributes {what}"));
    let link = |e: &Node, n: &str| e.attributes().find(|a| a.namespace() == Some(XLINK) && a.name() == n).map(|a| a.value().to_string());
    let links = ["a", "use", "image", "textPath", "tref", "cursor"].contains(&x.tag_name().name()) && x.tag_name().namespace() == Some(SVG);
    let deprecated = LEGACY.contains(&x.tag_name().name());
    sym::check(href(x) == href(y), &format!("target of the link {what}"));
    let old = deprecated && !legacy;
    if links && link(x, "href").is_some() && attr(x, "href").is_none() {
        let now = if old { link(y, "href") } else { attr(y, "href").map(str::to_string) };
        sym::check(now == link(x, "href"), &format!("link {what}"));
        sym::check(link(y, "href").is_some() == old, &format!("links are replaced {what}"));
    }
    for n in ["actuate", "arcrole", "role", "type"] {
        sym::check(!links || link(y, n).is_none(), &format!("{n} {what}"));
    }
    let target = attr(y, "target");
    match (attr(x, "target"), link(x, "show").as_deref()) {
        _ if x.tag_name().name() != "a" || !links => {}
        (Some(v), _) => sym::check(target == Some(v), &format!("own target {what}")),
        (None, Some("new")) => sym::check(target == Some("_blank"), &format!("new target {what}")),
        (None, Some("replace")) => sym::check(matches!(target, None | Some("_self")), &format!("same target {what}")),
        _ => sym::check(target.is_none(), &format!("no target {what}")),
    }
    let mut kids: Vec<Node> = y.children().filter(|c| c.is_element()).collect();
    if let Some(title) = link(x, "title") {
        if !x.children().any(|c| c.tag_name().name() == "title") && (links || link(y, "title").is_none()) {
            let first = kids.first().is_some_and(|c| c.tag_name().name() == "title" && c.text() == Some(title.as_str()));
            sym::check(first, &format!("title {what}"));
            if first {
                kids.remove(0);
            }
        }
    }
    let before: Vec<Node> = x.children().filter(|c| c.is_element()).collect();
    sym::check(before.len() == kids.len(), &format!("children {what}"));
    for (c, d) in before.iter().zip(&kids) {
        links_kept(c, d, legacy, what);
    }
    let text = |e: &Node| e.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("").trim().to_string()).collect::<String>();
    sym::check(text(x) == text(y), &format!("text {what}"));
}
