//! P20 and P30: jobs that remove or add chosen content change nothing else.
use crate::color;
use crate::css;
use crate::job;
use crate::jobs::run;
use crate::svg::{SVG, XLINK, attr};
use crate::sym;
use crate::xml::dtd;
use oxvg_optimiser::*;
use roxmltree::{Document, Node, NodeType};
use std::collections::BTreeMap;

/// A document as values, adjacent texts joined and white space left out.
#[derive(PartialEq, Debug)]
pub enum Tree {
    Text(String),
    Comment(String),
    Pi(String),
    Element { ns: String, name: String, attrs: Vec<(String, String, String)>, kids: Vec<Tree> },
}

/// What becomes of a node.
pub enum Fate {
    Keep,
    Remove,
    /// replaced by its child elements
    Flatten,
}

type Keeps<'k> = &'k dyn Fn(&Node) -> Fate;
type KeepsAttr<'k> = &'k dyn Fn(&Node, &str, &str, &str) -> bool;

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')).collect()
}

/// Values up to white space that has no meaning.
fn plain(name: &str, v: &str) -> String {
    match name {
        "id" => v.trim_matches(' ').to_string(),
        "class" => v.split_ascii_whitespace().collect::<Vec<_>>().join(" "),
        _ => v.to_string(),
    }
}

fn kids(e: &Node, texts: bool, keeps: Keeps, attr: KeepsAttr, out: &mut Vec<Tree>) {
    for c in e.children() {
        match c.node_type() {
            NodeType::Text => {
                let t = squeeze(c.text().unwrap_or(""));
                if t.is_empty() || !texts {
                    continue;
                }
                match out.last_mut() {
                    Some(Tree::Text(s)) => s.push_str(&t),
                    _ => out.push(Tree::Text(t)),
                }
            }
            _ => match keeps(&c) {
                Fate::Remove => {}
                Fate::Flatten => kids(&c, false, keeps, attr, out),
                Fate::Keep => out.push(match c.node_type() {
                    NodeType::Comment => Tree::Comment(c.text().unwrap_or("").to_string()),
                    NodeType::PI => Tree::Pi(c.pi().unwrap().target.to_string()),
                    _ => {
                        let mut attrs: Vec<_> = c
                            .attributes()
                            .filter(|a| attr(&c, a.namespace().unwrap_or(""), a.name(), a.value()))
                            .map(|a| (a.namespace().unwrap_or("").to_string(), a.name().to_string(), plain(a.name(), a.value())))
                            .collect();
                        attrs.sort();
                        let mut inner = vec![];
                        kids(&c, true, keeps, attr, &mut inner);
                        Tree::Element {
                            ns: c.tag_name().namespace().unwrap_or("").to_string(),
                            name: c.tag_name().name().to_string(),
                            attrs,
                            kids: inner,
                        }
                    }
                }),
            },
        }
    }
}

pub fn tree(d: &Document, keeps: Keeps, attr: KeepsAttr) -> Vec<Tree> {
    let mut out = vec![];
    kids(&d.root(), true, keeps, attr, &mut out);
    out
}

/// Jobs as a configuration file names them.
pub fn config(json: &str) -> Jobs {
    serde_json::from_str(json).unwrap()
}

fn every(_: &Node) -> Fate {
    Fate::Keep
}
fn every_attr(_: &Node, _: &str, _: &str, _: &str) -> bool {
    true
}

fn remains(jobs: &Jobs, s: &str, keeps: Keeps, attr: KeepsAttr, what: &str) {
    let Some(a) = dtd(s) else {
        sym::assume(false);
        return;
    };
    let t = run(jobs, s);
    let Some(b) = dtd(&t) else {
        sym::check(false, &format!("output isn't well-formed: {what}"));
        return;
    };
    sym::cover(1);
    let (x, y) = (tree(&a, keeps, attr), tree(&b, &every, &every_attr));
    if std::env::var_os("SHOW").is_some() {
        sym::log(&format!("{x:?}\n{y:?}"));
    }
    sym::check(x == y, what);
}

fn svg(e: &Node, name: &str) -> bool {
    e.is_element() && e.tag_name().name() == name && e.tag_name().namespace() == Some(SVG)
}

const CONTENT: &[&str] = &[
    "<title>%</title><title/><g><title>%</title>%</g><x:title>%</x:title>",
    "<g id='a%'><desc>%</desc><desc></desc><desc> </desc><desc>Created with %</desc><desc>Created using</desc><desc>Made, Created with %</desc></g><x:desc/>",
    "<desc>x<a>Created with</a></desc><desc><!--c-->%</desc><desc><rect/></desc><desc> Created with %</desc>",
    "<metadata>%<rdf/></metadata><g><metadata/><x:metadata/></g><rect id='%'/>",
    "<script>a%</script><g onclick='%()' onload='b' id='on%'><script href='a'/><x:script/></g><rect on='a' online='b' x:onclick='c'/>",
    "<a href='javascript:%'><rect/>t<g/></a><a xlink:href=' javascript:b'><path d='M0 0h3'/></a><a href='java%:b'>k<rect/></a>",
    "<a href='javascript:a'><a href='javascript:b'><rect/></a><text>%</text></a><g href='javascript:a'/>",
    "<a href='JavaScript:%'><rect/></a><a href='javascript:'/>",
    "<style>.a{fill:red}</style><g><style/><style>.b{fill:red}</style><x:style>%</x:style></g><rect style='fill:red' class='%'/>",
    "<image xlink:href='data:image/png;base64,%'/><image xlink:href='data:image/svg+xml;base64,%'/><image xlink:href='%.jpg'/><image/><x:image xlink:href='a.png'/>",
    "<image href='data:image/gif;base64,%'/><image href='data:image/svg+xml,%'/><g><image xlink:href='data:image/jpeg;base64,%'/></g>",
    "<!--%--><!--!%--><g><!--c%!--><rect/><!-- ! --></g><!---->",
    "<!-- %c--><g><!--!a--><!--%--></g>",
    "<?pi %?><g/><?xml-stylesheet href='%'?>",
    "<g><g><title>a</title></g><title>b</title></g><metadata>a</metadata><metadata>b</metadata><desc/><desc/><style/><style/><script/><script/>",
];

fn fill(t: &str) -> String {
    let mut left = 2;
    let mut s = String::new();
    for c in t.chars() {
        match c {
            '%' if left > 0 => {
                left -= 1;
                s.push(sym::of(b"abckz09! .:-_(") as char);
            }
            '%' => s.push('k'),
            _ => s.push(c),
        }
    }
    s
}

const EVENTS: &[&str] = &["onclick", "onload"];

/// Kinds of content a job removes.
pub fn elements() {
    let t = sym::one(CONTENT);
    let k = sym::pick(12);
    let mut s = String::from(sym::one(&["", "<?xml version='1.0'?><!DOCTYPE svg [<!ENTITY e 'f'>]><!--!p--><!--q-->"]));
    s.push_str("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:x='urn:x'>");
    s.push_str(&fill(t));
    s.push_str("</svg>");
    let jobs = match k {
        0 => job!(remove_title: RemoveTitle(true)),
        1 => job!(remove_desc: RemoveDesc { remove_any: false }),
        2 => job!(remove_desc: RemoveDesc { remove_any: true }),
        3 => job!(remove_metadata: RemoveMetadata(true)),
        4 => job!(remove_scripts: RemoveScripts(true)),
        5 => job!(remove_style_element: RemoveStyleElement(true)),
        6 => job!(remove_raster_images: RemoveRasterImages(true)),
        7 => job!(remove_comments: RemoveComments { preserve_patterns: None }),
        8 => config("{\"removeComments\":{\"preservePatterns\":[]}}"),
        9 => job!(remove_doctype: RemoveDoctype(true)),
        10 => job!(remove_x_m_l_proc_inst: RemoveXMLProcInst(true)),
        _ => config("{\"removeComments\":{\"preservePatterns\":[\"c\"]}}"),
    };
    let script = |e: &Node| {
        let js = svg(e, "a")
            && e.attributes().any(|a| {
                a.name() == "href"
                    && matches!(a.namespace(), None | Some(XLINK))
                    && a.value().trim_start().to_ascii_lowercase().starts_with("javascript:")
            });
        if svg(e, "script") {
            Fate::Remove
        } else if js {
            Fate::Flatten
        } else {
            Fate::Keep
        }
    };
    let keeps = |e: &Node| {
        let gone = match k {
            0 => svg(e, "title"),
            1 => {
                svg(e, "desc") && {
                    let texts: Vec<&str> = e.children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
                    let created = texts.iter().any(|t| t.starts_with("Created with") || t.starts_with("Created using"));
                    created || e.children().all(|c| c.is_text() && squeeze(c.text().unwrap_or("")).is_empty())
                }
            }
            2 => svg(e, "desc"),
            3 => svg(e, "metadata"),
            4 => return script(e),
            5 => svg(e, "style"),
            6 => {
                let raster = |v: &str| ["png", "jpg", "jpeg", "gif"].iter().any(|x| v.ends_with(&format!(".{x}")) || v.starts_with(&format!("data:image/{x};")));
                svg(e, "image") && e.attributes().any(|a| a.name() == "href" && matches!(a.namespace(), None | Some(XLINK)) && raster(a.value()))
            }
            7 => e.is_comment() && !e.text().unwrap_or("").starts_with('!'),
            8 => e.is_comment(),
            9 | 10 => false,
            _ => e.is_comment() && !e.text().unwrap_or("").contains('c'),
        };
        if gone { Fate::Remove } else { Fate::Keep }
    };
    let attr = |_: &Node, ns: &str, name: &str, _: &str| !(k == 4 && ns.is_empty() && EVENTS.contains(&name));
    remains(&jobs, &s, &keeps, &attr, &format!("{t} job {k}"));
    if k == 9 {
        sym::check(!run(&jobs, &s).contains("<!DOCTYPE"), "doctype");
    }
}

const MARKED: &[&str] = &[
    "<rect id='%' class='a'/><g class='%' id='b'><rect class='a b'/><circle id='b%'/></g>",
    "<g class='a %'><rect class='c'/></g><g class='a a'/><rect class='b%'/><path class=' % '/>",
    "<g id='a' class='a'><g id='a'/></g><g id=''/><rect class=''/>",
    "<x:g id='%' class='%'/><rect x:id='a' x:class='a'/>",
    "<g class='b'><g class='b'/></g><g class='b'/><g class='b'/><g id='b'/>",
];

/// Elements chosen by id or class.
pub fn marked() {
    let t = sym::one(MARKED);
    let k = sym::pick(4);
    let ids: Vec<String> = ["a"][..k & 1].iter().map(|s| s.to_string()).collect();
    let classes: Vec<String> = ["b", "c"][..k & 2].iter().map(|s| s.to_string()).collect();
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:x='urn:x'>");
    s.push_str(&fill(t));
    s.push_str("</svg>");
    let keeps = |e: &Node| {
        let hit = attr(e, "id").is_some_and(|v| ids.iter().any(|i| i == v.trim_matches(' ')))
            || attr(e, "class").is_some_and(|v| v.split_ascii_whitespace().any(|c| classes.iter().any(|i| i == c)));
        if hit { Fate::Remove } else { Fate::Keep }
    };
    let jobs = job!(remove_elements_by_attr: RemoveElementsByAttr { id: ids.clone(), class: classes.clone() });
    remains(&jobs, &s, &keeps, &every_attr, &format!("{t} {k}"));
}

const ATTRIBUTES: &[&str] = &[
    "<rect fill='red' stroke='%' id='a'/><g fill='currentColor' class='%'><path d='M0 0h1' fill='red'/></g>",
    "<g stroke='currentColor' fill='#00%'><rect width='%' x='1' y='1'/></g><circle r='%' fill='none'/>",
    "<rect xlink:href='%' x:fill='red' stroke-width='%' data-a='b'/><text fill='red'>%</text>",
    "<x:rect fill='red' id='%'/><rect style='fill:red' class='a b'/><path id='b' fill='red' d='M0 0h3'/>",
];

/// Attributes chosen by pattern or selector.
pub fn attributes() {
    let t = sym::one(ATTRIBUTES);
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:x='urn:x' fill='red'>");
    s.push_str(&fill(t));
    s.push_str("</svg>");
    let spaced = |v: &str| v.trim() != v || v.contains(' ') && v != "a b";
    match dtd(&s) {
        Some(d) => sym::assume(!d.descendants().any(|e| e.attributes().any(|a| spaced(a.value())))),
        None => sym::assume(false),
    }
    let local = |ns: &str, name: &str| {
        match ns {
            "" => name.to_string(),
            XLINK => format!("xlink:{name}"),
            _ => format!("x:{name}"),
        }
    };
    if sym::pick(2) == 1 {
        const PATTERNS: &[(&str, &str)] = &[
            ("fill", ":"),
            ("rect:fill", ":"),
            ("rect:fill:red", ":"),
            ("*:fill:red", ":"),
            ("path:*", ":"),
            ("*:*:red", ":"),
            (".*:(fill|stroke)", ":"),
            ("stroke", ":"),
            ("*|xlink:href", "|"),
            ("x:fill", "|"),
            ("fil", ":"),
            ("ill", ":"),
            ("re:fill", ":"),
            ("*:fill:re", ":"),
            ("g:fill:currentColor", ":"),
        ];
        let (p, sep) = PATTERNS[sym::pick(PATTERNS.len())];
        let keep = sym::pick(2) == 1;
        let parts: Vec<&str> = p.split(sep).collect();
        let (e0, a0, v0) = match parts[..] {
            [a] => ("*", a, "*"),
            [e, a] => (e, a, "*"),
            [e, a, v] => (e, a, v),
            _ => unreachable!(),
        };
        let is = |p: &str, v: &str| p == "*" || p == ".*" || p == v || p == "(fill|stroke)" && (v == "fill" || v == "stroke");
        let attr = |e: &Node, ns: &str, name: &str, value: &str| {
            let el = local(e.tag_name().namespace().filter(|n| *n != SVG).unwrap_or(""), e.tag_name().name());
            let current = matches!(name, "fill" | "stroke") && ns.is_empty() && value == "currentColor";
            !(is(e0, &el) && is(a0, &local(ns, name)) && is(v0, value)) || keep && current
        };
        let jobs = job!(remove_attrs: RemoveAttrs { attrs: vec![p.to_string()], elem_separator: sep.to_string(), preserve_current_color: keep });
        remains(&jobs, &s, &every, &attr, &format!("{t} {p} {keep}"));
    } else {
        const SELECTORS: &[&str] = &["rect", "*", "[fill]", "[fill='red']", "g > path", "#a", ".a", "rect, path", "g *", "rect + g", ":root", "svg > :first-child", "rect:not([id])", "path:last-child"];
        const NAMES: &[&[&str]] = &[&["fill"], &["fill", "stroke"], &["xlink:href", "id"], &["x:fill", "d"], &["fil", "width"]];
        let p = sym::one(SELECTORS);
        let n = NAMES[sym::pick(NAMES.len())];
        let sels = css::selectors(p).unwrap();
        let attr = |e: &Node, ns: &str, name: &str, _: &str| !(n.contains(&local(ns, name).as_str()) && sels.iter().any(|s| css::matches(s, e, false)));
        let jobs = config(&format!("{{\"removeAttributesBySelector\":[{{\"selector\":{p:?},\"attributes\":{n:?}}}]}}"));
        remains(&jobs, &s, &every, &attr, &format!("{t} {p} {n:?}"));
    }
}

const SIZES: &[&str] = &["", " width='1@'", " height='1@'", " width='1@' height='2@'", " width='1@px' height='2@'", " width='1@%' height='2@'", " width='1em' height='2@'"];
const BOXES: &[&str] = &["", " viewBox='0 0 1@ 2@'", " viewBox='0 1 1@ 2@'", " viewBox='0,0,1@,20'"];

/// Dimensions and view box.
pub fn dimensions() {
    let (w, b) = (sym::one(SIZES), sym::one(BOXES));
    let inner = sym::one(&["<rect width='5' height='6'/>", "<svg width='10' height='20' viewBox='0 0 10 20'/>", "<g id='a'/>", "<symbol id='s' viewBox='0 0 1 2' width='1' height='2'/>", "<pattern viewBox='0 0 1 2' width='1' height='2'/>"]);
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' id='r'");
    let mut left = 4;
    crate::jobs::put_some(&mut s, w, &mut left);
    crate::jobs::put_some(&mut s, b, &mut left);
    s.push_str(&format!(">{inner}</svg>"));
    let dims = sym::pick(2) == 1;
    let jobs = if dims { job!(remove_dimensions: RemoveDimensions(true)) } else { job!(remove_view_box: RemoveViewBox(true)) };
    let t = run(&jobs, &s);
    let (Some(a), Some(o)) = (dtd(&s), dtd(&t)) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    sym::cover(1);
    let what = format!("{w} {b} {inner} {dims}");
    let x: Vec<Node> = a.descendants().filter(|n| n.is_element()).collect();
    let y: Vec<Node> = o.descendants().filter(|n| n.is_element()).collect();
    sym::check(x.len() == y.len(), &what);
    for (x, y) in x.iter().zip(&y) {
        let px = |v: Option<&str>| v.and_then(|v| v.trim_end_matches("px").parse::<f64>().ok());
        let nums = |v: &str| -> Vec<f64> { v.split([' ', ',']).filter_map(|v| v.parse().ok()).collect() };
        let size = (px(attr(&x, "width")), px(attr(&x, "height")));
        let vb = attr(&x, "viewBox").map(nums);
        let mut want: Vec<(String, String)> = x.attributes().map(|a| (a.name().to_string(), a.value().to_string())).collect();
        let mut add = None;
        if dims && svg(x, "svg") {
            if vb.is_some() {
                want.retain(|(n, _)| n != "width" && n != "height");
            } else if let (Some(w), Some(h)) = size {
                want.retain(|(n, _)| n != "width" && n != "height");
                add = Some(vec![0.0, 0.0, w, h]);
            }
        } else if !dims && (svg(x, "symbol") || svg(x, "pattern") || svg(x, "svg") && x.parent_element().is_none()) {
            if let (Some(w), Some(h)) = size
                && vb == Some(vec![0.0, 0.0, w, h])
            {
                want.retain(|(n, _)| n != "viewBox");
            }
        }
        let got: Vec<_> = y.attributes().map(|a| (a.name().to_string(), a.value().to_string())).collect();
        let alike = |n: &str, a: &str, b: &str| if n == "viewBox" { nums(a) == nums(b) } else { a == b || px(Some(a)).is_some() && px(Some(a)) == px(Some(b)) };
        let found = want.iter().all(|(n, v)| got.iter().any(|(m, w)| n == m && alike(n, v, w)));
        let extra = got.iter().all(|(n, v)| want.iter().any(|(m, _)| n == m) || n == "viewBox" && add.as_ref() == Some(&nums(v)));
        let added = add.is_none() || got.iter().any(|(n, _)| n == "viewBox");
        sym::check(found && extra && added, &what);
    }
}

const ROOTS: &[&str] = &["", " class='a'", " class='%'", " class='% b'", " class=''", " id='%'", " fill='red'", " x:fill='%' class='c'"];

/// Attributes and classes added to the root.
pub fn additions() {
    let r = sym::one(ROOTS);
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:x='urn:x'");
    s.push_str(&fill(r));
    s.push_str("><svg class='k'/><g class='k'><x:svg/></g></svg>");
    let Some(a) = dtd(&s) else {
        sym::assume(false);
        return;
    };
    sym::assume(!a.root_element().attributes().any(|a| a.value().trim() != a.value() || a.value().contains("  ")));
    let k = sym::pick(7);
    let class = |names: &[&str], one: Option<&str>| AddClassesToSVGElement { class_names: (!names.is_empty()).then(|| names.iter().map(|s| s.to_string()).collect()), class_name: one.map(str::to_string) };
    let attrs = |l: &[(&str, &str)]| AddAttributesToSVGElement { attributes: l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>() };
    let (jobs, classes, new): (Jobs, &[&str], &[(&str, &str)]) = match k {
        0 => (job!(add_classes_to_s_v_g_element: class(&["a"], None)), &["a"], &[]),
        1 => (job!(add_classes_to_s_v_g_element: class(&["b", "c"], None)), &["b", "c"], &[]),
        2 => (job!(add_classes_to_s_v_g_element: class(&[], Some(" b  c "))), &["b", "c"], &[]),
        3 => (job!(add_classes_to_s_v_g_element: class(&["a"], Some("b"))), &["a"], &[]),
        4 => (job!(add_attributes_to_s_v_g_element: attrs(&[("fill", "blue")])), &[], &[("fill", "blue")]),
        5 => (job!(add_attributes_to_s_v_g_element: attrs(&[("data-x", "y"), ("id", "q")])), &[], &[("data-x", "y"), ("id", "q")]),
        _ => (job!(add_attributes_to_s_v_g_element: attrs(&[("class", "b"), ("focusable", "false")])), &[], &[("class", "b"), ("focusable", "false")]),
    };
    let t = run(&jobs, &s);
    let Some(b) = dtd(&t) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    sym::cover(1);
    let what = format!("{r} {k}");
    let (ra, rb) = (a.root_element(), b.root_element());
    let list = |v: Option<&str>| -> Vec<String> {
        let mut l: Vec<String> = v.unwrap_or("").split_ascii_whitespace().map(str::to_string).collect();
        l.sort();
        l.dedup();
        l
    };
    let mut want = list(attr(&ra, "class"));
    want.extend(classes.iter().map(|s| s.to_string()));
    if k == 6 && attr(&ra, "class").is_none() {
        want.push("b".into());
    }
    want.sort();
    want.dedup();
    sym::check(list(attr(&rb, "class")) == want, &format!("classes {what}"));
    let count = attr(&rb, "class").unwrap_or("").split_ascii_whitespace().count();
    let before = attr(&ra, "class").unwrap_or("").split_ascii_whitespace().count();
    let missing = want.len() - list(attr(&ra, "class")).len();
    sym::check(k > 3 || count <= before + missing, &format!("duplicate classes {what}"));
    let mut extra = 0;
    for (n, v) in new {
        if *n == "class" {
            continue;
        }
        let old = attr(&ra, *n);
        let same = |a: &str, b: &str| a == b || *n == "fill" && color::parse(a) == color::parse(b);
        sym::check(attr(&rb, *n).is_some_and(|w| same(w, old.unwrap_or(v))), &format!("attribute {what}"));
        extra += usize::from(old.is_none());
    }
    let others = |e: &Node| e.attributes().filter(|a| a.name() != "class" || a.namespace().is_some()).count();
    sym::check(others(&ra) + extra == others(&rb), &format!("attributes {what}"));
    for x in ra.attributes().filter(|a| a.name() != "class") {
        let y = rb.attributes().find(|y| y.name() == x.name() && y.namespace() == x.namespace());
        sym::check(y.is_some_and(|y| y.value() == x.value()), &format!("kept {what}"));
    }
    // nothing below the root changes
    let below = |d: &Document| {
        let mut out = vec![];
        kids(&d.root_element(), true, &every, &every_attr, &mut out);
        out
    };
    sym::check(below(&a) == below(&b), &format!("children {what}"));
}
