//! P01 and P22: documents keep their content when parsed and serialised.
use crate::sym;
use oxvg_ast::serialize::{Node as _, Options};
use roxmltree::{Document, Node, NodeType, ParsingOptions};

pub fn dtd(s: &str) -> Option<Document<'_>> {
    Document::parse_with_options(s, ParsingOptions { allow_dtd: true, ..Default::default() }).ok()
}

fn options(k: usize) -> Options {
    match k {
        0 => Options::default(),
        1 => Options::pretty(),
        2 => Options::original(),
        _ => Options { use_single_quote: true, enable_self_closing: false, ..Options::default() },
    }
}

/// Parses and serialises without any job.
fn through(s: &str, k: usize) -> String {
    sym::log(s);
    let options = options(k);
    let r = oxvg_ast::parse::roxmltree::parse_with_options(s, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, _| {
        dom.serialize_with_options(options).map_err(|_| ())
    });
    let t = match r {
        Ok(Ok(t)) => t,
        Ok(Err(())) => {
            sym::check(false, "serialising failed");
            String::new()
        }
        Err(_) => {
            sym::check(false, "well-formed document rejected");
            String::new()
        }
    };
    sym::log(&t);
    t
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')).collect()
}

/// Children that matter, adjacent texts joined.
fn children<'a, 'd>(e: &Node<'a, 'd>) -> Vec<(Option<Node<'a, 'd>>, String)> {
    let mut out: Vec<(Option<Node<'a, 'd>>, String)> = vec![];
    for c in e.children() {
        match c.node_type() {
            NodeType::Text => {
                let t = squeeze(c.text().unwrap_or(""));
                if t.is_empty() {
                    continue;
                }
                match out.last_mut() {
                    Some((None, s)) => s.push_str(&t),
                    _ => out.push((None, t)),
                }
            }
            _ => out.push((Some(c), String::new())),
        }
    }
    out
}

pub fn same_tree(a: &Node, b: &Node, what: &mut String) -> bool {
    macro_rules! bad {
        ($s:expr) => {{
            *what = $s.to_string();
            false
        }};
    }
    if a.node_type() != b.node_type() {
        return bad!("kinds of nodes differ");
    }
    match a.node_type() {
        NodeType::Comment => {
            return a.text() == b.text() || bad!("comments differ");
        }
        NodeType::PI => {
            let (x, y) = (a.pi().unwrap(), b.pi().unwrap());
            return (x.target == y.target && x.value.map(str::trim) == y.value.map(str::trim)) || bad!("processing instructions differ");
        }
        NodeType::Element => {
            let space = |e: &Node| e.tag_name().namespace().unwrap_or("").to_string();
            if a.tag_name().name() != b.tag_name().name() || space(a) != space(b) {
                return bad!("element names differ");
            }
            if a.attributes().len() != b.attributes().len() {
                return bad!("number of attributes differs");
            }
            for x in a.attributes() {
                let Some(y) = b.attributes().find(|y| y.namespace() == x.namespace() && y.name() == x.name()) else {
                    return bad!("attribute is missing");
                };
                // names can't start or end with white space
                let trims = matches!(x.name(), "id" | "color-profile" | "target");
                let value = |v: &str| if trims { v.trim_matches([' ', '\t', '\n', '\r']).to_string() } else { v.to_string() };
                if value(x.value()) != value(y.value()) {
                    return bad!("attribute values differ");
                }
            }
            if a.tag_name().name() == "style" {
                return true;
            }
        }
        _ => {}
    }
    let (x, y) = (children(a), children(b));
    if x.len() != y.len() {
        return bad!("numbers of children differ");
    }
    for ((x, s), (y, t)) in x.iter().zip(&y) {
        match (x, y) {
            (None, None) => {
                if s != t {
                    return bad!("texts differ");
                }
            }
            (Some(x), Some(y)) => {
                if !same_tree(x, y, what) {
                    return false;
                }
            }
            _ => return bad!("text and element swapped"),
        }
    }
    true
}

fn check(s: &str, k: usize, label: &str) {
    let Some(a) = dtd(s) else {
        // the symbolic bytes don't make a well-formed document
        sym::assume(false);
        return;
    };
    let t = through(s, k);
    let Some(b) = dtd(&t) else {
        sym::check(false, &format!("output isn't well-formed: {label}"));
        return;
    };
    sym::cover(1);
    let mut what = String::new();
    let ok = same_tree(&a.root(), &b.root(), &mut what);
    sym::check(ok, &format!("{what}: {label}"));
}

const REFS: &[&str] = &["", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#10;", "&#9;", "&#13;", "&#xa0;", "é", "&#x1F600;", "\n", "]]&gt;", "&amp;amp;", "--"];

/// Printable text with symbolic bytes around a reference.
fn text(n: usize, quote: u8) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let c = sym::byte(b' ', b'~');
        sym::assume(!matches!(c, b'<' | b'&') && c != quote);
        s.push(c as char);
    }
    s.push_str(sym::one(REFS));
    let c = sym::byte(b' ', b'~');
    sym::assume(!matches!(c, b'<' | b'&') && c != quote);
    s.push(c as char);
    s
}

const FREE: &[&str] = &[
    "id", "data-x", "foo", "aria-label", "lang", "onclick", "xlink:title", "xml:lang", "xml:base", "a:b", "s:href", "href", "xlink:href", "class", "title", "content", "in", "result", "name", "systemLanguage", "role",
    "requiredExtensions", "media", "type", "version", "glyph-name", "unicode", "from", "to", "by", "attributeName", "target", "rel", "download", "hreflang", "ping", "crossorigin", "font-family", "color-profile", "d2", "viewTarget",
];
const HOSTS: &[&str] = &["g", "svg", "text", "a", "use", "image", "style", "script", "animate", "stop", "feBlend", "foo", "a:foo", "font-face", "glyph", "view", "switch", "title", "feImage", "linearGradient"];

const TOP: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:a='urn:a' xmlns:s='http://www.w3.org/2000/svg'>";

/// Free text in attributes.
pub fn attributes() {
    let k = sym::pick(4);
    let host = if k == 0 { sym::one(HOSTS) } else { sym::one(&["g", "use"]) };
    let name = sym::one(FREE);
    let q = if k == 1 { '"' } else { '\'' };
    let v = text(if k == 0 { 1 } else { 0 }, q as u8);
    // lists of names are separated by white space
    if matches!(name, "class" | "systemLanguage" | "requiredExtensions" | "rel" | "ping" | "role" | "in" | "tabindex" | "font-family" | "media" | "by" | "from" | "to" | "crossorigin" | "version" | "unicode") {
        sym::assume(v.bytes().all(|c| c.is_ascii_alphanumeric()));
    }
    check(&format!("{TOP}<{host} {name}={q}{v}{q}/></svg>"), k, &format!("{host} {name}"));
}

/// Text, CDATA sections, comments and processing instructions.
pub fn texts() {
    let k = sym::pick(4);
    let hosts = ["text", "title", "script", "foo", "g", "a:b", "metadata", "desc", "style type='x'"];
    let around = sym::pick(2) == 1;
    let mut s = String::new();
    if around {
        s.push_str(sym::one(&["", "<?xml version='1.0'?>", "<!--c-->", "<?p c?>", "<!DOCTYPE svg [<!ENTITY e 'x&#38;lt;y'>]>\n", "<?p?><?q r?>"]));
    }
    s.push_str(TOP);
    let host = if around { "text" } else { sym::one(&hosts[if k == 0 { 0 } else { 8 - k }..]) };
    s.push_str(&format!("<{host}>"));
    let first = if around { 4 } else { sym::pick(7) };
    for part in [first, sym::pick(7)] {
        match part {
            0 => s.push_str(&text(0, 0)),
            1 => {
                s.push_str("<![CDATA[");
                let c = sym::byte(b' ', b'~');
                sym::assume(c != b']');
                s.push(c as char);
                s.push_str(sym::one(&["", "]]", "&lt;", "<b/>"]));
                s.push_str("]]>");
            }
            2 => {
                s.push_str("<!--");
                let c = sym::byte(b' ', b'~');
                sym::assume(c != b'-');
                s.push(c as char);
                s.push_str(sym::one(&["x", "&lt;", "-y"]));
                s.push_str("-->");
            }
            3 => {
                s.push_str("<?pi ");
                let c = sym::byte(b'!', b'~');
                sym::assume(c != b'?');
                s.push(c as char);
                s.push('x');
                s.push_str("?>");
            }
            4 => s.push_str("<tspan>b</tspan>"),
            5 => s.push_str(" \n "),
            _ => s.push_str("<a:c xmlns:a='urn:b' a:d='1'/>"),
        }
    }
    let host = host.split(' ').next().unwrap();
    s.push_str(&format!("</{host}></svg>"));
    if around {
        s.push_str(sym::one(&["", "<!--z-->", "<?p z?>", "\n"]));
    }
    check(&s, k, host);
}

/// Names of elements and attributes with one symbolic letter.
pub fn names() {
    let names = [
        "g", "svg", "path", "rect", "tspan", "feBlend", "feFuncR", "linearGradient", "clipPath", "foreignObject", "animateTransform", "font-face-uri", "textPath", "hkern", "view", "x_y", "altGlyph", "feMergeNode", "marker",
        "discard", "mpath", "feDropShadow",
    ];
    let attrs = ["foo-bar", "clip-ruleX", "data-y", "X1Y", "onfocusin", "xmlnss", "viewbox", "transforms", "stroke-widths", "aria-labels", "rX", "zoomAndPans", "styles", "hrefs", "ids", "baseFrequencys"];
    let prefix = sym::one(&["", "a:", "s:"]);
    let put = |t: &str| {
        let at = sym::pick(t.len());
        let mut v = t.as_bytes().to_vec();
        v[at] = sym::of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
        String::from_utf8(v).unwrap()
    };
    let what = sym::pick(2);
    let s = if what == 0 {
        let n = put(sym::one(&names));
        format!("{TOP}<{prefix}{n}><{prefix}{n}/></{prefix}{n}></svg>")
    } else {
        let n = put(sym::one(&attrs));
        let host = sym::one(&["g", "a:q", "use"]);
        format!("{TOP}<{host} {prefix}{n}='v'/></svg>")
    };
    check(&s, 0, if what == 0 { "element names" } else { "attribute names" });
}

/// Declarations of namespaces at every level.
pub fn namespaces() {
    let decls = ["", " xmlns:@='urn:@'", " xmlns='urn:@'", " xmlns=''", " xmlns='http://www.w3.org/2000/svg'", " xmlns:@='http://www.w3.org/2000/svg'", " xmlns:l='http://www.w3.org/1999/xlink'"];
    let names = ["g", "@:g"];
    let attrs = ["", " @:x='1'", " x='1'", " l:href='#i'", " @:href='#i'"];
    let fill = |t: &str| -> String { t.chars().map(|c| if c == '@' { sym::of(b"ab") as char } else { c }).collect() };
    let open = |s: &mut String, d: &str, n: &str, a: &str| {
        s.push('<');
        s.push_str(n);
        s.push_str(d);
        s.push_str(a);
        s.push('>');
    };
    let mut s = String::new();
    let root = sym::one(&["<svg xmlns='http://www.w3.org/2000/svg'", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:a='urn:a' xmlns:l='http://www.w3.org/1999/xlink'", "<s:svg xmlns:s='http://www.w3.org/2000/svg'", "<svg xmlns:a='urn:b'", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:b='http://www.w3.org/2000/svg'"]);
    s.push_str(root);
    s.push('>');
    let (d, n, a) = (fill(sym::one(&decls)), fill(sym::one(&names)), fill(sym::one(&attrs)));
    open(&mut s, &d, &n, &a);
    let kind = sym::pick(3);
    match kind {
        0 => {}
        1 => {
            let (d, n) = (fill(sym::one(&decls)), fill(sym::one(&names)));
            open(&mut s, &d, &n, " y='2'");
            s.push_str(&format!("</{n}>"));
        }
        _ => s.push_str("<style xmlns:z='urn:z'>a{b:c}</style><z/>"),
    }
    s.push_str(&format!("</{n}>"));
    if kind != 1 || sym::deep() {
        let (d, n) = (fill(sym::one(&decls)), fill(sym::one(&names)));
        let a = fill(sym::one(&["", " @:x='3'"]));
        open(&mut s, &d, &n, &a);
        s.push_str(&format!("</{n}>"));
    } else {
        s.push_str("<g/>");
    }
    s.push_str(if root.starts_with("<s:") { "</s:svg>" } else { "</svg>" });
    // only well-formed documents matter
    if dtd(&s).is_none() {
        return;
    }
    check(&s, 0, "namespaces");
}

/// Style sheets with characters that are special in XML.
pub fn styles() {
    let css = sym::one(&[
        "a&gt;b{fill:red}", "a{fill:url(\"x?a&amp;b\")}", "a::before{content:\"&lt;@\"}", "a{b:c}&lt;!-- d{e:f} --&gt;", "a{--x:\"]]&gt;@\"}", "a[b=\"&lt;\"]{fill:red}", "a{color:red}a{b{fill:blue}}", "a{fill:red;&amp;:hover{fill:blue}}",
        "@import url(\"a&amp;b@\");", "@media (width&lt;9@px){a{fill:red}}", "@media (width&lt;=9@px){a{fill:red}}", "{{{&lt;", "", " ", "/* &amp; */", "@font-face{src:url(a?b&amp;c)}",
    ]);
    let mut s = String::from(TOP);
    let cdata = sym::pick(2) == 1;
    s.push_str("<style>");
    let mut body = String::new();
    crate::jobs::put(&mut body, css);
    if cdata {
        s.push_str("<![CDATA[");
        s.push_str(&body.replace("&lt;", "<").replace("&gt;", if css.contains("]]") { "" } else { ">" }).replace("&amp;", "&"));
        s.push_str("]]>");
    } else {
        s.push_str(&body);
    }
    s.push_str("</style><g/></svg>");
    if css.contains("&lt;") && !css.contains("{{{") && !css.contains("!--") {
        sym::known("P01-less");
    }
    check(&s, sym::pick(4), css);
    let t = through(&s, 0);
    // what the style sheet says is the business of P11; here it stays readable and isn't lost
    let a = dtd(&s).unwrap();
    let Some(b) = dtd(&t) else { return };
    let get = |d: &Document| -> String { d.descendants().filter(|e| e.tag_name().name() == "style").flat_map(|e| e.descendants()).filter_map(|e| if e.is_text() { e.text() } else { None }).collect::<String>() };
    let (a, b) = (get(&a), get(&b));
    let letters = |s: &str| s.bytes().filter(|c| matches!(c, b'<' | b'&' | b'{')).count();
    if !css.contains("/*") && !css.contains("!--") {
        sym::check(letters(&a) == letters(&b) || css.contains("a{b{") && letters(&b) > 2, &format!("style sheet lost: {css}"));
    }
}

/// The characters a text element shows, each with the element it is in.
pub fn shown(e: &Node) -> Vec<(char, usize)> {
    fn walk(e: &Node, keep: bool, index: &mut usize, out: &mut Vec<(char, usize, bool)>) {
        let me = *index;
        for c in e.children() {
            if c.is_text() {
                for ch in c.text().unwrap_or("").chars() {
                    let space = matches!(ch, ' ' | '\t' | '\n' | '\r');
                    out.push((if space { ' ' } else { ch }, me, space && !keep));
                }
            } else if c.is_element() {
                *index += 1;
                let keep = match c.attribute(("http://www.w3.org/XML/1998/namespace", "space")) {
                    Some(v) => v == "preserve",
                    None => keep,
                };
                walk(&c, keep, index, out);
            }
        }
    }
    let mut all = vec![];
    let keep = e.ancestors().find_map(|a| a.attribute(("http://www.w3.org/XML/1998/namespace", "space"))) == Some("preserve");
    walk(e, keep, &mut 0, &mut all);
    let mut out: Vec<(char, usize)> = vec![];
    let mut last_space = true;
    for (c, who, collapse) in all {
        if collapse {
            if !last_space {
                out.push((' ', usize::MAX));
            }
            last_space = true;
        } else {
            out.push((c, who));
            last_space = c == ' ';
        }
    }
    while out.last().is_some_and(|(c, who)| *c == ' ' && *who == usize::MAX) {
        out.pop();
    }
    out
}

/// All texts of a document.
pub fn texts_of(d: &Document) -> Vec<Vec<(char, usize)>> {
    d.descendants().filter(|e| e.is_element() && matches!(e.tag_name().name(), "text" | "title" | "desc")).map(|e| shown(&e)).collect()
}

/// P22: a document of texts with spans; spaces and letters are symbolic.
pub fn text_document() -> String {
    let mut s = String::from(TOP);
    let gap = |s: &mut String| {
        s.push_str(match sym::pick(6) {
            0 => "",
            1 => "x",
            2 => " x",
            3 => "x ",
            4 => "\n",
            _ => "&#xa0;",
        })
    };
    let keep = [" xml:space='preserve'", " xml:space='default'", ""];
    let p = sym::pick(3);
    let o = if p == 2 { sym::pick(3) } else { 2 };
    if p == 0 {
        s.push_str("<text xml:space='preserve'> a </text>");
    }
    s.push_str(&format!("<text{}>", keep[o]));
    gap(&mut s);
    let span = sym::one(&["<tspan~>", "<textPath href='#p'~>", "<a href='b'~>", "<tspan x='3'~>", "<!--c-->", "<tspan><tspan~>"]);
    s.push_str(&span.replace('~', keep[if p == 2 { sym::pick(3) } else { 2 }]));
    let name = match span.as_bytes()[1] {
        b'!' => "",
        b'a' => "</a>",
        _ if span.contains("Path") => "</textPath>",
        _ if span.matches('<').count() == 2 => "</tspan></tspan>",
        _ => "</tspan>",
    };
    gap(&mut s);
    s.push_str(name);
    if sym::pick(2) == 1 {
        gap(&mut s);
        s.push_str("<tspan>");
        s.push(sym::of(b"yz \n\t") as char);
        s.push(sym::of(b"yz ") as char);
        s.push_str("</tspan>");
    }
    s.push(sym::of(b"yz \n") as char);
    s.push_str("</text>");
    if p == 1 {
        s.push_str("<title> a &lt;  b </title><text> c <tspan> d</tspan></text>");
    }
    s.push_str("</svg>");
    s
}

pub fn same_texts(s: &str, t: &str, what: &str) {
    let a = dtd(s).unwrap();
    let Some(b) = dtd(t) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    let (x, y) = (texts_of(&a), texts_of(&b));
    sym::check(x == y, what);
}

pub fn text_shown() {
    let s = text_document();
    // indented output doesn't keep spaces (documented)
    let k = [0, 2, 3][sym::pick(3)];
    let t = through(&s, k);
    sym::cover(1);
    same_texts(&s, &t, "text shown changes");
}

/// P22: the presets keep the characters of every text.
pub fn text_optimised() {
    let jobs = if sym::pick(2) == 0 { oxvg_optimiser::Jobs::default() } else { oxvg_optimiser::Jobs::safe() };
    let mut s = String::from(TOP);
    s.push_str(sym::one(&["", "<title>t</title>", "<desc>d &lt; e</desc>", "<style>.a{fill:red}</style>"]));
    let open = sym::one(&["<text>", "<g fill='red'><text class='a'>", "<text xml:space='preserve'>", "<text x='1' y='2'>", "<g transform='translate(1)'><text>"]);
    s.push_str(open);
    let g = open.starts_with("<g");
    let letter = |s: &mut String| {
        let c = sym::byte(b' ', b'~');
        sym::assume(!matches!(c, b'<' | b'&'));
        s.push(c as char);
    };
    letter(&mut s);
    s.push_str(sym::one(&["", "\n", "&lt;", "&#xa0;", "<![CDATA[<b>]]>", "<!--c-->"]));
    let span = sym::pick(6);
    s.push_str(["", "<tspan>", "<tspan fill='red'>", "<a href='q'>", "<tspan x='3'>", "<textPath href='#p'>"][span]);
    let mid = sym::one(&["", "x", " x ", " "]);
    s.push_str(mid);
    s.push_str(["", "</tspan>", "</tspan>", "</a>", "</tspan>", "</textPath>"][span]);
    let end = sym::one(&["", "z", " z", "<tspan> w</tspan>"]);
    s.push_str(end);
    s.push_str("</text>");
    if g {
        s.push_str("</g>");
    }
    s.push_str("<path id='p' d='M0 0h9'/></svg>");
    let t = crate::jobs::run(&jobs, &s);
    sym::cover(1);
    let a = dtd(&s).unwrap();
    let Some(b) = dtd(&t) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    let chars = |d: &Document| -> Vec<String> { texts_of(d).iter().map(|t| t.iter().map(|(c, _)| *c).collect::<String>()).filter(|t| !t.trim().is_empty()).collect() };
    let (x, y) = (chars(&a), chars(&b));
    sym::check(x == y, &format!("text changes: {span} {mid} {end} {open}"));
}
