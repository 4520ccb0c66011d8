//! Odd values: everything ends with a result or an error.
use crate::jobs::{DEFS, HEAD};
use crate::sym;
use crate::values::TABLE;
use oxvg_ast::{parse::roxmltree::parse, serialize::Node as _, visitor::Info};
use oxvg_optimiser::Jobs;

/// Bytes that mean something to some parser; `<` and `&` are XML's.
const BYTES: &[u8] = b" \t\n,;:.#%()+-/0579@AEMTZ\\_adeilnmprsuxz{}[]*!\"=?^|~";

/// What attributes that aren't in `TABLE` look like.
const VALUES: &[(&str, &str, &str)] = &[
    ("path", "d", "M1 2a3 4 5 1 0 6-7.8e1z"),
    ("polygon", "points", "1,2 3-4"),
    ("g", "transform", "rotate(9 1 2)scale(3),skewX(4)"),
    ("linearGradient", "gradientTransform", "matrix(1 2 3 4 5 6)"),
    ("path", "style", "fill:red;stroke:url(#l) blue!important;x:y"),
    ("path", "style", "transform:translate(1px,2%) rotate(3deg)"),
    ("path", "style", "font:italic 9px/1 'a b',c;mask:url(#m)"),
    ("path", "class", "a b"),
    ("path", "id", "i"),
    ("path", "fill", "rgb(1,2%,3)"),
    ("path", "stroke", "url(#l) hsl(1deg 2% 3%/.4)"),
    ("path", "fill", "#a0bc"),
    ("path", "color", "color-mix(in lch,red 9%,blue)"),
    ("path", "opacity", ".5%"),
    ("path", "stroke-dasharray", "1 2%,3px"),
    ("path", "stroke-width", "calc(1px + 2%)"),
    ("path", "clip-path", "polygon(1px 2%,3px 4px)"),
    ("path", "mask", "url(#m) luminance"),
    ("path", "filter", "blur(1px) drop-shadow(1px 2px red)"),
    ("path", "marker-end", "url(#k)"),
    ("path", "transform-origin", "1px left"),
    ("path", "cursor", "url(a) 1 2,auto"),
    ("text", "font-family", "'a b',c"),
    ("text", "font-size", "1.5em"),
    ("text", "font", "bold 9px a"),
    ("text", "rotate", "1 2,3"),
    ("svg", "viewBox", "0 0 9,9"),
    ("svg", "preserveAspectRatio", "xMidYMid slice"),
    ("svg", "enable-background", "new 0 0 9 9"),
    ("use", "href", "#i"),
    ("use", "xlink:href", "data:,a"),
    ("animate", "begin", "i.click+1.5s;2:03"),
    ("animate", "values", "1;2"),
    ("animate", "keySplines", "0 .5 1 1"),
    ("animate", "keyTimes", "0;.5;1"),
    ("animateMotion", "path", "M1 2l3 4"),
    ("switch", "systemLanguage", "en-US,de"),
    ("a", "onclick", "x()"),
    ("style", "media", "screen and (width>=9px)"),
    ("feColorMatrix", "values", "1 0 .5"),
    ("feFuncR", "tableValues", "1,.5"),
];

fn through(jobs: &Jobs, s: &str) {
    sym::log(s);
    let r = parse(s, |dom, allocator| {
        // a failing job is an answer
        let _ = jobs.run(dom, &Info::new(allocator));
        dom.serialize().map(|t| t.len())
    });
    if let Ok(Ok(_)) = r {
        sym::cover(1);
    }
}

/// A document with the value on an element.
fn doc(e: &str, a: &str, v: &str) -> String {
    let mut s = String::from(HEAD);
    s.push_str(DEFS);
    s.push_str("<g id='z'><");
    s.push_str(e);
    if !matches!(a, "d") {
        s.push_str(if e == "path" { " d='M1 2h3v4z'" } else { "" });
    }
    s.push(' ');
    s.push_str(a);
    s.push_str("='");
    s.push_str(v);
    s.push_str("'");
    s.push_str(if a == "stroke" { "" } else { " stroke='red'" });
    s.push_str("><title>t</title><path d='M5 6h7v8z'/></");
    s.push_str(e);
    s.push_str("><use href='#i'/></g></svg>");
    s
}

/// Replaces or inserts free bytes.
fn disturb(v: &str, n: usize) -> String {
    let at = sym::pick(v.len() + 1);
    let keep = sym::pick(2);
    let mut s = String::from(&v[..at]);
    let wide = sym::pick(2) == 1;
    if wide {
        s.push(sym::one(&['é', '€', '\u{1f600}', '\u{a0}']));
    } else {
        for _ in 0..n {
            s.push(sym::of(BYTES) as char);
        }
    }
    s.push_str(&v[(at + keep * n).min(v.len())..]);
    s
}

/// P02: values of every attribute, read and written.
pub fn crash_values() {
    let k = sym::pick(TABLE.len() + VALUES.len());
    let (e, a, v) = if k < TABLE.len() { (TABLE[k].0, TABLE[k].1, "1") } else { VALUES[k - TABLE.len()] };
    let v = if k < TABLE.len() {
        let mut s = String::from(sym::one(&["", "1", "1 2", "a:"]));
        s.push(sym::of(BYTES) as char);
        s.push(sym::of(BYTES) as char);
        s
    } else {
        disturb(v, 1)
    };
    through(&Jobs::none(), &doc(e, a, &v));
}

/// P02: disturbed values through the default jobs.
pub fn crash_jobs() {
    let (e, a, v) = sym::one(VALUES);
    through(&Jobs::default(), &doc(e, a, &disturb(v, if sym::deep() { 2 } else { 1 })));
}

const SHEETS: &[&str] = &[
    ".a{fill:red}#i>b+c~d,[x='y']{fill:#0f0!important}",
    "@media print{.a{fill:red}}@import url(a);",
    "@font-face{src:url(a)}/*b*/:not(.a):nth-child(2n+1)::before{x:y}",
    ".a{&.b{fill:red}--x:{};fill:var(--x,1)}",
];

/// P02: disturbed style sheets through the default jobs.
pub fn crash_sheets() {
    let v = sym::one(SHEETS);
    let v = disturb(v, 1);
    let mut s = String::from(HEAD);
    s.push_str("<style>");
    s.push_str(&v);
    s.push_str("</style><path id='i' class='a' d='M1 2h3v4z'/><g class='b'><path class='a b' d='M5 2h3v4z'/></g></svg>");
    through(&Jobs::default(), &s);
}

/// P02: paths and transforms of free bytes through the default jobs.
pub fn crash_paths() {
    let kind = sym::pick(3);
    let mut v = String::from(["M", "M1 2", ""][kind]);
    for _ in 0..if kind == 1 { 4 } else { 3 } {
        v.push(sym::of([b"MmzLhvcsqtaA01.-,e ".as_slice(), b"MmzLhvcsqtaA01.-,e ", b"1.-, e9)(t"][kind]) as char);
    }
    if kind == 2 {
        let f = sym::one(&["scale", "rotate", "translate", "matrix", "skewX"]);
        through(&Jobs::default(), &doc("path", "transform", &format!("{f}({v})")));
    } else {
        through(&Jobs::default(), &doc("path", "d", &v));
    }
}
