//! Style sheets and style attributes.
use crate::css;
use crate::job;
use crate::jobs::*;
use crate::removal::config;
use crate::sym;
use oxvg_optimiser::*;

/// `@` stands for the free name of a class.
const SELECTORS: &[&str] = &[
    "rect", ".@", ".a.b", "#i", "g rect", "g>.@", "*", "[fill]", "[fill='red']", "rect:hover", ".a:not(.@)", ":root", "rect:first-child",
    ".@,.c", ".a,g rect", ".@+rect", ".d", "path", ":is(.a,#i)", "g", "svg .b", "rect~path", "text",
];

/// `@` stands for a digit.
const DECLS: &[(&str, &str)] = &[
    ("fill:#00@", "fill:red"),
    ("fill:#00@!important", "fill:#0f0"),
    ("fill:#00@", "fill:red!important"),
    ("stroke:blue;stroke-width:@", "fill:red;stroke-width:2"),
];

/// Appends a template, replacing each `@` by a symbolic class name.
fn put_class(s: &mut String, t: &str, left: &mut usize) {
    for c in t.chars() {
        s.push(match c {
            '@' if *left > 0 => {
                *left -= 1;
                sym::of(b"abcd") as char
            }
            '@' => 'a',
            c => c,
        });
    }
}

fn body(s: &mut String, attr: &str) {
    s.push_str("<g class='b'><rect id='i' class='a b' width='2' height='3'");
    put_some(s, attr, &mut 1);
    s.push_str("/><rect class='b' width='5' height='6' fill='red'/></g><path class='a' d='M1 1h5v9z'/><text class='c'>a</text></svg>");
}

/// P11: two rules and what elements say for themselves, through the jobs on style sheets.
fn rules(job: Jobs, what: &str, apart: bool, inlined: bool, once: bool) {
    let a = sym::one(SELECTORS);
    let b = sym::one(SELECTORS);
    let d = sym::one(DECLS);
    let own = if apart { "" } else { sym::one(&["", " fill='red'", " style='fill:#0@0'", " style='fill:#0@0!important'"]) };
    let mut left = 1;
    let mut s = String::from(HEAD);
    s.push_str("<style>");
    put_class(&mut s, a, &mut left);
    s.push('{');
    put_some(&mut s, d.0, &mut 1);
    s.push('}');
    if apart {
        s.push_str("</style><style>");
    }
    put_class(&mut s, b, &mut left);
    s.push('{');
    put_some(&mut s, d.1, &mut 1);
    s.push_str("}</style>");
    body(&mut s, own);
    if inlined && competes(&s, a.contains(':') || b.contains(':'), once) {
        sym::known("P11-cascade");
    }
    keeps(&job, &s, 1e-6, true, &format!("{what}|{a}|{b}|{}|{}|{own}", d.0, d.1));
}

/// Whether both rules are for one element and not all of their selectors can be inlined.
fn competes(s: &str, pseudo: bool, once: bool) -> bool {
    let Ok(doc) = roxmltree::Document::parse(s) else { return false };
    let mut sheet = css::Sheet::default();
    for e in doc.descendants().filter(|e| e.has_tag_name("style")) {
        css::sheet(e.text().unwrap_or(""), false, &mut sheet);
    }
    let all: Vec<_> = doc.descendants().filter(|e| e.is_element()).collect();
    let hit = |r: &css::Rule| -> Vec<usize> {
        (0..all.len()).filter(|i| r.sels.iter().any(|s| css::matches(s, &all[*i], true))).collect()
    };
    let [a, b] = &sheet.rules[..] else { return false };
    let (x, y) = (hit(a), hit(b));
    if !x.iter().any(|i| y.contains(i)) {
        return false;
    }
    pseudo || !sheet.rules.iter().flat_map(|r| &r.sels).all(|s| {
        let n = all.iter().filter(|e| css::matches(s, e, true)).count();
        let m = all.iter().filter(|e| css::matches(s, e, false)).count();
        s.parts.len() == 1 && n == m && (if once { n <= 1 } else { true })
    })
}

pub fn inline_rules() {
    rules(job!(inline_styles: InlineStyles::default()), "", false, true, true);
}

pub fn inline_all_rules() {
    let apart = sym::pick(2) == 1;
    rules(job!(inline_styles: InlineStyles { only_matched_once: false, ..InlineStyles::default() }), if apart { "apart" } else { "" }, apart, true, false);
}

pub fn minify_rules() {
    let usage = sym::one(&["true", "false", "\"force\""]);
    rules(config(&format!("{{\"minifyStyles\":{{\"usage\":{usage}}}}}")), usage, usage != "true", false, false);
}

/// P11: several style elements.
pub fn merge_sheets() {
    let a = sym::one(SHEETS);
    let b = sym::one(SHEETS);
    let c = if a.len() < 9 || b.len() < 9 { "" } else { sym::one(&["", "<style>.b{fill:#0@0}</style>", "<style media='print'>.b{fill:#0@0}</style>", "<style type='text/x'>.b{fill:red}</style>"]) };
    let jobs = sym::pick(4);
    let own = if c.is_empty() { " style='stroke:#0@0'" } else { "" };
    let mut s = String::from(HEAD);
    let mut left = 2;
    put_css(&mut s, a, &mut left);
    put_css(&mut s, b, &mut left);
    s.push_str("<g>");
    put_css(&mut s, c, &mut left);
    s.push_str("</g>");
    body(&mut s, own);
    if (b.contains("@import") || a.contains("@import")) && jobs != 1 && jobs != 2 {
        // imports end up behind rules
        sym::known("P11-across");
    }
    if jobs == 2 && [a, b].iter().any(|s| s.contains("@media") || s.contains("@supports") || s.contains(":hover") || s.contains("media=")) {
        sym::known("P11-cascade");
    }
    let left_out = |s: &str| s.starts_with("<foreign") || s.starts_with("<style>1x");
    if (left_out(a) || left_out(b)) && jobs != 1 {
        // sheets are merged across those in foreign objects and invalid ones
        sym::known("P11-across");
    }
    let j = match jobs {
        0 => job!(merge_styles: MergeStyles(true)),
        1 => job!(minify_styles: MinifyStyles::default()),
        2 => job!(inline_styles: InlineStyles::default()),
        _ => job!(merge_styles: MergeStyles(true), minify_styles: MinifyStyles::default()),
    };
    keeps(&j, &s, 1e-6, true, &format!("{jobs}|{a}|{b}|{c}|{own}"));
}

/// Like `put_some`, keeping the names of at-rules.
fn put_css(s: &mut String, t: &str, left: &mut usize) {
    let mut rest = t;
    while let Some(i) = rest.find('@') {
        s.push_str(&rest[..i]);
        let name = rest[i + 1..].starts_with(|c: char| c.is_ascii_alphabetic());
        if name {
            s.push('@');
        } else {
            put_some(s, "@", left);
        }
        rest = &rest[i + 1..];
    }
    s.push_str(rest);
}

const SHEETS: &[&str] = &[
    "",
    "<style/>",
    "<style> </style>",
    "<style>.a{fill:#00@}</style>",
    "<style>.b{fill:#@00}#i{stroke:red}</style>",
    "<style>rect{fill:#00@}</style>",
    "<style><![CDATA[g>.b{fill:#00@}]]></style>",
    "<style media='print'>.a{fill:#00@}</style>",
    "<style media='all'>.a{fill:#00@}</style>",
    "<style media=''>.a{fill:#00@}</style>",
    "<style type='text/css'>.a{stroke:#00@!important}</style>",
    "<style type='text/x'>.a{fill:#00@}</style>",
    "<style type=''>.a{fill:#00@}</style>",
    "<style>@media print{.a{fill:#00@}}</style>",
    "<style>@media print{.c{fill:#00@}.b{fill:red}}.a{fill:blue}</style>",
    "<style>@supports (fill:red){.a{fill:#00@}}</style>",
    "<style>@import url(x.css);.a{fill:#00@}</style>",
    "<style>@font-face{font-family:x;src:url(x)}.c{font-family:x;fill:#00@}</style>",
    "<style>@charset 'utf-8';.a{fill:#00@}</style>",
    "<style>.a{fill:#00@}.a{fill:red}</style>",
    "<style>.a{fill:#00@}.b{stroke:red}.a{stroke:blue}</style>",
    "<style>.a{fill:#00@;fill:red}</style>",
    "<style>.a{fill:#00@;color:red;fill:currentColor}</style>",
    "<style>.a{/*x*/fill:#00@}/*.b{fill:red}*/</style>",
    "<style>.a{marker:none;stroke-dasharray:@ 2;transform:scale(2)}</style>",
    "<style>.a{opacity:.@;fill-opacity:50%}</style>",
    "<style>.c{font:italic 9px x;font-size:@px}</style>",
    "<style>.c{font-size:@px;font:italic 9px x}</style>",
    "<style>.a{--x:red;fill:var(--x)}</style>",
    "<style>.a{fill:#00@!important;fill:red}</style>",
    "<foreignObject><style>.a{fill:#00@}</style></foreignObject>",
    "<style>.a{fill:#00@}</style><script/>",
    "<style>.a:hover{fill:#00@}</style>",
    "<style>.a::before{fill:#00@}</style>",
    "<style>.a,.z{fill:#00@}.z,.y .b{stroke:red}</style>",
    "<style>.z .a,.b{fill:#00@}</style>",
    "<style>.x,#i,.b{fill:#00@}</style>",
    "<style>.b rect,.z{fill:#00@}</style>",
    "<style>1x{fill:red}.a{fill:#00@}</style>",
];

/// Declarations for style attributes.
const STYLES: &[&str] = &[
    "fill:#00@",
    "fill:red",
    "fill:blue!important",
    "fill:red;fill:#00@",
    "fill:red!important;fill:#00@",
    "stroke-width:@",
    "stroke-width:@px",
    "opacity:.@",
    "opacity:@%",
    "fill:url(#l)",
    "fill:url(#l) red",
    "fill:currentColor",
    "color:#00@",
    "stroke-dasharray:@ 2",
    "marker:url(#k)",
    "marker-end:url(#k)",
    "clip-path:url(#c)",
    "mask:url(#m)",
    "filter:url(#f)",
    "filter:blur(@px)",
    "transform:scale(@)",
    "transform:translate(@px,2px)",
    "transform-origin:@px 2px",
    "display:none",
    "display:inline",
    "visibility:hidden",
    "font:italic @px x",
    "font-size:@px",
    "font-size:@em",
    "font-family:x,y",
    "font-weight:bold",
    "mix-blend-mode:multiply",
    "isolation:isolate",
    "paint-order:stroke",
    "fill:var(--x)",
    "--x:red",
    "x-y:@",
    "fill:inherit",
    "fill:unset",
    "fill:initial",
    "fill:",
    "fill",
    "x:@",
    "width:@px",
    "d:path(\"M1 1h@\")",
    "stroke-linejoin:round",
    "text-decoration:underline",
    "letter-spacing:@px",
    "overflow:hidden",
    "clip-rule:evenodd",
    "cursor:pointer",
    "stroke:#00@",
    "-webkit-filter:blur(@px)",
    "fill-opacity:.@",
    "stop-color:#00@",
    "/*fill:red*/stroke:#00@",
];

/// P11: style attributes as presentation attributes.
pub fn style_to_attrs() {
    let a = sym::one(STYLES);
    let b = sym::one(&["", "fill:#0@0", "stroke:red", "fill:red!important", "opacity:.@"]);
    let first = sym::pick(2) == 0;
    let own = sym::one(&["", " fill='blue'", " opacity='.3'", " class='k'"]);
    let e = sym::one(&["<path d='M1 1h5v9z'", "<text x='3'", "<rect width='2' height='3'", "<g"]);
    let job = sym::pick(3);
    let mut s = String::from(HEAD);
    if own == " class='k'" {
        s.push_str("<style>.k{stroke-width:2;fill:red}</style>");
    }
    s.push_str(DEFS);
    s.push_str("<g stroke='#0f0' fill='lime'>");
    s.push_str(e);
    s.push_str(own);
    s.push_str(" style='");
    let mut left = 2;
    put_some(&mut s, if first { a } else { b }, &mut left);
    s.push(';');
    put_some(&mut s, if first { b } else { a }, &mut left);
    s.push('\'');
    s.push_str(match e {
        "<text x='3'" => ">a<tspan>b</tspan></text>",
        "<g" => "><path d='M1 1h5v9z'/><text>a</text></g>",
        _ => "/>",
    });
    s.push_str("</g></svg>");
    if a.starts_with("font:") {
        sym::known("P11-font");
    }
    if a == "fill:" {
        sym::known("P11-empty");
    }
    let j = match job {
        0 => job!(convert_style_to_attrs: ConvertStyleToAttrs { keep_important: false }),
        1 => job!(convert_style_to_attrs: ConvertStyleToAttrs { keep_important: true }),
        _ => job!(minify_styles: MinifyStyles::default()),
    };
    keeps(&j, &s, 1e-6, true, &format!("{job}|{a}|{b}|{first}|{own}|{e}"));
}
