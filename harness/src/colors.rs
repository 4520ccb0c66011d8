//! P10: colours keep their value.
use crate::color;
use crate::css;
use crate::job;
use crate::jobs::*;
use crate::svg::attr;
use crate::sym;
use oxvg_optimiser::*;
use roxmltree::{Document, Node};

const PLACES: &[(&str, &str)] = &[
    ("fill", "<path X d='M0 0h9'/>"),
    ("stroke", "<g X><path d='M0 0h9'/></g>"),
    ("color", "<text X>a</text>"),
    ("stop-color", "<linearGradient><stop X/></linearGradient>"),
    ("flood-color", "<filter><feFlood X/></filter>"),
    ("lighting-color", "<filter><feDiffuseLighting X/></filter>"),
    ("fill", "<path S d='M0 0h9'/>"),
    ("stop-color", "<linearGradient><stop S/></linearGradient>"),
    ("stroke", "<svg S/>"),
    ("fill", "<style>path{fill:V}</style><path d='M0 0h9'/>"),
    ("flood-color", "<style>path{stroke:red;flood-color:V!important}</style><path d='M0 0h9'/>"),
    ("to", "<path d='M0 0h9'><animate attributeName='fill' dur='1s' to='V'/></path>"),
    ("values", "<path d='M0 0h9'><animate attributeName='fill' dur='1s' values='V'/></path>"),
    ("fill", "<mask><path X d='M0 0h9'/></mask>"),
    ("data-v", "<path data-v='V' d='M0 0h9'/>"),
    ("href", "<use href='V'/>"),
    ("class", "<path class='V' d='M0 0h9'/>"),
    ("text", "<text>V</text>"),
];

fn document(place: usize, v: &str) -> String {
    let (name, t) = PLACES[place];
    let mut s = String::from(HEAD);
    for c in t.split_inclusive(['X', 'S', 'V']) {
        let (head, last) = c.split_at(c.len() - 1);
        s.push_str(head);
        match last {
            "X" => {
                s.push_str(name);
                s.push_str("='");
                s.push_str(v);
                s.push('\'');
            }
            "S" => {
                s.push_str("style='");
                s.push_str(name);
                s.push(':');
                s.push_str(v);
                s.push('\'');
            }
            "V" => s.push_str(v),
            _ => s.push_str(last),
        }
    }
    s.push_str("</svg>");
    s
}

fn declared(name: &str, body: &str) -> Option<String> {
    css::decls(body).into_iter().find(|d| d.name == name).map(|d| d.value)
}

/// The value in the place it was written, wherever the document still has it.
fn find(doc: &Document, place: usize) -> Option<String> {
    let (name, t) = PLACES[place];
    let all = || doc.descendants().filter(Node::is_element);
    if name == "text" {
        return all().find(|e| e.tag_name().name() == "text").map(|e| e.text().unwrap_or("").to_string());
    }
    if t.contains("<style>") {
        let e = all().find(|e| e.tag_name().name() == "style")?;
        let text = e.text()?;
        let (_, rest) = text.split_once('{')?;
        return declared(name, rest.trim_end_matches('}'));
    }
    if t.contains(" S") {
        return all().find_map(|e| attr(&e, "style").and_then(|v| declared(name, v)));
    }
    all().find_map(|e| attr(&e, name).map(str::to_string))
}

fn same(a: &str, b: &str, place: usize, exact: bool) -> bool {
    let name = PLACES[place].0;
    if matches!(name, "data-v" | "href" | "class" | "text") {
        return a == b;
    }
    if name == "values" {
        let x: Vec<&str> = a.split(';').map(str::trim).collect();
        let y: Vec<&str> = b.split(';').map(str::trim).collect();
        return x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| one(x, y, exact));
    }
    one(a, b, exact)
}

fn one(a: &str, b: &str, exact: bool) -> bool {
    // a reference may have a colour to fall back to
    if let (Some((u, c)), Some((v, d))) = (a.split_once(") "), b.split_once(") ")) {
        if a.starts_with("url(") {
            return u.replace(['"', '\''], "") == v.replace(['"', '\''], "") && one(c, d, exact);
        }
    }
    match (color::parse(a), color::parse(b)) {
        (Some(x), Some(y)) => {
            let (t, u) = if exact { (1e-9, 1e-9) } else { (0.501, 0.004) };
            (0..3).all(|i| (x[i] - y[i]).abs() <= t) & ((x[3] - y[3]).abs() <= u)
        }
        (None, None) => a.trim().replace(['"', '\''], "").eq_ignore_ascii_case(&b.trim().replace(['"', '\''], "")),
        _ => false,
    }
}

fn keeps_color(place: usize, v: &str, exact: bool, what: &str) {
    let s = document(place, v);
    let t = run(&job!(convert_colors: ConvertColors::default()), &s);
    let Ok(doc) = Document::parse(&t) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    sym::cover(1);
    let r = find(&doc, place);
    sym::check(r.is_some(), &format!("colour is gone: {place} {what}"));
    if let Some(r) = r {
        sym::check(same(v, &r, place, exact), &format!("{place} {what}"));
    }
}

fn fill(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars() {
        s.push(match c {
            'h' if t.starts_with('#') => sym::of(b"0123456789abcdefABCDEF") as char,
            '@' => sym::byte(b'0', b'9') as char,
            c => c,
        });
    }
    s
}

/// Hexadecimal notations.
pub fn hex() {
    let place = sym::pick(PLACES.len());
    let t = sym::one(&["#hh0", "#f0hh", "#hhf080", "#00h0hh", "#0000hh80", "#aabbcchh", "#aahhccdd", "#FFhhFF", "#hhh", "#h", "#hhab", "#f0000h", "#ff0000h"]);
    // what follows # in these is a name
    keeps_color(place, &fill(t), true, t);
}

/// Functional notations.
pub fn functions() {
    let place = sym::pick(14);
    let t = sym::one(&[
        "rgb(@@,12@,0)",
        "rgb(2@@ 2@5 255)",
        "RGB( @0 , 0 ,@@)",
        "rgb(@@%,10%,100%)",
        "rgb(1.@%,.@%,0%)",
        "rgb(-@,300,@)",
        "rgba(@7,0,0,.@@)",
        "rgba(0,2@,0,1)",
        "rgb(255 0 0/@@%)",
        "rgba(0,0,0,0)",
        "hsl(@@0,100%,30%)",
        "hsl(210,100%,@@%)",
        "hsl(12@deg 50% 5@%)",
        "hsla(.5turn,5@%,50%,.@)",
        "url(#l) rgb(@@,0,0)",
        "rgb(@.6,7.@,0)",
        "rgb(1,2)",
    ]);
    keeps_color(place, &fill(t), false, t);
}

/// Names in upper or lower case, and words that aren't colours.
pub fn names() {
    let place = sym::pick(PLACES.len());
    let all = place == 0 || sym::deep();
    let k = sym::pick(148 + 20);
    const WORDS: [&str; 20] = [
        "none", "currentColor", "inherit", "transparent", "url(#l)", "url(#l) none", "url(#l) red", "context-fill", "context-stroke", "initial",
        "unset", "ButtonText", "reds", "grey50", "#l", "url(#red)", "url(#l) currentColor", "Canvas", "var(--red)", "",
    ];
    let w = if k < 148 { color::NAMES[k].0 } else { WORDS[k - 148] };
    if k < 148 && !all && k % 11 != place % 11 {
        return;
    }
    if w.is_empty() && place >= 6 {
        return;
    }
    let mut v = String::new();
    for (i, c) in w.chars().enumerate() {
        // the second letter in either case
        let flip = k < 148 && i == 1 && c.is_ascii_lowercase();
        v.push(if flip { (c as u8 ^ (sym::byte(0, 1) << 5)) as char } else { c });
    }
    keeps_color(place, &v, true, w);
}

/// With `currentColor` masks and what isn't a colour stay as they are.
pub fn current() {
    let place = sym::one(&[0, 1, 3, 6, 7, 13, 14, 15, 16, 17]);
    let t = sym::one(&["#hh0", "#hhf080", "rgb(@@,0,0)", "red", "none", "inherit", "url(#l)", "context-fill", "currentColor"]);
    let v = fill(t);
    let s = document(place, &v);
    let t2 = run(&job!(convert_colors: ConvertColors { method: Some(oxvg_optimiser::Method::CurrentColor) }), &s);
    let Ok(doc) = Document::parse(&t2) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    let r = find(&doc, place).unwrap_or_default();
    let converted = place < 13 && color::parse(&v).is_some();
    sym::cover(1);
    sym::check((converted && r.eq_ignore_ascii_case("currentcolor")) || same(&v, &r, place, true), &format!("{place} {t}"));
}
