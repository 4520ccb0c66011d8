//! P03 and P21: typed attribute values.
use crate::job;
use crate::jobs::*;
use crate::pathread::Reader;
use crate::svg::attr;
use crate::sym;
use oxvg_ast::{parse::roxmltree::parse, serialize::Node as _};
use oxvg_optimiser::*;
use roxmltree::Document;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Number,
    NumberPair,
    NumberList,
    /// a number or percentage of the same meaning
    Fraction,
    Length,
    LengthList,
    Points,
    ViewBox,
    Aspect,
    Angle,
    Clock,
    Count,
    Timing,
    Times,
    Words,
}
use Kind::*;

/// element, attribute, kind
pub const TABLE: &[(&str, &str, Kind)] = &[
    ("feTurbulence", "seed", Number),
    ("feTurbulence", "numOctaves", Number),
    ("feTurbulence", "baseFrequency", NumberPair),
    ("feGaussianBlur", "stdDeviation", NumberPair),
    ("feDropShadow", "stdDeviation", NumberPair),
    ("feMorphology", "radius", NumberPair),
    ("feConvolveMatrix", "order", NumberPair),
    ("feConvolveMatrix", "kernelMatrix", NumberList),
    ("feConvolveMatrix", "divisor", Number),
    ("feConvolveMatrix", "bias", Number),
    ("feConvolveMatrix", "targetX", Number),
    ("feConvolveMatrix", "kernelUnitLength", NumberPair),
    ("feDiffuseLighting", "surfaceScale", Number),
    ("feDiffuseLighting", "diffuseConstant", Number),
    ("feSpecularLighting", "specularConstant", Number),
    ("feSpecularLighting", "specularExponent", Number),
    ("feDistantLight", "azimuth", Number),
    ("feDistantLight", "elevation", Number),
    ("fePointLight", "x", Number),
    ("fePointLight", "z", Number),
    ("feSpotLight", "pointsAtX", Number),
    ("feSpotLight", "limitingConeAngle", Number),
    ("feFuncR", "slope", Number),
    ("feFuncG", "intercept", Number),
    ("feFuncB", "amplitude", Number),
    ("feFuncA", "exponent", Number),
    ("feFuncA", "offset", Number),
    ("feFuncR", "tableValues", NumberList),
    ("feOffset", "dx", Number),
    ("feOffset", "dy", Number),
    ("feComposite", "k1", Number),
    ("feComposite", "k4", Number),
    ("feDisplacementMap", "scale", Number),
    ("feColorMatrix", "values", NumberList),
    ("path", "pathLength", Number),
    ("path", "stroke-miterlimit", Number),
    ("stop", "offset", Fraction),
    ("path", "opacity", Fraction),
    ("g", "fill-opacity", Fraction),
    ("path", "stroke-opacity", Fraction),
    ("stop", "stop-opacity", Fraction),
    ("feFlood", "flood-opacity", Fraction),
    ("rect", "x", Length),
    ("rect", "y", Length),
    ("rect", "width", Length),
    ("rect", "height", Length),
    ("rect", "rx", Length),
    ("ellipse", "ry", Length),
    ("circle", "cx", Length),
    ("ellipse", "cy", Length),
    ("circle", "r", Length),
    ("line", "x1", Length),
    ("line", "y2", Length),
    ("image", "x", Length),
    ("image", "width", Length),
    ("image", "height", Length),
    ("svg", "width", Length),
    ("svg", "height", Length),
    ("svg", "x", Length),
    ("use", "x", Length),
    ("use", "width", Length),
    ("foreignObject", "height", Length),
    ("marker", "refX", Length),
    ("marker", "markerWidth", Length),
    ("marker", "markerHeight", Length),
    ("pattern", "x", Length),
    ("pattern", "height", Length),
    ("mask", "y", Length),
    ("mask", "width", Length),
    ("filter", "x", Length),
    ("filter", "height", Length),
    ("feFlood", "x", Length),
    ("feBlend", "width", Length),
    ("linearGradient", "x1", Length),
    ("linearGradient", "y2", Length),
    ("radialGradient", "cx", Length),
    ("radialGradient", "r", Length),
    ("radialGradient", "fx", Length),
    ("radialGradient", "fr", Length),
    ("textPath", "startOffset", Length),
    ("text", "textLength", Length),
    ("path", "stroke-width", Length),
    ("g", "stroke-dashoffset", Length),
    ("text", "font-size", Length),
    ("text", "letter-spacing", Length),
    ("text", "word-spacing", Length),
    ("text", "baseline-shift", Length),
    ("text", "x", LengthList),
    ("text", "y", LengthList),
    ("tspan", "dx", LengthList),
    ("text", "dy", LengthList),
    ("path", "stroke-dasharray", LengthList),
    ("text", "rotate", NumberList),
    ("polygon", "points", Points),
    ("polyline", "points", Points),
    ("svg", "viewBox", ViewBox),
    ("marker", "viewBox", ViewBox),
    ("pattern", "viewBox", ViewBox),
    ("symbol", "viewBox", ViewBox),
    ("view", "viewBox", ViewBox),
    ("svg", "preserveAspectRatio", Aspect),
    ("image", "preserveAspectRatio", Aspect),
    ("marker", "preserveAspectRatio", Aspect),
    ("feImage", "preserveAspectRatio", Aspect),
    ("marker", "orient", Angle),
    ("animate", "dur", Clock),
    ("set", "min", Clock),
    ("animate", "max", Clock),
    ("animate", "repeatDur", Clock),
    ("animate", "repeatCount", Count),
    ("animate", "begin", Timing),
    ("animateTransform", "end", Timing),
    ("animate", "keyTimes", Times),
    ("animateMotion", "keyPoints", Times),
    ("animate", "keySplines", Times),
    ("animate", "x", Words),
];

const NUMBERS: &[&str] = &["@", "-@.@", ".@", "@e-@", "@e2", "+@.@", "@.@50", "0", "-0", "1e-@", "00@", "@E+1", "1@2345", "12@.45", ".00@"];
const UNITS: &[&str] = &["", "px", "em", "ex", "%", "in", "cm", "mm", "pt", "pc", "rem", "ch", "vw", "vh", "Q", "PX", "vmin"];
const NONSENSE: &[&str] = &["", "a@", "@ b", "@@x", "--@", "#@", "@;@", "calc(@px + 1%)", "@%%", "1,,@", "@px@", "url(#a@)", "var(--a@)", "none", "auto", "@foo", "99999999@"];

/// A value of the kind with symbolic digits and what it looks like.
fn value(kind: Kind) -> (String, String) {
    let mut left = if sym::deep() { 3 } else { 2 };
    let mut s = String::new();
    let t: String = match kind {
        Number => sym::one(if sym::pick(9) == 8 { &["429496730@", "@00000000"] } else { NUMBERS }).into(),
        NumberPair => match sym::pick(3) {
            0 => sym::one(NUMBERS).into(),
            1 => format!("{}{}{}", sym::one(NUMBERS), sym::one(&[" ", ",", " , "]), "@"),
            _ => format!("3.5 {}", sym::one(NUMBERS)),
        },
        NumberList => sym::one(&["", "@", "@ @", "-@,.@ 3", " @ ,  2\n3 ", "1 0 0 0 @ 0 .@ 0 0 0", "1e@ 2", "1-@", "1.5.@", "@, 2,"]).into(),
        Fraction => match sym::pick(2) {
            0 => sym::one(NUMBERS).into(),
            _ => sym::one(&["@%", "-@%", "1@@%", ".@%", "@.5%", "0%", "100%", "inherit"]).into(),
        },
        Length => match sym::pick(2) {
            0 => sym::one(NUMBERS).into(),
            _ => format!("{}{}", sym::one(&["@", "-.@", "1.@5", "0"]), sym::one(UNITS)),
        },
        LengthList => match sym::pick(3) {
            0 => sym::one(&["@", "@ @", "-@,.@ 3", " @ ,  2 3 ", "1e@ 2", "none", "inherit", "1-@", "0"]).into(),
            1 => format!("@{} 3", sym::one(UNITS)),
            _ => format!("2,@{}", sym::one(UNITS)),
        },
        Points => sym::one(&["", "@,2", "@ 2 3 4", "-@,2 , 3 -.@", "1-@.5.@", "1e@ 2,3 4", " \n@,2\t3,4 ", "@ 2 3", "1,2 3,@x"]).into(),
        ViewBox => sym::one(&["0 0 @ 1@", "0,0,@,5", "-@.5 .@ 1e1 20", " 0  0 @ , 9 ", "0 0 @", "none", "0 0 1@ 10 5", "@@ 0 0 0"]).into(),
        Aspect => {
            let a = sym::one(&["none", "xMinYMin", "xMidYMin", "xMaxYMin", "xMinYMid", "xMidYMid", "xMaxYMid", "xMinYMax", "xMidYMax", "xMaxYMax", "xmidymid", "defer xMinYMin"]);
            format!("{a}{}", sym::one(&["", " meet", " slice", "  slice ", " x"]))
        }
        Angle => sym::one(&["@", "@5deg", "-@.5", ".@turn", "1@grad", "1.@rad", "auto", "auto-start-reverse", "0", "@DEG", "90deg", "x"]).into(),
        Clock => sym::one(&["@s", "@.5s", "1@0ms", "@min", ".@h", "@", "0@:0@", "0@:59:0@", "1@:00:00.5", "indefinite", "media", "0s", " @s", "@.@5s", "x", "1s 2s"]).into(),
        Count => sym::one(&["@", "@.5", "indefinite", "0", "-@", "x", ".@"]).into(),
        Timing => sym::one(&[
            "@s", "-@s", "+@s", "a.click", "a.end+@s", "a.begin-1.@s", "click", "click+@s", "accessKey(a)", "indefinite", "@s;a.end", "@s ; 2s", "a.repeat(@)", "wallclock(2000-01-01)",
            "0@:0@", "a.end + @s", "a-b.begin", "#", "x.y.z", "mouseover;0.@s", "1s;", "",
        ])
        .into(),
        Times => sym::one(&["0;.@;1", "0; 0.@ ; 1", "0;1;", "1;@", ".5 0 .5 .@", "0 0 1 1;.@ 0 .5 1", "0,.@,1,1", "x", "0;.@5;.@"]).into(),
        Words => sym::one(NONSENSE).into(),
    };
    put_some(&mut s, &t, &mut left);
    (s, t)
}

#[derive(Debug)]
enum Item {
    N(f64, String),
    W(String),
}

fn items(s: &str) -> Vec<Item> {
    let mut out = vec![];
    let mut r = Reader::new(s.as_bytes());
    loop {
        r.wsp();
        if r.end() {
            return out;
        }
        if let Some(v) = r.number() {
            let mut u = String::new();
            while r.peek().is_ascii_alphabetic() || r.peek() == b'%' {
                u.push(r.peek().to_ascii_lowercase() as char);
                r.skip();
            }
            out.push(Item::N(v, u));
            continue;
        }
        let mut w = String::new();
        if r.peek().is_ascii_alphabetic() || r.peek() >= 128 {
            while r.peek().is_ascii_alphanumeric() || matches!(r.peek(), b'-' | b'_') || r.peek() >= 128 {
                w.push(r.peek() as char);
                r.skip();
            }
        } else {
            w.push(r.peek() as char);
            r.skip();
        }
        if w != "," {
            out.push(Item::W(w));
        }
    }
}

/// Pixels for the absolute units, `None` for the others.
fn px(u: &str) -> Option<f64> {
    Some(match u {
        "" | "px" => 1.0,
        "in" => 96.0,
        "cm" => 96.0 / 2.54,
        "mm" => 96.0 / 25.4,
        "q" => 96.0 / 101.6,
        "pt" => 96.0 / 72.0,
        "pc" => 16.0,
        _ => return None,
    })
}

fn close(x: f64, y: f64, tol: f64) -> bool {
    (x - y).abs() <= tol + 5e-6 * x.abs()
}

/// Seconds of a clock value.
fn seconds(s: &str) -> Option<f64> {
    let t = s.trim();
    if t.contains(':') {
        let mut v = 0.0;
        let p: Vec<&str> = t.split(':').collect();
        if !(2..=3).contains(&p.len()) {
            return None;
        }
        for x in &p {
            v = v * 60.0 + x.parse::<f64>().ok()?;
        }
        return Some(v);
    }
    let mut r = Reader::new(t.as_bytes());
    let v = r.number()?;
    Some(match r.rest() {
        b"s" | b"" => v,
        b"ms" => v / 1000.0,
        b"min" => v * 60.0,
        b"h" => v * 3600.0,
        _ => return None,
    })
}

fn same_items(a: &str, b: &str, tol: f64, kind: Kind) -> bool {
    let (x, y) = (items(a), items(b));
    x.len() == y.len()
        && x.iter().zip(&y).all(|(x, y)| match (x, y) {
            (Item::W(x), Item::W(y)) => x == y,
            (Item::N(x, u), Item::N(y, v)) => match kind {
                Fraction => {
                    let f = |x: f64, u: &str| if u == "%" { x / 100.0 } else { x };
                    let scale = if u == "%" && v == "%" { 0.01 } else { 1.0 };
                    (u == "%" || u == v) && (v == "%" || v.is_empty() || u == v) && close(f(*x, u), f(*y, v), tol * scale)
                }
                Angle => {
                    let f = |x: f64, u: &str| match u {
                        "turn" => x * 360.0,
                        "grad" => x * 0.9,
                        "rad" => x.to_degrees(),
                        _ => x,
                    };
                    let known = |u: &str| matches!(u, "" | "deg" | "turn" | "grad" | "rad");
                    known(u) && known(v) && close(f(*x, u), f(*y, v), tol * 360.0)
                }
                _ => match (px(u), px(v)) {
                    // nothing is nothing in any unit
                    _ if *y == 0.0 && px(v).is_some() => x.abs() <= tol,
                    (Some(p), Some(q)) => close(x * p, y * q, tol * if u == v { p } else { 1.0 }),
                    _ => u == v && close(*x, *y, tol),
                },
            },
            _ => false,
        })
}

/// The points up to the first error.
fn points(s: &str) -> Vec<f64> {
    let mut r = Reader::new(s.as_bytes());
    let mut out = vec![];
    r.wsp();
    while let Some(v) = r.number() {
        out.push(v);
        r.wsp();
        if r.peek() == b',' {
            r.skip();
            r.wsp();
        }
    }
    out.truncate(out.len() / 2 * 2);
    out
}

fn same_value(kind: Kind, a: &str, b: &str, tol: f64) -> bool {
    if a == b {
        return true;
    }
    match kind {
        Points => {
            let (x, y) = (points(a), points(b));
            x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| close(*x, *y, tol))
        }
        Aspect => {
            let norm = |s: &str| {
                let mut w: Vec<String> = s.split_ascii_whitespace().map(str::to_string).collect();
                if w.last().is_some_and(|w| w == "meet") {
                    w.pop();
                }
                // the second word means nothing after none
                if w.len() == 2 && w[0] == "none" && w[1] == "slice" {
                    w.pop();
                }
                w
            };
            norm(a) == norm(b)
        }
        Clock | Timing => {
            let (x, y): (Vec<&str>, Vec<&str>) = (a.split(';').collect(), b.split(';').collect());
            x.len() == y.len()
                && x.iter().zip(&y).all(|(x, y)| match (seconds(x), seconds(y)) {
                    (Some(x), Some(y)) => close(x, y, tol),
                    (None, None) => {
                        // an event or element with an offset
                        let cut = |s: &str| {
                            let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
                            for (i, c) in s.char_indices().rev() {
                                if (c == '+' || c == '-') && seconds(&s[i..]).is_some() {
                                    return (s[..i].to_string(), seconds(&s[i..]));
                                }
                            }
                            (s, None)
                        };
                        let ((x, u), (y, v)) = (cut(x), cut(y));
                        x == y && close(u.unwrap_or(0.0), v.unwrap_or(0.0), tol)
                    }
                    _ => false,
                })
        }
        _ => same_items(a, b, tol, kind),
    }
}

fn document(element: &str, name: &str, v: &str) -> String {
    format!("{HEAD}<{element} {name}='{v}'/></svg>")
}

fn read(t: &str, name: &str) -> Option<Option<String>> {
    let doc = Document::parse(t).ok()?;
    let e = doc.root_element().first_element_child()?;
    Some(attr(&e, name).map(str::to_string))
}

/// P03: parsing and printing, no job in between.
pub fn round_trip() {
    let (element, name, kind) = TABLE[sym::pick(TABLE.len())];
    let odd = sym::pick(2) == 1;
    let (v, what) = value(if odd { Words } else { kind });
    if kind == Points && what == "1,,@" {
        sym::known("P03-comma");
    }
    let s = document(element, name, &v);
    sym::log(&s);
    let r = parse(&s, |dom, _| dom.serialize().map_err(|_| ()));
    let Ok(Ok(t)) = r else {
        sym::check(false, &format!("rejected: {element} {name} {what}"));
        return;
    };
    sym::log(&t);
    let Some(Some(w)) = read(&t, name) else {
        sym::check(false, &format!("attribute is gone: {element} {name} {what}"));
        return;
    };
    sym::cover(1);
    sym::check(same_value(kind, &v, &w, 6e-6), &format!("{element} {name} {what}"));
}

/// P21: rounding.
pub fn rounding() {
    let (element, name, kind) = TABLE[sym::pick(TABLE.len())];
    let precision = sym::one(&[3u8, 0, 1, 5]);
    let list = sym::pick(2) == 1;
    let px = sym::pick(2) == 1;
    if (precision != 3 || !px) && !matches!(kind, Length | LengthList | NumberList | Points | ViewBox | Fraction) {
        return;
    }
    let (v, what) = value(kind);
    let s = document(element, name, &v);
    let jobs = if list {
        job!(cleanup_list_of_values: CleanupListOfValues { float_precision: precision, default_px: true, convert_to_px: px })
    } else {
        job!(cleanup_numeric_values: CleanupNumericValues { float_precision: precision, default_px: true, convert_to_px: px })
    };
    let t = run(&jobs, &s);
    let what = format!("{element} {name} {what} {precision}{list}{px}");
    let Some(Some(w)) = read(&t, name) else {
        sym::check(false, &format!("attribute is gone: {what}"));
        return;
    };
    sym::cover(1);
    let tol = 0.5 * 0.1f64.powi(precision as i32) + 6e-6;
    sym::check(same_value(kind, &v, &w, tol), &what);
}
