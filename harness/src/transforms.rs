//! Transform lists, and transforms applied to paths.
use crate::geom::ID;
use crate::job;
use crate::jobs::*;
use crate::svg;
use crate::sym;
use oxvg_optimiser::*;

const FUNCTIONS: &[&str] = &[
    "translate(@)",
    "translate(@.5,-@)",
    "translate(0 @)",
    "scale(@)",
    "scale(-@ .@)",
    "scale(1-1)",
    "rotate(@0)",
    "rotate(-@5 4,3)",
    "rotate(90)",
    "rotate(180)",
    "skewX(@)",
    "skewY(-@0)",
    "matrix(1 .@2345 0 1 0 0)",
    "matrix(-1.23456 0 0-.@ 5 6)",
    "translate(0)",
    "scale(1)",
    "rotate(0 5 5)",
];

fn options() -> ConvertTransform {
    let mut o = ConvertTransform::default();
    match sym::pick(7) {
        1 => o.convert_to_shorts = false,
        2 => o.matrix_to_transform = false,
        3 => o.short_rotate = false,
        4 => o.remove_useless = false,
        5 => o.collapse_into_one = false,
        6 => {
            o.float_precision = 5;
            o.deg_precision = Some(5);
            o.transform_precision = 7;
        }
        _ => {}
    }
    o
}

fn document(list: &str, place: usize) -> String {
    match place {
        0 => format!("{HEAD}<path d='M0 0h9v9' transform='{list}'/></svg>"),
        1 => format!("{HEAD}<linearGradient id='l' gradientTransform='{list}'><stop/></linearGradient></svg>"),
        _ => format!("{HEAD}<pattern id='l' patternTransform='{list}'><path/></pattern></svg>"),
    }
}

/// The matrix of the document's only transform.
fn matrix(s: &str) -> Option<[f64; 6]> {
    let doc = roxmltree::Document::parse(s).ok()?;
    let e = doc.root_element().first_element_child()?;
    match e.attributes().find(|a| a.name().to_ascii_lowercase().ends_with("transform")) {
        Some(a) => svg::transform(a.value()),
        None => Some(ID),
    }
}

/// How far the matrix of a list moves when its arguments move by the configured last place.
fn slack(list: &str, o: &ConvertTransform) -> [f64; 6] {
    let Some(m) = svg::transform(list) else { return [0.0; 6] };
    let deg = 0.1f64.powi(o.deg_precision.unwrap_or(o.float_precision));
    let float = 0.1f64.powi(o.float_precision);
    let factor = 0.1f64.powi(o.transform_precision);
    let mut out = m.map(|x| 1e-5 + 1e-5 * x.abs());
    out[4] += float;
    out[5] += float;
    for at in list.match_indices('(').map(|x| x.0 + 1) {
        let name = list[..at - 1].rsplit([' ', ')', ',']).next().unwrap_or("");
        let end = at + list[at..].find(')').unwrap_or(0);
        let args: Vec<f64> = list[at..end].split(' ').filter_map(svg::num).collect();
        for k in 0..args.len() {
            let by = match (name, k) {
                ("rotate", 0) | ("skewX" | "skewY", _) => deg,
                ("scale", _) | ("matrix", 0..4) => factor,
                _ => float,
            };
            let mut t = String::from(&list[..at]);
            for (i, a) in args.iter().enumerate() {
                t.push_str(&format!("{} ", if i == k { a + by } else { *a }));
            }
            t.push_str(&list[end..]);
            if let Some(n) = svg::transform(&t) {
                for i in 0..6 {
                    out[i] += 2.0 * (n[i] - m[i]).abs();
                }
            }
        }
    }
    out
}

fn keeps_matrix(o: ConvertTransform, list: &str, place: usize, what: &str) {
    let s = document(list, place);
    let t = run(&job!(convert_transform: o.clone()), &s);
    let (Some(a), Some(b)) = (matrix(&s), matrix(&t)) else {
        sym::check(false, &format!("no longer a transform: {what}"));
        return;
    };
    let doc = roxmltree::Document::parse(&t).unwrap();
    let e = doc.root_element().first_element_child().unwrap();
    let new = e.attributes().find(|a| a.name().to_ascii_lowercase().ends_with("transform")).map_or("", |a| a.value());
    let slack = slack(new, &o);
    let mut same = true;
    for i in 0..6 {
        // what was removed altogether was within one place of the identity
        let tol = if new.is_empty() { 1e-3 } else { slack[i] };
        same &= (a[i] - b[i]).abs() <= tol;
    }
    sym::check(same, what);
}

/// P06: lists of up to three functions.
pub fn lists() {
    let mut list = String::new();
    let place = sym::pick(3);
    let o = if place == 0 { options() } else { ConvertTransform::default() };
    let plain = place == 0 && o.convert_to_shorts && o.matrix_to_transform && o.short_rotate && o.remove_useless && o.collapse_into_one && o.float_precision == 3;
    let n = 1 + sym::pick(2);
    let mut what = String::new();
    if n == 2 && place > 0 {
        return;
    }
    let mut left = 2;
    for i in 0..n {
        let f = if n == 1 || plain { sym::one(FUNCTIONS) } else { sym::one(&FUNCTIONS[..8]) };
        what.push_str(f);
        if i > 0 {
            list.push_str(["", " ", " , "][place]);
        }
        put_some(&mut list, f, &mut left);
    }
    if n == 2 && plain && sym::pick(2) == 1 {
        list.push_str(" translate(-4-3)");
        what.push('!');
    }
    keeps_matrix(o, &list, place, &what);
}

/// P06: three functions, the last of which may undo the first.
pub fn triples() {
    let mut o = ConvertTransform::default();
    match sym::pick(if sym::deep() { 4 } else { 2 }) {
        1 => o.collapse_into_one = false,
        2 => o.short_rotate = false,
        3 => {
            o.collapse_into_one = false;
            o.matrix_to_transform = false;
        }
        _ => {}
    }
    let mut list = String::new();
    let mut what = String::new();
    let mut left = if sym::deep() { 3 } else { 2 };
    for t in [
        sym::one(&["translate(@ 2)", "scale(@)", "rotate(30)", "skewX(@)", "translate(-@)"]),
        sym::one(&["rotate(30)", "rotate(-@0 1 2)", "scale(2 @)", "skewY(3)", "matrix(1 0 0 1 @ 0)"]),
        sym::one(&["translate(-@-2)", "translate(-7 @)", "translate(@)", "scale(.5)", "rotate(-30)", "skewX(-@)"]),
    ] {
        what.push_str(t);
        put_some(&mut list, t, &mut left);
    }
    keeps_matrix(o, &list, 0, &what);
}

/// P06: one matrix of every shape.
pub fn matrices() {
    let o = if sym::deep() { options() } else { ConvertTransform::default() };
    let mut list = String::from("matrix(");
    let mut what = String::new();
    let mut digits = false;
    let mut left = 2;
    let mut zero = [false; 4];
    for (i, z) in zero.iter_mut().enumerate() {
        let x = sym::one(&["0 ", "1 ", "-1 ", "1.2345@ ", "-.@2345 "][..if i > 1 && !sym::deep() { 4 } else { 5 }]);
        digits |= x.contains('@');
        *z = x == "0 ";
        what.push_str(x);
        put_some(&mut list, x, &mut left);
    }
    let e = sym::one(&["0 0", "@ 7", "-@.5 0", "0 .@1"]);
    what.push_str(e);
    put_some(&mut list, e, &mut left);
    list.push(')');
    // matrices of whole numbers are rounded to whole degrees
    let plain = zero[0] && zero[3] || zero[1] && zero[2];
    if !digits && !plain {
        sym::known("P06-digits");
    }
    keeps_matrix(o, &list, 0, &what);
}

const PATHS: &[&str] = &[
    "M1 2L@ 3 5 6",
    "m1 2l3 @zl1 1",
    "M1 2h@v-3H5V@",
    "M1 2C1 @ 4 5 6 7s1 2 @ 4",
    "M1 2c1 @ 4 5 6 7S1 2 @ 4",
    "M1 2Q@ 3 4 5t2 3T@ 1",
    "M1 2q@ 3 4 5T2 3t@ 1",
    "M0 0A@ 3 0 0 1 5 6",
    "M1 2a@ 3 30 1 0 5 6L0 0",
    "m3 3a5 2 90 0 1 @ 4a3 3 0 1 1 2 0",
    "m1 2 3 4m@ 1 2 2z",
    "M1 1m2 2l3 @zm1 1l2 2",
    "M1 2A4 2-85 1 1 @ 6",
    "M1 2l3 4zH@V9",
    "m1 2l3 4m5 6 7 8zV@H9zh3",
    "M1 2C1 2 3 4 5 @H3A5 5 0 0 1 6 7V@",
    "M1 2c1 2 3 4 5 @V3a5 5 0 0 1 6 7H@",
    "M1 2s3 4 5 @H3q1 2 3 4V@t5 6H9",
    "M1 2S3 4 5 @V3Q1 2 3 4H@T5 6V9",
];
const APPLIED: &[&str] = &[
    "translate(@ 3)",
    "scale(2)",
    "scale(-1 1)",
    "scale(2 .5)",
    "rotate(30)",
    "skewX(@)",
    "matrix(1 2 3.3 @ 5 6)",
    "matrix(0 1 1 0 0 0)",
    "rotate(90 1 2)",
    "translate(1)scale(-2)",
    "matrix(1 2 -2 1 0 0)",
    "scale(0)",
];
const STROKES: &[&str] = &[
    "",
    " stroke='red'",
    " stroke='red' stroke-width='@'",
    " stroke='red' stroke-dasharray='@ 2' stroke-dashoffset='3'",
    " stroke='red' vector-effect='non-scaling-stroke'",
    " stroke='none' stroke-width='3'",
    " class='k'",
    " class='w' stroke='red'",
    " id='i'",
    " class='p' stroke='red'",
    " style='stroke:red'",
    " stroke='url(#l)'",
    " fill='url(#l)'",
    " clip-path='url(#c)'",
    " marker-end='url(#k)'",
    " stroke='red' stroke-width='5%'",
    " stroke='inherit'",
    " stroke='red' stroke-dasharray='@' pathLength='5'",
    " stroke='red' stroke-width='inherit'",
    " stroke='red' class='v'",
    " stroke='red' class='d'",
    " opacity='.@' fill='red'",
];

fn apply(d: &str, t: &str, stroke: &str, group: &str, inside: &str, o: ApplyTransforms) {
    let mut left = 3;
    let mut s = String::from(HEAD);
    s.push_str("<style>.k{stroke:red;stroke-width:3}.w{stroke-width:3}.d{stroke-dasharray:3}.v{vector-effect:non-scaling-stroke}@media print{.p{stroke-width:3}}</style>");
    s.push_str(DEFS);
    s.push_str("<g");
    put_some(&mut s, group, &mut left);
    s.push_str("><path d='");
    put_some(&mut s, d, &mut left);
    s.push_str("' transform='");
    put_some(&mut s, t, &mut left);
    s.push('\'');
    put_some(&mut s, stroke, &mut left);
    s.push('>');
    s.push_str(inside);
    s.push_str("</path></g></svg>");
    keeps(&job!(apply_transforms: o), &s, 2e-3, false, &format!("{d}|{t}|{stroke}|{group}|{inside}"));
}

/// P07: every command under every kind of matrix.
pub fn apply_commands() {
    let d = sym::one(PATHS);
    let t = sym::one(APPLIED);
    apply(d, t, "", "", "", ApplyTransforms::default());
}

/// P07: strokes and other things that depend on the coordinate system.
pub fn apply_strokes() {
    let d = sym::one(&["M1 2L@ 3 5 6", "M0 0A5 3 0 0 1 5 6"]);
    let t = sym::one(&["scale(2)", "translate(@ 3)", "scale(2 3)", "scale(-1.5 1.5)", "rotate(30)", "matrix(1 2 -2 1 0 0)"]);
    let stroke = sym::one(STROKES);
    let group = sym::one(&["", " stroke='red'", " stroke='red' stroke-width='@'", " stroke-dasharray='@'", " stroke='none'", " class='k'"]);
    let inside = sym::one(&["", "<animate attributeName='d' dur='1s' to='M0 0'/>", "<animateTransform attributeName='transform' type='scale' dur='1s' to='2'/>"]);
    let o = ApplyTransforms { apply_transforms_stroked: sym::pick(2) == 1, ..ApplyTransforms::default() };
    if !inside.is_empty() && (!stroke.is_empty() || !group.is_empty()) {
        return;
    }
    apply(d, t, stroke, group, inside, o);
}
