//! Basic shapes turned into paths.
use crate::jobs::*;
use crate::sym;
use oxvg_optimiser::*;

const LENGTHS: &[&str] = &["", "@", "-@", "0", "@.@5", "5@%", "@em", ".@px", "1.@mm", "auto", "x"];
const SIZES: &[&str] = &["", "@", "-@", "0", "1@%", ".@2in", "auto"];
const EXTRA: &[&str] = &["", " stroke='red' stroke-width='@'", " transform='scale(.@)'", " class='k' id='i'", " marker-end='url(#k)'", " pathLength='@'", " style='fill:red'"];
const INSIDE: &[&str] = &["", "<title>t</title>", "<animate attributeName='fill' dur='1s' to='red'/>"];
const SHEETS: &[&str] = &["", ".k{fill:red}", "rect{fill:red}", "ellipse,line{fill:red}", "circle{fill:blue}", "path{fill:blue}", "polyline+rect{fill:red}", "g>polygon{fill:red}", "rect+.z,circle~.z,ellipse+.z{fill:red}", "line+.z,polyline+.z,polygon+.z{fill:red}", ":not(rect){stroke:red}", "@media all{rect,line{stroke:red}}", "[points],[width],[cx]{stroke:red}"];

fn at(s: &mut String, name: &str, v: &str, left: &mut usize) {
    if !v.is_empty() {
        s.push_str(" ");
        s.push_str(name);
        s.push_str("='");
        put_some(s, v, left);
        s.push_str("'");
    }
}

fn check(shape: &str, fields: &[(&str, &str)], extra: &str, inside: &str, sheet: &str, precision: i32, arcs: bool, circle: bool) {
    let mut s = String::from(HEAD);
    if !sheet.is_empty() {
        s.push_str("<style>");
        s.push_str(sheet);
        s.push_str("</style>");
    }
    s.push_str(DEFS);
    s.push_str("<g><");
    s.push_str(shape);
    let mut what = format!("{shape} {extra}{inside} {sheet} {precision}{arcs}{circle}");
    let mut left = 2;
    for (n, v) in fields {
        what.push_str(&format!(" {n}:{v}"));
        at(&mut s, n, v, &mut left);
    }
    put_some(&mut s, extra, &mut left);
    s.push_str(">");
    s.push_str(inside);
    s.push_str("</");
    s.push_str(shape);
    s.push_str("><g class='z'><path d='M2 2h5v5z'/></g></g></svg>");
    if sheet.contains('[') {
        // rules that select shapes by the attributes the job removes
        sym::known("P08-attr");
    }
    let mut jobs = Jobs::none();
    if circle {
        jobs.convert_ellipse_to_circle = Some(ConvertEllipseToCircle(true));
    } else {
        jobs.convert_shape_to_path = Some(ConvertShapeToPath { convert_arcs: arcs, float_precision: precision });
    }
    let tol = 1.5 * 0.1f64.powi(precision);
    keeps(&jobs, &s, tol, false, &what);
}

/// P08: every length of every shape.
pub fn lengths() {
    let shape = sym::pick(6);
    let x = sym::one(LENGTHS);
    let w = sym::one(SIZES);
    match shape {
        0 => {
            let h = sym::one(&["@", "", "-@", "50%"]);
            let r = sym::one(&["", "@", "0", "auto"]);
            check("rect", &[("x", x), ("width", w), ("height", h), ("y", "2"), ("rx", r)], "", "", "", 3, true, false);
        }
        1 => {
            let r = sym::one(&["", "1"]);
            check("rect", &[("y", x), ("height", w), ("width", "7.@"), ("ry", r)], "", "", "", 3, true, false)
        }
        2 => {
            let y = sym::one(&["", "-@", "5%"]);
            check("line", &[("x1", x), ("y2", w), ("x2", y), ("y1", "@")], " stroke='red'", "", "", 3, true, false);
            check("line", &[("y1", x), ("x2", w), ("y2", y), ("x1", "3")], " stroke='red'", "", "", 3, true, false);
        }
        3 => {
            check("circle", &[("cx", x), ("r", w), ("cy", "@")], "", "", "", 3, true, false);
            check("circle", &[("cy", x), ("r", w)], "", "", "", 3, true, false);
        }
        4 => {
            let ry = sym::one(&["", "@", "0", "auto", "1@%", "-@", ".@2in"]);
            let circle = sym::pick(2) == 1;
            check("ellipse", &[("cx", x), ("rx", w), ("ry", ry), ("cy", "3")], "", "", "", 3, true, circle);
        }
        _ => {
            let shape = sym::one(&["polyline", "polygon"]);
            let sep = sym::one(&[" ", ",", "-", " , ", "."]);
            let tail = sym::one(&["", " 5", " 5 @", ",", " x", " 6e@ 1"]);
            let v = format!("@{sep}2{x}{w}{tail}");
            check(shape, &[("points", &v)], " stroke='red'", "", "", 3, true, false);
        }
    }
}

/// P08: what else is on and in the element, style sheets and options.
pub fn surroundings() {
    let shape = sym::pick(6);
    let extra = sym::one(EXTRA);
    if extra.contains("marker") && matches!(shape, 0 | 4 | 5) {
        // whether these have markers depends on the version of SVG
        return;
    }
    let plain = extra.is_empty();
    let inside = if plain || sym::deep() { sym::one(INSIDE) } else { "" };
    let sheet = if plain || extra.contains("class") || sym::deep() { sym::one(SHEETS) } else { "" };
    let precision = if sheet.is_empty() { sym::one(&[3, 1, 0, 5]) } else { 3 };
    let arcs = sym::pick(2) == 1;
    let circle = shape == 4 && sym::pick(2) == 1;
    let (name, fields): (&str, &[(&str, &str)]) = match shape {
        0 => ("rect", &[("x", "1.@7"), ("width", "9.@"), ("height", "4")]),
        1 => ("line", &[("x1", "1.@7"), ("y2", "9.@")]),
        2 => ("polyline", &[("points", "1.@7 2 5 6 9.@ 1")]),
        3 => ("polygon", &[("points", "1.@7 2 5 6 9.@ 1")]),
        4 => ("ellipse", &[("cx", "1.@7"), ("rx", "9.@"), ("ry", "9.@")]),
        _ => ("circle", &[("cx", "1.@7"), ("r", "9.@")]),
    };
    check(name, fields, extra, inside, sheet, precision, arcs, circle);
}
