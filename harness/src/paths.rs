//! P05: path data keeps what it draws when optimised.
use crate::job;
use crate::geom;
use crate::jobs::{DEFS, HEAD, put_some, run};
use crate::svg::{picture, same};
use crate::sym;
use std::sync::atomic::Ordering::Relaxed;
use oxvg_optimiser::ConvertPathData;
use oxvg_path::geometry::Tolerance;

/// Points may move this far: several times the tolerance of the job.
const TOL: f64 = 0.03;

const D: &[&str] = &[
    "M1 2L@ 3 5 6",
    "M@ 2m3 4l5 @",
    "m1 2l3 @zl1 1",
    "M1 2h@h3v-2v@",
    "M1 2h@h-3v-2v@",
    "M1 2l@ 4l@ 4l2 2",
    "M1 2l2 2l@ 3H9",
    "M1 2h0v@h0l0 0",
    "M1 2v0@l3 0@",
    "M0 0h9v@h-9z",
    "M0 0h9v@h-9v-7",
    "M0 0h9v@H0V0z",
    "M0 0h9v@L0 0z",
    "M0 0h9v@L0 0zm3 3h3v3z",
    "M0 0h9v@zm3 3h3v3zl@ 2",
    "M1 2L5 6M@ 3L5 6",
    "M1 2L5 6L5 6M@ 3",
    "M1 2M@ 3M5 6h3",
    "M1 2zM@ 3h4z",
    "M1 2h0zM@ 3h4",
    "M1 2C1 @ 4 5 6 7s1 2 @ 4",
    "M1 2c1 @ 4 5 6 7S1 2 @ 4",
    "M1 2C1 @ 4 5 6 7C8 9 9 2 @ 4",
    "M1 2c0 0 @ 3 @ 3",
    "M1 2c1 1 2 2 @ @",
    "M1 2c3 3 1 1 @ @",
    "M1 2c-1-1 9 9 @ @",
    "M1 2c0 3 0 5 0 @v3",
    "M1 2c0 3 0-5 0 @v3",
    "M1 2c2 @ 4 0 6 0s4 2 6 0",
    "M1 2c2 @ 4 0 6 0c2 0 4 @ 6 0",
    "M0 0c0 5.5228 4.4772 10 10 10",
    "M0 0C0 5.5228 4.4772 10 10 10S20 15.5228 20 2@",
    "M0 0c0 5.5228 4.4772 10 10 10s10-4.4772 10-10",
    "M0 0c0 5.5228 4.4772 10 10 10 5.5228 0 10-4.4772 10-10l@ 2",
    "M0 0c0 5.5228 4.4772 10 10 10s10-4.4772 10-10-4.4772-10-10-10-10 4.4772-10 10z",
    "M0 0c0 5.5228 4.4772 10 10 10s10-4.4772 10-10-4.4772-10-10-10S0-5.5228 0 0zm2@ 3h3",
    "M1 2Q@ 3 4 5t2 3T@ 1",
    "M1 2q@ 3 4 5T2 3t@ 1",
    "M1 2q1 1 @ @t2 2",
    "M1 2q@ 3 4 5q@ 2 1 3",
    "M1 2t@ 3t4 5",
    "M1 2s@ 3 4 5s@ 2 1 3",
    "M1 2s@ 3 4 5q@ 2 1 3s1 1 2 5",
    "M0 0A@ 3 0 0 1 5 6",
    "M1 2a@ 3 30 1 0 5 6L0 0",
    "M1 2a5 5 0 0 1 @ 4a5 5 0 0 1 3 3",
    "m3 3a5 2 90 0 1 @ 4a3 3 0 1 1 2 0",
    "M1 2a0 5 0 0 1 @ 4a3 0 0 1 1 2 3",
    "M1 2a5 5 0 0 1 0 0h@",
    "M1 2a99 99 0 0 1 @ 4",
    "M1 2a4 4 0 1 1 8 0a4 4 0 1 1-8 0z",
    "M1 2a4 4 0 1 1 @ 0a4 4 0 0 1-3 4z",
    "M1 2A4 2-85 1 1 @ 6",
    "M1 2l3 4zH@V9",
    "m1 2l3 4m5 6 7 8zV@H9zh3",
    "M1 2L1.2346@ 3.45678l.3334@ .6666l.33334 .1112@",
    "M.12@4.2345l.0004@.0004l.0004.0004l.0004.0004l.0004 5",
    "M1e3 2e-@l3e1@ 4",
    "M100.5@ 200.25l-.@ .@h.5@V200",
    "M1 2h3m@ 0h3m2@ 2",
    "M5 5l@ 4 0 0-2 3M1 1",
    "M1 2h4L1 2M@ 5L6 7",
    "M1 2h@v0h-@z",
    "M1 2c0 0 0 0 @ 3l@ 3",
    "M1 2c0 0 0 0 0 0l@ 3",
    "M1 2h@c0 0 0 0 3 0z",
    "M0 0h5h-5h@z",
    "M1 2c5 @-5 5 0 0h3",
    "M1 2c@ 0-3 0 0 0h3",
    "M1 2l3 @L1 2l5 1",
    "M1 2l3 @v@L1 2M4 5h3",
    "M1 2l3 @L1 2z",
    "M0 0c1 0 2 0 @ 0q3 0 5 0t2 0",
    "M0 0a4 4 0 0 1 4 4a4 4 0 0 1-4 4a4 4 0 0 1-4-4a4 4 0 0 1 4-4m@ 1h2",
];

const STYLES: &[&str] = &[
    "",
    " stroke='red'",
    " stroke='red' stroke-linecap='round'",
    " stroke='red' stroke-linecap='round' stroke-linejoin='round'",
    " stroke='red' stroke-linecap='square'",
    " marker-start='url(#k)'",
    " marker-mid='url(#k)'",
    " marker-end='url(#k)'",
    " class='k'",
    " style='marker-mid:url(#k)'",
    " class='c'",
    " fill-rule='evenodd'",
    " stroke='red' stroke-dasharray='2 1'",
    " style='stroke:red' pathLength='9'",
    " class='d'",
];

fn alike(s: &str, t: &str, env: bool, tol: f64) -> bool {
    let (Some(a), Some(b)) = (picture(s, env), picture(t, env)) else { return false };
    same(&a, &b, tol)
}

fn optimise(d: &str, style: &str, env: bool, o: &ConvertPathData, tol: f64, what: &str) {
    let mut left = 3;
    let mut s = String::from(HEAD);
    s.push_str("<style>.k{marker:url(#k)}.c{stroke:red;stroke-linecap:round}.d{stroke:red}@media print{.d{stroke-linecap:round}}</style>");
    s.push_str(DEFS);
    s.push_str("<path d='");
    put_some(&mut s, d, &mut left);
    s.push_str(&format!("'{style}/></svg>"));
    sym::cover(1);
    let t = run(&job!(convert_path_data: o.clone()), &s);
    let what = format!("{d}|{style}|{what}");
    let kept = alike(&s, &t, env, tol);
    if !kept {
        // closing only where the pen is back at the start anyway
        geom::CLOSING.store(true, Relaxed);
        let closed = alike(&s, &t, env, tol);
        geom::CLOSING.store(false, Relaxed);
        if closed {
            sym::known("P05-close");
        }
    }
    sym::check(kept, &what);
}

/// Special shapes of path data under every style.
pub fn styles() {
    let d = sym::one(D);
    let style = sym::one(STYLES);
    optimise(d, style, style.contains("'d'"), &ConvertPathData::default(), TOL, "");
}

/// Options of the job.
pub fn options() {
    let d = sym::one(D);
    let style = if sym::deep() { sym::one(&STYLES[..4]) } else { sym::one(&[STYLES[0], STYLES[3]]) };
    let mut o = ConvertPathData::default();
    let k = sym::pick(11);
    match k {
        0 => o.close_segments = true,
        1 => o.unite_segments = true,
        2 => o.join_nodes = false,
        3 => o.remove_empty_segments = false,
        4 => o.remove_zero_segments = false,
        5 => o.remove_close_line = true,
        6 => o.straight_curves = false,
        7 => o.arc_curves = false,
        8 => o.smart_arc_rounding = false,
        9 => o.tolerance = Tolerance { precision: 1, positional: 0.05, ..Tolerance::default() },
        _ => o.tolerance = Tolerance { precision: 5, positional: 1e-5, angular: 1e-5 },
    }
    let tol = if k == 9 { 1.0 } else { TOL };
    optimise(d, style, false, &o, tol, &format!("option {k}"));
}

const COMMANDS: &[&str] = &[
    "M@ 3", "m3 @", "L@ 5", "l@ 4", "H@", "h@", "V@", "v@", "C@ 1 3 5 6 3", "c@ 1 3 5 6 3", "S@ 4 5 8", "s3 @ 5 8", "Q@ 6 7 2", "q2 @ 7 3", "T@ 6", "t@ 6", "A@ 4 20 1 0 5 7", "a@ 4 20 0 1 5 7", "z",
];

/// Every command after every command.
pub fn pairs() {
    let style = if sym::deep() { sym::one(&STYLES[..2]) } else { STYLES[1] };
    let a = sym::one(COMMANDS);
    let b = sym::one(COMMANDS);
    let c = if sym::deep() { sym::one(COMMANDS) } else { sym::one(&["z", "S1 1 2 3"]) };
    let d = format!("M1 2{a}{b}{c}");
    optimise(&d, style, false, &ConvertPathData::default(), TOL, "");
}
