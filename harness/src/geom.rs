//! Outlines as points: an independent evaluation of path data.
use crate::pathread::Seg;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub type Pt = [f64; 2];
/// a b c d e f of `matrix()`
pub type Mat = [f64; 6];
pub const ID: Mat = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

pub fn mul(m: &Mat, n: &Mat) -> Mat {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}
pub fn at(m: &Mat, p: Pt) -> Pt {
    [m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5]]
}

/// One subpath: its vertices (ends of segments) and a polyline through all of them.
#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub pts: Vec<Pt>,
    pub vertices: Vec<Pt>,
    pub closed: bool,
}

const PIECES: usize = 16;

fn lerp(a: Pt, b: Pt, t: f64) -> Pt {
    [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t]
}

fn cubic(out: &mut Vec<Pt>, p0: Pt, p1: Pt, p2: Pt, p3: Pt) {
    for k in 1..=PIECES {
        let t = k as f64 / PIECES as f64;
        let (a, b, c) = (lerp(p0, p1, t), lerp(p1, p2, t), lerp(p2, p3, t));
        let (d, e) = (lerp(a, b, t), lerp(b, c, t));
        out.push(lerp(d, e, t));
    }
}

/// Points on an arc by SVG's implementation notes (endpoint to centre parametrisation).
fn arc(out: &mut Vec<Pt>, p0: Pt, rx: f64, ry: f64, rot: f64, large: bool, sweep: bool, p1: Pt) {
    let (mut rx, mut ry) = (rx.abs(), ry.abs());
    if rx == 0.0 || ry == 0.0 {
        out.push(p1);
        return;
    }
    if p0 == p1 {
        return;
    }
    let (s, c) = rot.to_radians().sin_cos();
    let (dx, dy) = ((p0[0] - p1[0]) / 2.0, (p0[1] - p1[1]) / 2.0);
    let (x, y) = (c * dx + s * dy, -s * dx + c * dy);
    let l = x * x / (rx * rx) + y * y / (ry * ry);
    if l > 1.0 {
        rx *= l.sqrt();
        ry *= l.sqrt();
    }
    let den = rx * rx * y * y + ry * ry * x * x;
    let q = ((rx * rx * ry * ry - den) / den).max(0.0).sqrt();
    let q = if large == sweep { -q } else { q };
    let (cx, cy) = (q * rx * y / ry, -q * ry * x / rx);
    let t0 = ((y - cy) / ry).atan2((x - cx) / rx);
    let t1 = ((-y - cy) / ry).atan2((-x - cx) / rx);
    let mut dt = t1 - t0;
    let tau = std::f64::consts::TAU;
    if sweep && dt < 0.0 {
        dt += tau;
    }
    if !sweep && dt > 0.0 {
        dt -= tau;
    }
    let (mx, my) = ((p0[0] + p1[0]) / 2.0, (p0[1] + p1[1]) / 2.0);
    let n = PIECES * 2;
    for k in 1..=n {
        if k == n {
            out.push(p1);
            break;
        }
        let t = t0 + dt * k as f64 / n as f64;
        let (px, py) = (cx + rx * t.cos(), cy + ry * t.sin());
        out.push([c * px - s * py + mx, s * px + c * py + my]);
    }
}

/// Evaluates path data.
pub fn outline(segs: &[Seg]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut cur = Sub::default();
    let mut p: Pt = [0.0, 0.0];
    let mut start = p;
    // last control point of a cubic (1) or quadratic (2)
    let mut ctl = (0u8, p);
    let mut fresh = false;
    for s in segs {
        let rel = s.cmd.is_ascii_lowercase();
        let o = if rel { p } else { [0.0, 0.0] };
        let q = |k: usize| [s.a[k] + o[0], s.a[k + 1] + o[1]];
        let c = s.cmd | 32;
        if c == b'm' {
            if !cur.pts.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            p = q(0);
            start = p;
            cur.pts.push(p);
            cur.vertices.push(p);
            ctl.0 = 0;
            fresh = false;
            continue;
        }
        if fresh {
            // drawing goes on after a closepath without a moveto
            cur.pts.push(p);
            cur.vertices.push(p);
            fresh = false;
        }
        let mut next = (0u8, p);
        match c {
            b'z' => {
                cur.closed = true;
                out.push(std::mem::take(&mut cur));
                p = start;
                fresh = true;
                ctl.0 = 0;
                continue;
            }
            b'l' => {
                p = q(0);
                cur.pts.push(p);
            }
            b'h' => {
                p = [s.a[0] + o[0], p[1]];
                cur.pts.push(p);
            }
            b'v' => {
                p = [p[0], s.a[0] + o[1]];
                cur.pts.push(p);
            }
            b'c' => {
                cubic(&mut cur.pts, p, q(0), q(2), q(4));
                next = (1, q(2));
                p = q(4);
            }
            b's' => {
                let c1 = if ctl.0 == 1 { [2.0 * p[0] - ctl.1[0], 2.0 * p[1] - ctl.1[1]] } else { p };
                cubic(&mut cur.pts, p, c1, q(0), q(2));
                next = (1, q(0));
                p = q(2);
            }
            b'q' | b't' => {
                let (c1, e) = if c == b'q' {
                    (q(0), q(2))
                } else {
                    let c1 = if ctl.0 == 2 { [2.0 * p[0] - ctl.1[0], 2.0 * p[1] - ctl.1[1]] } else { p };
                    (c1, q(0))
                };
                cubic(&mut cur.pts, p, lerp(p, c1, 2.0 / 3.0), lerp(e, c1, 2.0 / 3.0), e);
                next = (2, c1);
                p = e;
            }
            b'a' => {
                let e = q(5);
                arc(&mut cur.pts, p, s.a[0], s.a[1], s.a[2], s.a[3] != 0.0, s.a[4] != 0.0, e);
                p = e;
            }
            _ => {}
        }
        cur.vertices.push(p);
        ctl = next;
    }
    if !cur.pts.is_empty() {
        out.push(cur);
    }
    out
}

/// Whether open subpaths that return to their start are read as closed ones.
pub static CLOSING: AtomicBool = AtomicBool::new(false);

pub fn moved(subs: &[Sub], m: &Mat) -> Vec<Sub> {
    subs.iter()
        .map(|s| Sub {
            pts: s.pts.iter().map(|p| at(m, *p)).collect(),
            vertices: s.vertices.iter().map(|p| at(m, *p)).collect(),
            closed: s.closed || CLOSING.load(Relaxed) && s.pts.len() > 1 && dist(s.pts[0], s.pts[s.pts.len() - 1]) < 2e-3,
        })
        .collect()
}

fn dist(a: Pt, b: Pt) -> f64 {
    ((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])).sqrt()
}

/// `n + 1` points at equal distances along the polyline, and its length.
pub fn along(s: &Sub, close: bool, n: usize) -> (Vec<Pt>, f64) {
    let mut pts = s.pts.clone();
    if close && !pts.is_empty() {
        pts.push(pts[0]);
    }
    let mut lens = vec![];
    let mut total = 0.0;
    for w in pts.windows(2) {
        let d = dist(w[0], w[1]);
        lens.push(d);
        total += d;
    }
    let mut out = vec![pts[0]];
    if !(total > 0.0) {
        return (out, 0.0);
    }
    let mut i = 0;
    let mut done = 0.0;
    for k in 1..n {
        let want = total * k as f64 / n as f64;
        while i + 1 < lens.len() && done + lens[i] < want {
            done += lens[i];
            i += 1;
        }
        let t = if lens[i] > 0.0 { ((want - done) / lens[i]).min(1.0) } else { 0.0 };
        out.push(lerp(pts[i], pts[i + 1], t));
    }
    out.push(*pts.last().unwrap());
    (out, total)
}

/// Left, top, right, bottom of all points.
pub fn bbox(subs: &[Sub]) -> [f64; 4] {
    let mut b = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for s in subs {
        for p in &s.pts {
            b = [b[0].min(p[0]), b[1].min(p[1]), b[2].max(p[0]), b[3].max(p[1])];
        }
    }
    b
}
