//! What a document draws, as a flat list of tokens: an independent reading of SVG 2.
//!
//! Groups without effects leave no trace, transforms are applied to the outlines, styles are
//! resolved through the cascade, references are replaced by what they refer to. Two documents
//! with the same tokens draw the same picture; ids, names of attributes used for styling and
//! the structure of plain groups don't show up.
use crate::color;
use crate::css::{self, Sheet};
use crate::geom::{self, ID, Mat, Sub};
use crate::pathread::{self, Reader, Seg};
use roxmltree::{Document, Node};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Tok {
    S(String),
    N(f64),
}

pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

/// name, inherited, initial value
const PROPS: &[(&str, bool, &str)] = &[
    ("color", true, "black"),
    ("fill", true, "black"),
    ("fill-opacity", true, "1"),
    ("fill-rule", true, "nonzero"),
    ("stroke", true, "none"),
    ("stroke-width", true, "1"),
    ("stroke-opacity", true, "1"),
    ("stroke-linecap", true, "butt"),
    ("stroke-linejoin", true, "miter"),
    ("stroke-miterlimit", true, "4"),
    ("stroke-dasharray", true, "none"),
    ("stroke-dashoffset", true, "0"),
    ("clip-rule", true, "nonzero"),
    ("visibility", true, "visible"),
    ("marker-start", true, "none"),
    ("marker-mid", true, "none"),
    ("marker-end", true, "none"),
    ("paint-order", true, "normal"),
    ("shape-rendering", true, "auto"),
    ("color-interpolation", true, "sRGB"),
    ("color-interpolation-filters", true, "linearRGB"),
    ("image-rendering", true, "auto"),
    ("text-rendering", true, "auto"),
    ("pointer-events", true, "auto"),
    ("cursor", true, "auto"),
    ("font", true, ""),
    ("font-family", true, ""),
    ("font-size", true, "medium"),
    ("font-style", true, "normal"),
    ("font-weight", true, "normal"),
    ("letter-spacing", true, "normal"),
    ("word-spacing", true, "normal"),
    ("text-anchor", true, "start"),
    ("writing-mode", true, "horizontal-tb"),
    ("direction", true, "ltr"),
    ("display", false, "inline"),
    ("opacity", false, "1"),
    ("clip-path", false, "none"),
    ("mask", false, "none"),
    ("filter", false, "none"),
    ("transform", false, "none"),
    ("transform-origin", false, "0 0"),
    ("overflow", false, "visible"),
    ("stop-color", false, "black"),
    ("stop-opacity", false, "1"),
    ("flood-color", false, "black"),
    ("flood-opacity", false, "1"),
    ("lighting-color", false, "white"),
    ("vector-effect", false, "none"),
    ("text-decoration", false, "none"),
    ("dominant-baseline", false, "auto"),
    ("alignment-baseline", false, "auto"),
    ("baseline-shift", false, "baseline"),
    ("unicode-bidi", false, "normal"),
    ("mix-blend-mode", false, "normal"),
    ("isolation", false, "auto"),
];

pub fn prop(name: &str) -> Option<usize> {
    PROPS.iter().position(|p| p.0 == name)
}

#[derive(Clone)]
pub struct Style(Vec<Rc<str>>);

impl Style {
    fn initial() -> Self {
        Style(PROPS.iter().map(|p| Rc::from(p.2)).collect())
    }
    pub fn get(&self, name: &str) -> &str {
        &self.0[prop(name).unwrap()]
    }
}

pub fn attr<'a>(e: &Node<'a, '_>, name: &str) -> Option<&'a str> {
    e.attributes().find(|a| a.namespace().is_none() && a.name() == name).map(|a| a.value())
}

/// The attribute unless it counts for nothing.
pub fn said<'a>(e: &Node<'a, '_>, name: &str) -> Option<&'a str> {
    attr(e, name).filter(|v| !blank(name, v))
}

/// Whether the value is an error for being empty, so that the attribute counts for nothing.
fn blank(name: &str, value: &str) -> bool {
    value.trim().is_empty() && !matches!(name, "requiredExtensions" | "requiredFeatures" | "systemLanguage")
}

/// The parts of a `font` of style, weight, size and families.
fn font(value: &str) -> Option<Vec<(&'static str, String)>> {
    let (mut style, mut weight) = ("normal", "normal");
    let mut rest = value.trim();
    loop {
        let (word, more) = rest.split_once(' ')?;
        match word {
            "italic" | "oblique" => style = word,
            "bold" | "700" => weight = word,
            "normal" | "400" => {}
            _ => {
                return Some(vec![
                    ("font-style", style.to_string()),
                    ("font-weight", weight.to_string()),
                    ("font-size", word.to_string()),
                    ("font-family", more.trim().to_string()),
                ]);
            }
        }
        rest = more.trim_start();
    }
}

/// One writing for values of properties with several.
fn plain(name: &str, value: &str) -> Option<&'static str> {
    let mut v = value.to_ascii_lowercase();
    if name == "paint-order" {
        let mut l: Vec<&str> = v.split_ascii_whitespace().collect();
        for n in ["fill", "stroke", "markers"] {
            if l.iter().all(|m| ["fill", "stroke", "markers"].contains(m)) && !l.contains(&n) {
                l.push(n);
            }
        }
        v = l.join(" ");
    }
    Some(match (name, &*v) {
        ("font-weight", "400") => "normal",
        ("font-weight", "bold") => "700",
        ("paint-order", "fill stroke markers") => "normal",
        ("paint-order", "fill markers stroke") => "fill markers stroke",
        ("paint-order", "stroke fill markers") => "stroke fill markers",
        ("paint-order", "stroke markers fill") => "stroke markers fill",
        ("paint-order", "markers fill stroke") => "markers fill stroke",
        ("paint-order", "markers stroke fill") => "markers stroke fill",
        _ => return None,
    })
}

/// `href`, or `xlink:href` in its absence.
pub fn href<'a>(e: &Node<'a, '_>) -> Option<&'a str> {
    said(e, "href").or_else(|| e.attributes().find(|a| a.namespace() == Some(XLINK) && a.name() == "href").map(|a| a.value()))
}

/// Values attributes have when they aren't given, by the names of elements.
const DEFAULTS: &[(&str, &[(&str, &str)])] = &[
    ("filter", &[("x", "-10%"), ("y", "-10%"), ("width", "120%"), ("height", "120%"), ("filterUnits", "objectBoundingBox"), ("primitiveUnits", "userSpaceOnUse")]),
    ("mask", &[("x", "-10%"), ("y", "-10%"), ("width", "120%"), ("height", "120%"), ("maskUnits", "objectBoundingBox"), ("maskContentUnits", "userSpaceOnUse")]),
    ("clipPath", &[("clipPathUnits", "userSpaceOnUse")]),
    ("marker", &[("markerUnits", "strokeWidth"), ("refX", "0"), ("refY", "0"), ("markerWidth", "3"), ("markerHeight", "3"), ("orient", "0"), ("preserveAspectRatio", "xMidYMid meet")]),
    ("feBlend", &[("mode", "normal")]),
    ("feColorMatrix", &[("type", "matrix")]),
    ("feComposite", &[("operator", "over"), ("k1", "0"), ("k2", "0"), ("k3", "0"), ("k4", "0")]),
    ("feConvolveMatrix", &[("order", "3"), ("edgeMode", "duplicate"), ("preserveAlpha", "false"), ("bias", "0")]),
    ("feDiffuseLighting", &[("surfaceScale", "1"), ("diffuseConstant", "1")]),
    ("feSpecularLighting", &[("surfaceScale", "1"), ("specularConstant", "1"), ("specularExponent", "1")]),
    ("feDisplacementMap", &[("scale", "0"), ("xChannelSelector", "A"), ("yChannelSelector", "A")]),
    ("feDistantLight", &[("azimuth", "0"), ("elevation", "0")]),
    ("feDropShadow", &[("dx", "2"), ("dy", "2"), ("stdDeviation", "2")]),
    ("feGaussianBlur", &[("stdDeviation", "0"), ("edgeMode", "none")]),
    ("feMorphology", &[("operator", "erode"), ("radius", "0")]),
    ("feOffset", &[("dx", "0"), ("dy", "0")]),
    ("fePointLight", &[("x", "0"), ("y", "0"), ("z", "0")]),
    ("feSpotLight", &[("x", "0"), ("y", "0"), ("z", "0"), ("pointsAtX", "0"), ("pointsAtY", "0"), ("pointsAtZ", "0"), ("specularExponent", "1")]),
    ("feTurbulence", &[("baseFrequency", "0"), ("numOctaves", "1"), ("seed", "0"), ("stitchTiles", "noStitch"), ("type", "turbulence")]),
    ("feFuncR", &[("type", "identity"), ("slope", "1"), ("intercept", "0"), ("amplitude", "1"), ("exponent", "1"), ("offset", "0")]),
    ("image", &[("x", "0"), ("y", "0"), ("preserveAspectRatio", "xMidYMid meet")]),
    ("svg", &[("x", "0"), ("y", "0"), ("width", "100%"), ("height", "100%"), ("preserveAspectRatio", "xMidYMid meet")]),
    ("symbol", &[("preserveAspectRatio", "xMidYMid meet")]),
    ("text", &[("x", "0"), ("y", "0"), ("lengthAdjust", "spacing")]),
    ("tspan", &[("lengthAdjust", "spacing")]),
    ("textPath", &[("startOffset", "0"), ("method", "align"), ("spacing", "exact"), ("side", "left"), ("lengthAdjust", "spacing")]),
    ("a", &[("target", "_self")]),
    ("animate", &[("attributeType", "auto"), ("calcMode", "linear"), ("accumulate", "none"), ("additive", "replace"), ("restart", "always")]),
    ("animateTransform", &[("type", "translate"), ("attributeType", "auto"), ("calcMode", "linear"), ("accumulate", "none"), ("additive", "replace"), ("restart", "always")]),
    ("animateMotion", &[("rotate", "0"), ("calcMode", "paced"), ("accumulate", "none"), ("additive", "replace"), ("restart", "always")]),
    ("set", &[("attributeType", "auto"), ("restart", "always")]),
];

/// Whether the attribute may as well be missing.
pub fn is_default(element: &str, name: &str, v: &str) -> bool {
    let v = v.trim();
    let v = if v == "xMidYMid" { "xMidYMid meet" } else { v };
    let of = |e: &str| DEFAULTS.iter().find(|d| d.0 == e).and_then(|d| d.1.iter().find(|d| d.0 == name));
    let x = |s: &str| num(s.strip_suffix('%').unwrap_or(s));
    let eq = |d: &str| v == d || x(v).is_some() && x(v) == x(d) && (v.ends_with('%') == d.ends_with('%') || x(d) == Some(0.0));
    if let Some((_, d)) = of(element) {
        return eq(d);
    }
    // regions of filter primitives
    let region = [("x", "0%"), ("y", "0%"), ("width", "100%"), ("height", "100%")];
    element.starts_with("fe") && region.iter().any(|d| d.0 == name && v == d.1)
}

pub struct Pic<'a, 'd> {
    pub doc: &'a Document<'d>,
    pub sheet: Sheet,
    /// whether conditional rules and dynamic pseudo classes apply
    env: bool,
    depth: usize,
    out: Vec<Tok>,
    clip: bool,
    /// Something of the text drawn last is visible.
    shown: bool,
}

fn is(e: &Node, names: &[&str]) -> bool {
    e.tag_name().namespace() == Some(SVG) && names.contains(&e.tag_name().name())
}

const SHAPES: &[&str] = &["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"];
const ANIMATIONS: &[&str] = &["animate", "animateTransform", "animateMotion", "set", "animateColor"];

/// A number followed by nothing or `px`.
pub fn num(s: &str) -> Option<f64> {
    let s = s.trim();
    let mut r = Reader::new(s.as_bytes());
    let v = r.number()?;
    Some(v * match r.rest() {
        b"" | b"px" => 1.0,
        b"in" => 96.0,
        b"cm" => 96.0 / 2.54,
        b"mm" => 96.0 / 25.4,
        b"Q" | b"q" => 96.0 / 101.6,
        b"pt" => 96.0 / 72.0,
        b"pc" => 16.0,
        _ => return None,
    })
}

pub fn transform(s: &str) -> Option<Mat> {
    let mut m = ID;
    let s = s.trim();
    if s == "none" || s.is_empty() {
        return Some(m);
    }
    let mut rest = s;
    loop {
        rest = rest.trim_start_matches([' ', ',', '\n', '\t', '\r']);
        if rest.is_empty() {
            return Some(m);
        }
        let open = rest.find('(')?;
        let close = rest.find(')')?;
        let name = rest[..open].trim();
        let mut v = vec![];
        let args = rest.get(open + 1..close)?.replace("px", "").replace("deg", "");
        let mut r = Reader::new(args.as_bytes());
        r.wsp();
        while !r.end() {
            v.push(r.number()?);
            r.comma_wsp();
        }
        let n = v.len();
        let t = match (name, n) {
            ("matrix", 6) => [v[0], v[1], v[2], v[3], v[4], v[5]],
            ("translate", 1) => [1.0, 0.0, 0.0, 1.0, v[0], 0.0],
            ("translate", 2) => [1.0, 0.0, 0.0, 1.0, v[0], v[1]],
            ("translateX", 1) => [1.0, 0.0, 0.0, 1.0, v[0], 0.0],
            ("translateY", 1) => [1.0, 0.0, 0.0, 1.0, 0.0, v[0]],
            ("scale", 1) => [v[0], 0.0, 0.0, v[0], 0.0, 0.0],
            ("scale", 2) => [v[0], 0.0, 0.0, v[1], 0.0, 0.0],
            ("scaleX", 1) => [v[0], 0.0, 0.0, 1.0, 0.0, 0.0],
            ("scaleY", 1) => [1.0, 0.0, 0.0, v[0], 0.0, 0.0],
            ("rotate", 1) => {
                let (s, c) = v[0].to_radians().sin_cos();
                [c, s, -s, c, 0.0, 0.0]
            }
            ("rotate", 3) => {
                let (s, c) = v[0].to_radians().sin_cos();
                let t = geom::mul(&[1.0, 0.0, 0.0, 1.0, v[1], v[2]], &[c, s, -s, c, 0.0, 0.0]);
                geom::mul(&t, &[1.0, 0.0, 0.0, 1.0, -v[1], -v[2]])
            }
            ("skewX", 1) => [1.0, 0.0, v[0].to_radians().tan(), 1.0, 0.0, 0.0],
            ("skewY", 1) => [1.0, v[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0],
            _ => return None,
        };
        m = geom::mul(&m, &t);
        rest = &rest[close + 1..];
    }
}

/// The id in `url(#id)`.
pub fn url(s: &str) -> Option<&str> {
    let s = s.trim().strip_prefix("url(")?;
    let s = &s[..s.find(')')?];
    s.trim().trim_matches(['"', '\'']).trim().strip_prefix('#')
}

impl<'a, 'd> Pic<'a, 'd> {
    pub fn new(doc: &'a Document<'d>, env: bool) -> Self {
        let mut sheet = Sheet::default();
        for s in doc.descendants() {
            if is(&s, &["style"]) {
                let ty = said(&s, "type").unwrap_or("");
                if !ty.is_empty() && ty != "text/css" {
                    continue;
                }
                let media = said(&s, "media").map(css::squeeze).unwrap_or_default();
                let mut text = String::new();
                for t in s.children() {
                    if t.is_text() {
                        text.push_str(t.text().unwrap_or(""));
                    }
                }
                let all = media.is_empty() || media == "all";
                let n = sheet.rules.len();
                css::sheet(&text, !all, &mut sheet);
                let head = format!("@media {media}");
                if !all && sheet.rules.len() > n && !sheet.at.contains(&head) {
                    sheet.at.push(head);
                }
            }
        }
        Pic { doc, sheet, env, depth: 0, out: vec![], clip: false, shown: false }
    }

    fn s(&mut self, s: &str) {
        self.out.push(Tok::S(s.to_string()));
    }
    fn n(&mut self, v: f64) {
        self.out.push(Tok::N(v));
    }
    fn mat(&mut self, m: &Mat) {
        for v in m {
            self.n(*v);
        }
    }

    fn by_id(&self, id: &str) -> Option<Node<'a, 'd>> {
        self.doc.descendants().find(|e| e.is_element() && said(e, "id") == Some(id))
    }

    /// The winning declaration of every property, before inheritance.
    pub fn declared(&self, e: &Node<'a, 'd>) -> Vec<Option<String>> {
        type Rank = (u8, (u32, u32, u32), usize);
        let mut best: Vec<Option<(Rank, String)>> = vec![None; PROPS.len()];
        let mut order = 0;
        let put = |best: &mut Vec<Option<(Rank, String)>>, name: &str, value: &str, rank: Rank| {
            let mut set = |i: usize| {
                if best[i].as_ref().is_none_or(|b| b.0 <= rank) {
                    best[i] = Some((rank, plain(PROPS[i].0, value).unwrap_or(value).to_string()));
                }
            };
            if name == "marker" {
                for n in ["marker-start", "marker-mid", "marker-end"] {
                    set(prop(n).unwrap());
                }
            } else if let Some(l) = (name == "font").then(|| font(value)).flatten() {
                for (n, v) in l {
                    let i = prop(n).unwrap();
                    if best[i].as_ref().is_none_or(|b| b.0 <= rank) {
                        best[i] = Some((rank, plain(n, &v).unwrap_or(&v).to_string()));
                    }
                }
            } else if let Some(i) = prop(name) {
                set(i);
            }
        };
        for a in e.attributes() {
            if a.namespace().is_none() && prop(a.name()).is_some() && a.name() != "font" && !blank(a.name(), a.value()) {
                put(&mut best, a.name(), a.value().trim(), (0, (0, 0, 0), 0));
            }
        }
        for r in &self.sheet.rules {
            order += 1;
            if r.conditional && !self.env {
                continue;
            }
            let hit = r.sels.iter().filter(|s| css::matches(s, e, self.env)).map(css::specificity).max();
            if let Some(spec) = hit {
                for d in &r.decls {
                    put(&mut best, &d.name, &d.value, (if d.important { 3 } else { 1 }, spec, order));
                }
            }
        }
        if let Some(s) = said(e, "style") {
            for d in css::decls(s) {
                put(&mut best, &d.name, &d.value, (if d.important { 4 } else { 2 }, (0, 0, 0), 0));
            }
        }
        best.into_iter().map(|b| b.map(|b| b.1)).collect()
    }

    pub fn style(&self, e: &Node<'a, 'd>, parent: &Style) -> Style {
        let d = self.declared(e);
        let mut out = vec![];
        for (i, p) in PROPS.iter().enumerate() {
            out.push(match &d[i] {
                None => {
                    if p.1 {
                        parent.0[i].clone()
                    } else {
                        Rc::from(p.2)
                    }
                }
                Some(v) => match v.as_str() {
                    "inherit" => parent.0[i].clone(),
                    "initial" => Rc::from(p.2),
                    "unset" => {
                        if p.1 {
                            parent.0[i].clone()
                        } else {
                            Rc::from(p.2)
                        }
                    }
                    _ => Rc::from(v.as_str()),
                },
            });
        }
        Style(out)
    }

    /// Style of an element from the root down.
    pub fn resolved(&self, e: &Node<'a, 'd>) -> Style {
        let p = match e.parent_element() {
            Some(p) => self.resolved(&p),
            None => Style::initial(),
        };
        self.style(e, &p)
    }

    fn opacity(v: &str) -> f64 {
        let v = v.trim();
        match v.strip_suffix('%') {
            Some(p) => num(p).map_or(1.0, |x| x / 100.0),
            None => num(v).unwrap_or(1.0),
        }
        .clamp(0.0, 1.0)
    }

    fn color(v: &str, st: &Style) -> Option<color::Rgba> {
        if v.eq_ignore_ascii_case("currentcolor") {
            let c = st.get("color");
            return color::parse(c);
        }
        color::parse(v)
    }

    fn put_color(&mut self, c: color::Rgba, opacity: f64) {
        self.s("rgba");
        for v in &c[..3] {
            self.n(v.round());
        }
        self.n(c[3] * opacity);
    }

    /// Tokens of a paint, or false if nothing is painted.
    fn paint(&mut self, v: &str, opacity: f64, st: &Style, m: &Mat, local: &[Sub]) -> bool {
        let v = v.trim();
        if v == "none" || opacity <= 0.0 {
            return false;
        }
        if let Some(id) = url(v) {
            if let Some(t) = self.by_id(id) {
                if is(&t, &["linearGradient", "radialGradient"]) {
                    return self.gradient(&t, opacity, m, local);
                }
                if is(&t, &["pattern"]) {
                    if ["width", "height"].iter().any(|n| num(self.grad_attr(&t, n, 0).unwrap_or("0")) == Some(0.0)) {
                        return false;
                    }
                    let start = self.out.len();
                    self.s("pattern");
                    self.n(opacity);
                    self.mat(m);
                    let b = if local.is_empty() { [0.0; 4] } else { geom::bbox(local) };
                    for v in b {
                        self.n(v);
                    }
                    self.attrs(&t, &["id"]);
                    if !self.content(&t) && href(&t).is_none() {
                        self.out.truncate(start);
                        return false;
                    }
                    return true;
                }
            }
            let fallback = v[v.find(')').unwrap() + 1..].trim();
            if fallback.is_empty() || fallback == "none" {
                return false;
            }
            return self.paint(&fallback.to_string(), opacity, st, m, local);
        }
        match Self::color(v, st) {
            Some(c) => {
                if c[3] * opacity <= 0.0 {
                    return false;
                }
                self.put_color(c, opacity);
                true
            }
            None => {
                self.s("paint");
                self.s(v);
                self.n(opacity);
                true
            }
        }
    }

    /// The attribute of a gradient, looked up along its references.
    fn grad_attr(&self, e: &Node<'a, 'd>, name: &str, depth: usize) -> Option<&'a str> {
        if let Some(v) = said(e, name) {
            return Some(v);
        }
        if depth > 4 {
            return None;
        }
        let t = self.by_id(href(e)?.strip_prefix('#')?)?;
        self.grad_attr(&t, name, depth + 1)
    }

    fn stops(&self, e: &Node<'a, 'd>, depth: usize) -> Vec<Node<'a, 'd>> {
        let s: Vec<_> = e.children().filter(|c| is(c, &["stop"])).collect();
        if !s.is_empty() || depth > 4 {
            return s;
        }
        match href(e).and_then(|h| h.strip_prefix('#')).and_then(|i| self.by_id(i)) {
            Some(t) => self.stops(&t, depth + 1),
            None => s,
        }
    }

    fn gradient(&mut self, e: &Node<'a, 'd>, opacity: f64, m: &Mat, local: &[Sub]) -> bool {
        let stops = self.stops(e, 0);
        if stops.is_empty() {
            return false;
        }
        let mut colors = vec![];
        for s in &stops {
            let st = self.resolved(s);
            let o = Self::opacity(said(s, "offset").unwrap_or("0"));
            let c = Self::color(st.get("stop-color"), &st).unwrap_or([0.0, 0.0, 0.0, 1.0]);
            colors.push((o, c, Self::opacity(st.get("stop-opacity"))));
        }
        if colors.len() == 1 {
            let (_, c, o) = colors[0];
            if c[3] * o * opacity <= 0.0 {
                return false;
            }
            self.put_color(c, o * opacity);
            return true;
        }
        let name = e.tag_name().name().to_string();
        self.s(&name);
        self.n(opacity);
        let user = self.grad_attr(e, "gradientUnits", 0) == Some("userSpaceOnUse");
        self.s(if user { "user" } else { "box" });
        let t = self.grad_attr(e, "gradientTransform", 0).and_then(transform).unwrap_or(ID);
        let b = if local.is_empty() { [0.0, 0.0, 1.0, 1.0] } else { geom::bbox(local) };
        let space = if user { *m } else { geom::mul(m, &[b[2] - b[0], 0.0, 0.0, b[3] - b[1], b[0], b[1]]) };
        self.mat(&geom::mul(&space, &t));
        let names: &[(&str, &str)] = if name == "linearGradient" {
            &[("x1", "0"), ("y1", "0"), ("x2", "100%"), ("y2", "0")]
        } else {
            &[("cx", "50%"), ("cy", "50%"), ("r", "50%"), ("fx", "-"), ("fy", "-"), ("fr", "0")]
        };
        for (n, d) in names {
            let v = self.grad_attr(e, n, 0).unwrap_or(d);
            // percentages of the bounding box are fractions
            match v.trim().strip_suffix('%').and_then(num) {
                Some(p) if !user || p == 0.0 => self.n(p / 100.0),
                _ => match num(v) {
                    Some(v) => self.n(v),
                    None => self.s(v),
                },
            }
        }
        let spread = self.grad_attr(e, "spreadMethod", 0).unwrap_or("pad");
        self.s(spread);
        for (o, c, op) in colors {
            self.n(o);
            self.put_color(c, op);
        }
        true
    }

    /// Attributes as they are, with numbers read as numbers.
    fn attrs(&mut self, e: &Node<'a, 'd>, except: &[&str]) {
        let mut l: Vec<(String, &'a str)> = vec![];
        for a in e.attributes() {
            let n = a.name();
            if blank(n, a.value()) {
                continue;
            }
            if a.namespace().is_none() && (except.contains(&n) || n == "style" || n == "class" || prop(n).is_some()) {
                if n == "fill" && is(e, ANIMATIONS) && a.value() != "remove" {
                    l.push((n.to_string(), a.value()));
                }
                continue;
            }
            if a.namespace().is_some_and(|n| n != XLINK) {
                continue;
            }
            if a.namespace().is_none() && is_default(e.tag_name().name(), n, a.value()) {
                continue;
            }
            l.push((n.to_string(), a.value()));
        }
        l.sort();
        for (n, v) in l {
            self.s(&n);
            self.value(v);
        }
    }

    /// A generic attribute value: numbers apart from the rest, white space squeezed.
    fn value(&mut self, v: &str) {
        if let Some(id) = url(v) {
            if self.by_id(id).is_none() {
                self.s("missing");
            }
            self.s("url");
            return;
        }
        let mut r = Reader::new(v.as_bytes());
        let mut word = String::new();
        r.wsp();
        while !r.end() {
            let before = word.as_bytes().last().copied().unwrap_or(b' ');
            if !before.is_ascii_alphanumeric() {
                if let Some(x) = r.number() {
                    if !word.trim().is_empty() {
                        let w = std::mem::take(&mut word);
                        self.s(w.trim());
                    }
                    word.clear();
                    let unit = r.rest();
                    let len = unit.iter().take_while(|c| c.is_ascii_alphabetic()).count();
                    let (factor, skip) = match &unit[..len] {
                        b"px" | b"s" => (1.0, len),
                        b"ms" => (1e-3, len),
                        b"min" => (60.0, len),
                        _ => (1.0, 0),
                    };
                    self.n(x * factor);
                    for _ in 0..skip {
                        r.skip();
                    }
                    continue;
                }
            }
            let c = r.peek();
            r.skip();
            word.push(if matches!(c, b'\n' | b'\t' | b'\r' | b',') { ' ' } else { c as char });
        }
        if !word.trim().is_empty() {
            let w = std::mem::take(&mut word);
            self.s(w.trim());
        }
    }

    /// What the children of a referenced element draw, in its own coordinate system.
    fn content(&mut self, e: &Node<'a, 'd>) -> bool {
        self.s("{");
        let start = self.out.len();
        self.depth += 1;
        if self.depth < 5 {
            let st = self.resolved(e);
            for c in e.children() {
                self.draw(&c, &ID, &st);
            }
        }
        self.depth -= 1;
        let any = self.out.len() > start;
        self.s("}");
        any
    }

    /// Any subtree, verbatim up to number formats.
    fn raw(&mut self, e: &Node<'a, 'd>) {
        for c in e.children() {
            if c.is_element() {
                let n = c.tag_name().name().to_string();
                if is(e, &["filter"]) && !n.starts_with("fe") && !is(&c, ANIMATIONS) {
                    continue;
                }
                self.s("<");
                self.s(&n);
                self.attrs(&c, &["id"]);
                let st = self.resolved(&c);
                for p in ["flood-color", "lighting-color"] {
                    if let Some(x) = Self::color(st.get(p), &st) {
                        self.put_color(x, 1.0);
                    }
                }
                let o = Self::opacity(st.get("flood-opacity"));
                self.n(o);
                self.generic(&st, &["color-interpolation-filters"]);
                self.raw(&c);
                self.s(">");
            } else if c.is_text() {
                let t = css::squeeze(c.text().unwrap_or(""));
                if !t.is_empty() {
                    self.s(&t);
                }
            }
        }
    }

    /// A referenced clip path, mask, filter or marker.
    fn reference(&mut self, prop: &str, v: &str, m: &Mat) -> bool {
        let Some(id) = url(v) else {
            self.s(prop);
            self.s(v);
            self.mat(m);
            return true;
        };
        let want = match prop {
            "clip-path" => "clipPath",
            "mask" => "mask",
            "filter" => "filter",
            _ => "marker",
        };
        let Some(t) = self.by_id(id).filter(|t| is(t, &[want])) else { return false };
        self.s(prop);
        self.mat(m);
        self.attrs(&t, &["id", "transform"]);
        if let Some(tr) = said(&t, "transform").and_then(transform) {
            self.mat(&tr);
        }
        if prop == "filter" {
            self.raw(&t);
            return true;
        }
        let was = self.clip;
        self.clip = prop == "clip-path";
        if self.clip {
            // a clip path may itself be clipped
            let st = self.resolved(&t);
            if st.get("clip-path") != "none" && self.depth < 4 {
                self.depth += 1;
                let v = st.get("clip-path").to_string();
                self.reference("clip-path", &v, &ID);
                self.depth -= 1;
            }
        }
        self.content(&t);
        self.clip = was;
        true
    }

    fn animations(&mut self, e: &Node<'a, 'd>) -> bool {
        let mut any = false;
        for c in e.children() {
            if is(&c, ANIMATIONS) {
                any = true;
                let n = c.tag_name().name().to_string();
                self.s(&n);
                self.attrs(&c, &["id"]);
                self.raw(&c);
            }
        }
        any
    }

    fn draw(&mut self, e: &Node<'a, 'd>, m: &Mat, parent: &Style) {
        if !e.is_element() || e.tag_name().namespace() != Some(SVG) {
            return;
        }
        let name = e.tag_name().name();
        let container = matches!(name, "g" | "svg" | "a" | "switch" | "use");
        let shape = SHAPES.contains(&name);
        let other = matches!(name, "text" | "image" | "foreignObject");
        if !container && !shape && !other {
            return;
        }
        let st = self.style(e, parent);
        let animated = e.children().any(|c| is(&c, ANIMATIONS));
        let shows = e.children().any(|c| is(&c, ANIMATIONS) && said(&c, "attributeName") == Some("display"));
        if st.get("display") == "none" && !shows {
            return;
        }
        let root = e.parent_element().is_none();
        let mut m = *m;
        if let Some(t) = transform(st.get("transform")) {
            let o: Vec<f64> = st.get("transform-origin").split(' ').filter_map(num).collect();
            if let [x, y] = o[..] {
                m = geom::mul(&m, &[1.0, 0.0, 0.0, 1.0, x, y]);
                m = geom::mul(&m, &t);
                m = geom::mul(&m, &[1.0, 0.0, 0.0, 1.0, -x, -y]);
            } else {
                m = geom::mul(&m, &t);
                if t != ID {
                    let o = st.get("transform-origin").to_string();
                    self.s(if o == "center" || o == "50%" { "50% 50%" } else { &o });
                }
            }
        } else {
            self.s("transform");
            let t = st.get("transform").to_string();
            self.s(&t);
        }
        let start = self.out.len();
        let mut keep = animated;
        // each effect is a group of its own, in the order SVG applies them
        let mut open = 0;
        for a in ["systemLanguage", "requiredFeatures", "requiredExtensions"] {
            if let Some(v) = said(e, a) {
                open += 1;
                self.s("(");
                self.s(a);
                self.s(v);
            }
        }
        let o = Self::opacity(st.get("opacity"));
        if o <= 0.0 && !animated && st.get("filter") == "none" && !self.clip {
            self.out.truncate(start);
            return;
        }
        for p in ["mix-blend-mode", "isolation"] {
            let v = st.get(p);
            if v != PROPS[prop(p).unwrap()].2 {
                open += 1;
                let v = v.to_string();
                self.s("(");
                self.s(&v);
            }
        }
        if o < 1.0 && !self.clip {
            open += 1;
            self.s("(");
            self.s("opacity");
            self.n(o);
        }
        for p in ["mask", "clip-path", "filter"] {
            let v = st.get(p).to_string();
            if v != "none" && self.depth < 4 {
                self.s("(");
                if self.reference(p, &v, &m) {
                    open += 1;
                    keep |= p == "filter";
                } else {
                    self.out.pop();
                }
            }
        }
        if animated {
            open += 1;
            self.s("(");
            self.s(if st.get("display") == "none" { "hidden" } else { "shown" });
            self.mat(&m);
            self.animations(e);
        }
        match name {
            "a" => {
                open += 1;
                self.s("(");
                self.s("a");
                let h = href(e).unwrap_or("").to_string();
                self.s(&h);
                for a in ["target", "rel", "download"] {
                    if let Some(v) = said(e, a).filter(|v| !is_default("a", a, v)) {
                        self.s(v);
                    }
                }
            }
            "switch" => {
                open += 1;
                self.s("(");
                self.s("switch");
            }
            "svg" if !root => {
                open += 1;
                self.s("(");
                self.s("svg");
                self.mat(&m);
                for a in ["x", "y", "width", "height", "viewBox", "preserveAspectRatio"] {
                    if let Some(v) = said(e, a).filter(|v| !is_default("svg", a, v)) {
                        self.s(a);
                        self.value(v);
                    }
                }
                let o = st.get("overflow").to_string();
                self.s(&o);
            }
            _ => {}
        }
        let body = self.out.len();
        if name == "use" {
            let x = said(e, "x").and_then(num).unwrap_or(0.0);
            let y = said(e, "y").and_then(num).unwrap_or(0.0);
            let mu = geom::mul(&m, &[1.0, 0.0, 0.0, 1.0, x, y]);
            if let Some(t) = href(e).and_then(|h| h.strip_prefix('#')).and_then(|i| self.by_id(i)) {
                if self.depth < 4 {
                    self.depth += 1;
                    if is(&t, &["symbol", "svg"]) {
                        let start = self.out.len();
                        self.s("(");
                        self.s("svg");
                        self.mat(&mu);
                        for a in ["viewBox", "preserveAspectRatio", "x", "y"] {
                            if let Some(v) = said(&t, a).filter(|v| !is_default("svg", a, v)) {
                                self.s(a);
                                self.value(v);
                            }
                        }
                        for a in ["width", "height"] {
                            if let Some(v) = said(e, a).or_else(|| said(&t, a)) {
                                self.s(a);
                                self.value(v);
                            }
                        }
                        let ts = self.style(&t, &st);
                        let body = self.out.len();
                        for c in t.children() {
                            self.draw(&c, &mu, &ts);
                        }
                        if self.out.len() == body {
                            self.out.truncate(start);
                        } else {
                            self.s(")");
                        }
                    } else {
                        self.draw(&t, &mu, &st);
                    }
                    self.depth -= 1;
                }
            }
        } else if container {
            for c in e.children() {
                self.draw(&c, &m, &st);
            }
        } else if shape {
            self.shape(e, &m, &st);
        } else if name == "text" {
            self.shown = animated;
            self.text(e, &m, &st);
        } else if st.get("visibility") == "visible" || animated {
            let sized = name != "image" || ["width", "height"].iter().all(|n| said(e, n).and_then(num) != Some(0.0));
            if sized || animated {
                self.s(name);
                self.mat(&m);
                self.attrs(e, &["id"]);
                self.generic(&st, &["image-rendering"]);
                if name == "foreignObject" {
                    self.raw(e);
                }
            }
        }
        if self.out.len() == body && !keep {
            // nothing painted
            self.out.truncate(start);
        } else {
            for _ in 0..open {
                self.s(")");
            }
        }
    }

    fn shape(&mut self, e: &Node<'a, 'd>, m: &Mat, st: &Style) {
        if st.get("visibility") != "visible" {
            return;
        }
        let local = shape_outline(e);
        if local.is_empty() {
            return;
        }
        let subs = geom::moved(&local, m);
        let start = self.out.len();
        if self.clip {
            self.s("clip");
            let r = st.get("clip-rule").to_string();
            self.s(&r);
            self.geometry(&subs, false, false);
            return;
        }
        let markers = ["marker-start", "marker-mid", "marker-end"]
            .iter()
            .any(|p| self.marker(st.get(p)))
            && matches!(e.tag_name().name(), "path" | "line" | "polyline" | "polygon");
        self.s("shape");
        let at = self.out.len();
        self.s("fill");
        let v = st.get("fill").to_string();
        let filled = self.paint(&v, Self::opacity(st.get("fill-opacity")), st, m, &local);
        if filled {
            let r = st.get("fill-rule").to_string();
            self.s(&r);
        } else {
            self.out.truncate(at);
        }
        let at = self.out.len();
        self.s("stroke");
        let v = st.get("stroke").to_string();
        let (w, percent) = {
            let v = st.get("stroke-width");
            (num(v.strip_suffix('%').unwrap_or(v)), v.ends_with('%'))
        };
        let mut stroked = w != Some(0.0) && self.paint(&v, Self::opacity(st.get("stroke-opacity")), st, m, &local);
        let cap = st.get("stroke-linecap").to_string();
        if stroked {
            let scaling = st.get("vector-effect") != "non-scaling-stroke";
            let l = if scaling { *m } else { ID };
            match w {
                Some(w) => {
                    if percent {
                        self.s("%");
                    }
                    let w2 = w * w;
                    self.n(w2 * (l[0] * l[0] + l[2] * l[2]));
                    self.n(w2 * (l[0] * l[1] + l[2] * l[3]));
                    self.n(w2 * (l[1] * l[1] + l[3] * l[3]));
                }
                None => {
                    let w = st.get("stroke-width").to_string();
                    self.s(&w);
                    self.mat(&l);
                }
            }
            self.s(&cap);
            let j = st.get("stroke-linejoin").to_string();
            self.s(&j);
            if j == "miter" {
                let v = st.get("stroke-miterlimit").to_string();
                self.value(&v);
            }
            let d = st.get("stroke-dasharray").to_string();
            if d != "none" && d != "0" {
                self.s("dash");
                let k = match said(e, "pathLength") {
                    Some(_) => 1.0,
                    None => (l[0] * l[3] - l[1] * l[2]).abs().sqrt(),
                };
                let mut r = Reader::new(d.as_bytes());
                let mut all = true;
                r.wsp();
                while let Some(x) = r.number() {
                    self.n(x * k);
                    if r.peek() == b'p' {
                        r.skip();
                        r.skip();
                    }
                    r.comma_wsp();
                }
                all &= r.end();
                if !all {
                    self.s(&d);
                }
                let o = st.get("stroke-dashoffset").to_string();
                match num(&o) {
                    Some(o) => self.n(o * k),
                    None => self.s(&o),
                }
                if let Some(v) = said(e, "pathLength") {
                    self.value(v);
                }
            }
        } else {
            self.out.truncate(at);
            stroked = false;
        }
        if !filled && !stroked && !markers {
            self.out.truncate(start);
            return;
        }
        if filled && stroked && st.get("paint-order") != "normal" {
            let v = st.get("paint-order").to_string();
            self.s(&v);
        }
        self.generic(st, &["shape-rendering", "color-interpolation", "pointer-events", "cursor"]);
        if markers {
            for p in ["marker-start", "marker-mid", "marker-end"] {
                let v = st.get(p).to_string();
                if self.marker(&v) {
                    self.reference(p, &v, m);
                    if let Some(w) = w {
                        self.n(w);
                    }
                }
            }
        }
        let at = self.out.len();
        self.geometry(&subs, stroked, stroked && cap != "butt");
        if markers {
            self.marked(&subs, st);
        }
        if self.out.len() == at {
            self.out.truncate(start);
        }
    }

    fn generic(&mut self, st: &Style, names: &[&str]) {
        for p in names {
            let i = prop(p).unwrap();
            if &*st.0[i] != PROPS[i].2 && (*p, &*st.0[i]) != ("pointer-events", "visiblePainted") {
                self.s(p);
                let mut v = st.0[i].to_string();
                if !p.starts_with("font-family") && *p != "font" {
                    v.make_ascii_lowercase();
                }
                self.value(&v);
            }
        }
    }

    /// Whether the value refers to a marker with something in it.
    fn marker(&self, v: &str) -> bool {
        url(v).and_then(|i| self.by_id(i)).is_some_and(|t| {
            is(&t, &["marker"]) && t.descendants().any(|c| is(&c, SHAPES) || is(&c, &["text", "image", "use", "foreignObject"]))
        })
    }

    /// The points at which markers are placed; vertices at the same place count once.
    fn marked(&mut self, subs: &[Sub], st: &Style) {
        let mut all: Vec<geom::Pt> = vec![];
        let mut add = |p: geom::Pt| {
            if all.last().is_none_or(|q| (q[0] - p[0]).abs() + (q[1] - p[1]).abs() > 1e-2) {
                all.push(p);
            }
        };
        for s in subs {
            s.vertices.iter().for_each(|p| add(*p));
            if s.closed {
                add(s.vertices[0]);
            }
        }
        let n = all.len();
        for (i, q) in all.iter().enumerate() {
            for (p, here) in [("marker-start", i == 0), ("marker-mid", i > 0 && i + 1 < n), ("marker-end", i + 1 == n)] {
                if here && self.marker(st.get(p)) {
                    self.s(p);
                    self.n(q[0]);
                    self.n(q[1]);
                }
            }
        }
    }

    fn geometry(&mut self, subs: &[Sub], stroked: bool, dots: bool) {
        for s in subs {
            let (p, len) = geom::along(s, s.closed || !stroked, 12);
            if !(len > 0.0) {
                if dots && (s.vertices.len() > 1 || s.closed) {
                    self.s("dot");
                    self.n(p[0][0]);
                    self.n(p[0][1]);
                }
                continue;
            }
            self.s(if !stroked {
                "area"
            } else if s.closed {
                "closed"
            } else {
                "open"
            });
            for q in &p {
                self.n(q[0]);
                self.n(q[1]);
            }
        }
    }

    fn text(&mut self, e: &Node<'a, 'd>, m: &Mat, st: &Style) {
        self.s("text");
        self.mat(m);
        let start = self.out.len();
        let mut pending = false;
        let mut any = false;
        self.span(e, st, &mut pending, &mut any, e.ancestors().find_map(|a| space(&a)).unwrap_or(false));
        if !any || !self.shown {
            self.out.truncate(start - 7);
        }
    }

    /// One text content element: its style and position, then its characters and children.
    fn span(&mut self, e: &Node<'a, 'd>, st: &Style, pending: &mut bool, any: &mut bool, preserve: bool) {
        let mut head: Vec<Tok> = std::mem::take(&mut self.out);
        {
            // tokens of this span's style, repeated before each of its runs
            self.s("span");
            for p in ["fill", "stroke"] {
                self.s(p);
                let v = st.get(p).to_string();
                let o = Self::opacity(st.get(if p == "fill" { "fill-opacity" } else { "stroke-opacity" }));
                if !self.paint(&v, o, st, &ID, &[]) {
                    self.s("none");
                } else if p == "stroke" {
                    let w = st.get("stroke-width").to_string();
                    self.value(&w);
                }
            }
            let v = st.get("visibility").to_string();
            self.s(&v);
            self.generic(
                st,
                &[
                    "font", "font-family", "font-size", "font-style", "font-weight", "letter-spacing", "word-spacing",
                    "text-anchor", "writing-mode", "direction", "text-decoration", "dominant-baseline",
                    "alignment-baseline", "baseline-shift", "unicode-bidi", "text-rendering",
                ],
            );
        }
        std::mem::swap(&mut head, &mut self.out);
        // `self.out` is the list again, `head` the style
        let mut pos: Vec<Tok> = std::mem::take(&mut self.out);
        for a in ["x", "y", "dx", "dy", "rotate", "textLength", "lengthAdjust"] {
            if let Some(v) = said(e, a).filter(|v| !is_default(e.tag_name().name(), a, v)) {
                self.s(a);
                self.value(v);
            }
        }
        if e.tag_name().name() == "textPath" {
            self.s("textPath");
            if let Some(t) = href(e).and_then(|h| h.strip_prefix('#')).and_then(|i| self.by_id(i)) {
                let o = shape_outline(&t);
                self.geometry(&o, true, false);
            }
            self.attrs(e, &["id", "href"]);
        }
        if e.tag_name().name() == "a" {
            self.s("a");
            let h = href(e).unwrap_or("").to_string();
            self.s(&h);
        }
        std::mem::swap(&mut pos, &mut self.out);
        self.out.extend(pos);
        let mut written = false;
        for c in e.children() {
            if c.is_text() {
                let mut run = String::new();
                for ch in c.text().unwrap_or("").chars() {
                    if matches!(ch, ' ' | '\n' | '\t' | '\r') {
                        if preserve {
                            run.push(' ');
                        } else {
                            *pending = true;
                        }
                    } else {
                        if *pending && *any {
                            run.push(' ');
                        }
                        *pending = false;
                        run.push(ch);
                        *any = true;
                    }
                    if preserve {
                        *any = true;
                        *pending = false;
                    }
                }
                if !run.is_empty() {
                    self.shown |= st.get("visibility") == "visible" && !run.trim().is_empty();
                    if !written {
                        self.out.extend(head.iter().cloned());
                    }
                    written = true;
                    // adjacent runs of one span are one run
                    if let Some(Tok::S(last)) = self.out.last_mut() {
                        if last.starts_with('\u{1}') {
                            last.push_str(&run);
                            continue;
                        }
                    }
                    self.out.push(Tok::S(format!("\u{1}{run}")));
                }
            } else if is(&c, &["tspan", "textPath", "a", "tref"]) {
                let cs = self.style(&c, st);
                if cs.get("display") == "none" {
                    continue;
                }
                let p = space(&c).unwrap_or(preserve);
                let start = self.out.len();
                self.s("(");
                self.span(&c, &cs, pending, any, p);
                if self.out[start..].iter().any(|t| matches!(t, Tok::S(s) if s.starts_with('\u{1}'))) {
                    self.s(")");
                    written = false;
                } else {
                    self.out.truncate(start);
                }
            }
        }
    }
}

fn space(e: &Node) -> Option<bool> {
    e.attributes().find(|a| a.namespace() == Some(XML) && a.name() == "space").map(|a| a.value() == "preserve")
}

fn seg(cmd: u8, v: &[f64]) -> Seg {
    let mut a = [0.0; 7];
    a[..v.len()].copy_from_slice(v);
    Seg { cmd, n: v.len(), a }
}

/// The outline of a basic shape or path, in its own coordinates.
pub fn shape_outline(e: &Node) -> Vec<Sub> {
    let n = |name: &str| said(e, name).and_then(num);
    let v = |name: &str| n(name).unwrap_or(0.0);
    let segs = match e.tag_name().name() {
        "path" => pathread::read(said(e, "d").unwrap_or("").as_bytes()).0,
        "line" => vec![seg(b'M', &[v("x1"), v("y1")]), seg(b'L', &[v("x2"), v("y2")])],
        "polyline" | "polygon" => {
            let mut r = Reader::new(said(e, "points").unwrap_or("").as_bytes());
            let mut p = vec![];
            r.wsp();
            while let Some(x) = r.number() {
                p.push(x);
                r.comma_wsp();
            }
            let mut out = vec![];
            for c in p.chunks_exact(2) {
                out.push(seg(if out.is_empty() { b'M' } else { b'L' }, c));
            }
            if e.tag_name().name() == "polygon" && !out.is_empty() {
                out.push(seg(b'z', &[]));
            }
            out
        }
        "rect" => {
            let (x, y, w, h) = (v("x"), v("y"), v("width"), v("height"));
            if !(w > 0.0 && h > 0.0) {
                return vec![];
            }
            let (rx, ry) = match (n("rx"), n("ry")) {
                (Some(a), Some(b)) => (a, b),
                (Some(a), None) => (a, a),
                (None, Some(b)) => (b, b),
                _ => (0.0, 0.0),
            };
            let (rx, ry) = (rx.min(w / 2.0), ry.min(h / 2.0));
            if rx > 0.0 && ry > 0.0 {
                vec![
                    seg(b'M', &[x + rx, y]),
                    seg(b'H', &[x + w - rx]),
                    seg(b'A', &[rx, ry, 0.0, 0.0, 1.0, x + w, y + ry]),
                    seg(b'V', &[y + h - ry]),
                    seg(b'A', &[rx, ry, 0.0, 0.0, 1.0, x + w - rx, y + h]),
                    seg(b'H', &[x + rx]),
                    seg(b'A', &[rx, ry, 0.0, 0.0, 1.0, x, y + h - ry]),
                    seg(b'V', &[y + ry]),
                    seg(b'A', &[rx, ry, 0.0, 0.0, 1.0, x + rx, y]),
                    seg(b'z', &[]),
                ]
            } else {
                vec![
                    seg(b'M', &[x, y]),
                    seg(b'H', &[x + w]),
                    seg(b'V', &[y + h]),
                    seg(b'H', &[x]),
                    seg(b'z', &[]),
                ]
            }
        }
        name @ ("circle" | "ellipse") => {
            let (cx, cy) = (v("cx"), v("cy"));
            let (rx, ry) = if name == "circle" {
                (v("r"), v("r"))
            } else {
                match (n("rx"), n("ry")) {
                    (Some(a), Some(b)) => (a, b),
                    (Some(a), None) => (a, a),
                    (None, Some(b)) => (b, b),
                    _ => (0.0, 0.0),
                }
            };
            if !(rx > 0.0 && ry > 0.0) {
                return vec![];
            }
            vec![
                seg(b'M', &[cx, cy - ry]),
                seg(b'A', &[rx, ry, 0.0, 1.0, 0.0, cx, cy + ry]),
                seg(b'A', &[rx, ry, 0.0, 1.0, 0.0, cx, cy - ry]),
                seg(b'z', &[]),
            ]
        }
        _ => vec![],
    };
    geom::outline(&segs)
}

/// Everything the document draws; `None` if it isn't well-formed.
pub fn picture(s: &str, env: bool) -> Option<Vec<Tok>> {
    let opt = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    let doc = Document::parse_with_options(s, opt).ok()?;
    let mut p = Pic::new(&doc, env);
    let root = doc.root_element();
    for a in std::mem::take(&mut p.sheet.at) {
        p.s(&a);
    }
    for a in ["viewBox", "preserveAspectRatio"] {
        if let Some(v) = said(&root, a).filter(|v| !is_default("svg", a, v)) {
            p.s(a);
            p.value(v);
        }
    }
    for a in ["width", "height"] {
        // 100% is the default
        if let Some(v) = said(&root, a).filter(|v| *v != "100%") {
            p.s(a);
            p.value(v);
        }
    }
    p.draw(&root, &ID, &Style::initial());
    Some(p.out)
}

/// Token by token; numbers may differ by `tol` (and a millionth of their size).
pub fn same(a: &[Tok], b: &[Tok], tol: f64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Tok::S(x), Tok::S(y)) => {
                if x != y {
                    return false;
                }
            }
            (Tok::N(x), Tok::N(y)) => ok &= (x - y).abs() <= tol + 1e-6 * x.abs(),
            _ => return false,
        }
    }
    ok
}

pub fn show(t: &[Tok]) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for t in t {
        match t {
            Tok::S(x) => write!(s, "{x} ").unwrap(),
            Tok::N(x) => write!(s, "{} ", (x * 1000.0).round() / 1000.0).unwrap(),
        }
    }
    s
}
