//! Configurations: exactly the configured jobs run, with the configured options.
use crate::jobs::run;
use crate::sym;
use oxvg_ast::{
    parse::roxmltree::parse_with_options,
    serialize::Node as _,
};
use oxvg_optimiser::Jobs;
use roxmltree::ParsingOptions;
use serde_json::{Map, Value};

include!(concat!(env!("OUT_DIR"), "/config.rs"));
use config::{Config, Optimise};

/// Name of each job in configuration files, its options with `#` digits, `?` flags and `~`
/// letters, and its options in the default and the safe preset.
const JOBS: &[(&str, &str, &str)] = &[
    ("precheck", r#"{"failFast":?,"precleanChecks":?}"#, r#"{"failFast":true,"precleanChecks":false}"#),
    ("addAttributesToSVGElement", r##"{"attributes":{"data-~":"~#"}}"##, ""),
    ("addClassesToSVGElement", r##"{"classNames":["~","b#"],"className":"~"}"##, ""),
    ("cleanupListOfValues", r##"{"floatPrecision":#,"defaultPx":?,"convertToPx":?}"##, ""),
    ("convertOneStopGradients", "?", ""),
    ("convertStyleToAttrs", r#"{"keepImportant":?}"#, ""),
    ("removeAttributesBySelector", r##"[{"selector":"[~]","attributes":["~","x"]},{"selector":"#~","attributes":[]}]"##, ""),
    ("removeAttrs", r#"{"attrs":["~:x","fill"],"elemSeparator":"~","preserveCurrentColor":?}"#, ""),
    ("removeDimensions", "?", ""),
    ("removeElementsByAttr", r##"{"id":["~"],"class":["b","~#"]}"##, ""),
    ("removeOffCanvasPaths", "?", ""),
    ("removeRasterImages", "?", ""),
    ("removeScripts", "?", ""),
    ("removeStyleElement", "?", ""),
    ("removeTitle", "?", ""),
    ("removeViewBox", "?", ""),
    ("reusePaths", "?", ""),
    ("removeXMLNS", "?", ""),
    ("removeDoctype", "?", "true"),
    ("removeXMLProcInst", "?", "true"),
    ("removeComments", "{}", "{}"),
    ("removeDeprecatedAttrs", r#"{"removeAny":?}"#, r#"{"removeAny":false}"#),
    ("removeMetadata", "?", "true"),
    ("removeEditorsNSData", r##"{"additionalNamespaces":["~u#"]}"##, r#"{"additionalNamespaces":null}"#),
    ("cleanupAttrs", r#"{"newlines":?,"trim":?,"spaces":?}"#, r#"{"newlines":true,"trim":true,"spaces":true}"#),
    ("mergeStyles", "?", "true"),
    ("inlineStyles", r#"{"onlyMatchedOnce":?,"removeMatchedSelectors":?,"useMqs":["~"],"usePseudos":["","~"]}"#, r#"{"onlyMatchedOnce":true,"removeMatchedSelectors":true,"useMqs":["","screen"],"usePseudos":[""]}"#),
    ("minifyStyles", r#"{"usage":?}"#, r#"{"usage":true}"#),
    ("cleanupIds", r##"{"remove":?,"minify":?,"preserve":["~"],"preservePrefixes":["p#"],"force":?}"##, r#"{"remove":true,"minify":true,"preserve":null,"preservePrefixes":null,"force":false}"#),
    ("removeUselessDefs", "?", "true"),
    ("cleanupNumericValues", r##"{"floatPrecision":#,"defaultPx":?,"convertToPx":?}"##, r#"{"floatPrecision":3,"defaultPx":true,"convertToPx":true}"#),
    ("convertColors", r#"{"method":"currentColor"}"#, r#"{"method":null}"#),
    ("removeUnknownsAndDefaults", r#"{"unknownContent":?,"unknownAttrs":?,"defaultAttrs":?,"defaultMarkupDeclarations":?,"uselessOverrides":?,"keepDataAttrs":?,"keepAriaAttrs":?,"keepRoleAttr":?}"#, r#"{"unknownContent":true,"unknownAttrs":true,"defaultAttrs":true,"defaultMarkupDeclarations":true,"uselessOverrides":true,"keepDataAttrs":true,"keepAriaAttrs":true,"keepRoleAttr":false}"#),
    ("removeNonInheritableGroupAttrs", "?", "true"),
    ("removeUselessStrokeAndFill", r#"{"stroke":?,"fill":?,"removeNone":?}"#, r#"{"stroke":true,"fill":true,"removeNone":false}"#),
    ("cleanupEnableBackground", "?", "true"),
    ("removeHiddenElems", r#"{"isHidden":?,"displayNone":?,"opacityZero":?,"circleRZero":?,"ellipseRxZero":?,"ellipseRyZero":?,"rectWidthZero":?,"rectHeightZero":?,"patternWidthZero":?,"patternHeightZero":?,"imageWidthZero":?,"imageHeightZero":?,"pathEmptyD":?,"polylineEmptyPoints":?,"polygonEmptyPoints":?}"#, r#"{"isHidden":null,"displayNone":null,"opacityZero":null,"circleRZero":null,"ellipseRxZero":null,"ellipseRyZero":null,"rectWidthZero":null,"rectHeightZero":null,"patternWidthZero":null,"patternHeightZero":null,"imageWidthZero":null,"imageHeightZero":null,"pathEmptyD":null,"polylineEmptyPoints":null,"polygonEmptyPoints":null}"#),
    ("removeEmptyText", r#"{"text":?,"tspan":?,"tref":?}"#, r#"{"text":null,"tspan":null,"tref":null}"#),
    ("convertShapeToPath", r##"{"convertArcs":?,"floatPrecision":#}"##, r#"{"convertArcs":false,"floatPrecision":3}"#),
    ("convertEllipseToCircle", "?", "true"),
    ("moveElemsAttrsToGroup", "?", "true"),
    ("moveGroupAttrsToElems", "?", "true"),
    ("collapseGroups", "?", "true"),
    ("applyTransforms", r##"{"transformPrecision":#,"applyTransformsStroked":?}"##, r#"{"transformPrecision":null,"applyTransformsStroked":false}"#),
    ("convertPathData", r##"{"closeSegments":?,"uniteSegments":?,"joinNodes":?,"removeEmptySegments":?,"removeZeroSegments":?,"removeCloseLine":?,"straightCurves":?,"arcCurves":?,"smartArcRounding":?,"tolerance":{"positional":0.5,"angular":0.25,"precision":#}}"##, r#"{"closeSegments":false,"uniteSegments":false,"joinNodes":true,"removeEmptySegments":true,"removeZeroSegments":true,"removeCloseLine":false,"straightCurves":true,"arcCurves":true,"smartArcRounding":true,"tolerance":{"positional":0.001,"angular":0.001,"precision":3}}"#),
    ("convertTransform", r##"{"convertToShorts":?,"degPrecision":#,"floatPrecision":#,"transformPrecision":#,"matrixToTransform":?,"shortRotate":?,"removeUseless":?,"collapseIntoOne":?}"##, r#"{"convertToShorts":true,"degPrecision":null,"floatPrecision":3,"transformPrecision":5,"matrixToTransform":true,"shortRotate":true,"removeUseless":true,"collapseIntoOne":true}"#),
    ("removeEmptyAttrs", "?", "true"),
    ("removeEmptyContainers", "?", "true"),
    ("removeUnusedNS", "?", "true"),
    ("mergePaths", r#"{"force":?}"#, r#"{"force":false}"#),
    ("sortAttrs", r#"{"order":["~","x"],"xmlnsOrder":"alphabetical"}"#, r#"{"order":null,"xmlnsOrder":null}"#),
    ("sortDefsChildren", "?", "true"),
    ("removeDesc", r#"{"removeAny":?}"#, r#"{"removeAny":false}"#),
    ("prefixIds", r##"{"delim":"~#","prefix":"~","prefixIds":?,"prefixClassNames":?}"##, ""),
    ("removeXlink", r#"{"include_legacy":?}"#, ""),
];

fn value(s: &str) -> Value {
    serde_json::from_str(s).unwrap()
}

fn snake(name: &str) -> String {
    let mut s = String::new();
    for c in name.chars() {
        if c.is_ascii_uppercase() {
            s.push('_');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}

/// The options with `?` being `on`, but for the one of the given number.
fn fill(t: &str, on: bool, other: usize) -> String {
    let mut s = String::new();
    let mut n = 0;
    // two free bytes at most
    let mut left = 2;
    for c in t.bytes() {
        match c {
            b'?' => {
                s.push_str(if on == (n != other) { "true" } else { "false" });
                n += 1;
            }
            b'#' if left > 0 => {
                left -= 1;
                s.push(sym::byte(b'0', b'9') as char);
            }
            b'~' if left > 0 => {
                left -= 1;
                s.push(sym::byte(b'a', b'z') as char);
            }
            b'#' => s.push('7'),
            b'~' => s.push('k'),
            c => s.push(c as char),
        }
    }
    s
}

/// Options of one job in different ways.
fn options(t: &str) -> String {
    let flags = t.bytes().filter(|c| *c == b'?').count();
    let other = if flags > 1 { sym::pick(flags + 1) } else { 1 };
    let on = if flags > 0 { sym::pick(2) == 1 } else { true };
    fill(t, on, other)
}

/// What the presets contain.
fn preset(name: &str) -> Map<String, Value> {
    let mut m = Map::new();
    if name == "default" || name == "safe" {
        for (n, _, d) in JOBS {
            if !d.is_empty() && (name == "safe" || *n != "precheck") {
                m.insert(n.to_string(), value(d));
            }
        }
    }
    m
}

fn seen(jobs: &Jobs) -> Value {
    serde_json::to_value(jobs).unwrap()
}

/// Equal but for the notation of numbers.
fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| eq(v, w))),
        _ => a == b,
    }
}

/// A preset, one or two jobs and an omission, in the format of the configuration file.
pub fn resolve() {
    let (a, t, _) = JOBS[sym::pick(JOBS.len())];
    let extends = sym::one(&["", "none", "default", "safe"]);
    // options of all kinds, another job or omissions
    let mode = sym::pick(4);
    let second = if mode == 1 || mode == 2 { 1 + sym::pick(2) } else { 0 };
    let mut jobs = vec![(a, if mode == 0 { options(t) } else { fill(t, true, 0) })];
    if second > 0 {
        let k = JOBS.iter().position(|j| j.0 == a).unwrap();
        let (b, t, _) = JOBS[(k + [0, 1, 23][second]) % JOBS.len()];
        jobs.push((b, fill(t, false, 0)));
    }
    let omit = match mode {
        0 | 1 => None,
        2 => match sym::pick(3) {
            0 => Some(snake(a)),
            1 => Some("remove_doctype".to_string()),
            _ => Some(snake(jobs[1].0)),
        },
        // a name but for one letter
        _ => {
            let mut n = snake(a).into_bytes();
            let k = sym::pick(n.len());
            n[k] = sym::of(b"abcdefghijklmnopqrstuvwxyz_");
            Some(String::from_utf8(n).unwrap())
        }
    };
    let mut text = String::from("{");
    if !extends.is_empty() {
        text += &format!("\"extends\":\"{extends}\",");
    }
    text += "\"jobs\":{";
    for (k, (n, o)) in jobs.iter().enumerate() {
        if k > 0 {
            text.push(',');
        }
        text += &format!("\"{n}\":{o}");
    }
    text.push('}');
    if let Some(o) = &omit {
        text += &format!(",\"omit\":[\"{o}\"]");
    }
    text.push('}');
    sym::log(&text);
    let Ok(optimise) = serde_json::from_str::<Optimise>(&text) else {
        return sym::check(false, "a configuration is refused");
    };
    let mut want = preset(extends);
    for (n, o) in &jobs {
        want.insert(n.to_string(), value(o));
    }
    if let Some(o) = &omit {
        for (n, _, _) in JOBS {
            if *o == snake(n) {
                want.remove(*n);
            }
        }
    }
    let got = seen(&optimise.resolve_jobs());
    sym::log(&got.to_string());
    sym::cover(1);
    sym::check(eq(&got, &Value::Object(want)), "the resolved jobs aren't the preset with the user's jobs");

    // written and read again it says the same
    let written = serde_json::to_string(&optimise).unwrap();
    sym::check(eq(&value(&written), &value(&text)), "a configuration reads back as another one");
    let again = serde_json::from_str::<Optimise>(&written);
    sym::check(again.is_ok_and(|o| seen(&o.resolve_jobs()) == got), "a written configuration resolves to other jobs");
    let all = format!("{{\"optimise\":{text},\"lint\":null}}");
    match serde_json::from_str::<Config>(&all) {
        Ok(c) => sym::check(c.optimise.is_some_and(|o| seen(&o.resolve_jobs()) == got), "a configuration file resolves to other jobs"),
        Err(_) => sym::check(false, "a configuration file is refused"),
    }
}

/// Jobs with options and a text which the document has if and only if the job didn't run
/// (or did, with `+`), each effect being of that job alone.
const EFFECTS: &[(&str, &str, &str)] = &[
    ("removeComments", "{}", "<!--c"),
    ("removeMetadata", "?", "<metadata"),
    ("removeTitle", "?", "<title"),
    ("removeDesc", r#"{"removeAny":?}"#, "<desc"),
    ("removeScripts", "?", "<script"),
    ("removeStyleElement", "?", "<style"),
    ("removeRasterImages", "?", "<image"),
    ("removeDimensions", "?", "width=\"90\""),
    ("removeEmptyAttrs", "?", "fill=\"\""),
    ("removeEmptyContainers", "?", "id=\"ec\""),
    ("removeXMLNS", "?", "xmlns=\"http"),
    ("removeUnusedNS", "?", "xmlns:u="),
    ("removeEditorsNSData", "{}", "inkscape:x"),
    ("removeEditorsNSData", r#"{"additionalNamespaces":["urn:v"]}"#, "v:y"),
    ("cleanupAttrs", r#"{"newlines":false,"trim":?,"spaces":false}"#, "\" ca"),
    ("convertEllipseToCircle", "?", "<ellipse"),
    ("convertShapeToPath", r#"{"floatPrecision":1}"#, "<rect"),
    ("removeHiddenElems", r#"{"displayNone":?}"#, "id=\"hi\""),
    ("removeEmptyText", r#"{"text":?}"#, "id=\"et\""),
    ("addClassesToSVGElement", r#"{"className":"zz"}"#, "+zz"),
    ("addAttributesToSVGElement", r#"{"attributes":{"data-zy":"1"}}"#, "+data-zy=\"1\""),
    ("removeElementsByAttr", r#"{"id":["ki"]}"#, "id=\"ki\""),
    ("removeElementsByAttr", r#"{"class":["kc"]}"#, "class=\"kc\""),
    ("removeAttrs", r#"{"attrs":["path:stroke-miterlimit"]}"#, "stroke-miterlimit=\"7\""),
    ("removeAttributesBySelector", r#"[{"selector":"[data-k]","attributes":["data-k"]}]"#, "data-k="),
    ("removeXlink", "{}", "xlink:href=\"#ki"),
    ("removeDeprecatedAttrs", r#"{"removeAny":?}"#, "xml:lang="),
    ("convertColors", r#"{"method":"currentColor"}"#, "+currentColor"),
    ("convertTransform", r#"{"matrixToTransform":?}"#, "matrix("),
    ("sortDefsChildren", "?", "<mask id=\"s\"/><clipPath"),
    ("collapseGroups", "?", "<g><path id=\"cg\""),
];

const WITNESS: &str = concat!(
    "<?xml version=\"1.0\"?><!DOCTYPE svg><svg xmlns=\"http://www.w3.org/2000/svg\" ",
    "xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:u=\"urn:u\" xmlns:v=\"urn:v\" ",
    "xmlns:inkscape=\"http://www.inkscape.org/namespaces/inkscape\" width=\"90\" height=\"90\" viewBox=\"0 0 90 91\" ",
    "inkscape:x=\"~\">",
    "<!--c~--><metadata>~</metadata><title>~</title><desc>~</desc><script>~</script><style>.~1{x:y}</style>",
    "<image href=\"~.png\" width=\"1\" height=\"1\"/><path id=\"fe\" fill=\"\" d=\"M0 0h1v#\"/><g id=\"ec\"/>",
    "<path id=\"ca\" v:y=\"~\" data-c=\" ca\" d=\"M0 0h1v#\"/>",
    "<ellipse id=\"el\" data-k=\"~\" rx=\"5\" ry=\"5\"/><rect id=\"re\" width=\"1#\" height=\"5\"/>",
    "<path id=\"hi\" display=\"none\" d=\"M0 0h1v2\"/><text id=\"et\"/>",
    "<path id=\"ki\" d=\"M0 0h1v3\"/><path id=\"k2\" class=\"kc\" d=\"M0 0h1v4\"/>",
    "<path id=\"mi\" stroke=\"#12345#\" stroke-miterlimit=\"7\" xml:lang=\"~\" d=\"M0 0h1v5\"/>",
    "<use xlink:href=\"#ki\"/><path id=\"tr\" transform=\"matrix(1 0 0 1 # 0)\" d=\"M0 0h1v6\"/>",
    "<defs><mask id=\"s\"/><clipPath id=\"t\"/><clipPath id=\"w\"/></defs><g><path id=\"cg\" d=\"M0 0h1v7\"/></g></svg>"
);

fn witness() -> String {
    let mut s = String::new();
    let k = sym::pick(9);
    let mut holes = 0;
    for (n, c) in WITNESS.bytes().enumerate() {
        let free = holes / 2 == k;
        holes += (c == b'~' || c == b'#') as usize;
        match c {
            b'~' => s.push(if free { sym::byte(b'H', b'K') } else { b'K' } as char),
            b'#' if WITNESS.as_bytes()[n + 1] == b'k' => s.push('#'),
            b'#' if WITNESS.as_bytes()[n + 1] == b'1' => s.push('#'),
            b'#' => s.push(if free { sym::byte(b'2', b'6') } else { b'8' } as char),
            c => s.push(c as char),
        }
    }
    s
}

fn ran(t: &str, mark: &str) -> bool {
    match mark.strip_prefix('+') {
        Some(m) => t.contains(m),
        None => !t.contains(mark),
    }
}

/// The effects of two jobs are there and no other's, unless switched off or omitted.
pub fn effects() {
    let a = sym::pick(EFFECTS.len());
    let b = sym::pick(EFFECTS.len());
    sym::assume(EFFECTS[a].0 != EFFECTS[b].0);
    let off = sym::pick(3);
    let on = off != 1;
    let (oa, ob) = (fill(EFFECTS[a].1, on, 99), fill(EFFECTS[b].1, true, 99));
    let mut text = format!("{{\"extends\":\"none\",\"jobs\":{{\"{}\":{oa},\"{}\":{ob}}}", EFFECTS[a].0, EFFECTS[b].0);
    if off == 2 {
        text += &format!(",\"omit\":[\"{}\"]", snake(EFFECTS[a].0));
    }
    text.push('}');
    sym::log(&text);
    let jobs = serde_json::from_str::<Optimise>(&text).unwrap().resolve_jobs();
    let t = run(&jobs, &witness());
    for (k, e) in EFFECTS.iter().enumerate() {
        // other options of the same job
        if k != a && k != b && (e.0 == EFFECTS[a].0 || e.0 == EFFECTS[b].0) {
            continue;
        }
        let want = k == b || k == a && (off == 0 || off == 1 && !EFFECTS[a].1.contains('?'));
        let got = ran(&t, e.2);
        if got != want {
            sym::log(e.0);
        }
        sym::check(got == want, if want { "a configured job has no effect" } else { "a job that isn't configured has an effect" });
    }
    sym::cover(1);
}

/// No job at all, in each way of saying so.
pub fn nothing() {
    let s = witness();
    let jobs = match sym::pick(4) {
        0 => Jobs::none(),
        1 => serde_json::from_str("{}").unwrap(),
        2 => serde_json::from_str::<Optimise>("{\"extends\":\"none\",\"jobs\":{}}").unwrap().resolve_jobs(),
        _ => {
            // all that can be switched off is
            let mut t = String::from("{");
            for (n, o, _) in JOBS.iter().filter(|j| j.1 == "?") {
                t += &format!("{}\"{n}\":false", if t.len() > 1 { "," } else { "" });
                let _ = o;
            }
            t.push('}');
            serde_json::from_str(&t).unwrap()
        }
    };
    let t = run(&jobs, &s);
    let plain = parse_with_options(&s, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, _| dom.serialize().ok());
    sym::cover(1);
    sym::check(plain.ok().flatten().is_some_and(|p| p == t), "no job is enabled but the document changes");
}
