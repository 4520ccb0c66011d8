//! P27: ordering jobs.
use crate::attrs::ordered;
use crate::jobs::run;
use crate::removal::config;
use crate::sym;
use crate::xml::dtd;
use roxmltree::{Document, Node};

/// Names and attributes of the start tags of serialised XML, in the order written.
fn tags(s: &str) -> Vec<(String, Vec<(String, String)>)> {
    let b = s.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    let name = |i: &mut usize| {
        let from = *i;
        while !matches!(b.get(*i), None | Some(b' ' | b'=' | b'>' | b'/')) {
            *i += 1;
        }
        s[from..*i].to_string()
    };
    while i < b.len() {
        if b[i] != b'<' || matches!(b.get(i + 1), Some(b'/' | b'!' | b'?')) {
            i += 1;
            continue;
        }
        i += 1;
        let tag = name(&mut i);
        let mut attrs = vec![];
        loop {
            while b.get(i) == Some(&b' ') {
                i += 1;
            }
            if matches!(b.get(i), None | Some(b'>' | b'/')) {
                break;
            }
            let key = name(&mut i);
            let Some(q) = b.get(i + 1).copied() else { break };
            let from = i + 2;
            i = from;
            while b.get(i).is_some_and(|c| *c != q) {
                i += 1;
            }
            attrs.push((key, s[from..i].to_string()));
            i += 1;
        }
        out.push((tag, attrs));
    }
    out
}

const NAMES: &[&str] = &[
    "id", "width", "x", "x1", "y2", "cx", "r", "fill", "fill-opacity", "fill-rule", "stroke", "stroke-width", "marker", "marker-end", "points", "class", "style", "xlink:href",
    "q:a", "p:a", "p:fill", "p:fill-b", "q:id", "data-a", "f%", "a%", "%", "p:%", "fill-%", "x%", "z-%",
];

const CONFIGS: &[(&str, &[&str], bool)] = &[
    ("{\"sortAttrs\":{}}", &["id", "width", "height", "x", "x1", "x2", "y", "y1", "y2", "cx", "cy", "r", "fill", "stroke", "marker", "d", "points"], true),
    ("{\"sortAttrs\":{\"xmlnsOrder\":\"front\",\"order\":[\"z\",\"a\",\"fill\"]}}", &["z", "a", "fill"], true),
    ("{\"sortAttrs\":{\"xmlnsOrder\":\"alphabetical\"}}", &["id", "width", "height", "x", "x1", "x2", "y", "y1", "y2", "cx", "cy", "r", "fill", "stroke", "marker", "d", "points"], false),
    ("{\"sortAttrs\":{\"xmlnsOrder\":\"alphabetical\",\"order\":[]}}", &[], false),
    ("{\"sortAttrs\":{\"order\":[\"stroke\",\"b\",\"class\",\"id\"]}}", &["stroke", "b", "class", "id"], true),
];

fn value(name: &str, k: usize) -> String {
    match name {
        "xmlns" => "http://www.w3.org/2000/svg".into(),
        "xmlns:p" => "urn:p".into(),
        "xmlns:xlink" => crate::svg::XLINK.into(),
        "xmlns:q" => "urn:q".into(),
        "id" | "class" => format!("i{k}"),
        "style" => "fill:red".into(),
        "points" => "1 2 3 4".into(),
        _ => format!("{}", k + 1),
    }
}

pub fn attributes() {
    let (json, order, front) = sym::one(CONFIGS);
    let n = if sym::deep() { 3 } else { 2 };
    let mut left = 2;
    let mut names: Vec<String> = ["xmlns:p", "fill-k", "xmlns", "p:b", "xmlns:q", "xmlns:xlink", "y"].iter().map(|s| s.to_string()).collect();
    let mut from = 0;
    for _ in 0..n {
        if from >= NAMES.len() {
            break;
        }
        let k = from + sym::pick(NAMES.len() - from);
        from = k + 1;
        let mut name = String::new();
        for c in NAMES[k].chars() {
            name.push(if c == '%' && left > 0 {
                left -= 1;
                sym::of(b"abiruz") as char
            } else if c == '%' {
                'k'
            } else {
                c
            });
        }
        names.push(name);
    }
    let k = sym::pick(3);
    names.rotate_left(3 * k);
    sym::assume((1..names.len()).all(|i| !names[..i].contains(&names[i])));
    let document = |names: &[String], all: &[String]| {
        let mut s = String::from("<svg");
        for m in names {
            let k = all.iter().position(|x| x == m).unwrap();
            s.push_str(&format!(" {m}='{}'", value(m, k)));
        }
        s.push_str("><g y='1' x='2'/></svg>");
        s
    };
    let s = document(&names, &names);
    if dtd(&s).is_none() {
        sym::assume(false);
        return;
    }
    let jobs = config(json);
    let t = run(&jobs, &s);
    sym::cover(1);
    let what = format!("{json}");
    let (a, b) = (tags(&s), tags(&t));
    let sorted = |l: &[(String, String)]| {
        let mut l = l.to_vec();
        l.sort();
        l
    };
    sym::check(a.len() == b.len(), &format!("elements {what}"));
    for (x, y) in a.iter().zip(&b) {
        sym::check(x.0 == y.0 && sorted(&x.1) == sorted(&y.1), &format!("same attributes {what}"));
        let got: Vec<String> = y.1.iter().map(|k| k.0.clone()).filter(|k| front || !k.starts_with("xmlns")).collect();
        sym::check(ordered(&got, order, true), &format!("order {what}"));
    }
    sym::check(run(&jobs, &t) == t, &format!("again {what}"));
    let mut back = names.clone();
    back.reverse();
    sym::check(tags(&run(&jobs, &document(&back, &names))).first() == b.first(), &format!("whatever the order {what}"));
}

const DEFS: &[&str] = &["path", "rect", "text", "g", "a", "use", "style", "linearGradient", "x:path", "x:rect", "%", "x%", "y:%", "foo"];
const BETWEEN: &[&str] = &["", "<!--c-->", "\n ", "<?p q?>"];

fn shape(e: &Node) -> String {
    let mut s = format!("{{{}}}{}", e.tag_name().namespace().unwrap_or(""), e.tag_name().name());
    let mut l: Vec<String> = e.attributes().map(|a| format!(" {}={}", a.name(), a.value())).collect();
    l.sort();
    s.push_str(&l.concat());
    for c in e.children() {
        if c.is_element() {
            s.push_str(&format!("<{}>", shape(&c)));
        } else if !c.text().unwrap_or("").trim().is_empty() {
            s.push_str(c.text().unwrap());
        }
    }
    s
}

fn defs<'a>(d: &'a Document) -> Vec<Node<'a, 'a>> {
    d.descendants().filter(|e| e.tag_name().name() == "defs").collect()
}

pub fn definitions() {
    let n = if sym::deep() { 5 } else { 4 };
    let mut left = 2;
    let mut names: Vec<String> = vec![];
    for k in 0..n {
        // names may recur, so that all frequencies are met
        if k >= 2 {
            let m = sym::pick(4);
            names.push(if m < 2 { names[m].clone() } else if m == 2 { "path".into() } else { "z".into() });
            continue;
        }
        let mut name = String::new();
        for c in sym::one(DEFS).chars() {
            name.push(if c == '%' && left > 0 {
                left -= 1;
                sym::of(b"abfgruz") as char
            } else if c == '%' {
                'k'
            } else {
                c
            });
        }
        names.push(name);
    }
    let wrong = left == 2 && sym::pick(2) == 1;
    let gap = if wrong { "" } else { sym::one(BETWEEN) };
    let document = |order: &[usize]| {
        let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' xmlns:x='urn:x' xmlns:y='urn:y'>");
        s.push_str(if wrong { "<g>" } else { "<defs>" });
        for i in order {
            let m = &names[*i];
            s.push_str(&format!("<{m} id='i{i}'/>"));
            s.push_str(gap);
        }
        s.push_str(if wrong { "</g>" } else { "</defs>" });
        s.push_str("<defs><rect/><path/><g/></defs><x:defs><g/><path/></x:defs></svg>");
        s
    };
    let there: Vec<usize> = (0..n).collect();
    let s = document(&there);
    let jobs = config("{\"sortDefsChildren\":true}");
    let t = run(&jobs, &s);
    let (Some(a), Some(b)) = (dtd(&s), dtd(&t)) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    sym::cover(1);
    let what = format!("{gap:?} {wrong}");
    let (all, now) = (a.root_element().children().filter(|c| c.is_element()).collect::<Vec<_>>(), b.root_element().children().filter(|c| c.is_element()).collect::<Vec<_>>());
    sym::check(all.len() == now.len(), &format!("elements {what}"));
    let svg = |e: &Node| e.tag_name().namespace() == Some(crate::svg::SVG) && e.tag_name().name() == "defs";
    for (x, y) in all.iter().zip(&now) {
        sym::check(x.tag_name() == y.tag_name(), &format!("parents {what}"));
        let kids = |e: &Node| e.children().filter(|c| c.is_element()).map(|c| shape(&c)).collect::<Vec<_>>();
        let others = |e: &Node| e.children().filter(|c| c.is_comment() || c.is_pi()).count();
        let (mut p, mut q) = (kids(x), kids(y));
        sym::check(others(x) == others(y), &format!("comments {what}"));
        if !svg(x) {
            sym::check(p == q, &format!("sorted other elements {what}"));
            continue;
        }
        p.sort();
        q.sort();
        sym::check(p == q, &format!("children {what}"));
        // most frequent names first, longer ones before shorter ones
        let l: Vec<_> = y.children().filter(|c| c.is_element()).collect();
        let often = |e: &Node| l.iter().filter(|c| c.tag_name() == e.tag_name()).count();
        for w in l.windows(2) {
            let (f, g) = (often(&w[0]), often(&w[1]));
            sym::check(f >= g, &format!("frequency {what}"));
            if f == g && w[0].tag_name().namespace() == w[1].tag_name().namespace() {
                let (m, n) = (w[0].tag_name().name(), w[1].tag_name().name());
                sym::check(m.len() >= n.len(), &format!("length {what}"));
                if m == n {
                    sym::check(w[0].attribute("id") < w[1].attribute("id") || w[0].attribute("id").is_none(), &format!("same names keep their order {what}"));
                }
            }
        }
        for (i, e) in l.iter().enumerate() {
            let apart = l[i..].iter().skip_while(|c| c.tag_name() == e.tag_name()).any(|c| c.tag_name() == e.tag_name());
            sym::check(!apart, &format!("apart {what}"));
        }
    }
    sym::check(run(&jobs, &t) == t, &format!("again {what}"));
    if !wrong {
        let mut back = there;
        back.reverse();
        let u = run(&jobs, &document(&back));
        let Some(c) = dtd(&u) else {
            sym::check(false, "output isn't well-formed");
            return;
        };
        let order = |d: &Document| defs(d)[0].children().filter(|c| c.is_element()).map(|c| format!("{:?}", c.tag_name())).collect::<Vec<_>>();
        sym::check(order(&b) == order(&c), &format!("whatever the order {what}"));
    }
}
