//! Attribute and class edits against an ordered map and an ordered set (P24).
use crate::sym;
use oxvg_ast::{
    arena::Allocator,
    element::Element,
    parse::roxmltree::parse,
    serialize::Node as _,
};
use oxvg_collections::{
    atom::Atom,
    attribute::{Attr, AttrId},
};
use oxvg_serialize::{PrinterOptions, ToValue as _};

const NAMES: &[&str] = &["x", "fill", "fill-opacity", "id", "foo", "xlink:href", "href", "a:x", "b:x", "a-b", "xml:lang"];

const DOC: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:a='urn:a' xmlns:b='urn:b'><rect xlink:href='#1' foo='1' x='1' a:x='1' fill-opacity='1'/><rect id='2' b:x='2' x='2'/></svg>";

type Map = Vec<(&'static str, String)>;

fn value(k: &str, d: u8) -> String {
    let d = d as char;
    match k {
        "href" | "xlink:href" => format!("#{d}"),
        "fill" => format!("#{d}12"),
        "id" | "xml:lang" => format!("i{d}"),
        _ => d.to_string(),
    }
}

fn set(m: &mut Map, k: &'static str, v: String) {
    match m.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 = v,
        None => m.push((k, v)),
    }
}

fn make<'i, 'a>(e: &Element<'i, 'a>, k: &str, v: &str, allocator: &Allocator<'i, 'a>) -> Attr<'i> {
    Attr::new(e.parse_attr_id(k), allocator.alloc_str(v))
}

fn shown(a: &Attr) -> (String, String) {
    let n = match a.prefix().value() {
        Some(p) => format!("{}:{}", p.as_str(), a.local_name().as_str()),
        None => a.local_name().to_string(),
    };
    (n, a.to_value_string(PrinterOptions::default()).unwrap_or_default())
}

fn verify<'i, 'a>(e: &Element<'i, 'a>, root: &Element<'i, 'a>, at: usize, m: &Map, what: &str) {
    let bad = |part: &str| sym::check(false, &format!("{what}: {part} wrong"));
    let ats = e.attributes();
    if ats.len() != m.len() || ats.is_empty() != m.is_empty() || e.has_attributes() == m.is_empty() {
        bad("number of attributes");
        return;
    }
    for (i, (k, v)) in m.iter().enumerate() {
        let (n, got) = shown(&ats.item(i).unwrap());
        if n != *k {
            bad("order of attributes");
        }
        sym::check(got == *v, &format!("{what}: value in the list wrong"));
    }
    if ats.item(m.len()).is_some() {
        bad("end of the list");
    }
    let seen: Vec<String> = e.attributes().into_iter().map(|a| shown(&a).0).collect();
    if seen.iter().map(|s| s.as_str()).ne(m.iter().map(|x| x.0)) {
        bad("iteration");
    }
    for k in NAMES {
        let id: AttrId = e.parse_attr_id(k);
        let want = m.iter().find(|x| x.0 == *k).map(|x| &x.1);
        if e.has_attribute(&id) != want.is_some() {
            bad("presence");
        }
        let got = e.get_attribute(&id).map(|a| shown(&a).1);
        sym::check(got.as_ref() == want, &format!("{what}: value looked up wrong"));
        let got = e.get_attribute_node_mut(&id).map(|a| shown(&a).1);
        sym::check(got.as_ref() == want, &format!("{what}: value looked up for change wrong"));
        if !k.contains(':') {
            let got = e.get_attribute_local(&Atom::Static(k)).map(|a| shown(&a).1);
            sym::check(got.as_ref() == want, &format!("{what}: value looked up by local name wrong"));
        } else {
            let got = e.get_attribute_ns(id.prefix().ns(), id.local_name()).map(|a| shown(&a).1);
            sym::check(got.as_ref() == want, &format!("{what}: value looked up by namespace wrong"));
        }
    }
    let s = root.serialize().unwrap_or_default();
    let Ok(d) = roxmltree::Document::parse(&s) else {
        sym::check(false, &format!("{what}: serialised as malformed XML"));
        return;
    };
    let Some(n) = d.root_element().children().filter(|n| n.is_element()).nth(at) else {
        bad("serialised element");
        return;
    };
    let out: Vec<_> = n.attributes().collect();
    if out.len() != m.len() {
        bad("number of serialised attributes");
        return;
    }
    for (a, (k, v)) in out.iter().zip(m) {
        let ns = match k.split_once(':').map(|x| x.0) {
            Some("a") => Some("urn:a"),
            Some("b") => Some("urn:b"),
            Some("xlink") => Some("http://www.w3.org/1999/xlink"),
            Some("xml") => Some("http://www.w3.org/XML/1998/namespace"),
            _ => None,
        };
        if a.namespace() != ns || a.name() != k.split(':').next_back().unwrap() {
            bad("serialised name");
        }
        sym::check(a.value() == v, &format!("{what}: serialised value wrong"));
    }
}

fn group(k: &str) -> usize {
    if k.starts_with("xmlns:") {
        1
    } else if k == "xmlns" {
        0
    } else if k.contains(':') {
        2
    } else {
        3
    }
}

/// Whether the sequence of names is in the documented order.
pub fn ordered(names: &[String], order: &[&str], front: bool) -> bool {
    let part = |k: &str| {
        let k = k.split(':').next_back().unwrap().split('-').next().unwrap().to_string();
        order.iter().position(|o| *o == k)
    };
    names.windows(2).all(|w| {
        let (a, b) = (w[0].as_str(), w[1].as_str());
        if !front && (group(a) < 2 || group(b) < 2) {
            return true;
        }
        if group(a) != group(b) {
            return group(a) < group(b);
        }
        let p = |k: &str| k.split(':').next_back().unwrap().split('-').next().unwrap().to_string();
        match (part(a), part(b)) {
            (Some(x), Some(y)) if p(a) != p(b) => x < y,
            (Some(_), None) => true,
            (None, Some(_)) => false,
            _ => a < b,
        }
    })
}

pub fn edits() {
    let steps = if sym::deep() { 3 } else { 2 };
    let r = parse(DOC, |dom, allocator| {
        let root = dom.find_element().unwrap();
        let kids = root.children();
        let (e, o) = (kids[0], kids[1]);
        let mut m: Map = vec![];
        for (k, v) in [("xlink:href", "#1"), ("foo", "1"), ("x", "1"), ("a:x", "1"), ("fill-opacity", "1")] {
            m.push((k, v.to_string()));
        }
        let mut om: Map = vec![];
        for (k, v) in [("id", "2"), ("b:x", "2"), ("x", "2")] {
            om.push((k, v.to_string()));
        }
        for _ in 0..steps {
            let what = match sym::pick(9) {
                0 => {
                    let k = sym::one(NAMES);
                    let v = value(k, sym::byte(b'1', b'9'));
                    e.set_attribute(make(&e, k, &v, &allocator));
                    set(&mut m, k, v);
                    "set_attribute"
                }
                1 => {
                    let k = sym::one(NAMES);
                    let v = value(k, sym::byte(b'1', b'9'));
                    let old = e.attributes().set_named_item(make(&e, k, &v, &allocator)).map(|a| shown(&a).1);
                    let was = m.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                    sym::check(old == was, "set_named_item: other value returned");
                    set(&mut m, k, v);
                    "set_named_item"
                }
                2 => {
                    let k = sym::one(NAMES);
                    let old = e.remove_attribute(&e.parse_attr_id(k)).map(|a| shown(&a).1);
                    let was = m.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                    sym::check(old == was, "remove_attribute: other value returned");
                    m.retain(|x| x.0 != k);
                    "remove_attribute"
                }
                3 => {
                    let keep: Vec<u8> = m.iter().map(|_| sym::byte(0, 1)).collect();
                    let mut i = 0;
                    e.attributes().retain(|_| {
                        i += 1;
                        keep[i - 1] != 0
                    });
                    let mut i = 0;
                    m.retain(|_| {
                        i += 1;
                        keep[i - 1] != 0
                    });
                    "retain"
                }
                4 => {
                    let order: &[&str] = sym::one(&[&["x", "fill"], &["foo", "x", "a"], &[]]);
                    e.attributes().sort(order, true);
                    let names: Vec<String> = e.attributes().into_iter().map(|a| shown(&a).0).collect();
                    sym::check(names.len() == m.len() && ordered(&names, order, true), &format!("sort: not the documented order {names:?}"));
                    let mut n: Map = vec![];
                    for k in &names {
                        match m.iter().find(|x| x.0 == k) {
                            Some(x) => n.push(x.clone()),
                            None => sym::check(false, "sort: new attribute"),
                        }
                    }
                    m = n;
                    "sort"
                }
                5 => {
                    let k = sym::one(NAMES);
                    let v = value(k, sym::byte(b'1', b'9'));
                    let id = e.parse_attr_id(k);
                    if let Some(mut a) = e.get_attribute_node_mut(&id) {
                        *a = make(&o, k, &v, &allocator);
                        set(&mut m, k, v);
                    }
                    "get_attribute_node_mut"
                }
                6 => {
                    let d = sym::byte(b'1', b'9');
                    for mut a in e.attributes().into_iter_mut() {
                        let k = shown(&a).0;
                        *a = make(&o, &k, &value(&k, d), &allocator);
                    }
                    for x in &mut m {
                        x.1 = value(x.0, d);
                    }
                    "into_iter_mut"
                }
                7 => {
                    e.set_attributes(&o.attributes());
                    m = std::mem::take(&mut om);
                    "set_attributes"
                }
                _ => {
                    let k = sym::one(NAMES);
                    let v = value(k, sym::byte(b'1', b'9'));
                    o.set_attribute(make(&o, k, &v, &allocator));
                    set(&mut om, k, v);
                    "set_attribute on a sibling"
                }
            };
            verify(&e, &root, 0, &m, what);
            verify(&o, &root, 1, &om, what);
        }
        sym::cover(1);
    });
    sym::check(r.is_ok(), "template rejected");
}

/// Class names against an ordered set.
pub fn classes() {
    let steps = if sym::deep() { 4 } else { 3 };
    let mut m: Vec<u8> = vec![];
    let mut doc = String::from("<svg xmlns='http://www.w3.org/2000/svg'><");
    let start = sym::pick(4);
    doc.push_str(if start == 2 { "foo" } else { "rect id='q'" });
    if start > 0 {
        doc.push_str(" class='");
        for k in 1..start {
            let c = sym::byte(b'a', b'c');
            for d in &m {
                sym::assume(*d != c);
            }
            if k > 1 {
                doc.push(sym::of(b" \n") as char);
            }
            doc.push(c as char);
            m.push(c);
        }
        doc.push('\'');
    }
    doc.push_str(" x='1'/></svg>");
    let r = parse(&doc, |dom, allocator| {
        let root = dom.find_element().unwrap();
        let e = root.children()[0];
        let mut l = e.class_list();
        for step in 0..=steps {
            let c = sym::byte(b'a', b'd');
            let t = [c];
            let t = allocator.alloc_str(std::str::from_utf8(&t).unwrap());
            let had = m.contains(&c);
            let what = match if step == 0 { 6 } else { sym::pick(6) } {
                0 => {
                    l.add(Atom::from(&*t));
                    if !had {
                        m.push(c);
                    }
                    "add"
                }
                1 => {
                    l.remove(t);
                    m.retain(|d| *d != c);
                    "remove"
                }
                2 => {
                    let r = l.toggle(Atom::from(&*t));
                    sym::check(r != had, "toggle: wrong result");
                    if had {
                        m.retain(|d| *d != c);
                    } else {
                        m.push(c);
                    }
                    "toggle"
                }
                3 => {
                    let d = sym::byte(b'a', b'd');
                    let u = [d];
                    let u = allocator.alloc_str(std::str::from_utf8(&u).unwrap());
                    let r = l.replace(t, Atom::from(&*u));
                    sym::check(r == had, "replace: wrong result");
                    if had && c != d {
                        // as in the DOM: the first of both becomes the new name
                        let i = m.iter().position(|x| *x == c || *x == d).unwrap();
                        m[i] = d;
                        let mut k = 0;
                        m.retain(|x| {
                            k += 1;
                            k - 1 == i || (*x != c && *x != d)
                        });
                    }
                    "replace"
                }
                4 => {
                    l.retain(|x| x.0.as_str() != &*t);
                    m.retain(|d| *d != c);
                    "retain"
                }
                5 => {
                    // another attribute added, removed or moved
                    match sym::pick(3) {
                        0 => e.set_attribute(make(&e, "id", "z", &allocator)),
                        1 => {
                            e.remove_attribute(&e.parse_attr_id("id"));
                        }
                        _ => e.attributes().sort(&["x"], false),
                    }
                    "another attribute"
                }
                _ => "parse",
            };
            let bad = |part: &str| sym::check(false, &format!("{what}: {part} wrong"));
            if l.length() != m.len() || l.keys().count() != m.len() {
                bad("number of classes");
                return;
            }
            for (i, d) in m.iter().enumerate() {
                sym::check(l.item(i).is_some_and(|x| x.0.as_str().as_bytes() == [*d]), &format!("{what}: order of classes wrong"));
            }
            if l.item(m.len()).is_some() {
                bad("end of the list");
            }
            let mut seen = vec![];
            l.for_each(|x| seen.extend(x.0.as_str().bytes()));
            sym::check(seen == m, &format!("{what}: iteration wrong"));
            for q in b"abcd" {
                let t = [*q];
                let t = std::str::from_utf8(&t).unwrap();
                let has = m.contains(q);
                sym::check(l.contains(t) == has && e.has_class(t) == has, &format!("{what}: contains wrong"));
            }
            let mut want = vec![];
            for (i, d) in m.iter().enumerate() {
                if i > 0 {
                    want.push(b' ');
                }
                want.push(*d);
            }
            sym::check(l.value().as_bytes() == want, &format!("{what}: value wrong"));
            let s = root.serialize().unwrap_or_default();
            let Ok(d) = roxmltree::Document::parse(&s) else {
                bad("serialised document");
                return;
            };
            let got = d.root_element().first_element_child().and_then(|n| n.attribute("class").map(|s| s.to_string())).unwrap_or_default();
            let got: Vec<u8> = got.split_ascii_whitespace().flat_map(|s| s.bytes()).collect();
            sym::check(got == m, &format!("{what}: serialised classes wrong"));
        }
        sym::cover(1);
    });
    sym::check(r.is_ok(), "template rejected");
}
