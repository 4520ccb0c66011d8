//! P16: ids and what refers to them.
use crate::css;
use crate::job;
use crate::jobs::run;
use crate::removal::config;
use crate::svg::{SVG, XLINK, attr};
use crate::sym;
use crate::xml::dtd;
use oxvg_optimiser::CleanupIds;
use roxmltree::{Document, Node};

/// Places for a reference `%`.
const REFS: &[&str] = &[
    "<use href='#%'/>",
    "<use xlink:href='#%'/>",
    "<a xlink:href='#%' href='#%'><rect/></a>",
    "<text><textPath href='#%'>t</textPath></text>",
    "<linearGradient href='#%'/>",
    "<animate href='#%' attributeName='x'/>",
    "<animateMotion><mpath xlink:href='#%'/></animateMotion>",
    "<filter><feImage href='#%'/></filter>",
    "<rect fill='url(#%)'/>",
    "<rect fill='url(#%) red' stroke='url(#%)'/>",
    "<rect stroke='url(\"#%\")'/>",
    "<g clip-path='url(#%)'/>",
    "<g mask='url( #% )'/>",
    "<g filter='url(#%)'/>",
    "<g filter='blur(1px) url(#%) url(#%)'/>",
    "<path d='M0 0h1' marker-end='url(#%)' marker-start='url(#%)'/>",
    "<g style='fill:url(#%)'/>",
    "<g style='mask:url(#%);fill:red'/>",
    "<g style='marker-mid:url(\"#%\");clip-path:url(#%)'/>",
    "<animate begin='%.click'/>",
    "<animate begin='%.end+1s;3s' end='2s;%.begin'/>",
    "<set begin='%.repeat(2)'/>",
    "<g aria-labelledby='% z'/>",
    "<animate attributeName='fill' values='url(#%);red'/>",
    "<set attributeName='href' to='#%'/>",
    "<rect cursor='url(#%),auto'/>",
];

fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = |c: u8| (c as char).to_digit(16);
        if b[i] == b'%' && i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
            out.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap_or_default()
}

/// The ids an attribute refers to, in order.
fn named(name: &str, v: &str) -> Vec<String> {
    let mut out = vec![];
    match name {
        "href" => out.extend(v.strip_prefix('#').map(decode)),
        "begin" | "end" => {
            for t in v.split(';') {
                let t = t.trim();
                let id = t.split('.').next().unwrap_or("");
                if id.len() < t.len() && !id.is_empty() && !t.starts_with(|c: char| c.is_ascii_digit() || c == '+') {
                    out.push(id.to_string());
                }
            }
        }
        n if n.starts_with("aria-") => out.extend(v.split_ascii_whitespace().map(str::to_string)),
        "to" | "values" | "from" | "by" if v.starts_with('#') => out.push(decode(&v[1..])),
        "id" | "class" => {}
        _ => out.extend(urls(v)),
    }
    out
}

fn urls(v: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = v;
    while let Some(i) = rest.find("url(") {
        rest = &rest[i + 4..];
        let end = rest.find(')').unwrap_or(rest.len());
        let inner = rest[..end].trim().trim_matches(['"', '\'']);
        out.extend(inner.strip_prefix('#').map(decode));
        rest = &rest[end..];
    }
    out
}

type Target = Option<usize>;

fn elements<'a>(d: &'a Document) -> Vec<Node<'a, 'a>> {
    d.descendants().filter(|e| e.is_element()).collect()
}

/// For each element and attribute the elements referred to.
fn graph(d: &Document) -> Vec<(usize, String, Vec<Target>)> {
    let l = elements(d);
    let find = |id: &str| l.iter().position(|e| attr(e, "id") == Some(id));
    let mut out = vec![];
    for (i, e) in l.iter().enumerate() {
        for a in e.attributes() {
            let n = named(a.name(), a.value());
            if !n.is_empty() {
                out.push((i, format!("{}{}", if a.namespace() == Some(XLINK) { "xlink:" } else { "" }, a.name()), n.iter().map(|id| find(id)).collect()));
            }
        }
        if e.tag_name().name() == "style" {
            let text: String = e.children().filter_map(|c| c.text().map(str::to_string)).collect();
            out.push((i, "sheet".into(), urls(&text).iter().map(|id| find(id)).collect()));
        }
    }
    out.sort();
    out
}

fn id(left: &mut usize) -> String {
    let abc: &[u8] = b"abAZz_-1";
    match sym::pick(4) {
        0 if *left > 0 => {
            *left -= 1;
            (sym::of(abc) as char).to_string()
        }
        1 if *left > 0 => {
            *left -= 1;
            format!("a{}", sym::of(abc) as char)
        }
        2 => "é.".into(),
        _ => ["long", "b"][usize::from(*left == 0)].into(),
    }
}

fn document(ids: &[String], refs: &[(&str, String)], sheet: &str) -> String {
    let mut s = format!("<svg xmlns='{SVG}' xmlns:xlink='{XLINK}'>{sheet}<defs><g id='{}'/><path id='{}' d='M0 0h1'/></defs>", ids[0], ids[1]);
    for (t, r) in refs {
        let timing = t.contains("begin") || t.contains("aria");
        let r = if !timing && r.starts_with('é') { "%C3%A9.".to_string() } else { r.clone() };
        s.push_str(&t.replace('%', &r));
    }
    s.push_str("<g id='un' class='k'><g id='A'/></g></svg>");
    s
}

fn check(s: &str, t: &str, what: &str) -> bool {
    if s.contains(" to='#") || s.contains(" values='url") {
        sym::known("P16-animated");
    }
    let Some(a) = dtd(s) else {
        sym::assume(false);
        return false;
    };
    let Some(b) = dtd(t) else {
        sym::check(false, "output isn't well-formed");
        return false;
    };
    sym::cover(1);
    let (x, y) = (elements(&a), elements(&b));
    sym::check(x.len() == y.len(), &format!("elements {what}"));
    if x.len() != y.len() {
        return false;
    }
    sym::check(graph(&a) == graph(&b), &format!("references {what}"));
    let unique = |l: &[Node]| {
        let v: Vec<_> = l.iter().filter_map(|e| attr(e, "id")).collect();
        (1..v.len()).all(|i| !v[..i].contains(&v[i]))
    };
    if unique(&x) {
        sym::check(unique(&y), &format!("unique {what}"));
    }
    for (e, f) in x.iter().zip(&y) {
        let rest = |e: &Node| e.attributes().filter(|a| a.name() != "id" && a.name() != "class" && named(a.name(), a.value()).is_empty()).map(|a| (a.name().to_string(), a.value().to_string())).collect::<Vec<_>>();
        sym::check(e.tag_name() == f.tag_name() && rest(e) == rest(f), &format!("everything else {what}"));
    }
    true
}

/// Two ids, and references to them or to nothing.
fn parts() -> (Vec<String>, Vec<(&'static str, String)>) {
    let mut left = 2;
    let ids = vec![id(&mut left), id(&mut left)];
    let k = sym::pick(REFS.len());
    let target = |k: usize, left: &mut usize| match k {
        0 | 1 => ids[k].clone(),
        _ if *left > 0 => (sym::of(b"abAc") as char).to_string(),
        _ => "a".into(),
    };
    let mut refs = vec![(REFS[k], target(sym::pick(3), &mut left))];
    refs.push((REFS[(k * 7 + 3) % REFS.len()], target(1, &mut left)));
    (ids, refs)
}

pub fn cleanup() {
    let (ids, refs) = parts();
    // event values can't hold every id
    sym::assume(refs.iter().all(|(t, r)| !t.contains("begin") || r.bytes().all(|b| b.is_ascii_alphabetic())));
    let s = document(&ids, &refs, "");
    let k = sym::pick(5);
    let preserve: &[&str] = if k == 3 { &["a", "un"] } else { &[] };
    let prefixes: &[&str] = if k == 4 { &["a", "u"] } else { &[] };
    let own = |l: &[&str]| (!l.is_empty()).then(|| l.iter().map(|s| s.to_string()).collect());
    let (remove, minify) = (k != 1, k != 2);
    let t = run(&job!(cleanup_ids: CleanupIds { remove, minify, preserve: own(preserve), preserve_prefixes: own(prefixes), force: false }), &s);
    let what = format!("{} {k}", refs[0].0);
    if !check(&s, &t, &what) {
        return;
    }
    let (a, b) = (dtd(&s).unwrap(), dtd(&t).unwrap());
    let (x, y) = (elements(&a), elements(&b));
    let aims: Vec<usize> = graph(&a).iter().flat_map(|g| g.2.iter().filter_map(|t| *t)).collect();
    for (i, (e, f)) in x.iter().zip(&y).enumerate() {
        let Some(old) = attr(e, "id") else {
            sym::check(attr(f, "id").is_none(), &format!("no new ids {what}"));
            continue;
        };
        let kept = preserve.contains(&old) || prefixes.iter().any(|p| old.starts_with(p));
        let again = x[..i].iter().any(|o| attr(o, "id") == Some(old));
        if kept {
            sym::check(attr(f, "id") == Some(old), &format!("preserved {what}"));
        } else if aims.contains(&i) {
            sym::check(attr(f, "id").is_some() && (minify || attr(f, "id") == Some(old)), &format!("referenced {what}"));
        } else if remove {
            sym::check(attr(f, "id").is_none(), &format!("unreferenced {what}"));
        } else if !again && !old.bytes().all(|b| b.is_ascii_digit()) {
            sym::check(attr(f, "id").is_some(), &format!("not to be removed {what}"));
        }
    }
}

/// Many ids, so that the generated ones run through the alphabet.
pub fn many() {
    let n = 60;
    let taken = sym::pick(n);
    let c = [sym::of(b"abyzAYZ"), sym::of(b"abzAZ")];
    let two = sym::pick(2) == 1;
    // an id that stays and may be what would be generated
    let kept: String = if two { c.iter().map(|b| *b as char).collect() } else { (c[0] as char).to_string() };
    let mut s = format!("<svg xmlns='{SVG}'><rect/>");
    for i in 0..n {
        if i == taken {
            s.push_str(&format!("<g id='{kept}'/><use href='#{kept}'/>"));
        }
        s.push_str(&format!("<g id='name-{i}'/><use href='#name-{i}'/>"));
    }
    s.push_str("<use href='#missing'/></svg>");
    let t = run(&job!(cleanup_ids: CleanupIds { preserve: Some(vec![kept]), ..CleanupIds::default() }), &s);
    check(&s, &t, "many");
}

/// Documents the job mustn't touch, and references it can't see.
pub fn untouched() {
    let (ids, refs) = parts();
    let k = sym::pick(4);
    let sheet = ["<style>#un{fill:red}</style>", "<script>f('un')</script>", "<g onclick='f()'/>", "<style>@import 'a.css';</style>"][k];
    let s = document(&ids, &refs, sheet);
    let t = run(&job!(cleanup_ids: CleanupIds::default()), &s);
    check(&s, &t, &format!("{} {sheet}", refs[0].0));
    let (Some(a), Some(b)) = (dtd(&s), dtd(&t)) else { return };
    for (e, f) in elements(&a).iter().zip(&elements(&b)) {
        sym::check(attr(e, "id") == attr(f, "id"), &format!("ids stay {sheet}"));
    }
}

const SHEETS: &[&str] = &[
    "",
    "#%{fill:url(#$)}",
    ".k #%,g.k>#${fill:red}",
    ":not(#%){fill:red}",
    "g:is(#%,.k){fill:red}",
    "@media all{#%.k{fill:url('#$')}}",
    ".k{fill:red}#%~.k{marker-end:url(#$)}",
    "[id='%']{fill:red}",
    "@supports (fill:red){.k{mask:url(#%)}}",
];
const PREFIXES: &[&str] = &[
    "{\"prefixIds\":{}}",
    "{\"prefixIds\":{\"prefix\":\"a\",\"delim\":\"_\"}}",
    "{\"prefixIds\":{\"prefix\":\"p\",\"delim\":\"\",\"prefixIds\":false}}",
    "{\"prefixIds\":{\"prefix\":\"p\",\"prefixClassNames\":false}}",
    "{\"prefixIds\":{\"prefix\":false}}",
];

pub fn prefixed() {
    let name = |other: &str| if sym::pick(2) == 0 { other.to_string() } else { format!("a{}", sym::of(b"_abp") as char) };
    let ids = vec![name("long"), name("a_un")];
    sym::assume(ids[0] != ids[1]);
    let k = sym::pick(REFS.len() + SHEETS.len());
    let (r, sheet) = if k < REFS.len() { (REFS[k], "") } else { (REFS[8], SHEETS[k - REFS.len()]) };
    let aim = sym::pick(3);
    let refs = vec![(r, if aim < 2 { ids[aim].clone() } else { "zz".into() })];
    let style = if sheet.is_empty() { String::new() } else { format!("<style>{}</style>", sheet.replace('%', &ids[0]).replace('$', &ids[1])) };
    let s = document(&ids, &refs, &style);
    let c = sym::pick(PREFIXES.len());
    if ids.iter().any(|i| i.starts_with("a_")) && c == 1 {
        sym::known("P16-prefixed");
    }
    let t = run(&config(PREFIXES[c]), &s);
    let what = format!("{r} {sheet} {c}");
    if !check(&s, &t, &what) {
        return;
    }
    let (a, b) = (dtd(&s).unwrap(), dtd(&t).unwrap());
    let (x, y) = (elements(&a), elements(&b));
    let prefix = ["prefix__", "a_", "p", "p__", ""][c];
    for (e, f) in x.iter().zip(&y) {
        let now = |n: &str, on: bool| attr(e, n).map(|v| if on && !v.starts_with(prefix) { format!("{prefix}{v}") } else { v.to_string() });
        sym::check(attr(f, "id").map(str::to_string) == now("id", c != 2), &format!("id {what}"));
        sym::check(attr(f, "class").map(str::to_string) == now("class", c != 3), &format!("class {what}"));
    }
    if !style.is_empty() {
        // every rule applies to the elements it applied to
        let hits = |d: &Document| {
            let mut sheet = css::Sheet::default();
            let text: String = elements(d).iter().filter(|e| e.tag_name().name() == "style").flat_map(|e| e.children().filter_map(|c| c.text().map(str::to_string)).collect::<Vec<_>>()).collect();
            css::sheet(&text, false, &mut sheet);
            sheet.rules.iter().flat_map(|r| r.sels.iter()).map(|q| elements(d).iter().map(|e| css::matches(q, e, true)).collect::<Vec<_>>()).collect::<Vec<_>>()
        };
        if sheet.starts_with('[') {
            sym::known("P16-attr");
        }
        sym::check(hits(&a) == hits(&b), &format!("selectors {what}"));
    }
}
