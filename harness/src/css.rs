//! A small CSS reader, selector matcher and cascade, written from the specifications.
use roxmltree::Node;

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub value: String,
    pub important: bool,
}

#[derive(Clone, Debug)]
pub enum Simple {
    Any,
    Type(String),
    Class(String),
    Id(String),
    /// name, operator, value
    Attr(String, u8, String),
    FirstChild,
    LastChild,
    OnlyChild,
    Empty,
    Root,
    Not(Vec<Sel>),
    Is(Vec<Sel>),
    NthChild(i32, i32),
    NthLastChild(i32, i32),
    NthOfType(i32, i32),
    NthLastOfType(i32, i32),
    OnlyOfType,
    /// matches only in the environment where every condition holds
    Dynamic(String),
}

#[derive(Clone, Debug)]
pub struct Sel {
    /// compounds from right to left, each with the combinator to its left
    pub parts: Vec<(Vec<Simple>, u8)>,
}

pub struct Rule {
    pub sels: Vec<Sel>,
    pub decls: Vec<Decl>,
    /// inside `@media` and the like
    pub conditional: bool,
}

#[derive(Default)]
pub struct Sheet {
    pub rules: Vec<Rule>,
    /// other at-rules, verbatim
    pub at: Vec<String>,
}

pub fn uncomment(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("/*") {
        out.push_str(&rest[..i]);
        match rest[i + 2..].find("*/") {
            Some(j) => rest = &rest[i + 2 + j + 2..],
            None => rest = "",
        }
    }
    out.push_str(rest);
    out
}

/// Splits at `sep` outside of parentheses and quotes.
fn split_top(s: &str, sep: u8) -> Vec<&str> {
    let b = s.as_bytes();
    let (mut depth, mut quote, mut start) = (0, 0u8, 0);
    let mut out = vec![];
    for i in 0..b.len() {
        let c = b[i];
        if quote != 0 {
            if c == quote {
                quote = 0;
            }
        } else if c == b'"' || c == b'\'' {
            quote = c;
        } else if c == b'(' || c == b'[' {
            depth += 1;
        } else if c == b')' || c == b']' {
            depth -= 1;
        } else if c == sep && depth == 0 {
            out.push(&s[start..i]);
            start = i + 1;
        }
    }
    out.push(&s[start..]);
    out
}

pub fn decls(s: &str) -> Vec<Decl> {
    let s = uncomment(s);
    let mut out = vec![];
    for d in split_top(&s, b';') {
        let Some((name, value)) = d.split_once(':') else { continue };
        let mut value = value.trim();
        let mut important = false;
        if let Some(i) = value.find('!') {
            if value[i + 1..].trim().eq_ignore_ascii_case("important") {
                important = true;
                value = value[..i].trim();
            }
        }
        if value.is_empty() {
            continue;
        }
        out.push(Decl { name: name.trim().to_ascii_lowercase(), value: value.to_string(), important });
    }
    out
}

/// Position of the brace closing the block that starts at `i`.
fn block_end(b: &[u8], mut i: usize) -> usize {
    let mut depth = 0;
    let mut quote = 0u8;
    while i < b.len() {
        let c = b[i];
        if quote != 0 {
            if c == quote {
                quote = 0;
            }
        } else if c == b'"' || c == b'\'' {
            quote = c;
        } else if c == b'{' {
            depth += 1;
        } else if c == b'}' {
            depth -= 1;
            if depth == 0 {
                return i;
            }
        }
        i += 1;
    }
    b.len()
}

pub fn sheet(s: &str, conditional: bool, out: &mut Sheet) {
    let s = uncomment(s);
    let mut rest: &str = s.trim();
    let before = out.rules.len();
    while !rest.is_empty() {
        let b = rest.as_bytes();
        if b[0] == b'@' {
            let brace = rest.find('{');
            let semi = rest.find(';');
            if semi.is_some_and(|x| brace.is_none_or(|y| x < y)) {
                let i = semi.unwrap();
                let head = squeeze(&rest[..i]);
                if let Some(url) = head.strip_prefix("@import ") {
                    let url = url.trim_start_matches("url(").trim_end_matches(')').trim_matches(['"', '\'']);
                    if out.rules.len() == before {
                        out.at.push(format!("@import {url}"));
                    }
                } else if !head.starts_with("@charset") {
                    out.at.push(head);
                }
                rest = rest[i + 1..].trim_start();
                continue;
            }
            let Some(open) = brace else { return };
            let end = block_end(b, open);
            let head = squeeze(&rest[..open]);
            let body = &rest[open + 1..end.min(rest.len())];
            if head == "@media all" || head == "@media" {
                sheet(body, conditional, out);
            } else if head.starts_with("@media") || head.starts_with("@supports") {
                let n = out.rules.len();
                sheet(body, true, out);
                if out.rules.len() > n && !out.at.contains(&head) {
                    out.at.push(head);
                }
            } else {
                out.at.push(head);
            }
            rest = if end + 1 <= rest.len() { rest[end + 1..].trim_start() } else { "" };
            continue;
        }
        let Some(open) = rest.find('{') else { return };
        let end = block_end(b, open);
        let body = &rest[open + 1..end.min(rest.len())];
        if let Some(sels) = selectors(&rest[..open]) {
            out.rules.push(Rule { sels, decls: decls(body), conditional });
        }
        rest = if end + 1 <= rest.len() { rest[end + 1..].trim_start() } else { "" };
    }
}

pub fn squeeze(s: &str) -> String {
    let mut out = String::new();
    for w in s.split_ascii_whitespace() {
        if !out.is_empty() {
            out.push(' ');
        }
        out.push_str(w);
    }
    out
}

fn ident(s: &str) -> usize {
    s.bytes().take_while(|c| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'_' | b'\\') || *c >= 128).count()
}

pub fn selectors(s: &str) -> Option<Vec<Sel>> {
    split_top(s, b',').into_iter().map(|x| selector(x.trim())).collect()
}

fn selector(s: &str) -> Option<Sel> {
    let mut parts: Vec<(Vec<Simple>, u8)> = vec![];
    let mut rest = s;
    let mut comb = 0u8;
    while !rest.is_empty() {
        let mut c: Vec<Simple> = vec![];
        loop {
            let b = rest.as_bytes();
            if b.is_empty() || matches!(b[0], b' ' | b'>' | b'+' | b'~' | b'\n' | b'\t') {
                break;
            }
            match b[0] {
                b'*' => {
                    c.push(Simple::Any);
                    rest = &rest[1..];
                }
                b'.' | b'#' => {
                    let n = ident(&rest[1..]);
                    if n == 0 {
                        return None;
                    }
                    let name = rest[1..1 + n].replace('\\', "");
                    c.push(if b[0] == b'.' { Simple::Class(name) } else { Simple::Id(name) });
                    rest = &rest[1 + n..];
                }
                b'[' => {
                    let end = rest.find(']')?;
                    let body = &rest[1..end];
                    let (name, op, val) = match body.find('=') {
                        None => (body, 0, ""),
                        Some(i) => {
                            let op = if i > 0 { body.as_bytes()[i - 1] } else { 0 };
                            if matches!(op, b'~' | b'|' | b'^' | b'$' | b'*') {
                                (&body[..i - 1], op, &body[i + 1..])
                            } else {
                                (&body[..i], b'=', &body[i + 1..])
                            }
                        }
                    };
                    let mut val = val.trim();
                    let mut op = op;
                    if let Some(v) = val.strip_suffix(" i") {
                        val = v.trim();
                        op = op.to_ascii_uppercase() | 128;
                    }
                    let val = val.trim_matches(['"', '\'']);
                    c.push(Simple::Attr(name.trim().to_string(), op, val.to_string()));
                    rest = &rest[end + 1..];
                }
                b':' => {
                    let skip = if b.len() > 1 && b[1] == b':' { 2 } else { 1 };
                    let n = ident(&rest[skip..]);
                    let name = &rest[skip..skip + n];
                    let mut after = &rest[skip + n..];
                    let mut arg = "";
                    if after.as_bytes().first() == Some(&b'(') {
                        let mut depth = 0;
                        let end = after.bytes().position(|c| {
                            if c == b'(' {
                                depth += 1
                            }
                            if c == b')' {
                                depth -= 1
                            }
                            depth == 0
                        })?;
                        arg = &after[1..end];
                        after = &after[end + 1..];
                    }
                    rest = after;
                    c.push(match name {
                        "first-child" => Simple::FirstChild,
                        "last-child" => Simple::LastChild,
                        "only-child" => Simple::OnlyChild,
                        "empty" => Simple::Empty,
                        "root" => Simple::Root,
                        "not" => Simple::Not(selectors(arg)?),
                        "is" | "where" => Simple::Is(selectors(arg)?),
                        "nth-child" => {
                            let (a, b) = nth(arg)?;
                            Simple::NthChild(a, b)
                        }
                        "nth-last-child" => {
                            let (a, b) = nth(arg)?;
                            Simple::NthLastChild(a, b)
                        }
                        "nth-of-type" => {
                            let (a, b) = nth(arg)?;
                            Simple::NthOfType(a, b)
                        }
                        "nth-last-of-type" => {
                            let (a, b) = nth(arg)?;
                            Simple::NthLastOfType(a, b)
                        }
                        "first-of-type" => Simple::NthOfType(0, 1),
                        "last-of-type" => Simple::NthLastOfType(0, 1),
                        "only-of-type" => Simple::OnlyOfType,
                        n => Simple::Dynamic(n.to_string()),
                    });
                }
                _ => {
                    let n = ident(rest);
                    if n == 0 {
                        return None;
                    }
                    c.push(Simple::Type(rest[..n].to_string()));
                    rest = &rest[n..];
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        parts.push((c, comb));
        let t = rest.trim_start();
        let space = t.len() < rest.len();
        if t.is_empty() {
            break;
        }
        if matches!(t.as_bytes()[0], b'>' | b'+' | b'~') {
            comb = t.as_bytes()[0];
            rest = t[1..].trim_start();
            if rest.is_empty() {
                return None;
            }
        } else if space {
            comb = b' ';
            rest = t;
        }
    }
    if parts.is_empty() {
        return None;
    }
    parts.reverse();
    Some(Sel { parts })
}

fn nth(s: &str) -> Option<(i32, i32)> {
    let s = s.trim();
    match s {
        "odd" => return Some((2, 1)),
        "even" => return Some((2, 0)),
        _ => {}
    }
    match s.find('n') {
        None => Some((0, s.parse().ok()?)),
        Some(i) => {
            let a = match &s[..i] {
                "" | "+" => 1,
                "-" => -1,
                x => x.parse().ok()?,
            };
            let b = s[i + 1..].replace([' ', '+'], "");
            Some((a, if b.is_empty() { 0 } else { b.parse().ok()? }))
        }
    }
}

fn attr<'a>(e: &Node<'a, '_>, name: &str) -> Option<&'a str> {
    e.attributes().find(|a| a.namespace().is_none() && a.name() == name).map(|a| a.value())
}

fn simple(s: &Simple, e: &Node, env: bool) -> bool {
    let mut sib = || e.parent_element().map(|p| p.children().filter(|c| c.is_element()).collect::<Vec<_>>());
    match s {
        Simple::Any => true,
        Simple::Type(t) => e.tag_name().name() == t,
        Simple::Class(c) => attr(e, "class").is_some_and(|v| v.split_ascii_whitespace().any(|x| x == c)),
        Simple::Id(i) => attr(e, "id") == Some(i),
        Simple::Attr(n, op, v) if op & 128 != 0 => attr(e, n).is_some_and(|a| a.eq_ignore_ascii_case(v)),
        Simple::Attr(n, op, v) => attr(e, n).is_some_and(|a| match op {
            0 => true,
            b'=' => a == v,
            b'~' => !v.is_empty() && a.split_ascii_whitespace().any(|x| x == v),
            b'|' => a == v || a.strip_prefix(v.as_str()).is_some_and(|r| r.starts_with('-')),
            b'^' => !v.is_empty() && a.starts_with(v.as_str()),
            b'$' => !v.is_empty() && a.ends_with(v.as_str()),
            _ => !v.is_empty() && a.contains(v.as_str()),
        }),
        Simple::FirstChild => sib().is_none_or(|s| s.first() == Some(e)),
        Simple::LastChild => sib().is_none_or(|s| s.last() == Some(e)),
        Simple::OnlyChild => sib().is_none_or(|s| s.len() == 1),
        Simple::Empty => !e.children().any(|c| c.is_element() || (c.is_text() && c.text() != Some(""))),
        Simple::Root => e.parent_element().is_none(),
        Simple::Not(s) => !s.iter().any(|s| matches(s, e, env)),
        Simple::Is(s) => s.iter().any(|s| matches(s, e, env)),
        Simple::NthChild(a, b) => {
            let k = sib().map_or(1, |s| s.iter().position(|x| x == e).unwrap() as i32 + 1);
            is_nth(k, *a, *b)
        }
        Simple::NthLastChild(a, b) => {
            let k = sib().map_or(1, |s| s.iter().rev().position(|x| x == e).unwrap() as i32 + 1);
            is_nth(k, *a, *b)
        }
        Simple::NthOfType(a, b) => {
            let k = sib().map_or(1, |s| s.iter().filter(|x| x.tag_name() == e.tag_name()).position(|x| x == e).unwrap() as i32 + 1);
            is_nth(k, *a, *b)
        }
        Simple::NthLastOfType(a, b) => {
            let k = sib().map_or(1, |s| s.iter().rev().filter(|x| x.tag_name() == e.tag_name()).position(|x| x == e).unwrap() as i32 + 1);
            is_nth(k, *a, *b)
        }
        Simple::OnlyOfType => sib().is_none_or(|s| s.iter().filter(|x| x.tag_name() == e.tag_name()).count() == 1),
        Simple::Dynamic(_) => env,
    }
}

fn is_nth(k: i32, a: i32, b: i32) -> bool {
    if a == 0 { k == b } else { (k - b) % a == 0 && (k - b) / a >= 0 }
}

fn from(parts: &[(Vec<Simple>, u8)], e: &Node, env: bool) -> bool {
    let (c, comb) = &parts[0];
    if !c.iter().all(|s| simple(s, e, env)) {
        return false;
    }
    let rest = &parts[1..];
    if rest.is_empty() {
        return true;
    }
    match comb {
        b'>' => e.parent_element().is_some_and(|p| from(rest, &p, env)),
        b'+' => e.prev_sibling_element().is_some_and(|p| from(rest, &p, env)),
        b'~' => {
            let mut n = e.prev_sibling_element();
            while let Some(p) = n {
                if from(rest, &p, env) {
                    return true;
                }
                n = p.prev_sibling_element();
            }
            false
        }
        _ => {
            let mut n = e.parent_element();
            while let Some(p) = n {
                if from(rest, &p, env) {
                    return true;
                }
                n = p.parent_element();
            }
            false
        }
    }
}

pub fn matches(s: &Sel, e: &Node, env: bool) -> bool {
    from(&s.parts, e, env)
}

pub fn specificity(s: &Sel) -> (u32, u32, u32) {
    let mut r = (0, 0, 0);
    for (c, _) in &s.parts {
        for x in c {
            match x {
                Simple::Any => {}
                Simple::Type(_) => r.2 += 1,
                Simple::Id(_) => r.0 += 1,
                Simple::Not(l) | Simple::Is(l) => {
                    let m = l.iter().map(specificity).max().unwrap_or((0, 0, 0));
                    r = (r.0 + m.0, r.1 + m.1, r.2 + m.2);
                }
                _ => r.1 += 1,
            }
        }
    }
    r
}
