//! Documents put through optimiser jobs.
use crate::svg::{picture, same, show};
use crate::sym;
use oxvg_ast::{parse::roxmltree::parse_with_options, serialize::Node as _, visitor::Info};
use oxvg_optimiser::Jobs;
use roxmltree::ParsingOptions;

/// Parses, runs the jobs and serialises; reports failures as violations.
pub fn run(jobs: &Jobs, s: &str) -> String {
    sym::log(s);
    let r = parse_with_options(s, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        jobs.run(dom, &Info::new(allocator)).map_err(|_| "jobs failed")?;
        dom.serialize().map_err(|_| "serialising failed")
    });
    match r {
        Ok(Ok(t)) => {
            sym::log(&t);
            t
        }
        Ok(Err(e)) => {
            sym::check(false, e);
            String::new()
        }
        Err(_) => {
            sym::check(false, "well-formed document rejected");
            String::new()
        }
    }
}

/// Whether the job leaves the picture alone; `tol` bounds the movement of points.
pub fn keeps(jobs: &Jobs, s: &str, tol: f64, env: bool, what: &str) {
    let t = run(jobs, s);
    if t.len() + 8 < s.len() {
        // the job had something to do
        sym::cover(1);
    }
    compare(s, &t, tol, false, what);
    if env {
        compare(s, &t, tol, true, what);
    }
}

pub fn compare(s: &str, t: &str, tol: f64, env: bool, what: &str) {
    let Some(a) = picture(s, env) else {
        sym::check(false, "template isn't well-formed");
        return;
    };
    let Some(b) = picture(t, env) else {
        sym::check(false, "output isn't well-formed");
        return;
    };
    if std::env::var_os("SHOW").is_some() {
        sym::log(&show(&a));
        sym::log(&show(&b));
    }
    sym::check(same(&a, &b, tol), what);
}

#[macro_export]
macro_rules! job {
    ($($name:ident : $v:expr),* $(,)?) => {
        oxvg_optimiser::Jobs { $($name: Some($v),)* ..oxvg_optimiser::Jobs::none() }
    };
}

pub const HEAD: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>";

/// Targets for the references in `ATTRS`.
pub const DEFS: &str = "<defs><clipPath id='c'><path d='M0 0h5v5z'/></clipPath><mask id='m'><path d='M0 0h5v5z'/></mask><filter id='f'><feOffset dx='2'/></filter><marker id='k'><path d='M0 0h5v5z'/></marker><linearGradient id='l'><stop stop-color='red'/><stop offset='1'/></linearGradient></defs>";

/// Attributes that change the picture, `@` stands for a symbolic digit 1–9.
pub const ATTRS: &[&str] = &[
    "",
    " fill='red'",
    " fill='none'",
    " fill='inherit'",
    " fill='currentColor'",
    " fill='url(#l)'",
    " color='red'",
    " stroke='blue'",
    " stroke-width='@'",
    " opacity='.@'",
    " fill-opacity='.@'",
    " transform='translate(@ 3)'",
    " transform='scale(@)'",
    " transform='rotate(30)'",
    " clip-path='url(#c)'",
    " mask='url(#m)'",
    " filter='url(#f)'",
    " marker-end='url(#k)'",
    " style='fill:red'",
    " style='opacity:.@'",
    " style='filter:url(#f)'",
    " style='transform:scale(2)'",
    " style='mix-blend-mode:multiply'",
    " class='k'",
    " id='i'",
    " visibility='hidden'",
    " visibility='visible'",
    " display='none'",
    " stroke-dasharray='@ 2'",
    " stroke-linecap='round'",
    " fill-rule='evenodd'",
    " stroke='none'",
    " font-size='@'",
    " xml:space='preserve'",
];

/// Appends a template, replacing each `@` by a symbolic digit.
pub fn put(s: &mut String, t: &str) {
    for c in t.chars() {
        s.push(if c == '@' { sym::byte(b'1', b'9') as char } else { c });
    }
}

/// Like `put` with at most `left` symbolic digits.
pub fn put_some(s: &mut String, t: &str, left: &mut usize) {
    for c in t.chars() {
        s.push(match c {
            '@' if *left > 0 => {
                *left -= 1;
                sym::byte(b'1', b'9') as char
            }
            '@' => '7',
            c => c,
        });
    }
}
