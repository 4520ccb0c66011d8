//! Removing what isn't drawn.
use crate::job;
use crate::jobs::*;
use crate::sym;
use crate::svg::{num, said as attr};
use oxvg_optimiser::*;

/// Like `put` with digits from 0.
fn put0(s: &mut String, t: &str) {
    for c in t.chars() {
        s.push(if c == '@' { sym::byte(b'0', b'9') as char } else { c });
    }
}

const CONDITIONS: &[&str] = &[
    "",
    " visibility='hidden'",
    " visibility='visible'",
    " visibility='collapse'",
    " visibility='inherit'",
    " display='none'",
    " display='inline'",
    " display='inherit'",
    " opacity='@'",
    " opacity='.@'",
    " opacity='@%'",
    " style='visibility:hidden'",
    " style='visibility:visible'",
    " style='display:none'",
    " style='opacity:@'",
    " class='k'",
];

const SHEETS: &[&str] = &[
    ".k{display:none}",
    ".k{visibility:hidden}",
    ".k{opacity:0}",
    ".k{opacity:.@}",
    ".k{display:inline}",
    ".k{visibility:visible}",
    "@media print{.k{display:none}}",
    ".k:hover{visibility:hidden}",
];

/// An element that may be hidden, and what refers to it.
const HIDEABLE: &[(&str, &str, &[&str])] = &[
    ("<rect id='a'", " width='4' height='5'/>", &["", "<use href='#a'/>", "<use xlink:href='#a' display='inline' opacity='1' visibility='visible'/>"]),
    ("<path id='a'", " d='M1 1h5v9z'/>", &["", "<use href='#a'/>", "<text><textPath href='#a'>x</textPath></text>"]),
    ("<g id='a'", "><path d='M1 1h5v9z'/><rect width='4' height='5' visibility='visible'/></g>", &["", "<use href='#a'/>"]),
    ("<g id='a'", "><path d='M1 1h5v9z'/><rect width='4' height='5' style='visibility:visible'/></g>", &[""]),
    ("<g", "><path id='a' d='M1 1h5v9z'/></g>", &["", "<use href='#a'/>"]),
    ("<text id='a'", ">x<tspan visibility='visible'>y</tspan></text>", &[""]),
    ("<text>z<tspan id='a'", ">x</tspan>y</text>", &[""]),
    ("<marker id='a'", "><path d='M1 1h5v9z'/></marker>", &["<path d='M1 1h5v9z' marker-end='url(#a)'/>"]),
    ("<clipPath id='a'", "><path d='M1 1h5v9z'/></clipPath>", &["<path d='M1 1h5v9z' clip-path='url(#a)'/>"]),
    ("<clipPath id='a'><path", " d='M1 1h5v9z'/></clipPath>", &["<path d='M1 1h5v9z' clip-path='url(#a)'/>"]),
    ("<mask id='a'", "><path d='M1 1h5v9z'/></mask>", &["<path d='M1 1h5v9z' style='mask:url(#a)'/>"]),
    ("<mask id='a'><path", " d='M1 1h5v9z'/></mask>", &["<path d='M1 1h5v9z' mask='url(#a)'/>"]),
    ("<linearGradient id='a'", "><stop stop-color='red'/><stop offset='1'/></linearGradient>", &["<path d='M1 1h5v9z' fill='url(#a)'/>", "<linearGradient id='b' href='#a'/><path d='M1 1h5v9z' stroke='url(#b)'/>"]),
    ("<filter id='a'", "><feOffset dx='2'/></filter>", &["<path d='M1 1h5v9z' filter='url(#a)'/>"]),
    ("<pattern id='a' width='2' height='2'", "><path d='M1 1h5v9z'/></pattern>", &["<path d='M1 1h5v9z' fill='url(#a)'/>"]),
    ("<symbol id='a'", "><path d='M1 1h5v9z'/></symbol>", &["<use href='#a'/>"]),
    ("<defs", "><path id='a' d='M1 1h5v9z'/></defs>", &["", "<use href='#a'/>"]),
    ("<defs><path id='a'", " d='M1 1h5v9z'/><rect/></defs>", &["", "<use href='#a'/>"]),
    ("<use href='#z'", "/>", &["<path id='z' d='M1 1h5v9z'/>", "<defs><path id='z' d='M1 1h5v9z'/></defs>"]),
    ("<image id='a' width='2' height='2' href='x.png'", "/>", &[""]),
    ("<svg", "><path d='M1 1h5v9z'/></svg>", &["", "<use href=''/>", "<use xlink:href='\u{e9}'/>"]),
];

/// P14: hidden by style.
pub fn hidden_styles() {
    let k = sym::pick(HIDEABLE.len());
    let (open, close, refs) = HIDEABLE[k];
    let g = sym::one(CONDITIONS);
    let a = sym::one(CONDITIONS);
    let r = sym::pick(refs.len());
    let sheet = if g == " class='k'" || a == " class='k'" { sym::one(SHEETS) } else { "" };
    let mut s = String::from(HEAD);
    if !sheet.is_empty() {
        s.push_str("<style>");
        put0(&mut s, sheet);
        s.push_str("</style>");
    }
    s.push_str("<g");
    put0(&mut s, g);
    s.push('>');
    s.push_str(open);
    put0(&mut s, a);
    s.push_str(close);
    s.push_str("</g>");
    s.push_str(refs[r]);
    s.push_str("</svg>");
    keeps(&job!(remove_hidden_elems: RemoveHiddenElems::default()), &s, 1e-6, true, &format!("{k}.{r}|{g}|{a}|{sheet}"));
}

const SIZED: &[&str] = &[
    "<rect width='@' height='@'/>",
    "<rect width='@px' height='3'/>",
    "<rect width='@e1' height='.@'/>",
    "<rect width='-@' height='3'/>",
    "<rect height='3'/>",
    "<rect width='@' height='2' rx='@'/>",
    "<rect width='@' height='3'><animate attributeName='width' to='9' dur='1s'/></rect>",
    "<circle r='@' cx='@'/>",
    "<circle r='.@'/>",
    "<circle cx='@'/>",
    "<circle r='@'><animate attributeName='r' to='9' dur='1s'/></circle>",
    "<ellipse rx='@' ry='@'/>",
    "<ellipse rx='@'/>",
    "<ellipse rx='auto' ry='@'/>",
    "<ellipse rx='2' ry='.@'/>",
    "<image href='x.png' width='@' height='@'/>",
    "<image href='x.png' height='@'/>",
    "<image href='x.png'/>",
    "<path/>",
    "<path d=''/>",
    "<path d='M@ @'/>",
    "<path d='M@ 1z'/>",
    "<path d='M@ 1M2 @'/>",
    "<path d='M@ 1h@'/>",
    "<path d='M@ 1h@v3'/>",
    "<path d='M1 1h@v3zm@ 1h4v4z'/>",
    "<polyline points='@ 1'/>",
    "<polyline points='@ 1 2 @'/>",
    "<polyline/>",
    "<polygon points=''/>",
    "<polygon points='@ 1'/>",
    "<polygon points='1 1 @ 4 5 6'/>",
    "<polygon/>",
    "<line x1='@' x2='@'/>",
    "<line/>",
];

/// P14: kinds of hidden elements that aren't to be removed.
pub fn hidden_options() {
    const KINDS: &[&str] = &[
        "<rect id='t' visibility='hidden' width='1@' height='1'/>",
        "<rect id='t' display='none' width='1@' height='1'/>",
        "<rect id='t' opacity='0' width='1@' height='1'/>",
        "<circle id='t' r='@'/>",
        "<ellipse id='t' rx='@' ry='2'/>",
        "<ellipse id='t' rx='2' ry='@'/>",
        "<rect id='t' width='@' height='2'/>",
        "<rect id='t' width='2' height='@'/>",
        "<pattern id='t' width='@' height='2'/>",
        "<pattern id='t' width='2' height='@'/>",
        "<image id='t' width='@' height='2'/>",
        "<image id='t' width='2' height='@'/>",
        "<path id='t' d=''/>",
        "<polyline id='t'/>",
        "<polygon id='t'/>",
    ];
    let k = sym::pick(KINDS.len());
    let off = sym::pick(KINDS.len());
    let mut o = RemoveHiddenElems::default();
    let which: [&mut Option<bool>; 15] = [
        &mut o.is_hidden,
        &mut o.display_none,
        &mut o.opacity_zero,
        &mut o.circle_r_zero,
        &mut o.ellipse_rx_zero,
        &mut o.ellipse_ry_zero,
        &mut o.rect_width_zero,
        &mut o.rect_height_zero,
        &mut o.pattern_width_zero,
        &mut o.pattern_height_zero,
        &mut o.image_width_zero,
        &mut o.image_height_zero,
        &mut o.path_empty_d,
        &mut o.polyline_empty_points,
        &mut o.polygon_empty_points,
    ];
    for (i, w) in which.into_iter().enumerate() {
        *w = (i == off).then_some(false);
    }
    let mut s = String::from(HEAD);
    let digit = sym::byte(b'0', b'9');
    KINDS[k].chars().for_each(|c| s.push(if c == '@' { digit as char } else { c }));
    s.push_str("<path fill='url(#t)' d='M1 1h5v9z'/></svg>");
    let t = run(&job!(remove_hidden_elems: o), &s);
    let there = t.contains("id=\"t\"");
    sym::check(there || k != off, &format!("removed in spite of the option, {k}"));
    // sizes other than zero are kept by any options
    let sized = (3..12).contains(&k) && digit != b'0';
    sym::check(there || !sized, &format!("size isn't zero, {k}"));
    if !there {
        sym::cover(1);
    }
}

const PAINTS: &[&str] = &[
    "",
    " stroke='red'",
    " stroke='red' stroke-linecap='round'",
    " marker-start='url(#k)'",
    " marker-end='url(#k)'",
    " marker-mid='url(#k)'",
    " style='marker-end:url(#k)'",
    " class='m'",
];

/// P14: hidden by size.
pub fn hidden_sizes() {
    let shape = sym::one(SIZED);
    let paint = sym::one(PAINTS);
    let whole = sym::pick(3);
    let mut s = String::from(HEAD);
    s.push_str("<style>.m{marker-start:url(#k)}</style><marker id='k'><path d='M0 0h5v5z'/></marker>");
    if whole == 1 {
        s.push_str("<defs><g id='d'>");
    } else {
        s.push_str("<g");
        s.push_str(paint);
        s.push('>');
    }
    put0(&mut s, shape);
    s.push_str("</g>");
    match whole {
        1 => {
            s.push_str("</defs><use href='#d'");
            s.push_str(paint);
            s.push_str("/>");
        }
        2 => s.push_str("<path d='M1 1h5v9z'/>"),
        _ => {}
    }
    s.push_str("</svg>");
    keeps(&job!(remove_hidden_elems: RemoveHiddenElems::default()), &s, 1e-6, false, &format!("{whole}|{shape}|{paint}"));
}

/// Definitions and uses of them; `@` is a letter.
const DEFINED: &[(&str, &str)] = &[
    ("<linearGradient id='@'><stop stop-color='red'/><stop offset='1'/></linearGradient>", "<path d='M1 1h5v9z' fill='url(#@)'/>"),
    ("<linearGradient id='@'><stop stop-color='red'/><stop offset='1'/></linearGradient>", "<path d='M1 1h5v9z' style='fill:url(#@)'/>"),
    ("<linearGradient id='@'><stop stop-color='red'/><stop offset='1'/></linearGradient>", "<radialGradient id='y' href='#@'/><path d='M1 1h5v9z' fill='url(#y)'/>"),
    ("<radialGradient id='@'><stop stop-color='red'/><stop offset='1'/></radialGradient>", "<style>path{stroke:url(#@)}</style><path d='M1 1h5v9z'/>"),
    ("<clipPath id='@'><rect width='3' height='4'/></clipPath>", "<path d='M1 1h5v9z' clip-path='url(#@)'/>"),
    ("<clipPath id='@'><rect width='3' height='4'/></clipPath>", "<clipPath id='y' clip-path='url(#@)'><path d='M1 1h5v9z'/></clipPath><path d='M1 1h5v9z' clip-path='url(#y)'/>"),
    ("<mask id='@'><rect width='3' height='4'/></mask>", "<g mask='url(#@)'><path d='M1 1h5v9z'/></g>"),
    ("<marker id='@'><rect width='3' height='4'/></marker>", "<path d='M1 1h5v9z' marker-start='url(#@)'/>"),
    ("<pattern id='@' width='3' height='4'><rect width='3' height='4'/></pattern>", "<path d='M1 1h5v9z' fill='url(#@)'/>"),
    ("<pattern id='@' width='3' height='4'><rect width='3' height='4'/></pattern>", "<pattern id='y' href='#@'/><path d='M1 1h5v9z' fill='url(#y)'/>"),
    ("<filter id='@'><feOffset dx='2'/></filter>", "<path d='M1 1h5v9z' filter='url(#@)'/>"),
    ("<filter id='@'><feOffset dx='2'/></filter>", "<path d='M1 1h5v9z' style='filter:url(#@)'/>"),
    ("<symbol id='@'><rect width='3' height='4'/></symbol>", "<use href='#@'/>"),
    ("<symbol id='@'><rect width='3' height='4'/></symbol>", "<use xlink:href='#@'/>"),
    ("<path id='@' d='M1 1h5v9z'/>", "<use href='#@'/>"),
    ("<path id='@' d='M1 1h5v9z'/>", "<text><textPath href='#@'>x</textPath></text>"),
    ("<path id='@' d='M1 1h5v9z'/>", "<clipPath id='y'><use href='#@'/></clipPath><rect width='3' height='4' clip-path='url(#y)'/>"),
    ("<g id='@'><rect width='3' height='4'/></g>", "<use href='#@'/>"),
    ("<rect id='@' width='3' height='4'/>", "<mask id='y'><use href='#@'/></mask><rect width='3' height='4' mask='url(#y)'/>"),
    ("<clipPath><path id='@' d='M1 1h5v9z'/></clipPath>", "<use href='#@'/>"),
    ("<symbol><g><path id='@' d='M1 1h5v9z'/></g></symbol>", "<use href='#@'/>"),
    ("<g><clipPath id='@'><rect width='3' height='4'/></clipPath><rect/></g>", "<path d='M1 1h5v9z' clip-path='url(#@)'/>"),
    ("<svg><linearGradient id='@'><stop stop-color='red'/><stop offset='1'/></linearGradient></svg>", "<path d='M1 1h5v9z' fill='url(#@)'/>"),
    ("<pattern id='y' width='3' height='4'><linearGradient id='@'><stop stop-color='red'/><stop offset='1'/></linearGradient><rect width='3' height='4'/></pattern>", "<path d='M1 1h5v9z' fill='url(#@)'/>"),
    ("<solidColor id='@' solid-color='red'/>", "<path d='M1 1h5v9z' fill='url(#@) blue'/>"),
    ("<style>path{fill:blue}</style>", "<path d='M1 1h5v9z'/>"),
    ("<g><style>path{fill:blue}</style></g>", "<path d='M1 1h5v9z'/>"),
    ("<clipPath><style>path{fill:blue}</style></clipPath>", "<path d='M1 1h5v9z'/>"),
];

fn definitions(jobs: &Jobs, what: &str) {
    let k = sym::pick(DEFINED.len());
    let (def, used) = DEFINED[k];
    let place = sym::pick(5);
    let first = sym::pick(2) == 1;
    let id = sym::byte(b'a', b'd') as char;
    let other = sym::byte(b'a', b'd') as char;
    let put = |s: &mut String, t: &str, c: char| t.chars().for_each(|x| s.push(if x == '@' { c } else { x }));
    let mut s = String::from(HEAD);
    if first {
        put(&mut s, used, other);
    }
    let (open, close) = [("", ""), ("<defs>", "</defs>"), ("<defs id='x'>", "</defs>"), ("<g>", "</g>"), ("<defs><linearGradient/><g>", "</g></defs>")][place];
    s.push_str(open);
    put(&mut s, def, id);
    s.push_str(close);
    if !first {
        put(&mut s, used, other);
    }
    s.push_str("</svg>");
    let t = run(jobs, &s);
    compare(&s, &t, 1e-6, false, &format!("{what} {k}|{place}|{first}"));
    if t.len() + 10 < s.len() {
        sym::cover(1);
    }
}

/// P14: definitions nothing refers to.
pub fn hidden_unused() {
    definitions(&job!(remove_hidden_elems: RemoveHiddenElems::default()), "hidden");
}

/// P14: definitions without an id.
pub fn useless_defs() {
    definitions(&job!(remove_useless_defs: RemoveUselessDefs(true)), "defs");
}

const FILLING: &[&str] = &[
    "",
    " ",
    "<!--x-->",
    "<title>x</title>",
    "<g/>",
    "<defs/>",
    "<path d='M1 1h@v9z'/>",
    "<g><a> </a></g>",
    "<g><rect width='@' height='2'/></g>",
    "<text>x</text>",
    "<animate attributeName='opacity' to='0' dur='@s'/>",
    "<svg/>",
];

const EMPTIES: &[(&str, &str, &str)] = &[
    ("<g", "</g>", ""),
    ("<a href='#x'", "</a>", ""),
    ("<defs", "</defs>", ""),
    ("<switch", "</switch>", ""),
    ("<switch><g systemLanguage='en'", "</g><path d='M1 1h5v9z'/></switch>", ""),
    ("<svg", "</svg>", ""),
    ("<text>a<a href='#x'", "</a>b</text>", ""),
    ("<text><tspan>a</tspan><a href='#x'", "</a><tspan>b</tspan></text>", ""),
    ("<clipPath id='n'", "</clipPath>", "<path d='M1 1h5v9z' clip-path='url(#n)'/>"),
    ("<mask id='n'", "</mask>", "<path d='M1 1h5v9z' mask='url(#n)'/>"),
    ("<mask id='n'", "</mask>", "<g style='mask:url(#n)'><path d='M1 1h5v9z'/></g>"),
    ("<marker id='n'", "</marker>", "<path d='M1 1h5v9z' marker-end='url(#n)'/>"),
    ("<symbol id='n'", "</symbol>", "<use href='#n'/><path d='M1 1h5v9z'/>"),
    ("<pattern id='n'", "</pattern>", "<path d='M1 1h5v9z' stroke='red' fill='url(#n)'/>"),
    ("<pattern id='n' width='2' height='3'", "</pattern>", "<path d='M1 1h5v9z' stroke='red' fill='url(#n)'/>"),
    ("<pattern id='n' width='2' height='3' href='#m'", "</pattern>", "<pattern id='m'><path d='M1 1h5v9z'/></pattern><path d='M1 1h5v9z' fill='url(#n)'/>"),
    ("<filter id='n'", "</filter>", "<path d='M1 1h5v9z' filter='url(#n)'/>"),
    ("<g id='n'", "</g>", "<use href='#n'/><path d='M1 1h5v9z'/>"),
    ("<clipPath id='m'><g", "</g><rect width='3' height='2'/></clipPath>", "<path d='M1 1h5v9z' clip-path='url(#m)'/>"),
];

const EFFECTS: &[&str] = &[
    "",
    " filter='url(#f)'",
    " style='filter:url(#f)'",
    " class='k'",
    " opacity='.@'",
    " fill='red'",
    " transform='scale(@)'",
];

/// P14: empty containers.
pub fn empty_containers() {
    let k = sym::pick(EMPTIES.len());
    let (open, close, after) = EMPTIES[k];
    let x = sym::one(EFFECTS);
    let f = sym::one(FILLING);
    let outer = sym::pick(3);
    let mut s = String::from(HEAD);
    if x == " class='k'" {
        s.push_str("<style>.k{filter:url(#f)}</style>");
    }
    s.push_str("<filter id='f'><feFlood/></filter>");
    s.push_str(["", "<g>", "<g filter='url(#f)'>"][outer]);
    s.push_str(open);
    put(&mut s, x);
    s.push('>');
    put(&mut s, f);
    s.push_str(close);
    if outer > 0 {
        s.push_str("</g>");
    }
    s.push_str(after);
    s.push_str("</svg>");
    keeps(&job!(remove_empty_containers: RemoveEmptyContainers(true)), &s, 1e-6, false, &format!("{k}|{outer}|{x}|{f}"));
}

/// P14: empty text.
pub fn empty_text() {
    let options = RemoveEmptyText { text: Some(sym::pick(2) == 1), tspan: Some(sym::pick(2) == 1), tref: Some(sym::pick(2) == 1) };
    let inner = sym::one(&["", " ", "@", "<tspan/>", "<tspan> </tspan>", "<tspan>@</tspan>", "<tspan x='1'/>@", "<!--x-->", "<tspan><!--x--></tspan>", "<tref/>", "<tref xlink:href='#x'/>", "<a>@</a>", "<tspan><tspan>@</tspan></tspan>", "<textPath href='#x'>@</textPath>", "@<tspan> </tspan>b", "<![CDATA[@]]>"]);
    let attrs = sym::one(&["", " x='@'", " xml:space='preserve'", " id='i'"]);
    let mut s = String::from(HEAD);
    s.push_str("<text id='x'>q</text><text");
    put(&mut s, attrs);
    s.push('>');
    for c in inner.chars() {
        s.push(if c == '@' { sym::of(b" \na") as char } else { c });
    }
    s.push_str("</text><use href='#i'/></svg>");
    let tref = |o: &str| o.matches("<tref").count();
    let what = format!("{inner}|{attrs}");
    let t = run(&job!(remove_empty_text: options), &s);
    compare(&s, &t, 1e-6, false, &what);
    sym::check(tref(&t) == tref(&s) || inner == "<tref/>", "text of another element dropped");
}

/// Whether the segments of the closed outline, or its inside, meet the open box.
fn meets(p: &[[f64; 2]], b: [f64; 4], r: f64, closed: bool) -> bool {
    let mut inside = 0;
    let c = [(b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0];
    for i in 0..p.len() {
        let (a, z) = (p[i], p[(i + 1) % p.len()]);
        if closed || i + 1 < p.len() {
            // the part of the segment in the grown box (Liang–Barsky)
            let (mut t0, mut t1) = (0.0f64, 1.0f64);
            let mut out = false;
            for k in 0..2 {
                let d = z[k] - a[k];
                let (lo, hi) = (b[k] - r - a[k], b[k + 2] + r - a[k]);
                if d == 0.0 {
                    out |= lo >= 0.0 || hi <= 0.0;
                } else {
                    let (u, v) = if d > 0.0 { (lo / d, hi / d) } else { (hi / d, lo / d) };
                    t0 = t0.max(u);
                    t1 = t1.min(v);
                }
            }
            if !out && t0 < t1 {
                return true;
            }
        }
        // winding around the centre
        let cross = (z[0] - a[0]) * (c[1] - a[1]) - (z[1] - a[1]) * (c[0] - a[0]);
        if a[1] <= c[1] && z[1] > c[1] && cross > 0.0 {
            inside += 1;
        } else if a[1] > c[1] && z[1] <= c[1] && cross < 0.0 {
            inside -= 1;
        }
    }
    inside != 0
}

/// P14: paths outside of the canvas.
pub fn off_canvas() {
    let d = sym::one(&[
        "M@ 1L8 @L2 9z", "M1 @L9 @", "M1 @H9", "M@ 0V9", "M-1 @L3 4L@ -2", "M0 0L@ 0L0 9L@ 9z", "M@ @h1v1z", "M@ 1L1 @", "M0 0H9V@H0z", "m1 @l8 -@",
    ]);
    let canvas = sym::pick(4);
    let paint = sym::one(&["", " fill='none' stroke='red'", " stroke='red' stroke-width='4'", " stroke='red' stroke-linecap='round'"]);
    let wrap = sym::pick(5);
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg' ");
    s.push_str(["viewBox='4 4 2 2'", "width='4' height='4'", "viewBox='4 4 2 2' width='4' height='4'", ""][canvas]);
    s.push('>');
    s.push_str(["", "<g>", "<g transform='scale(3)'>", "<g>", "<defs>"][wrap]);
    s.push_str("<path");
    s.push_str(paint);
    if wrap == 4 {
        s.push_str(" id='c'");
    }
    if wrap == 3 {
        s.push_str(" transform='translate(3)'");
    }
    s.push_str(" d='");
    put0(&mut s, d);
    s.push_str("'/>");
    s.push_str(["", "</g>", "</g>", "</g>", "</defs><use href='#c' x='2' y='3'/>"][wrap]);
    s.push_str("</svg>");
    let t = run(&job!(remove_off_canvas_paths: RemoveOffCanvasPaths(true)), &s);
    sym::cover(!t.contains("<path") as u32);
    let what = format!("{d}|{canvas}|{paint}|{wrap}");
    if t.contains("<path") {
        compare(&s, &t, 1e-6, false, &what);
        return;
    }
    let Ok(doc) = roxmltree::Document::parse(&s) else { return };
    let Some(e) = doc.descendants().find(|e| e.tag_name().name() == "path") else { return };
    let b = [[4.0, 4.0, 6.0, 6.0], [0.0, 0.0, 4.0, 4.0]][(canvas == 1) as usize];
    // the width counts sideways
    let w = if !paint.contains("stroke") || !d.contains('H') && !d.contains('V') || d.contains('z') { 0.0 } else { attr(&e, "stroke-width").and_then(num).unwrap_or(1.0) / 2.0 };
    let out = crate::svg::shape_outline(&e);
    let filled = !paint.contains("none");
    sym::check(canvas != 3 && wrap < 2, &what);
    for o in &out {
        if w > 0.0 && !meets(&o.pts, b, 0.0, o.closed) {
            // only the outline is looked at
            sym::known("P14-stroke");
        }
        sym::check(!meets(&o.pts, b, w, o.closed || filled && w == 0.0), &what);
    }
}
