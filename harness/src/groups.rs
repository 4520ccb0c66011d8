//! Moving attributes between groups and children.
use crate::job;
use crate::jobs::*;
use crate::sym;
use oxvg_optimiser::*;

/// P12: collapsing groups.
pub fn collapse_groups() {
    let a = sym::one(ATTRS);
    let b = sym::one(ATTRS);
    let kind = sym::pick(9);
    let sibling = kind == 0 && sym::pick(2) == 1;
    let mut s = String::from(HEAD);
    s.push_str("<style>.k{stroke:red;stroke-width:3}#i{stroke-width:2}</style>");
    s.push_str(DEFS);
    s.push_str("<g");
    put(&mut s, a);
    s.push_str(">");
    let (open, rest) = match kind {
        0 => ("<path d='M1 1h5v9z' stroke='#000'", "/>"),
        1 => ("<g", "><path d='M1 1h5v9z'/></g>"),
        2 => ("<text x='1'", ">a b</text>"),
        3 => ("<svg", "><path d='M1 1h5v9z'/></svg>"),
        4 => ("<path d='M1 1h5v9z'", "><animateTransform attributeName='transform' type='scale' dur='1s' to='2'/></path>"),
        5 => ("<path d='M1 1h5v9z'", "><animate attributeName='fill' dur='1s' to='red'/></path>"),
        6 => ("<path d='M1 1h5v9z'", "><set attributeName='opacity' begin='1s' to='0'/></path>"),
        7 => ("<use href='#z'", "/>"),
        _ => ("<g", "><path id='z' d='M1 1h5v9z'/><path d='M3 1h5v9z' stroke='#000'><animate attributeName='stroke-width' dur='1s' to='3'/></path></g>"),
    };
    s.push_str(open);
    put(&mut s, b);
    s.push_str(rest);
    if sibling {
        s.push_str("<path d='M1 1h5v9z'/>");
    }
    s.push_str("</g>");
    if kind == 7 {
        s.push_str("<path id='z' d='M1 1h5v9z'/>");
    } else if kind == 8 {
        s.push_str("<use href='#z'/>");
    }
    s.push_str("</svg>");
    if a == " id='i'" {
        // the id is moved to the child along with the rules for it
        sym::known("P12-id");
    }
    // the template may repeat the attribute it has
    if kind == 0 && b.starts_with(" stroke=") {
        return;
    }
    keeps(&job!(collapse_groups: oxvg_optimiser::CollapseGroups(true)), &s, 1e-3, false, &format!("{kind}{sibling}{a}{b}"));
}

const SHEET: &str = "<style>.k{stroke:red;stroke-width:3}#i{stroke-width:2}</style>";

/// P12: attributes common to all children go to the group.
pub fn elems_to_group() {
    let a = sym::one(ATTRS);
    let c = sym::one(&[a, "", " fill='red'", " transform='scale(@)'"]);
    let g = sym::one(&["", "fill", " transform='scale(@)'", " filter='url(#f)'", " clip-path='url(#c)'", " opacity='.@'", " id='i'", " class='k'", " style='fill:red'"]);
    let g = if g == "fill" { a } else { g };
    let shape = sym::pick(6);
    let mut s = String::from(HEAD);
    s.push_str(DEFS);
    s.push_str("<g");
    put(&mut s, g);
    s.push_str("><path d='M1 1h5v9z'");
    put(&mut s, a);
    s.push_str("/>");
    if shape == 4 {
        s.push_str("<!--x-->b");
    }
    match shape {
        1 => s.push_str("<text x='1'"),
        2 => s.push_str("<g"),
        3 => s.push_str("<title"),
        _ => s.push_str("<rect width='4' height='5'"),
    }
    put(&mut s, c);
    match shape {
        1 => s.push_str(">a b</text>"),
        2 => s.push_str("><path d='M1 1h5v9z'/></g>"),
        5 => s.push_str("><animateTransform attributeName='transform' type='scale' dur='1s' to='2'/></rect>"),
        _ => s.push_str("/>"),
    }
    s.push_str("</g></svg>");
    keeps(&job!(move_elems_attrs_to_group: MoveElemsAttrsToGroup(true)), &s, 1e-3, false, &format!("{shape}|{g}|{a}|{c}"));
}

/// P12: a transform of the group goes to all children.
pub fn group_to_elems() {
    let t = sym::one(&[" transform='translate(@ 3)'", " transform='scale(@)'", " transform='matrix(1 2 3 @ 5 6)'", " transform=''", " transform='none'"]);
    let x = sym::one(ATTRS);
    let c = sym::one(&["", " transform='translate(@ 2)'", " style='transform:scale(2)'", " clip-path='url(#c)'", " class='k'", " opacity='.@'", " id='i'", " stroke-width='@' stroke='red'"]);
    let shape = sym::pick(8);
    if x.starts_with(" transform") {
        return;
    }
    let mut s = String::from(HEAD);
    s.push_str(SHEET);
    s.push_str(DEFS);
    s.push_str("<g");
    put(&mut s, t);
    put(&mut s, x);
    s.push_str("><path d='M1 1h5v9z'");
    put(&mut s, c);
    s.push_str("/>");
    match shape {
        1 => s.push_str("<text x='1'"),
        2 => s.push_str("<g"),
        3 => s.push_str("<title"),
        4 => s.push_str("<rect width='4' height='5'"),
        5 => s.push_str("<use href='#z'"),
        _ => s.push_str("<path d='M1 1h5v9z'"),
    }
    if shape != 5 {
        put(&mut s, c);
    }
    match shape {
        1 => s.push_str(">a b</text>"),
        2 => s.push_str("><path d='M1 1h5v9z'/></g>"),
        6 => s.push_str("><animate attributeName='fill' dur='1s' to='red'/></path>"),
        7 => s.push_str("><animateTransform attributeName='transform' type='scale' dur='1s' to='2'/></path>"),
        _ => s.push_str("/>"),
    }
    s.push_str("</g><path id='z' d='M1 1h5v9z'/></svg>");
    keeps(&job!(move_group_attrs_to_elems: MoveGroupAttrsToElems(true)), &s, 1e-3, false, &format!("{shape}|{t}|{x}|{c}"));
}
