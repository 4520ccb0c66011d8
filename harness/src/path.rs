//! P04: path data survives parsing and printing.
use crate::pathread::{read, same};
use crate::sym;
use oxvg_collections::attribute::path::Path;
use oxvg_parse::Parse;
use oxvg_serialize::{PrinterOptions, ToValue};

fn dangling_dot(s: &[u8]) -> bool {
    let mut bad = false;
    for i in 0..s.len() {
        let next = if i + 1 < s.len() { s[i + 1] } else { 0 };
        bad |= s[i] == b'.' && !next.is_ascii_digit();
    }
    bad
}

/// A comma that doesn't separate two numbers of the same command.
fn misplaced_comma(s: &[u8]) -> bool {
    let mut bad = false;
    let mut comma = false;
    let mut number = false;
    for c in s {
        let is_digit = c.is_ascii_digit() || matches!(c, b'.' | b'-' | b'+');
        if *c == b',' {
            bad |= comma || !number;
            comma = true;
        } else if *c != b' ' {
            bad |= comma && !is_digit;
            comma = false;
            number = is_digit;
        }
    }
    bad
}

/// Parses and prints `s` as the `d` attribute does and compares what both strings draw.
fn round_trip(s: &str) {
    sym::log(s);
    let (want, valid) = read(s.as_bytes());
    // "1." is a number in SVG 1.1 and an error in SVG 2
    sym::assume(!dangling_dot(s.as_bytes()));
    // numbers beyond the range of doubles are an error to the parser
    sym::assume(want.iter().all(|x| x.a.iter().all(|a| a.is_finite())));
    let Ok(p) = Path::parse_string(s) else {
        sym::check(!valid, "valid path data rejected");
        return;
    };
    let t = p.to_value_string(PrinterOptions::default()).expect("printing");
    sym::log(&t);
    let (got, ok) = read(t.as_bytes());
    sym::check(ok, "printed path data is not valid");
    if valid {
        sym::cover(1);
        sym::check(same(&want, &got), "printed path data draws something else");
        sym::check(p.1.is_none_or(|r| r.trim().is_empty()), "valid path data reported as invalid");
    } else {
        sym::cover(2);
        if misplaced_comma(s.as_bytes()) {
            sym::known("P04-comma");
        }
        sym::check(same(&want, &got), "invalid path data is not kept up to the error");
    }
}

/// Free tail of symbols after a short prefix.
pub fn free() {
    let mut s = String::from(sym::one(&["M0 0", "m1,2l", "M1 1z"]));
    for _ in 0..if sym::deep() { 6 } else { 5 } {
        s.push(sym::of(b"05.-+e, Llz") as char);
    }
    round_trip(&s);
}

/// Number formats and adjacency: numbers of symbolic digits in one command.
pub fn numbers() {
    let mut s = String::from("M");
    for k in 0..2 {
        let f = sym::pick(9);
        let mut d = || s.push(sym::byte(b'0', b'9') as char);
        match f {
            0 => d(),
            1 => {
                d();
                d()
            }
            2 => {
                d();
                s.push('.');
                s.push(sym::byte(b'0', b'9') as char);
            }
            3 => {
                s.push('.');
                s.push(sym::byte(b'0', b'9') as char);
            }
            4 => {
                s.push('-');
                s.push(sym::byte(b'0', b'9') as char);
            }
            5 => {
                s.push_str("-.");
                s.push(sym::byte(b'0', b'9') as char);
            }
            6 => {
                s.push_str("1e");
                s.push(sym::of(b"+-") as char);
                s.push(sym::byte(b'0', b'9') as char);
            }
            7 => {
                s.push_str(".00");
                s.push(sym::byte(b'0', b'9') as char);
            }
            _ => {
                s.push('+');
                s.push(sym::byte(b'0', b'9') as char);
                s.push_str("e2");
            }
        }
        if k == 0 {
            s.push_str(sym::one(&[" ", ",", "-", "-."]));
        }
    }
    s.push_str(sym::one(&["", "z", " 3 4", "1", "-1 5", ".5.5", "L1-1", "l.5.5 1e3 4"]));
    round_trip(&s);
}

/// Every command followed by every command, with implicit repetition.
pub fn commands() {
    let cmds = b"MmLlHhVvCcSsQqTtAazZ";
    let mut s = String::from("M1 2");
    let args = |s: &mut String, c: u8| {
        let n = crate::pathread::arity(c);
        for k in 0..n {
            if n == 7 && (k == 3 || k == 4) {
                s.push(sym::of(b"01") as char);
                continue;
            }
            s.push_str(if k == 0 { sym::one(&["", "-", " ."]) } else { " " });
            s.push(if k == 0 { sym::of(b"17") } else { b'0' + k as u8 } as char);
            if n == 7 && k == 2 {
                s.push(' ');
            }
        }
    };
    for k in 0..2 {
        let c = sym::one(cmds);
        s.push(c as char);
        args(&mut s, c);
        if k == 0 && crate::pathread::arity(c) > 0 && sym::conc_flag(sym::flag()) {
            s.push(' ');
            args(&mut s, c);
        }
    }
    round_trip(&s);
}

/// Separators of every form in and around the arguments of every command, twice.
pub fn separators() {
    let c = sym::one(b"MmLlHhVvCcSsQqTtAaz");
    let n = crate::pathread::arity(c);
    let gap = sym::pick(2 * n + 2);
    let mut s = String::from("M1 2");
    let mut at = 0;
    let mut sep = |s: &mut String, inner: bool, default: &str| {
        if at != gap {
            s.push_str(default);
        } else {
            // up to three symbols of white space with a comma where one is allowed
            for _ in 0..3 {
                s.push(sym::of(if inner { b" ,\n\t\r\x0c" } else { b"  \n\t\r\x0c" }) as char);
            }
        }
        at += 1;
    };
    sep(&mut s, false, "");
    s.push(c as char);
    for k in 0..2 * n {
        sep(&mut s, k > 0, if k == 0 { "" } else { " " });
        if n == 7 && (k % 7 == 3 || k % 7 == 4) {
            s.push(sym::of(b"01") as char);
        } else {
            s.push((b'1' + (k % 7) as u8) as char);
        }
    }
    sep(&mut s, false, "");
    s.push_str(sym::one(&["", "z", "L8 9"]));
    round_trip(&s);
}
