//! An independent reader of SVG path data, written from the SVG 2 grammar.

#[derive(Clone, Debug)]
pub struct Seg {
    pub cmd: u8,
    pub n: usize,
    pub a: [f64; 7],
}

pub struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Reader<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Reader { s, i: 0 }
    }
    pub fn peek(&self) -> u8 {
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    pub fn skip(&mut self) {
        self.i += 1;
    }
    pub fn rest(&self) -> &[u8] {
        &self.s[self.i..]
    }
    pub fn end(&self) -> bool {
        self.i >= self.s.len()
    }
    pub fn wsp(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r' | 0xc) {
            self.i += 1;
        }
    }
    pub fn comma_wsp(&mut self) {
        self.wsp();
        if self.peek() == b',' {
            self.i += 1;
            self.wsp();
        }
    }
    /// `sign? (digits* "." digits+ | digits+) exponent?`
    pub fn number(&mut self) -> Option<f64> {
        let start = self.i;
        let mut j = self.i;
        let at = |j: usize| if j < self.s.len() { self.s[j] } else { 0 };
        if matches!(at(j), b'+' | b'-') {
            j += 1;
        }
        let mut int = 0;
        while at(j).is_ascii_digit() {
            j += 1;
            int += 1;
        }
        let mut frac = 0;
        if at(j) == b'.' && at(j + 1).is_ascii_digit() {
            j += 1;
            while at(j).is_ascii_digit() {
                j += 1;
                frac += 1;
            }
        }
        if int + frac == 0 {
            return None;
        }
        if matches!(at(j), b'e' | b'E') {
            let mut k = j + 1;
            if matches!(at(k), b'+' | b'-') {
                k += 1;
            }
            if at(k).is_ascii_digit() {
                while at(k).is_ascii_digit() {
                    k += 1;
                }
                j = k;
            }
        }
        let t = std::str::from_utf8(&self.s[start..j]).ok()?;
        self.i = j;
        t.parse().ok()
    }
    fn flag(&mut self) -> Option<f64> {
        match self.peek() {
            b'0' => {
                self.i += 1;
                Some(0.0)
            }
            b'1' => {
                self.i += 1;
                Some(1.0)
            }
            _ => None,
        }
    }
}

pub fn arity(cmd: u8) -> usize {
    match cmd | 32 {
        b'm' | b'l' | b't' => 2,
        b'h' | b'v' => 1,
        b'c' => 6,
        b's' | b'q' => 4,
        b'a' => 7,
        _ => 0,
    }
}

/// The commands before the first error, and whether the whole string was valid.
pub fn read(s: &[u8]) -> (Vec<Seg>, bool) {
    let mut r = Reader::new(s);
    let mut out: Vec<Seg> = vec![];
    r.wsp();
    while !r.end() {
        let c = r.peek();
        if !matches!(c | 32, b'm' | b'l' | b't' | b'h' | b'v' | b'c' | b's' | b'q' | b'a' | b'z')
            || !c.is_ascii_alphabetic()
        {
            return (out, false);
        }
        if out.is_empty() && c | 32 != b'm' {
            return (out, false);
        }
        r.i += 1;
        r.wsp();
        if c | 32 == b'z' {
            out.push(Seg { cmd: b'z', n: 0, a: [0.0; 7] });
            continue;
        }
        let n = arity(c);
        let mut cmd = c;
        let mut first = true;
        loop {
            let save = r.i;
            if !first {
                r.comma_wsp();
                // another argument sequence only if a number follows
                if !(r.peek().is_ascii_digit() || matches!(r.peek(), b'+' | b'-' | b'.')) {
                    let comma = r.s[save..r.i].contains(&b',');
                    if comma {
                        return (out, false);
                    }
                    break;
                }
            }
            let mut a = [0.0; 7];
            for (k, v) in a.iter_mut().enumerate().take(n) {
                if k > 0 {
                    r.comma_wsp();
                }
                let x = if n == 7 && (k == 3 || k == 4) { r.flag() } else { r.number() };
                match x {
                    Some(x) => *v = x,
                    None => return (out, false),
                }
            }
            out.push(Seg { cmd, n, a });
            if cmd == b'M' {
                cmd = b'L';
            }
            if cmd == b'm' {
                cmd = b'l';
            }
            first = false;
        }
        r.wsp();
    }
    (out, true)
}

/// Same commands with equal numbers; the comparison of numbers stays symbolic.
pub fn same(a: &[Seg], b: &[Seg]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= x.cmd == y.cmd && x.n == y.n;
        for k in 0..x.n {
            ok &= x.a[k] == y.a[k];
        }
    }
    ok
}
