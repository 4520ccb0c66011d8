//! P15: selectors match what CSS says.
use crate::css;
use crate::sym;
use oxvg_ast::parse::roxmltree::parse;
use roxmltree::Document;

fn indices(a: &Document, sel: &str) -> Option<Vec<usize>> {
    let sels = css::selectors(sel)?;
    Some(a.descendants().filter(|e| e.is_element()).enumerate().filter(|(_, e)| sels.iter().any(|s| css::matches(s, e, true))).map(|(i, _)| i).collect())
}

fn queried(s: &str, sel: &str) -> Option<Vec<usize>> {
    parse(s, |dom, _| {
        let all: Vec<_> = dom.breadth_first_elements();
        let order: Vec<_> = all.iter().map(|e| e.id()).collect();
        let root = dom.element()?;
        let found = root.select(sel).ok()?;
        Some(found.map(|e| order.iter().position(|o| *o == e.id()).unwrap_or(usize::MAX)).collect::<Vec<_>>())
    })
    .ok()?
}

trait Walk<'i, 'a> {
    fn breadth_first_elements(&'a self) -> Vec<oxvg_ast::element::Element<'i, 'a>>;
}
impl<'i, 'a> Walk<'i, 'a> for oxvg_ast::node::Node<'i, 'a> {
    /// the elements in document order
    fn breadth_first_elements(&'a self) -> Vec<oxvg_ast::element::Element<'i, 'a>> {
        let mut out = vec![];
        fn go<'i, 'a>(n: &'a oxvg_ast::node::Node<'i, 'a>, out: &mut Vec<oxvg_ast::element::Element<'i, 'a>>) {
            let mut c = n.first_child();
            while let Some(x) = c {
                if matches!(x.node_type(), oxvg_ast::node::Type::Element) {
                    out.extend(x.element());
                }
                go(x, out);
                c = if n.last_child() == Some(x) { None } else { x.next_sibling() };
            }
        }
        go(self, &mut out);
        out
    }
}

fn check(s: &str, sel: &str, what: &str) {
    sym::log(s);
    sym::log(sel);
    let Ok(a) = Document::parse(s) else {
        sym::check(false, "template isn't well-formed");
        return;
    };
    let Some(mut want) = indices(&a, sel) else {
        sym::check(false, &format!("oracle doesn't read: {what}"));
        return;
    };
    let Some(mut got) = queried(s, sel) else {
        sym::check(false, &format!("selector rejected: {what}"));
        return;
    };
    sym::cover(1);
    // parents before children, siblings in order
    let all: Vec<_> = a.descendants().filter(|e| e.is_element()).collect();
    for (i, x) in got.iter().enumerate() {
        for y in &got[i + 1..] {
            let (Some(x), Some(y)) = (all.get(*x), all.get(*y)) else { continue };
            let late = x.ancestors().skip(1).any(|u| u == *y) || (x.parent() == y.parent() && x.prev_siblings().skip(1).any(|u| u == *y));
            sym::check(!late, &format!("out of order: {what}"));
        }
    }
    want.sort();
    got.sort();
    sym::check(want == got, what);
}

const TREE: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:a='urn:a' id='r' class='k'><g id='i' class='k  m'><path class='m'/><!--c--><path id='p'><title/></path>text<rect class='k-m' a:id='z'/></g><linearGradient id='L'><stop/><stop class='K'/><stop foreignThing='u'/></linearGradient><a:g/><g><!--c--></g><g>x</g><path/><a href='#p'><path data-x='u-v w'/></a></svg>";

const COMPOUNDS: &[&str] = &[
    "g", "path", "stop", "linearGradient", "*", ".k", ".m", ".K", "#i", "#p", "#I", "[id]", "[class]", "[data-x]", "path.m", "g.k.m", ":first-child", ":last-child", ":only-child", ":empty", ":root", ":not(g)", ":not(.k,path)",
    ":nth-child(2)", ":nth-child(odd)", ":nth-child(2n+@)", ":nth-child(-n+@)", ":nth-last-child(@)", ":first-of-type", ":last-of-type", ":only-of-type", ":nth-of-type(@)", ":nth-last-of-type(2)", "[id=p]",
    "[class~=m]", "[class|=k]", "[class^=k]", "[class$=m]", "[class*=\"-\"]", "[data-x=\"u-v w\"]", "[data-x|=u]", "[foreignThing]", "[data-x=\"U-V W\" i]", ":not([id])", "a", ":nth-child(n+@)", "svg",
];

/// Every compound, alone and joined to every other.
pub fn pairs() {
    let n = sym::pick(5);
    let mut left = 1;
    let mut s = String::new();
    let a = sym::one(COMPOUNDS);
    crate::jobs::put_some(&mut s, a, &mut left);
    let mut what = a.to_string();
    if n > 0 {
        let b = sym::one(COMPOUNDS);
        let c = [" ", ">", " + ", "~"][n - 1];
        s.push_str(c);
        crate::jobs::put_some(&mut s, b, &mut left);
        what = format!("{a}{c}{b}");
    }
    check(TREE, s.trim(), &what);
}

/// Chains of three with every combinator, and lists.
pub fn chains() {
    let few = ["g", "*", ".m", "path", ":first-child", "svg"];
    let mut s = String::new();
    for k in 0..3 {
        if k > 0 {
            s.push_str(sym::one(&[" ", ">", "+", "~", ", "]));
        }
        s.push_str(sym::one(&few));
    }
    check(TREE, &s, &s.clone());
}

/// Symbolic characters in names and values on both sides.
pub fn symbols() {
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg'><g ");
    let abc = b"ab-";
    let mut v = |n: usize| -> String { (0..n).map(|_| sym::of(abc) as char).collect() };
    let (kind, what) = match sym::pick(9) {
        0 => (("class", "."), ".class"),
        1 => (("id", "#"), "#id"),
        2 => (("data-a", "[data-a="), "="),
        3 => (("data-a", "[data-a|="), "|="),
        4 => (("data-a", "[data-a^="), "^="),
        5 => (("data-a", "[data-a$="), "$="),
        6 => (("data-a", "[data-a*="), "*="),
        7 => (("data-a", "[data-a~="), "~="),
        _ => (("class", ":not(."), ":not"),
    };
    s.push_str(kind.0);
    s.push_str("='");
    s.push_str(&v(2));
    s.push_str(sym::one(&["", " ", "-"]));
    s.push_str(&v(1));
    s.push_str("'/><g/></svg>");
    let mut sel = String::from(kind.1);
    sel.push(sym::of(b"ab") as char);
    sel.push_str(&v(sym::pick(3)));
    if kind.1.starts_with('[') {
        sel.push(']');
    }
    if kind.1.starts_with(':') {
        sel.push(')');
    }
    check(&s, &sel, what);
}

/// Attributes whose values the toolchain interprets are matched as they are written.
pub fn typed() {
    let (name, v, w) = sym::one(&[
        ("fill", "#ff000@", "#ff000@"),
        ("width", "@px", "@px"),
        ("d", "M @ 0", "M @ 0"),
        ("transform", "scale(@, 1)", "scale(@, 1)"),
        ("style", "fill: red", "fill: red"),
        ("viewBox", "0,0,@,1", "0,0,@,1"),
    ]);
    let d = sym::byte(b'1', b'9') as char;
    let put = |t: &str| t.replace('@', d.encode_utf8(&mut [0; 4]));
    let (v, w) = (put(v), put(w));
    let s = format!("<svg xmlns='http://www.w3.org/2000/svg'><rect {name}='{v}'/><rect/></svg>");
    sym::known("P15-typed");
    check(&s, &format!("[{name}=\"{w}\"]"), name);
}
