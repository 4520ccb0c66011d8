use crate::sym;
use oxvg_ast::{parse::roxmltree::parse, serialize::Node as _, visitor::Info};
use oxvg_optimiser::Jobs;

pub fn run(jobs: &Jobs, s: &str) -> Option<String> {
    parse(s, |dom, allocator| {
        jobs.run(dom, &Info::new(allocator)).ok()?;
        dom.serialize().ok()
    })
    .ok()?
}

pub fn smoke() {
    let mut s = String::from(r#"<svg xmlns="http://www.w3.org/2000/svg"><g fill="red"><path id=""#);
    let a = sym::of(b"ab<&\"");
    s.push(a as char);
    s.push_str(r#"" d="M0 0L1"#);
    s.push(sym::byte(b'0', b'9') as char);
    s.push_str(r#" 10z"/></g><rect width="10" height="20" transform="translate(1"#);
    s.push(sym::byte(b'0', b'9') as char);
    s.push_str(r#")"/></svg>"#);
    let r = run(&Jobs::default(), &s);
    sym::cover(r.is_some() as u32);
    if let Some(r) = r {
        sym::log(&r);
    }
}
