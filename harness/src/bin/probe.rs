//! Prints what the real code makes of a document: probe none|default|safe|JSON < doc.
use std::io::Read;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let jobs = match a.get(1).map(|s| s.as_str()).unwrap_or("none") {
        "none" => oxvg_optimiser::Jobs::none(),
        "default" => oxvg_optimiser::Jobs::default(),
        "safe" => oxvg_optimiser::Jobs::safe(),
        j => serde_json::from_str(j).unwrap(),
    };
    match harness::opt::run(&jobs, &s) {
        Some(t) => {
            println!("{t}");
            if std::env::var("PIC").is_ok() {
                for env in [false, true] {
                    let (a, b) = (harness::svg::picture(&s, env).unwrap(), harness::svg::picture(&t, env).unwrap());
                    println!("same {}\n in: {}\nout: {}", harness::svg::same(&a, &b, 0.02), harness::svg::show(&a), harness::svg::show(&b));
                }
            }
        }
        None => println!("ERROR"),
    }
}
