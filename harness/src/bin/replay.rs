//! Replays recorded inputs against the natively compiled code.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::entry(&a[1]).expect("unknown entry");
    let v = std::fs::read_to_string(&a[2]).expect("inputs");
    let v: Vec<u64> = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
    harness::sym::init();
    // deep recursion in the code under test must not depend on the main thread's stack
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            harness::sym::set_inputs(v);
            f()
        }).unwrap().join().ok();
    println!("REPLAY-OK");
}
