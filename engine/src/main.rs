//! wsym: symbolic execution of a WebAssembly module with Z3.
mod exec;
mod expr;
mod mem;
mod ops;
mod solver;
mod wasm;
mod z3;

use serde_json::{Map, Value, json};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: f64| opt(n).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let wasm = opt("--wasm").expect("--wasm");
    let entry = opt("--entry").expect("--entry");
    let threads = num("--threads", 8.0) as usize;
    let budget = num("--budget-s", 60.0);
    let t0 = Instant::now();
    let bytes = std::fs::read(&wasm).expect("read wasm");
    let m = match wasm::Module::load(&bytes) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("wsym: cannot load {wasm}: {e}");
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let nimp = m.imports.len() as u32;
    let Some(f) = m.exports.get(&entry) else {
        eprintln!("wsym: no export {entry}");
        std::process::exit(3);
    };
    let f = *f - nimp;
    let sh = exec::Shared {
        jobs: Mutex::new((vec![exec::Job { model: vec![], decisions: 0 }], 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        tier: num("--tier", 0.0) as u32,
        max_violations: num("--max-violations", 1.0) as usize,
        workers: threads,
        deadline: Instant::now() + Duration::from_secs_f64(budget),
        violations: Mutex::new(vec![]),
        error: Mutex::new(None),
        known_tags: opt("--known")
            .map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect())
            .unwrap_or_default(),
        confirm_s: num("--confirm-s", 5.0),
        solver_ms: num("--solver-ms", 20_000.0) as u32,
        prof: args.iter().any(|a| a == "--prof"),
        log: args.iter().any(|a| a == "--log"),
        max_paths: num("--max-paths", 1e12) as u64,
        paths: AtomicU64::new(0),
        max_instrs: num("--max-instrs", 3e8) as u64,
        confirm: !args.iter().any(|a| a == "--no-confirm"),
        timed_out: AtomicBool::new(false),
        concrete: opt("--inputs").map(|p| {
            std::fs::read_to_string(p)
                .expect("read inputs")
                .split_whitespace()
                .map(|x| x.parse().unwrap())
                .collect()
        }),
    };
    let mut results = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || {
                        let mut w = exec::Worker::new(&m, &sh, sh.solver_ms);
                        w.work(f);
                        w.finish()
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => results.push(r),
                Err(_) => std::process::exit(3),
            }
        }
    });
    let mut exec = vec![false; m.funcs.len()];
    let mut symf = vec![false; m.funcs.len()];
    let mut o = Map::new();
    let mut covers = std::collections::BTreeMap::<u32, u64>::new();
    let mut known = std::collections::BTreeMap::<String, u64>::new();
    let mut sites = std::collections::BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut add = |k: &str, v: u64| {
        let e = o.entry(k.to_string()).or_insert(json!(0));
        *e = json!(e.as_u64().unwrap() + v);
    };
    let mut zt = 0.0;
    let mut zmax = 0.0f64;
    let mut maxv = 0;
    let mut maxd = 0;
    for (st, ex, sy) in &results {
        let mut v: Vec<_> = st.prof.iter().collect();
        v.sort_by(|a, b| b.1.1.total_cmp(&a.1.1));
        for (n, (c, t)) in v.iter().take(25) {
            eprintln!("{t:.3}s {c} {n}");
        }
        for (i, b) in ex.iter().enumerate() {
            exec[i] |= *b;
        }
        for (i, b) in sy.iter().enumerate() {
            symf[i] |= *b;
        }
        add("paths", st.paths_done);
        add("paths_pruned", st.paths_pruned);
        add("forks", st.forks);
        add("decisions", st.decisions);
        add("instructions", st.instrs);
        add("asserts", st.asserts);
        add("asserts_symbolic", st.asserts_symbolic);
        add("domain_sat", st.fd_sat);
        add("domain_unsat", st.fd_unsat);
        add("domain_unsat_confirmed", st.fd_confirmed);
        add("domain_unsat_unconfirmed", st.fd_unconfirmed);
        add("direct_encoding_crosschecks", st.direct_ok);
        add("query_cache_hits", st.cache_hits);
        add("z3_queries", st.z3_queries);
        add("z3_sat", st.z3_sat);
        add("z3_unsat", st.z3_unsat);
        add("z3_unknown", st.z3_unknown);
        zt += st.z3_time;
        zmax = zmax.max(st.z3_max);
        maxv = maxv.max(st.max_vars);
        maxd = maxd.max(st.max_depth);
        for (k, v) in &st.covers {
            *covers.entry(*k).or_default() += v;
        }
        for (k, v) in &st.known_hits {
            *known.entry(k.clone()).or_default() += v;
        }
        sites.extend(st.sym_sites.iter().copied());
        for s in &st.samples {
            if samples.len() < 6 {
                samples.push(json!(s.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()));
            }
        }
    }
    let names = |v: &[bool]| -> Vec<String> {
        let mut r: Vec<String> = v
            .iter()
            .enumerate()
            .filter(|(_, b)| **b)
            .map(|(i, _)| m.funcs[i].name.clone())
            .filter(|n| n.contains("oxvg"))
            .map(|n| strip_hash(&n))
            .collect();
        r.sort();
        r.dedup();
        r
    };
    let timed_out = sh.timed_out.load(Ordering::Relaxed);
    let err = sh.error.lock().unwrap().clone();
    let viols = sh.violations.lock().unwrap();
    let vj: Vec<Value> = viols
        .iter()
        .map(|v| {
            json!({
                "kind": v.kind, "msg": v.msg, "tag": v.tag,
                "inputs": v.inputs.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>(),
                "stack": v.stack,
            })
        })
        .collect();
    let fresh = viols.iter().any(|v| v.tag.is_none());
    let status = if fresh {
        "violation"
    } else if err.is_some() || timed_out {
        "inconclusive"
    } else {
        "complete"
    };
    o.insert("status".into(), json!(status));
    o.insert("error".into(), json!(err));
    o.insert("timed_out".into(), json!(timed_out));
    o.insert("entry".into(), json!(entry));
    o.insert("z3_version".into(), json!(z3::version()));
    o.insert("z3_time_s".into(), json!(zt));
    o.insert("z3_max_query_s".into(), json!(zmax));
    o.insert("symbolic_variables".into(), json!(maxv));
    o.insert("max_decisions_on_a_path".into(), json!(maxd));
    o.insert("symbolic_branch_sites".into(), json!(sites.len()));
    o.insert("load_s".into(), json!(load_s));
    o.insert("wall_s".into(), json!(t0.elapsed().as_secs_f64()));
    o.insert("covers".into(), json!(covers));
    o.insert("known_hits".into(), json!(known));
    o.insert("violations".into(), json!(vj));
    o.insert("samples".into(), json!(samples));
    o.insert("functions_executed".into(), json!(names(&exec)));
    o.insert("functions_symbolic".into(), json!(names(&symf)));
    let s = serde_json::to_string_pretty(&Value::Object(o)).unwrap();
    match opt("--out") {
        Some(p) => std::fs::write(p, s).expect("write result"),
        None => println!("{s}"),
    }
    std::process::exit(match status {
        "complete" => 0,
        "violation" => 1,
        _ => 2,
    });
}

fn strip_hash(n: &str) -> String {
    match n.rfind("::h") {
        Some(i) if n.len() - i == 19 => n[..i].to_string(),
        _ => n.to_string(),
    }
}
