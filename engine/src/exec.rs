//! The symbolic interpreter: one worker's exploration of paths.
use crate::expr::{Arena, BO, E, UO, mask};
use crate::mem::{Mem, Val};
use crate::ops::{self, B, U};
use crate::solver::{Res, Z3};
use crate::wasm::{L, Module, Op};
use rustc_hash::FxHashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub type Dom = [u64; 4];

#[derive(Clone, Copy)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub base: u32,
}

#[derive(Clone)]
pub struct VarInfo {
    pub e: E,
    pub w: u8,
    pub dom: Dom,
}

#[derive(Clone)]
pub struct State {
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub globals: Vec<Val>,
    pub mem: Mem,
    pub cons: Vec<E>,
    /// constraints over several variables
    pub multi: Vec<E>,
    pub vars: Vec<VarInfo>,
    pub model: Vec<u64>,
    pub known: FxHashMap<E, u64>,
    pub ndec: u32,
    pub replay_until: u32,
    pub tag: Option<String>,
    pub instrs: u64,
    pub asserts: u32,
}

/// A subtree of the exploration handed to another worker.
#[derive(Clone)]
pub struct Job {
    pub model: Vec<u64>,
    pub decisions: u32,
}

pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub tag: Option<String>,
    pub inputs: Vec<(u8, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_pruned: u64,
    pub forks: u64,
    pub decisions: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub fd_sat: u64,
    pub fd_unsat: u64,
    pub fd_confirmed: u64,
    pub fd_unconfirmed: u64,
    pub direct_ok: u64,
    pub cache_hits: u64,
    pub max_vars: u64,
    pub max_depth: u64,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_time: f64,
    pub z3_max: f64,
    pub covers: std::collections::BTreeMap<u32, u64>,
    pub known_hits: std::collections::BTreeMap<String, u64>,
    pub sym_sites: std::collections::BTreeSet<(u32, u32)>,
    pub samples: Vec<Vec<(u8, u64)>>,
    pub prof: std::collections::BTreeMap<String, (u64, f64)>,
}

pub struct Shared {
    pub jobs: Mutex<(Vec<Job>, usize)>, // queue, number of idle workers
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub tier: u32,
    pub max_violations: usize,
    pub workers: usize,
    pub deadline: Instant,
    pub violations: Mutex<Vec<Violation>>,
    pub error: Mutex<Option<String>>,
    pub known_tags: Vec<String>,
    pub log: bool,
    pub prof: bool,
    pub max_paths: u64,
    pub paths: std::sync::atomic::AtomicU64,
    pub max_instrs: u64,
    pub confirm: bool,
    /// seconds per worker for confirming multi-variable finite-domain verdicts
    pub confirm_s: f64,
    pub solver_ms: u32,
    pub timed_out: AtomicBool,
    /// concrete run: values returned for the inputs in order
    pub concrete: Option<Vec<u64>>,
}

pub struct Worker<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z3: Z3,
    pub sh: &'m Shared,
    pub st: Stats,
    pub exec: Vec<bool>,
    pub symf: Vec<bool>,
    pending: Vec<State>,
    cache: FxHashMap<Vec<u32>, Option<Vec<(u32, u64)>>>,
    confirm_left: f64,
    direct_left: f64,
    host: Vec<Host>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Host {
    Var,
    Assume,
    Assert,
    Panic,
    Conc,
    Cover,
    Known,
    Log,
    Tier,
    Unknown,
}

enum End {
    Done,
    Pruned,
    Violation(&'static str, String),
    Error(String),
    Stop,
}

enum Q {
    Sat(Vec<(u32, u64)>),
    Unsat,
}

const MAXVAL: usize = 70_000;

fn dom_count(d: &Dom) -> u64 {
    d.iter().map(|x| x.count_ones() as u64).sum()
}
fn dom_vals(d: &Dom) -> Vec<u64> {
    (0..256u64).filter(|x| d[(x >> 6) as usize] >> (x & 63) & 1 == 1).collect()
}

impl VarInfo {
    fn single(&self) -> bool {
        self.w == 8 && dom_count(&self.dom) == 1
    }
}

impl State {
    pub fn new(m: &Module, entry: u32) -> State {
        let mut mem = Mem::new(m.mem_pages);
        for (at, d) in &m.data {
            mem.write(*at as u64, d);
        }
        let f = &m.funcs[entry as usize];
        State {
            regs: vec![Val::default(); f.nregs as usize + 64],
            frames: vec![Frame { func: entry, pc: 0, base: 0 }],
            globals: m.globals.iter().map(|g| Val::c(*g)).collect(),
            mem,
            cons: vec![],
            multi: vec![],
            vars: vec![],
            model: vec![],
            known: Default::default(),
            ndec: 0,
            replay_until: 0,
            tag: None,
            instrs: 0,
            asserts: 0,
        }
    }
    pub fn inputs(&self) -> Vec<(u8, u64)> {
        self.vars.iter().enumerate().map(|(i, v)| (v.w, self.model[i] & mask(v.w))).collect()
    }
}

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, sh: &'m Shared, timeout_ms: u32) -> Worker<'m> {
        let host = m
            .imports
            .iter()
            .map(|(_, n, _)| match n.as_str() {
                "sym_var" => Host::Var,
                "sym_assume" => Host::Assume,
                "sym_assert" => Host::Assert,
                "sym_panic" => Host::Panic,
                "sym_conc" => Host::Conc,
                "sym_cover" => Host::Cover,
                "sym_known" => Host::Known,
                "sym_log" => Host::Log,
                "sym_tier" => Host::Tier,
                _ => Host::Unknown,
            })
            .collect();
        Worker {
            m,
            ar: Arena::new(),
            z3: Z3::new(timeout_ms),
            sh,
            st: Stats::default(),
            exec: vec![false; m.funcs.len()],
            symf: vec![false; m.funcs.len()],
            pending: vec![],
            cache: Default::default(),
            confirm_left: sh.confirm_s,
            direct_left: sh.confirm_s / 5.0,
            host,
        }
    }

    /// Takes jobs until the whole exploration is finished.
    pub fn work(&mut self, entry: u32) {
        let template = State::new(self.m, entry);
        loop {
            let job = {
                let mut g = self.sh.jobs.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        self.sh.cv.notify_all();
                        return;
                    }
                    if let Some(j) = g.0.pop() {
                        break j;
                    }
                    g.1 += 1;
                    self.sh.idle.fetch_add(1, Ordering::Relaxed);
                    if g.1 == self.sh.workers {
                        self.sh.stop.store(true, Ordering::Relaxed);
                        self.sh.cv.notify_all();
                        return;
                    }
                    g = self.sh.cv.wait(g).unwrap();
                    g.1 -= 1;
                    self.sh.idle.fetch_sub(1, Ordering::Relaxed);
                }
            };
            let mut st = template.clone();
            st.model = job.model;
            st.replay_until = job.decisions;
            self.pending.push(st);
            while let Some(mut st) = self.pending.pop() {
                match self.poll(&st) {
                    Ok(false) => {}
                    _ => return,
                }
                if self.ar.nodes.len() > 500_000 {
                    // start over with a fresh arena; the pending subtrees become jobs
                    let mut g = self.sh.jobs.lock().unwrap();
                    for s in self.pending.drain(..).chain([st]) {
                        g.0.push(Job { decisions: s.ndec.max(s.replay_until), model: s.model });
                    }
                    drop(g);
                    self.sh.cv.notify_all();
                    self.ar = Arena::new();
                    self.z3.renew();
                    self.cache.clear();
                    break;
                }
                self.share();
                let i0 = st.instrs;
                let end = self.run(&mut st);
                self.st.instrs += st.instrs - i0;
                self.st.max_vars = self.st.max_vars.max(st.vars.len() as u64);
                self.st.max_depth = self.st.max_depth.max(st.ndec as u64);
                self.st.asserts += st.asserts as u64;
                match end {
                    End::Done => {
                        self.st.paths_done += 1;
                        if self.st.samples.len() < 2 {
                            self.st.samples.push(st.inputs());
                        }
                        let n = self.sh.paths.fetch_add(1, Ordering::Relaxed);
                        if n + 1 >= self.sh.max_paths {
                            self.fail("path limit reached".into());
                        }
                    }
                    End::Pruned => self.st.paths_pruned += 1,
                    End::Violation(kind, msg) => {
                        self.st.paths_done += 1;
                        self.report(&st, kind, msg);
                    }
                    End::Error(e) => {
                        let stack = self.stack(&st);
                        self.fail(format!("{e} [in {}]", stack.join(" < ")))
                    }
                    End::Stop => return,
                }
            }
        }
    }

    fn fail(&self, msg: String) {
        let mut g = self.sh.error.lock().unwrap();
        if g.is_none() {
            *g = Some(msg);
        }
        self.sh.stop.store(true, Ordering::Relaxed);
        self.sh.cv.notify_all();
    }

    fn report(&mut self, st: &State, kind: &'static str, msg: String) {
        if let Some(t) = &st.tag
            && self.sh.known_tags.iter().any(|k| k == t)
        {
            *self.st.known_hits.entry(t.clone()).or_default() += 1;
            let mut g = self.sh.violations.lock().unwrap();
            if !g.iter().any(|v| v.tag.as_ref() == Some(t)) {
                let v = Violation {
                    kind,
                    msg,
                    tag: st.tag.clone(),
                    inputs: st.inputs(),
                    stack: self.stack(st),
                };
                g.push(v);
            }
            return;
        }
        let v =
            Violation { kind, msg, tag: None, inputs: st.inputs(), stack: self.stack(st) };
        let mut g = self.sh.violations.lock().unwrap();
        if !g.iter().any(|o| o.tag.is_none() && o.msg == v.msg) {
            g.push(v);
        }
        if g.iter().filter(|o| o.tag.is_none()).count() >= self.sh.max_violations {
            self.sh.stop.store(true, Ordering::Relaxed);
            self.sh.cv.notify_all();
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.func as usize].name.clone()).collect()
    }

    /// Hands the shallowest pending subtree to an idle worker.
    fn share(&mut self) {
        if self.sh.idle.load(Ordering::Relaxed) > 0 && !self.pending.is_empty() {
            let mut g = self.sh.jobs.lock().unwrap();
            while g.0.len() < g.1 && self.pending.len() > 1 {
                let s = self.pending.remove(0);
                g.0.push(Job { decisions: s.ndec.max(s.replay_until), model: s.model });
                self.sh.cv.notify_one();
            }
        }
    }

    // ---- constraints -------------------------------------------------------

    fn eval(&mut self, st: &State, e: E) -> u64 {
        let m = &st.model;
        self.ar.eval(e, &|i| m.get(i as usize).copied().unwrap_or(0))
    }

    /// Narrows a variable's domain by an implied constraint.
    fn add_dom(&mut self, st: &mut State, c: E) {
        if let crate::expr::N::Bin(BO::BAnd, a, b) = self.ar.nodes[c as usize] {
            self.add_dom(st, a);
            self.add_dom(st, b);
            return;
        }
        let sup = self.ar.sup[c as usize].clone();
        if sup.len() == 1 && st.vars[(sup[0] >> 16) as usize].w == 8 {
            let t = self.ar.truth(c);
            let d = &mut st.vars[(sup[0] >> 16) as usize].dom;
            for k in 0..4 {
                d[k] &= t[k];
            }
        }
    }

    fn add(&mut self, st: &mut State, c: E) {
        if self.ar.cst(c).is_some() {
            return;
        }
        if let crate::expr::N::Bin(BO::BAnd, a, b) = self.ar.nodes[c as usize] {
            self.add(st, a);
            self.add(st, b);
            return;
        }
        let sup = self.ar.sup[c as usize].clone();
        if sup.len() == 1 && st.vars[(sup[0] >> 16) as usize].w == 8 {
            let t = self.ar.truth(c);
            let d = &mut st.vars[(sup[0] >> 16) as usize].dom;
            for k in 0..4 {
                d[k] &= t[k];
            }
        } else {
            if st.multi.contains(&c) {
                return;
            }
            st.multi.push(c);
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
    }

    /// Is `extra` satisfiable together with the path condition?
    fn query(&mut self, st: &State, extra: E) -> Result<Q, String> {
        if let Some(v) = self.ar.cst(extra) {
            return Ok(if v != 0 { Q::Sat(vec![]) } else { Q::Unsat });
        }
        // close over the variables linked to `extra`
        let mut vars: Vec<u32> = self.ar.sup[extra as usize].iter().map(|v| v >> 16).collect();
        let mut slice: Vec<E> = vec![];
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut grown = false;
            for (i, c) in st.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = &self.ar.sup[*c as usize];
                if s.iter().any(|v| vars.contains(&(v >> 16))) {
                    used[i] = true;
                    slice.push(*c);
                    for v in s.iter() {
                        if !vars.contains(&(v >> 16)) {
                            vars.push(v >> 16);
                        }
                    }
                    grown = true;
                }
            }
            if !grown {
                break;
            }
        }
        vars.sort_unstable();
        slice.sort_unstable();
        let mut key: Vec<u32> = vec![extra];
        key.extend(&slice);
        key.push(u32::MAX);
        for v in &vars {
            let i = &st.vars[*v as usize];
            key.push(i.e);
            if i.w == 8 {
                for d in i.dom {
                    key.push(d as u32);
                    key.push((d >> 32) as u32);
                }
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(match r {
                Some(m) => Q::Sat(m.clone()),
                None => Q::Unsat,
            });
        }
        let r = self.query_uncached(st, extra, &vars, &slice)?;
        self.cache.insert(
            key,
            match &r {
                Q::Sat(m) => Some(m.clone()),
                Q::Unsat => None,
            },
        );
        Ok(r)
    }

    fn query_uncached(
        &mut self,
        st: &State,
        extra: E,
        vars: &[u32],
        slice: &[E],
    ) -> Result<Q, String> {
        // finite-domain decision when every variable is a small byte domain
        if vars.iter().all(|v| st.vars[*v as usize].w == 8) {
            let doms: Vec<Vec<u64>> =
                vars.iter().map(|v| dom_vals(&st.vars[*v as usize].dom)).collect();
            let prod: f64 = doms.iter().map(|d| d.len() as f64).product();
            if prod <= 30_000.0 {
                let r = if vars.len() == 1 {
                    // single variable: truth table
                    let t = self.ar.truth(extra);
                    let mut tabs = vec![t];
                    for c in slice {
                        tabs.push(self.ar.truth(*c));
                    }
                    doms[0]
                        .iter()
                        .find(|x| tabs.iter().all(|t| t[(**x >> 6) as usize] >> (**x & 63) & 1 == 1))
                        .map(|x| vec![(vars[0], *x)])
                } else {
                    let pv: Rc<[u32]> = vars
                        .iter()
                        .map(|v| self.ar.sup[st.vars[*v as usize].e as usize][0])
                        .collect();
                    if Arena::joint(&pv) <= 1 << 14 {
                        self.fd_bits(st, vars, &pv, slice, extra)
                    } else {
                        self.fd_search(vars, &doms, slice, extra)
                    }
                };
                return match r {
                    Some(m) => {
                        self.st.fd_sat += 1;
                        Ok(Q::Sat(m))
                    }
                    None => {
                        self.st.fd_unsat += 1;
                        if self.sh.confirm {
                            let cs = self.full_slice(st, vars, extra);
                            // confirmation with value tables for single-byte expressions
                            if self.confirm_left > 0.0 || vars.len() == 1 {
                                let t0 = Instant::now();
                                match self.z3.check(&mut self.ar, &cs, &[], true, 2000) {
                                    Res::Unsat => self.st.fd_confirmed += 1,
                                    Res::Unknown(_) => self.st.fd_unconfirmed += 1,
                                    Res::Sat(_) => {
                                        return Err(
                                            "solver disagreement on an infeasible branch".into()
                                        );
                                    }
                                }
                                if vars.len() > 1 {
                                    self.confirm_left -= t0.elapsed().as_secs_f64();
                                }
                            } else {
                                self.st.fd_unconfirmed += 1;
                            }
                            // cross-check of the operator semantics without tables
                            if self.direct_left > 0.0 {
                                let t0 = Instant::now();
                                match self.z3.check(&mut self.ar, &cs, &[], false, 1000) {
                                    Res::Unsat => self.st.direct_ok += 1,
                                    Res::Unknown(_) => {}
                                    Res::Sat(_) => {
                                        return Err(
                                            "solver disagreement on operator semantics".into()
                                        );
                                    }
                                }
                                self.direct_left -= t0.elapsed().as_secs_f64();
                            }
                        } else {
                            self.st.fd_unconfirmed += 1;
                        }
                        Ok(Q::Unsat)
                    }
                };
            }
        }
        let cs = self.full_slice(st, vars, extra);
        let vs: Vec<(u32, E)> = vars.iter().map(|v| (*v, st.vars[*v as usize].e)).collect();
        match self.z3.check(&mut self.ar, &cs, &vs, true, self.sh.solver_ms) {
            Res::Unsat => Ok(Q::Unsat),
            Res::Unknown(r) => Err(format!("solver returned unknown: {r}")),
            Res::Sat(m) => {
                // never trust a model that does not satisfy our own semantics
                let base = st.model.clone();
                let env = |i: u32| {
                    m.iter()
                        .find(|p| p.0 == i)
                        .map(|p| p.1)
                        .unwrap_or_else(|| base.get(i as usize).copied().unwrap_or(0))
                };
                for c in &cs {
                    if self.ar.eval(*c, &env) == 0 {
                        return Err("solver model rejected by the evaluator".into());
                    }
                }
                Ok(Q::Sat(m))
            }
        }
    }

    fn full_slice(&mut self, st: &State, vars: &[u32], extra: E) -> Vec<E> {
        let mut cs: Vec<E> = st
            .cons
            .iter()
            .copied()
            .filter(|c| self.ar.sup[*c as usize].iter().any(|v| vars.contains(&(v >> 16))))
            .collect();
        cs.push(extra);
        cs
    }

    /// Search over the joint value table of the variables.
    fn fd_bits(
        &mut self,
        st: &State,
        vars: &[u32],
        pv: &Rc<[u32]>,
        slice: &[E],
        extra: E,
    ) -> Option<Vec<(u32, u64)>> {
        let mut s: Vec<u64> = self.ar.truth_bits(extra, pv).to_vec();
        for c in slice {
            let t = self.ar.truth_bits(*c, pv);
            let mut any = 0;
            for (x, y) in s.iter_mut().zip(t.iter()) {
                *x &= y;
                any |= *x;
            }
            if any == 0 {
                return None;
            }
        }
        // the remaining combinations, filtered by the single-variable domains
        for (k, word) in s.iter().enumerate() {
            let mut word = *word;
            while word != 0 {
                let mut i = k * 64 + word.trailing_zeros() as usize;
                word &= word - 1;
                let mut m = vec![];
                let mut ok = true;
                for (v, p) in vars.iter().zip(pv.iter()).rev() {
                    let (lo, hi) = ((p >> 8 & 255) as usize, (p & 255) as usize);
                    let x = lo + i % (hi - lo + 1);
                    i /= hi - lo + 1;
                    ok &= st.vars[*v as usize].dom[x >> 6] >> (x & 63) & 1 == 1;
                    m.push((*v, x as u64));
                }
                if ok {
                    m.reverse();
                    return Some(m);
                }
            }
        }
        None
    }

    fn fd_search(
        &mut self,
        vars: &[u32],
        doms: &[Vec<u64>],
        slice: &[E],
        extra: E,
    ) -> Option<Vec<(u32, u64)>> {
        // constraints indexed by the last variable (in order) they need
        let mut at: Vec<Vec<E>> = vec![vec![]; vars.len()];
        for c in slice.iter().chain(std::iter::once(&extra)) {
            let last = self.ar.sup[*c as usize]
                .iter()
                .map(|v| vars.iter().position(|x| *x == v >> 16).unwrap())
                .max()
                .unwrap_or(0);
            at[last].push(*c);
        }
        let mut cur = vec![0u64; vars.len()];
        fn go(
            ar: &mut Arena,
            i: usize,
            vars: &[u32],
            doms: &[Vec<u64>],
            at: &[Vec<E>],
            cur: &mut Vec<u64>,
        ) -> bool {
            if i == vars.len() {
                return true;
            }
            for k in 0..doms[i].len() {
                cur[i] = doms[i][k];
                let ok = {
                    let c: &Vec<u64> = cur;
                    let env = |id: u32| match vars.iter().position(|x| *x == id) {
                        Some(p) => c[p],
                        None => 0,
                    };
                    ar.begin_eval();
                    let mut ok = true;
                    for e in &at[i] {
                        if ar.eval_go(*e, &env) == 0 {
                            ok = false;
                            break;
                        }
                    }
                    ok
                };
                if ok && go(ar, i + 1, vars, doms, at, cur) {
                    return true;
                }
            }
            false
        }
        if go(&mut self.ar, 0, vars, doms, &at, &mut cur) {
            Some(vars.iter().copied().zip(cur).collect())
        } else {
            None
        }
    }

    fn with_model(&self, st: &State, m: &[(u32, u64)]) -> Vec<u64> {
        let mut r = st.model.clone();
        for (i, v) in m {
            r[*i as usize] = *v;
        }
        r
    }

    fn mark(&mut self, st: &State) {
        let f = st.frames.last().unwrap();
        self.symf[f.func as usize] = true;
        if self.st.sym_sites.len() < 100_000 {
            self.st.sym_sites.insert((f.func, f.pc));
        }
    }

    /// Decides a symbolic condition. Returns the direction this state follows and,
    /// when the other one is feasible as well, a state constrained to it.
    fn decide(&mut self, st: &mut State, cond: E) -> Result<(bool, Option<State>), String> {
        if let Some(v) = self.fixed(st, cond) {
            return Ok((v != 0, None));
        }
        if let Some(v) = st.known.get(&cond) {
            return Ok((*v != 0, None));
        }
        self.mark(st);
        let dir = self.eval(st, cond) != 0;
        st.ndec += 1;
        self.st.decisions += 1;
        let neg = self.ar.not(cond);
        st.known.insert(cond, dir as u64);
        st.known.insert(neg, !dir as u64);
        let (mine, other) = if dir { (cond, neg) } else { (neg, cond) };
        if st.ndec <= st.replay_until {
            self.add(st, mine);
            return Ok((dir, None));
        }
        let qt = Instant::now();
        let qr = self.query(st, other)?;
        if self.sh.prof {
            let f = st.frames.last().unwrap();
            let n = format!("{} pc{} sup{} {}", self.m.funcs[f.func as usize].name, f.pc, self.ar.sup[cond as usize].len(), if matches!(qr, Q::Unsat) {"u"} else {"s"});
            let e = self.st.prof.entry(n).or_default();
            e.0 += 1;
            e.1 += qt.elapsed().as_secs_f64();
        }
        match qr {
            Q::Unsat => {
                self.add_dom(st, mine);
                Ok((dir, None))
            }
            Q::Sat(m) => {
                let mut o = st.clone();
                o.model = self.with_model(st, &m);
                o.known.insert(cond, !dir as u64);
                o.known.insert(neg, dir as u64);
                self.add(&mut o, other);
                self.add(st, mine);
                self.st.forks += 1;
                Ok((dir, Some(o)))
            }
        }
    }

    /// Makes an expression concrete, forking one state per feasible value. The
    /// forked states re-execute the current instruction.
    fn conc(&mut self, st: &mut State, e: E) -> Result<u64, String> {
        if let Some(v) = self.fixed(st, e) {
            return Ok(v);
        }
        if let Some(v) = st.known.get(&e) {
            return Ok(*v);
        }
        self.mark(st);
        let w = self.ar.width(e);
        let v = self.eval(st, e);
        let kv = self.ar.k(v, w);
        let eq = self.ar.bin(BO::Eq, e, kv);
        st.ndec += 1;
        self.st.decisions += 1;
        if st.ndec <= st.replay_until {
            self.add(st, eq);
            st.known.insert(e, v);
            return Ok(v);
        }
        let mut others: Vec<(u64, Vec<u64>)> = vec![];
        let mut ne = self.ar.not(eq);
        loop {
            match self.query(st, ne)? {
                Q::Unsat => break,
                Q::Sat(m) => {
                    let model = self.with_model(st, &m);
                    let x = self.ar.eval(e, &|i| model.get(i as usize).copied().unwrap_or(0));
                    let kx = self.ar.k(x, w);
                    let q = self.ar.bin(BO::Eq, e, kx);
                    let nq = self.ar.not(q);
                    ne = self.ar.bin(BO::BAnd, ne, nq);
                    others.push((x, model));
                    if others.len() > MAXVAL {
                        return Err("too many values for a symbolic quantity".into());
                    }
                }
            }
        }
        for (x, model) in others {
            let mut o = st.clone();
            o.model = model;
            let kx = self.ar.k(x, w);
            let q = self.ar.bin(BO::Eq, e, kx);
            self.add(&mut o, q);
            o.known.insert(e, x);
            self.st.forks += 1;
            self.pending.push(o);
        }
        self.add(st, eq);
        st.known.insert(e, v);
        Ok(v)
    }

    fn concv(&mut self, st: &mut State, v: Val) -> Result<u64, String> {
        if v.e == 0 { Ok(v.c) } else { self.conc(st, v.e) }
    }

    // ---- symbolic operators ------------------------------------------------

    fn ex(&mut self, v: Val, w: u8) -> E {
        if v.e == 0 {
            self.ar.k(v.c, w)
        } else {
            self.fit(v.e, w)
        }
    }
    /// Adjusts a value whose width could not be inferred (selects of constants).
    fn fit(&mut self, e: E, w: u8) -> E {
        let ew = self.ar.width(e);
        if ew > w {
            self.ar.extract(e, 0, w)
        } else if ew < w {
            self.ar.un(UO::Zext, e, w)
        } else {
            e
        }
    }
    /// The value of an expression whose variables have a single value left.
    fn fixed(&mut self, st: &State, e: E) -> Option<u64> {
        if let Some(v) = self.ar.cst(e) {
            return Some(v);
        }
        let sup = &self.ar.sup[e as usize];
        if sup.iter().all(|v| st.vars[(*v >> 16) as usize].single()) {
            return Some(self.eval(st, e));
        }
        None
    }
    fn simp(&mut self, st: &State, v: Val) -> Val {
        if v.e == 0 {
            return v;
        }
        match self.fixed(st, v.e) {
            Some(x) => Val::c(x),
            None => match st.known.get(&v.e) {
                Some(x) => Val::c(*x),
                None => v,
            },
        }
    }
    fn val(&mut self, e: E) -> Val {
        match self.ar.cst(e) {
            Some(v) => Val::c(v),
            None => Val { c: 0, e },
        }
    }
    fn cond(&mut self, v: Val) -> E {
        if v.e == 0 {
            return self.ar.k((v.c != 0) as u64, 1);
        }
        let w = self.ar.width(v.e);
        let z = self.ar.k(0, w);
        let q = self.ar.bin(BO::Eq, v.e, z);
        self.ar.not(q)
    }

    fn sym_bin(&mut self, op: B, a: Val, b: Val) -> Val {
        use B::*;
        let w: u8 = match op {
            Add32 | Sub32 | Mul32 | DivS32 | DivU32 | RemS32 | RemU32 | And32 | Or32 | Xor32
            | Shl32 | ShrS32 | ShrU32 | Rotl32 | Rotr32 | Eq32 | Ne32 | LtS32 | LtU32 | GtS32
            | GtU32 | LeS32 | LeU32 | GeS32 | GeU32 | FAdd32 | FSub32 | FMul32 | FDiv32
            | FMin32 | FMax32 | FCopy32 | FEq32 | FNe32 | FLt32 | FGt32 | FLe32 | FGe32 => 32,
            _ => 64,
        };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let arith = |ar: &mut Arena, o| ar.bin(o, x, y);
        let cmp = |ar: &mut Arena, o, x, y, neg: bool| {
            let mut r = ar.bin(o, x, y);
            if neg {
                r = ar.not(r);
            }
            ar.un(UO::B2I, r, 32)
        };
        let shift = |ar: &mut Arena, o| {
            let k = ar.k(w as u64 - 1, w);
            let y = ar.bin(BO::And, y, k);
            ar.bin(o, x, y)
        };
        let r = match op {
            Add32 | Add64 => arith(ar, BO::Add),
            Sub32 | Sub64 => arith(ar, BO::Sub),
            Mul32 | Mul64 => arith(ar, BO::Mul),
            DivS32 | DivS64 => arith(ar, BO::SDiv),
            DivU32 | DivU64 => arith(ar, BO::UDiv),
            RemS32 | RemS64 => arith(ar, BO::SRem),
            RemU32 | RemU64 => arith(ar, BO::URem),
            And32 | And64 => arith(ar, BO::And),
            Or32 | Or64 => arith(ar, BO::Or),
            Xor32 | Xor64 => arith(ar, BO::Xor),
            Shl32 | Shl64 => shift(ar, BO::Shl),
            ShrS32 | ShrS64 => shift(ar, BO::AShr),
            ShrU32 | ShrU64 => shift(ar, BO::LShr),
            Rotl32 | Rotl64 => shift(ar, BO::Rotl),
            Rotr32 | Rotr64 => shift(ar, BO::Rotr),
            Eq32 | Eq64 => cmp(ar, BO::Eq, x, y, false),
            Ne32 | Ne64 => cmp(ar, BO::Eq, x, y, true),
            LtS32 | LtS64 => cmp(ar, BO::Slt, x, y, false),
            LtU32 | LtU64 => cmp(ar, BO::Ult, x, y, false),
            GtS32 | GtS64 => cmp(ar, BO::Slt, y, x, false),
            GtU32 | GtU64 => cmp(ar, BO::Ult, y, x, false),
            LeS32 | LeS64 => cmp(ar, BO::Slt, y, x, true),
            LeU32 | LeU64 => cmp(ar, BO::Ult, y, x, true),
            GeS32 | GeS64 => cmp(ar, BO::Slt, x, y, true),
            GeU32 | GeU64 => cmp(ar, BO::Ult, x, y, true),
            FAdd32 | FAdd64 => arith(ar, BO::FAdd),
            FSub32 | FSub64 => arith(ar, BO::FSub),
            FMul32 | FMul64 => arith(ar, BO::FMul),
            FDiv32 | FDiv64 => arith(ar, BO::FDiv),
            FMin32 | FMin64 => arith(ar, BO::FMin),
            FMax32 | FMax64 => arith(ar, BO::FMax),
            FCopy32 | FCopy64 => arith(ar, BO::FCopy),
            FEq32 | FEq64 => cmp(ar, BO::FEq, x, y, false),
            FNe32 | FNe64 => cmp(ar, BO::FEq, x, y, true),
            FLt32 | FLt64 => cmp(ar, BO::FLt, x, y, false),
            FGt32 | FGt64 => cmp(ar, BO::FLt, y, x, false),
            FLe32 | FLe64 => cmp(ar, BO::FLe, x, y, false),
            FGe32 | FGe64 => cmp(ar, BO::FLe, y, x, false),
        };
        self.val(r)
    }

    fn sym_un(&mut self, op: U, a: Val) -> Val {
        let x = self.fit(a.e, width_of_un(op));
        if let Some(v) = self.ar.cst(x) {
            return Val::c(ops::un(op, v));
        }
        let ar = &mut self.ar;
        let eqz = |ar: &mut Arena| {
            let w = ar.width(x);
            let z = ar.k(0, w);
            let q = ar.bin(BO::Eq, x, z);
            ar.un(UO::B2I, q, 32)
        };
        let ext = |ar: &mut Arena, n: u8, w: u8| {
            let l = ar.extract(x, 0, n);
            ar.un(UO::Sext, l, w)
        };
        use U::*;
        let r = match op {
            Clz32 => ar.un(UO::Clz, x, 32),
            Ctz32 => ar.un(UO::Ctz, x, 32),
            Popcnt32 => ar.un(UO::Popcnt, x, 32),
            Clz64 => ar.un(UO::Clz, x, 64),
            Ctz64 => ar.un(UO::Ctz, x, 64),
            Popcnt64 => ar.un(UO::Popcnt, x, 64),
            Eqz32 | Eqz64 => eqz(ar),
            Ext8S32 => ext(ar, 8, 32),
            Ext16S32 => ext(ar, 16, 32),
            Ext8S64 => ext(ar, 8, 64),
            Ext16S64 => ext(ar, 16, 64),
            Ext32S64 => ext(ar, 32, 64),
            Wrap => ar.extract(x, 0, 32),
            ExtS => ar.un(UO::Sext, x, 64),
            ExtU => ar.un(UO::Zext, x, 64),
            FAbs32 => ar.un(UO::FAbs, x, 32),
            FNeg32 => ar.un(UO::FNeg, x, 32),
            FCeil32 => ar.un(UO::FCeil, x, 32),
            FFloor32 => ar.un(UO::FFloor, x, 32),
            FTrunc32 => ar.un(UO::FTrunc, x, 32),
            FNearest32 => ar.un(UO::FNearest, x, 32),
            FSqrt32 => ar.un(UO::FSqrt, x, 32),
            FAbs64 => ar.un(UO::FAbs, x, 64),
            FNeg64 => ar.un(UO::FNeg, x, 64),
            FCeil64 => ar.un(UO::FCeil, x, 64),
            FFloor64 => ar.un(UO::FFloor, x, 64),
            FTrunc64 => ar.un(UO::FTrunc, x, 64),
            FNearest64 => ar.un(UO::FNearest, x, 64),
            FSqrt64 => ar.un(UO::FSqrt, x, 64),
            Sat32SF32 | Sat32SF64 | T32SF32 | T32SF64 => ar.un(UO::ToS, x, 32),
            Sat32UF32 | Sat32UF64 | T32UF32 | T32UF64 => ar.un(UO::ToU, x, 32),
            Sat64SF32 | Sat64SF64 | T64SF32 | T64SF64 => ar.un(UO::ToS, x, 64),
            Sat64UF32 | Sat64UF64 | T64UF32 | T64UF64 => ar.un(UO::ToU, x, 64),
            F32S32 | F32S64 => ar.un(UO::FromS, x, 32),
            F32U32 | F32U64 => ar.un(UO::FromU, x, 32),
            F64S32 | F64S64 => ar.un(UO::FromS, x, 64),
            F64U32 | F64U64 => ar.un(UO::FromU, x, 64),
            Demote => ar.un(UO::Demote, x, 32),
            Promote => ar.un(UO::Promote, x, 64),
        };
        self.val(r)
    }

    fn widen(&mut self, e: E, k: L, to64: bool) -> Val {
        let w = if to64 { 64 } else { 32 };
        let r = match k {
            L::I32 | L::I64 => e,
            L::U8 | L::U16 | L::U32x64 => self.ar.un(UO::Zext, e, w),
            _ => self.ar.un(UO::Sext, e, w),
        };
        self.val(r)
    }

    fn load(&mut self, st: &mut State, k: L, to64: bool, addr: u64) -> Val {
        let n = k.size();
        match st.mem.load_c(addr, n) {
            Some(v) => Val::c(fix_load(k, v)),
            None => {
                let e = st.mem.load_s(&mut self.ar, addr, n);
                self.widen(e, k, to64)
            }
        }
    }

    /// Load through a symbolic address.
    fn load_at(
        &mut self,
        st: &mut State,
        k: L,
        to64: bool,
        a: E,
        off: u32,
    ) -> Result<Option<Val>, String> {
        let n = k.size() as u64;
        if !st.known.contains_key(&a) {
            // small table of concrete bytes: keep the load symbolic
            let sup: Vec<u32> = self.ar.sup[a as usize].iter().map(|v| v >> 16).collect();
            let sizes: f64 = sup
                .iter()
                .map(|v| {
                    let i = &st.vars[*v as usize];
                    if i.w == 8 { dom_count(&i.dom) as f64 } else { 1e9 }
                })
                .product();
            if sizes <= 256.0 {
                // over-approximating the address set is harmless for in-bounds reads
                let doms: Vec<Vec<u64>> =
                    sup.iter().map(|v| dom_vals(&st.vars[*v as usize].dom)).collect();
                let mut idx = vec![0usize; sup.len()];
                let mut table: Vec<(u64, u64)> = vec![];
                let mut ok = true;
                'all: loop {
                    let addr = {
                        let env = |id: u32| {
                            let p = sup.iter().position(|x| *x == id).unwrap();
                            doms[p][idx[p]]
                        };
                        self.ar.eval(a, &env)
                    };
                    let ea = addr + off as u64;
                    if ea + n > st.mem.bytes() {
                        ok = false;
                        break;
                    }
                    match st.mem.load_c(ea, n as u32) {
                        Some(v) => table.push((addr, v)),
                        None => {
                            ok = false;
                            break;
                        }
                    }
                    let mut p = 0;
                    loop {
                        if p == idx.len() {
                            break 'all;
                        }
                        idx[p] += 1;
                        if idx[p] < doms[p].len() {
                            break;
                        }
                        idx[p] = 0;
                        p += 1;
                    }
                }
                if ok {
                    table.sort_unstable();
                    table.dedup();
                    let e = self.ar.lookup(a, table, (8 * n) as u8);
                    return Ok(Some(match self.ar.cst(e) {
                        Some(v) => Val::c(fix_load(k, v)),
                        None => self.widen(e, k, to64),
                    }));
                }
            }
        }
        Ok(None)
    }

    // ---- interpreter -------------------------------------------------------

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for k in 0..n.min(4096) {
            if p + k >= st.mem.bytes() {
                break;
            }
            let (c, s) = st.mem.byte(p + k);
            v.push(match s {
                Some((e, i)) => (self.eval(st, e) >> (8 * i)) as u8,
                None => c,
            });
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn run(&mut self, st: &mut State) -> End {
        match self.run_inner(st) {
            Ok(e) => e,
            Err(e) => End::Error(e),
        }
    }

    fn poll(&mut self, st: &State) -> Result<bool, String> {
        if self.sh.stop.load(Ordering::Relaxed) {
            return Ok(true);
        }
        if Instant::now() > self.sh.deadline {
            self.sh.timed_out.store(true, Ordering::Relaxed);
            self.sh.stop.store(true, Ordering::Relaxed);
            self.sh.cv.notify_all();
            return Ok(true);
        }
        if st.instrs > self.sh.max_instrs {
            return Err("instruction limit on one path".into());
        }
        Ok(false)
    }

    fn run_inner(&mut self, st: &mut State) -> Result<End, String> {
        let m = self.m;
        let nimp = m.imports.len() as u32;
        let mut fr = *st.frames.last().unwrap();
        let mut code: &[Op] = &m.funcs[fr.func as usize].code;
        let mut pc = fr.pc as usize;
        let mut base = fr.base as usize;
        self.exec[fr.func as usize] = true;
        let mut count: u64 = 0;
        let mut next_poll = st.instrs + 1_000_000;
        macro_rules! r {
            ($i:expr) => {
                *unsafe { st.regs.get_unchecked(base + $i as usize) }
            };
        }
        macro_rules! w {
            ($i:expr, $v:expr) => {{
                let v = $v;
                *unsafe { st.regs.get_unchecked_mut(base + $i as usize) } = v;
            }};
        }
        macro_rules! sync {
            () => {{
                let f = st.frames.last_mut().unwrap();
                f.pc = pc as u32;
                st.instrs += count;
                count = 0;
            }};
        }
        macro_rules! viol {
            ($k:expr, $m:expr) => {{
                sync!();
                let _ = count;
                return Ok(End::Violation($k, $m));
            }};
        }
        loop {
            count += 1;
            if count & 0xfffff == 0 {
                sync!();
                if self.poll(st)? {
                    return Ok(End::Stop);
                }
            }
            let op = unsafe { *code.get_unchecked(pc) };
            match op {
                Op::Const { d, v } => w!(d, Val::c(v)),
                Op::Copy { d, s } => w!(d, r!(s)),
                Op::Bin { op, d, a, b } => {
                    let (x, y) = (r!(a), r!(b));
                    let div = is_div(op);
                    if x.e | y.e == 0 && !div {
                        w!(d, Val::c(ops::bin(op, x.c, y.c)));
                    } else {
                        sync!();
                        if div && let Some(v) = self.div_check(st, op, x, y)? {
                            return Ok(v);
                        }
                        let v = if x.e | y.e == 0 {
                            Val::c(ops::bin(op, x.c, y.c))
                        } else {
                            self.sym_bin(op, x, y)
                        };
                        let v = self.simp(st, v);
                        w!(d, v);
                    }
                }
                Op::BinI { op, d, a, v } => {
                    let x = r!(a);
                    let div = is_div(op);
                    if x.e == 0 && !div {
                        w!(d, Val::c(ops::bin(op, x.c, v)));
                    } else {
                        let y = Val::c(v);
                        sync!();
                        if div && let Some(v) = self.div_check(st, op, x, y)? {
                            return Ok(v);
                        }
                        let v = if x.e == 0 {
                            Val::c(ops::bin(op, x.c, v))
                        } else {
                            self.sym_bin(op, x, y)
                        };
                        let v = self.simp(st, v);
                        w!(d, v);
                    }
                }
                Op::Un { op, d, a } => {
                    let x = r!(a);
                    if x.e == 0 {
                        w!(d, Val::c(ops::un(op, x.c)));
                    } else {
                        let v = self.sym_un(op, x);
                        let v = self.simp(st, v);
                        w!(d, v);
                    }
                }
                Op::Select { d, c, a, b } => {
                    let k = r!(c);
                    if k.e == 0 {
                        let v = if k.c != 0 { r!(a) } else { r!(b) };
                        w!(d, v);
                    } else {
                        let (x, y) = (r!(a), r!(b));
                        let c = self.cond(k);
                        // widths follow whichever operand is symbolic
                        let wd = if x.e != 0 {
                            self.ar.width(x.e)
                        } else if y.e != 0 {
                            self.ar.width(y.e)
                        } else if x.c >> 32 != 0 || y.c >> 32 != 0 {
                            64
                        } else {
                            0
                        };
                        if wd == 0 {
                            // concrete operands of unknown width: decided by the next use
                            let wd = self.select_width(code, pc, d);
                            let (p, q) = (self.ar.k(x.c, wd), self.ar.k(y.c, wd));
                            let e = self.ar.ite(c, p, q);
                            let v = self.val(e);
                            w!(d, v);
                        } else {
                            let (p, q) = (self.ex(x, wd), self.ex(y, wd));
                            let e = self.ar.ite(c, p, q);
                            let v = self.val(e);
                            w!(d, v);
                        }
                    }
                }
                Op::Load { k, to64, d, a, off } => {
                    let x = r!(a);
                    let addr = if x.e == 0 {
                        x.c
                    } else {
                        sync!();
                        if let Some(v) = self.load_at(st, k, to64, x.e, off)? {
                            w!(d, v);
                            pc += 1;
                            continue;
                        }
                        self.conc(st, x.e)?
                    };
                    let ea = addr + off as u64;
                    if ea + k.size() as u64 > st.mem.bytes() {
                        viol!("trap", "out of bounds load".into());
                    }
                    match st.mem.load_c(ea, k.size()) {
                        Some(v) => w!(d, Val::c(fix_load(k, v))),
                        None => {
                            let v = self.load(st, k, to64, ea);
                            let v = self.simp(st, v);
                            w!(d, v);
                        }
                    }
                }
                Op::Store { n, a, s, off } => {
                    let x = r!(a);
                    let addr = if x.e == 0 {
                        x.c
                    } else {
                        sync!();
                        self.conc(st, x.e)?
                    };
                    let ea = addr + off as u64;
                    if ea + n as u64 > st.mem.bytes() {
                        viol!("trap", "out of bounds store".into());
                    }
                    let v = r!(s);
                    if v.e == 0 {
                        st.mem.store_c(ea, n as u32, v.c);
                    } else {
                        let e = self.fit(v.e, n * 8);
                        st.mem.store_s(&mut self.ar, ea, n as u32, e);
                    }
                }
                Op::GlobalGet { d, g } => w!(d, st.globals[g as usize]),
                Op::GlobalSet { s, g } => st.globals[g as usize] = r!(s),
                Op::Br { t } => {
                    pc = t as usize;
                    continue;
                }
                Op::BrZ { c, t } | Op::BrNZ { c, t } => {
                    let on = matches!(op, Op::BrNZ { .. });
                    let v = r!(c);
                    let taken = if v.e == 0 {
                        (v.c as u32 != 0) == on
                    } else {
                        sync!();
                        let c = self.cond(v);
                        let (dir, other) = self.decide(st, c)?;
                        if let Some(mut o) = other {
                            let ot = (!dir) == on;
                            o.frames.last_mut().unwrap().pc =
                                if ot { t } else { pc as u32 + 1 };
                            self.pending.push(o);
                        }
                        dir == on
                    };
                    if taken {
                        pc = t as usize;
                        continue;
                    }
                }
                Op::BrTable { c, start, n } => {
                    let v = r!(c);
                    let k = if v.e == 0 {
                        v.c as u32
                    } else {
                        sync!();
                        self.br_table(st, v.e, start, n)?
                    };
                    let k = k.min(n - 1);
                    pc = m.br_targets[(start + k) as usize] as usize;
                    continue;
                }
                Op::Call { .. } | Op::CallInd { .. } => {
                    let (f, at) = match op {
                        Op::Call { f, at } => (f, at),
                        Op::CallInd { i, ty, at } => {
                            let v = r!(i);
                            let k = if v.e == 0 {
                                v.c
                            } else {
                                sync!();
                                self.conc(st, v.e)?
                            };
                            let Some(Some(f)) = m.table.get(k as usize) else {
                                viol!("trap", "bad indirect call".into());
                            };
                            let fty = if *f < nimp {
                                m.imports[*f as usize].2
                            } else {
                                m.funcs[(*f - nimp) as usize].ty
                            };
                            if m.types[fty as usize] != m.types[ty as usize] {
                                viol!("trap", "indirect call type mismatch".into());
                            }
                            (*f, at)
                        }
                        _ => unreachable!(),
                    };
                    if f < nimp {
                        sync!();
                        let b = base + at as usize;
                        if let Some(end) = self.hostcall(st, f, b)? {
                            return Ok(end);
                        }
                        pc += 1;
                        continue;
                    }
                    sync!();
                    if st.instrs >= next_poll {
                        next_poll = st.instrs + 1_000_000;
                        if self.poll(st)? {
                            return Ok(End::Stop);
                        }
                    }
                    let fi = f - nimp;
                    let fun = &m.funcs[fi as usize];
                    if !self.exec[fi as usize] {
                        self.exec[fi as usize] = true;
                    }
                    st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                    let nb = base + at as usize;
                    let need = nb + fun.nregs as usize + 8;
                    if st.regs.len() < need {
                        st.regs.resize(need.max(st.regs.len() * 2).min(need + 65536), Val::default());
                    }
                    for i in fun.nparams..fun.nlocals {
                        st.regs[nb + i as usize] = Val::default();
                    }
                    fr = Frame { func: fi, pc: 0, base: nb as u32 };
                    if st.frames.len() > 60_000 {
                        viol!("trap", "call stack exhausted".into());
                    }
                    st.frames.push(fr);
                    code = &fun.code;
                    pc = 0;
                    base = nb;
                    continue;
                }
                Op::Ret { s, n } => {
                    for k in 0..n {
                        let v = r!(s + k);
                        w!(k, v);
                    }
                    sync!();
                    st.frames.pop();
                    let Some(f) = st.frames.last() else {
                        return Ok(End::Done);
                    };
                    fr = *f;
                    code = &m.funcs[fr.func as usize].code;
                    pc = fr.pc as usize;
                    base = fr.base as usize;
                    continue;
                }
                Op::MemSize { d } => w!(d, Val::c(st.mem.wasm_pages() as u64)),
                Op::MemGrow { d, a } => {
                    sync!();
                    let x = r!(a);
                    let by = self.concv(st, x)? as u32;
                    let old = st.mem.wasm_pages();
                    if old as u64 + by as u64 > 16384 {
                        w!(d, Val::c(0xffff_ffff));
                    } else {
                        st.mem.grow(by);
                        w!(d, Val::c(old as u64));
                    }
                }
                Op::MemCopy { d, s, n } => {
                    sync!();
                    let (x, y, z) = (r!(d), r!(s), r!(n));
                    let n = self.concv(st, z)? as u32 as u64;
                    let d = self.concv(st, x)? as u32 as u64;
                    let s = self.concv(st, y)? as u32 as u64;
                    if d + n > st.mem.bytes() || s + n > st.mem.bytes() {
                        viol!("trap", "out of bounds memory.copy".into());
                    }
                    st.mem.copy(d, s, n);
                }
                Op::MemFill { d, v, n } => {
                    sync!();
                    let (x, y, z) = (r!(d), r!(v), r!(n));
                    let n = self.concv(st, z)? as u32 as u64;
                    let d = self.concv(st, x)? as u32 as u64;
                    if d + n > st.mem.bytes() {
                        viol!("trap", "out of bounds memory.fill".into());
                    }
                    if y.e == 0 {
                        for k in 0..n {
                            st.mem.store_c(d + k, 1, y.c);
                        }
                    } else {
                        let b = self.ar.extract(y.e, 0, 8);
                        for k in 0..n {
                            st.mem.store_s(&mut self.ar, d + k, 1, b);
                        }
                    }
                }
                Op::Unreachable => viol!("trap", "unreachable executed".into()),
                Op::Unsupported => {
                    let f = &m.funcs[fr.func as usize];
                    return Err(format!(
                        "cannot execute {}: {}",
                        f.name,
                        f.lower_error.clone().unwrap_or_default()
                    ));
                }
            }
            pc += 1;
        }
    }

    /// Width of a select over two concrete operands, from the first reader.
    fn select_width(&self, code: &[Op], pc: usize, d: u32) -> u8 {
        for op in code[pc + 1..].iter().take(64) {
            match op {
                Op::Bin { op, a, b, .. } if *a == d || *b == d => return width_of_bin(*op),
                Op::BinI { op, a, .. } if *a == d => return width_of_bin(*op),
                Op::Un { op, a, .. } if *a == d => return width_of_un(*op),
                Op::Store { n: 8, s, .. } if *s == d => return 64,
                Op::BrZ { c, .. } | Op::BrNZ { c, .. } | Op::BrTable { c, .. } if *c == d => {
                    return 32;
                }
                _ => {}
            }
        }
        32
    }

    fn div_check(&mut self, st: &mut State, op: B, x: Val, y: Val) -> Result<Option<End>, String> {
        let w = width_of_bin(op);
        let ye = self.ex(y, w);
        let z = self.ar.k(0, w);
        let is0 = self.ar.bin(BO::Eq, ye, z);
        let (bad, other) = self.decide(st, is0)?;
        if let Some(o) = other {
            // the other direction re-executes this instruction
            self.pending.push(o);
        }
        if bad {
            return Ok(Some(End::Violation("trap", "integer divide by zero".into())));
        }
        if matches!(op, B::DivS32 | B::DivS64) {
            let xe = self.ex(x, w);
            let min = self.ar.k(1 << (w - 1), w);
            let neg1 = self.ar.k(!0, w);
            let p = self.ar.bin(BO::Eq, xe, min);
            let q = self.ar.bin(BO::Eq, ye, neg1);
            let c = self.ar.bin(BO::BAnd, p, q);
            let (bad, other) = self.decide(st, c)?;
            if let Some(o) = other {
                self.pending.push(o);
            }
            if bad {
                return Ok(Some(End::Violation("trap", "integer overflow in division".into())));
            }
        }
        Ok(None)
    }

    fn br_table(&mut self, st: &mut State, e: E, start: u32, n: u32) -> Result<u32, String> {
        // group indexes by target so that one fork is made per distinct target
        let m = self.m;
        let mut groups: Vec<(u32, Vec<u32>)> = vec![];
        for k in 0..n {
            let t = m.br_targets[(start + k) as usize];
            match groups.iter_mut().find(|g| g.0 == t) {
                Some(g) => g.1.push(k),
                None => groups.push((t, vec![k])),
            }
        }
        let e = self.fit(e, 32);
        let ng = groups.len();
        for (gi, (t, ks)) in groups.iter().enumerate() {
            if gi == ng - 1 {
                return Ok(ks[0]);
            }
            let mut c = self.ar.k(0, 1);
            for k in ks {
                let kk = self.ar.k(*k as u64, 32);
                let q = if *k == n - 1 {
                    let lt = self.ar.bin(BO::Ult, e, kk);
                    self.ar.not(lt)
                } else {
                    self.ar.bin(BO::Eq, e, kk)
                };
                c = self.ar.bin(BO::BOr, c, q);
            }
            let (dir, other) = self.decide(st, c)?;
            if let Some(mut o) = other {
                if dir {
                    // the other state re-executes the table with `c` excluded
                } else {
                    o.frames.last_mut().unwrap().pc = *t;
                }
                self.pending.push(o);
            }
            if dir {
                return Ok(ks[0]);
            }
        }
        Ok(n - 1)
    }

    fn hostcall(&mut self, st: &mut State, f: u32, b: usize) -> Result<Option<End>, String> {
        let h = self.host[f as usize];
        match h {
            Host::Var => {
                let w = st.regs[b].c as u8;
                let (lo, hi) = (st.regs[b + 1].c, st.regs[b + 2].c);
                if let Some(vals) = &self.sh.concrete {
                    let k = st.model.len();
                    let v = vals.get(k).copied().unwrap_or(lo);
                    st.model.push(v);
                    st.regs[b] = Val::c(v);
                    return Ok(None);
                }
                let id = st.vars.len() as u32;
                let e = self.ar.var(id, w, lo, hi);
                let mut dom = [0u64; 4];
                if w == 8 {
                    if hi - lo == 0 {
                        return Err("empty symbolic range".into());
                    }
                    for x in lo..=hi.min(255) {
                        dom[(x >> 6) as usize] |= 1 << (x & 63);
                    }
                }
                st.vars.push(VarInfo { e, w, dom });
                if st.model.len() <= id as usize {
                    st.model.push(lo);
                }
                let full = lo == 0 && hi >= mask(w);
                if !full {
                    let l = self.ar.k(lo, w);
                    let k = self.ar.k(hi.wrapping_sub(lo).wrapping_add(1), w);
                    let x = self.ar.bin(BO::Sub, e, l);
                    let c = self.ar.bin(BO::Ult, x, k);
                    self.add(st, c);
                }
                let v = self.ar.un(UO::Zext, e, 64);
                st.regs[b] = self.val(v);
            }
            Host::Assume => {
                let v = st.regs[b];
                let c = self.cond(v);
                match self.ar.cst(c) {
                    Some(0) => return Ok(Some(End::Pruned)),
                    Some(_) => {}
                    None => {
                        if self.eval(st, c) == 0 {
                            if st.ndec < st.replay_until {
                                return Err("replayed model violates an assumption".into());
                            }
                            match self.query(st, c)? {
                                Q::Unsat => return Ok(Some(End::Pruned)),
                                Q::Sat(m) => st.model = self.with_model(st, &m),
                            }
                        }
                        self.add(st, c);
                    }
                }
            }
            Host::Assert => {
                st.asserts += 1;
                let v = st.regs[b];
                let (p, n) = (self.evalv(st, b + 1), self.evalv(st, b + 2));
                let c = self.cond(v);
                match self.ar.cst(c) {
                    Some(0) => {
                        let msg = self.read_str(st, p, n);
                        return Ok(Some(End::Violation("assert", msg)));
                    }
                    Some(_) => {}
                    None => {
                        self.mark(st);
                        self.st.asserts_symbolic += 1;
                        let neg = self.ar.not(c);
                        if self.eval(st, c) == 0 {
                            let msg = self.read_str(st, p, n);
                            self.report(st, "assert", msg);
                            match self.query(st, c)? {
                                Q::Unsat => return Ok(Some(End::Done)),
                                Q::Sat(m) => st.model = self.with_model(st, &m),
                            }
                        } else if st.ndec >= st.replay_until
                            && let Q::Sat(m) = self.query(st, neg)?
                        {
                            let msg = self.read_str(st, p, n);
                            let mut o = st.clone();
                            o.model = self.with_model(st, &m);
                            self.report(&o, "assert", msg);
                        }
                        self.add(st, c);
                    }
                }
            }
            Host::Panic => {
                let (p, n) = (self.evalv(st, b), self.evalv(st, b + 1));
                let msg = self.read_str(st, p, n);
                return Ok(Some(End::Violation("panic", msg)));
            }
            Host::Conc => {
                let v = st.regs[b];
                let x = self.concv(st, v)?;
                st.regs[b] = Val::c(x);
            }
            Host::Cover => {
                *self.st.covers.entry(st.regs[b].c as u32).or_default() += 1;
            }
            Host::Known => {
                let (p, n) = (self.evalv(st, b), self.evalv(st, b + 1));
                let s = self.read_str(st, p, n);
                st.tag = if s.is_empty() { None } else { Some(s) };
            }
            Host::Log => {
                if self.sh.log {
                    let (p, n) = (self.evalv(st, b), self.evalv(st, b + 1));
                    let s = self.read_str(st, p, n);
                    eprintln!("LOG {}", s.replace('\n', "\\n").replace('\r', "\\r"));
                }
            }
            Host::Tier => {
                st.regs[b] = Val::c(self.sh.tier as u64);
            }
            Host::Unknown => {
                return Err(format!("call of unknown import {}", self.m.imports[f as usize].1));
            }
        }
        Ok(None)
    }

    fn evalv(&mut self, st: &State, r: usize) -> u64 {
        let v = st.regs[r];
        if v.e == 0 { v.c } else { self.eval(st, v.e) }
    }

    pub fn finish(mut self) -> (Stats, Vec<bool>, Vec<bool>) {
        self.st.z3_queries = self.z3.queries;
        self.st.z3_sat = self.z3.sat;
        self.st.z3_unsat = self.z3.unsat;
        self.st.z3_unknown = self.z3.unknown;
        self.st.z3_time = self.z3.time;
        self.st.z3_max = self.z3.max_time;
        (self.st, self.exec, self.symf)
    }
}

#[inline(always)]
fn fix_load(k: L, v: u64) -> u64 {
    match k {
        L::I32 | L::I64 | L::U8 | L::U16 | L::U32x64 => v,
        L::S8x32 => v as u8 as i8 as i32 as u32 as u64,
        L::S16x32 => v as u16 as i16 as i32 as u32 as u64,
        L::S8x64 => v as u8 as i8 as i64 as u64,
        L::S16x64 => v as u16 as i16 as i64 as u64,
        L::S32x64 => v as u32 as i32 as i64 as u64,
    }
}

#[inline(always)]
fn is_div(op: B) -> bool {
    use B::*;
    matches!(op, DivS32 | DivU32 | RemS32 | RemU32 | DivS64 | DivU64 | RemS64 | RemU64)
}

fn width_of_bin(op: B) -> u8 {
    use B::*;
    match op {
        Add32 | Sub32 | Mul32 | DivS32 | DivU32 | RemS32 | RemU32 | And32 | Or32 | Xor32 | Shl32
        | ShrS32 | ShrU32 | Rotl32 | Rotr32 | Eq32 | Ne32 | LtS32 | LtU32 | GtS32 | GtU32
        | LeS32 | LeU32 | GeS32 | GeU32 | FAdd32 | FSub32 | FMul32 | FDiv32 | FMin32 | FMax32
        | FCopy32 | FEq32 | FNe32 | FLt32 | FGt32 | FLe32 | FGe32 => 32,
        _ => 64,
    }
}

fn width_of_un(op: U) -> u8 {
    use U::*;
    match op {
        Clz64 | Ctz64 | Popcnt64 | Eqz64 | Ext8S64 | Ext16S64 | Ext32S64 | Wrap | FAbs64
        | FNeg64 | FCeil64 | FFloor64 | FTrunc64 | FNearest64 | FSqrt64 | Sat32SF64
        | Sat32UF64 | Sat64SF64 | Sat64UF64 | T32SF64 | T32UF64 | T64SF64 | T64UF64 | F32S64
        | F32U64 | F64S64 | F64U64 | Demote => 64,
        _ => 32,
    }
}
