//! Loads a WebAssembly module and lowers every function to a register IR.
use crate::ops::{B, U};
use wasmparser::{BlockType, Operator, Parser, Payload, TypeRef, ValType};

pub type R = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum L {
    I32,
    I64,
    U8,
    S8x32,
    U16,
    S16x32,
    U32x64,
    S8x64,
    S16x64,
    S32x64,
}
impl L {
    pub fn size(self) -> u32 {
        match self {
            L::U8 | L::S8x32 | L::S8x64 => 1,
            L::U16 | L::S16x32 | L::S16x64 => 2,
            L::I32 | L::U32x64 | L::S32x64 => 4,
            L::I64 => 8,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Const { d: R, v: u64 },
    Copy { d: R, s: R },
    Bin { op: B, d: R, a: R, b: R },
    BinI { op: B, d: R, a: R, v: u64 },
    Un { op: U, d: R, a: R },
    Select { d: R, c: R, a: R, b: R },
    /// `to64` widens symbolic bytes to 64 rather than 32 bits
    Load { k: L, to64: bool, d: R, a: R, off: u32 },
    Store { n: u8, a: R, s: R, off: u32 },
    GlobalGet { d: R, g: u32 },
    GlobalSet { s: R, g: u32 },
    Br { t: u32 },
    BrZ { c: R, t: u32 },
    BrNZ { c: R, t: u32 },
    BrTable { c: R, start: u32, n: u32 },
    Call { f: u32, at: R },
    CallInd { i: R, ty: u32, at: R },
    Ret { s: R, n: u32 },
    MemSize { d: R },
    MemGrow { d: R, a: R },
    MemCopy { d: R, s: R, n: R },
    MemFill { d: R, v: R, n: R },
    Unreachable,
    Unsupported,
}

pub struct Func {
    pub ty: u32,
    pub nparams: u32,
    pub nresults: u32,
    pub nlocals: u32,
    pub nregs: u32,
    pub code: Vec<Op>,
    pub name: String,
    pub lower_error: Option<String>,
}

pub struct Module {
    pub types: Vec<(Vec<ValType>, Vec<ValType>)>,
    /// imported functions come first
    pub imports: Vec<(String, String, u32)>,
    pub funcs: Vec<Func>,
    pub br_targets: Vec<u32>,
    pub globals: Vec<u64>,
    pub table: Vec<Option<u32>>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub mem_pages: u32,
    pub exports: std::collections::HashMap<String, u32>,
    pub fn_types: Vec<u32>,
}

#[derive(Clone, Copy, Debug)]
enum D {
    Slot,
    Local(u32),
    Const(u64),
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Block,
    Loop,
    If,
}

struct Label {
    kind: Kind,
    height: usize,
    br_arity: usize,
    end_arity: usize,
    params: usize,
    fixups: Vec<usize>,
    tbl_fixups: Vec<usize>,
    start: u32,
    else_fix: Option<usize>,
}

struct Lower<'m> {
    m: &'m mut Module,
    nlocals: u32,
    stack: Vec<D>,
    maxh: usize,
    code: Vec<Op>,
    labels: Vec<Label>,
    barrier: usize,
}

impl Lower<'_> {
    fn slot(&self, i: usize) -> R {
        self.nlocals + i as u32
    }
    fn push(&mut self, d: D) {
        self.stack.push(d);
        self.maxh = self.maxh.max(self.stack.len());
    }
    fn pushr(&mut self) -> R {
        self.push(D::Slot);
        self.slot(self.stack.len() - 1)
    }
    fn mat(&mut self, i: usize) -> R {
        let d = self.slot(i);
        match self.stack[i] {
            D::Slot => {}
            D::Local(l) => self.code.push(Op::Copy { d, s: l }),
            D::Const(v) => self.code.push(Op::Const { d, v }),
        }
        self.stack[i] = D::Slot;
        d
    }
    fn mat_all(&mut self) {
        for i in 0..self.stack.len() {
            self.mat(i);
        }
    }
    /// pop to a readable register
    fn pop(&mut self) -> R {
        let i = self.stack.len() - 1;
        let r = match self.stack[i] {
            D::Local(l) => l,
            _ => self.mat(i),
        };
        self.stack.pop();
        r
    }
    fn bin(&mut self, op: B) {
        if let Some(D::Const(v)) = self.stack.last().copied() {
            self.stack.pop();
            let a = self.pop();
            let d = self.pushr();
            self.code.push(Op::BinI { op, d, a, v });
            return;
        }
        // the right operand keeps its own slot, so popping it first is safe
        let b = self.pop();
        let a = self.pop();
        let d = self.pushr();
        self.code.push(Op::Bin { op, d, a, b });
    }
    fn un(&mut self, op: U) {
        let a = self.pop();
        let d = self.pushr();
        self.code.push(Op::Un { op, d, a });
    }
    fn load(&mut self, k: L, to64: bool, off: u64) {
        let a = self.pop();
        let d = self.pushr();
        self.code.push(Op::Load { k, to64, d, a, off: off as u32 });
    }
    fn store(&mut self, n: u8, off: u64) {
        let s = self.pop();
        let a = self.pop();
        self.code.push(Op::Store { n, a, s, off: off as u32 });
    }
    fn set_local(&mut self, l: u32, tee: bool) {
        for i in 0..self.stack.len() - 1 {
            if let D::Local(x) = self.stack[i]
                && x == l
            {
                self.mat(i);
            }
        }
        let i = self.stack.len() - 1;
        match self.stack[i] {
            D::Const(v) => self.code.push(Op::Const { d: l, v }),
            D::Local(s) => {
                if s != l {
                    self.code.push(Op::Copy { d: l, s })
                }
            }
            D::Slot => {
                let slot = self.slot(i);
                let n = self.code.len();
                let mut done = false;
                if n > self.barrier {
                    match &mut self.code[n - 1] {
                        Op::Const { d, .. }
                        | Op::Copy { d, .. }
                        | Op::Bin { d, .. }
                        | Op::BinI { d, .. }
                        | Op::Un { d, .. }
                        | Op::Select { d, .. }
                        | Op::Load { d, .. }
                        | Op::GlobalGet { d, .. }
                            if *d == slot =>
                        {
                            *d = l;
                            done = true;
                        }
                        _ => {}
                    }
                }
                if !done {
                    self.code.push(Op::Copy { d: l, s: slot });
                }
                if tee && done {
                    self.stack[i] = D::Local(l);
                }
            }
        }
        if !tee {
            self.stack.pop();
        }
    }
    fn arity(&self, bt: BlockType) -> (usize, usize) {
        match bt {
            BlockType::Empty => (0, 0),
            BlockType::Type(_) => (0, 1),
            BlockType::FuncType(t) => {
                let t = &self.m.types[t as usize];
                (t.0.len(), t.1.len())
            }
        }
    }
    fn enter(&mut self, kind: Kind, bt: BlockType) {
        let (p, r) = self.arity(bt);
        let mut else_fix = None;
        if kind == Kind::If {
            let c = self.pop();
            self.mat_all();
            else_fix = Some(self.code.len());
            self.code.push(Op::BrZ { c, t: u32::MAX });
        } else {
            self.mat_all();
        }
        self.barrier = self.code.len();
        self.labels.push(Label {
            kind,
            height: self.stack.len() - p,
            br_arity: if kind == Kind::Loop { p } else { r },
            end_arity: r,
            params: p,
            fixups: vec![],
            tbl_fixups: vec![],
            start: self.code.len() as u32,
            else_fix,
        });
    }
    /// Moves the top `n` values to the slots expected at label `l`.
    fn moves(&mut self, l: usize) {
        let n = self.labels[l].br_arity;
        let to = self.labels[l].height;
        let from = self.stack.len() - n;
        for k in 0..n {
            let d = self.slot(to + k);
            match self.stack[from + k] {
                D::Slot => {
                    let s = self.slot(from + k);
                    if s != d {
                        self.code.push(Op::Copy { d, s });
                    }
                }
                D::Local(s) => self.code.push(Op::Copy { d, s }),
                D::Const(v) => self.code.push(Op::Const { d, v }),
            }
        }
    }
    fn jump(&mut self, l: usize, mk: impl Fn(u32) -> Op) {
        let at = self.code.len();
        if self.labels[l].kind == Kind::Loop {
            let t = self.labels[l].start;
            self.code.push(mk(t));
        } else {
            self.code.push(mk(u32::MAX));
            self.labels[l].fixups.push(at);
        }
        self.barrier = self.code.len();
    }
    fn lbl(&self, depth: u32) -> usize {
        self.labels.len() - 1 - depth as usize
    }
    fn end(&mut self, reachable: bool) {
        let l = self.labels.pop().unwrap();
        if reachable {
            let h = self.stack.len() - l.end_arity;
            debug_assert_eq!(h, l.height);
            for i in 0..l.end_arity {
                self.mat(l.height + i);
            }
        }
        let here = self.code.len() as u32;
        for fx in &l.fixups {
            patch(&mut self.code[*fx], here);
        }
        for fx in &l.tbl_fixups {
            self.m.br_targets[*fx] = here;
        }
        if let Some(e) = l.else_fix {
            patch(&mut self.code[e], here);
        }
        self.stack.truncate(l.height);
        for _ in 0..l.end_arity {
            self.push(D::Slot);
        }
        self.barrier = self.code.len();
    }
}

fn patch(op: &mut Op, to: u32) {
    match op {
        Op::Br { t } | Op::BrZ { t, .. } | Op::BrNZ { t, .. } => *t = to,
        _ => unreachable!(),
    }
}

impl Module {
    pub fn load(bytes: &[u8]) -> Result<Module, String> {
        let mut m = Module {
            types: vec![],
            imports: vec![],
            funcs: vec![],
            br_targets: vec![],
            globals: vec![],
            table: vec![],
            data: vec![],
            mem_pages: 0,
            exports: Default::default(),
            fn_types: vec![],
        };
        let mut bodies = vec![];
        let mut names: std::collections::HashMap<u32, String> = Default::default();
        let es = |e: wasmparser::BinaryReaderError| e.to_string();
        for p in Parser::new(0).parse_all(bytes) {
            match p.map_err(es)? {
                Payload::TypeSection(r) => {
                    for t in r.into_iter_err_on_gc_types() {
                        let t = t.map_err(es)?;
                        m.types.push((t.params().to_vec(), t.results().to_vec()));
                    }
                }
                Payload::ImportSection(r) => {
                    for i in r.into_imports() {
                        let i = i.map_err(es)?;
                        match i.ty {
                            TypeRef::Func(t) => {
                                m.imports.push((i.module.to_string(), i.name.to_string(), t))
                            }
                            _ => return Err("non-function import".into()),
                        }
                    }
                }
                Payload::FunctionSection(r) => {
                    for t in r {
                        m.fn_types.push(t.map_err(es)?);
                    }
                }
                Payload::TableSection(r) => {
                    for t in r {
                        let t = t.map_err(es)?;
                        m.table.resize(t.ty.initial as usize, None);
                    }
                }
                Payload::MemorySection(r) => {
                    for t in r {
                        m.mem_pages = t.map_err(es)?.initial as u32;
                    }
                }
                Payload::GlobalSection(r) => {
                    for g in r {
                        let g = g.map_err(es)?;
                        m.globals.push(const_expr(g.init_expr.get_operators_reader())?);
                    }
                }
                Payload::ExportSection(r) => {
                    for e in r {
                        let e = e.map_err(es)?;
                        if matches!(e.kind, wasmparser::ExternalKind::Func) {
                            m.exports.insert(e.name.to_string(), e.index);
                        }
                    }
                }
                Payload::ElementSection(r) => {
                    for e in r {
                        let e = e.map_err(es)?;
                        let wasmparser::ElementKind::Active { offset_expr, .. } = e.kind else {
                            continue;
                        };
                        let off = const_expr(offset_expr.get_operators_reader())? as usize;
                        match e.items {
                            wasmparser::ElementItems::Functions(fs) => {
                                for (i, f) in fs.into_iter().enumerate() {
                                    let f = f.map_err(es)?;
                                    if m.table.len() <= off + i {
                                        m.table.resize(off + i + 1, None);
                                    }
                                    m.table[off + i] = Some(f);
                                }
                            }
                            _ => return Err("element expressions".into()),
                        }
                    }
                }
                Payload::DataSection(r) => {
                    for d in r {
                        let d = d.map_err(es)?;
                        if let wasmparser::DataKind::Active { offset_expr, .. } = d.kind {
                            let off = const_expr(offset_expr.get_operators_reader())? as u32;
                            m.data.push((off, d.data.to_vec()));
                        } else {
                            return Err("passive data".into());
                        }
                    }
                }
                Payload::CodeSectionEntry(b) => bodies.push(b),
                Payload::CustomSection(c) if c.name() == "name" => {
                    if let wasmparser::KnownCustom::Name(r) = c.as_known() {
                        for s in r {
                            if let Ok(wasmparser::Name::Function(map)) = s {
                                for n in map {
                                    let n = n.map_err(es)?;
                                    names.insert(n.index, n.name.to_string());
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let nimp = m.imports.len() as u32;
        for (i, body) in bodies.into_iter().enumerate() {
            let ty = m.fn_types[i];
            let (params, results) = m.types[ty as usize].clone();
            let mut nlocals = params.len() as u32;
            for l in body.get_locals_reader().map_err(es)? {
                nlocals += l.map_err(es)?.0;
            }
            let raw = names.get(&(nimp + i as u32)).cloned().unwrap_or_else(|| format!("f{i}"));
            let name = format!("{:#}", rustc_demangle::demangle(&raw));
            let mut lw = Lower {
                m: &mut m,
                nlocals,
                stack: vec![],
                maxh: 0,
                code: vec![],
                labels: vec![],
                barrier: 0,
            };
            let err = lw.body(&body, results.len()).err();
            let (mut code, maxh) = (lw.code, lw.maxh);
            if err.is_some() {
                code = vec![Op::Unsupported];
            }
            m.funcs.push(Func {
                ty,
                nparams: params.len() as u32,
                nresults: results.len() as u32,
                nlocals,
                nregs: nlocals + maxh as u32 + 2,
                code,
                name,
                lower_error: err,
            });
        }
        Ok(m)
    }
}

fn const_expr(mut r: wasmparser::OperatorsReader) -> Result<u64, String> {
    match r.read().map_err(|e| e.to_string())? {
        Operator::I32Const { value } => Ok(value as u32 as u64),
        Operator::I64Const { value } => Ok(value as u64),
        Operator::F64Const { value } => Ok(value.bits()),
        Operator::F32Const { value } => Ok(value.bits() as u64),
        o => Err(format!("const expr {o:?}")),
    }
}

impl Lower<'_> {
    fn body(&mut self, body: &wasmparser::FunctionBody, nres: usize) -> Result<(), String> {
        let es = |e: wasmparser::BinaryReaderError| e.to_string();
        self.labels.push(Label {
            kind: Kind::Block,
            height: 0,
            br_arity: nres,
            end_arity: nres,
            params: 0,
            fixups: vec![],
            tbl_fixups: vec![],
            start: 0,
            else_fix: None,
        });
        let mut rd = body.get_operators_reader().map_err(es)?;
        let mut dead = 0u32; // nesting depth of unreachable code, 0 = reachable
        while !rd.eof() {
            let op = rd.read().map_err(es)?;
            if dead > 0 {
                match op {
                    Operator::Block { .. } | Operator::Loop { .. } | Operator::If { .. } => {
                        dead += 1;
                    }
                    Operator::Else if dead == 1 => {
                        dead = 0;
                        self.do_else(false);
                    }
                    Operator::End => {
                        dead -= 1;
                        if dead == 0 {
                            if self.labels.len() == 1 {
                                self.finish(false, nres);
                            } else {
                                let h = self.labels.last().unwrap().height;
                                self.stack.truncate(h);
                                self.end(false);
                            }
                        }
                    }
                    _ => {}
                }
                continue;
            }
            macro_rules! die {
                () => {{
                    dead = 1;
                    let h = self.labels.last().unwrap().height;
                    self.stack.truncate(h);
                }};
            }
            use Operator as O;
            match op {
                O::Nop => {}
                O::Unreachable => {
                    self.code.push(Op::Unreachable);
                    die!();
                }
                O::Block { blockty } => self.enter(Kind::Block, blockty),
                O::Loop { blockty } => self.enter(Kind::Loop, blockty),
                O::If { blockty } => self.enter(Kind::If, blockty),
                O::Else => self.do_else(true),
                O::End => {
                    if self.labels.len() == 1 {
                        self.finish(true, nres);
                    } else {
                        self.end(true);
                    }
                }
                O::Br { relative_depth } => {
                    let l = self.lbl(relative_depth);
                    self.moves(l);
                    self.jump(l, |t| Op::Br { t });
                    die!();
                }
                O::BrIf { relative_depth } => {
                    let l = self.lbl(relative_depth);
                    let c = self.pop();
                    let n = self.labels[l].br_arity;
                    if n == 0 {
                        self.jump(l, |t| Op::BrNZ { c, t });
                    } else {
                        // the condition register may be overwritten by the moves
                        let skip = self.code.len();
                        self.code.push(Op::BrZ { c, t: u32::MAX });
                        // values stay live on the fall-through path: materialise before branching
                        let save = self.stack.clone();
                        self.moves(l);
                        self.jump(l, |t| Op::Br { t });
                        self.stack = save;
                        let here = self.code.len() as u32;
                        patch(&mut self.code[skip], here);
                        self.barrier = self.code.len();
                    }
                }
                O::BrTable { targets } => {
                    let c = self.pop();
                    let mut ls = vec![];
                    for t in targets.targets() {
                        ls.push(self.lbl(t.map_err(es)?));
                    }
                    ls.push(self.lbl(targets.default()));
                    let start = self.m.br_targets.len() as u32;
                    let n = ls.len() as u32;
                    self.m.br_targets.extend(std::iter::repeat_n(u32::MAX, ls.len()));
                    self.code.push(Op::BrTable { c, start, n });
                    for (k, l) in ls.iter().enumerate() {
                        let at = start as usize + k;
                        let lab = &mut self.labels[*l];
                        if lab.br_arity == 0 {
                            if lab.kind == Kind::Loop {
                                let t = lab.start;
                                self.m.br_targets[at] = t;
                            } else {
                                lab.tbl_fixups.push(at);
                            }
                        } else {
                            self.m.br_targets[at] = self.code.len() as u32;
                            self.moves(*l);
                            self.jump(*l, |t| Op::Br { t });
                        }
                    }
                    die!();
                }
                O::Return => {
                    let n = nres;
                    let base = self.stack.len() - n;
                    for i in 0..n {
                        self.mat(base + i);
                    }
                    let s = self.slot(base);
                    self.code.push(Op::Ret { s, n: n as u32 });
                    die!();
                }
                O::Call { function_index } => {
                    let ty = self.fn_type(function_index);
                    self.call(ty, |at| Op::Call { f: function_index, at });
                }
                O::CallIndirect { type_index, .. } => {
                    let i = self.pop();
                    self.call(type_index, |at| Op::CallInd { i, ty: type_index, at });
                }
                O::Drop => {
                    self.stack.pop();
                }
                O::Select | O::TypedSelect { .. } => {
                    let c = self.pop();
                    let b = self.pop();
                    let a = self.pop();
                    let d = self.pushr();
                    self.code.push(Op::Select { d, c, a, b });
                }
                O::LocalGet { local_index } => self.push(D::Local(local_index)),
                O::LocalSet { local_index } => self.set_local(local_index, false),
                O::LocalTee { local_index } => self.set_local(local_index, true),
                O::GlobalGet { global_index } => {
                    let d = self.pushr();
                    self.code.push(Op::GlobalGet { d, g: global_index });
                }
                O::GlobalSet { global_index } => {
                    let s = self.pop();
                    self.code.push(Op::GlobalSet { s, g: global_index });
                }
                O::I32Load { memarg } | O::F32Load { memarg } => {
                    self.load(L::I32, false, memarg.offset)
                }
                O::I64Load { memarg } | O::F64Load { memarg } => {
                    self.load(L::I64, true, memarg.offset)
                }
                O::I32Load8S { memarg } => self.load(L::S8x32, false, memarg.offset),
                O::I32Load8U { memarg } => self.load(L::U8, false, memarg.offset),
                O::I32Load16S { memarg } => self.load(L::S16x32, false, memarg.offset),
                O::I32Load16U { memarg } => self.load(L::U16, false, memarg.offset),
                O::I64Load8S { memarg } => self.load(L::S8x64, true, memarg.offset),
                O::I64Load8U { memarg } => self.load(L::U8, true, memarg.offset),
                O::I64Load16S { memarg } => self.load(L::S16x64, true, memarg.offset),
                O::I64Load16U { memarg } => self.load(L::U16, true, memarg.offset),
                O::I64Load32S { memarg } => self.load(L::S32x64, true, memarg.offset),
                O::I64Load32U { memarg } => self.load(L::U32x64, true, memarg.offset),
                O::I32Store { memarg } | O::F32Store { memarg } | O::I64Store32 { memarg } => {
                    self.store(4, memarg.offset)
                }
                O::I64Store { memarg } | O::F64Store { memarg } => self.store(8, memarg.offset),
                O::I32Store8 { memarg } | O::I64Store8 { memarg } => self.store(1, memarg.offset),
                O::I32Store16 { memarg } | O::I64Store16 { memarg } => {
                    self.store(2, memarg.offset)
                }
                O::MemorySize { .. } => {
                    let d = self.pushr();
                    self.code.push(Op::MemSize { d });
                }
                O::MemoryGrow { .. } => {
                    let a = self.pop();
                    let d = self.pushr();
                    self.code.push(Op::MemGrow { d, a });
                }
                O::MemoryCopy { .. } => {
                    let n = self.pop();
                    let s = self.pop();
                    let d = self.pop();
                    self.code.push(Op::MemCopy { d, s, n });
                }
                O::MemoryFill { .. } => {
                    let n = self.pop();
                    let v = self.pop();
                    let d = self.pop();
                    self.code.push(Op::MemFill { d, v, n });
                }
                O::I32Const { value } => self.push(D::Const(value as u32 as u64)),
                O::I64Const { value } => self.push(D::Const(value as u64)),
                O::F32Const { value } => self.push(D::Const(value.bits() as u64)),
                O::F64Const { value } => self.push(D::Const(value.bits())),
                O::I32ReinterpretF32
                | O::I64ReinterpretF64
                | O::F32ReinterpretI32
                | O::F64ReinterpretI64 => {}
                other => {
                    if let Some(u) = un_op(&other) {
                        self.un(u);
                    } else if let Some(b) = bin_op(&other) {
                        self.bin(b);
                    } else {
                        return Err(format!("unsupported operator {other:?}"));
                    }
                }
            }
        }
        Ok(())
    }

    fn fn_type(&self, f: u32) -> u32 {
        let n = self.m.imports.len() as u32;
        if f < n {
            self.m.imports[f as usize].2
        } else {
            self.m.fn_types[(f - n) as usize]
        }
    }

    fn call(&mut self, ty: u32, mk: impl Fn(R) -> Op) {
        let (p, r) = {
            let t = &self.m.types[ty as usize];
            (t.0.len(), t.1.len())
        };
        let base = self.stack.len() - p;
        for i in base..self.stack.len() {
            self.mat(i);
        }
        self.stack.truncate(base);
        let at = self.slot(base);
        self.code.push(mk(at));
        self.barrier = self.code.len();
        for _ in 0..r {
            self.push(D::Slot);
        }
    }

    fn do_else(&mut self, reachable: bool) {
        let n = self.labels.len() - 1;
        if reachable {
            let h = self.labels[n].height;
            let ar = self.labels[n].end_arity;
            debug_assert_eq!(self.stack.len(), h + ar);
            self.mat_all();
            self.jump(n, |t| Op::Br { t });
        }
        let h = self.labels[n].height;
        let p = self.labels[n].params;
        self.stack.truncate(h);
        for s in &mut self.stack {
            *s = D::Slot;
        }
        for _ in 0..p {
            self.push(D::Slot);
        }
        let here = self.code.len() as u32;
        let e = self.labels[n].else_fix.take().unwrap();
        patch(&mut self.code[e], here);
        self.barrier = self.code.len();
    }

    fn finish(&mut self, reachable: bool, nres: usize) {
        let l = self.labels.pop().unwrap();
        if reachable {
            let base = self.stack.len() - nres;
            for i in 0..nres {
                self.mat(base + i);
            }
        }
        let here = self.code.len() as u32;
        for fx in &l.fixups {
            patch(&mut self.code[*fx], here);
        }
        for fx in &l.tbl_fixups {
            self.m.br_targets[*fx] = here;
        }
        let s = self.slot(0);
        self.code.push(Op::Ret { s, n: nres as u32 });
        self.maxh = self.maxh.max(nres);
    }
}

fn un_op(o: &Operator) -> Option<U> {
    use Operator as O;
    Some(match o {
        O::I32Clz => U::Clz32,
        O::I32Ctz => U::Ctz32,
        O::I32Popcnt => U::Popcnt32,
        O::I32Eqz => U::Eqz32,
        O::I64Clz => U::Clz64,
        O::I64Ctz => U::Ctz64,
        O::I64Popcnt => U::Popcnt64,
        O::I64Eqz => U::Eqz64,
        O::I32Extend8S => U::Ext8S32,
        O::I32Extend16S => U::Ext16S32,
        O::I64Extend8S => U::Ext8S64,
        O::I64Extend16S => U::Ext16S64,
        O::I64Extend32S => U::Ext32S64,
        O::I32WrapI64 => U::Wrap,
        O::I64ExtendI32S => U::ExtS,
        O::I64ExtendI32U => U::ExtU,
        O::F32Abs => U::FAbs32,
        O::F32Neg => U::FNeg32,
        O::F32Ceil => U::FCeil32,
        O::F32Floor => U::FFloor32,
        O::F32Trunc => U::FTrunc32,
        O::F32Nearest => U::FNearest32,
        O::F32Sqrt => U::FSqrt32,
        O::F64Abs => U::FAbs64,
        O::F64Neg => U::FNeg64,
        O::F64Ceil => U::FCeil64,
        O::F64Floor => U::FFloor64,
        O::F64Trunc => U::FTrunc64,
        O::F64Nearest => U::FNearest64,
        O::F64Sqrt => U::FSqrt64,
        O::I32TruncSatF32S => U::Sat32SF32,
        O::I32TruncSatF32U => U::Sat32UF32,
        O::I32TruncSatF64S => U::Sat32SF64,
        O::I32TruncSatF64U => U::Sat32UF64,
        O::I64TruncSatF32S => U::Sat64SF32,
        O::I64TruncSatF32U => U::Sat64UF32,
        O::I64TruncSatF64S => U::Sat64SF64,
        O::I64TruncSatF64U => U::Sat64UF64,
        O::I32TruncF32S => U::T32SF32,
        O::I32TruncF32U => U::T32UF32,
        O::I32TruncF64S => U::T32SF64,
        O::I32TruncF64U => U::T32UF64,
        O::I64TruncF32S => U::T64SF32,
        O::I64TruncF32U => U::T64UF32,
        O::I64TruncF64S => U::T64SF64,
        O::I64TruncF64U => U::T64UF64,
        O::F32ConvertI32S => U::F32S32,
        O::F32ConvertI32U => U::F32U32,
        O::F32ConvertI64S => U::F32S64,
        O::F32ConvertI64U => U::F32U64,
        O::F64ConvertI32S => U::F64S32,
        O::F64ConvertI32U => U::F64U32,
        O::F64ConvertI64S => U::F64S64,
        O::F64ConvertI64U => U::F64U64,
        O::F32DemoteF64 => U::Demote,
        O::F64PromoteF32 => U::Promote,
        _ => return None,
    })
}

fn bin_op(o: &Operator) -> Option<B> {
    use Operator as O;
    Some(match o {
        O::I32Add => B::Add32,
        O::I32Sub => B::Sub32,
        O::I32Mul => B::Mul32,
        O::I32DivS => B::DivS32,
        O::I32DivU => B::DivU32,
        O::I32RemS => B::RemS32,
        O::I32RemU => B::RemU32,
        O::I32And => B::And32,
        O::I32Or => B::Or32,
        O::I32Xor => B::Xor32,
        O::I32Shl => B::Shl32,
        O::I32ShrS => B::ShrS32,
        O::I32ShrU => B::ShrU32,
        O::I32Rotl => B::Rotl32,
        O::I32Rotr => B::Rotr32,
        O::I32Eq => B::Eq32,
        O::I32Ne => B::Ne32,
        O::I32LtS => B::LtS32,
        O::I32LtU => B::LtU32,
        O::I32GtS => B::GtS32,
        O::I32GtU => B::GtU32,
        O::I32LeS => B::LeS32,
        O::I32LeU => B::LeU32,
        O::I32GeS => B::GeS32,
        O::I32GeU => B::GeU32,
        O::I64Add => B::Add64,
        O::I64Sub => B::Sub64,
        O::I64Mul => B::Mul64,
        O::I64DivS => B::DivS64,
        O::I64DivU => B::DivU64,
        O::I64RemS => B::RemS64,
        O::I64RemU => B::RemU64,
        O::I64And => B::And64,
        O::I64Or => B::Or64,
        O::I64Xor => B::Xor64,
        O::I64Shl => B::Shl64,
        O::I64ShrS => B::ShrS64,
        O::I64ShrU => B::ShrU64,
        O::I64Rotl => B::Rotl64,
        O::I64Rotr => B::Rotr64,
        O::I64Eq => B::Eq64,
        O::I64Ne => B::Ne64,
        O::I64LtS => B::LtS64,
        O::I64LtU => B::LtU64,
        O::I64GtS => B::GtS64,
        O::I64GtU => B::GtU64,
        O::I64LeS => B::LeS64,
        O::I64LeU => B::LeU64,
        O::I64GeS => B::GeS64,
        O::I64GeU => B::GeU64,
        O::F32Add => B::FAdd32,
        O::F32Sub => B::FSub32,
        O::F32Mul => B::FMul32,
        O::F32Div => B::FDiv32,
        O::F32Min => B::FMin32,
        O::F32Max => B::FMax32,
        O::F32Copysign => B::FCopy32,
        O::F32Eq => B::FEq32,
        O::F32Ne => B::FNe32,
        O::F32Lt => B::FLt32,
        O::F32Gt => B::FGt32,
        O::F32Le => B::FLe32,
        O::F32Ge => B::FGe32,
        O::F64Add => B::FAdd64,
        O::F64Sub => B::FSub64,
        O::F64Mul => B::FMul64,
        O::F64Div => B::FDiv64,
        O::F64Min => B::FMin64,
        O::F64Max => B::FMax64,
        O::F64Copysign => B::FCopy64,
        O::F64Eq => B::FEq64,
        O::F64Ne => B::FNe64,
        O::F64Lt => B::FLt64,
        O::F64Gt => B::FGt64,
        O::F64Le => B::FLe64,
        O::F64Ge => B::FGe64,
        _ => return None,
    })
}
