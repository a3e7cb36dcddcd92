//! The symbolic executor: depth-first path exploration over decoded LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default)]
pub struct Val {
    pub v: u128,
    pub e: E,
}
pub fn cv(v: u128) -> Val {
    Val { v, e: 0 }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub pc: u32,
    pub sp: u64,
}

#[derive(Clone, Debug)]
pub enum Input {
    Bytes(u32, u32),      // first var, count
    Word(u32, u16),       // var, width
    Choice(u64),
}

#[derive(Clone)]
struct Small {
    sp: u64,
    heap: u64,
    next_var: u32,
    pcs: usize,
    inputs: usize,
    depth_instr: u64,
    clock: u64,
    trace: usize,
}

struct Pending {
    parents: Vec<Rc<Frame>>,
    cur: Frame,
    small: Small,
    add: E,
    model: Rc<Vec<u128>>,
    mtag: usize,
    mark: (usize, u32),
    forced: Option<u64>,
}

pub struct Shared {
    pub live: AtomicI64,
    pub stop: AtomicU64,
    pub paths: AtomicU64,
    pub first_violation_ms: AtomicU64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub stack: Vec<String>,
    pub inputs: Vec<String>,
}

pub enum End {
    Done,
    Assumed,
    Violated,
    Limit(String),
    Error(String),
}

pub struct Cfg {
    pub max_secs: u64,
    pub after_violation_secs: u64,
    pub max_path_instr: u64,
    pub workers: i64,
    pub enum_cap: usize,
    pub verbose: bool,
    pub trace_calls: bool,
    pub outdir: std::path::PathBuf,
    pub params: Vec<(u64, u64)>,
    pub concrete: Option<Vec<(char, Vec<u128>)>>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub violated: u64,
    pub instrs: u64,
    pub forks: u64,
    pub branch_unsat: u64,
    pub asserts_concrete: u64,
    pub asserts_solver: u64,
    pub sym_loads: u64,
    pub sym_stores: u64,
    pub max_path: u64,
    pub errors: BTreeMap<String, u64>,
    pub limits: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub cover_inputs: BTreeMap<String, Vec<String>>,
    pub funcs: BTreeSet<u32>,
    pub fork_sites: HashMap<(u32, u32), u64>,
}

pub struct Exec {
    pub prog: Program,
    pub st: RefCell<SymTab>,
    pub addr_sym: HashMap<u64, u32>,
    pub ex: Exprs,
    pub solver: Solver,
    pub mem: Mem,
    pub cfg: Cfg,
    pub shared: &'static Shared,
    parents: Vec<Rc<Frame>>,
    cur: Frame,
    s: Small,
    pcs: Vec<E>,
    inputs: Vec<Input>,
    model: Rc<Vec<u128>>,
    mtag: usize,
    next_tag: usize,
    pending: Vec<Pending>,
    forced: Option<u64>,
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub start: Instant,
    last_spawn: Instant,
    pub children: Vec<i32>,
    pub is_child: bool,
    conc_pos: usize,
    pub frag_log: Vec<String>,
    pub fds: Vec<std::path::PathBuf>,
    builtin_cache: HashMap<u32, Option<crate::builtins::B>>,
}

pub type R<T> = Result<T, End>;

extern "C" {
    fn fork() -> i32;
}

impl Exec {
    pub fn new(paths: &[String], cfg: Cfg, shared: &'static Shared) -> Self {
        let (prog, st) = Program::load(paths);
        let mut mem = Mem::new();
        for (a, b) in &prog.image {
            mem.write_bytes(*a, b);
        }
        let dummy = Rc::new(Func {
            name: String::new(),
            sym: 0,
            nregs: 0,
            params: vec![],
            blocks: vec![],
            varargs: false,
        });
        Exec {
            prog,
            st,
            addr_sym: HashMap::new(),
            ex: Exprs::new(),
            solver: Solver::new(0),
            mem,
            cfg,
            shared,
            parents: vec![],
            cur: Frame {
                func: dummy,
                regs: vec![],
                block: 0,
                pc: 0,
                sp: STACK,
            },
            s: Small {
                sp: STACK,
                heap: HEAP,
                next_var: 0,
                pcs: 0,
                inputs: 0,
                depth_instr: 0,
                clock: 1_000_000_000,
                trace: 0,
            },
            pcs: vec![],
            inputs: vec![],
            model: Rc::new(vec![]),
            mtag: 1,
            next_tag: 2,
            pending: vec![],
            forced: None,
            violations: vec![],
            stats: Stats::default(),
            start: Instant::now(),
            last_spawn: Instant::now(),
            children: vec![],
            is_child: false,
            conc_pos: 0,
            frag_log: vec![],
            fds: vec![],
            builtin_cache: HashMap::new(),
        }
    }

    // ---------- values ----------
    #[inline]
    fn get(&self, o: &Opd, k: usize) -> Val {
        match o {
            Opd::R(r) => self.cur.regs[*r as usize + k],
            Opd::C(c) => Val { v: *c, e: 0 },
            Opd::A(a) => Val { v: a[k], e: 0 },
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        self.cur.regs[d as usize] = v;
    }
    #[inline]
    pub fn ve(&mut self, v: Val, w: u16) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.ex.cst(v.v, w)
        }
    }
    #[inline]
    pub fn mk(&self, e: E) -> Val {
        match self.ex.as_const(e) {
            Some(k) => cv(k),
            None => Val { v: 0, e },
        }
    }
    pub fn op2(&mut self, op: Op, w: u16, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            return cv(fold(op, w, a.v, b.v));
        }
        let x = self.ve(a, w);
        let y = self.ve(b, w);
        let e = self.ex.bin(op, x, y);
        self.mk(e)
    }
    pub fn vite(&mut self, c: Val, w: u16, a: Val, b: Val) -> Val {
        if c.e == 0 {
            return if c.v & 1 == 1 { a } else { b };
        }
        let x = self.ve(a, w);
        let y = self.ve(b, w);
        let e = self.ex.ite(c.e, x, y);
        self.mk(e)
    }
    pub fn vext(&mut self, a: Val, lo: u16, w: u16) -> Val {
        if a.e == 0 {
            return cv((a.v >> lo) & mask(w));
        }
        let e = self.ex.extract(a.e, lo, w);
        self.mk(e)
    }
    pub fn vzext(&mut self, a: Val, w: u16) -> Val {
        if a.e == 0 {
            return a;
        }
        let e = self.ex.zext(a.e, w);
        self.mk(e)
    }
    pub fn vsext(&mut self, a: Val, from: u16, w: u16) -> Val {
        if a.e == 0 {
            return cv(sext(a.v, from) as u128 & mask(w));
        }
        let e = self.ex.sext(a.e, w);
        self.mk(e)
    }
    pub fn vconcat(&mut self, h: Val, hw: u16, l: Val, lw: u16) -> Val {
        if h.e == 0 && l.e == 0 {
            return cv((h.v << lw) | l.v);
        }
        let x = self.ve(h, hw);
        let y = self.ve(l, lw);
        let e = self.ex.concat(x, y);
        self.mk(e)
    }

    // ---------- solver ----------
    fn slice(&self, vars: u128) -> Vec<E> {
        let mut vars = vars;
        let n = self.pcs.len();
        let mut used = vec![false; n];
        let mut out = vec![];
        loop {
            let mut grew = false;
            for i in 0..n {
                if !used[i] {
                    let v = self.ex.n(self.pcs[i]).vars;
                    if v & vars != 0 {
                        used[i] = true;
                        out.push(self.pcs[i]);
                        if v & !vars != 0 {
                            vars |= v;
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                return out;
            }
        }
    }
    /// is pcs ∧ c satisfiable? on Sat returns the merged model
    fn sat_with(&mut self, c: E) -> R<Option<Rc<Vec<u128>>>> {
        if let Some(k) = self.ex.as_const(c) {
            return Ok(if k == 1 { Some(self.model.clone()) } else { None });
        }
        let vars = self.ex.n(c).vars;
        let mut q = self.slice(vars);
        let nc = self.ex.not1(c);
        for &x in &q {
            if x == c {
                return Ok(Some(self.model.clone())).and_then(|m| {
                    // c is already a path constraint: the current model satisfies it
                    Ok(m)
                });
            }
            if x == nc {
                return Ok(None);
            }
        }
        q.push(c);
        match self.solver.check(&self.ex, &q) {
            Sat::Sat(m) => {
                let mut v = (*self.model).clone();
                for (id, x) in m {
                    let id = id as usize;
                    if v.len() <= id {
                        v.resize(id + 1, 0);
                    }
                    v[id] = x;
                }
                Ok(Some(Rc::new(v)))
            }
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(End::Limit("solver returned unknown".into())),
        }
    }
    fn eval(&mut self, e: E) -> u128 {
        let m = self.model.clone();
        self.ex.eval(e, &m, self.mtag)
    }
    fn set_model(&mut self, m: Rc<Vec<u128>>) {
        self.model = m;
        self.mtag = self.next_tag;
        self.next_tag += 1;
    }
    fn add_pc(&mut self, c: E) {
        if self.ex.as_const(c) == Some(1) {
            return;
        }
        // split conjunctions for better independence slicing
        let n = *self.ex.n(c);
        if n.op == Op::And {
            self.add_pc(n.a);
            self.add_pc(n.b);
            return;
        }
        if !self.pcs.contains(&c) {
            self.pcs.push(c);
        }
    }
    fn small(&self) -> Small {
        let mut s = self.s.clone();
        s.pcs = self.pcs.len();
        s.inputs = self.inputs.len();
        s
    }
    fn push_pending(&mut self, cur: Frame, add: E, model: Rc<Vec<u128>>, forced: Option<u64>) {
        self.stats.forks += 1;
        let key = (self.cur.func.sym, self.cur.block);
        *self.stats.fork_sites.entry(key).or_insert(0) += 1;
        let small = self.small();
        let mark = self.mem.mark();
        let mtag = self.next_tag;
        self.next_tag += 1;
        self.pending.push(Pending {
            parents: self.parents.clone(),
            cur,
            small,
            add,
            model,
            mtag,
            mark,
            forced,
        });
    }
    /// Make `v` concrete on this path; other feasible values become pending
    /// states that re-execute the current instruction.
    pub fn concretize(&mut self, v: Val, w: u16) -> R<u128> {
        if v.e == 0 {
            return Ok(v.v);
        }
        let k = self.eval(v.e);
        let c = self.ex.cst(k, w);
        let eq = self.ex.bin(Op::Eq, v.e, c);
        let ne = self.ex.not1(eq);
        if let Some(m) = self.sat_with(ne)? {
            let f = self.cur.clone();
            self.push_pending(f, ne, m, None);
        }
        self.add_pc(eq);
        Ok(k)
    }
    /// Decide a symbolic condition; returns the side taken now.  `other` builds
    /// the frame from which the other side resumes.
    fn branch(&mut self, c: E, other: impl FnOnce(&mut Self, bool) -> Frame) -> R<bool> {
        let v = self.eval(c) == 1;
        let (yes, no) = {
            let n = self.ex.not1(c);
            if v {
                (c, n)
            } else {
                (n, c)
            }
        };
        match self.sat_with(no)? {
            Some(m) => {
                let f = other(self, !v);
                self.push_pending(f, no, m, None);
                self.add_pc(yes);
            }
            None => {
                self.stats.branch_unsat += 1;
            }
        }
        Ok(v)
    }

    // ---------- memory ----------
    #[inline]
    pub fn check_addr(&self, a: u64, n: u64) -> R<()> {
        let ok = (a >= GLOBALS && a + n <= HEAP)
            || (a >= HEAP && a + n <= self.s.heap)
            || (a >= STACK && a + n <= STACK_END);
        if ok || n == 0 {
            Ok(())
        } else {
            Err(End::Error(format!("invalid memory access at {a:#x} size {n}")))
        }
    }
    pub fn load_c(&mut self, a: u64, w: u16) -> R<Val> {
        let n = (w as u64).div_ceil(8);
        self.check_addr(a, n)?;
        if !self.mem.any_sym(a, n) {
            let v = self.mem.read(a, n);
            return Ok(cv(v & mask(w)));
        }
        let mut acc = self.byte_val(a + n - 1);
        let mut aw = 8;
        for i in (0..n - 1).rev() {
            let b = self.byte_val(a + i);
            acc = self.vconcat(acc, aw, b, 8);
            aw += 8;
        }
        if aw != w {
            acc = self.vext(acc, 0, w);
        }
        Ok(acc)
    }
    #[inline]
    pub fn byte_val(&self, a: u64) -> Val {
        let (d, e) = self.mem.byte(a);
        if e != 0 {
            Val { v: 0, e }
        } else {
            cv(d as u128)
        }
    }
    pub fn store_c(&mut self, a: u64, w: u16, v: Val) -> R<()> {
        let n = (w as u64).div_ceil(8);
        self.check_addr(a, n)?;
        if v.e == 0 {
            self.mem.write(a, n, v.v & mask(w));
            return Ok(());
        }
        let v = if n * 8 != w as u64 {
            self.vzext(v, (n * 8) as u16)
        } else {
            v
        };
        for i in 0..n {
            let b = self.vext(v, (8 * i) as u16, 8);
            if b.e == 0 {
                self.mem.write(a + i, 1, b.v);
            } else {
                self.mem.write(a + i, 1, 0);
                self.mem.write_sym(a + i, b.e);
            }
        }
        Ok(())
    }
    /// Constant leaves of an expression that is a small tree of Ite/Add-const.
    fn leaves(&mut self, e: E, out: &mut Vec<(E, u128)>, cond: E, cap: usize) -> bool {
        let n = *self.ex.n(e);
        match n.op {
            Op::Const => {
                out.push((cond, n.k));
                out.len() <= cap
            }
            Op::Ite => {
                let c1 = self.ex.bin(Op::And, cond, n.a);
                let nn = self.ex.not1(n.a);
                let c2 = self.ex.bin(Op::And, cond, nn);
                self.leaves(n.b, out, c1, cap) && self.leaves(n.c, out, c2, cap)
            }
            Op::Add => {
                if let Some(k) = self.ex.as_const(n.b) {
                    let s = out.len();
                    if !self.leaves(n.a, out, cond, cap) {
                        return false;
                    }
                    for x in &mut out[s..] {
                        x.1 = x.1.wrapping_add(k) & mask(n.w);
                    }
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    }
    /// All feasible values of `e` on this path (≤ cap), by the solver.
    fn feasible(&mut self, e: E, cap: usize) -> R<Option<Vec<u128>>> {
        let w = self.ex.w(e);
        let mut out = vec![];
        let k = self.eval(e);
        out.push(k);
        let c = self.ex.cst(k, w);
        let eq = self.ex.bin(Op::Eq, e, c);
        let mut excl = self.ex.not1(eq);
        loop {
            match self.sat_with(excl)? {
                None => {
                    out.sort_unstable();
                    return Ok(Some(out));
                }
                Some(m) => {
                    if out.len() >= cap {
                        return Ok(None);
                    }
                    let tag = self.next_tag;
                    self.next_tag += 1;
                    let k = self.ex.eval(e, &m, tag);
                    out.push(k);
                    let c = self.ex.cst(k, w);
                    let eq = self.ex.bin(Op::Eq, e, c);
                    let ne = self.ex.not1(eq);
                    excl = self.ex.bin(Op::And, excl, ne);
                }
            }
        }
    }
    /// Sorted candidate addresses for a symbolic address, covering every
    /// feasible value.
    fn candidates(&mut self, e: E, n: u64) -> R<Option<Vec<u64>>> {
        let mut lv = vec![];
        let one = self.ex.cst(1, 1);
        if self.leaves(e, &mut lv, one, 64) {
            let mut v: Vec<u64> = lv.iter().map(|x| x.1 as u64).collect();
            v.sort_unstable();
            v.dedup();
            if v.iter().all(|&a| self.check_addr(a, n).is_ok()) {
                return Ok(Some(v));
            }
        }
        // base + index with a tight interval
        let nd = *self.ex.n(e);
        if nd.hi - nd.lo <= 65536 {
            let stride = self.stride(e).max(1);
            let cnt = (nd.hi - nd.lo) / stride as u128 + 1;
            if cnt <= 1024 && (nd.hi - nd.lo) % stride as u128 == 0 {
                let v: Vec<u64> = (0..cnt).map(|i| (nd.lo + i * stride as u128) as u64).collect();
                if self.check_addr(v[0], v[v.len() - 1] - v[0] + n).is_ok() && cnt <= 256 {
                    return Ok(Some(v));
                }
            }
        }
        let cap = self.cfg.enum_cap;
        Ok(self
            .feasible(e, cap)?
            .map(|v| v.into_iter().map(|x| x as u64).collect()))
    }
    /// Every value of `e` is congruent to its interval's low end modulo this.
    fn stride(&self, e: E) -> u64 {
        fn gcd(a: u64, b: u64) -> u64 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let n = self.ex.n(e);
        match n.op {
            Op::Const => 0,
            Op::Add => gcd(self.stride(n.a), self.stride(n.b)),
            Op::Mul => match self.ex.as_const(n.b) {
                Some(k) if k < 1 << 20 => (k as u64).saturating_mul(self.stride(n.a).max(1)).min(1 << 40),
                _ => 1,
            },
            Op::Concat => {
                let l = self.ex.n(n.b);
                if l.op == Op::Const && l.w < 30 {
                    1 << l.w
                } else {
                    1
                }
            }
            Op::ZExt => self.stride(n.a),
            _ => 1,
        }
    }
    fn load_sym(&mut self, e: E, off: u64, w: u16, cands: &[u64]) -> R<Val> {
        // values per candidate, then a decision tree over address ranges
        let mut vals: Vec<(u64, Val)> = vec![];
        for &a in cands {
            let v = self.load_c(a.wrapping_add(off), w)?;
            vals.push((a, v));
        }
        // compress equal neighbours
        let mut runs: Vec<(u64, Val)> = vec![];
        for (a, v) in vals {
            if let Some(l) = runs.last() {
                if l.1.e == v.e && l.1.v == v.v {
                    continue;
                }
            }
            runs.push((a, v));
        }
        Ok(self.tree(e, w, &runs))
    }
    fn tree(&mut self, addr: E, w: u16, runs: &[(u64, Val)]) -> Val {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let l = self.tree(addr, w, &runs[..m]);
        let r = self.tree(addr, w, &runs[m..]);
        let k = self.ex.cst(runs[m].0 as u128, 64);
        let c = self.ex.bin(Op::Ult, addr, k);
        let c = self.mk(c);
        self.vite(c, w, l, r)
    }
    pub fn load(&mut self, p: Val, off: u64, w: u16) -> R<Val> {
        if p.e == 0 {
            return self.load_c((p.v as u64).wrapping_add(off), w);
        }
        self.stats.sym_loads += 1;
        let n = (w as u64).div_ceil(8) + off;
        match self.candidates(p.e, n)? {
            Some(c) if c.len() <= 1024 => self.load_sym(p.e, off, w, &c),
            _ => {
                let a = self.concretize(p, 64)?;
                self.load_c((a as u64).wrapping_add(off), w)
            }
        }
    }

    // ---------- inputs ----------
    pub fn new_var(&mut self, w: u16) -> (u32, E) {
        let id = self.s.next_var;
        self.s.next_var += 1;
        let e = self.ex.var(id, w);
        let m = Rc::make_mut(&mut self.model);
        if m.len() <= id as usize {
            m.resize(id as usize + 1, 0);
        }
        m[id as usize] = 0;
        self.mtag = self.next_tag;
        self.next_tag += 1;
        (id, e)
    }
    pub fn set_model_val(&mut self, id: u32, v: u128) {
        Rc::make_mut(&mut self.model)[id as usize] = v;
        self.mtag = self.next_tag;
        self.next_tag += 1;
    }
    pub fn log_input(&mut self, i: Input) {
        self.inputs.push(i);
    }
    pub fn next_concrete(&mut self, kind: char) -> R<Option<Vec<u128>>> {
        let Some(c) = &self.cfg.concrete else {
            return Ok(None);
        };
        let Some((k, v)) = c.get(self.conc_pos) else {
            return Err(End::Error("concrete inputs exhausted".into()));
        };
        if *k != kind {
            return Err(End::Error(format!("concrete input kind {k} expected {kind}")));
        }
        self.conc_pos += 1;
        Ok(Some(v.clone()))
    }
    pub fn choice(&mut self, n: u64) -> R<u64> {
        if let Some(v) = self.next_concrete('c')? {
            self.inputs.push(Input::Choice(v[0] as u64));
            return Ok(v[0] as u64);
        }
        if let Some(k) = self.forced.take() {
            self.inputs.push(Input::Choice(k));
            return Ok(k);
        }
        if n == 0 {
            return Err(End::Error("sx_choice(0)".into()));
        }
        let t = self.ex.cst(1, 1);
        for k in (1..n).rev() {
            let f = self.cur.clone();
            let m = self.model.clone();
            self.push_pending(f, t, m, Some(k));
        }
        self.inputs.push(Input::Choice(0));
        Ok(0)
    }
    fn render_inputs(&mut self, model: &[u128]) -> Vec<String> {
        let mut out = vec![];
        for i in &self.inputs {
            out.push(match i {
                Input::Bytes(f, n) => {
                    let mut s = String::from("b ");
                    for k in 0..*n {
                        s += &format!(
                            "{:02x}",
                            model.get((f + k) as usize).copied().unwrap_or(0) as u8
                        );
                    }
                    s
                }
                Input::Word(v, w) => format!(
                    "w {}",
                    model.get(*v as usize).copied().unwrap_or(0) & mask(*w)
                ),
                Input::Choice(k) => format!("c {k}"),
            });
        }
        out
    }
    pub fn backtrace(&self) -> Vec<String> {
        let mut v = vec![self.cur.func.name.clone()];
        for f in self.parents.iter().rev() {
            v.push(f.func.name.clone());
        }
        v.iter().map(|n| demangle(n)).collect()
    }
    pub fn violation(&mut self, kind: &str, msg: String, at: String, model: &[u128]) {
        self.stats.violated += 1;
        let inputs = self.render_inputs(model);
        let now = self.start.elapsed().as_millis() as u64;
        let _ = self.shared.first_violation_ms.compare_exchange(
            0,
            now.max(1),
            Ordering::SeqCst,
            Ordering::SeqCst,
        );
        let same = self
            .violations
            .iter()
            .filter(|v| v.kind == kind && v.msg == msg && v.at == at)
            .count();
        if same >= 3 || self.violations.len() > 60 {
            return;
        }
        let stack = self.backtrace();
        if self.cfg.verbose {
            eprintln!("violation {kind} {msg} {at} inputs {inputs:?}");
        }
        self.violations.push(Violation {
            kind: kind.into(),
            msg,
            at,
            stack,
            inputs,
        });
    }
    pub fn cur_model(&self) -> Rc<Vec<u128>> {
        self.model.clone()
    }
    pub fn sx_assert(&mut self, c: Val, msg: String) -> R<()> {
        if c.e == 0 {
            self.stats.asserts_concrete += 1;
            if c.v & 1 == 1 {
                return Ok(());
            }
            let m = self.model.clone();
            self.violation("assert", msg, String::new(), &m);
            return Err(End::Violated);
        }
        self.stats.asserts_solver += 1;
        let n = self.ex.not1(c.e);
        if let Some(m) = self.sat_with(n)? {
            let m2 = m.clone();
            self.violation("assert", msg, String::new(), &m2);
            // continue with the inputs for which it holds
            match self.sat_with(c.e)? {
                Some(m) => {
                    self.set_model(m);
                    self.add_pc(c.e);
                    Ok(())
                }
                None => Err(End::Violated),
            }
        } else {
            Ok(())
        }
    }
    pub fn sx_assume(&mut self, c: Val) -> R<()> {
        if c.e == 0 {
            return if c.v & 1 == 1 {
                Ok(())
            } else {
                Err(End::Assumed)
            };
        }
        if self.eval(c.e) != 1 {
            match self.sat_with(c.e)? {
                Some(m) => self.set_model(m),
                None => return Err(End::Assumed),
            }
        }
        self.add_pc(c.e);
        Ok(())
    }
    pub fn cover(&mut self, name: String) {
        if !self.stats.cover_inputs.contains_key(&name) {
            let m = self.model.clone();
            let i = self.render_inputs(&m);
            self.stats.cover_inputs.insert(name.clone(), i);
        }
        *self.stats.covers.entry(name).or_insert(0) += 1;
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> R<u64> {
        let a = round_up(self.s.heap + 16, align.max(16));
        if a + n + 32 >= STACK || n > (1 << 30) {
            return Err(End::Limit(format!("heap exhausted (allocation of {n})")));
        }
        self.s.heap = a + n;
        self.mem.write(a - 16, 8, n as u128);
        Ok(a)
    }
    pub fn realloc(&mut self, p: u64, n: u64, align: u64) -> R<u64> {
        if p == 0 {
            return self.alloc(n, align);
        }
        let old = self.mem.read(p - 16, 8) as u64;
        if p + old == self.s.heap && p + n < STACK {
            if n > old {
                self.s.heap = p + n;
            }
            self.mem.write(p - 16, 8, n as u128);
            if n < old {
                // keep the top where it is so that reused bytes stay fresh
                self.mem.write(p - 16, 8, old as u128);
            }
            return Ok(p);
        }
        if n <= old {
            return Ok(p);
        }
        let q = self.alloc(n, align)?;
        self.mem.copy(q, p, old.min(n));
        Ok(q)
    }
    pub fn tick(&mut self) -> u64 {
        self.s.clock += 1000;
        self.s.clock
    }
    pub fn cstr(&self, p: u64, n: u64) -> String {
        String::from_utf8_lossy(self.mem.slice(p, n)).into_owned()
    }

    // ---------- driver ----------
    pub fn sym_of(&self, name: &str) -> Option<u32> {
        self.st.borrow().by_name.get(name).copied()
    }
    fn func(&self, sym: u32) -> Rc<Func> {
        if let Some(f) = &self.st.borrow().syms[sym as usize].func {
            return f.clone();
        }
        self.prog.decode(&self.st, sym)
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let sym = self.sym_of(entry).ok_or(format!("no function {entry}"))?;
        let f = self.func(sym);
        self.stats.funcs.insert(sym);
        self.cur = Frame {
            regs: vec![Val::default(); f.nregs],
            func: f,
            block: 0,
            pc: 0,
            sp: self.s.sp,
        };
        loop {
            let base = self.s.depth_instr;
            let r = self.exec_path();
            let _ = base;
            self.stats.max_path = self.stats.max_path.max(self.s.depth_instr);
            match r {
                End::Done => {
                    self.stats.paths += 1;
                    self.shared.paths.fetch_add(1, Ordering::Relaxed);
                }
                End::Assumed => self.stats.assumed += 1,
                End::Violated => {
                    self.stats.paths += 1;
                }
                End::Limit(m) => *self.stats.limits.entry(m).or_insert(0) += 1,
                End::Error(m) => {
                    if self.cfg.verbose {
                        eprintln!("error: {m}\n  {}", self.backtrace().join("\n  "));
                    }
                    let bt = self.backtrace();
                    let k = format!(
                        "{m} [in {}]",
                        bt.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")
                    );
                    *self.stats.errors.entry(k).or_insert(0) += 1
                }
            }
            if self.out_of_time() {
                if !self.pending.is_empty() {
                    *self
                        .stats
                        .limits
                        .entry("time limit with unexplored paths".into())
                        .or_insert(0) += 1;
                }
                break;
            }
            match self.pending.pop() {
                None => break,
                Some(p) => self.resume(p),
            }
        }
        Ok(())
    }
    fn out_of_time(&self) -> bool {
        if self.shared.stop.load(Ordering::Relaxed) != 0 {
            return true;
        }
        let t = self.start.elapsed();
        if t > Duration::from_secs(self.cfg.max_secs) {
            return true;
        }
        let v = self.shared.first_violation_ms.load(Ordering::Relaxed);
        v != 0 && t.as_millis() as u64 > v + self.cfg.after_violation_secs * 1000
    }
    fn resume(&mut self, p: Pending) {
        self.mem.undo(p.mark);
        self.parents = p.parents;
        self.cur = p.cur;
        self.pcs.truncate(p.small.pcs);
        self.inputs.truncate(p.small.inputs);
        self.s = p.small;
        self.model = p.model;
        self.mtag = p.mtag;
        self.forced = p.forced;
        self.add_pc(p.add);
        self.maybe_spawn();
    }
    /// Hand the oldest pending state to a new worker process.
    fn maybe_spawn(&mut self) {
        if self.cfg.workers <= 1 || self.pending.is_empty() {
            return;
        }
        if self.last_spawn.elapsed() < Duration::from_millis(30) {
            return;
        }
        if self.shared.live.load(Ordering::Relaxed) >= self.cfg.workers {
            return;
        }
        if self.shared.live.fetch_add(1, Ordering::SeqCst) >= self.cfg.workers {
            self.shared.live.fetch_sub(1, Ordering::SeqCst);
            return;
        }
        self.last_spawn = Instant::now();
        let pid = unsafe { fork() };
        if pid < 0 {
            self.shared.live.fetch_sub(1, Ordering::SeqCst);
            return;
        }
        if pid == 0 {
            self.is_child = true;
            self.children.clear();
            self.violations.clear();
            self.stats = Stats::default();
            self.solver.reset_stats();
            let p = self.pending.remove(0);
            self.pending.clear();
            self.resume(p);
        } else {
            self.children.push(pid);
            self.pending.remove(0);
        }
    }

    fn exec_path(&mut self) -> End {
        loop {
            // time check once per batch
            for _ in 0..4096 {
                match self.step() {
                    Ok(true) => {}
                    Ok(false) => return End::Done,
                    Err(e) => return e,
                }
            }
            if self.s.depth_instr > self.cfg.max_path_instr {
                let m = self.cur_model();
                self.violation("hang", "path instruction limit".into(), String::new(), &m);
                return End::Limit("path instruction limit".into());
            }
            if self.out_of_time() {
                return End::Limit("time limit".into());
            }
        }
    }
    fn enter(&mut self, b: u32) {
        let from = self.cur.block;
        let f = self.cur.func.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                for (fb, o) in &p.inc {
                    if *fb == from {
                        for k in 0..p.n {
                            tmp.push((p.dst + k, self.get(o, k as usize)));
                        }
                        break;
                    }
                }
            }
            for (d, v) in tmp {
                self.cur.regs[d as usize] = v;
            }
        }
        self.cur.block = b;
        self.cur.pc = 0;
    }
    fn frame_at(&mut self, b: u32) -> Frame {
        let save = self.cur.clone();
        self.enter(b);
        std::mem::replace(&mut self.cur, save)
    }

    fn step(&mut self) -> R<bool> {
        let fp: *const Func = &*self.cur.func;
        let ins = unsafe { &(&(*fp).blocks)[self.cur.block as usize].ins[self.cur.pc as usize] };
        self.s.depth_instr += 1;
        self.stats.instrs += 1;
        match ins {
            I::Bin(op, w, n, d, a, b) => {
                for k in 0..*n as usize {
                    let (x, y) = (self.get(a, k), self.get(b, k));
                    let r = self.bin(*op, *w, x, y)?;
                    self.set(d + k as u32, r);
                }
            }
            I::Icmp(p, w, n, d, a, b) => {
                for k in 0..*n as usize {
                    let (x, y) = (self.get(a, k), self.get(b, k));
                    let r = self.icmp(*p, *w, x, y);
                    self.set(d + k as u32, r);
                }
            }
            I::Cast(k, w1, w2, n, d, a) => {
                for i in 0..*n as usize {
                    let x = self.get(a, i);
                    let r = self.cast(*k, *w1, *w2, x)?;
                    self.set(d + i as u32, r);
                }
            }
            I::Select(ws, vector, d, c, a, b) => {
                for k in 0..ws.len() {
                    let cc = self.get(c, if *vector { k } else { 0 });
                    let (x, y) = (self.get(a, k), self.get(b, k));
                    let r = self.vite(cc, ws[k], x, y);
                    self.set(d + k as u32, r);
                }
            }
            I::Load(d, flat, p) => {
                let pv = self.get(p, 0);
                if pv.e == 0 {
                    for (k, (o, w)) in flat.iter().enumerate() {
                        let r = self.load_c((pv.v as u64).wrapping_add(*o), *w)?;
                        self.set(d + k as u32, r);
                    }
                } else {
                    let mut tmp = Vec::with_capacity(flat.len());
                    for (o, w) in flat.iter() {
                        tmp.push(self.load(pv, *o, *w)?);
                    }
                    for (k, v) in tmp.into_iter().enumerate() {
                        self.set(d + k as u32, v);
                    }
                }
            }
            I::Store(flat, v, p) => {
                let pv = self.get(p, 0);
                if pv.e == 0 {
                    for (k, (o, w)) in flat.iter().enumerate() {
                        let x = self.get(v, k);
                        self.store_c((pv.v as u64).wrapping_add(*o), *w, x)?;
                    }
                } else {
                    self.stats.sym_stores += 1;
                    let n = flat.last().map(|x| x.0 + (x.1 as u64).div_ceil(8)).unwrap_or(0);
                    let c = self.candidates(pv.e, n)?;
                    match c {
                        Some(c) if c.len() <= 128 => {
                            for a in c {
                                let k = self.ex.cst(a as u128, 64);
                                let eq = self.ex.bin(Op::Eq, pv.e, k);
                                let eq = self.mk(eq);
                                for (i, (o, w)) in flat.iter().enumerate() {
                                    let x = self.get(v, i);
                                    let old = self.load_c(a.wrapping_add(*o), *w)?;
                                    let nv = self.vite(eq, *w, x, old);
                                    self.store_c(a.wrapping_add(*o), *w, nv)?;
                                }
                            }
                        }
                        _ => {
                            let a = self.concretize(pv, 64)? as u64;
                            for (k, (o, w)) in flat.iter().enumerate() {
                                let x = self.get(v, k);
                                self.store_c(a.wrapping_add(*o), *w, x)?;
                            }
                        }
                    }
                }
            }
            I::Gep(d, base, off, idx) => {
                let mut v = self.get(base, 0);
                if *off != 0 {
                    v = self.op2(Op::Add, 64, v, cv(*off as u64 as u128));
                }
                for (o, w, scale) in idx {
                    let i = self.get(o, 0);
                    if i.e == 0 {
                        let x = (sext(i.v, *w) as i64).wrapping_mul(*scale);
                        v = self.op2(Op::Add, 64, v, cv(x as u64 as u128));
                    } else {
                        let i = if *w < 64 { self.vsext(i, *w, 64) } else { i };
                        let x = self.op2(Op::Mul, 64, i, cv(*scale as u64 as u128));
                        v = self.op2(Op::Add, 64, v, x);
                    }
                }
                self.set(*d, v);
            }
            I::Alloca(d, size, align, count) => {
                let n = self.get(count, 0);
                let n = self.concretize(n, 64)? as u64;
                let a = round_up(self.s.sp, *align);
                self.s.sp = a + size * n;
                if self.s.sp >= STACK_END - 4096 {
                    let m = self.cur_model();
                    self.violation("hang", "stack overflow".into(), String::new(), &m);
                    return Err(End::Limit("stack overflow".into()));
                }
                self.set(*d, cv(a as u128));
            }
            I::Move(d, n, src, off) => {
                for k in 0..*n {
                    let v = self.get(src, (off + k) as usize);
                    self.set(d + k, v);
                }
            }
            I::InsertVal(d, n, agg, off, m, val) => {
                for k in 0..*n {
                    let v = if k >= *off && k < off + m {
                        self.get(val, (k - off) as usize)
                    } else {
                        self.get(agg, k as usize)
                    };
                    self.set(d + k, v);
                }
            }
            I::ExtractElt(d, w, n, v, i) => {
                let iv = self.get(i, 0);
                let k = self.concretize(iv, 64)? as usize;
                let _ = w;
                let x = if k < *n as usize { self.get(v, k) } else { cv(0) };
                self.set(*d, x);
            }
            I::InsertElt(d, _w, n, v, x, i) => {
                let iv = self.get(i, 0);
                let j = self.concretize(iv, 64)? as usize;
                for k in 0..*n as usize {
                    let y = if k == j { self.get(x, 0) } else { self.get(v, k) };
                    self.set(d + k as u32, y);
                }
            }
            I::Shuffle(d, n, a, b, m) => {
                let vals: Vec<Val> = m
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            cv(0)
                        } else if (i as u32) < *n {
                            self.get(a, i as usize)
                        } else {
                            self.get(b, (i as u32 - n) as usize)
                        }
                    })
                    .collect();
                for (k, v) in vals.into_iter().enumerate() {
                    self.set(d + k as u32, v);
                }
            }
            I::Bitcast(w1, n1, w2, n2, d, a) => {
                let mut bits: Vec<Val> = vec![];
                for k in 0..*n1 as usize {
                    bits.push(self.get(a, k));
                }
                let total = *w1 as u32 * *n1;
                let mut out = vec![];
                for k in 0..*n2 {
                    let lo = k * *w2 as u32;
                    let hi = lo + *w2 as u32;
                    debug_assert!(hi <= total);
                    let mut acc: Option<(Val, u16)> = None;
                    let mut p = lo;
                    while p < hi {
                        let i = p / *w1 as u32;
                        let o = p % *w1 as u32;
                        let t = (*w1 as u32 - o).min(hi - p);
                        let piece = self.vext(bits[i as usize], o as u16, t as u16);
                        acc = Some(match acc {
                            None => (piece, t as u16),
                            Some((v, vw)) => {
                                (self.vconcat(piece, t as u16, v, vw), vw + t as u16)
                            }
                        });
                        p += t;
                    }
                    out.push(acc.unwrap().0);
                }
                for (k, v) in out.into_iter().enumerate() {
                    self.set(d + k as u32, v);
                }
            }
            I::Cmpxchg(d, w, p, c, n) => {
                let pv = self.get(p, 0);
                let a = self.concretize(pv, 64)? as u64;
                let old = self.load_c(a, *w)?;
                let (cc, nn) = (self.get(c, 0), self.get(n, 0));
                let eq = self.op2(Op::Eq, *w, old, cc);
                let nv = self.vite(eq, *w, nn, old);
                self.store_c(a, *w, nv)?;
                self.set(*d, old);
                self.set(d + 1, eq);
            }
            I::Rmw(op, d, w, p, v) => {
                let pv = self.get(p, 0);
                let a = self.concretize(pv, 64)? as u64;
                let old = self.load_c(a, *w)?;
                let x = self.get(v, 0);
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.op2(Op::Add, *w, old, x),
                    "sub" => self.op2(Op::Sub, *w, old, x),
                    "and" => self.op2(Op::And, *w, old, x),
                    "or" => self.op2(Op::Or, *w, old, x),
                    "xor" => self.op2(Op::Xor, *w, old, x),
                    "nand" => {
                        let t = self.op2(Op::And, *w, old, x);
                        self.op2(Op::Xor, *w, t, cv(mask(*w)))
                    }
                    "umax" | "umin" | "max" | "min" => {
                        let lt = self.op2(
                            if op.starts_with('u') { Op::Ult } else { Op::Slt },
                            *w,
                            old,
                            x,
                        );
                        if op.ends_with("max") {
                            self.vite(lt, *w, x, old)
                        } else {
                            self.vite(lt, *w, old, x)
                        }
                    }
                    _ => return Err(End::Error(format!("atomicrmw {op}"))),
                };
                self.store_c(a, *w, nv)?;
                self.set(*d, old);
            }
            I::Nop => {}
            I::FBin(op, w, n, d, a, b) => {
                for k in 0..*n as usize {
                    let (x, y) = (self.get(a, k), self.get(b, k));
                    if x.e != 0 || y.e != 0 {
                        return Err(End::Error("symbolic floating point".into()));
                    }
                    let r = if *w == 64 {
                        let (x, y) = (f64::from_bits(x.v as u64), f64::from_bits(y.v as u64));
                        fop64(*op, x, y).to_bits() as u128
                    } else {
                        let (x, y) = (f32::from_bits(x.v as u32), f32::from_bits(y.v as u32));
                        fop32(*op, x, y).to_bits() as u128
                    };
                    self.set(d + k as u32, cv(r));
                }
            }
            I::FNeg(w, n, d, a) => {
                for k in 0..*n as usize {
                    let x = self.get(a, k);
                    let r = self.op2(Op::Xor, *w, x, cv(1u128 << (w - 1)));
                    self.set(d + k as u32, r);
                }
            }
            I::FCmp(p, w, d, a, b) => {
                let (x, y) = (self.get(a, 0), self.get(b, 0));
                if x.e != 0 || y.e != 0 {
                    return Err(End::Error("symbolic floating point".into()));
                }
                let (x, y) = if *w == 64 {
                    (f64::from_bits(x.v as u64), f64::from_bits(y.v as u64))
                } else {
                    (
                        f32::from_bits(x.v as u32) as f64,
                        f32::from_bits(y.v as u32) as f64,
                    )
                };
                let uno = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !uno && x != y,
                    "ord" => !uno,
                    "ueq" => uno || x == y,
                    "ugt" => uno || x > y,
                    "uge" => uno || x >= y,
                    "ult" => uno || x < y,
                    "ule" => uno || x <= y,
                    "une" => uno || x != y,
                    "uno" => uno,
                    _ => return Err(End::Error(format!("fcmp {p}"))),
                };
                self.set(*d, cv(r as u128));
            }
            I::Br(b) => {
                self.enter(*b);
                return Ok(true);
            }
            I::CondBr(c, a, b) => {
                let v = self.get(c, 0);
                let (a, b) = (*a, *b);
                let t = if v.e == 0 {
                    v.v & 1 == 1
                } else {
                    self.branch(v.e, |s, side| s.frame_at(if side { a } else { b }))?
                };
                self.enter(if t { a } else { b });
                return Ok(true);
            }
            I::Switch(w, v, d, cases) => {
                let x = self.get(v, 0);
                if x.e == 0 {
                    let mut t = *d;
                    for (k, b) in cases {
                        if *k == x.v {
                            t = *b;
                            break;
                        }
                    }
                    self.enter(t);
                    return Ok(true);
                }
                // group by target; the default is everything else
                let k = self.eval(x.e);
                let mut tgt = *d;
                for (c, b) in cases {
                    if *c == k {
                        tgt = *b;
                    }
                }
                let mut groups: Vec<(u32, E)> = vec![];
                let mut any = self.ex.cst(0, 1);
                for (c, b) in cases {
                    let ce = self.ex.cst(*c, *w);
                    let eq = self.ex.bin(Op::Eq, x.e, ce);
                    any = self.ex.bin(Op::Or, any, eq);
                    match groups.iter_mut().find(|g| g.0 == *b) {
                        Some(g) => g.1 = self.ex.bin(Op::Or, g.1, eq),
                        None => groups.push((*b, eq)),
                    }
                }
                let none = self.ex.not1(any);
                match groups.iter_mut().find(|g| g.0 == *d) {
                    Some(g) => g.1 = self.ex.bin(Op::Or, g.1, none),
                    None => groups.push((*d, none)),
                }
                let mut taken = 0;
                for (b, c) in groups {
                    if b == tgt {
                        taken = c;
                        continue;
                    }
                    if let Some(m) = self.sat_with(c)? {
                        let f = self.frame_at(b);
                        self.push_pending(f, c, m, None);
                    }
                }
                self.add_pc(taken);
                self.enter(tgt);
                return Ok(true);
            }
            I::Ret(v, n) => {
                let vals: Vec<Val> = (0..*n as usize).map(|k| self.get(v, k)).collect();
                return self.ret(&vals);
            }
            I::Unreachable => {
                return Err(End::Error("reached `unreachable`".into()));
            }
            I::Unsupported(s) => {
                return Err(End::Error(format!("unsupported instruction {s}")));
            }
            I::Call(c) => return self.call(c),
        }
        self.cur.pc += 1;
        Ok(true)
    }
    fn ret(&mut self, vals: &[Val]) -> R<bool> {
        self.s.sp = self.cur.sp;
        match self.parents.pop() {
            None => Ok(false),
            Some(p) => {
                self.cur = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                let f = self.cur.func.clone();
                let ins = &f.blocks[self.cur.block as usize].ins[self.cur.pc as usize];
                let I::Call(c) = ins else { unreachable!() };
                self.finish_call(c, vals);
                Ok(true)
            }
        }
    }
    pub fn finish_call(&mut self, c: &CallI, vals: &[Val]) {
        if c.dst != u32::MAX {
            for (k, v) in vals.iter().enumerate() {
                self.cur.regs[c.dst as usize + k] = *v;
            }
        }
        match c.normal {
            Some(b) => self.enter(b),
            None => self.cur.pc += 1,
        }
    }
    fn call(&mut self, c: &CallI) -> R<bool> {
        let sym = match &c.callee {
            Callee::Sym(s) => *s,
            Callee::Asm(t) => {
                let mut args = vec![];
                for (o, ws) in &c.args {
                    for k in 0..ws.len() {
                        args.push(self.get(o, k));
                    }
                }
                let r = self.asm(t, &args, c.rets.len())?;
                self.finish_call(c, &r);
                return Ok(true);
            }
            Callee::Ind(o) => {
                let v = self.get(o, 0);
                let a = self.concretize(v, 64)? as u64;
                if self.addr_sym.is_empty() || !self.addr_sym.contains_key(&a) {
                    let t = self.st.borrow();
                    for (i, s) in t.syms.iter().enumerate() {
                        if s.is_func {
                            self.addr_sym.insert(s.addr, i as u32);
                        }
                    }
                }
                match self.addr_sym.get(&a) {
                    Some(s) => *s,
                    None => return Err(End::Error(format!("call of bad pointer {a:#x}"))),
                }
            }
        };
        let b = match self.builtin_cache.get(&sym) {
            Some(b) => *b,
            None => {
                let (name, has) = {
                    let t = self.st.borrow();
                    let s = &t.syms[sym as usize];
                    (s.name.clone(), s.body.is_some())
                };
                let b = crate::builtins::lookup(&name, has);
                if b.is_none() && !has {
                    return Err(End::Error(format!("call of undefined function {name}")));
                }
                self.builtin_cache.insert(sym, b);
                b
            }
        };
        if let Some(b) = b {
            let mut args: Vec<(Val, u16)> = Vec::with_capacity(4);
            for (o, ws) in &c.args {
                for k in 0..ws.len() {
                    args.push((self.get(o, k), ws[k]));
                }
            }
            let r = self.builtin(b, sym, &args, &c.rets, c)?;
            self.finish_call(c, &r);
            return Ok(true);
        }
        let f = self.func(sym);
        if self.cfg.trace_calls {
            let mut s = String::new();
            for (o, ws) in &c.args {
                for k in 0..ws.len() {
                    let v = self.get(o, k);
                    s += &if v.e == 0 {
                        format!(" {:x}", v.v)
                    } else {
                        format!(" {}", self.ex.show(v.e, 4))
                    };
                }
            }
            eprintln!("{:1$}{2}({3})", "", self.parents.len(), demangle(&f.name), s);
        }
        self.stats.funcs.insert(sym);
        let mut regs = vec![Val::default(); f.nregs];
        for (i, (o, ws)) in c.args.iter().enumerate() {
            if let Some((slot, n)) = f.params.get(i) {
                debug_assert_eq!(*n as usize, ws.len());
                for k in 0..(*n as usize).min(ws.len()) {
                    regs[*slot as usize + k] = self.get(o, k);
                }
            }
        }
        let nf = Frame {
            func: f,
            regs,
            block: 0,
            pc: 0,
            sp: self.s.sp,
        };
        let old = std::mem::replace(&mut self.cur, nf);
        self.parents.push(Rc::new(old));
        if self.parents.len() > 4000 {
            return Err(End::Limit("call depth limit".into()));
        }
        Ok(true)
    }
    fn asm(&mut self, t: &str, args: &[Val], nret: usize) -> R<Vec<Val>> {
        if t.contains("cpuid") || t.contains("xgetbv") {
            return Ok(vec![cv(0); nret]);
        }
        if t.trim_matches(|c: char| c == ' ' || c == '|').starts_with('=')
            || t.starts_with(" |")
            || nret <= args.len() && t.split('|').next().map(|s| s.trim().is_empty()).unwrap_or(false)
        {
            // empty asm (black_box style): identity on tied operands
            return Ok((0..nret).map(|k| args.get(k).copied().unwrap_or(cv(0))).collect());
        }
        if t.contains("pause") || t.contains("nop") {
            return Ok(vec![cv(0); nret]);
        }
        Err(End::Error(format!("inline asm {t}")))
    }
    pub fn bin(&mut self, op: BOp, w: u16, a: Val, b: Val) -> R<Val> {
        let o = match op {
            BOp::Add => Op::Add,
            BOp::Sub => Op::Sub,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem,
            BOp::SRem => Op::SRem,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
        };
        Ok(self.op2(o, w, a, b))
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: Val, b: Val) -> Val {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        let r = self.op2(op, w, a, b);
        if neg {
            if r.e == 0 {
                cv(r.v ^ 1)
            } else {
                let e = self.ex.not1(r.e);
                self.mk(e)
            }
        } else {
            r
        }
    }
    fn cast(&mut self, k: CastK, w1: u16, w2: u16, x: Val) -> R<Val> {
        Ok(match k {
            CastK::Trunc => self.vext(x, 0, w2),
            CastK::ZExt => self.vzext(x, w2),
            CastK::SExt => self.vsext(x, w1, w2),
            CastK::Move => x,
            _ => {
                if x.e != 0 {
                    let v = self.concretize(x, w1)?;
                    return self.cast(k, w1, w2, cv(v));
                }
                let f = |v: u128, w: u16| {
                    if w == 64 {
                        f64::from_bits(v as u64)
                    } else {
                        f32::from_bits(v as u32) as f64
                    }
                };
                let tf = |d: f64, w: u16| {
                    if w == 64 {
                        d.to_bits() as u128
                    } else {
                        (d as f32).to_bits() as u128
                    }
                };
                cv(match k {
                    CastK::FpToUi => f(x.v, w1) as u128 & mask(w2),
                    CastK::FpToSi => (f(x.v, w1) as i128 as u128) & mask(w2),
                    CastK::UiToFp => {
                        if w2 == 64 {
                            (x.v as f64).to_bits() as u128
                        } else {
                            (x.v as f32).to_bits() as u128
                        }
                    }
                    CastK::SiToFp => {
                        let s = sext(x.v, w1);
                        if w2 == 64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    CastK::FpTrunc | CastK::FpExt => tf(f(x.v, w1), w2),
                    _ => unreachable!(),
                })
            }
        })
    }
}

fn fop64(op: FOp, x: f64, y: f64) -> f64 {
    match op {
        FOp::Add => x + y,
        FOp::Sub => x - y,
        FOp::Mul => x * y,
        FOp::Div => x / y,
        FOp::Rem => x % y,
    }
}
fn fop32(op: FOp, x: f32, y: f32) -> f32 {
    match op {
        FOp::Add => x + y,
        FOp::Sub => x - y,
        FOp::Mul => x * y,
        FOp::Div => x / y,
        FOp::Rem => x % y,
    }
}

/// Legacy-mangled Rust names, roughly.
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_ZN") else {
        return s.to_string();
    };
    let r = r.split(".llvm.").next().unwrap();
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            return s.to_string();
        }
        parts.push(r[i..i + n].to_string());
        i += n;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    parts
        .join("::")
        .replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("$RF$", "&")
        .replace("$BP$", "*")
        .replace("$C$", ",")
        .replace("$LP$", "(")
        .replace("$RP$", ")")
        .replace("..", "::")
}
