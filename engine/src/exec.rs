//! Symbolic execution of LLVM IR with path forking.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { N, S(E), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<E>, pub writable: bool }

#[derive(Clone)]
struct Frame {
    f: Arc<Func>,
    blk: u32,
    ip: u32,
    locals: Vec<Val>,
    dst: Option<Slot>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pc: Rc<Vec<E>>,
    known: FxMap<E, bool>,
    /// Terms known to equal a constant on this path.
    eqs: FxMap<E, u128>,
    model: Rc<Model>,
    mems: Vec<Rc<Vec<(E, E)>>>,
    /// Word indices used so far, known to denote different terms, and the representatives of the others.
    addrs: Rc<Vec<E>>,
    alias: Rc<FxMap<E, E>>,
    nany: u32,
    pending: Vec<(E, Rc<str>)>,
    panic_ok: u32,
    steps: u64,
    covers: BTreeSet<String>,
    notes: Vec<(String, E)>,
}

pub enum Stop { Retry, Kill, End(PathEnd), Err(String) }
pub enum PathEnd { Return, Panic(String) }
type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub what: String, pub anys: Vec<(u32, u128)>, pub arrs: Vec<(u32, u128, u128)>, pub notes: Vec<(String, u128)> }

#[derive(Default)]
pub struct UnitResult {
    pub paths: u64,
    pub killed: u64,
    pub panics_ok: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_syntactic: u64,
    pub violations: Vec<Violation>,
    pub error: Option<String>,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cross: u64,
    pub solver_s: f64,
    pub solver_max: f64,
    pub wall: f64,
    pub concrete_notes: Vec<Vec<(String, u128)>>,
    pub concrete_ends: Vec<String>,
    pub samples: Vec<Violation>,
    /// Violating paths, the repeated ones included.
    pub violating: u64,
}

pub struct Limits { pub max_paths: u64, pub max_steps: u64, pub max_secs: f64, pub max_violations: usize }

pub struct Engine<'a> {
    pub m: &'a Module,
    pub mc: &'a ModCtx,
    pub cx: Ctx,
    pub solver: Solver,
    sym_addr: &'a HashMap<u32, u64>,
    addr_sym: &'a BTreeMap<u64, (u32, u64)>,
    globals: HashMap<u32, Rc<Obj>>,
    work: Vec<State>,
    pub params: Vec<u64>,
    pub res: UnitResult,
    pub lim: Limits,
    undef: E,
    called: std::collections::HashSet<u32>,
    stubs: Vec<String>,
    /// Concrete mode: values for the inputs (used for replay inside the engine and self tests).
    pub concrete: Option<Violation>,
    /// Texts of the violations of this unit that are known findings; number of the others.
    pub known: Vec<String>,
    pub fresh: u64,
    pub trace: bool,
    pub forks: BTreeMap<String, u64>,
    pub no_cut: bool,
}

const FN_BASE: u64 = 0x1000_0000;
const GL_BASE: u64 = 0x2000_0000;
const DYN_BASE: u64 = 0x40_0000_0000;

pub fn layout(m: &Module) -> (HashMap<u32, u64>, BTreeMap<u64, (u32, u64)>) {
    let mut sa = HashMap::new();
    let mut as_ = BTreeMap::new();
    let mut g = GL_BASE;
    for (i, s) in m.syms.iter().enumerate() {
        match s {
            Sym::Func { .. } => { let a = FN_BASE + i as u64 * 16; sa.insert(i as u32, a); as_.insert(a, (i as u32, 1)); }
            Sym::Var(v) => {
                let al = v.align.max(16);
                g = (g + al - 1) / al * al;
                let sz = v.ty.size();
                sa.insert(i as u32, g);
                as_.insert(g, (i as u32, sz));
                g += sz + 64;
            }
            Sym::Unknown(_) => { sa.insert(i as u32, g); as_.insert(g, (i as u32, 0)); g += 64; }
        }
    }
    (sa, as_)
}

macro_rules! err { ($($t:tt)*) => { return Err(Stop::Err(format!($($t)*))) } }

impl<'a> Engine<'a> {
    pub fn new(m: &'a Module, mc: &'a ModCtx, lay: &'a (HashMap<u32, u64>, BTreeMap<u64, (u32, u64)>), solver: Solver, lim: Limits) -> Self {
        let mut cx = Ctx::new();
        let undef = cx.var("undef", 8);
        Engine { m, mc, cx, solver, sym_addr: &lay.0, addr_sym: &lay.1, globals: HashMap::new(), work: vec![], params: vec![], res: Default::default(), lim, undef,
            called: Default::default(), stubs: vec![], concrete: None, known: vec![], fresh: 0, trace: false, forks: Default::default(), no_cut: false }
    }

    pub fn run(&mut self, entry: &str, params: &[u64], stubs: &[String]) {
        let t0 = Instant::now();
        self.params = params.to_vec();
        self.stubs = stubs.to_vec();
        let Some(&sid) = self.m.by_name.get(entry) else { self.res.error = Some(format!("no entry {entry}")); return };
        let f = match self.m.func(self.mc, sid) { Ok(f) => f, Err(e) => { self.res.error = Some(e); return } };
        if !f.params.is_empty() { self.res.error = Some("entry with parameters".into()); return }
        let fr = Frame { locals: vec![Val::N; f.nslots as usize], f, blk: 0, ip: 0, dst: None, allocas: vec![] };
        let st = State { frames: vec![fr], objs: BTreeMap::new(), next: DYN_BASE, pc: Rc::new(vec![]), known: Default::default(), eqs: Default::default(), model: Rc::new(Model::default()),
            mems: vec![Rc::new(vec![]); 8], addrs: Default::default(), alias: Default::default(), nany: 0, pending: vec![], panic_ok: 0, steps: 0, covers: BTreeSet::new(), notes: vec![] };
        self.called.insert(sid);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.res.paths + self.res.killed >= self.lim.max_paths { self.res.error = Some(format!("path limit {} reached", self.lim.max_paths)); break }
            if t0.elapsed().as_secs_f64() > self.lim.max_secs { self.res.error = Some(format!("time limit {}s reached after {} paths, {} pending", self.lim.max_secs, self.res.paths, self.work.len() + 1)); break }
            if let Err(e) = self.run_path(st) { self.res.error = Some(e); break }
            if self.res.violations.len() >= self.lim.max_violations || self.fresh >= 8 { break }
        }
        for &s in &self.called { self.res.funcs.insert(self.m.sym_name(s).to_string()); }
        let s = &self.solver.stats;
        self.res.queries = s.queries; self.res.sat = s.sat; self.res.unsat = s.unsat; self.res.solver_s = s.time; self.res.solver_max = s.max; self.res.cross = s.cross;
        self.res.wall = t0.elapsed().as_secs_f64();
    }

    fn run_path(&mut self, mut st: State) -> Result<(), String> {
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    st.steps += 1;
                    if st.steps > self.lim.max_steps { return Err(format!("step limit in {}", self.where_(&st))) }
                }
                Err(Stop::Retry) => continue,
                Err(Stop::Kill) => { self.res.killed += 1; self.res.steps += st.steps; return Ok(()) }
                Err(Stop::Err(e)) => return Err(format!("{e} [in {}]", self.where_(&st))),
                Err(Stop::End(end)) => {
                    self.res.steps += st.steps;
                    return self.finish(st, end);
                }
            }
        }
    }

    fn where_(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(4) {
            s += &format!("{}#{}:{} < ", f.f.name, f.blk, f.ip);
        }
        if let Some(f) = st.frames.last() { if let Some(i) = f.f.blocks[f.blk as usize].ins.get(f.ip as usize) { let t = format!("{i:?}"); s += &t[..t.len().min(200)]; } }
        s
    }

    fn finish(&mut self, mut st: State, end: PathEnd) -> Result<(), String> {
        self.res.paths += 1;
        let before = self.res.violating;
        for c in &st.covers { *self.res.covers.entry(c.clone()).or_default() += 1; }
        let end_s = match &end { PathEnd::Return => "return".to_string(), PathEnd::Panic(m) => format!("panic {m}") };
        match end {
            PathEnd::Panic(msg) => {
                if st.panic_ok == 0 {
                    let v = self.violation(&st, &st.model.clone(), format!("panic: {msg}"));
                    self.report(v);
                } else { self.res.panics_ok += 1; }
            }
            PathEnd::Return => {
                if st.panic_ok == 2 {
                    let v = self.violation(&st, &st.model.clone(), "a panic was required but the call returned".into());
                    self.report(v);
                }
            }
        }
        self.flush(&mut st)?;
        if self.concrete.is_some() {
            let mut memo = Default::default();
            let n = st.notes.iter().map(|(s, e)| (s.clone(), self.cx.eval(*e, &st.model, &mut memo))).collect();
            self.res.concrete_notes.push(n);
            self.res.concrete_ends.push(end_s);
        } else if self.res.violating == before && self.res.samples.len() < 4 && self.res.paths.is_power_of_two() {
            let v = self.violation(&st, &st.model.clone(), end_s);
            self.res.samples.push(v);
        }
        Ok(())
    }

    /// Checks the collected assertions against the path condition.
    fn flush(&mut self, st: &mut State) -> Result<(), String> {
        let pend = std::mem::take(&mut st.pending);
        let mut sm: FxMap<E, E> = Default::default();
        let pend: Vec<_> = pend.into_iter().map(|(e, n)| (self.simp_rec(st, e, &mut sm), n)).collect();
        let pend: Vec<_> = pend.into_iter().filter(|(e, _)| { if self.cx.cst(*e) == Some(1) || st.known.get(e) == Some(&true) { self.res.assert_syntactic += 1; false } else { true } }).collect();
        if pend.is_empty() { return Ok(()) }
        let mut memo = Default::default();
        for (e, n) in &pend {
            if self.cx.eval(*e, &st.model, &mut memo) == 0 {
                let v = self.violation(st, &st.model.clone(), format!("assertion: {n}"));
                self.report(v);
                return Ok(());
            }
        }
        let mut parts = vec![];
        for (e, n) in pend {
            let mut todo = vec![e];
            while let Some(x) = todo.pop() { if let N::And(a, b) = self.cx.node(x) { todo.push(b); todo.push(a) } else { parts.push((x, n.clone())) } }
        }
        for (e, n) in &parts {
            let ne = self.cx.not(*e);
            let t = Instant::now();
            let q = self.slice(st, ne);
            match self.solver.check(&mut self.cx, &q) {
                Res::Unsat => {}
                Res::Sat(m) => {
                    let m = self.merge(st, m, ne);
                    let v = self.violation(st, &m, format!("assertion: {n}"));
                    self.report(v);
                    return Ok(());
                }
                Res::Unknown(u) => return Err(format!("assertion '{n}' undecided: {u}")),
            }
            if self.trace && t.elapsed().as_secs_f64() > 1.0 { eprintln!("slow assertion {n}: {:.1}s {}", t.elapsed().as_secs_f64(), self.cx.show(*e, 8)); }
        }
        Ok(())
    }

    /// One violation of each kind is kept.
    fn report(&mut self, v: Violation) {
        self.res.violating += 1;
        if !self.known.iter().any(|k| v.what.contains(k.as_str())) { self.fresh += 1 }
        if !self.res.violations.iter().any(|w| w.what == v.what) { self.res.violations.push(v) }
    }

    fn violation(&mut self, st: &State, m: &Model, what: String) -> Violation {
        let mut anys = vec![];
        for i in 0..self.cx.vars.len() {
            let (n, w) = &self.cx.vars[i];
            if let Some(r) = n.strip_prefix('x') {
                if let Ok(k) = r.split('_').next().unwrap().parse::<u32>() {
                    // Only the variables of this path: sequence number below nany. Different widths at the same sequence are told apart by the width.
                    if k < st.nany { anys.push((k * 256 + *w, m.var(i as u32, *w))) }
                }
            }
        }
        anys.sort();
        let mut arrs: Vec<_> = m.arr.iter().map(|(&(a, i), &v)| (a, i, v)).collect();
        arrs.sort();
        let mut memo = Default::default();
        let notes = st.notes.iter().map(|(s, e)| (s.clone(), self.cx.eval(*e, m, &mut memo))).collect();
        Violation { what, anys, arrs, notes }
    }

    /// The constraints of the path that share variables (transitively) with `c`, plus `c`.
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vars: BTreeSet<u32> = self.cx.support(c).iter().copied().collect();
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = st.pc.iter().map(|&e| (e, self.cx.support(e))).collect();
        let mut out = vec![c];
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for (e, s) in rest {
                if s.iter().any(|v| vars.contains(v)) { vars.extend(s.iter().copied()); out.push(e); changed = true } else { keep.push((e, s)) }
            }
            rest = keep;
            if !changed { break }
        }
        out
    }

    fn merge(&mut self, st: &State, m: Model, c: E) -> Model {
        // Values of the solved slice replace the old ones; arrays mentioned in the slice are replaced entirely.
        let mut sup: BTreeSet<u32> = BTreeSet::new();
        let sl = self.slice(st, c);
        for e in sl { sup.extend(self.cx.support(e).iter().copied()) }
        let mut r = (*st.model).clone();
        for s in &sup { if s % 2 == 1 { let a = s / 2; r.arr.retain(|k, _| k.0 != a); } else { r.vars.insert(s / 2, 0); } }
        for (k, v) in m.vars { r.vars.insert(k, v); }
        for (k, v) in m.arr { r.arr.insert(k, v); }
        r
    }

    /// The expression rewritten with the facts of the path (decided conditions, terms known to equal a constant).
    fn simp(&mut self, st: &State, e: E) -> E { let mut memo: FxMap<E, E> = Default::default(); self.simp_rec(st, e, &mut memo) }
    fn simp_rec(&mut self, st: &State, e: E, memo: &mut FxMap<E, E>) -> E {
        let node = self.cx.node(e);
        if matches!(node, N::C(_)) { return e }
        let w = self.cx.width(e);
        if w == 1 { if let Some(&v) = st.known.get(&e) { return self.cx.b(v) } }
        if let Some(&v) = st.eqs.get(&e) { return self.cx.c(v, w) }
        if let N::Var(_) = node { return e }
        if let Some(&r) = memo.get(&e) { return r }
        macro_rules! s { ($x:expr) => { self.simp_rec(st, $x, memo) } }
        macro_rules! un { ($x:expr, |$cx:ident, $p:ident| $f:expr) => {{ let $p = s!($x); if $p == $x { e } else { let $cx = &mut self.cx; $f } }} }
        macro_rules! bi { ($x:expr, $y:expr, $m:ident) => {{ let p = s!($x); let q = s!($y); if p == $x && q == $y { e } else { self.cx.$m(p, q) } }} }
        let r = match node {
            N::C(_) | N::Var(_) => e,
            N::Sel(a, i) => un!(i, |cx, p| cx.sel(a, p, w)),
            N::Not(x) => un!(x, |cx, p| cx.not(p)),
            N::ZExt(x) => un!(x, |cx, p| cx.zext(p, w)),
            N::SExt(x) => un!(x, |cx, p| cx.sext(p, w)),
            N::Ext(x, lo) => un!(x, |cx, p| cx.ext(p, lo, w)),
            N::Add(a, b) => bi!(a, b, add), N::Sub(a, b) => bi!(a, b, sub), N::Mul(a, b) => bi!(a, b, mul),
            N::UDiv(a, b) => bi!(a, b, udiv), N::URem(a, b) => bi!(a, b, urem), N::SDiv(a, b) => bi!(a, b, sdiv), N::SRem(a, b) => bi!(a, b, srem),
            N::And(a, b) => bi!(a, b, and), N::Or(a, b) => bi!(a, b, or), N::Xor(a, b) => bi!(a, b, xor),
            N::Shl(a, b) => bi!(a, b, shl), N::LShr(a, b) => bi!(a, b, lshr), N::AShr(a, b) => bi!(a, b, ashr),
            N::Eq(a, b) => bi!(a, b, eq), N::Ult(a, b) => bi!(a, b, ult), N::Slt(a, b) => bi!(a, b, slt),
            N::Concat(a, b) => bi!(a, b, concat),
            N::Ite(c, a, b) => {
                let c2 = s!(c);
                match self.cx.cst(c2) {
                    Some(1) => s!(a),
                    Some(_) => s!(b),
                    None => { let p = s!(a); let q = s!(b); if c2 == c && p == a && q == b { e } else { self.cx.ite(c2, p, q) } }
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// Records what a condition that holds says about the terms it is made of.
    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        st.known.insert(c, v);
        if !v { return }
        if let N::Eq(x, k) = self.cx.node(c) {
            let (x, k) = if self.cx.cst(k).is_some() { (x, k) } else { (k, x) };
            let Some(k) = self.cx.cst(k) else { return };
            st.eqs.insert(x, k);
            let w = self.cx.width(x);
            if w <= 16 { for i in 0..w { let b = self.cx.ext(x, i, 1); if self.cx.cst(b).is_none() && b != c { let bv = k >> i & 1 == 1; if let N::Not(y) = self.cx.node(b) { st.known.insert(y, !bv); } else { st.known.insert(b, bv); } } } }
        }
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        match self.cx.node(c) {
            N::And(a, b) => { self.add_pc(st, a); self.add_pc(st, b); self.learn(st, c, true); }
            N::Not(x) => {
                if let N::Or(a, b) = self.cx.node(x) {
                    let na = self.cx.not(a); let nb = self.cx.not(b);
                    self.add_pc(st, na); self.add_pc(st, nb);
                } else if !self.is_known(st, c) { Rc::make_mut(&mut st.pc).push(c); }
                self.learn(st, x, false);
            }
            _ => { if !self.is_known(st, c) { Rc::make_mut(&mut st.pc).push(c); } self.learn(st, c, true); }
        }
    }
    fn is_known(&self, st: &State, c: E) -> bool {
        if let N::Not(x) = self.cx.node(c) { st.known.get(&x) == Some(&false) } else { st.known.get(&c) == Some(&true) }
    }

    /// A model of the constraints found by changing one leaf of `c` in the current model; no answer says nothing.
    fn quick_sat(&mut self, st: &State, q: &[E], c: E) -> Option<Model> {
        let mut leaves = vec![];
        let mut seen: FxSet<E> = Default::default();
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue }
            if seen.len() > 200 { break }
            match self.cx.node(x) { N::Var(_) => leaves.push(x), N::Sel(..) => leaves.push(x), _ => {} }
            if matches!(self.cx.node(x), N::Sel(..)) { continue }
            for k in self.cx.children(x).into_iter().flatten() { todo.push(k) }
        }
        leaves.truncate(6);
        for l in leaves {
            let w = self.cx.width(l);
            let mut memo = Default::default();
            let old = self.cx.eval(l, &st.model, &mut memo);
            let cell = if let N::Sel(a, i) = self.cx.node(l) { Some((a, self.cx.eval(i, &st.model, &mut memo))) } else { None };
            let mut cand: Vec<u128> = (0..w).map(|k| old ^ 1 << k).collect();
            cand.extend([0, mask(w), mask(w) >> 1, 1 << (w - 1), 1]);
            for v in cand {
                if v == old { continue }
                let mut m = (*st.model).clone();
                match (self.cx.node(l), cell) { (N::Var(i), _) => { m.vars.insert(i, v); } (_, Some(k)) => { m.arr.insert(k, v); } _ => {} }
                let mut memo = Default::default();
                if self.cx.eval(c, &m, &mut memo) == 1 && q.iter().all(|&e| self.cx.eval(e, &m, &mut memo) == 1) { return Some(m) }
            }
        }
        None
    }

    pub fn known_bit(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.cx.cst(c) { return Some(v == 1) }
        if let N::Not(x) = self.cx.node(c) { return st.known.get(&x).map(|v| !v) }
        st.known.get(&c).copied()
    }

    /// Decides a condition on the current path, forking when both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(v) = self.cx.cst(c) { return Ok(v == 1) }
        if let N::Not(x) = self.cx.node(c) { return self.decide(st, x).map(|v| !v) }
        if let Some(&v) = st.known.get(&c) { return Ok(v) }
        let s = self.simp(st, c);
        if s != c { let v = self.decide(st, s)?; st.known.insert(c, v); return Ok(v) }
        let mut memo = Default::default();
        let v = self.cx.eval(c, &st.model, &mut memo) == 1;
        let nc = self.cx.not(c);
        let other = if v { nc } else { c };
        let q = self.slice(st, other);
        let quick = self.quick_sat(st, &q, other);
        let r = match quick {
            Some(m) => Res::Sat(m),
            None => match self.solver.check(&mut self.cx, &q) { Res::Sat(m) => Res::Sat(self.merge(st, m, other)), r => r },
        };
        match r {
            Res::Unsat => { self.learn(st, c, v); }
            Res::Sat(m) => {
                if self.trace { let w = self.where_(st); *self.forks.entry(w).or_default() += 1; }
                let mut o = st.clone();
                o.model = Rc::new(m);
                self.add_pc(&mut o, other);
                self.work.push(o);
                let this = if v { c } else { nc };
                self.add_pc(st, this);
            }
            Res::Unknown(u) => err!("branch undecided: {u}"),
        }
        Ok(v)
    }

    /// Makes the expression a constant on this path (forking over all its values).
    fn concretize(&mut self, st: &mut State, e: E) -> X<u128> {
        loop {
            if let Some(v) = self.cx.cst(e) { return Ok(v) }
            let mut memo = Default::default();
            let v = self.cx.eval(e, &st.model, &mut memo);
            let k = self.cx.c(v, self.cx.width(e));
            let q = self.cx.eq(e, k);
            if self.decide(st, q)? { return Ok(v) }
        }
    }

    // ---- values ----

    fn opd(&mut self, st: &State, o: &Opd) -> X<Val> {
        Ok(match o {
            Opd::Local(s) => { let v = st.frames.last().unwrap().locals[*s as usize].clone(); if let Val::N = v { err!("read of unset local") } v }
            Opd::Int(v, w) => Val::S(self.cx.c(*v, *w)),
            Opd::Global(g) => Val::S(self.cx.c(self.sym_addr[g] as u128, 64)),
            Opd::Undef(t) | Opd::Zero(t) => self.zero(t)?,
            Opd::Agg(_, v) => { let mut r = vec![]; for x in v.iter() { r.push(self.opd(st, x)?) } Val::A(Rc::new(r)) }
            Opd::Bytes(b) => { let r = b.iter().map(|&x| Val::S(self.cx.c(x as u128, 8))).collect(); Val::A(Rc::new(r)) }
            Opd::Cast(v, w) => { let e = self.opd(st, v)?; let e = self.sc(&e)?; Val::S(self.resize(e, *w)) }
            Opd::Gep(b, off) => { let e = self.opd(st, b)?; let e = self.sc(&e)?; let k = self.cx.c(*off as i128 as u128, 64); Val::S(self.cx.add(e, k)) }
            Opd::BinC(op, a, b) => { let x = self.opd(st, a)?; let y = self.opd(st, b)?; let x = self.sc(&x)?; let y = self.sc(&y)?; Val::S(self.bin(*op, x, y)) }
            Opd::Bad => err!("unsupported operand"),
        })
    }
    fn resize(&mut self, e: E, w: u32) -> E { let x = self.cx.width(e); if x == w { e } else if x < w { self.cx.zext(e, w) } else { self.cx.ext(e, 0, w) } }
    fn sc(&self, v: &Val) -> X<E> { match v { Val::S(e) => Ok(*e), _ => Err(Stop::Err("scalar expected".into())) } }
    fn op(&mut self, st: &State, o: &Opd) -> X<E> {
        if let Opd::Local(s) = o { if let Val::S(e) = &st.frames.last().unwrap().locals[*s as usize] { return Ok(*e) } }
        let v = self.opd(st, o)?;
        self.sc(&v)
    }
    fn zero(&mut self, t: &Ty) -> X<Val> {
        Ok(match t {
            Ty::Int(w) => Val::S(self.cx.c(0, *w)),
            Ty::Ptr => Val::S(self.cx.c(0, 64)),
            Ty::Struct(f, _) => { let mut r = vec![]; for x in f.iter() { r.push(self.zero(x)?) } Val::A(Rc::new(r)) }
            Ty::Array(n, t) => { let z = self.zero(t)?; Val::A(Rc::new(vec![z; *n as usize])) }
            Ty::Vec(n, t) => { let z = self.zero(t)?; Val::A(Rc::new(vec![z; *n as usize])) }
            _ => err!("zero of type {t:?}"),
        })
    }

    fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let c = &mut self.cx;
        match op {
            Bin::Add => c.add(a, b), Bin::Sub => c.sub(a, b), Bin::Mul => c.mul(a, b), Bin::UDiv => c.udiv(a, b), Bin::URem => c.urem(a, b),
            Bin::SDiv => c.sdiv(a, b), Bin::SRem => c.srem(a, b), Bin::And => c.and(a, b), Bin::Or => c.or(a, b), Bin::Xor => c.xor(a, b),
            Bin::Shl => c.shl(a, b), Bin::LShr => c.lshr(a, b), Bin::AShr => c.ashr(a, b),
        }
    }
    fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        let c = &mut self.cx;
        match p {
            Pred::Eq => c.eq(a, b), Pred::Ne => { let r = c.eq(a, b); c.not(r) }
            Pred::Ult => c.ult(a, b), Pred::Ule => c.ule(a, b), Pred::Ugt => c.ult(b, a), Pred::Uge => c.ule(b, a),
            Pred::Slt => c.slt(a, b), Pred::Sle => c.sle(a, b), Pred::Sgt => c.slt(b, a), Pred::Sge => c.sle(b, a),
        }
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, E, E) -> E) -> X<Val> {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Ok(Val::S(f(self, *x, *y))),
            (Val::A(x), Val::A(y)) => { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(self.map2(p, q, f)?) } Ok(Val::A(Rc::new(r))) }
            _ => err!("value shape"),
        }
    }

    // ---- memory ----

    fn init_bytes(&mut self, o: &Opd, t: &Ty, out: &mut Vec<E>) -> X<()> {
        let size = t.size() as usize;
        let start = out.len();
        match (o, t) {
            (Opd::Bytes(b), _) => for &x in b.iter() { let e = self.cx.c(x as u128, 8); out.push(e) },
            (Opd::Zero(_), _) | (Opd::Undef(_), _) => { let z = self.cx.c(0, 8); out.resize(start + size, z) }
            (Opd::Agg(_, v), Ty::Struct(f, _)) => {
                let offs = t.layout().0;
                for (k, x) in v.iter().enumerate() {
                    let z = self.cx.c(0, 8);
                    out.resize(start + offs[k] as usize, z);
                    self.init_bytes(x, &f[k], out)?;
                }
                let z = self.cx.c(0, 8);
                out.resize(start + size, z);
            }
            (Opd::Agg(_, v), Ty::Array(_, et)) | (Opd::Agg(_, v), Ty::Vec(_, et)) => for x in v.iter() { self.init_bytes(x, et, out)? },
            _ => {
                let dummy = State { frames: vec![], objs: BTreeMap::new(), next: 0, pc: Rc::new(vec![]), known: Default::default(), eqs: Default::default(), model: Rc::new(Model::default()), mems: vec![], addrs: Default::default(), alias: Default::default(), nany: 0, pending: vec![], panic_ok: 0, steps: 0, covers: BTreeSet::new(), notes: vec![] };
                let v = self.opd(&dummy, o)?;
                let e = self.sc(&v)?;
                let e = self.resize(e, size as u32 * 8);
                for k in 0..size { let b = self.cx.ext(e, k as u32 * 8, 8); out.push(b) }
            }
        }
        Ok(())
    }

    fn global_obj(&mut self, s: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.globals.get(&s) { return Ok(o.clone()) }
        let m = self.m;
        let Sym::Var(g) = &m.syms[s as usize] else { err!("memory access to non-variable symbol {}", m.sym_name(s)) };
        let Some(init) = &g.init else { err!("access to external variable {}", g.name) };
        let mut b = vec![];
        self.init_bytes(init, &g.ty, &mut b)?;
        let o = Rc::new(Obj { bytes: b, writable: !g.constant });
        self.globals.insert(s, o.clone());
        Ok(o)
    }

    fn find_obj(&mut self, st: &State, addr: u64) -> X<Option<(u64, Rc<Obj>)>> {
        if let Some((&b, o)) = st.objs.range(..=addr).next_back() { if addr < b + o.bytes.len().max(1) as u64 { return Ok(Some((b, o.clone()))) } }
        if let Some((&b, &(s, sz))) = self.addr_sym.range(..=addr).next_back() {
            if b >= GL_BASE && addr < b + sz.max(1) { if let Sym::Var(_) = self.m.syms[s as usize] { return Ok(Some((b, self.global_obj(s)?))) } }
        }
        Ok(None)
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size + 64;
        let f = if zero { self.cx.c(0, 8) } else { self.undef };
        st.objs.insert(base, Rc::new(Obj { bytes: vec![f; size as usize], writable: true }));
        base
    }

    /// Resolves an address to an object and the possible offsets (condition, offset).
    fn resolve(&mut self, st: &mut State, addr: E, n: u64) -> X<(u64, Rc<Obj>, Offs)> {
        if let Some(a) = self.cx.cst(addr) {
            let a = a as u64;
            match self.find_obj(st, a)? {
                Some((b, o)) if a + n <= b + o.bytes.len() as u64 => return Ok((b, o, Offs::Const((a - b) as usize))),
                _ => return Err(Stop::End(PathEnd::Panic(format!("invalid memory access at {a:#x} ({n} bytes) in {}", self.where_(st))))),
            }
        }
        let mut memo = Default::default();
        let a = self.cx.eval(addr, &st.model, &mut memo) as u64;
        let (b, o) = match self.find_obj(st, a)? {
            Some((b, o)) if a + n <= b + o.bytes.len() as u64 => (b, o),
            _ => return Err(Stop::End(PathEnd::Panic(format!("invalid memory access at {a:#x} ({n} bytes, symbolic) in {}", self.where_(st))))),
        };
        let kb = self.cx.c((b as u128).wrapping_neg(), 64);
        let off = self.cx.add(addr, kb);
        let lim = o.bytes.len() as u64 - n;
        let klim = self.cx.c(lim as u128 + 1, 64);
        let inb = self.cx.ult(off, klim);
        if !self.decide(st, inb)? { return Err(Stop::Retry) }
        if let Some(k) = self.cx.cst(off) { return Ok((b, o, Offs::Const(k as usize))) }
        // Symbolic part.
        let (x, c) = match self.cx.node(off) { N::Add(x, c) if self.cx.cst(c).is_some() => (x, self.cx.cst(c).unwrap() as u64), _ => (off, 0) };
        let known = self.cx.kz(x) | self.cx.ko(x);
        let unk: Vec<u32> = (0..64).filter(|&i| known >> i & 1 == 0).collect();
        if unk.len() <= 16 {
            let base = self.cx.ko(x) as u64;
            return Ok((b, o, Offs::Bits { x, unk, base, c, lim }));
        }
        // Few possible offsets in a small object.
        let kn = self.cx.kz(off) | self.cx.ko(off);
        let kv = self.cx.ko(off);
        let mut v = vec![];
        for k in 0..=lim { if (k as u128 ^ kv) & kn == 0 { v.push(k) } }
        if v.len() > 4096 { err!("symbolic offset with {} candidates", v.len()) }
        Ok((b, o, Offs::List { off, v }))
    }

    fn tree(&mut self, x: E, unk: &[u32], val: u64, leaf: &mut dyn FnMut(&mut Self, u64) -> Option<E>) -> Option<E> {
        if unk.is_empty() { return leaf(self, val) }
        let (&bit, rest) = unk.split_last().unwrap();
        let l = self.tree(x, rest, val, leaf);
        let h = self.tree(x, rest, val | 1 << bit, leaf);
        match (l, h) {
            (None, r) | (r, None) => r,
            (Some(l), Some(h)) => { if l == h { return Some(l) } let c = self.cx.ext(x, bit, 1); Some(self.cx.ite(c, h, l)) }
        }
    }

    fn gather(&mut self, o: &Obj, off: usize, n: usize) -> E {
        let mut acc = o.bytes[off];
        for k in 1..n { acc = self.cx.concat(o.bytes[off + k], acc) }
        acc
    }

    fn load_int(&mut self, st: &mut State, addr: E, n: u64) -> X<E> {
        let (_, o, offs) = self.resolve(st, addr, n)?;
        Ok(match offs {
            Offs::Const(k) => self.gather(&o, k, n as usize),
            Offs::Bits { x, unk, base, c, lim } => {
                let r = self.tree(x, &unk, base, &mut |s, v| { let off = v.wrapping_add(c); if off <= lim { Some(s.gather(&o, off as usize, n as usize)) } else { None } });
                match r { Some(r) => r, None => err!("no feasible offset") }
            }
            Offs::List { off, v } => {
                let mut acc: Option<E> = None;
                for k in v {
                    let x = self.gather(&o, k as usize, n as usize);
                    acc = Some(match acc { None => x, Some(a) => { let kk = self.cx.c(k as u128, 64); let q = self.cx.eq(off, kk); self.cx.ite(q, x, a) } });
                }
                match acc { Some(r) => r, None => err!("no feasible offset") }
            }
        })
    }

    fn load(&mut self, st: &mut State, addr: E, t: &Ty) -> X<Val> {
        match t {
            Ty::Int(w) => {
                if *w > 128 { err!("wide load") }
                let e = self.load_int(st, addr, t.store_size())?;
                Ok(Val::S(self.cx.ext(e, 0, *w)))
            }
            Ty::Ptr => Ok(Val::S(self.load_int(st, addr, 8)?)),
            Ty::Struct(f, _) => {
                let offs = t.layout().0;
                let mut r = vec![];
                for (k, ft) in f.iter().enumerate() { let kk = self.cx.c(offs[k] as u128, 64); let a = self.cx.add(addr, kk); r.push(self.load(st, a, ft)?) }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Array(n, et) => {
                let mut r = vec![];
                for k in 0..*n { let kk = self.cx.c((k * et.size()) as u128, 64); let a = self.cx.add(addr, kk); r.push(self.load(st, a, et)?) }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Vec(n, et) if matches!(**et, Ty::Int(w) if w % 8 == 0) || **et == Ty::Ptr => {
                let mut r = vec![];
                for k in 0..*n { let kk = self.cx.c((k as u64 * et.store_size()) as u128, 64); let a = self.cx.add(addr, kk); r.push(self.load(st, a, et)?) }
                Ok(Val::A(Rc::new(r)))
            }
            _ => err!("load of type {t:?}"),
        }
    }

    fn store_bytes(&mut self, st: &mut State, addr: E, bytes: &[E]) -> X<()> {
        let n = bytes.len();
        if n == 0 { return Ok(()) }
        let (b, o, offs) = self.resolve(st, addr, n as u64)?;
        if !o.writable { err!("write to constant object") }
        let slot = st.objs.entry(b).or_insert_with(|| o.clone());
        drop(o);
        let ob = Rc::make_mut(slot);
        match offs {
            Offs::Const(k) => ob.bytes[k..k + n].copy_from_slice(bytes),
            Offs::Bits { x, unk, base, c, lim } => {
                for k in 0..(1u64 << unk.len()) {
                    let mut v = base;
                    for (j, &bit) in unk.iter().enumerate() { if k >> j & 1 != 0 { v |= 1 << bit } }
                    let off = v.wrapping_add(c);
                    if off > lim { continue }
                    let kv = self.cx.c(v as u128, 64);
                    let q = self.cx.eq(x, kv);
                    if self.cx.cst(q) == Some(0) { continue }
                    for j in 0..n { let old = ob.bytes[off as usize + j]; ob.bytes[off as usize + j] = self.cx.ite(q, bytes[j], old) }
                }
            }
            Offs::List { off, v } => {
                for k in v {
                    let kk = self.cx.c(k as u128, 64);
                    let q = self.cx.eq(off, kk);
                    for j in 0..n { let old = ob.bytes[k as usize + j]; ob.bytes[k as usize + j] = self.cx.ite(q, bytes[j], old) }
                }
            }
        }
        Ok(())
    }

    fn flatten(&mut self, v: &Val, t: &Ty, out: &mut Vec<(u64, E)>, off: u64) -> X<()> {
        match (v, t) {
            (Val::S(e), _) => {
                let n = t.store_size();
                let e = self.resize(*e, n as u32 * 8);
                for k in 0..n { let b = self.cx.ext(e, k as u32 * 8, 8); out.push((off + k, b)) }
            }
            (Val::A(x), Ty::Struct(f, _)) => { let offs = t.layout().0; for (k, p) in x.iter().enumerate() { self.flatten(p, &f[k], out, off + offs[k])? } }
            (Val::A(x), Ty::Array(_, et)) => { for (k, p) in x.iter().enumerate() { self.flatten(p, et, out, off + k as u64 * et.size())? } }
            (Val::A(x), Ty::Vec(_, et)) => { for (k, p) in x.iter().enumerate() { self.flatten(p, et, out, off + k as u64 * et.store_size())? } }
            _ => err!("store of type {t:?}"),
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, addr: E, v: &Val, t: &Ty) -> X<()> {
        let mut f = vec![];
        self.flatten(v, t, &mut f, 0)?;
        let contiguous = f.iter().enumerate().all(|(i, (o, _))| *o == i as u64);
        if contiguous { let b: Vec<E> = f.into_iter().map(|x| x.1).collect(); return self.store_bytes(st, addr, &b) }
        if self.cx.cst(addr).is_none() { err!("padded aggregate store at a symbolic address") }
        for (o, b) in f { let k = self.cx.c(o as u128, 64); let a = self.cx.add(addr, k); self.store_bytes(st, a, &[b])? }
        Ok(())
    }

    fn read_bytes(&mut self, st: &mut State, addr: E, n: u64) -> X<Vec<E>> {
        let mut r = vec![];
        if n == 0 { return Ok(r) }
        let (_, o, offs) = self.resolve(st, addr, n)?;
        if let Offs::Const(k) = offs { return Ok(o.bytes[k..k + n as usize].to_vec()) }
        for k in 0..n { let kk = self.cx.c(k as u128, 64); let a = self.cx.add(addr, kk); r.push(self.load_int(st, a, 1)?) }
        Ok(r)
    }

    fn read_str(&mut self, st: &mut State, p: E, n: E) -> X<String> {
        let (Some(_), Some(n)) = (self.cx.cst(p), self.cx.cst(n)) else { err!("symbolic string") };
        let b = self.read_bytes(st, p, n as u64)?;
        Ok(b.iter().map(|&e| self.cx.cst(e).map_or('?', |v| v as u8 as char)).collect())
    }

    // ---- stepping ----

    fn set(&self, st: &mut State, d: Slot, v: Val) { st.frames.last_mut().unwrap().locals[d as usize] = v; }
    fn next(&self, st: &mut State) { st.frames.last_mut().unwrap().ip += 1; }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let f = st.frames.last().unwrap().f.clone();
        let from = st.frames.last().unwrap().blk;
        let blk = &f.blocks[to as usize];
        let mut vals = vec![];
        for (d, _, inc) in &blk.phis {
            let Some((_, o)) = inc.iter().find(|(b, _)| *b == from) else { err!("phi without predecessor") };
            vals.push((*d, self.opd(st, o)?));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.locals[d as usize] = v }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    /// Executes both arms of a small branch without forking: their stores become conditional and the phis of the join become
    /// selections. Returns false, with the state unchanged, where that is not possible.
    fn merge_arms(&mut self, st: &mut State, c: E, a: u32, b: u32) -> X<bool> {
        if a == b || self.cx.cst(c).is_some() || self.known_bit(st, c).is_some() { return Ok(false) }
        let f = st.frames.last().unwrap().f.clone();
        let arm = |x: u32| -> Option<u32> {
            let blk = &f.blocks[x as usize];
            if !blk.phis.is_empty() || blk.ins.len() > 16 { return None }
            let (last, body) = blk.ins.split_last()?;
            let Ins::Br(j) = last else { return None };
            for i in body {
                match i {
                    Ins::Bin(o, ..) if !matches!(o, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) => {}
                    Ins::Icmp(..) | Ins::Cast(..) | Ins::Gep { .. } | Ins::Select(..) | Ins::Freeze(..) | Ins::Nop | Ins::Load(..) | Ins::Store(..) => {}
                    _ => return None,
                }
            }
            Some(*j)
        };
        let (ja, jb) = (arm(a), arm(b));
        let (join, ra, rb) = if ja == Some(b) { (b, true, false) } else if jb == Some(a) { (a, false, true) }
            else if ja.is_some() && ja == jb { (ja.unwrap(), true, true) } else { return Ok(false) };
        if self.simp_cst(st, c).is_some() { return Ok(false) }
        let save = st.clone();
        let from = st.frames.last().unwrap().blk;
        let nc = self.cx.not(c);
        let mut ok = true;
        'arms: for (run, x, g) in [(ra, a, c), (rb, b, nc)] {
            if !run { continue }
            let fr = st.frames.last_mut().unwrap();
            fr.blk = x;
            fr.ip = 0;
            for i in &f.blocks[x as usize].ins {
                match i {
                    Ins::Br(_) => {}
                    Ins::Load(_, p, _) => {
                        let pe = self.op(st, p)?;
                        if self.cx.cst(pe).is_none() { ok = false; break 'arms }
                        match self.step_ins(st, i) { Ok(()) => {} Err(_) => { ok = false; break 'arms } }
                    }
                    Ins::Store(t, v, p) => {
                        let pe = self.op(st, p)?;
                        let v = self.opd(st, v)?;
                        if self.cx.cst(pe).is_none() { ok = false; break 'arms }
                        let old = match self.load(st, pe, t) { Ok(o) => o, Err(_) => { ok = false; break 'arms } };
                        let (Val::S(n), Val::S(o)) = (&v, &old) else { ok = false; break 'arms };
                        let m = self.cx.ite(g, *n, *o);
                        match self.store(st, pe, &Val::S(m), t) { Ok(()) => {} Err(_) => { ok = false; break 'arms } }
                        self.next(st);
                    }
                    _ => match self.step_ins(st, i) { Ok(()) => {} Err(_) => { ok = false; break 'arms } },
                }
            }
        }
        let mut vals = vec![];
        if ok {
            let pa = if ra { a } else { from };
            let pb = if rb { b } else { from };
            for (d, _, inc) in &f.blocks[join as usize].phis {
                let (Some((_, x)), Some((_, y))) = (inc.iter().find(|(k, _)| *k == pa), inc.iter().find(|(k, _)| *k == pb)) else { err!("phi without predecessor") };
                let (x, y) = (self.opd(st, x)?, self.opd(st, y)?);
                match (&x, &y) {
                    (Val::S(p), Val::S(q)) => vals.push((*d, Val::S(self.cx.ite(c, *p, *q)))),
                    _ => { ok = false; break }
                }
            }
        }
        if !ok { *st = save; return Ok(false) }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.locals[d as usize] = v }
        fr.blk = join;
        fr.ip = 0;
        Ok(true)
    }
    fn simp_cst(&mut self, st: &State, c: E) -> Option<u128> { let s = self.simp(st, c); self.cx.cst(s) }

    fn step(&mut self, st: &mut State) -> X<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let Some(ins) = f.blocks[fr.blk as usize].ins.get(fr.ip as usize) else { err!("block {} of {} has no terminator: {:?}", fr.blk, f.name, f.blocks[fr.blk as usize].ins) };
        self.step_ins(st, ins)
    }

    fn step_ins(&mut self, st: &mut State, ins: &Ins) -> X<()> {
        let f = st.frames.last().unwrap().f.clone();
        match ins {
            Ins::Nop => self.next(st),
            Ins::Bin(op, _, a, b, d) => {
                let x = self.opd(st, a)?; let y = self.opd(st, b)?;
                let v = match (&x, &y) { (Val::S(p), Val::S(q)) => Val::S(self.bin(*op, *p, *q)), _ => { let op = *op; self.map2(&x, &y, &mut |s, p, q| s.bin(op, p, q))? } };
                self.set(st, *d, v); self.next(st);
            }
            Ins::Icmp(pr, _, a, b, d) => {
                let x = self.opd(st, a)?; let y = self.opd(st, b)?;
                let pr = *pr;
                let v = self.map2(&x, &y, &mut |s, p, q| s.icmp(pr, p, q))?;
                self.set(st, *d, v); self.next(st);
            }
            Ins::Cast(k, ft, tt, a, d) => {
                let x = self.opd(st, a)?;
                let v = match (k, ft, tt) {
                    (Cast::Bit, Ty::Vec(..), Ty::Int(_)) => {
                        let Val::A(v) = &x else { err!("bitcast") };
                        let mut acc = self.sc(&v[0])?;
                        for y in v.iter().skip(1) { let y = self.sc(y)?; acc = self.cx.concat(y, acc) }
                        Val::S(acc)
                    }
                    (Cast::Bit, Ty::Int(_), Ty::Vec(n, et)) => {
                        let e = self.sc(&x)?; let Ty::Int(w) = **et else { err!("bitcast") };
                        let r = (0..*n).map(|k| Val::S(self.cx.ext(e, k * w, w))).collect();
                        Val::A(Rc::new(r))
                    }
                    _ => {
                        let w = match tt { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Vec(_, t) => match **t { Ty::Int(w) => w, _ => err!("cast") }, _ => err!("cast to {tt:?}") };
                        let k = *k;
                        self.map2(&x, &x.clone(), &mut |s, p, _| match k { Cast::SExt => s.cx.sext(p, w), _ => s.resize(p, w) })?
                    }
                };
                self.set(st, *d, v); self.next(st);
            }
            Ins::Freeze(a, _, d) => { let v = self.opd(st, a)?; self.set(st, *d, v); self.next(st) }
            Ins::Select(_, c, a, b, _, isvec, d) => {
                let mut cv = self.opd(st, c)?;
                if let Val::S(e) = cv { if let Some(k) = self.known_bit(st, e) { cv = Val::S(self.cx.b(k)) } }
                let x = self.opd(st, a)?; let y = self.opd(st, b)?;
                let v = if *isvec {
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) else { err!("select") };
                    let mut r = vec![];
                    for k in 0..cs.len() { let c = self.sc(&cs[k])?; let p = self.sc(&xs[k])?; let q = self.sc(&ys[k])?; r.push(Val::S(self.cx.ite(c, p, q))) }
                    Val::A(Rc::new(r))
                } else { let c = self.sc(&cv)?; self.map2(&x, &y, &mut |s, p, q| s.cx.ite(c, p, q))? };
                self.set(st, *d, v); self.next(st);
            }
            Ins::Load(t, a, d) => { let p = self.op(st, a)?; let v = self.load(st, p, t)?; self.set(st, *d, v); self.next(st) }
            Ins::Store(t, v, a) => { let p = self.op(st, a)?; let v = self.opd(st, v)?; self.store(st, p, &v, t)?; self.next(st) }
            Ins::Gep { base, off, terms, dst } => {
                let mut p = self.op(st, base)?;
                for (v, _, sz) in terms {
                    let e = self.op(st, v)?;
                    let w = self.cx.width(e);
                    let e = if w < 64 { self.cx.sext(e, 64) } else { e };
                    let k = self.cx.c(*sz as u128, 64);
                    let m = self.cx.mul(e, k);
                    p = self.cx.add(p, m);
                }
                let k = self.cx.c(*off as i128 as u128, 64);
                let p = self.cx.add(p, k);
                self.set(st, *dst, Val::S(p)); self.next(st);
            }
            Ins::Alloca(t, n, al, d) => {
                let n = self.op(st, n)?;
                let Some(n) = self.cx.cst(n) else { err!("symbolic alloca") };
                let b = self.alloc(st, t.size() * n as u64, *al, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(b);
                let e = self.cx.c(b as u128, 64);
                self.set(st, *d, Val::S(e)); self.next(st);
            }
            Ins::Extract(a, path, _, d) => {
                let mut v = self.opd(st, a)?;
                for &k in path { let Val::A(x) = &v else { err!("extractvalue") }; v = x[k as usize].clone() }
                self.set(st, *d, v); self.next(st);
            }
            Ins::Insert(_, a, _, b, path, d) => {
                let v = self.opd(st, a)?; let x = self.opd(st, b)?;
                fn ins(v: &Val, path: &[u32], x: Val) -> Val {
                    if path.is_empty() { return x }
                    let Val::A(r) = v else { return Val::N };
                    let mut r = (**r).clone();
                    r[path[0] as usize] = ins(&r[path[0] as usize], &path[1..], x);
                    Val::A(Rc::new(r))
                }
                let r = ins(&v, path, x);
                self.set(st, *d, r); self.next(st);
            }
            Ins::ExtractElem(_, a, i, d) => {
                let v = self.opd(st, a)?; let i = self.op(st, i)?;
                let Val::A(x) = &v else { err!("extractelement") };
                let Some(k) = self.cx.cst(i) else { err!("symbolic vector index") };
                let r = x[k as usize].clone();
                self.set(st, *d, r); self.next(st);
            }
            Ins::InsertElem(_, a, v, i, d) => {
                let a = self.opd(st, a)?; let v = self.opd(st, v)?; let i = self.op(st, i)?;
                let Val::A(x) = &a else { err!("insertelement") };
                let Some(k) = self.cx.cst(i) else { err!("symbolic vector index") };
                let mut r = (**x).clone();
                r[k as usize] = v;
                self.set(st, *d, Val::A(Rc::new(r))); self.next(st);
            }
            Ins::Shuffle(t, a, b, mask, d) => {
                let a = self.opd(st, a)?; let b = self.opd(st, b)?;
                let (Val::A(x), Val::A(y)) = (&a, &b) else { err!("shuffle") };
                let Ty::Vec(_, et) = t else { err!("shuffle") };
                let z = self.zero(et)?;
                let r = mask.iter().map(|k| match k { None => z.clone(), Some(k) if (*k as usize) < x.len() => x[*k as usize].clone(), Some(k) => y[*k as usize - x.len()].clone() }).collect();
                self.set(st, *d, Val::A(Rc::new(r))); self.next(st);
            }
            Ins::AtomicRmw(k, t, a, v, d) => {
                let p = self.op(st, a)?; let v = self.op(st, v)?;
                let old = self.load(st, p, t)?; let o = self.sc(&old)?;
                let n = match k.as_str() { "add" => self.cx.add(o, v), "sub" => self.cx.sub(o, v), "xchg" => v, "and" => self.cx.and(o, v), "or" => self.cx.or(o, v), "xor" => self.cx.xor(o, v), _ => err!("atomicrmw {k}") };
                self.store(st, p, &Val::S(n), t)?;
                self.set(st, *d, old); self.next(st);
            }
            Ins::CmpXchg(t, a, c, n, d) => {
                let p = self.op(st, a)?; let c = self.op(st, c)?; let n = self.op(st, n)?;
                let old = self.load(st, p, t)?; let o = self.sc(&old)?;
                let q = self.cx.eq(o, c);
                let nv = self.cx.ite(q, n, o);
                self.store(st, p, &Val::S(nv), t)?;
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::S(q)]))); self.next(st);
            }
            Ins::Br(to) => self.jump(st, *to)?,
            Ins::CondBr(c, a, b) => {
                let c = self.op(st, c)?;
                if self.merge_arms(st, c, *a, *b)? { return Ok(()) }
                let v = self.decide(st, c)?;
                self.jump(st, if v { *a } else { *b })?
            }
            Ins::Switch(v, w, def, cases) => {
                let e = self.op(st, v)?;
                if let Some(k) = self.cx.cst(e) {
                    let to = cases.iter().find(|(c, _)| *c == k).map_or(*def, |x| x.1);
                    return self.jump(st, to);
                }
                // Group the cases by target.
                let mut memo = Default::default();
                let cur = self.cx.eval(e, &st.model, &mut memo);
                let to = cases.iter().find(|(c, _)| *c == cur).map_or(*def, |x| x.1);
                let cond = if to == *def {
                    let mut acc = self.cx.b(true);
                    for (k, t) in cases { if t != def { let kk = self.cx.c(*k, *w); let q = self.cx.eq(e, kk); let nq = self.cx.not(q); acc = self.cx.and(acc, nq) } }
                    acc
                } else {
                    let mut acc = self.cx.b(false);
                    for (k, t) in cases { if *t == to { let kk = self.cx.c(*k, *w); let q = self.cx.eq(e, kk); acc = self.cx.or(acc, q) } }
                    acc
                };
                if self.decide(st, cond)? { return self.jump(st, to) }
                return Err(Stop::Retry);
            }
            Ins::Ret(v) => {
                let val = match v { None => None, Some((_, o)) => Some(self.opd(st, o)?) };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.objs.remove(&a); }
                if st.frames.is_empty() { return Err(Stop::End(PathEnd::Return)) }
                if let Some(d) = fr.dst { match val { Some(v) => self.set(st, d, v), None => err!("missing return value") } }
            }
            Ins::Unreachable => return Err(Stop::End(PathEnd::Panic(format!("reached unreachable code (undefined behaviour) in {}", f.name)))),
            Ins::Call { callee, args, ret, dst, normal } => {
                let ce = if let Opd::Global(g) = callee { *g } else {
                    let e = self.op(st, callee)?;
                    let a = match self.cx.cst(e) {
                        Some(a) => a as u64,
                        None => self.concretize(st, e)? as u64,
                    };
                    match self.addr_sym.get(&a) { Some((s, _)) if matches!(self.m.syms[*s as usize], Sym::Func { .. }) => *s, _ => return Err(Stop::End(PathEnd::Panic(format!("call of an invalid function pointer {a:#x}")))) }
                };
                return self.call(st, ce, args, ret, *dst, *normal);
            }
            Ins::Unsupported(s) => err!("unsupported instruction: {s}"),
        }
        Ok(())
    }

    fn ret_val(&mut self, st: &mut State, dst: Option<Slot>, v: Val, normal: Option<u32>) -> X<()> {
        if let Some(d) = dst { self.set(st, d, v) }
        match normal { Some(b) => self.jump(st, b), None => { self.next(st); Ok(()) } }
    }

    fn call(&mut self, st: &mut State, s: u32, args: &[(Ty, Opd)], ret: &Ty, dst: Option<Slot>, normal: Option<u32>) -> X<()> {
        let m = self.m;
        let name = m.sym_name(s);
        if name.starts_with("llvm.") || name.starts_with("symx_") || !matches!(&m.syms[s as usize], Sym::Func { body: Some(_), .. }) {
            let v = crate::intrin::call(self, st, name, args, ret)?;
            return self.ret_val(st, dst, v, normal);
        }
        if crate::intrin::is_panic(name) {
            let mut loc = String::new();
            for (t, o) in args { if *t == Ty::Ptr { if let Ok(e) = self.op(st, o) { if let Some(a) = self.cx.cst(e) { if let Some(l) = self.location(st, a as u64) { loc = l } } } } }
            let mut short = crate::intrin::demangle(name);
            if args.len() == 3 && args[0].0 == Ty::Ptr && args[1].0 == Ty::Int(64) {
                if let (Ok(p), Ok(n)) = (self.op(st, &args[0].1), self.op(st, &args[1].1)) {
                    if let Ok(t) = self.read_str(st, p, n) { short = format!("{short} \"{t}\"") }
                }
            }
            return Err(Stop::End(PathEnd::Panic(format!("{short} at {loc}"))));
        }
        if name.contains("__rust_alloc") || name.contains("__rust_dealloc") || name.contains("__rust_realloc") || name.contains("__rdl_") || name.contains("__rg_") || name.contains("__rustc") {
            if let Some(v) = crate::intrin::alloc_call(self, st, name, args)? { return self.ret_val(st, dst, v, normal) }
        }
        if self.stubs.iter().any(|x| name.contains(x.as_str())) {
            // The only stubbed functions return an (empty) String through their first (sret) argument.
            let p = self.op(st, &args[0].1)?;
            let z = self.cx.c(0, 64); let one = self.cx.c(1, 64);
            for (k, v) in [z, one, z].into_iter().enumerate() { let kk = self.cx.c(k as u128 * 8, 64); let a = self.cx.add(p, kk); self.store(st, a, &Val::S(v), &Ty::Int(64))?; }
            return self.ret_val(st, dst, Val::N, normal);
        }
        let f = match m.func(self.mc, s) { Ok(f) => f, Err(e) => err!("{e}") };
        if st.frames.len() > 200 { err!("call depth") }
        if f.params.len() != args.len() { err!("call of {name} with {} arguments instead of {}", args.len(), f.params.len()) }
        let mut locals = vec![Val::N; f.nslots as usize];
        let mut vals = vec![];
        for (k, (_, o)) in args.iter().enumerate() {
            let v = self.opd(st, o)?;
            if f.byval[k].is_some() { err!("byval parameter") }
            vals.push(v);
        }
        for (k, v) in vals.into_iter().enumerate() { locals[f.params[k].1 as usize] = v }
        self.called.insert(s);
        // Advance the caller first.
        match normal { Some(b) => self.jump(st, b)?, None => self.next(st) }
        st.frames.push(Frame { f, blk: 0, ip: 0, locals, dst, allocas: vec![] });
        Ok(())
    }

    fn location(&mut self, st: &mut State, a: u64) -> Option<String> {
        let (b, o) = self.find_obj(st, a).ok()??;
        if b != a || o.bytes.len() != 24 || o.writable { return None }
        let g = |s: &mut Self, off, n| { let e = s.gather(&o, off, n); s.cx.cst(e) };
        let p = g(self, 0, 8)? as u64; let n = g(self, 8, 8)? as u64; let line = g(self, 16, 4)?; let col = g(self, 20, 4)?;
        if n > 300 { return None }
        let pe = self.cx.c(p as u128, 64); let ne = self.cx.c(n as u128, 64);
        let s = self.read_str(st, pe, ne).ok()?;
        Some(format!("{}:{line}:{col}", s.trim_end_matches('\0')))
    }
}

pub enum Offs {
    Const(usize),
    Bits { x: E, unk: Vec<u32>, base: u64, c: u64, lim: u64 },
    List { off: E, v: Vec<u64> },
}

// Accessors for the intrinsics.
impl<'a> Engine<'a> {
    pub fn arg(&mut self, st: &State, args: &[(Ty, Opd)], k: usize) -> X<E> { let o = &args[k].1; self.op(st, o) }
    pub fn argv(&mut self, st: &State, args: &[(Ty, Opd)], k: usize) -> X<Val> { let o = &args[k].1; self.opd(st, o) }
    pub fn decide_(&mut self, st: &mut State, c: E) -> X<bool> { self.decide(st, c) }
    pub fn concretize_(&mut self, st: &mut State, c: E) -> X<u128> { self.concretize(st, c) }
    pub fn alloc_(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 { self.alloc(st, size, align, zero) }
    pub fn free_(&mut self, st: &mut State, a: u64) { st.objs.remove(&a); }
    pub fn size_of(&self, st: &State, a: u64) -> Option<u64> { st.objs.get(&a).map(|o| o.bytes.len() as u64) }
    pub fn load_int_(&mut self, st: &mut State, a: E, n: u64) -> X<E> { self.load_int(st, a, n) }
    pub fn read_(&mut self, st: &mut State, a: E, n: u64) -> X<Vec<E>> { self.read_bytes(st, a, n) }
    pub fn write_(&mut self, st: &mut State, a: E, b: &[E]) -> X<()> { self.store_bytes(st, a, b) }
    pub fn str_(&mut self, st: &mut State, p: E, n: E) -> X<String> { self.read_str(st, p, n) }

    pub fn any(&mut self, st: &mut State, w: u32) -> E {
        let k = st.nany;
        st.nany += 1;
        if let Some(c) = &self.concrete {
            let v = c.anys.iter().find(|(n, _)| *n == k * 256 + w).map_or(0, |x| x.1);
            return self.cx.c(v, w);
        }
        self.cx.var(&format!("x{k}_{w}"), w)
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        if self.cx.cst(c) == Some(1) { return Ok(()) }
        // The assertions made before must hold without the assumption.
        if !st.pending.is_empty() {
            let n = self.res.violating;
            self.flush(st).map_err(Stop::Err)?;
            if self.res.violating > n { return Err(Stop::Kill) }
        }
        if self.cx.cst(c) == Some(0) { return Err(Stop::Kill) }
        let mut memo = Default::default();
        if self.cx.eval(c, &st.model, &mut memo) == 1 { self.add_pc(st, c); return Ok(()) }
        let q = self.slice(st, c);
        match self.solver.check(&mut self.cx, &q) {
            Res::Unsat => Err(Stop::Kill),
            Res::Sat(m) => { let m = self.merge(st, m, c); st.model = Rc::new(m); self.add_pc(st, c); Ok(()) }
            Res::Unknown(u) => Err(Stop::Err(format!("assumption undecided: {u}"))),
        }
    }
    pub fn assert(&mut self, st: &mut State, c: E, what: String) {
        self.res.asserts += 1;
        st.pending.push((c, what.into()));
    }
    /// The representative of a word index: an index proven equal to an earlier one on this path is replaced by it.
    pub fn canon(&mut self, st: &mut State, idx: E) -> X<E> {
        if self.cx.cst(idx).is_some() || self.no_cut { return Ok(idx) }
        if let Some(&r) = st.alias.get(&idx) { return Ok(r) }
        let orig = idx;
        let idx = self.simp(st, idx);
        if self.cx.cst(idx).is_some() { return Ok(idx) }
        if let Some(&r) = st.alias.get(&idx) { Rc::make_mut(&mut st.alias).insert(orig, r); return Ok(r) }
        let mut memo = Default::default();
        let v = self.cx.eval(idx, &st.model, &mut memo);
        let addrs = st.addrs.clone();
        let mut rep = idx;
        for &a in addrs.iter() {
            if self.cx.width(a) != self.cx.width(idx) || self.cx.eval(a, &st.model, &mut memo) != v { continue }
            let q = self.cx.eq(a, idx);
            if self.cx.cst(q) == Some(1) { rep = a; break }
            if self.cx.cst(q) == Some(0) { continue }
            let nq = self.cx.not(q);
            let sl = self.slice(st, nq);
            match self.solver.check(&mut self.cx, &sl) {
                Res::Unsat => { rep = a; break }
                // Not equal, or not known: only a lost simplification.
                _ => {}
            }
        }
        if rep == idx { Rc::make_mut(&mut st.addrs).push(idx) }
        Rc::make_mut(&mut st.alias).insert(idx, rep);
        Rc::make_mut(&mut st.alias).insert(orig, rep);
        Ok(rep)
    }
    pub fn mem_read(&mut self, st: &mut State, mem: usize, addr: E) -> X<E> {
        let idx = self.cx.ext(addr, 1, 31);
        let idx = self.canon(st, idx)?;
        Ok(self.mem_read_at(st, mem, idx))
    }
    fn mem_read_at(&mut self, st: &State, mem: usize, idx: E) -> E {
        let log = st.mems[mem].clone();
        let mut start = 0;
        let mut acc = None;
        for (k, (i, v)) in log.iter().enumerate().rev() {
            let q = self.cx.eq(idx, *i);
            if self.cx.cst(q) == Some(1) { acc = Some(*v); start = k + 1; break }
        }
        let mut r = match acc { Some(v) => v, None => self.base_read(0, idx, 16) };
        for (i, v) in log.iter().skip(start) {
            let q = self.cx.eq(idx, *i);
            r = self.cx.ite(q, *v, r);
        }
        r
    }
    pub fn base_read(&mut self, arr: u32, idx: E, w: u32) -> E {
        if let Some(c) = &self.concrete {
            if let Some(i) = self.cx.cst(idx) {
                let v = c.arrs.iter().find(|x| x.0 == arr && x.1 == i).map_or(0, |x| x.2);
                return self.cx.c(v, w);
            }
        }
        self.cx.sel(arr, idx, w)
    }
    pub fn valid(&mut self, st: &mut State, kind: u32, addr: E) -> X<E> {
        let idx = self.cx.ext(addr, 1, 31);
        let idx = self.canon(st, idx)?;
        Ok(self.base_read(1 + kind, idx, 1))
    }
    pub fn mem_write(&mut self, st: &mut State, mem: usize, addr: E, v: E) -> X<()> {
        let idx = self.cx.ext(addr, 1, 31);
        let idx = self.canon(st, idx)?;
        let log = Rc::make_mut(&mut st.mems[mem]);
        log.retain(|(i, _)| *i != idx);
        log.push((idx, v));
        Ok(())
    }
    /// Equality of two memories.
    pub fn mem_eq(&mut self, st: &mut State, a: usize, b: usize) -> E {
        if st.mems[a] == st.mems[b] { return self.cx.b(true) }
        // They differ nowhere else than at the written indices.
        let (la, lb) = (st.mems[a].clone(), st.mems[b].clone());
        let mut keys: Vec<E> = la.iter().map(|x| x.0).collect();
        for (k, _) in lb.iter() { if !keys.contains(k) { keys.push(*k) } }
        let mut acc = self.cx.b(true);
        for k in keys {
            let x = self.mem_read_at(st, a, k);
            let y = self.mem_read_at(st, b, k);
            let q = self.cx.eq(x, y);
            acc = self.cx.and(acc, q);
        }
        acc
    }
    pub fn mem_clear(&mut self, st: &mut State, a: usize) { st.mems[a] = Rc::new(vec![]); }
    pub fn mem_copy(&mut self, st: &mut State, a: usize, b: usize) { st.mems[a] = st.mems[b].clone(); }
    pub fn set_panic(&mut self, st: &mut State, v: u32) { st.panic_ok = v; }
    pub fn cover(&mut self, st: &mut State, n: String) { st.covers.insert(n); }
    pub fn note(&mut self, st: &mut State, n: String, e: E) { st.notes.push((n, e)); }
}
