//! SMT-LIB2 back end: an external solver process decides conjunctions of 1-bit expressions (QF_BV).
//! Uninterpreted array applications are eliminated by Ackermann expansion before they are sent.

use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Res { Sat(Model), Unsat, Unknown(String) }

pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub time: f64, pub max: f64, pub cross: u64 }

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxSet<E>,
    vars: FxSet<E>,
}

pub struct Solver {
    cmd: Vec<String>,
    timeout_ms: u64,
    p: Option<Proc>,
    pub stats: Stats,
    cache: FxMap<Vec<E>, Option<std::rc::Rc<Model>>>,
    /// Second solver that has to confirm every unsat answer.
    cross: Option<Vec<String>>,
    cross_p: Option<Proc>,
    pub dump: bool,
    /// Variable that stands for each quotient or remainder, and what is always true of it.
    divs: FxMap<(bool, E, E), (E, E)>,
    muls: FxMap<(E, E), (E, E)>,
}

impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn spawn(cmd: &[String]) -> Proc {
    let mut child = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
        .spawn().unwrap_or_else(|e| panic!("cannot start solver {cmd:?}: {e}"));
    let inp = child.stdin.take().unwrap();
    let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    Proc { child, inp, out, defined: Default::default(), vars: Default::default() }
}

impl Solver {
    pub fn new(cmd: Vec<String>, timeout_ms: u64, cross: Option<Vec<String>>) -> Self {
        Solver { cmd, timeout_ms, p: None, stats: Stats { queries: 0, sat: 0, unsat: 0, time: 0.0, max: 0.0, cross: 0 }, cache: Default::default(), cross, cross_p: None, dump: false, divs: Default::default(), muls: Default::default() }
    }

    pub fn reset(&mut self) { self.p = None; self.cross_p = None; self.cache.clear(); self.divs.clear(); self.muls.clear(); }

    /// Decides the conjunction of the given 1-bit expressions.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.iter().copied().filter(|&c| cx.cst(c) != Some(1)).collect();
        key.sort_unstable();
        key.dedup();
        if key.iter().any(|&c| cx.cst(c) == Some(0)) { return Res::Unsat }
        if key.is_empty() { return Res::Sat(Model::default()) }
        if let Some(r) = self.cache.get(&key) {
            return match r { Some(m) => Res::Sat((**m).clone()), None => Res::Unsat };
        }
        let nonlinear = {
            let mut seen: FxSet<E> = Default::default();
            let mut st = key.clone();
            let mut found = false;
            while let Some(x) = st.pop() {
                if cx.cst(x).is_some() || !seen.insert(x) { continue }
                if let N::UDiv(_, d) | N::URem(_, d) | N::SDiv(_, d) | N::SRem(_, d) = cx.node(x) { if cx.cst(d).is_none() && cx.width(d) >= 16 { found = true; break } }
                if let N::Mul(a, b) = cx.node(x) { if cx.cst(a).is_none() && cx.cst(b).is_none() && cx.width(a) >= 16 { found = true; break } }
                for c in cx.children(x).into_iter().flatten() { st.push(c) }
            }
            found
        };
        if nonlinear {
            // First with products, quotients and remainders over-approximated by variables.
            let mut memo: FxMap<E, E> = Default::default();
            let mut lemmas: Vec<E> = vec![];
            let mut abs: Vec<E> = key.iter().map(|&c| self.abstract_div(cx, c, &mut memo, &mut lemmas)).collect();
            abs.append(&mut lemmas);
            abs.retain(|&c| cx.cst(c) != Some(1));
            abs.sort_unstable();
            abs.dedup();
            if abs.iter().any(|&c| cx.cst(c) == Some(0)) { self.cache.insert(key, None); return Res::Unsat }
            match self.decide(cx, &abs) {
                Res::Unsat => { self.cache.insert(key, None); return Res::Unsat }
                Res::Sat(m) => {
                    let mut memo = Default::default();
                    if key.iter().all(|&c| cx.eval(c, &m, &mut memo) == 1) {
                        self.cache.insert(key, Some(std::rc::Rc::new(m.clone())));
                        return Res::Sat(m);
                    }
                }
                Res::Unknown(_) => {}
            }
        }
        let r = self.decide(cx, &key);
        match &r {
            Res::Sat(m) => {
                let mut memo = Default::default();
                for &c in &key {
                    if cx.eval(c, m, &mut memo) != 1 {
                        return Res::Unknown(format!("solver model does not satisfy constraint {}", cx.show(c, 6)));
                    }
                }
                self.cache.insert(key, Some(std::rc::Rc::new(m.clone())));
            }
            Res::Unsat => { self.cache.insert(key, None); }
            Res::Unknown(_) => {}
        }
        r
    }

    /// The expression with each product, quotient and remainder of variables replaced by a variable.
    fn abstract_div(&mut self, cx: &mut Ctx, e: E, memo: &mut FxMap<E, E>, lemmas: &mut Vec<E>) -> E {
        if cx.cst(e).is_some() { return e }
        if let Some(&r) = memo.get(&e) { return r }
        let w = cx.width(e);
        macro_rules! s { ($x:expr) => { self.abstract_div(cx, $x, memo, lemmas) } }
        macro_rules! bi { ($x:expr, $y:expr, $m:ident) => {{ let p = s!($x); let q = s!($y); if p == $x && q == $y { e } else { cx.$m(p, q) } }} }
        let r = match cx.node(e) {
            N::C(_) | N::Var(_) => e,
            N::Sel(a, i) => { let p = s!(i); if p == i { e } else { cx.sel(a, p, w) } }
            N::Not(x) => { let p = s!(x); if p == x { e } else { cx.not(p) } }
            N::ZExt(x) => { let p = s!(x); if p == x { e } else { cx.zext(p, w) } }
            N::SExt(x) => { let p = s!(x); if p == x { e } else { cx.sext(p, w) } }
            N::Ext(x, lo) => { let p = s!(x); if p == x { e } else { cx.ext(p, lo, w) } }
            N::Add(a, b) => bi!(a, b, add), N::Sub(a, b) => bi!(a, b, sub),
            N::Mul(a, b) => { let (p, q) = (s!(a), s!(b)); self.mul(cx, p, q, lemmas) }
            N::And(a, b) => bi!(a, b, and), N::Or(a, b) => bi!(a, b, or), N::Xor(a, b) => bi!(a, b, xor),
            N::Shl(a, b) => bi!(a, b, shl), N::LShr(a, b) => bi!(a, b, lshr), N::AShr(a, b) => bi!(a, b, ashr),
            N::Eq(a, b) => bi!(a, b, eq), N::Ult(a, b) => bi!(a, b, ult), N::Slt(a, b) => bi!(a, b, slt),
            N::Concat(a, b) => bi!(a, b, concat),
            N::Ite(c, a, b) => {
                let x = s!(c);
                match cx.cst(x) {
                    Some(1) => s!(a),
                    Some(_) => s!(b),
                    None => { let p = s!(a); let q = s!(b); if x == c && p == a && q == b { e } else { cx.ite(x, p, q) } }
                }
            }
            N::UDiv(a, b) | N::URem(a, b) => {
                let rem = matches!(cx.node(e), N::URem(..));
                let (p, q) = (s!(a), s!(b));
                self.udiv(cx, rem, p, q, lemmas)
            }
            N::SDiv(a, b) | N::SRem(a, b) => {
                let rem = matches!(cx.node(e), N::SRem(..));
                let (p, q) = (s!(a), s!(b));
                let sa = cx.ext(p, w - 1, 1);
                let sb = cx.ext(q, w - 1, 1);
                let (x, y) = (cx.magnitude(p), cx.magnitude(q));
                let u = self.udiv(cx, rem, x, y, lemmas);
                let n = cx.neg(u);
                let neg = if rem { sa } else { cx.xor(sa, sb) };
                cx.ite(neg, n, u)
            }
        };
        memo.insert(e, r);
        r
    }

    fn mul(&mut self, cx: &mut Ctx, a: E, b: E, lemmas: &mut Vec<E>) -> E {
        let w = cx.width(a);
        if cx.cst(a).is_some() || cx.cst(b).is_some() || w < 16 { return cx.mul(a, b) }
        let sext = |cx: &Ctx, x: E| matches!(cx.node(x), N::SExt(_));
        if sext(cx, a) || sext(cx, b) {
            // The product of the magnitudes, negated when the signs differ.
            let (sa, sb) = (cx.ext(a, w - 1, 1), cx.ext(b, w - 1, 1));
            let (x, y) = (cx.magnitude(a), cx.magnitude(b));
            let u = self.mul(cx, x, y, lemmas);
            let n = cx.neg(u);
            let neg = cx.xor(sa, sb);
            return cx.ite(neg, n, u);
        }
        let bits = |x: u128| (128 - x.leading_zeros()).max(1);
        let (na, nb) = (bits(cx.umax(a)), bits(cx.umax(b)));
        if na + nb > w { return cx.mul(a, b) }
        let (mut x, mut y) = (cx.ext(a, 0, na), cx.ext(b, 0, nb));
        if x > y { std::mem::swap(&mut x, &mut y) }
        let n = na + nb;
        let (v, l) = match self.muls.get(&(x, y)) {
            Some(&r) => r,
            None => {
                let v = cx.var(&format!("mul{}", self.muls.len()), n);
                let (zx, zy, zv) = (cx.c(0, cx.width(x)), cx.c(0, cx.width(y)), cx.c(0, n));
                let (ex, ey, ev) = (cx.eq(x, zx), cx.eq(y, zy), cx.eq(v, zv));
                let z = cx.or(ex, ey);
                let l = cx.eq(z, ev);
                let most = cx.most(x) * cx.most(y);
                let most = cx.c(most, n);
                let over = cx.ult(most, v);
                let le = cx.not(over);
                let l = cx.and(l, le);
                self.muls.insert((x, y), (v, l));
                (v, l)
            }
        };
        lemmas.push(l);
        cx.zext(v, w)
    }

    fn udiv(&mut self, cx: &mut Ctx, rem: bool, a: E, b: E, lemmas: &mut Vec<E>) -> E {
        let w = cx.width(a);
        if cx.cst(b).is_some() { return if rem { cx.urem(a, b) } else { cx.udiv(a, b) } }
        let bits = |x: u128| 128 - x.leading_zeros();
        let need = bits(cx.umax(a)).max(bits(cx.umax(b))).max(1);
        let (x, y) = (cx.ext(a, 0, need), cx.ext(b, 0, need));
        let (v, l) = match self.divs.get(&(rem, x, y)) {
            Some(&r) => r,
            None => {
                let v = cx.var(&format!("div{}", self.divs.len()), need);
                let z = cx.c(0, need);
                let by0 = cx.eq(y, z);
                let gt = cx.ult(x, v);
                let le = cx.not(gt);
                let (on0, other) = if rem {
                    let lt = cx.ult(v, y);
                    (cx.eq(v, x), cx.and(lt, le))
                } else {
                    let ones = cx.c(!0, need);
                    // The quotient is zero exactly when the dividend is less than the divisor.
                    let (lt, vz) = (cx.ult(x, y), cx.eq(v, z));
                    let same = cx.eq(lt, vz);
                    (cx.eq(v, ones), cx.and(le, same))
                };
                let l = cx.ite(by0, on0, other);
                self.divs.insert((rem, x, y), (v, l));
                (v, l)
            }
        };
        lemmas.push(l);
        let r = cx.zext(v, w);
        if rem || need == w { return r }
        let z = cx.c(0, need);
        let by0 = cx.eq(y, z);
        let ones = cx.c(!0, w);
        cx.ite(by0, ones, r)
    }

    /// Sends the conjunction to the solver.
    fn decide(&mut self, cx: &mut Ctx, key: &[E]) -> Res {
        let t = Instant::now();
        // Ackermann expansion.
        let mut all = key.to_vec();
        let mut sels: Vec<E> = vec![];
        let mut vars: Vec<E> = vec![];
        let mut seen: FxSet<E> = Default::default();
        let mut st: Vec<E> = key.to_vec();
        while let Some(x) = st.pop() {
            if cx.cst(x).is_some() || !seen.insert(x) { continue }
            match cx.node(x) { N::Sel(..) => sels.push(x), N::Var(_) => vars.push(x), _ => {} }
            for c in cx.children(x).into_iter().flatten() { st.push(c) }
        }
        sels.sort_unstable();
        vars.sort_unstable();
        for i in 0..sels.len() {
            for j in 0..i {
                let (N::Sel(a, x), N::Sel(b, y)) = (cx.node(sels[i]), cx.node(sels[j])) else { unreachable!() };
                if a != b { continue }
                let q = cx.eq(x, y);
                if cx.cst(q) == Some(0) { continue }
                let nq = cx.not(q);
                let v = cx.eq(sels[i], sels[j]);
                let o = cx.or(nq, v);
                all.push(o);
            }
        }
        let r = Self::run(&mut self.p, &self.cmd, self.timeout_ms, self.dump, cx, &all, &vars, &sels);
        let el = t.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += el;
        if el > self.stats.max { self.stats.max = el }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => {
                self.stats.unsat += 1;
                if let Some(cr) = self.cross.clone() {
                    self.stats.cross += 1;
                    match Self::run(&mut self.cross_p, &cr, self.timeout_ms, false, cx, &all, &vars, &sels) {
                        Res::Unsat => {}
                        Res::Sat(_) => return Res::Unknown("the second solver disagrees (sat) with an unsat answer".into()),
                        // The cross check is an extra; a timeout of the second solver is not a disagreement.
                        Res::Unknown(_) => { self.stats.cross -= 1; }
                    }
                }
            }
            Res::Unknown(u) => { if self.dump { eprintln!("; UNKNOWN {u}") } self.p = None; }
        }
        r
    }

    fn run(slot: &mut Option<Proc>, cmd: &[String], timeout_ms: u64, dump: bool, cx: &Ctx, all: &[E], vars: &[E], sels: &[E]) -> Res {
        if slot.as_ref().map_or(true, |p| p.defined.len() > 150_000) {
            let mut p = spawn(cmd);
            let is_z3 = cmd[0].contains("z3");
            let mut pre = String::new();
            if is_z3 { pre += &format!("(set-option :timeout {timeout_ms})\n"); }
            pre += "(set-option :produce-models true)\n(set-option :global-declarations true)\n(set-logic QF_BV)\n";
            if p.inp.write_all(pre.as_bytes()).is_err() { return Res::Unknown("solver died".into()) }
            *slot = Some(p);
        }
        let p = slot.as_mut().unwrap();
        let mut s = String::new();
        for &c in all.iter().chain(vars).chain(sels) { define(cx, c, p, &mut s); }
        s.push_str("(push 1)\n");
        for &c in all { s.push_str("(assert "); refer(cx, c, &mut s); s.push_str(")\n"); }
        s.push_str("(check-sat)\n");
        if dump { eprintln!("{s}"); }
        if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() { *slot = None; return Res::Unknown("solver died".into()) }
        let mut line = String::new();
        if p.out.read_line(&mut line).unwrap_or(0) == 0 { *slot = None; return Res::Unknown("solver died".into()) }
        match line.trim() {
            "unsat" => { let _ = p.inp.write_all(b"(pop 1)\n"); Res::Unsat }
            "sat" => {
                let mut m = Model::default();
                if !vars.is_empty() || !sels.is_empty() {
                    let mut g = String::from("(get-value (");
                    for &v in vars.iter().chain(sels) { refer(cx, v, &mut g); g.push(' ') }
                    g.push_str("))\n(pop 1)\n");
                    if p.inp.write_all(g.as_bytes()).and_then(|_| p.inp.flush()).is_err() { *slot = None; return Res::Unknown("solver died".into()) }
                    // Read a balanced s-expression.
                    let mut txt = String::new();
                    loop {
                        let n = p.out.read_line(&mut txt).unwrap_or(0);
                        if n == 0 { *slot = None; return Res::Unknown("solver died".into()) }
                        let d = txt.bytes().filter(|&b| b == b'(').count() as i64 - txt.bytes().filter(|&b| b == b')').count() as i64;
                        if d <= 0 { break }
                    }
                    let vals = match parse_values(&txt) { Some(v) => v, None => { *slot = None; return Res::Unknown(format!("bad solver answer: {txt}")) } };
                    let mut nv: FxMap<E, u128> = Default::default();
                    for (name, v) in vals {
                        let id: E = match name[1..].parse() { Ok(x) => x, Err(_) => { *slot = None; return Res::Unknown(format!("bad solver answer: {name}")) } };
                        nv.insert(id, v);
                    }
                    for &v in vars { if let N::Var(i) = cx.node(v) { m.vars.insert(i, *nv.get(&v).unwrap_or(&0)); } }
                    // Arena order is topological: inner applications come first.
                    let mut memo: FxMap<E, u128> = Default::default();
                    for &x in sels {
                        if let N::Sel(a, i) = cx.node(x) {
                            let iv = cx.eval(i, &m, &mut memo);
                            m.arr.insert((a, iv), *nv.get(&x).unwrap_or(&0));
                        }
                    }
                } else { let _ = p.inp.write_all(b"(pop 1)\n"); }
                Res::Sat(m)
            }
            other => { let o = other.to_string(); *slot = None; Res::Unknown(format!("solver answered: {o}")) }
        }
    }
}

fn parse_values(t: &str) -> Option<Vec<(String, u128)>> {
    // ((v1 #x00) (s2 true) (v3 (_ bv5 8)))
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in t.chars() {
        match ch {
            '(' | ')' => { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } }
            c if c.is_whitespace() => { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } }
            c => cur.push(c),
        }
    }
    let mut r = vec![];
    let mut i = 0;
    while i < toks.len() {
        let name = toks[i].clone();
        let v = toks.get(i + 1)?;
        i += 2;
        let val = if v == "true" { 1 } else if v == "false" { 0 }
        else if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).ok()? }
        else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).ok()? }
        else if v == "_" { let n = toks.get(i)?.strip_prefix("bv")?.parse().ok()?; i += 2; n }
        else { return None };
        r.push((name, val));
    }
    Some(r)
}

/// Name or literal. Width-1 expressions have sort Bool.
fn refer(cx: &Ctx, e: E, s: &mut String) {
    use std::fmt::Write;
    let w = cx.width(e);
    if let N::C(v) = cx.node(e) {
        if w == 1 { s.push_str(if v == 1 { "true" } else { "false" }) }
        else if w % 4 == 0 { let _ = write!(s, "#x{:0n$x}", v, n = w as usize / 4); }
        else { let _ = write!(s, "#b{:0n$b}", v, n = w as usize); }
    } else { let _ = write!(s, "v{e}"); }
}

fn refbv(cx: &Ctx, e: E, s: &mut String) {
    if cx.width(e) == 1 { s.push_str("(ite "); refer(cx, e, s); s.push_str(" #b1 #b0)") } else { refer(cx, e, s) }
}

fn define(cx: &Ctx, root: E, p: &mut Proc, s: &mut String) {
    use std::fmt::Write;
    if cx.cst(root).is_some() { return }
    let mut st: Vec<(E, bool)> = vec![(root, false)];
    while let Some((e, ready)) = st.pop() {
        if cx.cst(e).is_some() || p.defined.contains(&e) { continue }
        let node = cx.node(e);
        if !ready && !matches!(node, N::Sel(..)) {
            st.push((e, true));
            for c in cx.children(e).into_iter().flatten() { if cx.cst(c).is_none() && !p.defined.contains(&c) { st.push((c, false)) } }
            continue;
        }
        p.defined.insert(e);
        let w = cx.width(e);
        if matches!(node, N::Var(_) | N::Sel(..)) {
            p.vars.insert(e);
            if w == 1 { let _ = writeln!(s, "(declare-fun v{e} () Bool)"); }
            else { let _ = writeln!(s, "(declare-fun v{e} () (_ BitVec {w}))"); }
            continue;
        }
        if w == 1 { let _ = write!(s, "(define-fun v{e} () Bool "); } else { let _ = write!(s, "(define-fun v{e} () (_ BitVec {w}) "); }
        let bin = |op: &str, a: E, b: E, s: &mut String| { s.push('('); s.push_str(op); s.push(' '); refbv(cx, a, s); s.push(' '); refbv(cx, b, s); s.push(')') };
        let binb = |op: &str, a: E, b: E, s: &mut String| { s.push('('); s.push_str(op); s.push(' '); refer(cx, a, s); s.push(' '); refer(cx, b, s); s.push(')') };
        match node {
            N::C(_) | N::Var(_) | N::Sel(..) => unreachable!(),
            N::Not(a) => { s.push_str(if w == 1 { "(not " } else { "(bvnot " }); refer(cx, a, s); s.push(')') }
            N::And(a, b) => binb(if w == 1 { "and" } else { "bvand" }, a, b, s),
            N::Or(a, b) => binb(if w == 1 { "or" } else { "bvor" }, a, b, s),
            N::Xor(a, b) => binb(if w == 1 { "xor" } else { "bvxor" }, a, b, s),
            N::Eq(a, b) => binb("=", a, b, s),
            N::Ult(a, b) => bin("bvult", a, b, s),
            N::Slt(a, b) => bin("bvslt", a, b, s),
            N::Concat(a, b) => bin("concat", a, b, s),
            N::Ext(a, lo) => {
                if w == 1 { let _ = write!(s, "(= ((_ extract {lo} {lo}) "); refbv(cx, a, s); s.push_str(") #b1)"); }
                else { let _ = write!(s, "((_ extract {} {lo}) ", lo + w - 1); refbv(cx, a, s); s.push(')'); }
            }
            N::ZExt(a) => { let _ = write!(s, "((_ zero_extend {}) ", w - cx.width(a)); refbv(cx, a, s); s.push(')') }
            N::SExt(a) => { let _ = write!(s, "((_ sign_extend {}) ", w - cx.width(a)); refbv(cx, a, s); s.push(')') }
            N::Ite(c, a, b) => { s.push_str("(ite "); refer(cx, c, s); s.push(' '); refer(cx, a, s); s.push(' '); refer(cx, b, s); s.push(')') }
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) => {
                let op = match node { N::Add(..) => "bvadd", N::Sub(..) => "bvsub", N::Mul(..) => "bvmul", N::UDiv(..) => "bvudiv", N::URem(..) => "bvurem",
                    N::SDiv(..) => "bvsdiv", N::SRem(..) => "bvsrem", N::Shl(..) => "bvshl", N::LShr(..) => "bvlshr", _ => "bvashr" };
                if w == 1 { s.push_str("(= "); bin(op, a, b, s); s.push_str(" #b1)"); } else { bin(op, a, b, s) }
            }
        }
        s.push_str(")\n");
    }
}
