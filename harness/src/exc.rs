//! Exceptions: entry, pending set, return, stopped state.

use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Exception;
use m68000::{CpuDetails, M68000};

const NOP: u16 = 0x4E71;
const RTE: u16 = 0x4E73;

/// A vector of the unit: between parameters `i` and `i` + 1.
fn vector(i: u32) -> u32 {
    let (lo, hi) = (param(i) as u32, param(i + 1) as u32);
    if lo == hi { return lo }
    let v = any8() as u32;
    assume((v >= lo) & (v <= hi));
    v
}

/// A core with an even supervisor stack pointer, and a model of it.
fn start<C: CpuDetails>(scc: bool) -> (M68000<C>, O, SymMem) {
    let mut c = arb_cpu::<C>();
    c.regs.ssp.0 &= !1;
    let o = model(&c, 1, false, scc);
    (c, o, SymMem::new(0, false))
}

/// One call, on a memory whose handlers are at odd addresses: the opcode fetch fails, which shows the state just after the exceptions.
fn call<C: CpuDetails>(c: &mut M68000<C>, m: &mut SymMem) -> u32 {
    if param(0) & 1 != 0 { code(c.disassembler_interpreter_exception(m).3) } else { code(c.interpreter_exception(m).1) }
}

/// Exception entry, handler at an odd address. Parameters 1 and 2: range of vectors.
fn entry<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let v = vector(1);
    note("vector", v as u64);
    // A user interrupt has no level: the mask is not concerned.
    let mut ir = 0xFFFF;
    if param(3) != 0 {
        // The opcode of the long frame is that of the last instruction.
        let op = 0x7000 | any16() & 0x0EFF;
        c.regs.pc.0 &= !1;
        c.regs.sr.t = false;
        o.t = false;
        o.pc = c.regs.pc.0;
        assume(mem_read(0, c.regs.pc.0) == op);
        let e = call(&mut c, &mut m);
        o.pc = o.pc.wrapping_add(2);
        o.exec(op);
        check(e == NONE, "exception of MOVEQ");
        ir = op as u32;
    }
    assume(!masked(v, o.im));
    c.exception(Exception::from(v as u8));
    o.enter(v, ir);
    let at = o.pc;
    if param(0) & 2 == 0 {
        assume(at & 1 != 0);
        let e = call(&mut c, &mut m);
        check(e == 3, "exception of the fetch at an odd address");
    } else {
        assume(at & 1 == 0);
        assume(mem_read(1, at) == NOP);
        o.pc = at.wrapping_add(2);
        let e = call(&mut c, &mut m);
        check(e == NONE, "exception in the handler");
    }
    cover("taken");
    compare(&c, &m, &o);
    // It is taken once.
    o.pc = c.regs.pc.0;
    if o.pc & 1 != 0 {
        let e = call(&mut c, &mut m);
        check(e == 3, "exception of the fetch at an odd address");
        compare(&c, &m, &o);
    }
}
pub fn entry_m() { entry::<Mc68000>(false) }
pub fn entry_s() { entry::<Scc68070>(true) }

/// Fault while the exception is taken: it becomes a pending access error (spurious interrupt for interrupts).
fn entry_fault<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, _) = start::<C>(scc);
    let mut m = SymMem::new(0, true);
    let v = vector(1);
    note("vector", v as u64);
    assume(!masked(v, o.im) & (v != 0));
    o.faults = true;
    o.enter(v, 0xFFFF);
    assume(o.fault != 0);
    let pc = c.regs.pc.0;
    assume(!valid(RD, pc & !1));
    c.exception(Exception::from(v as u8));
    // An access error during the access error processing is the double fault that stops the processor: the library panics.
    panic_ok(if split(v == 2) { 2 } else { 0 });
    let e = call(&mut c, &mut m);
    panic_ok(0);
    cover("refused");
    eq32(c.regs.pc.0, pc, "PC when the exception cannot be taken");
    eq32(e, ite32(pc & 1 != 0, 3, 2), "exception of the fetch");
    check(c.regs.sr.s, "supervisor mode while the exception is taken");
    // What is pending now: the next call takes it, with a memory that works.
    let w = ite32(level(v) != 0, 24, 2);
    m.faults = false;
    let mut o = model(&c, 0, false, scc);
    mem_copy(1, 0);
    o.mem = 1;
    o.enter(w, 0xFFFF);
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
}
pub fn entry_fault_m() { entry_fault::<Mc68000>(false) }
pub fn entry_fault_s() { entry_fault::<Scc68070>(true) }

/// Odd supervisor stack pointer: nothing reaches the memory at an odd address, nothing is written, no panic.
fn entry_odd<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    c.regs.ssp.0 |= 1;
    let v = vector(1);
    note("vector", v as u64);
    assume(!masked(v, o.im) & (v != 0));
    c.regs.pc.0 |= 1;
    o.pc = c.regs.pc.0;
    c.exception(Exception::from(v as u8));
    let e = call(&mut c, &mut m);
    cover("odd stack");
    check(e == 3, "exception of the fetch at an odd address");
    eq32(m.writes, 0, "writes");
    eq32(c.regs.pc.0, o.pc, "PC when the exception cannot be taken");
    // The address error that is pending now is taken once the stack pointer is good.
    c.regs.ssp.0 &= !1;
    let mut o = model(&c, 1, false, scc);
    o.enter(3, 0xFFFF);
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
}
pub fn entry_odd_m() { entry_odd::<Mc68000>(false) }
pub fn entry_odd_s() { entry_odd::<Scc68070>(true) }

/// Several pending exceptions. Parameters from 1: ranges of the vectors.
fn pending<C: CpuDetails>(scc: bool, n: usize) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let mut v = [0u32; 3];
    const N: [&str; 3] = ["first vector", "second vector", "third vector"];
    for i in 0..n {
        v[i] = vector(1 + 2 * i as u32);
        note(N[i], v[i] as u64);
    }
    for i in 0..n { c.exception(Exception::from(v[i] as u8)) }
    // Requesting an exception changes nothing else.
    check(!c.stop, "stopped state");
    let mut wait = [false; 3];
    let mut go = [false; 3];
    let mut reset = false;
    for i in 0..n {
        let dup = (i > 0 && v[i] == v[0]) | (i > 1 && v[i] == v[1]);
        let k = masked(v[i], o.im);
        wait[i] = split(k & !dup);
        go[i] = split(!k & !dup);
        if go[i] { reset |= split(v[i] == 0) }
    }
    if reset {
        o.enter(0, 0xFFFF);
        wait = [false; 3];
    } else {
        take(&mut o, &v, go);
    }
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    cover("first");
    // Those that were masked are taken when the mask is lowered.
    c.regs.sr.interrupt_mask = 0;
    o.im = 0;
    if wait[0] | wait[1] | wait[2] { cover("masked") }
    take(&mut o, &v, wait);
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    // Nothing is left.
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    cover("last");
}

const SETS: [&[u32]; 4] = [
    // Every level, a spurious interrupt and the on-chip ones of two levels.
    &[25, 26, 27, 28, 29, 30, 31, 24, 57, 63, 61],
    // One of each group and more user interrupts than a node of the set holds.
    &[9, 4, 8, 10, 11, 25, 31, 28, 64, 65, 100, 200, 254, 255],
    &[64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88],
    &[3, 9, 24, 29, 30, 64, 255],
];

/// Many exceptions pending at once. Parameters: 1 the set, 2 the order of the requests, 3 how many.
fn pending_many<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let set = SETS[param(1) as usize];
    let n = set.len();
    let step = param(2) as usize;
    let at = |i: usize| (i * step + step) % n;
    for i in 0..n { c.exception(Exception::from(set[at(i)] as u8)) }
    // One is requested again, which changes nothing.
    c.exception(Exception::from(set[at(n / 2)] as u8));
    let mut wait = [false; 14];
    let mut go = [false; 14];
    for i in 0..n {
        let k = split(masked(set[i], o.im));
        wait[i] = k;
        go[i] = !k;
    }
    take_many(&mut o, set, go);
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    cover("first");
    c.regs.sr.interrupt_mask = 0;
    o.im = 0;
    take_many(&mut o, set, wait);
    assume(o.pc & 1 != 0);
    let e = call(&mut c, &mut m);
    check(e == 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    cover("last");
}

fn take_many(o: &mut O, v: &[u32], mut go: [bool; 14]) {
    for _ in 0..14 {
        let mut best = 14;
        for i in 0..v.len() {
            if !go[i] { continue }
            if best == 14 { best = i; continue }
            let (a, b) = (v[i], v[best]);
            let (ra, rb) = (rank(a), rank(b));
            if (ra > rb) | ((ra == rb) & ((level(a) < level(b)) | ((level(a) == level(b)) & (a < b)))) { best = i }
        }
        if best == 14 { return }
        go[best] = false;
        o.enter(v[best], 0xFFFF);
    }
}
pub fn pending_many_m() { pending_many::<Mc68000>(false) }
pub fn pending_many_s() { pending_many::<Scc68070>(true) }

/// The exceptions of `go` are taken from the lowest to the highest priority. Equal priorities without level: any order is right, the code's
/// own order is followed when the final program counter shows it (assumed away otherwise).
fn take(o: &mut O, v: &[u32; 3], mut go: [bool; 3]) {
    for _ in 0..3 {
        let mut best = 3;
        for i in 0..3 {
            if !go[i] { continue }
            if best == 3 { best = i; continue }
            let (a, b) = (v[i], v[best]);
            let (ra, rb) = (rank(a), rank(b));
            // Interrupts: the higher level is taken last. Others of the same rank: the higher vector is taken last.
            let first = (ra > rb) | ((ra == rb) & ((level(a) < level(b)) | ((level(a) == level(b)) & (a < b))));
            if split(first) { best = i }
        }
        if best == 3 { return }
        go[best] = false;
        o.enter(v[best], 0xFFFF);
    }
}
pub fn pending2_m() { pending::<Mc68000>(false, 2) }
pub fn pending2_s() { pending::<Scc68070>(true, 2) }
pub fn pending3_m() { pending::<Mc68000>(false, 3) }
pub fn pending3_s() { pending::<Scc68070>(true, 3) }

/// Cycles of exception processing: one exception (ranges in parameters 1 and 2) or two (3 and 4), handler a NOP or at an odd address.
fn time<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let (v, w) = (vector(1), vector(3));
    note("first vector", v as u64);
    note("second vector", w as u64);
    assume(!masked(v, o.im) & (v != 0 || w == 0));
    // The first exception raises the mask: the second waits for its turn in the same call.
    c.exception(Exception::from(v as u8));
    if w != 0 { c.exception(Exception::from(w as u8)) }
    let (mut go, v) = ([true, false, false], [v, w, 0]);
    let mut t = crate::times::exception_time(v[0], scc);
    if w != 0 && w != v[0] && split(!masked(w, o.im)) {
        t += crate::times::exception_time(w, scc);
        go[1] = true;
    }
    take(&mut o, &v, go);
    let dis = param(0) & 1 != 0;
    let mut run = |c: &mut M68000<C>| if dis { let r = c.disassembler_interpreter_exception(&mut m); (r.2, code(r.3)) } else { let r = c.interpreter_exception(&mut m); (r.0, code(r.1)) };
    if split(o.pc & 1 != 0) {
        cover("odd handler");
        let (cycles, e) = run(&mut c);
        check(e == 3, "exception of the fetch at an odd address");
        eq32(cycles as u32, t, "cycles of exception processing");
    } else {
        assume(mem_read(o.mem, o.pc) == NOP);
        cover("handler");
        let (cycles, e) = run(&mut c);
        check(e == NONE, "exception in the handler");
        eq32(cycles as u32, t + if scc { 7 } else { 4 }, "cycles of exception processing and of the first instruction");
    }
}
pub fn time_m() { time::<Mc68000>(false) }
pub fn time_s() { time::<Scc68070>(true) }

/// An exception whose handler is a lone RTE.
fn rte<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let before = c.regs;
    let v = vector(1);
    note("vector", v as u64);
    assume(!masked(v, o.im));
    assume(v != 0);
    c.exception(Exception::from(v as u8));
    o.enter(v, 0xFFFF);
    assume(o.pc & 1 == 0);
    assume(mem_read(1, o.pc) == RTE);
    let e = call(&mut c, &mut m);
    if e != NONE { check((before.pc.0 & 1 != 0) & (e == 3), "exception of RTE") }
    cover("returned");
    let r = &c.regs;
    eq32(r.pc.0, before.pc.0, "PC");
    eq32(u16::from(r.sr) as u32, u16::from(before.sr) as u32, "SR");
    eq32(r.usp.0, before.usp.0, "USP");
    eq32(r.ssp.0, before.ssp.0, "SSP");
    for i in 0..8 { eq32(r.d[i].0, before.d[i].0, "data register") }
    for i in 0..7 { eq32(r.a[i].0, before.a[i].0, "address register") }
    check(!c.stop, "stopped state");
}
pub fn rte_m() { rte::<Mc68000>(false) }
pub fn rte_s() { rte::<Scc68070>(true) }

/// Stopped CPU: nothing happens until an exception that ends the stopped state.
fn stopped<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let v = vector(1);
    note("vector", v as u64);
    c.stop = true;
    o.stop = true;
    // Nothing pending.
    let e = call(&mut c, &mut m);
    check(e == NONE, "exception of a stopped CPU");
    compare(&c, &m, &o);
    let cy = any(8) as usize;
    let n = c.cycle(&mut m, cy);
    check(n == cy, "cycles of a stopped CPU");
    let r = c.cycle_until_exception(&mut m, cy);
    check(r.0 == 0 && r.1.is_none(), "run of a stopped CPU");
    let r = c.loop_until_exception_stop(&mut m);
    check(r.0 == 0 && r.1.is_none(), "loop of a stopped CPU");
    compare(&c, &m, &o);
    eq32(m.reads + m.writes, 0, "accesses of a stopped CPU");
    // The request.
    c.exception(Exception::from(v as u8));
    if split(wakes(v, o.im)) {
        cover("resumes");
        o.stop = false;
        o.enter(v, 0xFFFF);
        assume(o.pc & 1 != 0);
        let e = call(&mut c, &mut m);
        check(e == 3, "exception of the fetch at an odd address");
        compare(&c, &m, &o);
    } else {
        cover("stays");
        let e = call(&mut c, &mut m);
        check(e == NONE, "exception of a stopped CPU");
        compare(&c, &m, &o);
        eq32(m.reads + m.writes, 0, "accesses of a stopped CPU");
        // A reset ends it.
        c.exception(Exception::from(0));
        o.enter(0, 0xFFFF);
        assume(o.pc & 1 != 0);
        let e = call(&mut c, &mut m);
        check(e == 3, "exception of the fetch at an odd address");
        compare(&c, &m, &o);
    }
}
pub fn stopped_m() { stopped::<Mc68000>(false) }
pub fn stopped_s() { stopped::<Scc68070>(true) }

/// STOP with an exception already pending because it was masked.
fn stop_pending<C: CpuDetails>(scc: bool) {
    let (mut c, mut o, mut m) = start::<C>(scc);
    let v = vector(1);
    note("vector", v as u64);
    assume(masked(v, o.im) & o.s);
    c.regs.sr.t = false;
    o.t = false;
    c.regs.pc.0 &= !1;
    o.pc = c.regs.pc.0;
    assume(mem_read(0, o.pc) == 0x4E72);
    c.exception(Exception::from(v as u8));
    o.pc = o.pc.wrapping_add(2);
    o.exec(0x4E72);
    let e = call(&mut c, &mut m);
    check(e == NONE, "exception of STOP");
    if split(masked(v, o.im)) {
        cover("stays");
        compare(&c, &m, &o);
        let e = call(&mut c, &mut m);
        check(e == NONE, "exception of a stopped CPU");
        compare(&c, &m, &o);
    } else {
        cover("resumes");
        o.stop = false;
        o.enter(v, 0x4E72);
        assume(o.pc & 1 != 0);
        let e = call(&mut c, &mut m);
        check(e == 3, "exception of the fetch at an odd address");
        compare(&c, &m, &o);
    }
}
pub fn stop_pending_m() { stop_pending::<Mc68000>(false) }
pub fn stop_pending_s() { stop_pending::<Scc68070>(true) }
