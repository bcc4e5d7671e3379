//! Single steps without reference model: agreement of the interpreters, absence of panics, user mode, opcode fetch; status register.

use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Exception;
use m68000::status_register::StatusRegister;
use m68000::{CpuDetails, M68000};

const D: [&str; 8] = ["D0", "D1", "D2", "D3", "D4", "D5", "D6", "D7"];
const A: [&str; 7] = ["A0", "A1", "A2", "A3", "A4", "A5", "A6"];

/// A core with the same registers.
pub fn twin<C: CpuDetails>(a: &M68000<C>) -> M68000<C> {
    let mut b = M68000::<C>::new_no_reset();
    b.regs = a.regs;
    b
}

/// Two cores with the same registers, and their memories, leave the same state.
pub fn same<C: CpuDetails>(a: &M68000<C>, b: &M68000<C>, m: &SymMem, n: &SymMem) {
    same_regs(a, b);
    eq32(m.resets, n.resets, "calls of the reset line");
    check(mem_eq(m.id, n.id), "memory");
}

pub fn same_regs<C: CpuDetails>(a: &M68000<C>, b: &M68000<C>) {
    let (r, s) = (&a.regs, &b.regs);
    for i in 0..8 { eq32(r.d[i].0, s.d[i].0, D[i]) }
    for i in 0..7 { eq32(r.a[i].0, s.a[i].0, A[i]) }
    eq32(r.usp.0, s.usp.0, "USP");
    eq32(r.ssp.0, s.ssp.0, "SSP");
    eq32(r.pc.0, s.pc.0, "PC");
    eq32(u16::from(r.sr) as u32, u16::from(s.sr) as u32, "SR");
    check(a.stop == b.stop, "stopped state");
}

/// The instruction words at PC can be read (see the known finding about refused extension words).
fn window(pc: u32) {
    for i in 0..5 { assume(valid(RD, pc.wrapping_add(2 * i))) }
}

/// An arbitrary state at an opcode of the unit.
pub fn prepare<C: CpuDetails>() -> (M68000<C>, u16) {
    let flags = param(2);
    let mut c = arb_cpu::<C>();
    c.regs.pc.0 &= !1;
    let op = unit_opcode();
    mem_write(0, c.regs.pc.0, op);
    if flags & F_FAULTS != 0 { window(c.regs.pc.0) }
    if flags & F_UNKNOWN != 0 { assume(classify(op) == K::Unknown) }
    list_bound(op, c.regs.pc.0);
    note("opcode", op as u64);
    (c, op)
}

/// Both interpreters from the same state.
fn both<C: CpuDetails>() {
    let flags = param(2);
    let (mut a, _) = prepare::<C>();
    mem_copy(1, 0);
    let mut b = twin(&a);
    let mut m = SymMem::new(0, flags & F_FAULTS != 0);
    let mut n = SymMem::new(1, flags & F_FAULTS != 0);
    let at = a.regs.pc.0;
    let (cy, e) = a.interpreter_exception(&mut m);
    let (pc, _, dy, f) = b.disassembler_interpreter_exception(&mut n);
    cover("executed");
    note("exception", code(e) as u64);
    note("exception of the disassembling interpreter", code(f) as u64);
    eq32(code(e), code(f), "exception");
    eq64(cy as u64, dy as u64, "cycles");
    eq32(pc, at, "address of the instruction");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "number of reads");
    eq32(m.writes, n.writes, "number of writes");
}
pub fn both_m() { both::<Mc68000>() }
pub fn both_s() { both::<Scc68070>() }

/// An instruction executed by a core that has executed another one, and by a new core in the same visible state.
/// Parameter 6: the instruction before (0: the same opcode with other extension words, operands and address). Parameter 7: its interpreter.
fn history<C: CpuDetails>() {
    let dis = param(2) & F_DIS != 0;
    let mut a = arb_cpu::<C>();
    a.regs.pc.0 &= !1;
    let op = unit_opcode();
    let first = match param(6) {
        0 => op,
        1 => 0x7000 | any16() & 0x0EFF,
        2 => 0x4E40 | any16() & 15,
        3 => 0x3318,
        4 => 0x4E90,
        5 => 0x06A8,
        _ => 0x4E72,
    };
    let at = a.regs.pc.0;
    mem_write(2, at, first);
    for i in 1..5 { mem_write(2, at.wrapping_add(2 * i), any16()) }
    if param(6) == 0 && param(4) != 0 { mem_write(2, at.wrapping_add(2), param(4) as u16) }
    let mut x = SymMem::new(2, false);
    let e = if param(7) != 0 { code(a.disassembler_interpreter_exception(&mut x).3) } else { code(a.interpreter_exception(&mut x).1) };
    note("exception before", e as u64);
    // Any state, on any memory.
    let mut b = arb_cpu::<C>();
    b.regs.pc.0 &= !1;
    a.regs = b.regs;
    a.stop = false;
    mem_write(0, b.regs.pc.0, op);
    if param(2) & F_UNKNOWN != 0 { assume(classify(op) == K::Unknown) }
    list_bound(op, b.regs.pc.0);
    note("opcode", op as u64);
    mem_copy(1, 0);
    let mut m = SymMem::new(0, false);
    let mut n = SymMem::new(1, false);
    let run = |c: &mut M68000<C>, m: &mut SymMem| if dis { let r = c.disassembler_interpreter_exception(m); (r.0, r.2, code(r.3)) } else { let r = c.interpreter_exception(m); (0, r.0, code(r.1)) };
    let r = run(&mut a, &mut m);
    let s = run(&mut b, &mut n);
    cover("executed");
    eq32(r.0, s.0, "address of the instruction");
    eq64(r.1 as u64, s.1 as u64, "cycles");
    eq32(r.2, s.2, "exception");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "number of reads");
    eq32(m.writes, n.writes, "number of writes");
}
pub fn history_m() { history::<Mc68000>() }
pub fn history_s() { history::<Scc68070>() }

/// The interpreters that keep the exception pending, against those that return it. The pending set shows with the next call.
fn pend<C: CpuDetails>() {
    let dis = param(2) & F_DIS != 0;
    let (mut a, _) = prepare::<C>();
    a.regs.ssp.0 &= !1;
    mem_copy(1, 0);
    let mut b = twin(&a);
    let mut m = SymMem::new(0, false);
    let mut n = SymMem::new(1, false);
    let (cy, e) = a.interpreter_exception(&mut m);
    let e = code(e);
    if split(e != NONE) { a.exception(Exception::from(e as u8)) }
    let dy = if dis { b.disassembler_interpreter(&mut n).2 } else { b.interpreter(&mut n) };
    eq64(cy as u64, dy as u64, "cycles");
    same(&a, &b, &m, &n);
    if e != NONE { cover("exception") } else { cover("no exception") }
    note("exception", e as u64);
    // The next call takes it, and cannot read more than its vector (with an odd stack pointer it would not even read that).
    assume(a.regs.ssp.0 & 1 == 0);
    let k = if e == NONE { 0 } else { 2 };
    m.limit = m.reads + k;
    n.limit = n.reads + k;
    let (cy, f) = a.interpreter_exception(&mut m);
    let (dy, g) = b.interpreter_exception(&mut n);
    eq64(cy as u64, dy as u64, "cycles of the next call");
    eq32(code(f), code(g), "exception of the next call");
    same(&a, &b, &m, &n);
}
pub fn pend_m() { pend::<Mc68000>() }
pub fn pend_s() { pend::<Scc68070>() }

/// The interpreters that keep the exception pending, against the model: an exception raised by an instruction is taken by the next call,
/// before anything else, and nothing is when none was raised.
const INHIBITED: u32 = 26;
fn taken<C: CpuDetails>(scc: bool) {
    let dis = param(2) & F_DIS != 0;
    let (mut c, op) = prepare::<C>();
    c.regs.ssp.0 &= !1;
    // An interrupt that stays inhibited must neither be taken nor keep the exception from being taken.
    let pending = param(2) & F_PENDING != 0;
    if pending {
        assume(c.regs.sr.interrupt_mask >= 2);
        c.exception(Exception::from(INHIBITED as u8));
    }
    mem_copy(1, 0);
    let mut o = model(&c, 1, false, scc);
    let mut m = SymMem::new(0, false);
    o.pc = o.pc.wrapping_add(2);
    let mut call = |c: &mut M68000<C>| if dis { c.disassembler_interpreter(&mut m); } else { c.interpreter(&mut m); };
    call(&mut c);
    o.exec(op);
    note("exception", o.exc as u64);
    assume(o.fault == 0);
    assume(!pending | ((o.im >= 2) & !o.stop));
    assume(!o.lenient3 & (o.pc & 1 == 0) & (o.exc != 14) & !o.mem_unspecified);
    // What the manual leaves undefined is what the code makes of it: it shows in the frame.
    let r = c.regs.sr;
    o.x = (o.undef_ccr & 16 != 0) & r.x | (o.undef_ccr & 16 == 0) & o.x;
    o.n = (o.undef_ccr & 8 != 0) & r.n | (o.undef_ccr & 8 == 0) & o.n;
    o.z = (o.undef_ccr & 4 != 0) & r.z | (o.undef_ccr & 4 == 0) & o.z;
    o.v = (o.undef_ccr & 2 != 0) & r.v | (o.undef_ccr & 2 == 0) & o.v;
    o.c = (o.undef_ccr & 1 != 0) & r.c | (o.undef_ccr & 1 == 0) & o.c;
    if split(o.exc != NONE) {
        cover("exception");
        assume(o.ssp() & 1 == 0);
        o.enter(o.exc, op as u32);
        assume(o.pc & 1 != 0);
    } else {
        cover("no exception");
        c.regs.pc.0 |= 1;
        o.pc |= 1;
    }
    call(&mut c);
    if pending {
        // It is still there, and taken as soon as the mask allows it, before the address error of the call above.
        c.regs.sr.interrupt_mask = 1;
        o.im = 1;
        assume(o.ssp() & 1 == 0);
        o.enter(INHIBITED, op as u32);
        o.enter(3, op as u32);
        assume(o.pc & 1 != 0);
        call(&mut c);
    }
    compare(&c, &m, &o);
}
pub fn taken_m() { taken::<Mc68000>(false) }
pub fn taken_s() { taken::<Scc68070>(true) }

/// No panic.
fn nopanic<C: CpuDetails>() {
    let flags = param(2);
    let (mut c, _) = prepare::<C>();
    let mut m = SymMem::new(0, flags & F_FAULTS != 0);
    let e = if flags & F_DIS != 0 { code(c.disassembler_interpreter_exception(&mut m).3) } else { code(c.interpreter_exception(&mut m).1) };
    note("exception", e as u64);
    cover("returned");
}
pub fn nopanic_m() { nopanic::<Mc68000>() }
pub fn nopanic_s() { nopanic::<Scc68070>() }

/// No panic while an exception is taken, wherever the stack is and whatever is refused (double access error and reset vectors aside).
fn nopanic_exc<C: CpuDetails>() {
    let mut c = arb_cpu::<C>();
    let (lo, hi) = (param(1) as u32, param(2) as u32);
    let v = any8() as u32;
    assume((v >= lo) & (v <= hi));
    note("vector", v as u64);
    let mut m = SymMem::new(0, true);
    c.stop = anyb();
    c.exception(Exception::from(v as u8));
    // Wherever the program is after the exception, its opcode cannot be read.
    assume(!valid(RD, c.regs.pc.0));
    m.limit = 2;
    let e = if param(0) & 1 != 0 { code(c.disassembler_interpreter_exception(&mut m).3) } else { code(c.interpreter_exception(&mut m).1) };
    note("exception", e as u64);
    cover("returned");
}
pub fn nopanic_exc_m() { nopanic_exc::<Mc68000>() }
pub fn nopanic_exc_s() { nopanic_exc::<Scc68070>() }

/// Supervisor state is out of reach of an instruction executed in user mode.
fn user<C: CpuDetails>() {
    let flags = param(2);
    let (mut c, _) = prepare::<C>();
    c.regs.sr.s = false;
    let (ssp, sr) = (c.regs.ssp.0, c.regs.sr);
    let mut m = SymMem::new(0, flags & F_FAULTS != 0);
    let e = if flags & F_DIS != 0 { code(c.disassembler_interpreter_exception(&mut m).3) } else { code(c.interpreter_exception(&mut m).1) };
    note("exception", e as u64);
    cover("executed");
    check(!c.regs.sr.s, "supervisor bit set in user mode");
    check(c.regs.sr.t == sr.t, "trace bit changed in user mode");
    eq32(c.regs.sr.interrupt_mask as u32, sr.interrupt_mask as u32, "interrupt mask changed in user mode");
    eq32(c.regs.ssp.0, ssp, "supervisor stack pointer changed in user mode");
    check(!c.stop, "stopped in user mode");
    eq32(m.resets, 0, "reset line activated in user mode");
}
pub fn user_m() { user::<Mc68000>() }
pub fn user_s() { user::<Scc68070>() }

/// The opcode cannot be fetched: odd address, or refused access. Parameter 0 bit 0: disassembling interpreter.
fn fetch<C: CpuDetails>() {
    let mut c = arb_cpu::<C>();
    let pc = c.regs.pc.0;
    let odd = pc & 1 != 0;
    assume(odd | !valid(RD, pc));
    let o = model(&c, 1, false, false);
    let mut m = SymMem::new(0, true);
    let (cy, e) = if param(0) & 1 != 0 { let r = c.disassembler_interpreter_exception(&mut m); (r.2, code(r.3)) } else { let r = c.interpreter_exception(&mut m); (r.0, code(r.1)) };
    cover("refused");
    eq32(e, ite32(odd, 3, 2), "exception of the opcode fetch");
    eq64(cy as u64, 0, "cycles of a refused fetch");
    compare(&c, &m, &o);
    eq32(m.writes, 0, "writes");
}
/// An exception of the opcode fetch is taken by the next call.
fn fetch_taken<C: CpuDetails>(scc: bool) {
    let dis = param(0) & 1 != 0;
    let odd = param(1) == 0;
    let mut c = arb_cpu::<C>();
    c.regs.ssp.0 &= !1;
    let pc = c.regs.pc.0;
    let v: u32 = if odd { 3 } else { 2 };
    mem_copy(1, 0);
    let mut o = model(&c, 1, false, scc);
    if odd { assume(pc & 1 != 0) } else {
        assume((pc & 1 == 0) & !valid(RD, pc) & valid(RD, 4 * v) & valid(RD, 4 * v + 2));
        for i in 1..=17u32 { assume(valid(WR, c.regs.ssp.0.wrapping_sub(2 * i))) }
    }
    let mut m = SymMem::new(0, !odd);
    let mut call = |c: &mut M68000<C>| if dis { c.disassembler_interpreter(&mut m); } else { c.interpreter(&mut m); };
    call(&mut c);
    o.enter(v, 0xFFFF);
    assume(o.pc & 1 != 0);
    call(&mut c);
    cover("taken");
    compare(&c, &m, &o);
}
pub fn fetch_taken_m() { fetch_taken::<Mc68000>(false) }
pub fn fetch_taken_s() { fetch_taken::<Scc68070>(true) }
pub fn fetch_m() { fetch::<Mc68000>() }
pub fn fetch_s() { fetch::<Scc68070>() }

const SR_BITS: u16 = 0xA71F;

/// Status register.
pub fn sr() {
    let w = any16();
    let v = any16();
    note("word", w as u64);
    note("operand", v as u64);
    let a = StatusRegister::from(w);
    let word = |s: StatusRegister| u16::from(s) as u32;
    match param(0) {
        0 => {
            eq32(word(a), (w & SR_BITS) as u32, "conversion to and from 16 bits");
            check(a.t == (w & 0x8000 != 0), "T");
            check(a.s == (w & 0x2000 != 0), "S");
            eq32(a.interrupt_mask as u32, (w >> 8 & 7) as u32, "interrupt mask");
            check(a.x == (w & 16 != 0), "X");
            check(a.n == (w & 8 != 0), "N");
            check(a.z == (w & 4 != 0), "Z");
            check(a.v == (w & 2 != 0), "V");
            check(a.c == (w & 1 != 0), "C");
        }
        1 => {
            let mut b = a;
            b &= v;
            eq32(word(b), (w & v & SR_BITS) as u32, "and");
        }
        2 => {
            let mut b = a;
            b |= v;
            eq32(word(b), ((w | v) & SR_BITS) as u32, "or");
        }
        3 => {
            let mut b = a;
            b ^= v;
            eq32(word(b), ((w ^ v) & SR_BITS) as u32, "exclusive or");
        }
        4 => {
            let mut b = a;
            b.set_ccr(v);
            eq32(word(b), ((w & 0xA700) | (v & 0x1F)) as u32, "condition codes");
        }
        5 => {
            // From the fields.
            let s = arb_sr();
            let e = (s.t as u32) << 15 | (s.s as u32) << 13 | (s.interrupt_mask as u32) << 8 | (s.x as u32) << 4 | (s.n as u32) << 3 | (s.z as u32) << 2 | (s.v as u32) << 1 | s.c as u32;
            eq32(word(s), e, "conversion to 16 bits");
            eq32(word(StatusRegister::default()), 0x2700, "default");
        }
        _ => {
            let cc = param(1) as u32;
            let (n, z, v, c) = (w & 8 != 0, w & 4 != 0, w & 2 != 0, w & 1 != 0);
            let e = match cc >> 1 {
                0 => true,
                1 => !c & !z,
                2 => !c,
                3 => !z,
                4 => !v,
                5 => !n,
                6 => n == v,
                _ => (n == v) & !z,
            };
            check(a.condition(cc as u8) == (e ^ (cc & 1 != 0)), "condition");
        }
    }
    cover("done");
}

/// Helpers of the registers.
pub fn registers() {
    let mut c = arb_cpu::<Mc68000>();
    let o = model(&c, 1, false, false);
    let m = SymMem::new(0, false);
    let r = param(0) as u8;
    let v = any32();
    let mut o = o;
    let sp = |c: &M68000<Mc68000>| if split(c.regs.sr.s) { c.regs.ssp.0 } else { c.regs.usp.0 };
    eq32(c.regs.sp(), sp(&c), "stack pointer");
    let e = if r == 7 { sp(&c) } else { c.regs.a[r as usize].0 };
    eq32(c.regs.a(r), e, "address register");
    match param(1) {
        0 => { c.regs.d_byte(r, v as u8); o.d[r as usize] = o.d[r as usize] & 0xFFFF_FF00 | v & 0xFF; }
        1 => { c.regs.d_word(r, v as u16); o.d[r as usize] = o.d[r as usize] & 0xFFFF_0000 | v & 0xFFFF; }
        2 => { c.regs.a_mut(r).0 = v; if r == 7 { o.sp = v } else { o.a[r as usize] = v } }
        _ => { c.regs.sp_mut().0 = v; o.sp = v }
    }
    cover("done");
    compare(&c, &m, &o);
}

/// The words at PC, for the users of the library.
pub fn words() {
    let mut c = arb_cpu::<Mc68000>();
    let mut o = model(&c, 1, false, false);
    let mut m = SymMem::new(0, true);
    let pc = o.pc;
    let odd = pc & 1 != 0;
    let first = valid(RD, pc);
    let second = valid(RD, pc.wrapping_add(2));
    let (r, ok, len, val) = match param(0) {
        0 => (c.get_next_word(&mut m).map(|w| w as u32), first, 2, mem_read(1, pc & !1) as u32),
        1 => (c.get_next_long(&mut m), first & second, 4, read_long(1, pc & !1)),
        _ => (c.peek_next_word(&mut m).map(|w| w as u32), first, 0, mem_read(1, pc & !1) as u32),
    };
    match r {
        Ok(w) => {
            cover("read");
            check(!odd & ok, "read refused");
            eq32(w, val, "value");
            o.pc = pc.wrapping_add(len);
        }
        Err(e) => {
            cover("refused");
            check(odd | !ok, "read accepted");
            eq32(e as u32, ite32(odd, 3, 2), "exception");
        }
    }
    compare(&c, &m, &o);
}

/// A new core.
pub fn fresh() {
    let c = M68000::<Mc68000>::new_no_reset();
    for i in 0..8 { eq32(c.regs.d[i].0, 0, D[i]) }
    for i in 0..7 { eq32(c.regs.a[i].0, 0, A[i]) }
    eq32(u16::from(c.regs.sr) as u32, 0x2700, "SR");
    check(!c.stop, "stopped state");
    // Nothing pending, and the reset vectors pending.
    let mut m = SymMem::new(0, false);
    let mut c = arb_cpu::<Mc68000>();
    c.regs.pc.0 |= 1;
    let o = model(&c, 1, false, false);
    let e = code(c.interpreter_exception(&mut m).1);
    eq32(e, 3, "exception of the fetch at an odd address");
    compare(&c, &m, &o);
    let mut c = M68000::<Mc68000>::new();
    let mut o = model(&c, 1, false, false);
    o.enter(0, 0xFFFF);
    assume(o.pc & 1 != 0);
    let e = code(c.interpreter_exception(&mut m).1);
    eq32(e, 3, "exception of the fetch at an odd address");
    cover("done");
    compare(&c, &m, &o);
}
