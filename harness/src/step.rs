//! One instruction: the interpreter against the reference model.

use crate::oracle::*;
use crate::rt::*;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::status_register::StatusRegister;
use m68000::{CpuDetails, M68000};

pub fn arb_sr() -> StatusRegister {
    StatusRegister { t: anyb(), s: anyb(), interrupt_mask: any(3) as u8, x: anyb(), n: anyb(), z: anyb(), v: anyb(), c: anyb() }
}

/// A core in an arbitrary state, without pending exception.
pub fn arb_cpu<C: CpuDetails>() -> M68000<C> {
    let mut c = M68000::<C>::new_no_reset();
    for i in 0..8 { c.regs.d[i].0 = any32() }
    for i in 0..7 { c.regs.a[i].0 = any32() }
    c.regs.usp.0 = any32();
    c.regs.ssp.0 = any32();
    c.regs.sr = arb_sr();
    c.regs.pc.0 = any32();
    c
}

/// The reference model in the state of the core.
pub fn model<C: CpuDetails>(c: &M68000<C>, mem: u32, faults: bool, scc: bool) -> O {
    let r = &c.regs;
    let mut d = [0; 8];
    let mut a = [0; 7];
    for i in 0..8 { d[i] = r.d[i].0 }
    for i in 0..7 { a[i] = r.a[i].0 }
    O {
        d, a, sp: if split(r.sr.s) { r.ssp.0 } else { r.usp.0 }, other_sp: if split(r.sr.s) { r.usp.0 } else { r.ssp.0 }, t: r.sr.t, s: r.sr.s, im: r.sr.interrupt_mask as u32, x: r.sr.x, n: r.sr.n, z: r.sr.z, v: r.sr.v, c: r.sr.c,
        pc: r.pc.0, stop: false, resets: 0, mem, faults, scc, fault: 0, kinds: 0, ext_fault: false, ext_words: 0, reads: 0, writes: 0, dummies: 0, undef_ccr: 0, unspecified: false, mem_unspecified: false,
        areg_unspecified: 8, free_d: 8, bad_bcd: false, lenient3: false, dummy_fault: false, taken: false, looped: false, count: 0, long_frame: false, k: 0, exc: NONE, op: 0,
    }
}

pub fn code(e: Option<u8>) -> u32 { match e { Some(v) => v as u32, None => NONE } }

/// Registers and memory equal those of the model, save what the manual leaves open.
pub fn compare<C: CpuDetails>(c: &M68000<C>, m: &SymMem, o: &O) {
    const D: [&str; 8] = ["D0", "D1", "D2", "D3", "D4", "D5", "D6", "D7"];
    const A: [&str; 7] = ["A0", "A1", "A2", "A3", "A4", "A5", "A6"];
    let r = &c.regs;
    eq32(r.pc.0, o.pc, "PC");
    eq32(r.sr.s as u32, o.s as u32, "S bit");
    eq32(r.sr.t as u32, o.t as u32, "T bit");
    eq32(r.sr.interrupt_mask as u32, o.im, "interrupt mask");
    eq32(m.resets, o.resets, "calls of the reset line");
    check(c.stop == o.stop, "stopped state");
    if o.unspecified { return }
    for i in 0..8 {
        let k = ite32(o.free_d == i as u32, 0xFFFF_FF00, 0xFFFF_FFFF);
        eq32(r.d[i].0 & k, o.d[i] & k, D[i]);
    }
    for i in 0..7 { eq32(r.a[i].0, o.a[i], A[i]) }
    if o.areg_unspecified == 7 {
        eq32(ite32(o.s, r.usp.0, r.ssp.0), o.other_sp, "inactive stack pointer");
    } else {
        eq32(r.usp.0, o.usp(), "USP");
        eq32(r.ssp.0, o.ssp(), "SSP");
    }
    let f = |k: u32, v: bool, w: bool, name| check(o.undef_ccr & k != 0 || v == w, name);
    f(16, r.sr.x, o.x, "X flag");
    f(8, r.sr.n, o.n, "N flag");
    f(4, r.sr.z, o.z, "Z flag");
    f(2, r.sr.v, o.v, "V flag");
    f(1, r.sr.c, o.c, "C flag");
    if !o.mem_unspecified { check(mem_eq(m.id, o.mem), "memory") }
}

/// The opcode of the unit: parameter 0 with the bits of parameter 1 arbitrary.
pub fn unit_opcode() -> u16 {
    let base = param(0) as u16;
    let mask = param(1) as u16;
    // Free bits come in up to three fields.
    base & !mask | any16() & mask
}

pub const F_FAULTS: u64 = 1;
pub const F_DIS: u64 = 2;
/// Extension words may be refused.
pub const F_EXT: u64 = 4;
/// All the accesses are aligned.
pub const F_ALIGNED: u64 = 8;
/// Some access is misaligned or refused.
pub const F_FAULTY: u64 = 16;
/// Only the opcodes that denote no instruction.
pub const F_UNKNOWN: u64 = 32;
/// The final state is noted (comparison of the engine with the real code).
pub const F_NOTES: u64 = 64;
/// Only the exception is checked.
pub const F_EXC: u64 = 128;
/// Only the number of cycles is checked.
pub const F_TIME: u64 = 256;
/// An inhibited interrupt is pending.
pub const F_PENDING: u64 = 512;
/// Only the number of memory accesses is checked.
pub const F_BUS: u64 = 1024;

fn step<C: CpuDetails>(scc: bool) {
    let flags = param(2);
    let faults = flags & F_FAULTS != 0;
    let mut c = arb_cpu::<C>();
    c.regs.pc.0 &= !1;
    let op = unit_opcode();
    mem_write(0, c.regs.pc.0, op);
    mem_write(1, c.regs.pc.0, op);
    if faults { assume(valid(RD, c.regs.pc.0)) }
    let mut o = model(&c, 1, faults, scc);
    o.pc = o.pc.wrapping_add(2);
    if flags & F_UNKNOWN != 0 { assume(classify(op) == K::Unknown) }
    list_bound(op, c.regs.pc.0);
    let mut m = SymMem::new(0, faults);
    note("opcode", op as u64);
    if faults {
        // The model first, to know which accesses are refused.
        o.exec(op);
        if flags & F_EXT != 0 {
            assume(o.ext_fault && o.exc != 8);
            cover("extension word refused");
            let (_, e) = run(&mut c, &mut m, flags);
            eq32(e, 2, "exception of a refused extension word");
            return;
        }
        assume(!o.ext_fault);
        assume(!o.dummy_fault);
    }
    let (cycles, e) = run(&mut c, &mut m, flags);
    if !faults { o.exec(op) }
    note("exception", e as u64);
    note("expected exception", o.exc as u64);
    if o.fault != 0 {
        cover("faulty access");
        check(e == 2 && o.kinds & 1 != 0 || e == 3 && o.kinds & 2 != 0, "exception of a faulty access");
        return;
    }
    cover("completed");
    if flags & F_NOTES != 0 {
        let mut h = 0u64;
        for i in 0..8 { h = h.rotate_left(7) ^ c.regs.d[i].0 as u64 }
        for i in 0..7 { h = h.rotate_left(7) ^ c.regs.a[i].0 as u64 }
        note("registers", h);
        note("usp", c.regs.usp.0 as u64);
        note("ssp", c.regs.ssp.0 as u64);
        note("pc", c.regs.pc.0 as u64);
        note("sr", u16::from(c.regs.sr) as u64);
        note("accesses", (m.reads as u64) << 32 | m.writes as u64);
    }
    if e != o.exc {
        // The address error of a jump to an odd address may come at once or with the next fetch.
        check((o.pc & 1 != 0) | o.lenient3 && e == 3, "exception");
        return;
    }
    if e != NONE && e != 9 { cover("exception") }
    if flags & F_TIME != 0 {
        if e == NONE || e == 9 {
            eq32(cycles as u32, crate::times::time(&o), "cycles")
        } else if e == 5 || e == 6 {
            let t = crate::times::operand_time(&o);
            if cycles == 0 { eq32(t, 0, "operand time of a CHK or zero divide that traps is left out") } else { eq32(cycles as u32, t, "cycles of an instruction that traps") }
        } else if e != 2 && e != 3 {
            eq32(cycles as u32, 0, "cycles of an instruction that traps")
        }
        return;
    }
    if flags & F_BUS != 0 {
        eq32(m.writes, o.writes, "number of writes");
        // An instruction that is refused as a whole may or may not have read its extension words.
        if e == NONE || e == 9 || e == 5 || e == 6 || e == 7 || e >= 32 {
            let n = 1 + o.ext_words + o.reads;
            check((m.reads == n) | (m.reads == n + o.dummies), "number of reads");
        }
        return;
    }
    if o.exc == 14 || flags & F_EXC != 0 { return }
    compare(&c, &m, &o);
}

fn run<C: CpuDetails>(c: &mut M68000<C>, m: &mut SymMem, flags: u64) -> (usize, u32) {
    if flags & F_DIS != 0 { let r = c.disassembler_interpreter_exception(m); (r.2, code(r.3)) } else { let r = c.interpreter_exception(m); (r.0, code(r.1)) }
}

/// MOVEM: parameters 3 and 4 bound the register list (bits that must be 0, bits that must be 1) and parameter 5 the number of registers.
pub fn list_bound(op: u16, pc: u32) {
    let zero = param(3) as u16;
    let one = param(4) as u16;
    let max = param(5) as u32;
    let _ = op;
    if zero | one != 0 || max != 0 {
        let list = any16() & !zero | one;
        if max != 0 { assume(list.count_ones() <= max) }
        mem_write(0, pc.wrapping_add(2), list);
        mem_write(1, pc.wrapping_add(2), list);
    }
}

pub fn step_m() { step::<Mc68000>(false) }
pub fn step_s() { step::<Scc68070>(true) }

/// Every opcode is given the instruction the manual gives it (parameter 0: high byte).
pub fn decode() {
    let op = (param(0) as u16) << 8 | any8() as u16;
    let isa = m68000::isa::Isa::from(op);
    note("opcode", op as u64);
    cover("decoded");
    eq32(k_of(isa), classify(op) as u32, "instruction of the opcode");
}
