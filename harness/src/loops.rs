//! Run loops, against the same steps one by one.

use crate::misc::*;
use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Exception;
use m68000::{CpuDetails, M68000};

const SLOTS: u32 = 4;

/// An arbitrary program of four instructions of different times, some of which stop the CPU or raise an exception.
pub fn program<C: CpuDetails>() -> M68000<C> {
    let mut c = arb_cpu::<C>();
    // Program, vectors and stacks are apart; every handler is at an odd address.
    let pc = c.regs.pc.0 & 0x3FFF_FFFE | 0x2000_0000;
    c.regs.pc.0 = pc;
    c.regs.ssp.0 = c.regs.ssp.0 & 0x3FFF_FFFE | 0x8000_0000;
    for v in [3, 4, 8, 9, 32] { mem_write(0, v * 4 + 2, any16() | 1) }
    const N: [&str; 4] = ["first opcode", "second opcode", "third opcode", "fourth opcode"];
    let last = param(1) as u32;
    for i in 0..SLOTS {
        let k = if i < param(3) as u32 { any(3) } else { 0 };
        let mut op = 0x4E71; // NOP
        if split(k == 1) { op = 0xC141 } // EXG D0,D1
        if split(k == 2) { op = 0x44FC } // MOVE #next,CCR
        if split(k == 3) { op = 0x4E40 } // TRAP #0
        if split(k == 4) { op = 0x4E72 } // STOP
        if split(k == 5) { op = 0x4AFC } // ILLEGAL
        assume(k < 6);
        if i == SLOTS - 1 && last != 0 { assume((k == 3) | (k == 5)) }
        note(N[i as usize], op as u64);
        mem_write(0, pc.wrapping_add(2 * i), op);
    }
    // The words after the program: an operand, then a trap.
    mem_write(0, pc.wrapping_add(2 * SLOTS), 0x4E40);
    mem_write(0, pc.wrapping_add(2 * SLOTS + 2), 0x4E40);
    mem_copy(1, 0);
    c
}

/// Parameter 3: number of arbitrary instructions (the others are NOP). Parameter 0: loop, parameter 1: the last instruction raises an exception, parameter 2: largest number of cycles.
fn run<C: CpuDetails>() {
    let mut a = program::<C>();
    let mut b = twin(&a);
    let mut m = SymMem::new(0, false);
    let mut n = SymMem::new(1, false);
    let cycles = any(6) as usize;
    assume(cycles <= param(2) as usize);
    note("cycles requested", cycles as u64);
    let (total, e, sum, f);
    match param(0) {
        0 => {
            total = a.cycle(&mut m, cycles);
            e = NONE;
            let mut t = 0;
            while t < cycles {
                t += b.interpreter(&mut n);
                if b.stop { if split(t < cycles) { t = cycles } break }
            }
            sum = t;
            f = NONE;
            check(total >= cycles, "fewer cycles than requested");
        }
        1 => {
            let r = a.cycle_until_exception(&mut m, cycles);
            total = r.0;
            e = code(r.1);
            let (mut t, mut v) = (0, None);
            while t < cycles {
                let r = b.interpreter_exception(&mut n);
                t += r.0;
                v = r.1;
                if v.is_some() | b.stop { break }
            }
            sum = t;
            f = code(v);
        }
        _ => {
            let r = a.loop_until_exception_stop(&mut m);
            total = r.0;
            e = code(r.1);
            let mut t = 0;
            let v = loop {
                let r = b.interpreter_exception(&mut n);
                t += r.0;
                if r.1.is_some() | b.stop { break r.1 }
            };
            sum = t;
            f = code(v);
        }
    }
    cover("ran");
    if b.stop { cover("stopped") }
    if f != NONE { cover("exception") }
    note("cycles", total as u64);
    eq64(total as u64, sum as u64, "cycles");
    eq32(e, f, "exception");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "reads");
    eq32(m.writes, n.writes, "writes");
    // Nothing else is pending: the next call reads its opcode at once.
    if param(0) != 0 {
        m.limit = m.reads;
        n.limit = n.reads;
        let x = a.interpreter_exception(&mut m);
        let y = b.interpreter_exception(&mut n);
        eq64(x.0 as u64, y.0 as u64, "cycles of the next call");
        eq32(code(x.1), code(y.1), "exception of the next call");
        same(&a, &b, &m, &n);
    }
}
pub fn run_m() { run::<Mc68000>() }
pub fn run_s() { run::<Scc68070>() }

/// A pending exception is taken by the run loops too. Handler: the program.
fn run_pending<C: CpuDetails>() {
    let mut a = program::<C>();
    let pc = a.regs.pc.0;
    let v = 24 + any(3) as u32;
    note("vector", v as u64);
    mem_write(0, v * 4, (pc >> 16) as u16);
    mem_write(0, v * 4 + 2, pc as u16);
    mem_copy(1, 0);
    let mut b = twin(&a);
    a.exception(Exception::from(v as u8));
    b.exception(Exception::from(v as u8));
    let mut m = SymMem::new(0, false);
    let mut n = SymMem::new(1, false);
    let cycles = any(6) as usize;
    assume(cycles <= param(2) as usize);
    let total = a.cycle(&mut m, cycles);
    let mut t = 0;
    while t < cycles {
        t += b.interpreter(&mut n);
        if b.stop { if split(t < cycles) { t = cycles } break }
    }
    cover("ran");
    eq64(total as u64, t as u64, "cycles");
    same(&a, &b, &m, &n);
}
pub fn run_pending_m() { run_pending::<Mc68000>() }
pub fn run_pending_s() { run_pending::<Scc68070>() }
