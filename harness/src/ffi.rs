//! The C interface against the Rust one.

use crate::misc::*;
use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::exception::Exception;
use m68000::MemoryAccess;
use m68000_ffi::{m68000_callbacks_t, m68000_memory_result_t};
use std::ffi::c_void;

/// The vector of an exception, 0 for none.
fn vec(e: Option<u8>) -> u32 { match e { Some(v) => v as u32, None => 0 } }

/// What a callback answers: the upper bits of the data are of no concern, nor are the data of a refused access, and any value but 0 refuses.
fn answer(v: Option<u32>, bits: u32) -> m68000_memory_result_t {
    let junk = any32();
    let e = any8();
    match v {
        Some(x) => m68000_memory_result_t { data: if bits == 32 { x } else { x | junk << bits }, exception: 0 },
        None => { assume(e != 0); m68000_memory_result_t { data: junk, exception: e } }
    }
}

fn mem<'a>(u: *mut c_void) -> &'a mut SymMem { unsafe { &mut *(u as *mut SymMem) } }
extern "C" fn get_byte(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_byte(a).map(|x| x as u32), 8) }
extern "C" fn get_word(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_word(a).map(|x| x as u32), 16) }
extern "C" fn get_long(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_long(a), 32) }
extern "C" fn set_byte(a: u32, v: u8, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_byte(a, v).map(|_| 0), 0) }
extern "C" fn set_word(a: u32, v: u16, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_word(a, v).map(|_| 0), 0) }
extern "C" fn set_long(a: u32, v: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_long(a, v).map(|_| 0), 0) }
extern "C" fn reset_instruction(u: *mut c_void) { mem(u).reset_instruction() }

fn callbacks(m: &mut SymMem) -> m68000_callbacks_t {
    m68000_callbacks_t { get_byte, get_word, get_long, set_byte, set_word, set_long, reset_instruction, user_data: m as *mut SymMem as *mut c_void }
}

macro_rules! interface {
    ($m:ident, $cpu:ident, $details:ty) => {
pub mod $m {
use super::*;
use crate::loops::program;
use m68000::M68000;
use paste::paste;
type Core = M68000<$details>;

paste! {
/// One step by each function. Parameter 6: 0 interpreter, 1 interpreter_exception, 2 and 3 the disassembling ones.
pub fn step() {
    use m68000_ffi::$cpu::*;
    let faults = param(2) & F_FAULTS != 0;
    let (mut a, _) = prepare::<$details>();
    mem_copy(1, 0);
    let mut b = twin(&a);
    let mut m = SymMem::new(0, faults);
    let mut n = SymMem::new(1, faults);
    let at = a.regs.pc.0;
    let mut cb = callbacks(&mut n);
    let (x, y, p): (&mut Core, *mut m68000_callbacks_t, *mut Core) = (&mut a, &mut cb, &mut b);
    let mut text = [0x55 as std::os::raw::c_char; 4];
    match param(6) {
        0 => unsafe {
            let r = x.interpreter(&mut m);
            let s = [<m68000_ $cpu _interpreter>](p, y);
            eq64(r as u64, s as u64, "cycles");
        }
        1 => unsafe {
            let (cy, e) = x.interpreter_exception(&mut m);
            let s = [<m68000_ $cpu _interpreter_exception>](p, y);
            eq64(cy as u64, s.cycles as u64, "cycles");
            eq32(vec(e), s.exception as u32, "exception");
        }
        2 => unsafe {
            let (pc, _, cy) = x.disassembler_interpreter(&mut m);
            let s = [<m68000_ $cpu _disassembler_interpreter>](p, y, text.as_mut_ptr(), 1);
            eq64(cy as u64, s.cycles as u64, "cycles");
            eq32(pc, s.pc, "address of the instruction");
            eq32(pc, at, "address of the instruction");
        }
        _ => unsafe {
            let (pc, _, cy, e) = x.disassembler_interpreter_exception(&mut m);
            let s = [<m68000_ $cpu _disassembler_interpreter_exception>](p, y, text.as_mut_ptr(), 1);
            eq64(cy as u64, s.cycles as u64, "cycles");
            eq32(pc, s.pc, "address of the instruction");
            eq32(pc, at, "address of the instruction");
            eq32(vec(e), s.exception as u32, "exception");
        }
    }
    if param(6) >= 2 {
        eq32(text[0] as u32, 0, "end of the text");
        for i in 1..4 { eq32(text[i] as u32, 0x55, "memory after the text") }
    }
    cover("executed");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "number of reads");
    eq32(m.writes, n.writes, "number of writes");
    // The exception is pending in both or in none: the next call cannot read more than its vector.
    if param(6) & 1 == 0 {
        assume(a.regs.ssp.0 & 1 == 0);
        m.faults = false;
        n.faults = false;
        m.limit = m.reads;
        n.limit = n.reads;
        let (w, s) = (m.writes, n.writes);
        panic_ok(1); // A vector that cannot be read while an access error is processed is documented to panic.
        let r = a.interpreter_exception(&mut m);
        let q = b.interpreter_exception(&mut n);
        eq64(r.0 as u64, q.0 as u64, "cycles of the next call");
        eq32(vec(r.1), vec(q.1), "exception of the next call");
        eq32(m.writes - w, n.writes - s, "writes of the next call");
        same(&a, &b, &m, &n);
    }
}

/// The text of an instruction without operands, in a buffer of any length. Parameter 0: 0 for the pending variant.
pub fn text() {
    use m68000_ffi::$cpu::*;
    let mut c = arb_cpu::<$details>();
    c.regs.pc.0 &= !1;
    let ops: [(u16, &str); 6] = [(0x4E71, "NOP"), (0x4E75, "RTS"), (0x4E77, "RTR"), (0x4AFC, "ILLEGAL"), (0x4E70, "RESET"), (0x4E76, "TRAPV")];
    let (op, t) = ops[param(1) as usize];
    mem_write(0, c.regs.pc.0, op);
    let mut n = SymMem::new(0, false);
    let mut cb = callbacks(&mut n);
    let mut b = [0x55u8; 12];
    let len = param(2) as usize;
    let p = b.as_mut_ptr() as *mut std::os::raw::c_char;
    if param(0) == 0 { unsafe { [<m68000_ $cpu _disassembler_interpreter>](&mut c, &mut cb, p, len); } }
    else { unsafe { [<m68000_ $cpu _disassembler_interpreter_exception>](&mut c, &mut cb, p, len); } }
    cover("executed");
    let k = if t.len() < len { t.len() } else { len - 1 };
    for i in 0..k { eq32(b[i] as u32, t.as_bytes()[i] as u32, "text") }
    eq32(b[k] as u32, 0, "end of the text");
    for i in k + 1..12 { eq32(b[i] as u32, 0x55, "memory after the text") }
}

/// Run loops. Parameters as for `loops::run`.
pub fn run() {
    use m68000_ffi::$cpu::*;
    let mut a = program::<$details>();
    let mut b = twin(&a);
    let mut m = SymMem::new(0, false);
    let mut n = SymMem::new(1, false);
    let mut cb = callbacks(&mut n);
    let cycles = any(6) as usize;
    assume(cycles <= param(2) as usize);
    note("cycles requested", cycles as u64);
    match param(0) {
        0 => {
            let r = a.cycle(&mut m, cycles);
            let s = unsafe { [<m68000_ $cpu _cycle>](&mut b, &mut cb, cycles) };
            eq64(r as u64, s as u64, "cycles");
        }
        1 => {
            let r = a.cycle_until_exception(&mut m, cycles);
            let s = unsafe { [<m68000_ $cpu _cycle_until_exception>](&mut b, &mut cb, cycles) };
            eq64(r.0 as u64, s.cycles as u64, "cycles");
            eq32(vec(r.1), s.exception as u32, "exception");
        }
        _ => {
            let r = a.loop_until_exception_stop(&mut m);
            let s = unsafe { [<m68000_ $cpu _loop_until_exception_stop>](&mut b, &mut cb) };
            eq64(r.0 as u64, s.cycles as u64, "cycles");
            eq32(vec(r.1), s.exception as u32, "exception");
        }
    }
    cover("ran");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "reads");
    eq32(m.writes, n.writes, "writes");
}

/// The rest. Parameter 0: the function.
pub fn misc() {
    use m68000_ffi::$cpu::*;
    let mut a = arb_cpu::<$details>();
    let mut b = twin(&a);
    let mut m = SymMem::new(0, true);
    let mut n = SymMem::new(1, true);
    mem_copy(1, 0);
    let mut cb = callbacks(&mut n);
    match param(0) {
        0 => {
            // The exception shows with the next call, in which the handler's address is odd.
            let v = any8();
            note("vector", v as u64);
            // The vectors the enumeration of the interface has.
            assume((v == 0) | (v >= 2) & (v <= 11) | (v == 14) | (v == 15) | (v >= 24) & (v <= 47) | (v >= 57) & (v <= 64));
            a.regs.ssp.0 &= !1;
            b.regs = a.regs;
            m.faults = false;
            n.faults = false;
            a.exception(Exception::from(v));
            unsafe { [<m68000_ $cpu _exception>](&mut b, std::mem::transmute::<u32, m68000::exception::Vector>(v as u32)) }
            same(&a, &b, &m, &n);
            let reset = split(v == 0);
            m.limit = if reset { 4 } else { 2 };
            n.limit = m.limit;
            assume((a.regs.pc.0 & 1 != 0) | !masked(v as u32, a.regs.sr.interrupt_mask as u32));
            assume(mem_read(0, if reset { 6 } else { (v as u32) * 4 + 2 }) & 1 != 0);
            let r = a.interpreter_exception(&mut m);
            let s = b.interpreter_exception(&mut n);
            eq64(r.0 as u64, s.0 as u64, "cycles");
            eq32(vec(r.1), vec(s.1), "exception");
        }
        1 | 2 | 3 => {
            let (r, s) = match param(0) {
                1 => (a.get_next_word(&mut m).map(|x| x as u32), unsafe { [<m68000_ $cpu _get_next_word>](&mut b, &mut cb) }),
                2 => (a.get_next_long(&mut m), unsafe { [<m68000_ $cpu _get_next_long>](&mut b, &mut cb) }),
                _ => (a.peek_next_word(&mut m).map(|x| x as u32), unsafe { [<m68000_ $cpu _peek_next_word>](&b, &mut cb) }),
            };
            match r {
                Ok(v) => { cover("read"); eq32(s.exception as u32, 0, "exception"); eq32(s.data, v, "data") }
                Err(e) => { cover("refused"); eq32(s.exception as u32, e as u32, "exception") }
            }
        }
        4 => unsafe {
            let p = [<m68000_ $cpu _registers>](&b);
            check(p == &b.regs as *const _, "registers");
            let p = [<m68000_ $cpu _registers_mut>](&mut b);
            check(p as *const _ == &b.regs as *const _, "registers");
            let r = [<m68000_ $cpu _get_registers>](&b);
            let mut c = Core::new_no_reset();
            c.regs = r;
            same_regs(&c, &a);
        }
        5 => unsafe {
            let c = arb_cpu::<$details>();
            b.stop = anyb();
            a.regs = c.regs;
            a.stop = b.stop;
            [<m68000_ $cpu _set_registers>](&mut b, c.regs);
        }
        _ => unsafe {
            // New cores: as the Rust ones, also in what is pending.
            m.faults = false;
            n.faults = false;
            let (p, mut c) = if param(0) == 6 { ([<m68000_ $cpu _new>](), Core::new()) } else { ([<m68000_ $cpu _new_no_reset>](), Core::new_no_reset()) };
            same_regs(&*p, &c);
            assume(mem_read(0, 6) & 1 != 0);
            m.limit = 4;
            n.limit = 4;
            if param(0) != 6 {
                (*p).regs.pc.0 |= 1;
                c.regs.pc.0 |= 1;
            }
            let r = c.interpreter_exception(&mut m);
            let s = (*p).interpreter_exception(&mut n);
            eq64(r.0 as u64, s.0 as u64, "cycles");
            eq32(vec(r.1), vec(s.1), "exception");
            same(&*p, &c, &m, &n);
            [<m68000_ $cpu _delete>](p);
        }
    }
    cover("done");
    same(&a, &b, &m, &n);
    eq32(m.reads, n.reads, "reads");
    eq32(m.writes, n.writes, "writes");
}
}
}
    };
}

interface!(m, mc68000, m68000::cpu_details::Mc68000);
interface!(s, scc68070, m68000::cpu_details::Scc68070);
