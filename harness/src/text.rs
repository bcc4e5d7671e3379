//! The text of the instructions.
//!
//! The functions of core that write numbers are executed on both sides; the layout of the text is that of the documentation.

use crate::dec::Words;
use crate::misc::*;
use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::disassembler::DLUT;
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::instruction::{Direction, Instruction, Size};
use m68000::isa::Isa;
use m68000::{CpuDetails, MemoryAccess};

const CC: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];

fn ea(m: u32, r: u32, size: u32, w: &mut Words, hex: bool) -> String {
    let index = |v: u32| format!("{}{}.{}", if split(v & 0x8000 != 0) { "A" } else { "D" }, v >> 12 & 7, if split(v & 0x800 != 0) { "L" } else { "W" });
    match (m, r) {
        (0, _) => format!("D{r}"),
        (1, _) => format!("A{r}"),
        (2, _) => format!("(A{r})"),
        (3, _) => format!("(A{r})+"),
        (4, _) => format!("-(A{r})"),
        (5, _) => format!("({}, A{r})", w.word() as i16),
        (6, _) => { let v = w.word(); format!("({}, A{r}, {})", v as i8, index(v)) }
        (_, 0) => format!("({:#X}).W", w.word()),
        (_, 1) => format!("({:#X}).L", w.long()),
        (_, 2) => format!("({}, PC)", w.word() as i16),
        (_, 3) => { let v = w.word(); format!("({}, PC, {})", v as i8, index(v)) }
        _ => {
            let v = w.imm(size);
            // The upper byte of a byte operand means nothing: the text may show it.
            if size == 1 { assume(v <= 0xFF) }
            if hex { format!("#{v:#X}") } else { format!("#{v}") }
        }
    }
}

/// The text of the instruction at `at`.
fn expected(op: u32, k: K, at: u32, w: &mut Words) -> String {
    let (m, r, r9) = (op >> 3 & 7, op & 7, op >> 9 & 7);
    let ss = match op >> 6 & 3 { 0 => 1, 1 => 2, _ => 4 };
    let l = |n: u32| match n { 1 => "B", 2 => "W", _ => "L" };
    let s = l(ss);
    let sw = if op >> 6 & 1 != 0 { 4 } else { 2 };
    let s8 = if op >> 8 & 1 != 0 { 4 } else { 2 };
    let lr = if op & 0x100 != 0 { "L" } else { "R" };
    let q = |x: u32| ite32(x == 0, 8, x);
    // Condition codes are those of the unit or split.
    let cc = |c: u32| { for i in 0..15 { if split(c == i) { return CC[i as usize] } } CC[15] };
    match k {
        K::Unknown => format!("Unknown instruction {op:04X} at {at:#X}"),
        K::Illegal => "ILLEGAL".into(),
        K::Nop => "NOP".into(),
        K::Reset => "RESET".into(),
        K::Rte => "RTE".into(),
        K::Rtr => "RTR".into(),
        K::Rts => "RTS".into(),
        K::Trapv => "TRAPV".into(),
        K::Andiccr | K::Eoriccr | K::Oriccr | K::Andisr | K::Eorisr | K::Orisr => {
            let v = w.word();
            let n = match k { K::Andiccr | K::Andisr => "ANDI", K::Eoriccr | K::Eorisr => "EORI", _ => "ORI" };
            let c = matches!(k, K::Andiccr | K::Eoriccr | K::Oriccr);
            if c { assume(v <= 0xFF) }
            format!("{n} {v:#X}, {}", if c { "CCR" } else { "SR" })
        }
        K::Stop => format!("STOP #{:#X}", w.word()),
        K::Addi | K::Andi | K::Cmpi | K::Eori | K::Ori | K::Subi => {
            let v = w.imm(ss);
            if ss == 1 { assume(v <= 0xFF) }
            let n = match k { K::Addi => "ADDI", K::Andi => "ANDI", K::Cmpi => "CMPI", K::Eori => "EORI", K::Ori => "ORI", _ => "SUBI" };
            let e = ea(m, r, ss, w, false);
            format!("{n}.{s} #{v}, {e}")
        }
        K::Bchg | K::Bclr | K::Bset | K::Btst => {
            let n = match k { K::Bchg => "BCHG", K::Bclr => "BCLR", K::Bset => "BSET", _ => "BTST" };
            if op & 0x100 != 0 { format!("{n} D{r9}, {}", ea(m, r, 1, w, false)) }
            else { let c = w.word() & 0xFF; format!("{n} #{c}, {}", ea(m, r, 1, w, false)) }
        }
        K::Jmp => format!("JMP {}", ea(m, r, 4, w, false)),
        K::Jsr => format!("JSR {}", ea(m, r, 4, w, false)),
        K::Pea => format!("PEA {}", ea(m, r, 4, w, false)),
        K::Moveccr => format!("MOVE {}, CCR", ea(m, r, 2, w, true)),
        K::Movesr => format!("MOVE {}, SR", ea(m, r, 2, w, true)),
        K::Movefsr => format!("MOVE SR, {}", ea(m, r, 2, w, true)),
        K::Nbcd => format!("NBCD {}", ea(m, r, 1, w, false)),
        K::Tas => format!("TAS {}", ea(m, r, 1, w, false)),
        K::Clr => format!("CLR.{s} {}", ea(m, r, ss, w, false)),
        K::Neg => format!("NEG.{s} {}", ea(m, r, ss, w, false)),
        K::Negx => format!("NEGX.{s} {}", ea(m, r, ss, w, false)),
        K::Not => format!("NOT.{s} {}", ea(m, r, ss, w, false)),
        K::Tst => format!("TST.{s} {}", ea(m, r, ss, w, false)),
        K::Chk => format!("CHK.W {}, D{r9}", ea(m, r, 2, w, false)),
        K::Divs => format!("DIVS.W {}, D{r9}", ea(m, r, 2, w, false)),
        K::Divu => format!("DIVU.W {}, D{r9}", ea(m, r, 2, w, false)),
        K::Muls => format!("MULS.W {}, D{r9}", ea(m, r, 2, w, false)),
        K::Mulu => format!("MULU.W {}, D{r9}", ea(m, r, 2, w, false)),
        K::Lea => format!("LEA {}, A{r9}", ea(m, r, 4, w, false)),
        K::Movep => {
            let a = format!("({}, A{r})", w.word() as i16);
            if op & 0x80 != 0 { format!("MOVEP.{} D{r9}, {a}", l(sw)) } else { format!("MOVEP.{} {a}, D{r9}", l(sw)) }
        }
        K::Movea => { let n = mv_size(op); format!("MOVEA.{} {}, A{r9}", l(n), ea(m, r, n, w, true)) }
        K::Move => {
            let n = mv_size(op);
            let src = ea(m, r, n, w, false);
            let dst = ea(op >> 6 & 7, r9, n, w, false);
            format!("MOVE.{} {src}, {dst}", l(n))
        }
        K::Exg => match op >> 3 & 31 {
            8 => format!("EXG D{r9}, D{r}"),
            9 => format!("EXG A{r9}, A{r}"),
            _ => format!("EXG D{r9}, A{r}"),
        },
        K::Ext => format!("EXT.{} D{r}", l(sw)),
        K::Trap => format!("TRAP #{}", op & 15),
        K::Link => format!("LINK.W A{r}, #{}", w.word() as i16),
        K::Swap => format!("SWAP D{r}"),
        K::Unlk => format!("UNLK A{r}"),
        K::Moveusp => if op & 8 != 0 { format!("MOVE USP, A{r}") } else { format!("MOVE A{r}, USP") },
        K::Movem => {
            let v = w.word();
            let e = ea(m, r, sw, w, false);
            if op & 0x400 != 0 { format!("MOVEM.{} {e}, {v:#X}", l(sw)) } else { format!("MOVEM.{} {v:#X}, {e}", l(sw)) }
        }
        K::Addq | K::Subq => format!("{}.{s} #{}, {}", if k == K::Addq { "ADDQ" } else { "SUBQ" }, q(r9), ea(m, r, ss, w, false)),
        K::Scc => { let c = cc(op >> 8 & 15); format!("S{c} {}", ea(m, r, 1, w, false)) }
        K::Dbcc => {
            let c = cc(op >> 8 & 15);
            let v = w.word() as i16;
            format!("DB{c} D{r}, {v} <{:#X}>", at.wrapping_add(2).wrapping_add(v as u32))
        }
        K::Bra | K::Bsr | K::Bcc => {
            let n = match k { K::Bra => "RA", K::Bsr => "SR", _ => cc(op >> 8 & 15) };
            let v = if split(op & 0xFF == 0) { w.word() as i16 } else { op as i8 as i16 };
            format!("B{n} {v} <{:#X}>", at.wrapping_add(2).wrapping_add(v as u32))
        }
        K::Moveq => format!("MOVEQ.L #{}, D{r9}", op as i8),
        K::Add | K::And | K::Or | K::Sub | K::Cmp | K::Eor => {
            let n = match k { K::Add => "ADD", K::And => "AND", K::Or => "OR", K::Sub => "SUB", K::Cmp => "CMP", _ => "EOR" };
            let e = ea(m, r, ss, w, false);
            if op & 0x100 != 0 { format!("{n}.{s} D{r9}, {e}") } else { format!("{n}.{s} {e}, D{r9}") }
        }
        K::Adda | K::Suba | K::Cmpa => {
            let n = match k { K::Adda => "ADDA", K::Suba => "SUBA", _ => "CMPA" };
            format!("{n}.{} {}, A{r9}", l(s8), ea(m, r, s8, w, false))
        }
        K::Abcd | K::Sbcd => {
            let n = if k == K::Abcd { "ABCD" } else { "SBCD" };
            if op & 8 != 0 { format!("{n} -(A{r}), -(A{r9})") } else { format!("{n} D{r}, D{r9}") }
        }
        K::Addx | K::Subx => {
            let n = if k == K::Addx { "ADDX" } else { "SUBX" };
            if op & 8 != 0 { format!("{n}.{s} -(A{r}), -(A{r9})") } else { format!("{n}.{s} D{r}, D{r9}") }
        }
        K::Cmpm => format!("CMPM.{s} (A{r})+, (A{r9})+"),
        K::Asm | K::Lsm | K::Rom | K::Roxm => {
            let n = match k { K::Asm => "AS", K::Lsm => "LS", K::Rom => "RO", _ => "ROX" };
            format!("{n}{lr} {}", ea(m, r, 2, w, false))
        }
        K::Asr | K::Lsr | K::Ror | K::Roxr => {
            let n = match k { K::Asr => "AS", K::Lsr => "LS", K::Ror => "RO", _ => "ROX" };
            if op & 0x20 != 0 { format!("{n}{lr}.{s} D{r9}, D{r}") } else { format!("{n}{lr}.{s} #{}, D{r}", q(r9)) }
        }
    }
}

fn compare_text(t: &str, e: &str) {
    cover("text");
    let (t, e) = (t.as_bytes(), e.as_bytes());
    if t.len() != e.len() { check(false, "length of the text"); return }
    for i in 0..t.len() { eq32(t[i] as u32, e[i] as u32, "text") }
}

/// Every opcode through the table of disassemblers.
pub fn text() {
    let at = any32() & !1;
    let op = unit_opcode();
    mem_write(0, at, op);
    note("opcode", op as u64);
    let k = classify(op);
    if param(2) & F_UNKNOWN != 0 { assume(k == K::Unknown) }
    let mut w = Words { mem: 0, at: at.wrapping_add(2), n: 0 };
    let e = expected(op as u32, k, at, &mut w);
    let mut m = SymMem::new(0, false);
    let mut it = m.iter_u16(at);
    match Instruction::from_memory(&mut it) {
        Ok(i) => compare_text(&DLUT[Isa::from(op) as usize](&i), &e),
        Err(_) => check(false, "error of a readable instruction"),
    }
}

/// The forms of the text of operands. Parameters: mode and register field, form (plain, lower and upper case hexadecimal).
pub fn form() {
    let (mode, reg, form) = (param(0) as u32, param(1) as u32, param(2));
    let size = match param(3) { 1 => Size::Byte, 2 => Size::Word, _ => Size::Long };
    let at = any32() & !1;
    let reg = if mode == 7 { reg } else { any(3) as u32 };
    let mut w = Words { mem: 0, at, n: 0 };
    let mut m = SymMem::new(0, false);
    if mode == 7 && reg == 4 {
        let v = w.imm(size as u32);
        let am = AddressingMode::Immediate(v);
        compare_text(&match form { 0 => format!("{am}"), 1 => format!("{am:x}"), _ => format!("{am:X}") }, &match form { 0 => format!("#{v}"), 1 => format!("#{v:#x}"), _ => format!("#{v:#X}") });
        return;
    }
    let e = ea(mode, reg, size as u32, &mut w, false);
    let am = AddressingMode::from_memory(mode as u16, reg as u8, Some(size), &mut m.iter_u16(at));
    compare_text(&match form { 0 => format!("{am}"), 1 => format!("{am:x}"), _ => format!("{am:X}") }, &e);
}

/// Sizes, directions, brief extension words and whole instructions as text.
pub fn form_other() {
    match param(0) {
        0 => for (x, e) in [(Size::Byte, "B"), (Size::Word, "W"), (Size::Long, "L")] { compare_text(&format!("{x}"), e) },
        1 => {
            use Direction::*;
            compare_text(&format!("{Left}"), "L");
            compare_text(&format!("{Right}"), "R");
            for x in [RegisterToMemory, MemoryToRegister, DstReg, DstEa, RegisterToUsp, UspToRegister, RegisterToRegister, MemoryToMemory, ExchangeData, ExchangeAddress, ExchangeDataAddress] { compare_text(&format!("{x}"), "") }
        }
        2 => {
            let v = any16();
            let e = format!("{}{}.{}", if split(v & 0x8000 != 0) { "A" } else { "D" }, v >> 12 & 7, if split(v & 0x800 != 0) { "L" } else { "W" });
            compare_text(&format!("{}", BriefExtensionWord(v)), &e);
        }
        _ => {
            let at = any32() & !1;
            let op = match param(1) { 0 => 0x4E71, 1 => 0xD040 | any16() & 0x0E07, 2 => 0x4EF8, _ => 0x0640 | any16() & 7 };
            mem_write(0, at, op);
            let mut w = Words { mem: 0, at: at.wrapping_add(2), n: 0 };
            let e = expected(op as u32, classify(op), at, &mut w);
            let mut m = SymMem::new(0, false);
            if let Ok(i) = Instruction::from_memory(&mut m.iter_u16(at)) {
                compare_text(&i.disassemble(), &e);
                compare_text(&format!("{i}"), &e);
            }
        }
    }
}

/// The text the disassembling interpreter returns with the instruction it executes.
fn executed<C: CpuDetails>() {
    let (mut c, op) = prepare::<C>();
    let k = classify(op);
    let at = c.regs.pc.0;
    let mut w = Words { mem: 0, at: at.wrapping_add(2), n: 0 };
    let e = expected(op as u32, k, at, &mut w);
    let mut m = SymMem::new(0, param(2) & F_FAULTS != 0);
    let (pc, t) = if param(2) & F_NOTES != 0 { let r = c.disassembler_interpreter(&mut m); (r.0, r.1) } else { let r = c.disassembler_interpreter_exception(&mut m); (r.0, r.1) };
    eq32(pc, at, "address of the instruction");
    compare_text(&t, &e);
}
pub fn executed_m() { executed::<Mc68000>() }
pub fn executed_s() { executed::<Scc68070>() }
