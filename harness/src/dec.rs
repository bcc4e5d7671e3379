//! Decoding of instructions: operands and length against the formats of the manual.

use crate::oracle::*;
use crate::rt::*;
use crate::step::*;
use m68000::addressing_modes::AddressingMode;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::{CpuDetails, MemoryAccess};

/// The words after the opcode.
pub struct Words {
    pub mem: u32,
    pub at: u32,
    pub n: u32,
}

impl Words {
    pub fn word(&mut self) -> u32 {
        let w = mem_read(self.mem, self.at) as u32;
        self.at = self.at.wrapping_add(2);
        self.n += 1;
        w
    }
    pub fn long(&mut self) -> u32 { let h = self.word(); h << 16 | self.word() }
    pub fn imm(&mut self, size: u32) -> u32 { if size == 4 { self.long() } else { self.word() } }
}

const EA: &str = "addressing mode";

fn ea(am: Option<AddressingMode>, mode: u32, reg: u32, size: u32, w: &mut Words) {
    use AddressingMode::*;
    let at = w.at;
    let v = match (mode, reg) {
        (5 | 6, _) | (7, 0 | 2 | 3) => w.word(),
        (7, 1) => w.long(),
        (7, 4) => w.imm(size),
        _ => 0,
    };
    let Some(am) = am else { return };
    let r = |a: u8| eq32(a as u32, reg, "register of the addressing mode");
    match (mode, am) {
        (0, Drd(a)) | (1, Ard(a)) | (2, Ari(a)) | (3, Ariwpo(a)) | (4, Ariwpr(a)) => r(a),
        (5, Ariwd(a, d)) => { r(a); eq32(d as u32, v as i16 as u32, "displacement of the addressing mode") }
        (6, Ariwi8(a, b)) => {
            r(a);
            eq32(b.0 as u32, v, "extension word of the addressing mode");
            eq32(b.disp() as u32, v as i8 as u32, "displacement of the extension word");
        }
        (7, AbsShort(a)) => { check(reg == 0, EA); eq32(a as u32, v, "absolute address") }
        (7, AbsLong(a)) => { check(reg == 1, EA); eq32(a, v, "absolute address") }
        (7, Pciwd(p, d)) => {
            check(reg == 2, EA);
            eq32(p, at, "program counter of the addressing mode");
            eq32(d as u32, v as i16 as u32, "displacement of the addressing mode");
        }
        (7, Pciwi8(p, b)) => {
            check(reg == 3, EA);
            eq32(p, at, "program counter of the addressing mode");
            eq32(b.0 as u32, v, "extension word of the addressing mode");
        }
        (7, Immediate(i)) => {
            check(reg == 4, EA);
            let k = if size == 1 { 0xFF } else { 0xFFFF_FFFF };
            eq32(i & k, v & k, "immediate of the addressing mode");
        }
        _ => check(false, EA),
    }
}

fn reg(a: u8, r: u32) { eq32(a as u32, r, "register") }
fn size(s: Size, n: u32) { eq32(s as u32, n, "size") }
fn dir(d: Direction, e: Direction) { check(d == e, "direction") }

/// The operands of an instruction of class `k` against its words.
pub fn operands(op: u32, k: K, o: Option<Operands>, w: &mut Words) {
    let (m, r, r9) = (op >> 3 & 7, op & 7, op >> 9 & 7);
    let ss = match op >> 6 & 3 { 0 => 1, 1 => 2, _ => 4 };
    let sw = if op >> 6 & 1 != 0 { 4 } else { 2 };
    let s8 = if op >> 8 & 1 != 0 { 4 } else { 2 };
    macro_rules! want {
        ($p:pat => $b:expr) => { match o { Some($p) => $b, None => {} _ => check(false, "operand format") } };
        ($p:pat => $b:expr, $a:ident, $s:expr) => { want!($p => $b, $a, m, r, $s) };
        ($p:pat => $b:expr, $a:ident, $m:expr, $r:expr, $s:expr) => {
            match o { Some($p) => { $b; ea(Some($a), $m, $r, $s, w) } None => ea(None, $m, $r, $s, w), _ => check(false, "operand format") }
        };
    }
    let imm = |a: u32, b: u32, s: u32| { let k = if s == 1 { 0xFF } else { 0xFFFF_FFFF }; eq32(a & k, b & k, "immediate") };
    let left = if op & 0x100 != 0 { Direction::Left } else { Direction::Right };
    match k {
        K::Unknown | K::Illegal | K::Nop | K::Reset | K::Rte | K::Rtr | K::Rts | K::Trapv => want!(Operands::NoOperands => {}),
        K::Andiccr | K::Eoriccr | K::Oriccr => { let v = w.word(); want!(Operands::Immediate(i) => imm(i as u32, v, 1)) }
        K::Andisr | K::Eorisr | K::Orisr | K::Stop => { let v = w.word(); want!(Operands::Immediate(i) => imm(i as u32, v, 2)) }
        K::Addi | K::Andi | K::Cmpi | K::Eori | K::Ori | K::Subi => {
            let v = w.imm(ss);
            want!(Operands::SizeEffectiveAddressImmediate(s, a, i) => { size(s, ss); imm(i, v, ss) }, a, ss)
        }
        K::Bchg | K::Bclr | K::Bset | K::Btst => {
            let n = if op & 0x100 != 0 { r9 } else { w.word() & 0xFF };
            want!(Operands::EffectiveAddressCount(a, c) => eq32(c as u32, n, "bit number"), a, 1)
        }
        K::Jmp | K::Jsr | K::Pea => want!(Operands::EffectiveAddress(a) => {}, a, 4),
        K::Moveccr | K::Movesr | K::Movefsr => want!(Operands::EffectiveAddress(a) => {}, a, 2),
        K::Nbcd | K::Tas => want!(Operands::EffectiveAddress(a) => {}, a, 1),
        K::Clr | K::Neg | K::Negx | K::Not | K::Tst => want!(Operands::SizeEffectiveAddress(s, a) => size(s, ss), a, ss),
        K::Chk | K::Divs | K::Divu | K::Muls | K::Mulu => want!(Operands::RegisterEffectiveAddress(x, a) => reg(x, r9), a, 2),
        K::Lea => want!(Operands::RegisterEffectiveAddress(x, a) => reg(x, r9), a, 4),
        K::Movep => {
            let v = w.word();
            want!(Operands::RegisterDirectionSizeRegisterDisplacement(x, d, s, y, i) => {
                reg(x, r9);
                dir(d, if op & 0x80 != 0 { Direction::RegisterToMemory } else { Direction::MemoryToRegister });
                size(s, sw);
                reg(y, r);
                eq32(i as u32, v as i16 as u32, "displacement");
            })
        }
        K::Movea => { let n = mv_size(op); want!(Operands::SizeRegisterEffectiveAddress(s, x, a) => { size(s, n); reg(x, r9) }, a, n) }
        K::Move => {
            let n = mv_size(op);
            match o {
                Some(Operands::SizeEffectiveAddressEffectiveAddress(s, dst, src)) => {
                    size(s, n);
                    ea(Some(src), m, r, n, w);
                    ea(Some(dst), op >> 6 & 7, r9, n, w);
                }
                None => { ea(None, m, r, n, w); ea(None, op >> 6 & 7, r9, n, w) }
                _ => check(false, "operand format"),
            }
        }
        K::Exg => want!(Operands::RegisterOpmodeRegister(x, d, y) => {
            reg(x, r9);
            dir(d, match op >> 3 & 31 { 8 => Direction::ExchangeData, 9 => Direction::ExchangeAddress, _ => Direction::ExchangeDataAddress });
            reg(y, r);
        }),
        K::Ext => want!(Operands::OpmodeRegister(p, x) => { eq32(p as u32, op >> 6 & 7, "mode"); reg(x, r) }),
        K::Trap => want!(Operands::Vector(v) => eq32(v as u32, op & 15, "vector")),
        K::Link => { let v = w.word(); want!(Operands::RegisterDisplacement(x, i) => { reg(x, r); eq32(i as u32, v as i16 as u32, "displacement") }) }
        K::Swap | K::Unlk => want!(Operands::Register(x) => reg(x, r)),
        K::Moveusp => want!(Operands::DirectionRegister(d, x) => { dir(d, if op & 8 != 0 { Direction::UspToRegister } else { Direction::RegisterToUsp }); reg(x, r) }),
        K::Movem => {
            let v = w.word();
            want!(Operands::DirectionSizeEffectiveAddressList(d, s, a, l) => {
                dir(d, if op & 0x400 != 0 { Direction::MemoryToRegister } else { Direction::RegisterToMemory });
                size(s, sw);
                eq32(l as u32, v, "register list");
            }, a, sw)
        }
        K::Addq | K::Subq => want!(Operands::DataSizeEffectiveAddress(d, s, a) => { check((d as u32 == r9) | ((d == 8) & (r9 == 0)), "data"); size(s, ss) }, a, ss),
        K::Scc => want!(Operands::ConditionEffectiveAddress(c, a) => eq32(c as u32, op >> 8 & 15, "condition"), a, 1),
        K::Dbcc => {
            let v = w.word();
            want!(Operands::ConditionRegisterDisplacement(c, x, i) => { eq32(c as u32, op >> 8 & 15, "condition"); reg(x, r); eq32(i as u32, v as i16 as u32, "displacement") })
        }
        K::Bra | K::Bsr | K::Bcc => {
            let v = if split(op & 0xFF == 0) { w.word() as i16 as u32 } else { op as i8 as u32 };
            if k == K::Bcc { want!(Operands::ConditionDisplacement(c, i) => { eq32(c as u32, op >> 8 & 15, "condition"); eq32(i as u32, v, "displacement") }) }
            else { want!(Operands::Displacement(i) => eq32(i as u32, v, "displacement")) }
        }
        K::Moveq => want!(Operands::RegisterData(x, d) => { reg(x, r9); eq32(d as u32, op as i8 as u32, "data") }),
        K::Add | K::And | K::Or | K::Sub | K::Cmp | K::Eor => want!(Operands::RegisterDirectionSizeEffectiveAddress(x, d, s, a) => {
            reg(x, r9);
            dir(d, if op & 0x100 != 0 { Direction::DstEa } else { Direction::DstReg });
            size(s, ss);
        }, a, ss),
        K::Adda | K::Suba | K::Cmpa => want!(Operands::RegisterSizeEffectiveAddress(x, s, a) => { reg(x, r9); size(s, s8) }, a, s8),
        K::Abcd | K::Sbcd | K::Addx | K::Subx => want!(Operands::RegisterSizeModeRegister(x, s, d, y) => {
            reg(x, r9);
            size(s, if k == K::Abcd || k == K::Sbcd { 1 } else { ss });
            dir(d, if op & 8 != 0 { Direction::MemoryToMemory } else { Direction::RegisterToRegister });
            reg(y, r);
        }),
        K::Cmpm => want!(Operands::RegisterSizeRegister(x, s, y) => { reg(x, r9); size(s, ss); reg(y, r) }),
        K::Asm | K::Lsm | K::Rom | K::Roxm => want!(Operands::DirectionEffectiveAddress(d, a) => dir(d, left), a, 2),
        K::Asr | K::Lsr | K::Ror | K::Roxr => want!(Operands::RotationDirectionSizeModeRegister(c, d, s, i, x) => {
            check((c as u32 == r9) | ((c == 8) & (r9 == 0) & (op & 0x20 == 0)), "count");
            dir(d, left);
            size(s, ss);
            check(i == (op & 0x20 != 0), "mode of the count");
            reg(x, r);
        }),
    }
}

/// `Instruction::from_memory`, at any address.
pub fn from_memory() {
    let at = any32() & !1;
    let op = unit_opcode();
    mem_write(0, at, op);
    note("opcode", op as u64);
    let k = classify(op);
    if param(2) & F_UNKNOWN != 0 { assume(k == K::Unknown) }
    let mut m = SymMem::new(0, false);
    let mut it = m.iter_u16(at);
    match Instruction::from_memory(&mut it) {
        Ok(i) => {
            let next = it.next_addr;
            let mut w = Words { mem: 0, at: at.wrapping_add(2), n: 0 };
            operands(op as u32, k, Some(i.operands), &mut w);
            eq32(i.opcode as u32, op as u32, "opcode");
            eq32(i.pc, at, "address");
            eq32(next, w.at, "address after the instruction");
            eq32(m.writes, 0, "writes");
            cover("decoded");
        }
        Err(_) => check(false, "error of a readable instruction"),
    }
}

/// The opcode cannot be read.
pub fn unreadable() {
    let at = any32();
    let odd = at & 1 != 0;
    assume(odd | !valid(RD, at));
    let mut m = SymMem::new(0, true);
    let mut it = m.iter_u16(at);
    match Instruction::from_memory(&mut it) {
        Ok(_) => check(false, "instruction from a refused word"),
        Err(e) => eq32(e as u32, ite32(odd, 3, 2), "exception"),
    }
    cover("refused");
}

/// Parameter 3: the number of the extension word that the memory refuses, those before it are read.
fn refused<C: CpuDetails>() {
    let mut c = arb_cpu::<C>();
    c.regs.pc.0 &= !1;
    let at = c.regs.pc.0;
    let op = unit_opcode();
    mem_write(0, at, op);
    note("opcode", op as u64);
    let i = param(3) as u32;
    let k = classify(op);
    // The mode bit matters to privileged instructions: user mode is that of C10.
    c.regs.sr.s = true;
    let mut w = Words { mem: 0, at: at.wrapping_add(2), n: 0 };
    operands(op as u32, k, None, &mut w);
    assume(w.n > i);
    for j in 0..=i { assume(valid(RD, at.wrapping_add(2 * j))) }
    assume(!valid(RD, at.wrapping_add(2 * (i + 1))));
    let mut m = SymMem::new(0, true);
    cover("extension word refused");
    let e = if param(2) & F_DIS != 0 { code(c.disassembler_interpreter_exception(&mut m).3) } else { code(c.interpreter_exception(&mut m).1) };
    eq32(e, 2, "exception of a refused extension word");
}
pub fn refused_m() { refused::<Mc68000>() }
pub fn refused_s() { refused::<Scc68070>() }
