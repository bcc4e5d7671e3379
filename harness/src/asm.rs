//! The assembler: what it builds decodes back to its arguments, and what the manual does not allow is refused.

use crate::oracle::*;
use crate::rt::*;
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::assembler::{self as a, Condition};
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::MemoryAccess;

const ALL: u32 = 0xFFF;
const DATA: u32 = 0xFFD;
const ALT: u32 = 0x1FF;
const DALT: u32 = 0x1FD;
const MALT: u32 = 0x1FC;
const CTL: u32 = 0x7E4;

/// An addressing mode of kind `k` (0 to 11, in the order of the manual) with arbitrary contents.
#[derive(Clone, Copy)]
struct Am { k: u32, reg: u8, v: u32, m: AddressingMode }

fn am(k: u32) -> Am {
    use AddressingMode::*;
    let (reg, v) = (any8(), any32());
    let b = BriefExtensionWord(v as u16);
    let m = match k {
        0 => Drd(reg),
        1 => Ard(reg),
        2 => Ari(reg),
        3 => Ariwpo(reg),
        4 => Ariwpr(reg),
        5 => Ariwd(reg, v as i16),
        6 => Ariwi8(reg, b),
        7 => AbsShort(v as u16),
        8 => AbsLong(v),
        9 => Pciwd(any32(), v as i16),
        10 => Pciwi8(any32(), b),
        _ => Immediate(v),
    };
    Am { k, reg, v, m }
}

impl Am {
    fn ok(&self, modes: u32) -> bool { (modes >> self.k & 1 != 0) & ((self.k > 6) | (self.reg <= 7)) }
    /// The decoded mode is this one.
    fn is(&self, d: AddressingMode, size: u32) {
        use AddressingMode::*;
        let r = |a: u8| eq32(a as u32, self.reg as u32, "register of the addressing mode");
        let v = |a: u32, k: u32| eq32(a & k, self.v & k, "value of the addressing mode");
        match (self.k, d) {
            (0, Drd(x)) | (1, Ard(x)) | (2, Ari(x)) | (3, Ariwpo(x)) | (4, Ariwpr(x)) => r(x),
            (5, Ariwd(x, i)) => { r(x); v(i as u32, 0xFFFF) }
            (6, Ariwi8(x, b)) => { r(x); v(b.0 as u32, 0xFFFF) }
            (7, AbsShort(x)) => v(x as u32, 0xFFFF),
            (8, AbsLong(x)) => v(x, !0),
            (9, Pciwd(_, i)) => v(i as u32, 0xFFFF),
            (10, Pciwi8(_, b)) => v(b.0 as u32, 0xFFFF),
            (11, Immediate(x)) => v(x, if size == 1 { 0xFF } else if size == 2 { 0xFFFF } else { !0 }),
            _ => check(false, "addressing mode"),
        }
    }
}

fn sz(i: u64) -> Size { match i { 0 => Size::Byte, 1 => Size::Word, _ => Size::Long } }

fn dr(i: u64) -> Direction {
    use Direction::*;
    match i {
        0 => RegisterToMemory, 1 => MemoryToRegister, 2 => DstReg, 3 => DstEa, 4 => Left, 5 => Right, 6 => RegisterToUsp, 7 => UspToRegister,
        8 => RegisterToRegister, 9 => MemoryToMemory, 10 => ExchangeData, 11 => ExchangeAddress, _ => ExchangeDataAddress,
    }
}

fn cond(i: u64) -> Condition {
    use Condition::*;
    match i { 0 => T, 1 => F, 2 => HI, 3 => LS, 4 => CC, 5 => CS, 6 => NE, 7 => EQ, 8 => VC, 9 => VS, 10 => PL, 11 => MI, 12 => GE, 13 => LT, 14 => GT, _ => LE }
}

/// Arguments outside what the manual allows have to be refused with a panic, the others accepted.
fn allowed(ok: bool) {
    if split(ok) { panic_ok(0) } else { cover("refused"); panic_ok(2) }
}

/// The words, decoded.
fn decode(w: &[u16], k: K) -> Operands {
    panic_ok(0);
    cover("assembled");
    let at = any32() & !1;
    for i in 0..w.len() { mem_write(0, at.wrapping_add(2 * i as u32), w[i]) }
    let mut m = SymMem::new(0, false);
    let mut it = m.iter_u16(at);
    note("opcode", w[0] as u64);
    let isa = m68000::isa::Isa::from(w[0]);
    eq32(k_of(isa), k as u32, "instruction of the opcode");
    match Instruction::from_memory(&mut it) {
        Ok(i) => { eq32(it.next_addr, at.wrapping_add(2 * w.len() as u32), "length"); eq32(i.opcode as u32, w[0] as u32, "opcode"); i.operands }
        Err(_) => { check(false, "error of a readable instruction"); Operands::NoOperands }
    }
}

fn r(x: u8, e: u8) { eq32(x as u32, e as u32, "register") }
fn s(x: Size, e: Size) { eq32(x as u32, e as u32, "size") }
fn d(x: Direction, e: Direction) { check(x == e, "direction") }
fn i(x: u32, e: u32) { eq32(x, e, "value") }

/// Parameter 0: function, 1: addressing mode, 2: size, 3: direction, condition or second addressing mode.
pub fn assemble() {
    let f = param(0);
    let size = sz(param(2));
    let n = size as u32;
    let byte = n == 1;
    macro_rules! want { ($w:expr, $k:ident, $p:pat => $b:expr) => { match decode(&$w[..], K::$k) { $p => $b, _ => check(false, "operand format") } } }
    let imm_ea = |g: fn(Size, AddressingMode, u32) -> Vec<u16>, k: K| {
        let (m, v) = (am(param(1) as u32), any32());
        allowed(m.ok(DALT));
        let w = g(size, m.m, v);
        match decode(&w, k) {
            Operands::SizeEffectiveAddressImmediate(x, y, z) => { s(x, size); m.is(y, n); let b = if byte { 0xFF } else if n == 2 { 0xFFFF } else { !0 }; i(z & b, v & b) }
            _ => check(false, "operand format"),
        }
    };
    let bit_dyn = |g: fn(u8, AddressingMode) -> Vec<u16>, k: K, modes: u32| {
        let (x, m) = (any8(), am(param(1) as u32));
        allowed((x <= 7) & m.ok(modes));
        let w = g(x, m.m);
        match decode(&w, k) { Operands::EffectiveAddressCount(y, z) => { m.is(y, 1); i(z as u32, x as u32) } _ => check(false, "operand format") }
    };
    let bit_st = |g: fn(AddressingMode, u8) -> Vec<u16>, k: K, modes: u32| {
        let (m, x) = (am(param(1) as u32), any8());
        allowed(m.ok(modes));
        let w = g(m.m, x);
        match decode(&w, k) { Operands::EffectiveAddressCount(y, z) => { m.is(y, 1); i(z as u32, x as u32) } _ => check(false, "operand format") }
    };
    let ea1 = |g: fn(AddressingMode) -> Vec<u16>, k: K, modes: u32, n: u32| {
        let m = am(param(1) as u32);
        allowed(m.ok(modes));
        let w = g(m.m);
        match decode(&w, k) { Operands::EffectiveAddress(y) => m.is(y, n), _ => check(false, "operand format") }
    };
    let sea = |g: fn(Size, AddressingMode) -> Vec<u16>, k: K| {
        let m = am(param(1) as u32);
        allowed(m.ok(DALT));
        let w = g(size, m.m);
        match decode(&w, k) { Operands::SizeEffectiveAddress(x, y) => { s(x, size); m.is(y, n) } _ => check(false, "operand format") }
    };
    let rea = |g: fn(u8, AddressingMode) -> Vec<u16>, k: K, modes: u32, n: u32| {
        let (x, m) = (any8(), am(param(1) as u32));
        allowed((x <= 7) & m.ok(modes));
        let w = g(x, m.m);
        match decode(&w, k) { Operands::RegisterEffectiveAddress(y, z) => { r(y, x); m.is(z, n) } _ => check(false, "operand format") }
    };
    let shm = |g: fn(Direction, AddressingMode) -> Vec<u16>, k: K| {
        let (v, m) = (dr(param(3)), am(param(1) as u32));
        allowed(((v == Direction::Left) | (v == Direction::Right)) & m.ok(MALT));
        let w = g(v, m.m);
        match decode(&w, k) { Operands::DirectionEffectiveAddress(x, y) => { d(x, v); m.is(y, 2) } _ => check(false, "operand format") }
    };
    let shr = |g: fn(u16, Direction, Size, bool, u16) -> u16, k: K| {
        let (c, v, b, x) = (any16(), dr(param(3)), anyb(), any16());
        allowed(((v == Direction::Left) | (v == Direction::Right)) & (c <= 7) & (x <= 7));
        let w = [g(c, v, size, b, x)];
        match decode(&w, k) {
            Operands::RotationDirectionSizeModeRegister(cc, vv, ss, bb, xx) => {
                check((cc as u16 == c) | ((c == 0) & (cc == 8) & !b), "count");
                d(vv, v);
                s(ss, size);
                check(bb == b, "mode of the count");
                i(xx as u32, x as u32);
            }
            _ => check(false, "operand format"),
        }
    };
    let arith = |g: fn(u8, Direction, Size, AddressingMode) -> Vec<u16>, k: K, modes: u32| {
        let (x, v, m) = (any8(), dr(param(3)), am(param(1) as u32));
        let good = match v { Direction::DstReg => m.ok(modes) & !(byte & (m.k == 1)), Direction::DstEa => m.ok(MALT), _ => false };
        allowed((x <= 7) & good);
        let w = g(x, v, size, m.m);
        match decode(&w, k) { Operands::RegisterDirectionSizeEffectiveAddress(y, dd, ss, z) => { r(y, x); d(dd, v); s(ss, size); m.is(z, n) } _ => check(false, "operand format") }
    };
    let addr = |g: fn(u8, Size, AddressingMode) -> Vec<u16>, k: K| {
        let (x, m) = (any8(), am(param(1) as u32));
        allowed((x <= 7) & m.ok(ALL) & !byte);
        let w = g(x, size, m.m);
        match decode(&w, k) { Operands::RegisterSizeEffectiveAddress(y, ss, z) => { r(y, x); s(ss, size); m.is(z, n) } _ => check(false, "operand format") }
    };
    let ext = |g: fn(u8, Size, Direction, u8) -> u16, k: K| {
        let (x, v, y) = (any8(), dr(param(3)), any8());
        allowed((x <= 7) & (y <= 7) & ((v == Direction::RegisterToRegister) | (v == Direction::MemoryToMemory)));
        let w = [g(x, size, v, y)];
        match decode(&w, k) { Operands::RegisterSizeModeRegister(xx, ss, vv, yy) => { r(xx, x); s(ss, if k == K::Abcd || k == K::Sbcd { Size::Byte } else { size }); d(vv, v); r(yy, y) } _ => check(false, "operand format") }
    };
    let quick = |g: fn(u8, Size, AddressingMode) -> Vec<u16>, k: K| {
        let (x, m) = (any8(), am(param(1) as u32));
        allowed((x >= 1) & (x <= 8) & m.ok(ALT) & !(byte & (m.k == 1)));
        let w = g(x, size, m.m);
        match decode(&w, k) { Operands::DataSizeEffectiveAddress(y, ss, z) => { check((y == x) | ((y == 0) & (x == 8)), "data"); s(ss, size); m.is(z, n) } _ => check(false, "operand format") }
    };
    let imm16 = |g: fn(u16) -> [u16; 2], k: K, b: u32| {
        let v = any16();
        allowed(true);
        let w = g(v);
        match decode(&w, k) { Operands::Immediate(x) => i(x as u32 & b, v as u32 & b), _ => check(false, "operand format") }
    };
    let reg1 = |g: fn(u8) -> u16, k: K| {
        let x = any8();
        allowed(x <= 7);
        let w = [g(x)];
        match decode(&w, k) { Operands::Register(y) => r(y, x), _ => check(false, "operand format") }
    };
    let none = |g: fn() -> u16, k: K| {
        allowed(true);
        let w = [g()];
        match decode(&w, k) { Operands::NoOperands => {} _ => check(false, "operand format") }
    };
    let branch = |g: fn(i16) -> Vec<u16>, k: K| {
        let v = any16() as i16;
        allowed(true);
        let w = g(v);
        match decode(&w, k) { Operands::Displacement(x) => i(x as u32, v as u32), _ => check(false, "operand format") }
    };
    match f {
        0 => ext(|x, _, v, y| a::abcd(x, v, y), K::Abcd),
        1 => arith(a::add, K::Add, ALL),
        2 => addr(a::adda, K::Adda),
        3 => imm_ea(a::addi, K::Addi),
        4 => quick(a::addq, K::Addq),
        5 => ext(a::addx, K::Addx),
        6 => arith(a::and, K::And, DATA),
        7 => imm_ea(a::andi, K::Andi),
        8 => imm16(a::andiccr, K::Andiccr, 0xFF),
        9 => imm16(a::andisr, K::Andisr, 0xFFFF),
        10 => shm(a::asm, K::Asm),
        11 => shr(a::asr, K::Asr),
        12 => {
            let (c, v) = (param(3), any16() as i16);
            allowed(c > 1);
            let w = a::bcc(cond(c), v);
            want!(w, Bcc, Operands::ConditionDisplacement(x, y) => { i(x as u32, c as u32); i(y as u32, v as u32) })
        }
        13 => bit_dyn(a::bchg_dynamic, K::Bchg, DALT),
        14 => bit_st(a::bchg_static, K::Bchg, DALT),
        15 => bit_dyn(a::bclr_dynamic, K::Bclr, DALT),
        16 => bit_st(a::bclr_static, K::Bclr, DALT),
        17 => branch(a::bra, K::Bra),
        18 => bit_dyn(a::bset_dynamic, K::Bset, DALT),
        19 => bit_st(a::bset_static, K::Bset, DALT),
        20 => branch(a::bsr, K::Bsr),
        21 => bit_dyn(a::btst_dynamic, K::Btst, DATA),
        22 => bit_st(a::btst_static, K::Btst, DATA & 0x7FF),
        23 => rea(a::chk, K::Chk, DATA, 2),
        24 => sea(a::clr, K::Clr),
        25 => {
            let (x, m) = (any8(), am(param(1) as u32));
            allowed((x <= 7) & m.ok(ALL) & !(byte & (m.k == 1)));
            let w = a::cmp(x, size, m.m);
            want!(w, Cmp, Operands::RegisterDirectionSizeEffectiveAddress(y, dd, ss, z) => { r(y, x); d(dd, Direction::DstReg); s(ss, size); m.is(z, n) })
        }
        26 => addr(a::cmpa, K::Cmpa),
        27 => imm_ea(a::cmpi, K::Cmpi),
        28 => {
            let (x, y) = (any8(), any8());
            allowed((x <= 7) & (y <= 7));
            let w = [a::cmpm(x, size, y)];
            want!(w, Cmpm, Operands::RegisterSizeRegister(xx, ss, yy) => { r(xx, x); s(ss, size); r(yy, y) })
        }
        29 => {
            let (c, x, v) = (param(3), any8(), any16() as i16);
            allowed(x <= 7);
            let w = a::dbcc(cond(c), x, v);
            want!(w, Dbcc, Operands::ConditionRegisterDisplacement(cc, xx, vv) => { i(cc as u32, c as u32); r(xx, x); i(vv as u32, v as u32) })
        }
        30 => rea(a::divs, K::Divs, DATA, 2),
        31 => rea(a::divu, K::Divu, DATA, 2),
        32 => {
            let (x, m) = (any8(), am(param(1) as u32));
            allowed((x <= 7) & m.ok(DALT));
            let w = a::eor(x, size, m.m);
            want!(w, Eor, Operands::RegisterDirectionSizeEffectiveAddress(y, dd, ss, z) => { r(y, x); d(dd, Direction::DstEa); s(ss, size); m.is(z, n) })
        }
        33 => imm_ea(a::eori, K::Eori),
        34 => imm16(a::eoriccr, K::Eoriccr, 0xFF),
        35 => imm16(a::eorisr, K::Eorisr, 0xFFFF),
        36 => {
            let (x, v, y) = (any8(), dr(param(3)), any8());
            allowed((x <= 7) & (y <= 7) & (param(3) >= 10));
            let w = [a::exg(x, v, y)];
            want!(w, Exg, Operands::RegisterOpmodeRegister(xx, vv, yy) => { r(xx, x); d(vv, v); r(yy, y) })
        }
        37 => {
            let (l, x) = (anyb(), any8());
            allowed(x <= 7);
            let w = [a::ext(l, x)];
            want!(w, Ext, Operands::OpmodeRegister(p, y) => { i(p as u32, if l { 3 } else { 2 }); r(y, x) })
        }
        38 => none(a::illegal, K::Illegal),
        39 => ea1(a::jmp, K::Jmp, CTL, 4),
        40 => ea1(a::jsr, K::Jsr, CTL, 4),
        41 => rea(a::lea, K::Lea, CTL, 4),
        42 => {
            let (x, v) = (any8(), any16() as i16);
            allowed(x <= 7);
            let w = a::link(x, v);
            want!(w, Link, Operands::RegisterDisplacement(y, z) => { r(y, x); i(z as u32, v as u32) })
        }
        43 => shm(a::lsm, K::Lsm),
        44 => shr(a::lsr, K::Lsr),
        45 => {
            let (dst, src) = (am(param(3) as u32), am(param(1) as u32));
            allowed(dst.ok(DALT) & src.ok(ALL) & !(byte & (src.k == 1)));
            let w = a::r#move(size, dst.m, src.m);
            want!(w, Move, Operands::SizeEffectiveAddressEffectiveAddress(ss, x, y) => { s(ss, size); dst.is(x, n); src.is(y, n) })
        }
        46 => {
            let (x, m) = (any8(), am(param(1) as u32));
            allowed((x <= 7) & m.ok(ALL) & !byte);
            let w = a::movea(size, x, m.m);
            want!(w, Movea, Operands::SizeRegisterEffectiveAddress(ss, y, z) => { s(ss, size); r(y, x); m.is(z, n) })
        }
        47 => ea1(a::moveccr, K::Moveccr, DATA, 2),
        48 => ea1(a::movefsr, K::Movefsr, DALT, 2),
        49 => ea1(a::movesr, K::Movesr, DATA, 2),
        50 => {
            let (v, x) = (dr(param(3)), any8());
            allowed((x <= 7) & ((param(3) == 6) | (param(3) == 7)));
            let w = [a::moveusp(v, x)];
            want!(w, Moveusp, Operands::DirectionRegister(vv, y) => { d(vv, v); r(y, x) })
        }
        51 => {
            let (v, m, l) = (dr(param(3)), am(param(1) as u32), any16());
            let good = match v { Direction::RegisterToMemory => m.ok(0x1F4), Direction::MemoryToRegister => m.ok(0x7EC), _ => false };
            allowed(good & !byte);
            let w = a::movem(v, size, m.m, l);
            want!(w, Movem, Operands::DirectionSizeEffectiveAddressList(vv, ss, x, y) => { d(vv, v); s(ss, size); m.is(x, n); i(y as u32, l as u32) })
        }
        52 => {
            let (x, v, y, z) = (any8(), dr(param(3)), any8(), any16() as i16);
            allowed((x <= 7) & (y <= 7) & !byte & (param(3) <= 1));
            let w = a::movep(x, v, size, y, z);
            want!(w, Movep, Operands::RegisterDirectionSizeRegisterDisplacement(xx, vv, ss, yy, zz) => { r(xx, x); d(vv, v); s(ss, size); r(yy, y); i(zz as u32, z as u32) })
        }
        53 => {
            let (x, v) = (any8(), any8());
            allowed(x <= 7);
            let w = [a::moveq(x, v as i8)];
            want!(w, Moveq, Operands::RegisterData(y, z) => { r(y, x); i(z as u8 as u32, v as u32) })
        }
        54 => rea(a::muls, K::Muls, DATA, 2),
        55 => rea(a::mulu, K::Mulu, DATA, 2),
        56 => ea1(a::nbcd, K::Nbcd, DALT, 1),
        57 => sea(a::neg, K::Neg),
        58 => sea(a::negx, K::Negx),
        59 => none(a::nop, K::Nop),
        60 => sea(a::not, K::Not),
        61 => arith(a::or, K::Or, DATA),
        62 => imm_ea(a::ori, K::Ori),
        63 => imm16(a::oriccr, K::Oriccr, 0xFF),
        64 => imm16(a::orisr, K::Orisr, 0xFFFF),
        65 => ea1(a::pea, K::Pea, CTL, 4),
        66 => none(a::reset, K::Reset),
        67 => shm(a::rom, K::Rom),
        68 => shr(a::ror, K::Ror),
        69 => shm(a::roxm, K::Roxm),
        70 => shr(a::roxr, K::Roxr),
        71 => none(a::rte, K::Rte),
        72 => none(a::rtr, K::Rtr),
        73 => none(a::rts, K::Rts),
        74 => ext(|x, _, v, y| a::sbcd(x, v, y), K::Sbcd),
        75 => {
            let (c, m) = (param(3), am(param(1) as u32));
            allowed(m.ok(DALT));
            let w = a::scc(cond(c), m.m);
            want!(w, Scc, Operands::ConditionEffectiveAddress(x, y) => { i(x as u32, c as u32); m.is(y, 1) })
        }
        76 => imm16(a::stop, K::Stop, 0xFFFF),
        77 => arith(a::sub, K::Sub, ALL),
        78 => addr(a::suba, K::Suba),
        79 => imm_ea(a::subi, K::Subi),
        80 => quick(a::subq, K::Subq),
        81 => ext(a::subx, K::Subx),
        82 => reg1(a::swap, K::Swap),
        83 => ea1(a::tas, K::Tas, DALT, 1),
        84 => {
            let x = any8();
            allowed(x <= 15);
            let w = [a::trap(x)];
            want!(w, Trap, Operands::Vector(y) => i(y as u32, x as u32))
        }
        85 => none(a::trapv, K::Trapv),
        86 => sea(a::tst, K::Tst),
        87 => reg1(a::unlk, K::Unlk),
        _ => {
            // The extension word builder.
            let (ad, x, l, v) = (anyb(), any8(), anyb(), any8());
            allowed(x <= 7);
            let b = BriefExtensionWord::new(ad, x, l, v as i8);
            panic_ok(0);
            cover("assembled");
            eq32(b.0 as u32, (ad as u32) << 15 | (x as u32) << 12 | (l as u32) << 11 | v as u32, "extension word");
            eq32(b.disp() as u8 as u32, v as u32, "displacement");
        }
    }
}
