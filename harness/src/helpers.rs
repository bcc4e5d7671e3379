//! The public building blocks of the library: integer and bit helpers, sizes, addressing modes, exceptions.

use crate::oracle::*;
use crate::rt::*;
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::exception::{Exception, Vector};
use m68000::instruction::Size;
use m68000::isa::Isa;
use m68000::status_register::StatusRegister;
use m68000::utils::*;
use m68000::Registers;
use std::cmp::Ordering;
use std::num::Wrapping;

const SIZES: [Size; 3] = [Size::Byte, Size::Word, Size::Long];

fn carry_u<T: CarryingOps<S, U>, S: Into<i64>, U: Into<i64>>(a: T, b: T, bits: u32, wide: fn(T) -> i64, c: bool) {
    let (m, s) = (1i64 << bits, 1i64 << (bits - 1));
    let unsigned = |x: i64| x & (m - 1);
    let signed = |x: i64| ((x & (m - 1)) ^ s) - s;
    let (x, y, k) = (wide(a), wide(b), c as i64);
    let (ux, uy, sx, sy) = (unsigned(x), unsigned(y), signed(x), signed(y));
    let r = a.unsigned_carrying_add(b, c);
    let e = ux + uy + k;
    check(r.0.into() == unsigned(e), "unsigned sum");
    check(r.1 == (e >= m), "carry of the unsigned sum");
    let r = a.signed_carrying_add(b, c);
    let e = sx + sy + k;
    check(r.0.into() == signed(e), "signed sum");
    check(r.1 == ((e >= s) | (e < -s)), "overflow of the signed sum");
    let r = a.unsigned_borrowing_sub(b, c);
    let e = ux - uy - k;
    check(r.0.into() == unsigned(e), "unsigned difference");
    check(r.1 == (e < 0), "borrow of the unsigned difference");
    let r = a.signed_borrowing_sub(b, c);
    let e = sx - sy - k;
    check(r.0.into() == signed(e), "signed difference");
    check(r.1 == ((e >= s) | (e < -s)), "overflow of the signed difference");
}

fn carry<T: CarryingOps<S, U>, S: Into<i64>, U: Into<i64>>(a: T, b: T, bits: u32, wide: fn(T) -> i64, is_signed: bool, c: bool) {
    let (m, s) = (1i64 << bits, 1i64 << (bits - 1));
    let (x, y, k) = (wide(a), wide(b), c as i64);
    let fit = |e: i64| if is_signed { ((e & (m - 1)) ^ s) - s } else { e & (m - 1) };
    let (lo, hi) = if is_signed { (-s, s) } else { (0, m) };
    let r = a.carryingadd(b, c);
    let e = x + y + k;
    check(wide(r.0) == fit(e), "sum");
    check(r.1 == ((e < lo) | (e >= hi)), "carry of the sum");
    let r = a.borrowingsub(b, c);
    let e = x - y - k;
    check(wide(r.0) == fit(e), "difference");
    check(r.1 == ((e < lo) | (e >= hi)), "borrow of the difference");
    check(wide(T::ZERO) == 0, "zero");
    check(wide(T::SIGN_BIT_MASK) & (m - 1) == s, "sign bit");
}

macro_rules! carries {
    ($t:ty, $bits:expr, $signed:expr, $c:expr) => {{
        let (a, b) = (any($bits) as $t, any($bits) as $t);
        carry(a, b, $bits, |x: $t| x as i64, $signed, $c);
        carry_u(a, b, $bits, |x: $t| x as i64, $c);
    }};
}

/// An addressing mode of each kind, with its mode and register fields.
fn mode(k: u32) -> (AddressingMode, u32, u32) {
    let r = any8();
    let w = any16();
    let l = any32();
    use AddressingMode::*;
    match k {
        0 => (Drd(r), 0, r as u32),
        1 => (Ard(r), 1, r as u32),
        2 => (Ari(r), 2, r as u32),
        3 => (Ariwpo(r), 3, r as u32),
        4 => (Ariwpr(r), 4, r as u32),
        5 => (Ariwd(r, w as i16), 5, r as u32),
        6 => (Ariwi8(r, BriefExtensionWord(w)), 6, r as u32),
        7 => (AbsShort(w), 7, 0),
        8 => (AbsLong(l), 7, 1),
        9 => (Pciwd(l, w as i16), 7, 2),
        10 => (Pciwi8(l, BriefExtensionWord(w)), 7, 3),
        _ => (Immediate(l), 7, 4),
    }
}

pub fn helpers() {
    let p = param(1) as u32;
    match param(0) {
        0 => {
            let (d, b) = (any16(), any16() & 15);
            check(bit(d, b) == (d as u32 >> b & 1 != 0), "bit");
            let e = any16() & 15;
            assume(b <= e);
            let n = e - b + 1;
            eq32(bits(d, b, e) as u32, d as u32 >> b & ((1u32 << n) - 1), "bits");
        }
        1 => {
            let v = any32();
            let odd = v & 1 != 0;
            let check_even = |e: bool, r: Result<u32, u8>| {
                check(e == !odd, "is_even");
                match r {
                    Ok(w) => { check(!odd, "even of an odd value"); eq32(w, v, "even") }
                    Err(e) => { check(odd, "even of an even value"); eq32(e as u32, 3, "exception of an odd value") }
                }
            };
            check_even(v.is_even(), v.even());
            check_even(Wrapping(v).is_even(), Wrapping(v).even().map(|x| x.0));
            check_even((v as usize).is_even(), (v as usize).even().map(|x| x as u32));
        }
        2 => {
            let w = [any16(), any16(), any16()];
            let l = (w[0] as u32) << 16 | w[1] as u32;
            let s = &w[..];
            eq32(s.u32_be(), l, "long");
            eq32(s.i32_be_sized(Size::Byte) as u32, w[0] as u8 as i8 as i32 as u32, "byte");
            eq32(s.i32_be_sized(Size::Word) as u32, w[0] as i16 as i32 as u32, "word");
            eq32(s.i32_be_sized(Size::Long) as u32, l, "signed long");
            let mut t = s;
            for i in 0..3 {
                eq32(t.get_next_word() as u32, w[i] as u32, "next word");
                eq32(t.len() as u32, 2 - i as u32, "words left");
            }
        }
        3 => {
            let c = anyb();
            match p {
                0 => carries!(u8, 8, false, c),
                1 => carries!(i8, 8, true, c),
                2 => carries!(u16, 16, false, c),
                3 => carries!(i16, 16, true, c),
                4 => carries!(u32, 32, false, c),
                _ => carries!(i32, 32, true, c),
            }
        }
        4 => {
            for (i, s) in SIZES.into_iter().enumerate() {
                check(s.is_byte() == (i == 0) && s.is_word() == (i == 1) && s.is_long() == (i == 2), "size");
                check(s.as_word_long() == if i == 0 { Size::Word } else { s }, "word or long");
                eq32(s.into_move() as u32, [1, 3, 2][i], "size of MOVE");
                check(Size::from_move(s.into_move()) == s, "size of MOVE");
                if i > 0 {
                    eq32(s.into_bit() as u32, i as u32 - 1, "size bit");
                    check(Size::from_bit(i == 2) == s, "size bit");
                }
            }
        }
        5 => {
            let (am, m, r) = mode(p);
            check(am.is_drd() == (m == 0), "is_drd");
            check(am.is_ard() == (m == 1), "is_ard");
            check(am.is_dard() == (m < 2), "is_dard");
            check(am.is_ariwpo() == (m == 3), "is_ariwpo");
            check(am.is_ariwpr() == (m == 4), "is_ariwpr");
            check(am.is_immediate() == (p == 11), "is_immediate");
            match am.register() {
                Some(x) => { check(m < 7, "register of a mode without register"); eq32(x as u32, r, "register") }
                None => check(m == 7, "register of a mode with register"),
            }
            // The lists of modes and registers: two of each.
            let (modes, regs) = ([any8(), any8()], [any8(), any8()]);
            let has = |l: &[u8; 2], x: u32| (l[0] as u32 == x) | (l[1] as u32 == x);
            let e = has(&modes, m) & if m < 7 { r <= 7 } else { has(&regs, r) };
            check(am.verify(&modes, &regs) == e, "verify");
            check(!am.verify(&[], &regs), "verify without mode");
        }
        6 => {
            let (a, r, l, d) = (anyb(), any8(), anyb(), any8() as i8);
            panic_ok(if split(r > 7) { 2 } else { 0 });
            let w = BriefExtensionWord::new(a, r, l, d);
            cover("built");
            eq32(w.0 as u32, (a as u32) << 15 | (r as u32) << 12 | (l as u32) << 11 | d as u8 as u32, "brief extension word");
            check(w.disp() == d, "displacement");
            let v = any16();
            eq32(BriefExtensionWord(v).disp() as i32 as u32, v as u8 as i8 as i32 as u32, "displacement of any word");
        }
        7 => {
            let op = (p as u16) << 8 | any8() as u16;
            note("opcode", op as u64);
            let k = classify(op) as u32;
            let mut e = false;
            for x in [K::Andisr, K::Eorisr, K::Orisr, K::Movesr, K::Moveusp, K::Reset, K::Rte, K::Stop] { e |= k == x as u32 }
            check(Isa::from(op).is_privileged() == e, "privileged instruction");
        }
        8 => {
            let (a, b, c) = (any8(), any8(), any8());
            let (x, y, z) = (Exception::from(a), Exception::from(b), Exception::from(c));
            eq32(x.vector as u32, a as u32, "vector");
            check(x.is_interrupt() == (level(a as u32) != 0), "is_interrupt");
            let less = |p: &Exception, q: &Exception| p.cmp(q) == Ordering::Less;
            check((x == y) == (a == b), "equality");
            check((x.cmp(&y) == Ordering::Equal) == (a == b), "equal order");
            check(less(&x, &y) == (y.cmp(&x) == Ordering::Greater), "antisymmetry of the order");
            check(!less(&x, &y) | !less(&y, &z) | less(&x, &z), "transitivity of the order");
            check(x.partial_cmp(&y) == Some(x.cmp(&y)), "partial order");
        }
        9 => {
            let v = [(Vector::ResetSspPc, 0), (Vector::AccessError, 2), (Vector::AddressError, 3), (Vector::IllegalInstruction, 4), (Vector::ZeroDivide, 5), (Vector::ChkInstruction, 6),
                (Vector::TrapVInstruction, 7), (Vector::PrivilegeViolation, 8), (Vector::Trace, 9), (Vector::LineAEmulator, 10), (Vector::LineFEmulator, 11), (Vector::FormatError, 14),
                (Vector::UninitializedInterrupt, 15), (Vector::SpuriousInterrupt, 24), (Vector::Level1Interrupt, 25), (Vector::Level7Interrupt, 31), (Vector::Trap0Instruction, 32),
                (Vector::Trap15Instruction, 47), (Vector::Level1OnChipInterrupt, 57), (Vector::Level7OnChipInterrupt, 63), (Vector::UserInterrupt, 64)];
            for (v, n) in v { check(Exception::from(v) == Exception::from(n), "vector number") }
        }
        _ => {
            let sr = StatusRegister::from(any16());
            let r = Registers::with_sr(sr);
            check(u16::from(r.sr) == u16::from(sr), "status register");
            let mut z = r.pc.0 | r.usp.0 | r.ssp.0;
            for d in r.d { z |= d.0 }
            for a in r.a { z |= a.0 }
            eq32(z, 0, "other registers");
        }
    }
    cover("done");
}
