//! Instruction execution times. MC68000: MC68000UM section 8. SCC68070: the figures of the pinned source tree, for which no manual is at hand;
//! for it the check establishes the composition of the times, and that the figures do not change.

use crate::oracle::*;

/// Effective address calculation.
fn ea(p: &dyn Fn(u32, u32) -> u32, mode: u32, reg: u32, long: bool) -> u32 {
    let t = match mode {
        0 | 1 => return 0,
        2 | 3 => p(4, 4),
        4 => p(6, 7),
        5 => p(8, 11),
        6 => p(10, 14),
        _ => match reg { 0 => p(8, 8), 1 => p(12, 12), 2 => p(8, 11), 3 => p(10, 14), _ => p(4, 4) },
    };
    t + if long { 4 } else { 0 }
}

/// Column of the control addressing modes: (An), d16, d8, xxx.W, xxx.L, d16PC, d8PC.
fn ctl(mode: u32, reg: u32) -> usize { match mode { 2 | 3 | 4 => 0, 5 => 1, 6 => 2, _ => match reg { 0 => 3, 1 => 4, 2 => 5, _ => 6 } } }

/// The time of the instruction the model has just executed.
pub fn time(o: &O) -> u32 {
    let scc = o.scc;
    let p = |m: u32, s: u32| if scc { s } else { m };
    let op = o.op;
    let k: K = unsafe { core::mem::transmute(o.k) };
    let mode = op >> 3 & 7;
    let reg = op & 7;
    let opm = op >> 6 & 7;
    let ss = match op >> 6 & 3 { 0 => 1, 1 => 2, _ => 4 };
    let long = ss == 4;
    let rd = mode < 2;
    let rdimm = rd || mode == 7 && reg == 4;
    let e = |l: bool| ea(&p, mode, reg, l);
    let rl = |regbw: u32, regl: u32, membw: u32, meml: u32| e(long) + if rd { if long { regl } else { regbw } } else if long { meml } else { membw };
    match k {
        K::Abcd | K::Sbcd => if op & 8 == 0 { p(6, 10) } else { p(18, 31) },
        K::Add | K::Sub | K::And | K::Or => e(long) + if op & 0x100 != 0 { if long { p(12, 15) } else { p(8, 11) } }
            else if !long { p(4, 7) } else if rdimm { p(8, 7) } else { p(6, 7) },
        K::Adda | K::Suba => { let l = op & 0x100 != 0; e(l) + if !l { p(8, 7) } else if rdimm { p(8, 7) } else { p(6, 7) } }
        K::Cmpa => e(op & 0x100 != 0) + p(6, 7),
        K::Cmp => e(long) + if long { p(6, 7) } else { p(4, 7) },
        K::Eor => rl(p(4, 7), p(8, 7), p(8, 11), p(12, 15)),
        K::Addi | K::Subi | K::Eori | K::Ori => rl(p(8, 14), p(16, 18), p(12, 18), p(20, 26)),
        K::Andi => rl(p(8, 14), p(14, 18), p(12, 18), p(20, 26)),
        K::Cmpi => rl(p(8, 14), p(14, 18), p(8, 14), p(12, 18)),
        K::Addq => rl(p(4, 7), p(8, 7), p(8, 11), p(12, 15)),
        K::Subq => if mode == 1 { p(8, 7) } else { rl(p(4, 7), p(8, 7), p(8, 11), p(12, 15)) },
        K::Addx | K::Subx => if op & 8 == 0 { if long { p(8, 7) } else { p(4, 7) } } else if long { p(30, 40) } else { p(18, 28) },
        K::Cmpm => if long { p(20, 26) } else { p(12, 18) },
        K::Clr => rl(p(4, 7), p(6, 7), p(8, 7), p(12, 7)),
        K::Neg | K::Negx | K::Not => rl(p(4, 7), p(6, 7), p(8, 11), p(12, 15)),
        K::Tst => rl(p(4, 7), p(4, 7), p(4, 7), p(4, 7)),
        K::Nbcd => e(false) + if rd { p(6, 10) } else { p(8, 14) },
        K::Tas => e(false) + if rd { p(4, 10) } else { p(14, 11) },
        K::Scc => e(false) + if rd { if o.taken { p(6, 13) } else { p(4, 13) } } else if o.taken { p(8, 14) } else { p(8, 17) },
        K::Asm | K::Lsm | K::Rom | K::Roxm => e(false) + p(8, 14),
        K::Asr | K::Lsr | K::Ror | K::Roxr => (if long { p(8, 13) } else { p(6, 13) }) + o.count * p(2, 3),
        K::Bchg | K::Bset => if op & 0x100 != 0 { if rd { p(8, 10) } else { e(false) + p(8, 14) } } else if rd { p(12, 17) } else { e(false) + p(12, 21) },
        K::Bclr => if op & 0x100 != 0 { if rd { p(10, 10) } else { e(false) + p(8, 14) } } else if rd { p(14, 17) } else { e(false) + p(12, 21) },
        K::Btst => if op & 0x100 != 0 { if rd { p(6, 7) } else { e(false) + p(4, 7) } } else if rd { p(10, 14) } else { e(false) + p(8, 14) },
        K::Bra => if op & 0xFF != 0 { p(10, 13) } else { p(10, 14) },
        K::Bsr => if op & 0xFF != 0 { p(18, 17) } else { p(18, 22) },
        K::Bcc => if o.taken { p(10, 13) } else if op & 0xFF != 0 { p(8, 14) } else { p(12, 14) },
        K::Dbcc => if o.taken { p(12, 14) } else if o.looped { p(10, 17) } else { p(14, 17) },
        K::Chk => e(false) + p(10, 19),
        K::Divs => e(false) + p(158, 169),
        K::Divu => e(false) + p(140, 130),
        K::Muls | K::Mulu => e(false) + p(70, 76),
        K::Exg => p(6, 13),
        K::Ext | K::Swap => p(4, 7),
        K::Andiccr | K::Andisr | K::Eoriccr | K::Eorisr | K::Oriccr | K::Orisr => p(20, 14),
        K::Jmp => [p(8, 7), p(10, 14), p(14, 17), p(10, 14), p(12, 18), p(10, 14), p(14, 17)][ctl(mode, reg)],
        K::Jsr => [p(16, 18), p(18, 25), p(22, 28), p(18, 25), p(20, 29), p(18, 25), p(22, 28)][ctl(mode, reg)],
        K::Lea => [p(4, 7), p(8, 14), p(12, 17), p(8, 14), p(12, 18), p(8, 14), p(12, 17)][ctl(mode, reg)],
        K::Pea => [p(12, 18), p(16, 25), p(20, 28), p(16, 25), p(20, 29), p(16, 25), p(20, 28)][ctl(mode, reg)],
        K::Link => p(16, 25),
        K::Unlk => p(12, 15),
        K::Move => {
            let l = mv_size(op) == 4;
            e(l) + ea(&p, opm, op >> 9 & 7, l) + if opm == 4 { p(2, 7) } else { p(4, 7) }
        }
        K::Movea => e(mv_size(op) == 4) + p(4, 7),
        K::Moveccr | K::Movesr => e(false) + p(12, 10),
        K::Movefsr => e(false) + if rd { p(6, 7) } else { p(8, 11) },
        K::Moveusp | K::Moveq | K::Nop => p(4, 7),
        K::Movem => {
            let base = [p(8, 23), p(12, 27), p(14, 30), p(12, 27), p(16, 31), p(12, 27), p(14, 30)][ctl(mode, reg)];
            base + (if op & 0x400 != 0 { p(4, 3) } else { 0 }) + o.count * if op & 0x40 != 0 { p(8, 11) } else { p(4, 7) }
        }
        K::Movep => if op & 0x80 != 0 { if op & 0x40 != 0 { p(24, 39) } else { p(16, 25) } } else if op & 0x40 != 0 { p(24, 36) } else { p(16, 22) },
        K::Reset => p(132, 154),
        K::Rte => { let long = o.long_frame; p(20, if long { 140 } else { 39 }) }
        K::Rtr => p(20, 22),
        K::Rts => p(16, 15),
        K::Stop => p(4, 13),
        K::Trapv => p(4, 10),
        K::Unknown | K::Illegal | K::Trap => 0,
    }
}

/// The time that an instruction ended by a CHK or zero divide exception spends on its operand (the exception itself counts apart).
pub fn operand_time(o: &O) -> u32 {
    let scc = o.scc;
    let p = |m: u32, s: u32| if scc { s } else { m };
    ea(&p, o.op >> 3 & 7, o.op & 7, false)
}

/// The time of exception processing, for the vectors that the manual lists.
pub fn exception_time(vector: u32, scc: bool) -> u32 {
    let p = |m: u32, s: u32| if scc { s } else { m };
    match vector {
        0 => p(40, 43),
        2 | 3 => p(50, 158),
        5 => p(38, 64),
        6 => p(40, 64),
        4 | 7..=9 => p(34, 55),
        24..=31 => p(44, 65),
        32..=47 => p(34, 52),
        _ => unreachable!(),
    }
}
