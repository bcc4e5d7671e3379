//! Reference model of the 68000, written from the M68000 Programmer's Reference Manual and the MC68000 User's Manual.
//! Nothing here is derived from the code under test. Written without needless branches, to keep symbolic paths few.

use crate::rt::*;

/// Instruction classes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Unknown, Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, Bchg, Bclr, Bra, Bset, Bsr, Btst, Chk, Clr, Cmp, Cmpa,
    Cmpi, Cmpm, Dbcc, Divs, Divu, Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal, Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea, Moveccr, Movefsr,
    Movesr, Moveusp, Movem, Movep, Moveq, Muls, Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori, Oriccr, Orisr, Pea, Reset, Rom, Ror, Roxm, Roxr, Rte,
    Rtr, Rts, Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk,
}

/// The class of an instruction name of the code under test.
pub fn k_of(i: m68000::isa::Isa) -> u32 {
    use m68000::isa::Isa;
    (match i {
        Isa::Unknown => K::Unknown,
        Isa::Abcd => K::Abcd,
        Isa::Add => K::Add,
        Isa::Adda => K::Adda,
        Isa::Addi => K::Addi,
        Isa::Addq => K::Addq,
        Isa::Addx => K::Addx,
        Isa::And => K::And,
        Isa::Andi => K::Andi,
        Isa::Andiccr => K::Andiccr,
        Isa::Andisr => K::Andisr,
        Isa::Asm => K::Asm,
        Isa::Asr => K::Asr,
        Isa::Bcc => K::Bcc,
        Isa::Bchg => K::Bchg,
        Isa::Bclr => K::Bclr,
        Isa::Bra => K::Bra,
        Isa::Bset => K::Bset,
        Isa::Bsr => K::Bsr,
        Isa::Btst => K::Btst,
        Isa::Chk => K::Chk,
        Isa::Clr => K::Clr,
        Isa::Cmp => K::Cmp,
        Isa::Cmpa => K::Cmpa,
        Isa::Cmpi => K::Cmpi,
        Isa::Cmpm => K::Cmpm,
        Isa::Dbcc => K::Dbcc,
        Isa::Divs => K::Divs,
        Isa::Divu => K::Divu,
        Isa::Eor => K::Eor,
        Isa::Eori => K::Eori,
        Isa::Eoriccr => K::Eoriccr,
        Isa::Eorisr => K::Eorisr,
        Isa::Exg => K::Exg,
        Isa::Ext => K::Ext,
        Isa::Illegal => K::Illegal,
        Isa::Jmp => K::Jmp,
        Isa::Jsr => K::Jsr,
        Isa::Lea => K::Lea,
        Isa::Link => K::Link,
        Isa::Lsm => K::Lsm,
        Isa::Lsr => K::Lsr,
        Isa::Move => K::Move,
        Isa::Movea => K::Movea,
        Isa::Moveccr => K::Moveccr,
        Isa::Movefsr => K::Movefsr,
        Isa::Movesr => K::Movesr,
        Isa::Moveusp => K::Moveusp,
        Isa::Movem => K::Movem,
        Isa::Movep => K::Movep,
        Isa::Moveq => K::Moveq,
        Isa::Muls => K::Muls,
        Isa::Mulu => K::Mulu,
        Isa::Nbcd => K::Nbcd,
        Isa::Neg => K::Neg,
        Isa::Negx => K::Negx,
        Isa::Nop => K::Nop,
        Isa::Not => K::Not,
        Isa::Or => K::Or,
        Isa::Ori => K::Ori,
        Isa::Oriccr => K::Oriccr,
        Isa::Orisr => K::Orisr,
        Isa::Pea => K::Pea,
        Isa::Reset => K::Reset,
        Isa::Rom => K::Rom,
        Isa::Ror => K::Ror,
        Isa::Roxm => K::Roxm,
        Isa::Roxr => K::Roxr,
        Isa::Rte => K::Rte,
        Isa::Rtr => K::Rtr,
        Isa::Rts => K::Rts,
        Isa::Sbcd => K::Sbcd,
        Isa::Scc => K::Scc,
        Isa::Stop => K::Stop,
        Isa::Sub => K::Sub,
        Isa::Suba => K::Suba,
        Isa::Subi => K::Subi,
        Isa::Subq => K::Subq,
        Isa::Subx => K::Subx,
        Isa::Swap => K::Swap,
        Isa::Tas => K::Tas,
        Isa::Trap => K::Trap,
        Isa::Trapv => K::Trapv,
        Isa::Tst => K::Tst,
        Isa::Unlk => K::Unlk,
        _ => return 0xFF,
    }) as u32
}

// Addressing categories (PRM table 2-4).
const DATA: u8 = 1;
const MEMORY: u8 = 2;
const CONTROL: u8 = 4;
const ALTERABLE: u8 = 8;
const DA: u8 = DATA | ALTERABLE;
const MA: u8 = MEMORY | ALTERABLE;
const CA: u8 = CONTROL | ALTERABLE;
const ALL: u8 = 0;

fn cat(mode: u16, reg: u16) -> u8 {
    match mode {
        0 => DATA | ALTERABLE,
        1 => ALTERABLE,
        3 | 4 => DATA | MEMORY | ALTERABLE,
        2 | 5 | 6 => DATA | MEMORY | CONTROL | ALTERABLE,
        _ => match reg {
            0 | 1 => DATA | MEMORY | CONTROL | ALTERABLE,
            2 | 3 => DATA | MEMORY | CONTROL,
            4 => DATA | MEMORY,
            _ => 0,
        },
    }
}

/// True if the mode and register denote an effective address that has all the given categories.
fn is(mode: u16, reg: u16, want: u8) -> bool {
    let c = cat(mode, reg);
    c != 0 && c & want == want
}

/// The instruction denoted by an opcode on a 68000.
pub fn classify(op: u16) -> K {
    let mode = op >> 3 & 7;
    let reg = op & 7;
    let ss = op >> 6 & 3;
    let hi = op >> 9 & 7;
    let opm = op >> 6 & 7;
    let e = |w: u8| is(mode, reg, w);
    let sel = |c: bool, k: K| if c { k } else { K::Unknown };
    match op >> 12 {
        0 => {
            if op & 0x100 != 0 {
                if mode == 1 { return K::Movep }
                return match ss { 0 => sel(e(DATA), K::Btst), 1 => sel(e(DA), K::Bchg), 2 => sel(e(DA), K::Bclr), _ => sel(e(DA), K::Bset) };
            }
            if hi == 4 {
                return match ss {
                    0 => sel(e(DATA) && !(mode == 7 && reg == 4), K::Btst),
                    1 => sel(e(DA), K::Bchg), 2 => sel(e(DA), K::Bclr), _ => sel(e(DA), K::Bset),
                };
            }
            if ss == 3 || hi == 7 { return K::Unknown }
            if op & 0x3F == 0x3C {
                return match (hi, ss) {
                    (0, 0) => K::Oriccr, (0, 1) => K::Orisr, (1, 0) => K::Andiccr, (1, 1) => K::Andisr, (5, 0) => K::Eoriccr, (5, 1) => K::Eorisr,
                    _ => K::Unknown,
                };
            }
            if !e(DA) { return K::Unknown }
            match hi { 0 => K::Ori, 1 => K::Andi, 2 => K::Subi, 3 => K::Addi, 5 => K::Eori, _ => K::Cmpi }
        }
        1 | 2 | 3 => {
            let byte = op >> 12 == 1;
            if !e(ALL) || byte && mode == 1 { return K::Unknown }
            if opm == 1 { return sel(!byte, K::Movea) }
            sel(is(opm, hi, DA), K::Move)
        }
        4 => {
            if op & 0x100 != 0 {
                return match ss { 2 => sel(e(DATA), K::Chk), 3 => sel(e(CONTROL), K::Lea), _ => K::Unknown };
            }
            match hi {
                0 => if ss == 3 { sel(e(DA), K::Movefsr) } else { sel(e(DA), K::Negx) },
                1 => if ss == 3 { K::Unknown } else { sel(e(DA), K::Clr) },
                2 => if ss == 3 { sel(e(DATA), K::Moveccr) } else { sel(e(DA), K::Neg) },
                3 => if ss == 3 { sel(e(DATA), K::Movesr) } else { sel(e(DA), K::Not) },
                4 => match ss {
                    0 => sel(e(DA), K::Nbcd),
                    1 => if mode == 0 { K::Swap } else { sel(e(CONTROL), K::Pea) },
                    _ => if mode == 0 { K::Ext } else { sel(e(CA) || mode == 4, K::Movem) },
                },
                5 => if op == 0x4AFC { K::Illegal } else if ss == 3 { sel(e(DA), K::Tas) } else { sel(e(DA), K::Tst) },
                6 => if ss < 2 { K::Unknown } else { sel(e(CONTROL) || mode == 3, K::Movem) },
                _ => match ss {
                    0 => K::Unknown,
                    2 => sel(e(CONTROL), K::Jsr),
                    3 => sel(e(CONTROL), K::Jmp),
                    _ => match mode {
                        0 | 1 => K::Trap,
                        2 => K::Link,
                        3 => K::Unlk,
                        4 | 5 => K::Moveusp,
                        6 => match reg { 0 => K::Reset, 1 => K::Nop, 2 => K::Stop, 3 => K::Rte, 5 => K::Rts, 6 => K::Trapv, 7 => K::Rtr, _ => K::Unknown },
                        _ => K::Unknown,
                    },
                },
            }
        }
        5 => {
            if ss == 3 { return if mode == 1 { K::Dbcc } else { sel(e(DA), K::Scc) } }
            if !e(ALTERABLE) || mode == 1 && ss == 0 { return K::Unknown }
            if op & 0x100 == 0 { K::Addq } else { K::Subq }
        }
        6 => match op >> 8 & 15 { 0 => K::Bra, 1 => K::Bsr, _ => K::Bcc },
        7 => sel(op & 0x100 == 0, K::Moveq),
        8 => match opm {
            3 => sel(e(DATA), K::Divu),
            7 => sel(e(DATA), K::Divs),
            0 | 1 | 2 => sel(e(DATA), K::Or),
            _ => if mode < 2 { sel(opm == 4, K::Sbcd) } else { sel(e(MA), K::Or) },
        },
        9 | 13 => {
            let sub = op >> 12 == 9;
            match opm {
                3 | 7 => sel(e(ALL), if sub { K::Suba } else { K::Adda }),
                0 | 1 | 2 => sel(e(ALL) && !(mode == 1 && opm == 0), if sub { K::Sub } else { K::Add }),
                _ => if mode < 2 { if sub { K::Subx } else { K::Addx } } else { sel(e(MA), if sub { K::Sub } else { K::Add }) },
            }
        }
        11 => match opm {
            3 | 7 => sel(e(ALL), K::Cmpa),
            0 | 1 | 2 => sel(e(ALL) && !(mode == 1 && opm == 0), K::Cmp),
            _ => if mode == 1 { K::Cmpm } else { sel(e(DA), K::Eor) },
        },
        12 => match opm {
            3 => sel(e(DATA), K::Mulu),
            7 => sel(e(DATA), K::Muls),
            0 | 1 | 2 => sel(e(DATA), K::And),
            _ => if mode < 2 {
                match (opm, mode) { (4, _) => K::Abcd, (5, _) => K::Exg, (6, 1) => K::Exg, _ => K::Unknown }
            } else { sel(e(MA), K::And) },
        },
        14 => {
            if ss == 3 {
                if op & 0x800 != 0 || !e(MA) { return K::Unknown }
                return match hi & 3 { 0 => K::Asm, 1 => K::Lsm, 2 => K::Roxm, _ => K::Rom };
            }
            match op >> 3 & 3 { 0 => K::Asr, 1 => K::Lsr, 2 => K::Roxr, _ => K::Ror }
        }
        _ => K::Unknown,
    }
}

/// The bits of the opcode that select registers, small data or conditions: the opcodes that differ only in them are explored
/// together, with these bits symbolic.
pub fn free_bits(op: u16) -> u16 {
    let k = classify(op);
    let ea = if op >> 3 & 7 != 7 { 7 } else { 0 };
    match k {
        K::Unknown => if op >> 12 == 10 || op >> 12 == 15 { 0x0FFF } else { 0 },
        K::Moveq => 0x0EFF,
        K::Trap => 0xF,
        K::Bcc | K::Bra | K::Bsr => 0xFF,
        K::Dbcc => 0xF07,
        K::Scc => 0xF00 | ea,
        K::Link | K::Unlk | K::Moveusp | K::Swap | K::Ext => 7,
        K::Nop | K::Reset | K::Stop | K::Rte | K::Rtr | K::Rts | K::Trapv | K::Illegal => 0,
        K::Oriccr | K::Orisr | K::Andiccr | K::Andisr | K::Eoriccr | K::Eorisr => 0,
        K::Abcd | K::Sbcd | K::Addx | K::Subx | K::Cmpm | K::Exg | K::Movep => 0xE07,
        K::Asr | K::Lsr | K::Ror | K::Roxr => 0xE07,
        K::Move => (if op >> 6 & 7 != 7 { 0xE00 } else { 0 }) | ea,
        K::Movea | K::Add | K::Adda | K::Addq | K::And | K::Chk | K::Cmp | K::Cmpa | K::Divs | K::Divu | K::Eor | K::Lea | K::Muls | K::Mulu | K::Or
        | K::Sub | K::Suba | K::Subq => 0xE00 | ea,
        K::Bchg | K::Bclr | K::Bset | K::Btst => if op & 0x100 != 0 { 0xE00 | ea } else { ea },
        _ => ea,
    }
}

pub fn privileged(k: K) -> bool { matches!(k, K::Andisr | K::Eorisr | K::Orisr | K::Movesr | K::Moveusp | K::Reset | K::Rte | K::Stop) }

#[derive(Clone, Copy)]
pub enum Ea { D(u32), A(u32), M(u32), I(u32) }

/// No exception.
pub const NONE: u32 = 0x100;

#[derive(Clone)]
pub struct O {
    pub d: [u32; 8],
    pub a: [u32; 7],
    /// The active stack pointer (A7).
    pub sp: u32,
    /// The stack pointer of the other mode.
    pub other_sp: u32,
    pub t: bool, pub s: bool, pub im: u32, pub x: bool, pub n: bool, pub z: bool, pub v: bool, pub c: bool,
    pub pc: u32,
    pub stop: bool,
    pub resets: u32,

    pub mem: u32,
    pub faults: bool,
    /// SCC68070 stack frames.
    pub scc: bool,

    /// First fault among the accesses of the instruction: 0, 2 (refused by the memory) or 3 (odd address).
    pub fault: u32,
    /// Kinds of faults seen among all the accesses of the instruction (bit 0: refused, bit 1: odd).
    pub kinds: u32,
    /// The fault happened when fetching an extension word.
    pub ext_fault: bool,
    pub ext_words: u32,
    /// Words and bytes read and written by the instruction itself, and those a read before a write would add.
    pub reads: u32,
    pub writes: u32,
    pub dummies: u32,
    /// CCR bits the manual leaves undefined for this execution.
    pub undef_ccr: u32,
    /// The result is not specified by the manual: only look at the exception.
    pub unspecified: bool,
    /// The memory contents may differ.
    pub mem_unspecified: bool,
    /// Index of an address register whose value is not specified (8: none).
    pub areg_unspecified: u32,
    /// Index of a data register whose low byte is not specified (8: none).
    pub free_d: u32,
    pub bad_bcd: bool,
    /// An address error is accepted: MOVEM of no register at an odd address.
    pub lenient3: bool,
    /// A read that the hardware does but that has no use (destination of CLR, Scc, MOVE from SR) is refused by the memory.
    pub dummy_fault: bool,
    /// Condition of Bcc, DBcc and Scc, and loop taken of DBcc.
    pub taken: bool,
    pub looped: bool,
    /// Shift count, number of registers of MOVEM.
    pub count: u32,
    pub long_frame: bool,
    pub k: u8,
    pub exc: u32,
    pub op: u32,
}

impl O {
    pub fn ccr(&self) -> u32 { (self.x as u32) << 4 | (self.n as u32) << 3 | (self.z as u32) << 2 | (self.v as u32) << 1 | self.c as u32 }
    pub fn sr(&self) -> u32 { (self.t as u32) << 15 | (self.s as u32) << 13 | (self.im & 7) << 8 | self.ccr() }
    pub fn set_ccr(&mut self, v: u32) {
        self.x = v & 16 != 0; self.n = v & 8 != 0; self.z = v & 4 != 0; self.v = v & 2 != 0; self.c = v & 1 != 0;
    }
    pub fn set_s(&mut self, s: bool) {
        let sw = s != self.s;
        let (p, q) = (self.sp, self.other_sp);
        self.sp = ite32(sw, q, p);
        self.other_sp = ite32(sw, p, q);
        self.s = s;
    }
    pub fn set_sr(&mut self, v: u32) {
        self.t = v & 0x8000 != 0;
        self.set_s(v & 0x2000 != 0);
        self.im = v >> 8 & 7;
        self.set_ccr(v);
    }
    pub fn usp(&self) -> u32 { ite32(self.s, self.other_sp, self.sp) }
    pub fn ssp(&self) -> u32 { ite32(self.s, self.sp, self.other_sp) }
    fn areg(&self, r: u32) -> u32 { self.ga((r & 7) as usize) }
    /// Address register i.
    fn ga(&self, i: usize) -> u32 { if split(i == 7) { self.sp } else { unsafe { *self.a.get_unchecked(i) } } }
    fn sa(&mut self, i: usize, v: u32) { if split(i == 7) { self.sp = v } else { unsafe { *self.a.get_unchecked_mut(i) = v } } }
    fn dreg(&self, r: u32) -> u32 { self.d[(r & 7) as usize] }

    // ---- accesses ----

    fn chk(&mut self, addr: u32, size: u32, kind: u32) {
        let odd = size > 1 && addr & 1 != 0;
        let mut bad = false;
        if self.faults { bad = !valid(kind, addr) | (size == 4 && !valid(kind, addr.wrapping_add(2))) }
        let f = ite32(odd, 3, ite32(bad, 2, 0));
        self.kinds |= (odd as u32) << 1 | (bad & !odd) as u32;
        self.fault = ite32(self.fault != 0, self.fault, f);
    }
    pub fn rd(&mut self, addr: u32, size: u32) -> u32 {
        let addr = canon(addr);
        self.reads += (size + 1) / 2;
        self.chk(addr, size, RD);
        match size {
            1 => read_byte(self.mem, addr) as u32,
            2 => mem_read(self.mem, addr) as u32,
            _ => read_long(self.mem, addr),
        }
    }
    pub fn wr(&mut self, addr: u32, size: u32, v: u32) {
        let addr = canon(addr);
        self.writes += (size + 1) / 2;
        self.chk(addr, size, WR);
        match size {
            1 => write_byte(self.mem, addr, v as u8),
            2 => mem_write(self.mem, addr, v as u16),
            _ => { mem_write(self.mem, addr, (v >> 16) as u16); mem_write(self.mem, addr.wrapping_add(2), v as u16) }
        }
    }
    fn fetch(&mut self) -> u32 {
        if self.faults { self.ext_fault |= !valid(RD, self.pc) }
        let v = mem_read(self.mem, self.pc) as u32;
        self.pc = self.pc.wrapping_add(2);
        self.ext_words += 1;
        v
    }
    fn fetch_long(&mut self) -> u32 { let h = self.fetch(); h << 16 | self.fetch() }
    fn push(&mut self, size: u32, v: u32) {
        self.sp = self.sp.wrapping_sub(size);
        self.wr(self.sp, size, v)
    }
    fn pop(&mut self, size: u32) -> u32 {
        let p = self.sp;
        self.sp = p.wrapping_add(size);
        self.rd(p, size)
    }

    // ---- effective addresses ----

    fn index(&mut self, base: u32) -> u32 {
        let w = self.fetch();
        let r = w >> 12 & 7;
        let v = if split(w & 0x8000 != 0) { self.areg(r) } else { self.dreg(r) };
        let v = if split(w & 0x800 != 0) { v } else { sx(2, v) };
        base.wrapping_add(v).wrapping_add(sx(1, w))
    }
    /// Steps of (An)+ and -(An): bytes move the stack pointer by two.
    fn step_of(&self, r: u32, size: u32) -> u32 { if size == 1 && split(r & 7 == 7) { 2 } else { size } }
    fn ea(&mut self, mode: u32, reg: u32, size: u32) -> Ea {
        let i = (reg & 7) as usize;
        match mode {
            0 => Ea::D(reg),
            1 => Ea::A(reg),
            2 => Ea::M(self.ga(i)),
            3 => { let p = self.ga(i); self.sa(i, p.wrapping_add(self.step_of(reg, size))); Ea::M(p) }
            4 => { let p = self.ga(i).wrapping_sub(self.step_of(reg, size)); self.sa(i, p); Ea::M(p) }
            5 => { let b = self.ga(i); let w = self.fetch(); Ea::M(b.wrapping_add(sx(2, w))) }
            6 => { let b = self.ga(i); Ea::M(self.index(b)) }
            _ => match reg {
                0 => { let w = self.fetch(); Ea::M(sx(2, w)) }
                1 => Ea::M(self.fetch_long()),
                2 => { let b = self.pc; let w = self.fetch(); Ea::M(b.wrapping_add(sx(2, w))) }
                3 => { let b = self.pc; Ea::M(self.index(b)) }
                _ => if size == 4 { Ea::I(self.fetch_long()) } else { Ea::I(self.fetch()) },
            },
        }
    }
    fn addr(&mut self, mode: u32, reg: u32) -> u32 { match self.ea(mode, reg, 2) { Ea::M(a) => a, _ => 0 } }
    fn load(&mut self, e: Ea, size: u32) -> u32 {
        let v = match e { Ea::D(r) => self.dreg(r), Ea::A(r) => self.areg(r), Ea::I(v) => v, Ea::M(a) => return self.rd(a, size) };
        v & mask(size)
    }
    fn dummy(&mut self, e: Ea, size: u32) {
        if let Ea::M(_) = e { self.dummies += (size + 1) / 2 }
        if let Ea::M(a) = e { if self.faults { self.dummy_fault |= !valid(RD, a) | (size == 4 && !valid(RD, a.wrapping_add(2))) } }
    }
    fn set_d(&mut self, r: u32, size: u32, v: u32) {
        let m = mask(size);
        let i = (r & 7) as usize;
        self.d[i] = self.d[i] & !m | v & m;
    }
    fn store(&mut self, e: Ea, size: u32, v: u32) {
        match e {
            Ea::D(r) => self.set_d(r, size, v),
            Ea::A(r) => self.sa((r & 7) as usize, sx(size, v)),
            Ea::M(a) => self.wr(a, size, v),
            Ea::I(_) => {}
        }
    }

    // ---- flags ----

    fn nz(&mut self, size: u32, r: u32) { self.n = r & msb(size) != 0; self.z = r & mask(size) == 0; }
    fn logic(&mut self, size: u32, r: u32) { self.nz(size, r); self.v = false; self.c = false; }
    /// d + s + x
    fn add_f(&mut self, size: u32, d: u32, s: u32, x: bool) -> u32 {
        let (d, s) = (d & mask(size), s & mask(size));
        let full = d as u64 + s as u64 + x as u64;
        let r = full as u32 & mask(size);
        self.v = (d ^ r) & (s ^ r) & msb(size) != 0;
        self.c = full >> (size * 8) != 0;
        self.nz(size, r);
        r
    }
    /// d - s - x
    fn sub_f(&mut self, size: u32, d: u32, s: u32, x: bool) -> u32 {
        let (d, s) = (d & mask(size), s & mask(size));
        let r = d.wrapping_sub(s).wrapping_sub(x as u32) & mask(size);
        self.v = (d ^ s) & (d ^ r) & msb(size) != 0;
        self.c = (d as u64) < s as u64 + x as u64;
        self.nz(size, r);
        r
    }
    pub fn cond(&self, cc: u32) -> bool {
        let (n, z, v, c) = (self.n, self.z, self.v, self.c);
        match cc & 15 {
            0 => true, 1 => false, 2 => !c & !z, 3 => c | z, 4 => !c, 5 => c, 6 => !z, 7 => z, 8 => !v, 9 => v, 10 => !n, 11 => n,
            12 => n == v, 13 => n != v, 14 => !z & (n == v), _ => z | (n != v),
        }
    }

    /// Shifts and rotates of `v` by `n` (0 to 63). kind: 0 AS, 1 LS, 2 ROX, 3 RO.
    fn shift(&mut self, kind: u32, left: bool, size: u32, v: u32, n: u32) -> u32 {
        let w = size * 8;
        let v = v & mask(size);
        let vv = v as u64;
        let nonzero = n != 0;
        let r: u32;
        let out: bool;
        let mut over = false;
        match kind {
            0 | 1 if left => {
                let full = vv << (n & 63); // the bit shifted out last is bit w
                r = ite32(n < w + 1, full as u32, 0) & mask(size);
                out = n <= w && full >> w & 1 != 0;
                if kind == 0 {
                    // All the bits that pass through the sign position must equal the sign.
                    let top = !0u64 >> (63 - ite32(n < w, n, w - 1)); // n + 1 ones
                    let sh = w - 1 - ite32(n < w, n, w - 1);
                    let field = vv >> sh & top;
                    let same = field == 0 || (field == top && n < w);
                    over = !same;
                }
            }
            0 => {
                let sv = sx(size, v) as i32 as i64;
                let m = ite32(n < 63, n, 63);
                r = (sv >> m) as u32 & mask(size);
                out = nonzero && sv >> (m.wrapping_sub(1) & 63) & 1 != 0;
            }
            1 => {
                r = (vv >> (n & 63)) as u32;
                out = nonzero && vv >> (n.wrapping_sub(1) & 63) & 1 != 0;
            }
            2 => {
                // Rotation of the w + 1 bits made of X and the operand.
                let k = n % (w + 1);
                let b = (self.x as u64) << w | vv;
                let l = if left { k } else { (w + 1 - k) % (w + 1) };
                let rot = (b as u128) << l;
                let rot = (rot as u64 & ((1 << (w + 1)) - 1)) | (rot >> (w + 1)) as u64;
                r = rot as u32 & mask(size);
                out = rot >> w & 1 != 0;
            }
            _ => {
                let k = n & (w - 1);
                let l = if left { k } else { (w - k) & (w - 1) };
                let rot = vv << l;
                r = (rot | rot >> w) as u32 & mask(size);
                out = nonzero && if left { r & 1 != 0 } else { r & msb(size) != 0 };
            }
        }
        self.nz(size, r);
        self.v = over;
        match kind {
            2 => { self.x = out; self.c = out }
            3 => self.c = out,
            _ => { self.c = out; self.x = (nonzero & out) | (!nonzero & self.x) }
        }
        r
    }

    /// Decimal addition or subtraction of two valid BCD bytes.
    fn bcd(&mut self, d: u32, s: u32, add: bool) -> u32 {
        let valid = |b: u32| b & 15 < 10 && (b >> 4 & 15) < 10;
        self.bad_bcd = !(valid(d) & valid(s));
        // Digit by digit.
        let x = self.x as u32;
        let digit = |a: u32, b: u32, c: u32| if add {
            let t = a + b + c;
            let o = t > 9;
            (ite32(o, t.wrapping_sub(10), t) & 15, o)
        } else {
            let t = a.wrapping_sub(b).wrapping_sub(c) & 31;
            let o = t > 15;
            (ite32(o, t.wrapping_add(10), t) & 15, o)
        };
        let (lo, k) = digit(d & 15, s & 15, x);
        let (hi, c) = digit(d >> 4 & 15, s >> 4 & 15, k as u32);
        let r = hi << 4 | lo;
        self.x = c;
        self.c = c;
        if r != 0 { self.z = false }
        self.undef_ccr = ite32(self.bad_bcd, 0x1F, 0b01010);
        r
    }
    /// The result of a decimal operation on invalid digits is not defined.
    fn free_bcd(&mut self, e: Ea) {
        match e {
            Ea::D(r) => self.free_d = ite32(self.bad_bcd, r & 7, 8),
            _ => self.mem_unspecified = self.bad_bcd,
        }
    }

    /// Target of a change of flow.
    fn jump(&mut self, pc: u32) { self.pc = pc }

    // ---- one instruction ----

    /// Executes the instruction whose opcode is `op`, `pc` being just after the opcode.
    pub fn exec(&mut self, op: u16) {
        let k = classify(op);
        self.k = k as u8;
        self.op = op as u32;
        let start = self.pc.wrapping_sub(2);
        let op = op as u32;
        let mode = op >> 3 & 7;
        let reg = op & 7;
        let hi = op >> 9 & 7;
        let opm = op >> 6 & 7;
        let ss = match op >> 6 & 3 { 0 => 1, 1 => 2, _ => 4 };
        let traced = self.t;
        let mut exc = NONE;
        if privileged(k) && !self.s {
            // Extension words may or may not have been fetched: a refused one is not judged.
            if self.faults { self.ext_fault = !(valid(RD, self.pc) & valid(RD, self.pc.wrapping_add(2)) & valid(RD, self.pc.wrapping_add(4))) }
            self.pc = start;
            self.exc = 8;
            return;
        }
        match k {
            K::Unknown => exc = match op >> 12 { 10 => 10, 15 => 11, _ => 4 },
            K::Illegal => exc = 4,
            K::Abcd | K::Sbcd => {
                let (es, ed) = if op & 8 != 0 { let s = self.ea(4, reg, 1); (s, self.ea(4, hi, 1)) } else { (Ea::D(reg), Ea::D(hi)) };
                let s = self.load(es, 1);
                let d = self.load(ed, 1);
                let r = self.bcd(d, s, k == K::Abcd);
                self.free_bcd(ed);
                self.store(ed, 1, r);
            }
            K::Nbcd => {
                let e = self.ea(mode, reg, 1);
                let s = self.load(e, 1);
                let r = self.bcd(0, s, false);
                self.free_bcd(e);
                self.store(e, 1, r);
            }
            K::Add | K::Sub | K::And | K::Or => {
                let e = self.ea(mode, reg, ss);
                let to_ea = op & 0x100 != 0;
                let v = self.load(e, ss);
                let r = self.dreg(hi);
                let (d, s) = if to_ea { (v, r) } else { (r, v) };
                let r = match k {
                    K::Add => { let r = self.add_f(ss, d, s, false); self.x = self.c; r }
                    K::Sub => { let r = self.sub_f(ss, d, s, false); self.x = self.c; r }
                    K::And => { let r = d & s; self.logic(ss, r); r }
                    _ => { let r = d | s; self.logic(ss, r); r }
                };
                if to_ea { self.store(e, ss, r) } else { self.set_d(hi, ss, r) }
            }
            K::Eor => {
                let e = self.ea(mode, reg, ss);
                let v = self.load(e, ss);
                let r = v ^ self.dreg(hi);
                self.logic(ss, r);
                self.store(e, ss, r);
            }
            K::Adda | K::Suba | K::Cmpa => {
                let sz = if op & 0x100 != 0 { 4 } else { 2 };
                let e = self.ea(mode, reg, sz);
                let v = self.load(e, sz);
                let v = sx(sz, v);
                let i = (hi & 7) as usize;
                match k {
                    K::Adda => self.sa(i, self.ga(i).wrapping_add(v)),
                    K::Suba => self.sa(i, self.ga(i).wrapping_sub(v)),
                    _ => { let d = self.ga(i); self.sub_f(4, d, v, false); }
                }
            }
            K::Addi | K::Subi | K::Andi | K::Ori | K::Eori | K::Cmpi => {
                let imm = if ss == 4 { self.fetch_long() } else { self.fetch() };
                let e = self.ea(mode, reg, ss);
                let d = self.load(e, ss);
                let r = match k {
                    K::Addi => { let r = self.add_f(ss, d, imm, false); self.x = self.c; r }
                    K::Subi => { let r = self.sub_f(ss, d, imm, false); self.x = self.c; r }
                    K::Cmpi => self.sub_f(ss, d, imm, false),
                    K::Andi => { let r = d & imm; self.logic(ss, r); r }
                    K::Ori => { let r = d | imm; self.logic(ss, r); r }
                    _ => { let r = d ^ imm; self.logic(ss, r); r }
                };
                if k != K::Cmpi { self.store(e, ss, r) }
            }
            K::Addq | K::Subq => {
                let q = ite32(hi == 0, 8, hi);
                if mode == 1 {
                    let i = (reg & 7) as usize;
                    let v = self.ga(i); self.sa(i, if k == K::Addq { v.wrapping_add(q) } else { v.wrapping_sub(q) });
                } else {
                    let e = self.ea(mode, reg, ss);
                    let d = self.load(e, ss);
                    let r = if k == K::Addq { self.add_f(ss, d, q, false) } else { self.sub_f(ss, d, q, false) };
                    self.x = self.c;
                    self.store(e, ss, r);
                }
            }
            K::Addx | K::Subx => {
                let (es, ed) = if op & 8 != 0 { let s = self.ea(4, reg, ss); (s, self.ea(4, hi, ss)) } else { (Ea::D(reg), Ea::D(hi)) };
                let s = self.load(es, ss);
                let d = self.load(ed, ss);
                let z = self.z;
                let r = if k == K::Addx { self.add_f(ss, d, s, self.x) } else { self.sub_f(ss, d, s, self.x) };
                self.x = self.c;
                self.z &= z;
                self.store(ed, ss, r);
            }
            K::Cmp => {
                let e = self.ea(mode, reg, ss);
                let s = self.load(e, ss);
                let d = self.dreg(hi);
                self.sub_f(ss, d, s, false);
            }
            K::Cmpm => {
                let es = self.ea(3, reg, ss);
                let s = self.load(es, ss);
                let ed = self.ea(3, hi, ss);
                let d = self.load(ed, ss);
                self.sub_f(ss, d, s, false);
            }
            K::Neg | K::Negx | K::Not | K::Clr | K::Tst => {
                let e = self.ea(mode, reg, ss);
                if k == K::Clr {
                    self.dummy(e, ss);
                    self.n = false; self.z = true; self.v = false; self.c = false;
                    self.store(e, ss, 0);
                } else {
                    let d = self.load(e, ss);
                    match k {
                        K::Neg => { let r = self.sub_f(ss, 0, d, false); self.x = self.c; self.store(e, ss, r) }
                        K::Negx => { let z = self.z; let r = self.sub_f(ss, 0, d, self.x); self.x = self.c; self.z &= z; self.store(e, ss, r) }
                        K::Not => { let r = !d; self.logic(ss, r); self.store(e, ss, r) }
                        _ => self.logic(ss, d),
                    }
                }
            }
            K::Andiccr => { let i = self.fetch(); let v = self.ccr() & i; self.set_ccr(v) }
            K::Oriccr => { let i = self.fetch(); let v = self.ccr() | i & 0x1F; self.set_ccr(v) }
            K::Eoriccr => { let i = self.fetch(); let v = self.ccr() ^ i & 0x1F; self.set_ccr(v) }
            K::Andisr => { let i = self.fetch(); let v = self.sr() & i; self.set_sr(v) }
            K::Orisr => { let i = self.fetch(); let v = self.sr() | i; self.set_sr(v) }
            K::Eorisr => { let i = self.fetch(); let v = self.sr() ^ i; self.set_sr(v) }
            K::Asm | K::Lsm | K::Roxm | K::Rom => {
                let kind = match k { K::Asm => 0, K::Lsm => 1, K::Roxm => 2, _ => 3 };
                let e = self.ea(mode, reg, 2);
                let d = self.load(e, 2);
                let r = self.shift(kind, op & 0x100 != 0, 2, d, 1);
                self.store(e, 2, r);
            }
            K::Asr | K::Lsr | K::Roxr | K::Ror => {
                let kind = match k { K::Asr => 0, K::Lsr => 1, K::Roxr => 2, _ => 3 };
                let n = if op & 0x20 != 0 { self.dreg(hi) & 63 } else { ite32(hi == 0, 8, hi) };
                self.count = n;
                let d = self.dreg(reg);
                let r = self.shift(kind, op & 0x100 != 0, ss, d, n);
                self.set_d(reg, ss, r);
            }
            K::Bchg | K::Bclr | K::Bset | K::Btst => {
                let bit = if op & 0x100 != 0 { self.dreg(hi) } else { self.fetch() };
                let size = if mode == 0 { 4 } else { 1 };
                let e = self.ea(mode, reg, 1);
                let d = self.load(e, size);
                let m = 1u32 << (bit & if mode == 0 { 31 } else { 7 });
                self.z = d & m == 0;
                match k {
                    K::Bchg => self.store(e, size, d ^ m),
                    K::Bclr => self.store(e, size, d & !m),
                    K::Bset => self.store(e, size, d | m),
                    _ => {}
                }
            }
            K::Bra | K::Bsr | K::Bcc => {
                let base = self.pc;
                let disp = if op & 0xFF == 0 { let w = self.fetch(); sx(2, w) } else { sx(1, op) };
                let target = base.wrapping_add(disp);
                if k == K::Bsr { let ret = self.pc; self.push(4, ret) }
                let take = k != K::Bcc || self.cond(op >> 8);
                self.taken = take;
                let next = ite32(take, target, self.pc);
                self.jump(next);
            }
            K::Dbcc => {
                let base = self.pc;
                let w = self.fetch();
                let t = self.cond(op >> 8);
                let n = (self.dreg(reg) & 0xFFFF).wrapping_sub(1) & 0xFFFF;
                let i = (reg & 7) as usize;
                self.d[i] = ite32(t, self.d[i], self.d[i] & 0xFFFF_0000 | n);
                self.taken = t;
                self.looped = n != 0xFFFF;
                let next = ite32(!t & (n != 0xFFFF), base.wrapping_add(sx(2, w)), self.pc);
                self.jump(next);
            }
            K::Scc => {
                let e = self.ea(mode, reg, 1);
                self.dummy(e, 1);
                let t = self.cond(op >> 8);
                self.taken = t;
                let v = ite32(t, 0xFF, 0);
                self.store(e, 1, v);
            }
            K::Chk => {
                let e = self.ea(mode, reg, 2);
                let bound = sx(2, self.load(e, 2)) as i32;
                let d = sx(2, self.dreg(hi)) as i32;
                self.undef_ccr = 0b00111;
                if (d < 0) | (d > bound) { exc = 6; self.n = d < 0 } else { self.undef_ccr = 0b01111 }
            }
            K::Divs | K::Divu => {
                let e = self.ea(mode, reg, 2);
                let s = self.load(e, 2);
                let d = self.dreg(hi);
                if s == 0 {
                    exc = 5;
                    self.c = false;
                    self.undef_ccr = 0b01110;
                } else {
                    let (q, r, over) = if k == K::Divu {
                        let q = d / s;
                        (q, d % s, q > 0xFFFF)
                    } else {
                        let (d, s) = (d as i32, sx(2, s) as i32);
                        let q = d.wrapping_div(s);
                        (q as u32, d.wrapping_rem(s) as u32, (d == i32::MIN && s == -1) || q > 0x7FFF || q < -0x8000)
                    };
                    self.v = over;
                    self.c = false;
                    if over { self.undef_ccr = 0b01100; } else {
                        self.nz(2, q);
                        self.d[(hi & 7) as usize] = r << 16 | q & 0xFFFF;
                    }
                }
            }
            K::Muls | K::Mulu => {
                let e = self.ea(mode, reg, 2);
                let s = self.load(e, 2);
                let d = self.dreg(hi) & 0xFFFF;
                let r = if k == K::Mulu { s.wrapping_mul(d) } else { sx(2, s).wrapping_mul(sx(2, d)) };
                self.logic(4, r);
                self.d[(hi & 7) as usize] = r;
            }
            K::Exg => {
                let (i, j) = ((hi & 7) as usize, (reg & 7) as usize);
                match op >> 3 & 0x1F {
                    8 => { let t = self.d[i]; self.d[i] = self.d[j]; self.d[j] = t }
                    9 => { let t = self.ga(i); self.sa(i, self.ga(j)); self.sa(j, t) }
                    _ => { let t = self.d[i]; self.d[i] = self.ga(j); self.sa(j, t) }
                }
            }
            K::Ext => {
                let v = self.dreg(reg);
                if opm == 2 { let r = sx(1, v); self.logic(2, r); self.set_d(reg, 2, r) } else { let r = sx(2, v); self.logic(4, r); self.set_d(reg, 4, r) }
            }
            K::Swap => { let v = self.dreg(reg); let r = v << 16 | v >> 16; self.logic(4, r); self.set_d(reg, 4, r) }
            K::Jmp => { let t = self.addr(mode, reg); self.jump(t) }
            K::Jsr => { let t = self.addr(mode, reg); let ret = self.pc; self.push(4, ret); self.jump(t) }
            K::Lea => { let t = self.addr(mode, reg); self.sa((hi & 7) as usize, t) }
            K::Pea => { let t = self.addr(mode, reg); self.push(4, t) }
            K::Link => {
                let disp = self.fetch();
                let i = (reg & 7) as usize;
                let v = self.ga(i);
                // What LINK A7 pushes differs between sources.
                self.mem_unspecified = reg == 7;
                self.push(4, v);
                self.sa(i, self.sp);
                self.sp = self.sp.wrapping_add(sx(2, disp));
            }
            K::Unlk => {
                let i = (reg & 7) as usize;
                self.sp = self.ga(i);
                let v = self.pop(4);
                self.areg_unspecified = ite32(reg == 7, 7, 8);
                self.sa(i, v);
            }
            K::Move => {
                let size = mv_size(op);
                let e = self.ea(mode, reg, size);
                let v = self.load(e, size);
                let e = self.ea(opm, hi, size);
                self.logic(size, v);
                self.store(e, size, v);
            }
            K::Movea => {
                let size = mv_size(op);
                let e = self.ea(mode, reg, size);
                let v = self.load(e, size);
                self.sa((hi & 7) as usize, sx(size, v));
            }
            K::Moveccr => { let e = self.ea(mode, reg, 2); let v = self.load(e, 2); self.set_ccr(v) }
            K::Movesr => { let e = self.ea(mode, reg, 2); let v = self.load(e, 2); self.set_sr(v) }
            K::Movefsr => { let e = self.ea(mode, reg, 2); self.dummy(e, 2); let v = self.sr(); self.store(e, 2, v) }
            K::Moveusp => {
                let i = (reg & 7) as usize;
                if op & 8 == 0 { self.other_sp = self.ga(i) } else { self.sa(i, self.other_sp) }
            }
            K::Moveq => { let v = sx(1, op); self.logic(4, v); self.d[(hi & 7) as usize] = v }
            K::Movem => self.movem(op),
            K::Movep => {
                let disp = self.fetch();
                let a = self.areg(reg).wrapping_add(sx(2, disp));
                let n = if op & 0x40 != 0 { 4 } else { 2 };
                let mut v = self.dreg(hi);
                if op & 0x80 != 0 {
                    for j in 0..n { let b = v >> (8 * (n - 1 - j)); self.wr(a.wrapping_add(2 * j), 1, b & 0xFF) }
                } else {
                    for j in 0..n { let b = self.rd(a.wrapping_add(2 * j), 1); let sh = 8 * (n - 1 - j); v = v & !(0xFF << sh) | b << sh }
                    self.set_d(hi, n, v);
                }
            }
            K::Nop => {}
            K::Reset => self.resets += 1,
            K::Stop => { let i = self.fetch(); self.set_sr(i); self.stop = true }
            K::Rte => {
                let sr = self.pop(2);
                let pc = self.pop(4);
                if self.scc {
                    let f = self.pop(2) >> 12;
                    self.long_frame = f == 15;
                    if f == 15 { self.sp = self.sp.wrapping_add(26) }
                    if (f != 0) & (f != 15) {
                        exc = 14;
                        self.unspecified = true;
                    }
                }
                self.set_sr(sr);
                self.jump(pc);
            }
            K::Rtr => { let c = self.pop(2); let pc = self.pop(4); self.set_ccr(c); self.jump(pc) }
            K::Rts => { let pc = self.pop(4); self.jump(pc) }
            K::Tas => { let e = self.ea(mode, reg, 1); let d = self.load(e, 1); self.logic(1, d); self.store(e, 1, d | 0x80) }
            K::Trap => exc = 32 + (op & 15),
            K::Trapv => if self.v { exc = 7 },
        }
        if matches!(exc, 4 | 8 | 10 | 11) { self.pc = start }
        exc = ite32(exc == NONE && traced && !privileged(k), 9, exc);
        self.exc = ite32(self.fault != 0, self.fault, exc);
    }

    fn movem(&mut self, op: u32) {
        let list = self.fetch();
        self.count = 0;
        for j in 0..16 { self.count += list >> j & 1 }
        let mode = op >> 3 & 7;
        let reg = op & 7;
        let size = if op & 0x40 != 0 { 4 } else { 2 };
        let load = op & 0x400 != 0;
        let i = (reg & 7) as usize;
        if mode == 4 {
            let mut a = self.ga(i);
            self.lenient3 = (list == 0) & (a & 1 != 0);
            for j in 0..16u32 {
                // Bit 0 is A7, bit 15 is D0. The registers hold their values from before the instruction.
                let k = (15 - j & 7) as usize;
                if list >> j & 1 != 0 {
                    a = a.wrapping_sub(size);
                    let v = if j < 8 { self.ga(k) } else { self.d[k] };
                    self.wr(a, size, v & mask(size));
                }
            }
            self.sa(i, a);
            return;
        }
        let mut a = if mode == 3 { self.ga(i) } else { self.addr(mode, reg) };
        self.lenient3 = (list == 0) & (a & 1 != 0);
        for j in 0..16u32 {
            let k = (j & 7) as usize;
            if list >> j & 1 != 0 {
                if load {
                    let v = self.rd(a, size);
                    let v = sx(size, v);
                    if j < 8 { self.d[k] = v } else { self.sa(k, v) }
                } else {
                    let v = if j < 8 { self.d[k] } else { self.ga(k) };
                    self.wr(a, size, v & mask(size));
                }
                a = a.wrapping_add(size);
            }
        }
        if mode == 3 { self.sa(i, a) }
    }
}

/// Levels of the interrupts that have one (autovectors and on-chip interrupts), 0 for the other vectors.
pub fn level(v: u32) -> u32 { ite32(((v >= 25) & (v <= 31)) | ((v >= 57) & (v <= 63)), v & 7, 0) }

/// A masked interrupt stays pending. Level 7 cannot be masked.
pub fn masked(v: u32, im: u32) -> bool { let l = level(v); (l != 0) & (l != 7) & (l <= im) }

/// Rank of the priorities of the manual (6.2.3): the lower, the higher.
pub fn rank(v: u32) -> u32 {
    let int = ((v >= 24) & (v <= 31)) | ((v >= 57) & (v <= 63)) | (v >= 64);
    ite32(v == 3, 0, ite32(v == 2, 1, ite32(v == 9, 2, ite32(int, 3, ite32(v == 4, 4, ite32(v == 8, 5, 6))))))
}

/// A stopped CPU goes on after a reset, a trace or an interrupt that is not masked.
pub fn wakes(v: u32, im: u32) -> bool { (v == 0) | (v == 9) | (v >= 64) | ((level(v) != 0) & !masked(v, im)) }

impl O {
    /// Takes the exception: frame, context and program counter (6.2.1, 6.3). `ir` is the opcode held in the long frames.
    pub fn enter(&mut self, v: u32, ir: u32) {
        if split(v == 0) {
            self.set_s(true);
            self.t = false;
            self.im = 7;
            self.stop = false;
            self.sp = read_long(self.mem, 0);
            self.pc = read_long(self.mem, 4);
            return;
        }
        let sr = self.sr();
        let pc = self.pc;
        self.set_s(true);
        self.t = false;
        self.im = ite32(level(v) != 0, v & 7, self.im);
        let long = split((v == 2) | (v == 3));
        if self.scc {
            if long {
                self.push(2, 0);
                self.push(2, ir);
                self.push(2, ir);
                for _ in 0..3 { self.push(4, 0) }
                for _ in 0..4 { self.push(2, 0) }
                self.push(2, 0xF000 | v * 4);
            } else { self.push(2, v * 4) }
            self.push(4, pc);
            self.push(2, sr);
        } else {
            self.push(4, pc);
            self.push(2, sr);
            if long {
                self.push(2, ir);
                self.push(4, 0);
                self.push(2, 0);
            }
        }
        self.pc = self.rd(v * 4, 4);
    }
}

pub fn mv_size(op: u32) -> u32 { match op >> 12 & 3 { 1 => 1, 3 => 2, _ => 4 } }
pub fn mask(size: u32) -> u32 { match size { 1 => 0xFF, 2 => 0xFFFF, _ => 0xFFFF_FFFF } }
pub fn msb(size: u32) -> u32 { match size { 1 => 0x80, 2 => 0x8000, _ => 0x8000_0000 } }
pub fn sx(size: u32, v: u32) -> u32 { match size { 1 => v as u8 as i8 as u32, 2 => v as u16 as i16 as u32, _ => v } }
