//! Interface to the symbolic engine. Under the engine these functions are intrinsics; in the replay program they read the
//! values of a counterexample.

use m68000::MemoryAccess;

extern "C" {
    fn symx_any(bits: u32) -> u64;
    fn symx_param(i: u32) -> u64;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, p: *const u8, n: usize);
    fn symx_assert_eq(a: u64, b: u64, p: *const u8, n: usize);
    fn symx_ite(c: bool, a: u64, b: u64) -> u64;
    fn symx_mem_read(mem: u32, addr: u32) -> u16;
    fn symx_mem_write(mem: u32, addr: u32, v: u16);
    fn symx_mem_eq(a: u32, b: u32) -> bool;
    fn symx_mem_copy(dst: u32, src: u32);
    fn symx_valid(kind: u32, addr: u32) -> bool;
    fn symx_canon(addr: u32) -> u32;
    fn symx_split(c: bool) -> bool;
    fn symx_concretize(v: u64) -> u64;
    fn symx_panic_ok(mode: u32);
    fn symx_cover(p: *const u8, n: usize);
    fn symx_note(p: *const u8, n: usize, v: u64);
}

pub fn any(bits: u32) -> u64 { unsafe { symx_any(bits) } }
pub fn any8() -> u8 { any(8) as u8 }
pub fn any16() -> u16 { any(16) as u16 }
pub fn any32() -> u32 { any(32) as u32 }
pub fn anyb() -> bool { any(1) & 1 != 0 }
pub fn param(i: u32) -> u64 { unsafe { symx_param(i) } }
pub fn assume(c: bool) { unsafe { symx_assume(c) } }
pub fn check(c: bool, what: &'static str) { unsafe { symx_assert(c, what.as_ptr(), what.len()) } }
pub fn eq32(a: u32, b: u32, what: &'static str) { unsafe { symx_assert_eq(a as u64, b as u64, what.as_ptr(), what.len()) } }
pub fn eq64(a: u64, b: u64, what: &'static str) { unsafe { symx_assert_eq(a, b, what.as_ptr(), what.len()) } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { symx_ite(c, a, b) } }
pub fn ite32(c: bool, a: u32, b: u32) -> u32 { unsafe { symx_ite(c, a as u64, b as u64) as u32 } }
pub fn mem_read(m: u32, a: u32) -> u16 { unsafe { symx_mem_read(m, a) } }
pub fn mem_write(m: u32, a: u32, v: u16) { unsafe { symx_mem_write(m, a, v) } }
pub fn mem_eq(a: u32, b: u32) -> bool { unsafe { symx_mem_eq(a, b) } }
pub fn mem_copy(dst: u32, src: u32) { unsafe { symx_mem_copy(dst, src) } }
pub fn valid(kind: u32, addr: u32) -> bool { unsafe { symx_valid(kind, addr) } }
/// The address itself: tells the engine to look for an equal address already used.
pub fn canon(a: u32) -> u32 { unsafe { symx_canon(a) } }
pub fn split(c: bool) -> bool { unsafe { symx_split(c) } }
pub fn concretize(v: u64) -> u64 { unsafe { symx_concretize(v) } }
/// 0: a panic is a violation, 1: a panic is accepted, 2: a panic is required.
pub fn panic_ok(m: u32) { unsafe { symx_panic_ok(m) } }
pub fn cover(what: &'static str) { unsafe { symx_cover(what.as_ptr(), what.len()) } }
pub fn note(what: &'static str, v: u64) { unsafe { symx_note(what.as_ptr(), what.len(), v) } }

pub const RD: u32 = 0;
pub const WR: u32 = 1;

/// The memory given to the code under test. All of the 2^32 byte address space holds arbitrary contents; with `faults`, an
/// arbitrary set of word addresses refuses reads and another one refuses writes.
pub struct SymMem {
    pub id: u32,
    pub faults: bool,
    pub resets: u32,
    pub reads: u32,
    pub writes: u32,
    /// Number of words that can be read.
    pub limit: u32,
}

impl SymMem {
    pub fn new(id: u32, faults: bool) -> Self { Self { id, faults, resets: 0, reads: 0, writes: 0, limit: u32::MAX } }
}

impl MemoryAccess for SymMem {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let addr = canon(addr);
        if self.faults && !valid(RD, addr) { return None }
        self.reads += 1;
        Some(read_byte(self.id, addr))
    }
    fn get_word(&mut self, addr: u32) -> Option<u16> {
        let addr = canon(addr);
        check(addr & 1 == 0, "a word read reached the memory with an odd address");
        if self.reads >= self.limit { return None }
        if self.faults && !valid(RD, addr) { return None }
        self.reads += 1;
        Some(mem_read(self.id, addr))
    }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> {
        let addr = canon(addr);
        if self.faults && !valid(WR, addr) { return None }
        self.writes += 1;
        write_byte(self.id, addr, value);
        Some(())
    }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        let addr = canon(addr);
        check(addr & 1 == 0, "a word write reached the memory with an odd address");
        if self.faults && !valid(WR, addr) { return None }
        self.writes += 1;
        mem_write(self.id, addr, value);
        Some(())
    }
    fn reset_instruction(&mut self) { self.resets += 1; }
}

pub fn read_byte(m: u32, addr: u32) -> u8 {
    let w = mem_read(m, addr & !1) as u32;
    ite32(addr & 1 != 0, w & 0xFF, w >> 8) as u8
}

pub fn write_byte(m: u32, addr: u32, v: u8) {
    let w = mem_read(m, addr & !1) as u32;
    mem_write(m, addr & !1, ite32(addr & 1 != 0, w & 0xFF00 | v as u32, w & 0xFF | (v as u32) << 8) as u16);
}

pub fn read_long(m: u32, addr: u32) -> u32 { (mem_read(m, addr) as u32) << 16 | mem_read(m, addr.wrapping_add(2)) as u32 }
