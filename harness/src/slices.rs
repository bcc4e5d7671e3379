//! The memories provided for slices.

use crate::rt::*;
use m68000::MemoryAccess;

const MAX: usize = 17;

/// Byte `k` of the contents, 0 beyond.
fn at(old: &[u8; 2 * MAX], n: usize, addr: u32) -> u32 {
    let mut r = 0;
    for k in 0..n { r = ite32(addr == k as u32, old[k] as u32, r) }
    r
}

/// Parameter 0: 0 [u8], 1 &[u8], 2 [u16], 3 &[u16]; parameter 1: length; parameter 2: bytes of the access; parameter 3: write.
pub fn slice() {
    let kind = param(0);
    let len = param(1) as usize;
    let size = param(2) as u32;
    let write = param(3) != 0;
    let bytes = if kind < 2 { len } else { 2 * len };
    let mut old = [0u8; 2 * MAX];
    let mut b = [0u8; MAX];
    let mut w = [0u16; MAX];
    for k in 0..bytes { old[k] = any8() }
    if kind < 2 { for k in 0..len { b[k] = old[k] } } else { for k in 0..len { w[k] = (old[2 * k] as u16) << 8 | old[2 * k + 1] as u16 } }
    let addr = any32();
    let v = any32();
    note("address", addr as u64);
    // A word slice has no words at odd addresses.
    if kind >= 2 && size > 1 { assume(addr & 1 == 0) }
    // The access is within the slice.
    let fits = (addr as u64) + size as u64 <= bytes as u64;
    if !write {
        let r = {
            match kind {
                0 => get(&mut b[..len], size, addr),
                1 => { let mut r: &[u8] = &b[..len]; get(&mut r, size, addr) }
                2 => get(&mut w[..len], size, addr),
                _ => { let mut r: &[u16] = &w[..len]; get(&mut r, size, addr) }
            }
        };
        match r {
            Some(x) => {
                cover("read");
                check(fits, "read beyond the slice accepted");
                let mut e = 0;
                for k in 0..size { e = e << 8 | at(&old, bytes, addr.wrapping_add(k)) }
                eq32(x, e, "value read");
            }
            None => {
                cover("refused");
                check(!fits, "read within the slice refused");
            }
        }
    } else {
        let r = match kind {
            0 => set(&mut b[..len], size, addr, v),
            1 => { panic_ok(1); cover("refused"); let mut r: &[u8] = &b[..len]; set(&mut r, size, addr, v) }
            2 => set(&mut w[..len], size, addr, v),
            _ => { panic_ok(1); cover("refused"); let mut r: &[u16] = &w[..len]; set(&mut r, size, addr, v) }
        };
        if kind & 1 != 0 {
            check(r.is_none(), "write to a read-only slice accepted");
            return;
        }
        let ok = r.is_some();
        if ok { cover("written") } else { cover("refused") }
        check(ok == fits, if ok { "write beyond the slice accepted" } else { "write within the slice refused" });
        for k in 0..bytes {
            let now = if kind == 0 { b[k] as u32 } else { (if k & 1 == 0 { w[k / 2] >> 8 } else { w[k / 2] & 0xFF }) as u32 };
            // A refused long write may have changed those of its bytes that exist.
            let mut e = old[k] as u32;
            for j in 0..size { e = ite32(addr.wrapping_add(j) == k as u32, v >> (8 * (size - 1 - j)) & 0xFF, e) }
            if ok { eq32(now, e, "contents after a write") } else { check((now == e) | (now == old[k] as u32), "contents after a refused write") }
        }
        // Read back.
        if ok {
            let r = if kind == 0 { get(&mut b[..len], size, addr) } else { get(&mut w[..len], size, addr) };
            let k = if size == 4 { 0xFFFF_FFFF } else { (1 << (8 * size)) - 1 };
            match r { Some(x) => eq32(x, v & k, "value read back"), None => check(false, "read back refused") }
        }
    }
}

fn get<M: MemoryAccess + ?Sized>(m: &mut M, size: u32, a: u32) -> Option<u32> {
    match size { 1 => m.get_byte(a).map(|x| x as u32), 2 => m.get_word(a).map(|x| x as u32), _ => m.get_long(a) }
}

fn set<M: MemoryAccess + ?Sized>(m: &mut M, size: u32, a: u32, v: u32) -> Option<()> {
    match size { 1 => m.set_byte(a, v as u8), 2 => m.set_word(a, v as u16), _ => m.set_long(a, v) }
}

/// The iterator over words, and the long accesses a memory gets by default.
pub fn iter() {
    let a = any32();
    note("address", a as u64);
    let mut m = SymMem::new(0, true);
    if param(0) == 0 {
        let mut it = m.iter_u16(a);
        for i in 0..3u32 {
            let at = a.wrapping_add(2 * i);
            match it.next() {
                Some(Ok(w)) => { cover("read"); check((a & 1 == 0) & valid(RD, at), "word accepted"); eq32(w as u32, mem_read(0, at) as u32, "word") }
                Some(Err(e)) => { cover("refused"); check((a & 1 != 0) | !valid(RD, at), "word refused"); eq32(e as u32, ite32(a & 1 != 0, 3, 2), "exception") }
                None => check(false, "end of the iterator"),
            }
            eq32(it.next_addr, ite32(a & 1 != 0, a, at.wrapping_add(2)), "next address");
        }
        return;
    }
    assume(a & 1 == 0);
    let v = any32();
    let (r0, r1) = (valid(RD, a), valid(RD, a.wrapping_add(2)));
    let (w0, w1) = (valid(WR, a), valid(WR, a.wrapping_add(2)));
    match m.get_long(a) {
        Some(x) => { cover("read"); check(r0 & r1, "long read accepted"); eq32(x, read_long(0, a), "long") }
        None => { cover("refused"); check(!(r0 & r1), "long read refused") }
    }
    mem_copy(1, 0);
    match m.set_long(a, v) {
        Some(()) => {
            cover("written");
            check(w0 & w1, "long write accepted");
            mem_write(1, a, (v >> 16) as u16);
            mem_write(1, a.wrapping_add(2), v as u16);
            check(mem_eq(0, 1), "memory after a long write");
        }
        None => { cover("refused"); check(!(w0 & w1), "long write refused") }
    }
}
