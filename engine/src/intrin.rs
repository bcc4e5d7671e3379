//! LLVM intrinsics, the few libc functions that are reachable, and the harness intrinsics (symx_*).

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

type X<T> = Result<T, Stop>;
macro_rules! err { ($($t:tt)*) => { return Err(Stop::Err(format!($($t)*))) } }

pub fn is_panic(name: &str) -> bool {
    // Legacy and v0 mangled names.
    const P: &[&str] = &["core9panicking", "core6option13expect_failed", "core6option13unwrap_failed", "core6result13unwrap_failed", "5slice5index",
        "std9panicking", "alloc7raw_vec12handle_error", "alloc7raw_vec17capacity_overflow", "alloc5alloc18handle_alloc_error", "core3str16slice_error_fail", "core3str19slice_error_fail_rt",
        "rust_begin_unwind", "panic_cannot_unwind", "core4cell22panic_already", "__rust_start_panic", "slice_error_fail"];
    const OK: &[&str] = &["panic_count", "core5slice5index74", "core9panicking8location"];
    if OK.iter().any(|p| name.contains(p)) { return false }
    if name.contains("5slice5index") { return name.contains("_fail") }
    P.iter().any(|p| name.contains(p))
}

pub fn demangle(n: &str) -> String {
    // Good enough for messages: _ZN4core6option13expect_failed17h...E
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0; let mut parts: Vec<&str> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0;
            while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1 }
            if i + l > b.len() { break }
            parts.push(&r[i..i + l]);
            i += l;
        }
        if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) { parts.pop(); }
        return parts.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::").replace("$RF$", "&").replace("$C$", ",");
    }
    n.to_string()
}

fn size_arg(en: &mut Engine, st: &mut State, args: &[(Ty, Opd)], k: usize) -> X<u64> {
    let e = en.arg(st, args, k)?;
    Ok(en.concretize_(st, e)? as u64)
}

pub fn alloc_call(en: &mut Engine, st: &mut State, name: &str, args: &[(Ty, Opd)]) -> X<Option<Val>> {
    let ptr = |en: &mut Engine, a: u64| Some(Val::S(en.cx.c(a as u128, 64)));
    if name.contains("no_alloc_shim") { return Ok(Some(Val::N)) }
    if name.contains("alloc_zeroed") {
        let n = size_arg(en, st, args, 0)?; let al = size_arg(en, st, args, 1)?;
        let a = en.alloc_(st, n, al, true);
        return Ok(ptr(en, a));
    }
    if name.contains("dealloc") {
        let a = size_arg(en, st, args, 0)?;
        en.free_(st, a);
        return Ok(Some(Val::N));
    }
    if name.contains("realloc") {
        let a = size_arg(en, st, args, 0)?; let old = size_arg(en, st, args, 1)?; let al = size_arg(en, st, args, 2)?; let n = size_arg(en, st, args, 3)?;
        let src = en.cx.c(a as u128, 64);
        let b = en.read_(st, src, old.min(n))?;
        let p = en.alloc_(st, n, al, false);
        let pe = en.cx.c(p as u128, 64);
        en.write_(st, pe, &b)?;
        en.free_(st, a);
        return Ok(ptr(en, p));
    }
    if name.contains("rust_alloc") || name.contains("rdl_alloc") {
        let n = size_arg(en, st, args, 0)?; let al = size_arg(en, st, args, 1)?;
        let a = en.alloc_(st, n, al, false);
        return Ok(ptr(en, a));
    }
    Ok(None)
}

fn retw(ret: &Ty) -> X<u32> { match ret { Ty::Int(w) => Ok(*w), Ty::Ptr => Ok(64), _ => Err(Stop::Err(format!("intrinsic return type {ret:?}"))) } }

fn popcount(cx: &mut Ctx, a: E, w: u32) -> E {
    let aw = cx.width(a);
    let mut acc = cx.c(0, w);
    for k in 0..aw { let b = cx.ext(a, k, 1); let z = if w > 1 { cx.zext(b, w) } else { b }; acc = cx.add(acc, z) }
    acc
}

pub fn call(en: &mut Engine, st: &mut State, name: &str, args: &[(Ty, Opd)], ret: &Ty) -> X<Val> {
    if let Some(r) = name.strip_prefix("symx_") { return harness(en, st, r, args) }
    if let Some(r) = name.strip_prefix("llvm.") { return llvm(en, st, r, args, ret) }
    match name {
        "malloc" => { let n = size_arg(en, st, args, 0)?; let a = en.alloc_(st, n, 16, false); Ok(Val::S(en.cx.c(a as u128, 64))) }
        "calloc" => { let n = size_arg(en, st, args, 0)?; let k = size_arg(en, st, args, 1)?; let a = en.alloc_(st, n * k, 16, true); Ok(Val::S(en.cx.c(a as u128, 64))) }
        "free" => { let a = size_arg(en, st, args, 0)?; en.free_(st, a); Ok(Val::N) }
        "realloc" => {
            let a = size_arg(en, st, args, 0)?; let n = size_arg(en, st, args, 1)?;
            let old = en.size_of(st, a).unwrap_or(0);
            let src = en.cx.c(a as u128, 64);
            let b = en.read_(st, src, old.min(n))?;
            let p = en.alloc_(st, n, 16, false);
            let pe = en.cx.c(p as u128, 64);
            en.write_(st, pe, &b)?;
            en.free_(st, a);
            Ok(Val::S(pe))
        }
        "posix_memalign" => {
            let p = en.arg(st, args, 0)?; let al = size_arg(en, st, args, 1)?; let n = size_arg(en, st, args, 2)?;
            let a = en.alloc_(st, n, al, false);
            let ae = en.cx.c(a as u128, 64);
            let b: Vec<E> = (0..8).map(|k| en.cx.ext(ae, k * 8, 8)).collect();
            en.write_(st, p, &b)?;
            Ok(Val::S(en.cx.c(0, 32)))
        }
        "bcmp" | "memcmp" => {
            let a = en.arg(st, args, 0)?; let b = en.arg(st, args, 1)?; let n = size_arg(en, st, args, 2)?;
            let x = en.read_(st, a, n)?; let y = en.read_(st, b, n)?;
            let mut r = en.cx.c(0, 32);
            for k in (0..n as usize).rev() {
                let q = en.cx.eq(x[k], y[k]);
                let l = en.cx.ult(x[k], y[k]);
                let m1 = en.cx.c(!0, 32); let p1 = en.cx.c(1, 32);
                let d = en.cx.ite(l, m1, p1);
                r = en.cx.ite(q, r, d);
            }
            Ok(Val::S(r))
        }
        "strlen" => {
            let p = en.arg(st, args, 0)?;
            for k in 0..1_000_000u64 {
                let kk = en.cx.c(k as u128, 64); let a = en.cx.add(p, kk);
                let b = en.read_(st, a, 1)?;
                let v = en.concretize_(st, b[0])?;
                if v == 0 { return Ok(Val::S(kk)) }
            }
            err!("strlen")
        }
        "abort" | "_exit" | "exit" => Err(Stop::End(PathEnd::Panic(format!("{name} called")))),
        _ => err!("call of external function {name}"),
    }
}

fn llvm(en: &mut Engine, st: &mut State, r: &str, args: &[(Ty, Opd)], ret: &Ty) -> X<Val> {
    let base = r.split('.').next().unwrap();
    match base {
        "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "stackrestore" => return Ok(Val::N),
        "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::End(PathEnd::Panic("trap".into()))),
        _ => {}
    }
    if r.starts_with("memcpy") || r.starts_with("memmove") {
        let d = en.arg(st, args, 0)?; let s = en.arg(st, args, 1)?; let n = size_arg(en, st, args, 2)?;
        let b = en.read_(st, s, n)?;
        en.write_(st, d, &b)?;
        return Ok(Val::N);
    }
    if r.starts_with("load.relative") {
        let p = en.arg(st, args, 0)?; let o = en.arg(st, args, 1)?;
        let o = if en.cx.width(o) < 64 { en.cx.sext(o, 64) } else { o };
        let a = en.cx.add(p, o);
        let v = en.load_int_(st, a, 4)?;
        let v = en.cx.sext(v, 64);
        return Ok(Val::S(en.cx.add(p, v)));
    }
    if r.starts_with("memset") {
        let d = en.arg(st, args, 0)?; let v = en.arg(st, args, 1)?; let n = size_arg(en, st, args, 2)?;
        en.write_(st, d, &vec![v; n as usize])?;
        return Ok(Val::N);
    }
    if r.starts_with("is.constant") { return Ok(Val::S(en.cx.b(false))) }
    if r.starts_with("threadlocal.address") || r.starts_with("launder") || r.starts_with("strip") { return Ok(Val::S(en.arg(st, args, 0)?)) }
    if r.starts_with("expect") { return Ok(Val::S(en.arg(st, args, 0)?)) }
    if r.contains(".with.overflow") {
        let a = en.arg(st, args, 0)?; let b = en.arg(st, args, 1)?;
        let cx = &mut en.cx;
        let w = cx.width(a);
        let (v, o) = match base {
            "uadd" => { let s = cx.add(a, b); let o = cx.ult(s, a); (s, o) }
            "usub" => { let s = cx.sub(a, b); let o = cx.ult(a, b); (s, o) }
            "sadd" => {
                let s = cx.add(a, b);
                let x = cx.xor(a, s); let y = cx.xor(b, s); let z = cx.and(x, y);
                (s, cx.ext(z, w - 1, 1))
            }
            "ssub" => {
                let s = cx.sub(a, b);
                let x = cx.xor(a, b); let y = cx.xor(a, s); let z = cx.and(x, y);
                (s, cx.ext(z, w - 1, 1))
            }
            "umul" => {
                let x = cx.zext(a, 2 * w); let y = cx.zext(b, 2 * w); let p = cx.mul(x, y);
                let l = cx.ext(p, 0, w); let h = cx.ext(p, w, w); let z = cx.c(0, w); let q = cx.eq(h, z);
                (l, cx.not(q))
            }
            "smul" => {
                let x = cx.sext(a, 2 * w); let y = cx.sext(b, 2 * w); let p = cx.mul(x, y);
                let l = cx.ext(p, 0, w); let s = cx.sext(l, 2 * w); let q = cx.eq(s, p);
                (l, cx.not(q))
            }
            _ => err!("llvm.{r}"),
        };
        return Ok(Val::A(Rc::new(vec![Val::S(v), Val::S(o)])));
    }
    let w = match ret { Ty::Vec(..) => err!("vector intrinsic llvm.{r}"), _ => retw(ret)? };
    let a = en.arg(st, args, 0)?;
    let b = if args.len() > 1 { en.arg(st, args, 1).ok() } else { None };
    let c3 = if args.len() > 2 { Some(en.arg(st, args, 2)?) } else { None };
    let cx = &mut en.cx;
    let v = match base {
        "ctpop" => popcount(cx, a, w),
        "ctlz" => { let mut acc = cx.c(w as u128, w); for k in 0..w { let bit = cx.ext(a, k, 1); let n = cx.c((w - 1 - k) as u128, w); acc = cx.ite(bit, n, acc) } acc }
        "cttz" => { let mut acc = cx.c(w as u128, w); for k in (0..w).rev() { let bit = cx.ext(a, k, 1); let n = cx.c(k as u128, w); acc = cx.ite(bit, n, acc) } acc }
        "bswap" => { let mut acc = cx.ext(a, 0, 8); for k in 1..w / 8 { let x = cx.ext(a, k * 8, 8); acc = cx.concat(acc, x) } acc }
        "bitreverse" => { let mut acc = cx.ext(a, 0, 1); for k in 1..w { let x = cx.ext(a, k, 1); acc = cx.concat(acc, x) } acc }
        "fshl" | "fshr" => {
            let (b, s) = (b.unwrap(), c3.unwrap());
            let kw = cx.c(w as u128, w);
            let m = cx.urem(s, kw);
            if let Some(k) = cx.cst(m) {
                let k = k as u32;
                let k = if base == "fshl" { k } else { (w - k) % w };
                if k == 0 { if base == "fshl" || cx.cst(m) != Some(0) { a } else { b } }
                else { let h = cx.ext(a, 0, w - k); let l = cx.ext(b, w - k, k); cx.concat(h, l) }
            } else {
                let z = cx.c(0, w);
                let isz = cx.eq(m, z);
                let inv = cx.sub(kw, m);
                if base == "fshl" { let x = cx.shl(a, m); let y = cx.lshr(b, inv); let o = cx.or(x, y); cx.ite(isz, a, o) }
                else { let x = cx.shl(a, inv); let y = cx.lshr(b, m); let o = cx.or(x, y); cx.ite(isz, b, o) }
            }
        }
        "umin" => { let b = b.unwrap(); let q = cx.ult(a, b); cx.ite(q, a, b) }
        "umax" => { let b = b.unwrap(); let q = cx.ult(a, b); cx.ite(q, b, a) }
        "smin" => { let b = b.unwrap(); let q = cx.slt(a, b); cx.ite(q, a, b) }
        "smax" => { let b = b.unwrap(); let q = cx.slt(a, b); cx.ite(q, b, a) }
        "abs" => { let z = cx.c(0, w); let q = cx.slt(a, z); let n = cx.neg(a); cx.ite(q, n, a) }
        "usub" => { let b = b.unwrap(); let q = cx.ult(a, b); let s = cx.sub(a, b); let z = cx.c(0, w); cx.ite(q, z, s) }
        "uadd" => { let b = b.unwrap(); let s = cx.add(a, b); let q = cx.ult(s, a); let z = cx.c(!0, w); cx.ite(q, z, s) }
        "ucmp" | "scmp" => {
            let b = b.unwrap();
            let l = if base == "ucmp" { cx.ult(a, b) } else { cx.slt(a, b) };
            let q = cx.eq(a, b);
            let m1 = cx.c(!0, w); let z = cx.c(0, w); let p1 = cx.c(1, w);
            let x = cx.ite(q, z, p1); cx.ite(l, m1, x)
        }
        "ptrmask" => { let b = b.unwrap(); cx.and(a, b) }
        _ => err!("unsupported intrinsic llvm.{r}"),
    };
    Ok(Val::S(v))
}

fn harness(en: &mut Engine, st: &mut State, r: &str, args: &[(Ty, Opd)]) -> X<Val> {
    macro_rules! k { ($i:expr) => {{ let e = en.arg(st, args, $i)?; match en.cx.cst(e) { Some(v) => v as u64, None => err!("symx_{r}: argument {} is not constant", $i) } }} }
    macro_rules! boolean { ($i:expr) => {{ let e = en.arg(st, args, $i)?; en.cx.ext(e, 0, 1) }} }
    match r {
        "any" => {
            let w = k!(0) as u32;
            let e = en.any(st, w);
            let e = if w < 64 { en.cx.zext(e, 64) } else { e };
            Ok(Val::S(e))
        }
        "param" => { let i = k!(0) as usize; let v = *en.params.get(i).unwrap_or(&0); Ok(Val::S(en.cx.c(v as u128, 64))) }
        "assume" => { let c = boolean!(0); en.assume(st, c)?; Ok(Val::N) }
        "assert" => {
            let c = boolean!(0);
            let p = en.arg(st, args, 1)?; let n = en.arg(st, args, 2)?;
            let s = en.str_(st, p, n)?;
            en.assert(st, c, s);
            Ok(Val::N)
        }
        "assert_eq" => {
            let a = en.arg(st, args, 0)?; let b = en.arg(st, args, 1)?;
            let p = en.arg(st, args, 2)?; let n = en.arg(st, args, 3)?;
            let s = en.str_(st, p, n)?;
            let c = en.cx.eq(a, b);
            en.assert(st, c, s);
            Ok(Val::N)
        }
        "ite" => { let c = boolean!(0); let a = en.arg(st, args, 1)?; let b = en.arg(st, args, 2)?; Ok(Val::S(match en.known_bit(st, c) { Some(true) => a, Some(false) => b, None => en.cx.ite(c, a, b) })) }
        "mem_read" => { let m = k!(0) as usize; let a = en.arg(st, args, 1)?; Ok(Val::S(en.mem_read(st, m, a)?)) }
        "mem_write" => { let m = k!(0) as usize; let a = en.arg(st, args, 1)?; let v = en.arg(st, args, 2)?; en.mem_write(st, m, a, v)?; Ok(Val::N) }
        "mem_clear" => { let m = k!(0) as usize; en.mem_clear(st, m); Ok(Val::N) }
        "mem_copy" => { let m = k!(0) as usize; let n = k!(1) as usize; en.mem_copy(st, m, n); Ok(Val::N) }
        "mem_eq" => { let m = k!(0) as usize; let n = k!(1) as usize; let e = en.mem_eq(st, m, n); Ok(Val::S(e)) }
        "valid" => {
            let kind = k!(0) as u32; let a = en.arg(st, args, 1)?;
            Ok(Val::S(en.valid(st, kind, a)?))
        }
        "canon" => { let a = en.arg(st, args, 0)?; Ok(Val::S(en.canon(st, a)?)) }
        "split" => { let c = boolean!(0); let v = en.decide_(st, c)?; Ok(Val::S(en.cx.b(v))) }
        "concretize" => { let e = en.arg(st, args, 0)?; let v = en.concretize_(st, e)?; let w = en.cx.width(e); Ok(Val::S(en.cx.c(v, w))) }
        "panic_ok" => { let v = k!(0) as u32; en.set_panic(st, v); Ok(Val::N) }
        "cover" => { let p = en.arg(st, args, 0)?; let n = en.arg(st, args, 1)?; let s = en.str_(st, p, n)?; en.cover(st, s); Ok(Val::N) }
        "note" => {
            let p = en.arg(st, args, 0)?; let n = en.arg(st, args, 1)?; let s = en.str_(st, p, n)?;
            let v = en.arg(st, args, 2)?;
            en.note(st, s, v);
            Ok(Val::N)
        }
        _ => err!("unknown harness intrinsic symx_{r}"),
    }
}
