//! Replays a counterexample against the real code, and lists the units of the exploration.
//!
//! `replay run FILE`: FILE holds lines `entry NAME`, `p VALUE`, `a SEQ WIDTH VALUE`, `m ARRAY INDEX VALUE`. Prints the notes,
//! exits with 10 if an assertion fails or the code panics, 11 if an assumption does not hold, 0 otherwise.
//! `replay units`: prints `CLASS BASE MASK` for each group of opcodes.

#[path = "../asm.rs"] mod asm;
#[path = "../dec.rs"] mod dec;
#[path = "../entries.rs"] mod entries;
#[path = "../exc.rs"] mod exc;
#[path = "../ffi.rs"] mod ffi;
#[path = "../helpers.rs"] mod helpers;
#[path = "../loops.rs"] mod loops;
#[path = "../misc.rs"] mod misc;
#[path = "../oracle.rs"] mod oracle;
#[path = "../rt.rs"] mod rt;
#[path = "../slices.rs"] mod slices;
#[path = "../step.rs"] mod step;
#[path = "../text.rs"] mod text;
#[path = "../times.rs"] mod times;

use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

#[derive(Default)]
struct Run {
    params: Vec<u64>,
    anys: HashMap<(u32, u32), u64>,
    arrs: [HashMap<u64, u64>; 3],
    over: Vec<HashMap<u64, u16>>,
    seq: u32,
    panic_mode: u32,
}

static RUN: Mutex<Option<Run>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T { f(RUN.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap()) }
fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string() }

#[no_mangle] pub extern "C" fn symx_any(bits: u32) -> u64 {
    with(|r| { let k = r.seq; r.seq += 1; r.anys.get(&(k, bits)).copied().unwrap_or(0) })
}
#[no_mangle] pub extern "C" fn symx_param(i: u32) -> u64 { with(|r| r.params.get(i as usize).copied().unwrap_or(0)) }
#[no_mangle] pub extern "C" fn symx_assume(c: bool) { if !c { println!("ASSUMPTION does not hold"); std::process::exit(11) } }
#[no_mangle] pub extern "C" fn symx_assert(c: bool, p: *const u8, n: usize) {
    if !c { println!("FAILED {}", text(p, n)); std::process::exit(10) }
}
#[no_mangle] pub extern "C" fn symx_assert_eq(a: u64, b: u64, p: *const u8, n: usize) {
    if a != b { println!("FAILED {} (observed {a:#x}, expected {b:#x})", text(p, n)); std::process::exit(10) }
}
#[no_mangle] pub extern "C" fn symx_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] pub extern "C" fn symx_mem_read(mem: u32, addr: u32) -> u16 {
    with(|r| { let i = (addr >> 1) as u64; match r.over[mem as usize].get(&i) { Some(&v) => v, None => r.arrs[0].get(&i).copied().unwrap_or(0) as u16 } })
}
#[no_mangle] pub extern "C" fn symx_mem_write(mem: u32, addr: u32, v: u16) { with(|r| { r.over[mem as usize].insert((addr >> 1) as u64, v); }) }
#[no_mangle] pub extern "C" fn symx_mem_eq(a: u32, b: u32) -> bool {
    with(|r| {
        let get = |m: usize, i: u64| r.over[m].get(&i).copied().unwrap_or_else(|| r.arrs[0].get(&i).copied().unwrap_or(0) as u16);
        let (a, b) = (a as usize, b as usize);
        r.over[a].keys().chain(r.over[b].keys()).all(|&i| get(a, i) == get(b, i))
    })
}
#[no_mangle] pub extern "C" fn symx_mem_copy(dst: u32, src: u32) { with(|r| { let c = r.over[src as usize].clone(); r.over[dst as usize] = c; }) }
#[no_mangle] pub extern "C" fn symx_valid(kind: u32, addr: u32) -> bool { with(|r| r.arrs[1 + kind as usize].get(&((addr >> 1) as u64)).copied().unwrap_or(0) != 0) }
#[no_mangle] pub extern "C" fn symx_canon(a: u32) -> u32 { a }
#[no_mangle] pub extern "C" fn symx_split(c: bool) -> bool { c }
#[no_mangle] pub extern "C" fn symx_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn symx_panic_ok(mode: u32) { with(|r| r.panic_mode = mode) }
#[no_mangle] pub extern "C" fn symx_cover(_: *const u8, _: usize) {}
#[no_mangle] pub extern "C" fn symx_note(p: *const u8, n: usize, v: u64) { println!("NOTE {}={v}", text(p, n)) }

fn num(s: &str) -> u64 { if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap() } }

fn units() {
    let mut groups: BTreeMap<(u8, u16, u16), u32> = BTreeMap::new();
    for op in 0..=0xFFFFu16 {
        let k = oracle::classify(op) as u8;
        let f = oracle::free_bits(op);
        if k != 0 || f != 0 { *groups.entry((k, op & !f, f)).or_default() += 1; }
    }
    for ((k, base, f), n) in groups {
        assert_eq!(n, 1 << f.count_ones(), "group {k} {base:#x} {f:#x}");
        println!("{:?} {base:#x} {f:#x}", unsafe { std::mem::transmute::<u8, oracle::K>(k) });
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("units") => return units(),
        Some("run") => {}
        _ => std::process::exit(2),
    }
    let file = std::fs::read_to_string(&args[2]).unwrap();
    let mut r = Run { over: vec![HashMap::new(); 16], ..Default::default() };
    let mut entry = String::new();
    for l in file.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied() {
            Some("entry") => entry = w[1].to_string(),
            Some("p") => r.params.push(num(w[1])),
            Some("a") => { r.anys.insert((num(w[1]) as u32, num(w[2]) as u32), num(w[3])); }
            Some("m") => { r.arrs[num(w[1]) as usize].insert(num(w[2]), num(w[3])); }
            _ => {}
        }
    }
    *RUN.lock().unwrap() = Some(r);
    let f = entries::TABLE.iter().find(|(n, _)| *n == entry).unwrap_or_else(|| { eprintln!("no entry {entry}"); std::process::exit(2) }).1;
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("PANIC {m} at {}", i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default());
    }));
    let res = std::panic::catch_unwind(f);
    let mode = with(|r| r.panic_mode);
    match (res.is_err(), mode) {
        (true, 0) => std::process::exit(10),
        (false, 2) => { println!("FAILED no panic"); std::process::exit(10) }
        _ => println!("DONE"),
    }
}
