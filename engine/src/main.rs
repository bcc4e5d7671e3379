mod exec;
mod expr;
mod intrin;
mod ir;
mod solver;

use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Plan file: one unit per line:  `<unit id>\t<entry>\t<p0,p1,...>\t<stub,stub>\t[a=k:v,...;m=arr:idx:val,...]`
/// Output: one JSON object per line.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir = String::new(); let mut plan = String::new(); let mut out = String::new();
    let mut jobs = 8usize; let mut solver = "z3-new -in".to_string(); let mut cross: Option<String> = None;
    let mut timeout = 60_000u64; let mut max_paths = 200_000u64; let mut max_steps = 3_000_000u64; let mut max_secs = 600.0f64; let mut trace = false; let mut dump = false;
    let mut deadline = f64::MAX; let mut max_viol = 3usize; let mut stop_after = usize::MAX; let mut known: Vec<(String, String)> = vec![];
    let mut i = 1;
    while i < args.len() {
        let v = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ir" => { ir = v(); i += 1 } "--plan" => { plan = v(); i += 1 } "--out" => { out = v(); i += 1 }
            "--jobs" => { jobs = v().parse().unwrap(); i += 1 } "--solver" => { solver = v(); i += 1 } "--cross" => { cross = Some(v()); i += 1 }
            "--timeout" => { timeout = v().parse().unwrap(); i += 1 } "--max-paths" => { max_paths = v().parse().unwrap(); i += 1 }
            "--max-steps" => { max_steps = v().parse().unwrap(); i += 1 } "--max-secs" => { max_secs = v().parse().unwrap(); i += 1 }
            "--deadline" => { deadline = v().parse().unwrap(); i += 1 } "--max-violations" => { max_viol = v().parse().unwrap(); i += 1 }
            "--stop-after" => { stop_after = v().parse().unwrap(); i += 1 }
            "--known" => { let x = v(); let (a, b) = x.split_once('|').unwrap(); known.push((a.to_string(), b.to_string())); i += 1 }
            "--trace" => trace = true, "--dump" => dump = true,
            x => { eprintln!("unknown option {x}"); std::process::exit(2) }
        }
        i += 1;
    }
    let text = std::fs::read_to_string(&ir).unwrap_or_else(|e| { eprintln!("cannot read {ir}: {e}"); std::process::exit(2) });
    let (m, mc) = match ir::Module::load(text) { Ok(x) => x, Err(e) => { eprintln!("IR: {e}"); std::process::exit(2) } };
    let lay = layout(&m);
    let plan_t = std::fs::read_to_string(&plan).unwrap_or_else(|e| { eprintln!("cannot read {plan}: {e}"); std::process::exit(2) });
    let units: Vec<Vec<String>> = plan_t.lines().filter(|l| !l.is_empty()).map(|l| l.split('\t').map(|s| s.to_string()).collect()).collect();
    let next = AtomicUsize::new(0);
    let violating = AtomicUsize::new(0);
    let outf = Mutex::new(std::fs::File::create(&out).unwrap());
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..jobs.min(units.len().max(1)) {
            let (m, mc, lay, units, next, outf, solver, cross, violating, known) = (&m, &mc, &lay, &units, &next, &outf, &solver, &cross, &violating, &known);
            hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, move || {
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= units.len() { break }
                    let u = &units[k];
                    let split = |s: &String| -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() };
                    let left = deadline - t0.elapsed().as_secs_f64();
                    let sv = solver::Solver::new(split(solver), timeout, cross.as_ref().map(split));
                    let mut en = Engine::new(m, mc, lay, sv, Limits { max_paths, max_steps, max_secs: max_secs.min(left.max(0.0)), max_violations: max_viol });
                    en.trace = trace;
                    en.known = known.iter().filter(|(a, _)| u[0].contains(a.as_str())).map(|(_, b)| b.clone()).collect();
                    en.solver.dump = dump;
                    let params: Vec<u64> = u.get(2).map_or(vec![], |p| p.split(',').filter(|s| !s.is_empty()).map(|x| parse_num(x)).collect());
                    let stubs: Vec<String> = u.get(3).map_or(vec![], |p| p.split(',').filter(|s| !s.is_empty()).map(|x| x.to_string()).collect());
                    if let Some(c) = u.get(4) { if !c.is_empty() { en.concrete = Some(parse_concrete(c)) } }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| en.run(&u[1], &params, &stubs)));
                    if let Err(e) = r {
                        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        en.res.error = Some(format!("engine panic: {msg}"));
                    }
                    let line = json(&u[0], &en.res);
                    let mut f = outf.lock().unwrap();
                    writeln!(f, "{line}").unwrap();
                    // A tree with many violations is not explored to the end.
                    if en.fresh > 0
                        && violating.fetch_add(1, Ordering::SeqCst) + 1 >= stop_after { f.flush().unwrap(); std::process::exit(0) }
                    if trace { let mut f: Vec<_> = en.forks.iter().collect(); f.sort_by_key(|x| std::cmp::Reverse(x.1)); for (w, n) in f.iter().take(12) { eprintln!("  fork {n} {}", &w[..w.len().min(200)]) } }
                    if trace { eprintln!("{}: {} paths {:.2}s {}q {:.2}s solver {:?} viol {}", u[0], en.res.paths, en.res.wall, en.res.queries, en.res.solver_s, en.res.error, en.res.violations.len()); }
                }
            }).unwrap());
        }
        for h in hs { h.join().unwrap() }
    });
}

fn parse_num(x: &str) -> u64 { if let Some(h) = x.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { x.parse().unwrap() } }

fn parse_concrete(c: &str) -> Violation {
    let mut v = Violation { what: String::new(), anys: vec![], arrs: vec![], notes: vec![] };
    for part in c.split(';') {
        if let Some(a) = part.strip_prefix("a=") {
            for kv in a.split(',').filter(|s| !s.is_empty()) { let (k, x) = kv.split_once(':').unwrap(); v.anys.push((k.parse().unwrap(), x.parse().unwrap())) }
        } else if let Some(a) = part.strip_prefix("m=") {
            for kv in a.split(',').filter(|s| !s.is_empty()) { let p: Vec<&str> = kv.split(':').collect(); v.arrs.push((p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap())) }
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), c if (c as u32) < 32 => r.push(' '), c => r.push(c) } }
    r.push('"');
    r
}

fn json(id: &str, r: &UnitResult) -> String {
    let one = |v: &Violation| format!("{{\"what\":{},\"anys\":[{}],\"arrs\":[{}],\"notes\":[{}]}}", esc(&v.what),
        v.anys.iter().map(|(k, x)| format!("[{},{},\"{x}\"]", k / 256, k % 256)).collect::<Vec<_>>().join(","),
        v.arrs.iter().map(|(a, i, x)| format!("[{a},{i},{x}]")).collect::<Vec<_>>().join(","),
        v.notes.iter().map(|(s, x)| format!("[{},\"{x}\"]", esc(s))).collect::<Vec<_>>().join(","));
    let viol: Vec<String> = r.violations.iter().map(one).collect();
    let samples: Vec<String> = r.samples.iter().map(one).collect();
    let covers: Vec<String> = r.covers.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let funcs: Vec<String> = r.funcs.iter().map(|f| esc(&intrin::demangle(f))).collect();
    let cn: Vec<String> = r.concrete_notes.iter().map(|p| format!("[{}]", p.iter().map(|(s, x)| format!("[{},\"{x}\"]", esc(s))).collect::<Vec<_>>().join(","))).collect();
    let ce: Vec<String> = r.concrete_ends.iter().map(|p| esc(p)).collect();
    format!("{{\"unit\":{},\"paths\":{},\"killed\":{},\"panics_ok\":{},\"steps\":{},\"asserts\":{},\"syntactic\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cross\":{},\"solver_s\":{:.4},\"solver_max\":{:.4},\"wall\":{:.4},\"error\":{},\"violations\":[{}],\"covers\":{{{}}},\"funcs\":[{}],\"cnotes\":[{}],\"cends\":[{}],\"violating\":{},\"samples\":[{}]}}",
        esc(id), r.paths, r.killed, r.panics_ok, r.steps, r.asserts, r.assert_syntactic, r.queries, r.sat, r.unsat, r.cross, r.solver_s, r.solver_max, r.wall,
        r.error.as_ref().map_or("null".into(), |e| esc(e)), viol.join(","), covers.join(","), funcs.join(","), cn.join(","), ce.join(","), r.violating, samples.join(","))
}
