#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property of /repo by symbolic execution of its compiled code (see DESIGN.md)."""
import json, os, random, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import props

B = os.path.join(V, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-10-03", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
           HOME=os.environ.get("HOME") or "/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
REPO = "/repo"


class Fail(Exception):
    pass


def sh(cmd, cwd, what, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise Fail(f"{what} failed:\n" + "\n".join(r.stdout.splitlines()[-40:]))
    return r.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/engine"], f"{V}/engine", "engine build")
    return f"{B}/engine/release/symx"


def build_ir():
    """The LLVM IR of the harness with /repo's current crates, whole program."""
    d = f"{B}/ir/release/deps"
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith("harness-") or f.startswith("libharness"):
                os.remove(os.path.join(d, f))
    sh(["cargo", "rustc", "--offline", "--lib", "--release", "--target-dir", f"{B}/ir", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
        "-C", "llvm-args=-unroll-runtime=false", "-C", "llvm-args=-unroll-allow-partial=false"], f"{V}/harness", "harness build")
    ll = [f for f in os.listdir(d) if f.startswith("harness-") and f.endswith(".ll")]
    if len(ll) != 1:
        raise Fail(f"expected one IR file, found {ll}")
    return os.path.join(d, ll[0])


def build_replay():
    sh(["cargo", "build", "--offline", "--bin", "replay", "--profile", "replay", "--target-dir", f"{B}/rp"], f"{V}/harness", "replay build")
    return f"{B}/rp/replay/replay"


class Bg(threading.Thread):
    def __init__(self, f):
        super().__init__(daemon=True)
        self.f, self.r, self.e = f, None, None
        self.start()

    def run(self):
        try:
            self.r = self.f()
        except BaseException as e:
            self.e = e

    def get(self):
        self.join()
        if self.e:
            raise self.e
        return self.r


def write_case(path, unit, v):
    with open(path, "w") as f:
        f.write(f"# {v['what']}\n# replay with: replay run THIS_FILE\nentry {unit['entry']}\n")
        for p in unit["params"]:
            f.write(f"p {p}\n")
        for s, w, x in v["anys"]:
            f.write(f"a {s} {w} {x}\n")
        for a, i, x in v["arrs"]:
            f.write(f"m {a} {i} {x}\n")
        for n, x in v["notes"]:
            f.write(f"# {n} = {int(x):#x}\n")


def replay(binary, path):
    try:
        r = subprocess.run([binary, "run", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def notes_of(out):
    return [tuple(l[5:].rsplit("=", 1)) for l in out.splitlines() if l.startswith("NOTE ")]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    p = props.PROPS[pid]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(B, exist_ok=True)
    ev = f"{V}/evidence/{pid}.json"
    if os.path.exists(ev):
        os.remove(ev)
    case_dir = f"{B}/cases/{pid}"
    os.makedirs(case_dir, exist_ok=True)
    for f in os.listdir(case_dir):
        os.remove(os.path.join(case_dir, f))

    eng = Bg(build_engine)
    ir = build_ir()
    symx = eng.get()
    rp = Bg(build_replay)

    units = p.units(tier)
    if len({u["id"] for u in units}) != len(units):
        raise Fail("duplicate unit ids")
    units.sort(key=lambda u: -u.get("cost", 1))
    plan, out = f"{B}/plan-{pid}.txt", f"{B}/out-{pid}.jsonl"
    with open(plan, "w") as f:
        for u in units:
            f.write("\t".join([u["id"], u["entry"], ",".join(str(x) for x in u["params"]), ",".join(u.get("stubs", []))]) + "\n")
    budget = (3000 if tier == "thorough" else 700) - (time.time() - t0)
    cmd = [symx, "--ir", ir, "--plan", plan, "--out", out, "--jobs", str(jobs), "--timeout", "300000" if tier == "thorough" else "120000",
           "--max-secs", str(2500 if tier == "thorough" else 400), "--deadline", str(budget), "--max-paths", "400000", "--max-violations", str(p.max_violations), "--stop-after", "8"]
    known = [k for k in json.load(open(f"{V}/known_findings.json"))["findings"] if k["property"] == pid]
    for k in known:
        cmd += ["--known", f"{k['unit']}|{k['what']}"]
    if tier == "thorough":
        cmd += ["--cross", "cvc5 --lang smt2 --incremental --tlimit-per=60000"] if p.cross else []
    t1 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t_engine = time.time() - t1
    if r.returncode:
        raise Fail("engine: " + r.stdout[-2000:])
    by_id = {u["id"]: u for u in units}
    res = [json.loads(l) for l in open(out)]
    replayer = rp.get()

    errors, viol, seen_known, confirmed, spurious = [], [], {}, 0, []
    validated = 0
    if len(res) != len(units):
        errors.append(f"{len(units) - len(res)} units not run")
    n = 0
    for u in sorted(res, key=lambda u: u["unit"]):
        if u["error"]:
            errors.append(f"{u['unit']}: {u['error']}")
        if not u["error"] and not u["violations"] and not by_id[u["unit"]].get("vacuous_ok") and (not u["covers"] or (by_id[u["unit"]].get("need") and not set(by_id[u["unit"]]["need"]) <= set(u["covers"]))):
            errors.append(f"{u['unit']}: vacuous (covered {sorted(u['covers'])})")
        for v in u["violations"]:
            k = next((k for k in known if k["unit"] in u["unit"] and k["what"] in v["what"]), None)
            if k and k["id"] in seen_known:
                seen_known[k["id"]] += 1
                continue
            if not k and len(viol) >= 8:
                continue
            n += 1
            path = f"{case_dir}/{n}.txt"
            write_case(path, by_id[u["unit"]], v)
            code, text = replay(replayer, path)
            if code == 10 or code in (101, -6, -11, 134, 139):
                confirmed += 1
                if k:
                    seen_known[k["id"]] = 1
                else:
                    viol.append((path, u["unit"], v, text.strip().splitlines()[-1:] or [""]))
            else:
                spurious.append(f"{u['unit']}: {v['what']} is not reproduced by {path} (exit {code}): {text[-300:]}")

    # Concrete cross-check of the encoding: models of explored paths, run natively.
    cand = [(u, s) for u in res for s in u["samples"]]
    cand.sort(key=lambda x: (x[0]["unit"], x[1]["what"]))
    pick = rnd.sample(cand, min(len(cand), p.validate * (10 if tier == "thorough" else 1)))
    samples = []
    for i, (u, s) in enumerate(pick):
        path = f"{case_dir}/s{i}.txt"
        write_case(path, by_id[u["unit"]], s)
        code, text = replay(replayer, path)
        want = [(a, int(b)) for a, b in s["notes"]]
        got = [(a, int(b)) for a, b in notes_of(text)]
        if code != 0 or want != got:
            if not viol:
                errors.append(f"the encoding of {u['unit']} disagrees with the real code on {path}: exit {code} {text[-300:]} expected notes {want}")
        else:
            validated += 1
            os.remove(path)
        if len(samples) < 8:
            samples.append({"unit": u["unit"], "inputs": [[a, b, x] for a, b, x in s["anys"]][:40], "memory": s["arrs"][:12], "end": s["what"], "notes": s["notes"]})

    tot = lambda k: sum(u[k] for u in res)
    funcs = sorted({f for u in res for f in u["funcs"] if "m68000" in f or "harness" in f})
    real = [f for f in funcs if "m68000" in f]
    covers = {}
    for u in res:
        for k, x in u["covers"].items():
            covers[k] = covers.get(k, 0) + x
    cov = {
        "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated + confirmed, "samples": samples,
        "units": len(res), "paths_infeasible_or_assumed_away": tot("killed"), "paths_ending_in_an_accepted_panic": tot("panics_ok"),
        "assertions_reached": tot("asserts"), "assertions_decided_by_rewriting": tot("syntactic"), "solver_queries": tot("queries"), "queries_sat": tot("sat"),
        "queries_unsat": tot("unsat"), "queries_cross_checked_cvc5": tot("cross"), "solver_s": round(tot("solver_s"), 2),
        "solver_max_s": max([u["solver_max"] for u in res] or [0]), "engine_wall_s": round(t_engine, 1), "cover_points": covers,
        "functions_encoded": real, "functions_encoded_count": len(real), "bounds": p.bounds,
        "explanation": "states = symbolic paths completed, transitions = LLVM IR instructions executed symbolically; every assertion on every path is decided for all values by rewriting or by the SMT solver",
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": p.assumptions, "wall_s": round(time.time() - t0, 2),
               "violations": len(viol)}, open(ev, "w"), indent=1)
    for k in known:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    for path, unit, v, last in viol:
        print(f"  {unit}: {v['what']}: {last[0]}")
        print("   " + ", ".join(f"{a}={int(b):#x}" for a, b in v["notes"]))
        print(f"VIOLATION property={pid} replay={path}")
    if viol:
        return 1
    for e in (errors + spurious)[:20]:
        print("ERROR " + e)
    if errors or spurious:
        return 2
    print(f"{pid} {tier}: holds: {len(res)} units, {tot('paths')} paths, {tot('queries')} queries, {tot('solver_s'):.0f} s of solver, {validated} native validations, {time.time() - t0:.0f} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR", e)
        sys.exit(3)
