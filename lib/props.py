"""The units of exploration of each property."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F_FAULTS, F_DIS, F_EXT, F_ALIGNED, F_FAULTY, F_UNKNOWN, F_NOTES, F_EXC, F_TIME, F_PENDING, F_BUS = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024


def groups():
    for l in open(f"{V}/harness/units.txt"):
        k, b, m = l.split()
        yield k, int(b, 16), int(m, 16)


COST = {"Divs": 60, "Divu": 40, "Move": 3, "Lea": 6, "Ror": 3, "Abcd": 8, "Sbcd": 8, "Subx": 4, "Movem": 3, "Roxr": 5}

LISTS_QUICK = [0xFFFF, 0x8001, 0x0180, 0x5555, 0xAAAA, 0x4081, 0x7FFE]


def U(uid, entry, params, **kw):
    return dict(id=uid, entry=entry, params=list(params), **kw)


def cost(k, b):
    c = COST.get(k, 1)
    if k == "Move" and b & 0xF1C0 == 0x2180: c = 40
    return c * 5 if b & 0x3F in (0x30, 0x3B) or k == "Movem" and b & 0x30 == 0x30 else c


def step(classes, entry="h_step_m", flags=0, tag="", tier="quick", stubs=(), lists=None, pairs=None, modes=None, **kw):
    """One unit per group of opcodes that differ in register numbers and small data only."""
    out = []
    for k, b, m in groups():
        if classes is not None and k not in classes:
            continue
        if modes is not None and not modes(k, b):
            continue
        if k == "Movem":
            idx = (b & 0x38) == 0x30 or (b & 0x3F) == 0x3B
            bits = 2 if tier == "thorough" and not idx else 1
            out.append(U(f"{k}-{b:#06x}{tag}-le{bits}", entry, [b, m, flags, 0, 0, bits], cost=cost(k, b) * (10 if bits == 2 else 1), stubs=list(stubs), **kw))
            for l in LISTS_QUICK if lists is None else lists:
                out.append(U(f"{k}-{b:#06x}{tag}-l{l:04x}", entry, [b, m, flags, 0xFFFF & ~l, l, 0], stubs=list(stubs), **kw))
            if tier == "thorough":
                for j in range(0, 16, 4):
                    out.append(U(f"{k}-{b:#06x}{tag}-w{j}", entry, [b, m, flags, 0xFFFF & ~(0xF << j), 0, 0], stubs=list(stubs), **kw))
        elif k == "Move" and b in (0x2198, 0x21A0) and m & 0x0E00 == 0x0E00:
            # The slowest groups: one unit per destination register.
            for r in range(8):
                out.append(U(f"{k}-{b:#06x}-d{r}{tag}", entry, [b | r << 9, m & ~0x0E00, flags], cost=cost(k, b), stubs=list(stubs), **kw))
        else:
            out.append(U(f"{k}-{b:#06x}{tag}", entry, [b, m, flags], cost=cost(k, b), stubs=list(stubs), **kw))
    return out


UNKNOWN_HIGH = None


def unknown_high():
    """High bytes with at least one opcode that denotes no instruction (line A and F aside)."""
    global UNKNOWN_HIGH
    if UNKNOWN_HIGH is None:
        known = [0] * 256
        for k, b, m in groups():
            if k == "Unknown":
                continue
            # Number of opcodes of the group with each high byte.
            lo = bin(m & 0xFF).count("1")
            hm = m >> 8
            s = hm
            while True:
                known[(b >> 8) | s] += 1 << lo
                if s == 0:
                    break
                s = (s - 1) & hm
        UNKNOWN_HIGH = [h for h in range(256) if known[h] < 256 and h >> 4 not in (10, 15)]
    return UNKNOWN_HIGH


def unknown(entry="h_step_m", flags=0, tag=""):
    return [U(f"Unk-{h:02x}{tag}", entry, [h << 8, 0xFF, flags | F_UNKNOWN]) for h in unknown_high()]


class P:
    def __init__(self, units, bounds, assumptions=(), cross=True, validate=40, max_violations=3):
        self.units, self.bounds, self.assumptions, self.cross, self.validate, self.max_violations = units, bounds, BASE + list(assumptions), cross, validate, max_violations


BASE = [
    "the optimised LLVM IR of rustc (opt-level 2, overflow checks and debug assertions on) is the code under test; undef and poison values read as 0",
    "memory allocation does not fail; allocator and panic formatting are modelled, not encoded",
    "the interrupt mask is at most 7 (the field is a public u8)",
]

ARITH = {"Add", "Adda", "Addi", "Addq", "Addx", "Sub", "Suba", "Subi", "Subq", "Subx", "Neg", "Negx", "Cmp", "Cmpa", "Cmpi", "Cmpm", "Muls", "Mulu", "Divs", "Divu", "Ext", "Clr", "Tst"}
LOGIC = {"And", "Andi", "Or", "Ori", "Eor", "Eori", "Not", "Andiccr", "Oriccr", "Eoriccr", "Bchg", "Bclr", "Bset", "Btst", "Tas", "Scc", "Swap"}
SHIFT = {"Asm", "Asr", "Lsm", "Lsr", "Rom", "Ror", "Roxm", "Roxr"}
BCD = {"Abcd", "Sbcd", "Nbcd"}
MOVE = {"Move", "Movea", "Moveq", "Movem", "Movep", "Moveccr", "Movefsr", "Exg", "Lea", "Pea", "Link", "Unlk"}
FLOW = {"Bcc", "Bra", "Bsr", "Dbcc", "Jmp", "Jsr", "Rts", "Rtr", "Nop", "Trap", "Trapv", "Chk", "Illegal", "Unknown"}
PRIV = {"Andisr", "Eorisr", "Orisr", "Movesr", "Moveusp", "Reset", "Rte", "Stop"}

ANY = ("one instruction from any state: all 65536 opcodes of the class grouped by the fields that do not select registers or small data; registers, SR, memory contents of the whole "
       "4 GiB space and extension words arbitrary")
TWO = "; MC68000 model with the fast interpreter and SCC68070 model with the disassembling one (all four combinations in the thorough tier)"
ONE = ANY + "; no bus error" + TWO

ALL = ARITH | LOGIC | SHIFT | BCD | MOVE | FLOW | PRIV


def exc(entry, cases, dis=(0,), **kw):
    """Exception entries on both CPU models; cases are parameters after the first."""
    out = []
    for s in "ms":
        for d in dis:
            for c in cases:
                flag, c = (c[0], c[1:]) if isinstance(c[0], tuple) else ((0,), c)
                out.append(U(f"{entry}-{s}-{flag[0] | d}-" + "-".join(map(str, c)), f"h_{entry}_{s}", [flag[0] | d, *c], **kw))
    return out


def c15(t):
    d = (0, 1)
    out = exc("entry", [(1, 255, 0), (0, 0, 0), ((2,), 0, 255, 0)], d, cost=5) + exc("entry", [(2, 3, 1)], d, cost=5)
    return out


def c16(t):
    out = exc("pending2", [(0, 255, 0, 255)], (0, 1) if t == "thorough" else (0,), cost=50)
    trip = [(24, 31, 24, 31, 24, 31), (24, 31, 4, 9, 2, 3), (25, 31, 57, 63, 64, 255), (0, 0, 57, 63, 32, 47), (2, 3, 24, 31, 9, 9), (64, 255, 3, 3, 24, 31)]
    if t == "thorough":
        r = [(0, 0), (2, 3), (4, 8), (9, 9), (10, 23), (24, 31), (32, 56), (57, 63), (64, 255)]
        trip = [a + b + c for a in r for b in r for c in r]
    out += [U(f"many-{c}-{d}-{i}-{k}", f"h_pending_many_{c}", [d, i, k], cost=20) for c in "ms" for d in (0, 1) for i in range(4) for k in (3, 5)
            if t == "thorough" or (d, k) == (0, 3) or i == 3]
    return out + exc("pending3", trip, cost=60 if t != "thorough" else 10)


TIMED = [(2, 9), (24, 31), (32, 47)]
FMT = ("_ZN5alloc3fmt6format12format_inner",)
FETCH = [U(f"fetch-{c}-{d}", f"h_fetch_{c}", [d]) for c in "ms" for d in (0, 1)]
FETCH_TAKEN = [U(f"fetched-{c}-{d}-{k}", f"h_fetch_taken_{c}", [d, k]) for c in "ms" for d in (0, 1) for k in (0, 1)]
SHORT = [0xFFFF, 0x8001]


def plain(entry, flags=0, tag="", extra=(), stubs=(), **kw):
    """One unit per group of opcodes that denote an instruction."""
    return [U(f"{k}-{b:#06x}{tag}", entry, [b, m, flags, *extra], stubs=list(stubs), **kw) for k, b, m in groups() if k != "Unknown"]


def both_cpus(f):
    return f("m", "") + f("s", "-scc")


def c03(t):
    out = both_cpus(lambda c, g: step(ALL, f"h_both_{c}", F_FAULTS, g, t, FMT, None if t == "thorough" else SHORT) + unknown(f"h_both_{c}", 0, g))
    for d in (0, 2):
        out += both_cpus(lambda c, g: step(ALL - {"Unknown"} if t == "thorough" else ALL - {"Unknown", "Movem", "Divs", "Divu"}, f"h_pend_{c}", d, f"-pend{d}{g}", t, FMT, SHORT))
    return out


def four(classes, t, flags=0, thin=1, lists=None):
    """The fast interpreter of the MC68000 and the disassembling one of the SCC68070; the other two combinations in the thorough tier."""
    if t == "thorough":
        return [u for c in "ms" for d in (0, F_DIS) for u in step(classes, f"h_step_{c}", flags | d, f"-{c}{d}", t, FMT if d else ())]
    second = step(classes, "h_step_s", flags | F_DIS, "-dis-scc", t, FMT, lists if lists else SHORT)
    return step(classes, flags=flags, tier=t, lists=lists) + thinned(second, thin)


def thinned(units, n):
    """One unit of n, and one of each instruction at least."""
    seen = {}
    keep = []
    for u in units:
        k = u["id"].split("-")[0]
        seen[k] = seen.get(k, -1) + 1
        if seen[k] % n == 0:
            keep.append(u)
    return keep


def c12(t):
    return four(ALL, t, F_EXC, 12, SHORT) + unknown(flags=F_EXC) + exc("entry_odd", [(1, 255)], (0, 1)) + FETCH + FETCH_TAKEN


def c13(t):
    return (four(ALL, t, F_EXC | F_FAULTS, 12, SHORT) + unknown(flags=F_EXC | F_FAULTS) + exc("entry_fault", [(1, 255)], (0, 1))
            + FETCH + FETCH_TAKEN + [U("unreadable", "h_unreadable", [0, 0, 0])]
            + both_cpus(lambda c, g: [u for i in range(4) for u in plain(f"h_refused_{c}", 0, f"-ext{i}{g}", (i,), vacuous_ok=True)]))


def c11(t):
    out = []
    of = lambda u: u["id"].split("-")[0]
    for c, d in (("m", 0), ("s", F_DIS)) if t == "quick" else [(c, d) for c in "ms" for d in (0, F_DIS)]:
        out += step(ALL, f"h_user_{c}", F_FAULTS | d, f"-{c}{d}", t, FMT, None if t == "thorough" else SHORT) + unknown(f"h_user_{c}", d, f"-{c}{d}")
    return out


def c14(t):
    out = []
    for d in (0, F_DIS):
        out += both_cpus(lambda c, g: step(ALL, f"h_nopanic_{c}", F_FAULTS | d, f"-{d}{g}", t, FMT, None if t == "thorough" else SHORT) + unknown(f"h_nopanic_{c}", F_FAULTS | d, f"-{d}{g}"))
    return out + exc("nopanic_exc", [(3, 255)], (0, 1))


def c21(t):
    n = 17 if t == "thorough" else 9
    return ([U(f"slice-{k}-{l}-{s}-{w}", "h_slice", [k, l, s, w]) for k in range(4) for l in range(n) for s in (1, 2, 4) for w in (0, 1)] + [U("iter", "h_iter", [0]), U("long", "h_iter", [1])])


def c24(t):
    d = 7 if t == "thorough" else 0
    runs = []
    for c in "ms":
        n = (14 if c == "m" else 21) + d
        runs += [U(f"cycle-{c}", f"h_run_{c}", [0, 0, n, 4], cost=20), U(f"until-{c}", f"h_run_{c}", [1, 0, n, 4], cost=20), U(f"loop-{c}", f"h_run_{c}", [2, 1, 0, 4], cost=20),
                 U(f"pending-{c}", f"h_run_pending_{c}", [0, 0, 58 if c == "m" else 63, 2], cost=20)]
    return runs


ASM = ("d asd as as as sd asd as - - ad sd c a a a a - a a - a a a as as as as s c a a as as - - d - - a a a - ad sd asm as a a a d asd sd - a a a as as - as asd as - - a - ad sd ad sd - - - d ac - asd as as as sd - a - - as - -").split()


def c20(t):
    rng = {"a": range(12), "s": range(3), "d": range(13), "c": range(16), "m": range(12)}
    return [U(f"asm-{f}-{x}-{y}-{z}", "h_asm", [f, x, y, z]) for f, k in enumerate(ASM) for x in (rng["a"] if "a" in k else [0]) for y in (rng["s"] if "s" in k else [1])
            for z in next((rng[c] for c in "dcm" if c in k), [0])]


FFI_SOME = {"Nop", "Add", "Reset", "Illegal", "Movep", "Stop", "Trap", "Movem", "Rte", "Tas"}


def c23(t):
    def steps(classes, f, k):
        us = step(classes, f"h_ffi_step_{k}", F_FAULTS, f"-{k}{f}", t, FMT, None if t == "thorough" else SHORT)
        for u in us:
            u["params"] = (u["params"] + [0] * 6)[:6] + [f]
        return us
    every = ALL if t == "thorough" else FFI_SOME
    out = [u for f in range(4) for u in steps(ALL if f == 1 else every, f, "m") + steps(ALL if f == 1 and t == "thorough" else every, f, "s")]
    for c in "ms":
        out += [U(f"misc{i}-{c}", f"h_ffi_misc_{c}", [i, 0, 0]) for i in range(8)]
        out += [U(f"text{k}-{o}-{n}-{c}", f"h_ffi_text_{c}", [k, o, n]) for k in (0, 1) for o in range(6) for n in range(1, 12)]
        out += [U(f"run{p[0]}-{c}", f"h_ffi_run_{c}", p) for p in ([0, 0, 14, 3], [1, 0, 14, 3], [2, 1, 0, 4])]
    return out


TEXT_SOME = FLOW - {"Unknown"} | {"Stop", "Movem", "Movep", "Tas", "Exg", "Lea"}


def c25(t):
    some = ALL if t == "thorough" else TEXT_SOME
    lists = None if t == "thorough" else SHORT
    forms = [U(f"form-{m}-{r}-{f}-{z}", "h_form", [m, r, f, z]) for m in range(8) for r in (range(5) if m == 7 else [0]) for f in range(3) for z in ((1, 2, 4) if (m, r) == (7, 4) else [4])]
    forms += [U(f"forms-{i}-{j}", "h_form_other", [i, j]) for i in range(4) for j in range(4 if i == 3 else 1)]
    return (plain("h_text") + unknown("h_text") + forms
            + both_cpus(lambda c, g: [u for d in (0, F_NOTES) for u in step(some, f"h_text_{c}", d, f"-run{d}{g}", t, (), lists)]))


def c27(t):
    n = {3: 6, 5: 12, 7: 256}
    return [U(f"helpers-{i}-{j}", "h_helpers", [i, j]) for i in range(11) for j in range(n.get(i, 1))]


RAISES = {"Trap", "Trapv", "Chk", "Illegal", "Divs", "Divu"} | PRIV


def c28(t):
    out = []
    of = lambda u: u["id"].split("-")[0]
    for c, d in (("m", 0), ("s", F_DIS)) if t == "quick" else [(c, d) for c in "ms" for d in (0, F_DIS)]:
        e, g = f"h_taken_{c}", f"-{c}{d}"
        us = step(ALL, e, d, g, t, FMT, None if t == "thorough" else SHORT)
        if t == "quick":
            us = [u for u in us if of(u) in RAISES and not (of(u)[:3] == "Div" and u["params"][0] & 0x3F in (0x30, 0x3B))] + thinned([u for u in us if of(u) not in RAISES], 12)
        out += us + unknown(e, d, g)
    # With an inhibited interrupt pending.
    for c in "ms":
        for d in (0, F_DIS) if t == "thorough" else (0,) if c == "m" else (F_DIS,):
            us = step(ALL, f"h_taken_{c}", d | F_PENDING, f"-pending-{c}{d}", t, FMT, SHORT)
            out += thinned([u for u in us if of(u)[:3] != "Div" and of(u) != "Rte"], 60) if t == "quick" else us
    return out + FETCH_TAKEN


def c29(t):
    """The instruction before, each interpreter before and after."""
    def units(c, d, k, e, n):
        us = [u for u in step(ALL, f"h_history_{c}", d, f"-after{k}{'d' if e else 'f'}-{c}{d}", "quick", FMT, SHORT) if k or "-le" not in u["id"]]
        us += unknown(f"h_history_{c}", d, f"-after{k}{'d' if e else 'f'}-{c}{d}")
        for u in us:
            u["params"] = (u["params"] + [0] * 8)[:6] + [k, e]
        return thinned(us, n)
    if t == "quick":
        return [u for k in range(7) for u in units("ms"[k & 1], (0, F_DIS)[k >> 1 & 1], k, k >> 1 & 1, 20)] + units("s", F_DIS, 0, 1, 20) + units("m", F_DIS, 0, 0, 30) + units("m", 0, 0, 1, 30)
    return [u for c in "ms" for d in (0, F_DIS) for e in (0, 1) for k in range(7) for u in units(c, d, k, e, 2 if k == 0 else 8)]


def c30(t):
    return four(ALL, t, F_BUS, 12, SHORT) + unknown(flags=F_BUS)


PROPS = {
    "C30": P(c30, ANY + "; no bus error"),
    "C29": P(c29, "one step of any instruction (one group of 20 in the quick tier) after one of: the same opcode, MOVEQ, TRAP, a memory move, JSR, ADDI to memory, STOP, at any address with any operands, by either interpreter; no bus error"),
    "C01": P(lambda t: [U(f"dec-{h:02x}", "h_decode", [h]) for h in range(256)], "every 16-bit opcode", validate=60),
    "C04": P(lambda t: four(ARITH, t), ONE),
    "C05": P(lambda t: four(LOGIC, t), ONE),
    "C06": P(lambda t: four(SHIFT, t), ONE),
    "C07": P(lambda t: four(BCD, t), ONE + "; operands with valid decimal digits (undefined otherwise)"),
    "C08": P(lambda t: four(MOVE, t),
             ONE + "; MOVEM register lists of at most one register (2 in the thorough tier), and the lists " + ", ".join(f"{l:#06x}" for l in LISTS_QUICK)),
    "C09": P(lambda t: four(FLOW, t) + unknown() + unknown("h_step_s", F_DIS, "-dis-scc"), ONE),
    "C10": P(lambda t: four(PRIV, t), ONE),
    "C02": P(lambda t: plain("h_from_memory") + unknown("h_from_memory"), "every opcode, with all values of its extension words (5 words) and every even address"),
    "C03": P(c03, ANY + "; any set of refused addresses apart from the instruction itself; both CPU models" + "; also with an exception of any vector pending"),
    "C11": P(c11,
             ANY + "; user mode; any set of refused addresses apart from the instruction itself" + TWO),
    "C12": P(c12, ANY + "; no bus error; MC68000 model with the fast interpreter, one group of 12 also SCC68070 with the disassembling one (all, all combinations, in the thorough tier); exception entry with an odd supervisor stack pointer, vectors 1 to 255, and fetches at odd addresses, on both CPU models and interpreters"),
    "C13": P(c13, ANY + "; any set of refused addresses; MC68000 model with the fast interpreter, one group of 12 also SCC68070 with the disassembling one (all, all combinations, in the thorough tier); exception entry with any set of refused addresses, vectors 1 to 255, both CPU models and interpreters"),
    "C14": P(c14, ANY + "; any set of refused data addresses; both CPU models, both interpreters" + "; exceptions of vectors 3 to 255 with any set of refused addresses",
             ["refused extension words are the known finding of C13", "a bus error while a bus error or reset is processed (documented panic: the processor halts) is excluded"]),
    "C19": P(lambda t: [U(f"sr-{i}", "h_sr", [i, 0]) for i in range(6)] + [U(f"condition-{c}", "h_sr", [6, c]) for c in range(16)], "all 65536 values of the status register, all pairs of values for the operators, all 16 conditions"),
    "C20": P(c20, "every function of the assembler and every value of its arguments: register numbers, data and displacements over their whole types, the 12 addressing modes with any contents, sizes, directions and conditions",
             ["immediates are compared in the size of the instruction, the program counter of the PC relative modes is not (it is not encoded)"]),
    "C21": P(c21, "slices of 0 to 8 elements (16 in the thorough tier) of the four slice types, every 32-bit address, value and contents, the three access sizes",
             ["word slices: word and long accesses at even addresses", "read-only slices refuse writes or panic with the documented message"]),
    "C23": P(c23, "every function of the C interface, both CPU models; single steps by each interpreter function from any state with any set of refused addresses (interpreter_exception on MC68000: all opcodes; the others: the opcodes of "
             + ", ".join(sorted(FFI_SOME)) + "; all in the thorough tier), callbacks that answer any exception code and any unused data; run loops: programs of 3 instructions, up to 14 cycles; text buffers of 1 to 11 bytes and instructions without operands",
             ["text buffers have at least one byte"]),
    "C26": P(lambda t: [U(f"registers-{r}-{k}", "h_registers", [r, k]) for r in range(8) for k in range(4)] + [U(f"words-{i}", "h_words", [i]) for i in range(3)] + [U("fresh", "h_fresh", [0])],
             "every register number and value, any state; the words at any program counter with any set of refused addresses"),
    "C27": P(c27, "every value of the arguments: 16 and 32-bit data, both carries, all bit ranges, the 12 addressing modes with any contents, lists of two modes and two registers, all triples of exception vectors, all opcodes"),
    "C28": P(c28, ANY + "; no bus error, no address error (C12), even supervisor stack, handler at an odd address (which shows the state just after the exception); quick: every opcode that raises exceptions other than trace "
             "(DIVS and DIVU without indexed modes), one group of 12 of the others; with an inhibited interrupt pending one group of 60 (all in the thorough tier); refused opcode fetches and odd program counters" + TWO),
    "C25": P(c25, "every opcode, every value of its extension words (5 words), every even address; the text returned with the execution of one instruction from any state, by both functions of the disassembling interpreter, on both CPU models, for the opcodes of "
             + ", ".join(sorted(TEXT_SOME)) + " (all in the thorough tier)", ["the upper byte of the extension word of a byte immediate is 0 (it means nothing and the text may show it)", "the functions of core that write integers as text are executed, on both sides"]),
    "C24": P(c24, "programs of up to 4 instructions among those of different durations, every start state, requested cycles from 0 to 14 (21 on SCC68070); exceptions raised by the last instruction or pending"),
    "C15": P(c15, "one exception, every vector from 0 to 255, requested in any state of a core without pending exception (unmasked), taken by either interpreter, memory arbitrary and never refused, "
             "even supervisor stack pointer; handler at an odd address (which shows the state just after the exception) or a NOP; long frames (SCC68070 vectors 2 and 3) also after a MOVEQ, for the saved opcode; both CPU models",
             ["the fields of the SCC68070 long frame beyond the saved opcode are 0, as the library documents"]),
    "C16": P(c16, "every ordered pair of vectors 0 to 255 and the ordered triples of the listed ranges (all ranges in the thorough tier) requested in any state, any mask; four sets of 7 to 14 pending at once, in two orders; then the mask lowered to 0; both CPU models",
             ["exceptions of equal priority without level are taken in the order of their vectors (the manual leaves it open; the library takes the higher vector last)"]),
    "C17": P(lambda t: exc("rte", [(4, 255)], (0, 1)) + [u for u in exc("rte", [(2, 3)], (0, 1)) if u["entry"][-1] == "s"],
             "vectors 4 to 255, and vectors 2 and 3 on SCC68070 (long frames; the MC68000's cannot be returned from), in any state, unmasked, handler a lone RTE, memory arbitrary, even supervisor stack pointer, stack apart from the vector table and the handler's code; both CPU models, both interpreters"),
    "C18": P(lambda t: exc("stopped", [(0, 255)], (0, 1)) + exc("stop_pending", [(0, 255)], (0, 1)),
             "vectors 0 to 255 requested while stopped in any state, or pending and masked when STOP executes with any operand; run loops asked for 0 to 255 cycles; both CPU models, both interpreters"),
    "C22": P(lambda t: four(ALL, t, F_EXC | F_TIME)
             + exc("exc_time", [a + b for a in TIMED for b in [(0, 0)] + TIMED] + [(0, 0, 0, 0)], (0, 1)),
             ONE + "; exception processing of one and of any two of the vectors 0, 2 to 9 and 24 to 47 (the manual lists no others)",
             ["the SCC68070 figures are those of the pinned tree (no manual at hand): for it the composition of the times and their constancy are decided",
              "DIVU and DIVS take the fixed figure the library documents (the maximum)"]),
}
