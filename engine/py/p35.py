"""P35: evmzero executes every instruction as the Ethereum specification says.
All paths of one instruction (stepping and normal interpreter, from an opaque frame) are taken from the compiled interpreter; each path's outcome
is compared with the reference semantics under valuations of the frame and of the host's answers that satisfy the path's conditions."""
import os, random, sys, time, traceback
import common, evmspec
SPECIAL = {"CALL": 5, "CALLCODE": 4, "DELEGATECALL": 3, "STATICCALL": 3, "CREATE": 4, "CREATE2": 4, "SSTORE": 3, "SELFDESTRUCT": 3, "JUMP": 3, "JUMPI": 3, "RETURNDATACOPY": 2, "MCOPY": 2, "BLOCKHASH": 3, "EXTCODECOPY": 2, "BLOBHASH": 2}
M = None

def layout(M):
    mt, tt = M.types["struct.evmc_message"], M.types["struct.evmc_tx_context"]
    return {"msgsize": M.size(mt), "txsize": M.size(tt), "msg": [M.fieldoff(mt, i) for i in range(11)], "tx": [M.fieldoff(tt, i) for i in range(12)]}

def trie(ps):
    root = ({}, [])
    for i, p in enumerate(ps):
        n = root
        for a, v in p.st.facts.order: n = n[0].setdefault((a, bool(v)), ({}, []))
        n[1].append(i)
    return root
def find(n, E):
    out = list(n[1]); seen = {}
    for (a, v), c in n[0].items():
        if a not in seen: seen[a] = E.b(a)
        if seen[a] == v: out += find(c, E)
    return out

def stackimg(E, st, o, m=None):
    from evmz import LPtr
    import ezev
    m = st.mem.get(o) if m is None else m
    d = (m or {}).get("default")
    if d is not None:
        if getattr(d, "dl", None) != 0: raise ezev.Unk("copied stack")
        b = stackimg(E, st, d.o, d.src)
    elif o == ("stk", 1): b = bytearray(E.stkimg())
    else: b = bytearray(E.S.hb(64, "garbage", o) * (ezev.STKTOP // 64))
    b = b.ljust(ezev.STKTOP + 64, b"\0")
    for k, c in (m or {}).items():
        if k == "default": continue
        off = E.u(k)
        if off + c[0] > len(b): raise ezev.Bad("stack write beyond the stack at %d" % off)
        v = c[1]
        if not isinstance(v, int) and not hasattr(v, "op"): continue          # bookkeeping pointer
        if hasattr(v, "op") and v.op in ("undef", "poison"): continue
        b[off:off + c[0]] = (E.u(v) & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], "little")
    return b

def events(E, evs):
    """effects in order, accesses as a set"""
    import ezev
    eff, acc = [], set()
    for e in evs:
        if e[0] != "host": continue
        m = e[1]; a = e[2:]
        if m in ("access_account", "access_storage"): acc.add((m,) + tuple(E.blob(x) for x in a))
        elif m in ("set_storage", "set_transient_storage", "selfdestruct"): eff.append((m,) + tuple(E.blob(x) for x in a))
        elif m == "emit_log": eff.append((m, E.blob(a[0]), E.desc(a[1], E.u(a[2]))) + tuple(E.blob(x) for x in a[3:]))
        elif m == "call":
            k, fl, dp, gas = (E.u(x) for x in a[:4]); data = E.desc(a[6], E.u(a[7]))
            gas = ezev.sg(gas, 64)
            if k in (3, 4): eff.append((m, k, dp, gas, E.blob(a[5]), data, E.blob(a[8]), E.blob(a[9]) if k == 4 else None))
            else: eff.append((m, k, fl, dp, gas, E.blob(a[4]), E.blob(a[5]), data, E.blob(a[8]), E.blob(a[10])))
    return eff, acc

FORBID = {"call", "selfdestruct", "emit_log", "set_transient_storage"}
def compare(S, R, p, E, mode):
    """None, or the aspect in which the path differs from the reference"""
    import ezev
    v = p.val; st = p.st; sg = ezev.sg; mask = 2**64 - 1
    if p.kind != "done": return "ends by %s" % p.kind
    kind = E.u(v[0]); eff, acc = events(E, st.events)
    for b, off, n, lim, stale, what, _ in st.tags.get("obl", ()):
        n = E.u(n)
        if n == 0: continue
        o = E.u(off); l = E.u(lim)
        if o + n > l: return "accesses [%d,+%d) of %s, which has %d bytes (%s)" % (o, n, b if isinstance(b, str) else "a buffer", l, what)
        if stale is not None and E.u(stale[1]) > E.u(stale[0]): return "uses a pointer into a buffer that has since grown (%s)" % what
    for n in st.tags.get("zero", ()):
        if E.u(n): return "copies %d bytes through a null pointer" % E.u(n)
    if S.static and any(e[0] in ("set_storage", "set_transient_storage", "selfdestruct", "emit_log") or e[0] == "call" and (e[1] in (3, 4) or e[1] == 0 and any(e[8])) for e in eff): return "changes state in static mode"
    want = R.kind; gas = R.gas; jump1 = False
    f = st.tags.get("fetch", ())
    if mode == "full" and want == 0:
        want = 1
        if R.jumped:
            nx = E.u(f[1]) if len(f) > 1 else None
            if nx == R.pc + 1: gas -= 1; jump1 = True
            elif nx is None and gas < 1: want = 4
    if kind == 4:
        bad = [e for e in eff if e[0] in FORBID]
        if want != 4: return "fails where it must not"
        if bad: return "fails after the request %s" % bad[0][0]
        if E.u(v[2]) != 0: return "leaves gas after a failure"
        if E.u(v[7][1]) != 0: return "leaves return data after a failure"
        return None
    names = ["continue", "stop", "return", "revert", "fail"]
    if kind != want: return "ends with %s where the specification says %s" % (names[kind], names[want])
    if sg(E.u(v[2]), 64) != gas: return "leaves %d gas of %d, the specification says %d" % (sg(E.u(v[2]), 64), S.gas, gas)
    if sg(E.u(v[3]), 64) != R.refund: return "changes the refund by %d, the specification says %d" % (sg(E.u(v[3]), 64) - S.refund, R.refund - S.refund)
    if eff != R.eff:
        i = next((i for i, (x, y) in enumerate(zip(eff, R.eff)) if x != y), min(len(eff), len(R.eff)))
        return "requests from the host %s, the specification says %s" % (short(eff[i:i + 1], R.eff[i:i + 1]), short(R.eff[i:i + 1], eff[i:i + 1]))
    if acc != R.acc: return "touches other accounts or slots than specified"
    if mode == "step":
        if kind == 0 and E.u(v[1]) != R.pc: return "continues at %d instead of %d" % (E.u(v[1]) - S.pc, R.pc - S.pc)
    elif R.kind == 0:
        if len(f) < 2: return "does not continue"
        if E.u(f[1]) != R.pc + jump1: return "continues at %d instead of %d" % (E.u(f[1]), R.pc)
    if f and E.u(f[0]) != S.pc: return "executes the instruction at %d instead of %d" % (E.u(f[0]), S.pc)
    ret = E.buf(v[7][0]); wret = b"" if mode == "full" and kind == 1 else R.ret
    if ret != wret or E.u(v[7][1]) != len(wret): return "leaves %d bytes of return data, not the specified %d" % (len(ret), len(wret)) if len(ret) != len(wret) else "leaves other return data than specified"
    if kind >= 2: return None
    if kind == 1 and R.kind == 1: return None
    size = E.u(v[5])
    if size != len(R.stack): return "leaves %d stack elements, the specification says %d" % (size, len(R.stack))
    top = v[4]; off = E.u(top.off)
    if off != ezev.STKTOP - 32 * size: return "leaves a stack pointer that does not match the stack size"
    img = bytes(stackimg(E, st, top.o)[off:ezev.STKTOP]); exp = b"".join(x.to_bytes(32, "little") for x in R.stack)
    if img != exp:
        i = next(i for i in range(size) if img[32 * i:32 * i + 32] != exp[32 * i:32 * i + 32])
        return "leaves %#x in stack position %d, the specification says %#x" % (int.from_bytes(img[32 * i:32 * i + 32], "little"), i, R.stack[i])
    mem = E.buf(v[6][0])
    if len(mem) != len(R.mem): return "leaves %d bytes of memory, the specification says %d" % (len(mem), len(R.mem))
    if mem != R.mem:
        i = next(i for i in range(len(mem)) if mem[i] != R.mem[i]); return "leaves other memory than specified (first difference at %d)" % i
    if E.u(v[6][1]) != len(mem): return "leaves an inconsistent memory size"
    return None
def short(e, other):
    if not e: return "nothing"
    e = e[0]
    o = other[0] if other and other[0][0] == e[0] else ()
    show = lambda x: ("0x" + x.hex() if len(x) <= 32 else "%d bytes" % len(x)) if isinstance(x, bytes) else repr(x)
    return e[0] + "(" + ", ".join("…" if i < len(o) and o[i] == x else show(x) for i, x in list(enumerate(e))[1:]) + ")"

def work(a):
    op, mode, n, seed, limit = a
    import evmz, ezev
    from llsem import Und
    t0 = time.time(); r = {"op": op, "mode": mode, "paths": 0, "hit": 0, "runs": 0, "bad": {}, "und": None, "unmatched": 0, "steps": 0, "fns": ()}
    try:
        e, ps = evmz.paths(M, op, mode, max_steps=4000000, max_paths=20000)
    except (Und, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as x:
        r["und"] = "paths: %r" % (x,); return r
    r["paths"], r["steps"], r["fns"] = len(ps), e.steps, sorted(e.visited)
    tr = trie(ps); L = layout(M); hit = set(); rnd = random.Random(seed * 1000003 + op * 2 + (mode == "full")); und = {}
    ng = len(ezev.edges(evmspec.BYCODE.get(op)))
    for k in range(n + ng):
        if time.time() - t0 > limit: r["und"] = "only %d valuations within the time limit" % k; break
        S = ezev.Sample(L, op, mode, rnd, k); R = ezev.Ref(S); S.setgas(1 << 50)
        try:
            try: R.run(); base = R.marks
            except ezev.Skip: base = R.marks
            cand = {0, 2299, 2300, 2301, 1 << 50, rnd.randrange(0, 100), rnd.randrange(0, 100000)}
            for m in base:
                for d in (-1, 0, 1): cand.add(m + d)
            if base and max(base) < 1 << 50: cand |= {max(base) + rnd.randrange(0, 3000), max(base) + rnd.randrange(0, 100000), max(base) + 64 * rnd.randrange(1, 50) - 1}
            for g in sorted(x for x in cand if 0 <= x <= 1 << 50):
                S.setgas(g)
                try: R.run()
                except ezev.Skip: continue
                E = ezev.Ev(S)
                try:
                    h = find(tr, E)
                    if len(h) != 1: r["unmatched"] += 1; continue
                    hit.add(h[0]); r["runs"] += 1; c = compare(S, R, ps[h[0]], E, mode)
                except ezev.Bad as x: c = str(x); c = "evaluates " + c
                if c:
                    key = aspect(c)
                    if key not in r["bad"]: r["bad"][key] = (c, describe(S))
        except ezev.Unk as x:
            und[str(x)] = und.get(str(x), 0) + 1
            if sum(und.values()) > 20: break
        if len(r["bad"]) > 3: break
    r["hit"] = len(hit)
    if und: r["und"] = "; ".join("%s (%d)" % kv for kv in und.items())
    r["time"] = time.time() - t0
    return r
def aspect(c):
    import re
    return re.sub(r"0x[0-9a-f]+|-?\d+", "#", c)[:60]
def describe(S):
    n = evmspec.OPS[S.name][1] if S.name else 0
    return "revision %d, gas %d, stack [%s]%s, memory %d bytes, return data %d, input %d, static %s, depth %d" % (S.rev, S.gas, ", ".join("%#x" % x for x in S.stack[:max(n, 1)]), "+%d" % (S.N - n) if S.N > n else "", len(S.mem), len(S.ret), len(S.inp), S.static, S.depth)

EXPL = ("All paths of one instruction, from an opaque frame, through the compiled stepping and normal interpreter of evmzero (LLVM IR, std::vector and the host interface modelled, 256-bit arithmetic opaque); "
        "each path's gas, refund, stack, memory, return data, program position, status and host requests are compared with a reference semantics under valuations satisfying the path's conditions.")
RULE = "for every instruction, fork and mode: the outcome of each path equals the specified outcome, memory accesses stay inside their buffers, and static mode changes no state"
def main(rep):
    global M
    import evmz
    tier = rep.tier
    try: M = evmz.module()
    except Exception as x:
        rep.undec("cpp/vm/evmzero", "the interpreter could not be compiled or read: %s" % (str(x)[:300],)); return EXPL, RULE
    from multiprocessing import Pool
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); n = 120 if tier == "quick" else 2000; limit = 60 if tier == "quick" else 500
    jobs = [(op, mode, n * SPECIAL.get(evmspec.BYCODE.get(op), 1) if op in evmspec.BYCODE else 6, seed, limit) for op in range(256) for mode in ("step", "full")]
    jobs.sort(key=lambda j: -j[2] - (10000 if j[0] in (0xf1, 0xf2) else 5000 if j[0] in (0xf4, 0xfa, 0xf0, 0xf5) else 0))
    tot = dict(paths=0, hit=0, runs=0, unmatched=0, steps=0); fns = set(); n_ops = 0
    with Pool(8) as pool:
        for r in pool.imap_unordered(work, jobs, 1):
            name = evmspec.BYCODE.get(r["op"], "unused opcode %#04x" % r["op"]); where = "cpp/vm/evmzero/interpreter.cc Impl<OpCode::%s>::Run (%s)" % (name, "stepping" if r["mode"] == "step" else "normal execution")
            for k in tot: tot[k] += r[k]
            fns |= set(r["fns"]); n_ops += 1
            if r["bad"]:
                for k, (c, d) in sorted(r["bad"].items()): rep.violation("%s:%s:%s" % (name, r["mode"], k), "%s %s; frame: %s" % (name, c, d), where)
            elif r["und"]: rep.undec(where, r["und"])
            elif r["unmatched"] > r["runs"]: rep.undec(where, "%d valuations follow no path" % r["unmatched"])
            elif not r["runs"]: rep.undec(where, "no valuation")
            else: rep.ok(where)
    rep.count("instruction variants", n_ops); rep.count("functions of the interpreter analysed", len(fns)); rep.count("paths", tot["paths"]); rep.count("paths reached by a valuation", tot["hit"])
    rep.count("comparisons with the reference", tot["runs"]); rep.count("abstract steps", tot["steps"]); rep.count("valuations outside every path", tot["unmatched"])
    return EXPL, RULE
