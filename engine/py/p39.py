"""P39: watching a run of evmzero (profilers, logger) changes nothing about it, and what is recorded is what happened."""
import os, time
import common, evmspec
from llsem import *
M = None
EXT = {0x31, 0x32, 0x3a, 0x3b, 0x3c, 0x3f, *range(0x40, 0x4b), 0x54, 0x55, 0x5c, 0x5d, *range(0xa0, 0xa5), 0xff}
CALLS = {0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa}
OBS = ("NoObserver", "Profiler<kFull>", "Profiler<kExternal>", "Logger")
def opname(op): return evmspec.BYCODE.get(op, "unused opcode %#04x" % op)

def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, T) or isinstance(b, T): return a is b
    return type(a) == type(b) and a == b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and int(a) == int(b)
def eqv(a, b, r):
    """a and b are equal on the path r: True, False (some valuation of the path tells them apart) or None"""
    if same(a, b): return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all3([eqv(x, y, r) for x, y in zip(a, b)])
    sc = lambda x: isinstance(x, (int, T))
    if not sc(a) or not sc(b): return False if not isinstance(a, T) and not isinstance(b, T) else None
    import ezev, hashlib
    class V(ezev.Ev):
        def h(s, *k): return int.from_bytes(hashlib.sha256(repr((s.S.i,) + k).encode()).digest(), "big")
        def u0(s, t):
            if t.op != "sym": return ezev.Ev.u0(s, t)
            n = str(t.args[0]); v = s.h(n)
            if n.startswith("tick"): return 1000 * (int(n[4:]) + 1) + v % 997
            if n == "out0": return v % 15
            if n.startswith("size:"): return v % 1000
            return s.w(v % (1 << [3, 17, 40, 63][s.S.i % 4]), t)
        def leaf(s, o, off, size): return s.h(repr(o), off) % (1 << [1, 8, 40, 63][s.S.i % 4]) % (1 << (8 * size))
    class S: pass
    seen = False
    for i in range(120):
        c = S(); c.i = i; c.memo = {}; E = V(c)
        try:
            if any(bool(E.b(x)) != bool(v) for x, v in r.st.facts.order): continue
            x, y = E.u(a), E.u(b)
        except (ezev.Unk, ezev.Bad, AttributeError, TypeError, ValueError, KeyError, IndexError): return None
        seen = True
        n = next((8 * t.ty[0] for t in (a, b) if isinstance(t, T) and t.ty), 64)
        if (x - y) % (1 << n): return False
    return True if seen else None
def all3(l):
    l = list(l); return False if any(x is False for x in l) else None if any(x is None for x in l) else True
def any3(l):
    l = list(l); return True if any(x is True for x in l) else None if any(x is None for x in l) else False
def smem(st, o):
    m = dict(st.mem.get(o) or {}); d = m.pop("default", None)
    return {k: v for k, v in m.items()}, (None if d is None else (d.o, d.dl))
def samemem(p, q):
    a, da = smem(p.st, p.val[4].o); b, db = smem(q.st, q.val[4].o)
    return da == db and set(a) == set(b) and all(a[k][0] == b[k][0] and (same(a[k][1], b[k][1]) or a[k][1] is b[k][1]) for k in a)
def host(p): return tuple(e for e in p.st.events if e[0] == "host")
def obl(p): return tuple(tuple(y for i, y in enumerate(x) if i != 6 and not (i == 0 and isinstance(y, int))) for x in p.st.tags.get("obl", ()))
def agree(p, q):
    """observed path q of the same frame as p: None or what differs"""
    if p.kind != q.kind: return "ending"
    if p.kind != "done": return "ending"
    n = ("status", "position", "gas", "refund", "stack pointer", "stack size", "memory", "return data")
    for i, x in enumerate(n):
        if i == 1: continue
        if not same(p.val[i], q.val[i]): return x
    if not same(host(p), host(q)): return "host requests"
    if not samemem(p, q): return "stack contents"
    if not same(p.st.tags.get("fetch", ()), q.st.tags.get("fetch", ())): return "program position"
    if not same(p.st.tags.get("zero", ()), q.st.tags.get("zero", ())): return "copies"
    return None

def locate(e, tr, q, memo):
    """paths of the plain run that the observed path q belongs to"""
    out = list(tr[1])
    for (a, v), c in tr[0].items():
        r = e.dec(q.st, a) if isinstance(a, T) else a
        if isinstance(r, T): r = None
        if r is None: out += [None] + locate(e, c, q, memo)
        elif bool(r) == v: out += locate(e, c, q, memo)
    return out

ANY = ("any",)
def hooks(e, op, q, k, N):
    """list of (key, text) of what the observer saw wrongly; raises Und"""
    import evmz
    f = q.st.tags.get("fetch", ()); first = op if op in evmspec.BYCODE else 0xfe
    ops = [first] + [0] * (len(f) - 1); bad = []
    if not f: raise Und("no instruction fetched")
    if k in (1, 2):
        hs = [x for x in q.st.events if x[0] == "hook"]; got = [(x[1], x[2]) for x in hs]; want = [(h, o) for o in ops for h in (0, 1)]
        if any(not isinstance(y, int) for x in got for y in x): raise Und("opcode given to the observer is not constant")
        if got != want: bad.append(("hooks", "the observer is told %s for the instructions %s" % (", ".join("%s %#04x" % ("after" if a else "before", b) for a, b in got) or "nothing", ", ".join("%#04x" % o for o in ops))))
        if any(not same(x[4], evmz.LPtr(("msg",), 0)) for x in hs): bad.append(("message", "the observer is given a context with another message"))
        seq = [x for x in q.st.events if x[0] in ("hook", "host")]
        hp = [i for i, x in enumerate(seq) if x[0] == "host"]; pos = [i for i, x in enumerate(seq) if x[0] == "hook"]
        if hp and len(pos) >= 2 and not (pos[0] < hp[0] and hp[-1] < pos[1]): bad.append(("order", "a request to the host lies outside the instruction's pair of calls to the observer"))
        return bad
    toks = []
    for x in q.st.events:
        if x[0] != "log": continue
        if not (isinstance(x[1], evmz.LPtr) and x[1].o == ("g", "_ZSt4cout")): raise Und("output to another stream")
        if isinstance(x[2], bytes) and toks and isinstance(toks[-1], bytes): toks[-1] += x[2]
        elif x[2] != b"": toks.append(x[2])
    want = []; alt = False
    def add(w):
        if isinstance(w, bytes) and want and isinstance(want[-1], bytes): want[-1] += w
        else: want.append(w)
    for i, o in enumerate(ops):
        add(("INVALID" if o == 0xfe else evmspec.BYCODE[o]).encode() if o in evmspec.BYCODE or o == 0xfe else b"?"); add(b", ")
        if i == 0: gas, size = T("mem", ("msg",), e.fo(3), 8, ty=(8, True)), N
        elif i == len(ops) - 1 and q.val[0] == 1: gas, size = q.val[2], q.val[5]
        elif i == len(ops) - 1 and q.val[0] == 4: add(ANY); continue          # the stop itself fails: only without gas to run on
        else: raise Und("state before a later instruction")
        add(("int", gas)); add(b", ")
        z = size == 0 if isinstance(size, int) else e.dec(q.st, mk_eq(size, 0))
        if isinstance(z, T): raise Und("stack size undetermined")
        if z: add(b"-empty-")
        elif i: add(("word", e.rd256(q.st, q.val[4])))
        else: add(("word", None))
        add(b"\n")
    if ANY in want:
        i = want.index(ANY); want = want[:i]; last = toks[i - 1] if i and len(toks) >= i else None
        if isinstance(last, bytes) and isinstance(want[-1], bytes) and last.startswith(want[-1]): toks = toks[:i - 1] + [want[-1]]
    ok = len(want) == len(toks)
    for w, t in zip(want, toks):
        if isinstance(w, tuple) and isinstance(t, tuple) and w[0] == t[0]:
            if w[1] is None: ok = ok and top0(e, t[1], N)
            elif w[0] == "int":
                z = eqv(w[1], t[1], q)
                if z is None: raise Und("logged number")
                ok = ok and z
            else: ok = ok and same(w[1], t[1])
        else: ok = ok and w == t
    if not ok:
        sh = lambda l: "".join(x.decode("latin1") if isinstance(x, bytes) else "<%s>" % str(x[1] if x[1] is not None else "top of the stack")[:60] for x in l).replace("\n", "|")
        bad.append(("line", "logs %r instead of %r" % (sh(toks)[:200], sh(want)[:200])))
    return bad
def top0(e, t, N):
    """the initial top of the stack"""
    import ezev
    if not (isinstance(t, T) and t.op == "u256w"): return False
    off = ezev.STKTOP - 32 * N if isinstance(N, int) else aff_make(ezev.STKTOP, {N: -32}, (8, True))
    for i, w in enumerate(t.args):
        if not (isinstance(w, T) and w.op == "mem" and w.args[0] == ("stk", 1) and same(w.args[1], off + 8 * i if isinstance(off, int) else aff_add(off, 8 * i, (8, True)))): return False
    return True

def work(a):
    op, k, seed, limit = a
    import evmz, p39w, p35
    t0 = time.time(); r = {"op": op, "k": k, "paths": 0, "bad": {}, "und": None, "steps": 0, "fns": (), "structural": 0}
    SN = sym("N", ty=(8, True)); pops = evmspec.OPS[evmspec.BYCODE[op]][1] if op in evmspec.BYCODE else 0
    cases = [None] if k < 3 else [*range(pops + 3), pops + 3]
    try:
        for ci, n in enumerate(cases):
            def frame(e):
                st, aa = evmz.frame(e); N = SN
                if n is not None:
                    if ci < len(cases) - 1: N = n; aa = [n if x is SN else x for x in aa]
                    else: st.facts._narrow(SN, n, 1024)
                return st, [evmz.LPtr(("obs",), 0)] + aa, N
            e0 = p39w.ObsEng(M, op, max_steps=4000000, max_paths=20000); st, aa, N = frame(e0); ps = e0.run("vp_o0", aa, st)
            e = p39w.ObsEng(M, op, max_steps=6000000, max_paths=30000); st, aa, N = frame(e); qs = e.run("vp_o%d" % k, aa, st)
            r["paths"] += len(ps) + len(qs); r["steps"] += e0.steps + e.steps; r["fns"] = sorted(set(r["fns"]) | e.visited)
            tr = p35.trie(ps); hit = set(); differ = {}
            for q in qs:
                if time.time() - t0 > limit: r["und"] = "time limit"; return r
                for key, text in hooks(e, op, q, k, N): r["bad"].setdefault(key, text)
                l = locate(e, tr, q, None); c = [i for i in l if i is not None]
                if len(c) != 1 or None in l: differ.setdefault("conditions", q); continue
                hit.add(c[0]); d = agree(ps[c[0]], q)
                if d: differ.setdefault(d, q)
                else: r["structural"] += 1
            if not differ and len(hit) != len(ps): differ["missing"] = None
            if differ:
                inside = lambda x: n is None or (x == n if ci < len(cases) - 1 else x >= n)
                v = sampled(op, k, ps, qs, seed, limit - (time.time() - t0), inside)
                if v: r["bad"].setdefault(v[0], v[1])
                elif not r["bad"]: r["und"] = "the observed run's %s could not be matched with the plain run's" % "/".join(sorted(differ))
    except (Und, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as x:
        r["und"] = ("%r" % (x,))[:200]
    return r
def sampled(op, k, ps, qs, seed, limit, inside):
    """a valuation under which the plain run is as specified and the observed one is not"""
    import ezev, p35, random
    t0 = time.time(); tp, tq = p35.trie(ps), p35.trie(qs); L = p35.layout(M); rnd = random.Random(seed * 7919 + op)
    for i in range(60 + len(ezev.edges(evmspec.BYCODE.get(op)))):
        if time.time() - t0 > limit: return None
        S = ezev.Sample(L, op, "full", rnd, i)
        if not inside(S.N): continue
        R = ezev.Ref(S); S.setgas(1 << 50)
        try:
            try: R.run()
            except ezev.Skip: pass
            for g in sorted({0, 2299, 2301, 1 << 50} | {m + d for m in R.marks for d in (-1, 0, 1)}):
                if not 0 <= g <= 1 << 50: continue
                S.setgas(g)
                try: R.run()
                except ezev.Skip: continue
                E = ezev.Ev(S); a, b = p35.find(tp, E), p35.find(tq, E)
                if len(a) != 1 or len(b) != 1: continue
                try:
                    if p35.compare(S, R, ps[a[0]], E, "full"): continue
                except ezev.Bad: continue
                try: c = p35.compare(S, R, qs[b[0]], E, "full")
                except ezev.Bad as x: c = "evaluates " + str(x)
                if c: return p35.aspect(c), "the observed run %s; frame: %s" % (c, p35.describe(S))
        except ezev.Unk: continue
    return None

# ---- Interpret around the interpreter
def interp(rep):
    import evmz, p39w
    W = "cpp/vm/evmzero/interpreter.cc Interpret"
    Mi = evmz.module(p39w.ITP, p39w.ITPAPI, "itp.cc"); P = lambda n: evmz.LPtr((n,), 0); S = lambda n, w=8: sym(n, ty=(w, True))
    for k, on in enumerate(("NoObserver", "Profiler<kFull>", "Profiler<kExternal>", "any observer")):
        for flags in (0, 1, 2, 3, 0xfffffffe):
            what = "%s, flags %#x" % (on, flags)
            e = p39w.ObsEng(Mi, 0); st, _ = evmz.frame(e)
            st.mem[("msg",)][e.fo(1)] = (4, flags)
            a = [P("obs"), evmz.BUF("code"), S("size:code"), evmz.BUF("jt"), S("size:jt"), P("msg"), P("hi"), P("hc"), S("rev", 4), P("cache")]
            try: rs = e.run("vp_a%d" % k, a, st)
            except (Und, KeyError, AttributeError, TypeError, ValueError, IndexError) as x: rep.undec(W, "%s: %s" % (what, repr(x)[:200])); continue
            for r in rs:
                rep.count("paths of Interpret")
                ev = r.st.events; seq = [("hook", x[1]) if x[0] == "hook" else (x[0],) for x in ev if x[0] in ("hook", "ctx", "res")]
                want = [("ctx",), ("res",)] if k == 0 else [("hook", 2), ("ctx",), ("hook", 3), ("res",)]
                rep.check(r.kind == "ret" and seq == want, "interpret:%s:order" % on, "%s: begins with %s instead of telling the observer, running once, telling the observer" % (what, seq), W)
                if seq != want: continue
                for h in ev:
                    if h[0] == "hook": rep.check(same(h[4], P("msg")), "interpret:%s:hook" % on, "%s: the observer is told of another message" % what, W)
                c = next(x for x in ev if x[0] == "ctx"); c = c[1:]
                g = ("host interface and context", "observer", "code", "code size", "jump targets", "jump target count", "message", None, "hash cache", "revision", "static flag", "gas", "initial refund", "initial state", "initial position", "initial stack size", "initial memory size", "initial return data size")
                exp = ((P("hi"), P("hc")), P("obs"), evmz.BUF("code"), S("size:code"), evmz.BUF("jt"), S("size:jt"), P("msg"), None, P("cache"), S("rev", 4), flags & 1, T("mem", ("msg",), e.fo(3), 8, ty=(8, True)), 0, 0, 0, 0, 0, 0)
                def judge(z, key, text):
                    if z is None: rep.undec(W, "unclear whether " + text)
                    else: rep.check(z, key, text, W)
                for n, x, y in zip(g, c, exp):
                    if n is None: continue
                    judge(eqv(x, y, r), "interpret:%s:%s" % (on, n), "%s: the run gets the %s %s instead of %s" % (what, n, str(x)[:80], str(y)[:80]))
                res = next(x for x in ev if x[0] == "res")
                for n, x, y in zip(("status", "gas", "refund", "return data", "return data size"), res[1:], (S("out0", 4), S("out1"), S("out2"), T("binit", "ret"), S("size:ret"))):
                    judge(eqv(x, y, r), "interpret:%s:result %s" % (on, n), "%s: reports the %s %s instead of what the run left (%s)" % (what, n, str(x)[:80], str(y)[:80]))

# ---- the profilers
def profwork(a):
    m, op = a; Mp = M2
    import evmz, p39w
    out = []; mode = ("", "kFull", "kExternal")[m]; W = "cpp/vm/evmzero/profiler.h Profiler<%s>" % mode
    counted = m == 1 or op in EXT or op in CALLS
    P = lambda n: evmz.LPtr((n,), 0)
    def go(fn, args, prep):
        e = p39w.ProfEng(Mp, 0); st = LState(); off = lambda n: e.run(n, [], LState())[0].val
        om, oa, od = off("vp_offm"), off("vp_offa"), off("vp_offd")
        st.mem[("ctx",)] = {om: (8, P("msg"))}; st.mem[("args",)] = {oa: (8, P("msg2"))}; st.mem[("ctx2",)] = {om: (8, P("msg2"))}
        prep(st, od)
        for i in range(12): st.facts._narrow(sym("tick%d" % i, ty=(8, True)), 0, 1 << 62)
        return e, e.run(fn + str(m), args, st)
    def marks(r): return {x[1]: (x[2], x[3]) for x in r.st.events if x[0] == "mark"}
    def ticks(r):
        """ticks taken in each section"""
        out = []
        for x in r.st.events:
            if x[0] == "at": out.append((x[1], []))
            elif x[0] == "tick" and out: out[-1][1].append(x[1])
            elif x[0] == "mark" and out and out[-1][0] is not None: out.append((None, []))
        return [o for o in out if o[0] is not None]
    U = (8, True)
    sub = lambda a, b: aff_add(a, b, U, -1) if isinstance(a, T) or isinstance(b, T) else (a - b) & (2**64 - 1)
    add = lambda a, b: aff_add(a, b, U) if isinstance(a, T) or isinstance(b, T) else (a + b) & (2**64 - 1)
    def prod(ls):
        if not ls: yield []; return
        for x in ls[0]:
            for y in prod(ls[1:]): yield [x] + y
    def chk(key, what, cond): out.append((cond if cond is None else bool(cond), "%s:%s" % (mode, key), what, W))
    def depth(d, d2):
        def f(st, od):
            st.mem[("msg",)] = {od: (4, d)}; st.mem[("msg2",)] = {od: (4, d2)}
        return f
    other = (op + 1) & 255; nm = opname(op)
    try:
        for d in DEPTHS + (1024,):
            e, rs = go("vp_one", [P("prof"), op, other, P("ctx")], depth(d, 0))
            for r in rs:
                if r.kind != "ret": chk("one", "%s at depth %d ends with %s" % (nm, d, r.kind), False); continue
                k = marks(r); t = ticks(r)
                chk("other", "%s changes what is recorded for another instruction or the interpreter" % nm, eqv(k[1], k[11], r) and eqv(k[2], k[12], r))
                if not counted: chk("one", "%s is recorded although it is not an external one" % nm, eqv(k[0], k[10], r)); continue
                chk("count", "%s at depth %d is counted as %s executions" % (nm, d, str(sub(k[10][0], k[0][0]))[:60]), eqv(sub(k[10][0], k[0][0]), 1, r))
                chk("ticks", "%s at depth %d gets the time %s, not the time between its two calls" % (nm, d, str(sub(k[10][1], k[0][1]))[:80]), len(t) == 2 and any3(eqv(sub(k[10][1], k[0][1]), sub(y, x), r) for x, y in prod([t[0][1], t[1][1]])))
        if op in CALLS:
            for d in DEPTHS:
                e, rs = go("vp_nest", [P("prof"), op, other, P("ctx"), P("args")], depth(d, d + 1))
                for r in rs:
                    if r.kind != "ret": chk("nest", "%s at depth %d ends with %s" % (nm, d, r.kind), False); continue
                    k = marks(r); t = ticks(r)
                    chk("nest:count", "%s with a nested run is counted as %s executions" % (nm, str(sub(k[10][0], k[0][0]))[:60]), eqv(sub(k[10][0], k[0][0]), 1, r) and eqv(sub(k[20][0], k[10][0]), 1, r))
                    chk("nest:other", "%s with a nested run changes what is recorded for others" % nm, eqv(k[1], k[11], r) and eqv(k[2], k[12], r) and eqv(k[1], k[21], r) and eqv(k[2], k[22], r))
                    if len(t) != 6: chk("nest:ticks", "%s takes no time" % nm, False); continue
                    chk("nest:ticks", "%s with a nested run gets the time %s, not its own time without the nested run's" % (nm, str(sub(k[10][1], k[0][1]))[:100]), any3(eqv(sub(k[10][1], k[0][1]), sub(sub(y, x), sub(o, i)), r) for x, i, o, y in prod([z[1] for z in t[:4]])))
                    chk("nest:stale", "%s without a nested run, after one with, gets the time %s" % (nm, str(sub(k[20][1], k[10][1]))[:100]), any3(eqv(sub(k[20][1], k[10][1]), sub(y, x), r) for x, y in prod([z[1] for z in t[4:]])))
            for inner in (op, 0x54, *sorted(CALLS - {op})[:2]):
                for d in DEPTHS[:2] + DEPTHS[3:]:
                    e, rs = go("vp_deep", [P("prof"), op, inner, P("ctx"), P("args"), P("ctx2")], depth(d, d + 1))
                    for r in rs:
                        what = "%s at depth %d with a nested run that executes %s" % (nm, d, opname(inner))
                        if r.kind != "ret": chk("deep", "%s ends with %s" % (what, r.kind), False); continue
                        k = marks(r); t = ticks(r); one = inner == op
                        chk("deep:count", "%s: counted as %s and %s executions" % (what, str(sub(k[10][0], k[0][0]))[:40], str(sub(k[11][0], k[1][0]))[:40]), eqv(sub(k[10][0], k[0][0]), 1 + one, r) and eqv(sub(k[11][0], k[1][0]), 1 + one, r))
                        chk("deep:other", "%s: changes what is recorded for the interpreter" % what, eqv(k[2], k[12], r))
                        if len(t) != 6: chk("deep:ticks", "%s: takes no time" % what, False); continue
                        own = lambda x, i, o, y: sub(sub(y, x), sub(o, i))
                        dt = sub(k[10][1], k[0][1]); di = sub(k[11][1], k[1][1]); ls = [z[1] for z in t]
                        chk("deep:ticks", "%s: gets the times %s and %s" % (what, str(dt)[:100], str(di)[:60]),
                            any3(eqv(dt, add(own(x, i, o, y), sub(b, a)), r) if one else eqv(dt, own(x, i, o, y), r) and eqv(di, sub(b, a), r) for x, i, a, b, o, y in prod(ls)))
        if op % 16 == 1 or op == 255:
            for d in DEPTHS + (1024,):
                e, rs = go("vp_run", [P("prof"), op, other, P("args")], depth(0, d))
                for r in rs:
                    if r.kind != "ret": chk("run", "a run at depth %d ends with %s" % (d, r.kind), False); continue
                    k = marks(r); t = ticks(r)
                    chk("run:other", "a run changes what is recorded for %s" % nm, eqv(k[0], k[10], r) and eqv(k[1], k[11], r))
                    if d: chk("run:depth", "a nested run at depth %d is recorded as one of the interpreter's" % d, eqv(k[2], k[12], r))
                    else:
                        chk("run:count", "a run is counted as %s" % str(sub(k[12][0], k[2][0]))[:60], eqv(sub(k[12][0], k[2][0]), 1, r))
                        chk("run:ticks", "a run gets the time %s" % str(sub(k[12][1], k[2][1]))[:80], len(t) == 2 and any3(eqv(sub(k[12][1], k[2][1]), sub(y, x), r) for x, y in prod([t[0][1], t[1][1]])))
            e, rs = go("vp_merge", [P("prof"), P("other"), op, other], depth(0, 0))
            for r in rs:
                k = marks(r) if r.kind == "ret" else {}
                for j, n in ((0, nm), (1, opname(other)), (2, "the interpreter")):
                    chk("merge", "merging gives %s other values than the sum" % n, bool(k) and all3(eqv(k[10 + j][i], add(k[j][i], k[50 + j][i]), r) for i in (0, 1)))
            e, rs = go("vp_reset", [P("prof"), op, other], depth(0, 0))
            for r in rs:
                k = marks(r) if r.kind == "ret" else {}
                chk("reset", "resetting leaves a count or a time", bool(k) and all3(eqv(k[10 + j], (0, 0), r) for j in range(3)))
    except (Und, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as x: return m, op, out, repr(x)[:200]
    return m, op, out, None

M2 = None
DEPTHS = (0, 1, 2, 511, 1023)
EXPL = ("All paths of one instruction, from an opaque frame, of evmzero's normal interpreter under each observer are compared with those of the unobserved interpreter, with the observer's calls (or the logger's output) in order; "
        "Interpret is interpreted around an opaque run; the profilers' counters are followed through instructions, nested runs, merging and resetting with opaque time stamps.")
RULE = ("an observed run ends as the plain one and the observer sees each instruction once before and once after, in its state; counters grow by the executions and the time between the two calls without nested runs; "
        "Interpret hands the request to the run unchanged and reports what it left")
def main(rep):
    global M, M2, DEPTHS
    import evmz, p39w
    from multiprocessing import Pool
    tier = rep.tier; seed = int(os.environ.get("VERIF_SEED", "1") or 1); limit = 150 if tier == "quick" else 500
    if tier != "quick": DEPTHS = tuple(sorted({0, 1, 2, 3, 511, 1022, 1023} | set(range(0, 1024, 97))))
    fns = set(); struct = paths = 0
    try: interp(rep)
    except Exception as x: rep.undec("cpp/vm/evmzero/interpreter.cc Interpret", "could not be compiled or read: %s" % str(x)[-300:])
    try: M = evmz.module(p39w.RUN, p39w.RUNAPI, "obs.cc")
    except Exception as x: rep.undec("cpp/vm/evmzero/interpreter.cc RunInterpreter", "could not be compiled or read: %s" % str(x)[-300:])
    try: M2 = evmz.module(p39w.PROF, p39w.PROFAPI, "prof.cc")
    except Exception as x: rep.undec("cpp/vm/evmzero/profiler.h", "could not be compiled or read: %s" % str(x)[-300:])
    big = (0xf1, 0xf2, 0xf4, 0xfa, 0xf0, 0xf5)
    with Pool(8) as pool:
        if M:
            jobs = [(op, k, seed, limit) for op in range(256) for k in (1, 2, 3)]; jobs.sort(key=lambda j: (j[0] not in big, -j[1]))
            for r in pool.imap_unordered(work, jobs, 1):
                w = "cpp/vm/evmzero/interpreter.cc RunInterpreter<%s> %s" % (OBS[r["k"]], opname(r["op"])); fns |= set(r["fns"]); paths += r["paths"]; struct += r["structural"]
                for key, text in sorted(r["bad"].items()): rep.violation("run:%s:%s:%s" % (OBS[r["k"]], opname(r["op"]), key), "%s under %s: %s" % (opname(r["op"]), OBS[r["k"]], text), w)
                if not r["bad"]:
                    if r["und"]: rep.undec(w, r["und"])
                    else: rep.ok(w)
        if M2:
            for m, op, out, und in pool.imap_unordered(profwork, [(m, op) for op in range(256) for m in (1, 2)], 4):
                if und: rep.undec("cpp/vm/evmzero/profiler.h %d %s" % (m, opname(op)), und)
                for c, k, w, wh in out:
                    if c is None: rep.undec(wh, "unclear: " + w[:150])
                    else: rep.check(c, "prof:" + k, w, wh)
    rep.count("functions of the interpreter analysed", len(fns)); rep.count("paths of plain and observed runs", paths); rep.count("observed paths equal to the plain path", struct)
    return EXPL, RULE
