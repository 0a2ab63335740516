"""P37: logged, profiled and stepped executions of the long-form interpreter are the plain execution."""
import re, common, goprog, lfvm
from gosem import *
from lfvm import pos, PK
from p12 import Chk, same, base
W = "go/interpreter/lfvm/interpreter.go"
I8 = (8, False)

def num(a, b):
    """equality of two numbers made of free quantities"""
    v = same(a, b)
    if v is None and isinstance(base(a), (int, T)) and isinstance(base(b), (int, T)):
        a, b = base(a), base(b)
        lin = lambda t: isinstance(t, int) or t.op in ("sym", "aff") and (t.op == "sym" or all(isinstance(u, T) and u.op == "sym" for u, k in t.args[1]))
        if lin(a) and lin(b): return aff_diff(a, b) == 0
    return v
def canon(x):
    return repr(x)

class Base(Policy):
    """reads of the machine registers at the current point"""
    def __init__(self, M): self.M = M
    def snap(self, E, st):
        M = self.M; L = M.L
        v = [E.load(st, Ptr(L.C, (L.cf[f][0],)), L.cf[f][1]) for f in ("pc", "gas", "refund", "returnData")]
        v.append(E.load(st, Ptr(L.S, (L.sf["stackPointer"][0],)), L.sf["stackPointer"][1]))
        return tuple(canon(base(x)) for x in v)

class Machine:
    def __init__(self, L, rep):
        self.L, self.rep, self.P = L, rep, L.P; self.C = Chk(rep, L.P)
        self.steps = expand(L.steps); self.sts = {n: v for n, v in self.C.enum(expand(PK + ".status")).items()}
        if "statusRunning" not in self.sts: raise lfvm.Missing("statusRunning")
        self.run_ = self.sts["statusRunning"]; self.err = T("nonnil", T("violation"))
        self.nops = {v: n for n, v in L.opcodes().items()}; L.setup()
    def prog(self, ops, sp, rev=None, gas=None):
        """context about to run a known sequence of instructions"""
        L = self.L; st = L.setup(sp=sp, pc=0, static=False, rev=rev if rev is not None else max(L.rev.values()))
        if gas is not None: self.set(st, "gas", gas)
        n = len(ops); self.set(st, "code", SliceV(L.D, (), 0, n, n))
        st.mem[L.D] = {}
        for k, o in enumerate(ops):
            st.mem[L.D][(k, L.inf["opcode"][0])] = o; st.mem[L.D][(k, L.inf["arg"][0])] = 0
        return st
    def set(self, st, f, v):
        m = dict(st.mem.get(self.L.C, {})); m[(self.L.cf[f][0],)] = v; st.mem[self.L.C] = m
    def setsp(self, st, v):
        m = dict(st.mem.get(self.L.S, {})); m[(self.L.sf["stackPointer"][0],)] = v; st.mem[self.L.S] = m
    def get(self, st, f):
        k, t = self.L.cf[f]; return Engine(self.P).load(st, Ptr(self.L.C, (k,)), t)

# --- a complete run is a sequence of steps --------------------------------------
class Opaque(Base):
    """every function the step loop hands the context to has an arbitrary effect on the registers and an arbitrary outcome"""
    LIMIT = 4
    def call(self, E, st, fr, i, name, args, dst, work, put):
        M = self.M; L = M.L
        if fr.fn["name"] != M.steps or name.split(".")[-1] == "isAtLeast": return None
        if not any(isinstance(a, Ptr) and a.o == L.C for a in args): return None
        k = st.tags.get("calls", 0); st.tags["calls"] = k + 1
        st.tags["trace"] = st.tags.get("trace", ()) + ((name.split(".")[-1], canon([base(a) for a in args]), self.snap(E, st)),)
        if k >= self.LIMIT + 8: return "drop"
        tids = E.result_tids(i); outs = [()]
        for t in tids:
            s = M.P.types[t]["s"]
            vs = [None, M.err] if s == "error" else sorted(M.sts.values()) if s == expand(PK + ".status") else [True, False] if M.P.isbool(t) else [sym("$r%d" % k, ty=E.tyof(t))]
            if k >= self.LIMIT and s == "error": vs = [M.err]
            outs = [o + (v,) for o in outs for v in vs]
        # the handler may move the program counter, spend gas, move the stack pointer
        pcs = [None] if k % 2 else [None, 0]
        alts = [(o, p) for o in outs for p in pcs]
        for n, (o, p) in enumerate(alts):
            s = st if n == len(alts) - 1 else st.copy()
            if s is not st: s.nfork += 1
            M.set(s, "gas", sym("$gas%d" % k, ty=I8)); s.facts._narrow(sym("$gas%d" % k, ty=I8), 0, 1 << 62)
            M.set(s, "refund", sym("$refund%d" % k, ty=I8))
            sp = sym("$sp%d" % k, ty=I8); s.facts._narrow(sp, 0, 1024); M.setsp(s, sp)
            if p is not None: M.set(s, "pc", p - 1 if p else -1)
            s.tags["trace"] = s.tags["trace"] + (canon(o), p)
            put(s, None if not o else o[0] if len(o) == 1 else Agg("tuple", list(o), None))
            if s is not st: work.append(s)
        st.nfork += 1
        return "cont"
def finish(M, pol, E, r):
    """canonical end of a path"""
    if r.kind != "ret": return ("panic", st_trace(r), canon(r.vals))
    s, e = r.vals
    bad = same(e, None)
    if bad is None: raise Undecided("error value %r" % (e,))
    end = ("failed",) if not bad else ("status", canon(base(s)))
    return (end, st_trace(r), pol.snap(E, r.st))
def st_trace(r): return r.st.tags.get("trace", ())
def loops(M):
    rep = M.rep; L = M.L; P = M.P
    two = [o for o in (0x01, 0x5b, 0x50) if o in M.nops]
    total = 0; bad = set(); und = {}
    progs = []
    for o in sorted(M.nops): progs.append((o, two[0]) if two else (o,))
    for o in sorted(M.nops): progs.append((two[-1], o))
    for o in sorted(M.nops): progs.append((o, o))
    progs += [(), tuple(two), tuple(two[:1]) * 3, tuple(two[:2]) * 2]
    for ops in progs:
        what = "a run over %s" % (" ".join(M.nops.get(o, hex(o)) for o in ops) or "no instruction")
        try:
            pol = Opaque(M); sp = sym("$sp", ty=I8)
            st = M.prog(ops, sp)
            E = Engine(P, pol, max_paths=4000, max_seconds=20, sym_unroll=1000)
            whole = {finish(M, pol, E, r) for r in E.run(M.steps, [Ptr(L.C, ()), False], st)}
            # one step after the other
            pol2 = Opaque(M); E2 = Engine(P, pol2, max_paths=4000, max_seconds=20, sym_unroll=1000); done = set(); todo = [(M.prog(ops, sp), 0)]
            while todo:
                s, n = todo.pop()
                if n > 40: raise Undecided("no end")
                for r in E2.run(M.steps, [Ptr(L.C, ()), True], s):
                    c0, c1 = s.tags.get("calls", 0), r.st.tags.get("calls", 0)
                    f = finish(M, pol2, E2, r)
                    if f[0] == ("status", canon(M.run_)): todo.append((r.st, n + 1))
                    else: done.add(f)
        except (Undecided, AnchorMissing, KeyError, RecursionError, TypeError, ValueError, AttributeError) as e: und[what] = "%s: %s" % (type(e).__name__, str(e)[:200]); continue
        total += len(whole)
        if whole == done: rep.ok("%s is the sequence of its single steps" % what, W); continue
        a, b = sorted(whole - done, key=repr), sorted(done - whole, key=repr)
        x = (a or b)[0]
        t = " ".join(q[0] for q in x[1] if isinstance(q, tuple) and len(q) == 3)
        rep.violation("lfvm:steps", "%s is not the sequence of its single steps: %s %s with %s (after %s)" % (what, "the run ends" if a else "the steps end", "" if a else "", " ".join(map(str, x[0])), t or "nothing"), W)
        bad.add(ops)
        if len(bad) > 5: break
    for w, t in list(und.items())[:20]: rep.undec(w, t)
    rep.count("compared_paths", total)

# --- runners ----------------------------------------------------------------------
class Sched(Base):
    """the step function follows a schedule: (end of the step, position, gas, stack pointer) for every step"""
    def __init__(self, M, sched, ops): self.M, self.s, self.ops = M, sched, ops
    def call(self, E, st, fr, i, name, args, dst, work, put):
        M = self.M; L = M.L
        if name == M.steps:
            k = st.tags.get("k", 0); st.tags["k"] = k + 1
            if k >= len(self.s): st.tags["over"] = True; return "drop"
            st.tags["seq"] = st.tags.get("seq", ()) + (("step", canon(args[1]), self.snap(E, st)),)
            if not (isinstance(args[0], Ptr) and args[0].o == L.C): raise Undecided("context of the step %r" % (args[0],))
            end, pc, gas, sp = self.s[k]
            M.set(st, "pc", pc); M.set(st, "gas", gas); M.setsp(st, sp)
            put(st, Agg("tuple", [M.run_, M.err] if end == "err" else [end, None], None)); return "cont"
        if name in ("fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"): return self.out(E, st, args, put)
    def out(self, E, st, args, put):
        """formatted output to a writer"""
        s = args[-1]; v = list(args[1:-1])
        if isinstance(s, SliceV) and isinstance(s.len, int):
            v += [E.load(st, Ptr(s.o, s.p + (s.off + j,)), E.P.tindex.get("any", E.P.tindex.get("interface{}"))) for j in range(s.len)]
        else: v.append(s)
        st.tags["seq"] = st.tags.get("seq", ()) + (("write", T("sprintf", *v)),)
        put(st, Agg("tuple", [sym("$written", ty=I8), None], None)); return "cont"
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        if name in ("fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"): return self.out(E, st, args, put)
        if name.endswith("io.Writer.Write") or name.endswith(".Write"):
            st.tags["seq"] = st.tags.get("seq", ()) + (("write", args[-1]),)
            if st.tags.get("werr"):
                put(st, Agg("tuple", [0, T("nonnil", T("writeerror"))], None))
            else: put(st, Agg("tuple", [sym("$written", ty=I8), None], None))
            return "cont"
        if name.split(".")[-1] in ("Lock", "Unlock", "RLock", "RUnlock") and "sync." in name: put(st, None); return "cont"
def schedules(M):
    R = M.run_; Z = sorted(v for n, v in M.sts.items() if v != R)
    stop = M.sts.get("statusStopped", Z[0]); ret = M.sts.get("statusReturned", Z[-1]); fail = M.sts.get("statusFailed", Z[-1])
    out = [((0x01,), [(stop, 1, 91, 2)]), ((), [(stop, 0, 91, 0)]), ((0x01,), [(R, 1, 90, 1), (stop, 1, 90, 1)]), ((0x01, 0x02), [("err", 0, 80, 2)])]
    ops = (0x01, 0x80, 0x01, 0x90, 0x5b, 0x01, 0x80, 0x01)
    out.append((ops, [(R, k + 1, 1000 - 3 * k, k % 3) for k in range(7)] + [(ret, 8, 900, 1)]))
    out.append((ops, [(R, (3, 6, 1, 5, 0)[k], 700 - k, (0, 2, 1, 0, 3)[k]) for k in range(5)] + [("err", 0, 5, 1)]))
    out.append((ops[:3], [(R, 9, 50, 0), (fail, 9, 0, 0)]))
    big = sorted(M.nops)[-3:]
    out.append((tuple(big) + (0x01,), [(R, 1, 9, 1), (R, 2, 8, 0), (R, 3, 7, 1), (R, 0, 6, 1), (stop, 1, 5, 1)]))
    return out
def reference(M, ops, sched, start):
    """(instruction, gas, stack height) seen before every step"""
    out = []; pc, gas, sp = start
    for end, p, g, s in sched:
        if pc < len(ops): out.append((ops[pc], gas, sp))
        else: out.append(None)
        pc, gas, sp = p, g, s
    return out
def final(M, sched):
    e = sched[-1][0]; return M.sts["statusFailed"] if e == "err" else e
def methods(M):
    for fn in sorted(M.P.fns):
        m = re.match(r"^\(?\*?(.*)\.(\w+)\)\.run$", fn)
        if not m or m.group(1) != expand(PK) or m.group(2).startswith("Mock"): continue
        if fn.startswith("(*") and ("(" + fn[2:]) in M.P.fns: continue
        ps = M.P.fns[fn]["params"]
        if len(ps) != 2 or M.P.types[ps[1]["t"]]["s"] != "*" + expand(PK + ".context"): continue
        yield fn, m.group(2), fn.startswith("(*")
def receiver(M, fn, tname, ptr, st):
    P = M.P; t = P.typ(expand(PK + "." + tname)); E = Engine(P)
    vals = []
    for k, f in enumerate(P.types[t]["f"]):
        tt = P.types[f["t"]]
        vals.append(T("nonnil", T("writer")) if tt["k"] == "iface" else E.zero(f["t"]))
    if not ptr: return Agg("s", vals, t)
    o = ("h", "runner"); st.mem[o] = {(k,): v for k, v in enumerate(vals)}
    return Ptr(o, ())
def contains(t, x):
    """does a term mention a value"""
    if t is x or (isinstance(t, (int, bytes)) and not isinstance(t, bool) and t == x): return True
    if isinstance(t, T): return any(contains(a, x) for a in t.args)
    if isinstance(t, Iface): return contains(t.v, x)
    if isinstance(t, (tuple, list)): return any(contains(a, x) for a in t)
    if isinstance(t, Agg): return any(contains(a, x) for a in t.e)
    return False
def runners(M):
    rep = M.rep; P = M.P; L = M.L; seen = 0
    for fn, tname, ptr in methods(M):
        seen += 1
        for n, (ops, sched) in enumerate(schedules(M)):
            what = "%s over %d steps (%d)" % (tname, len(sched), n); where = "go/interpreter/lfvm (%s).run" % tname
            try:
                st = M.prog(ops, 2, gas=1000); arg = receiver(M, fn, tname, ptr, st); pol = Sched(M, sched, ops)
                st.facts._narrow(sym("$written", ty=I8), 0, 1 << 30)
                E = Engine(P, pol, max_paths=200, max_seconds=20, sym_unroll=1000)
                start = pol.snap(E, st)
                rs = E.run(fn, [arg, Ptr(L.C, ())], st)
            except (Undecided, AnchorMissing, KeyError, RecursionError) as e: rep.undec(what, str(e)[:200]); continue
            if not rs: rep.undec(what, "no path ends"); continue
            for r in rs:
                if r.kind != "ret": rep.violation("lfvm:%s:panic" % tname, "%s panics" % what, where); break
                seq = r.st.tags.get("seq", ()); st_ = [q for q in seq if q[0] == "step"]
                e = same(r.vals[1], None)
                if e is not True: (rep.violation("lfvm:%s:error" % tname, "%s reports an error of its own" % what, where) if e is False else rep.undec(what, "error value")); break
                whole = [q for q in st_ if q[1] == canon(False)]
                if whole:
                    # the plain runner: one complete execution, no single steps
                    ok = len(st_) == 1 and same(r.vals[0], sched[0][0] if sched[0][0] != "err" else M.sts["statusFailed"]) is True and st_[0][2] == start
                    rep.check(ok, "lfvm:%s:plain" % tname, "%s executes the program %d times, or not from its start, or reports another status" % (what, len(st_)), where); break
                if not rep.check(len(st_) == len(sched), "lfvm:%s:steps" % tname, "%s executes %d steps instead of %d" % (what, len(st_), len(sched)), where): break
                if not rep.check(same(r.vals[0], final(M, sched)) is True, "lfvm:%s:status" % tname, "%s reports status %r" % (what, r.vals[0]), where): break
                # registers at every step are those the previous step left
                want = [start]; 
                for k, (_, pc, gas, sp) in enumerate(sched):
                    want.append((canon(pc), canon(gas), start[2], start[3], canon(sp)))
                got = [q[2] for q in st_] + [pol.snap(E, r.st)]
                k = next((k for k in range(len(want)) if want[k] != got[k]), None)
                if not rep.check(k is None, "lfvm:%s:state" % tname, "%s changes the machine state before step %s: %s" % (what, k, "" if k is None else got[k]), where): break
                observed(M, tname, what, where, ops, sched, seq, r, E, ptr, arg)
                break
    if not seen: rep.undec("runners", "no run method")
def top(M, E, st, sp):
    return T("init", M.L.S, (M.L.sf["data"][0], sp - 1))
def observed(M, tname, what, where, ops, sched, seq, r, E, ptr, arg):
    """what is reported about the execution"""
    rep = M.rep; ref = reference(M, ops, sched, (0, 1000, 2))
    writes = [q for q in seq if q[0] == "write"]
    if writes or "log" in tname.lower():
        exp = []; k = 0
        order = [q[0] for q in seq]
        for x in ref: exp += (["write"] if x else []) + ["step"]
        if not rep.check(order == exp, "lfvm:%s:lines" % tname, "%s: the log has not one line before every executed instruction (%s)" % (what, " ".join(order)), where): return
        for x, q in zip([x for x in ref if x], writes):
            t = q[1]
            if isinstance(t, SliceV): t = E.bytesterm(r.st, t) if False else content(E, r.st, t)
            op, gas, sp = x
            v = line(M, t, op, gas, sp)
            if v is None: rep.undec(what + ": log line", repr(t)[:200]); return
            if not rep.check(v is True, "lfvm:%s:line" % tname, "%s: the line of %s at gas %d and %d stack elements shows something else" % (what, M.nops.get(op, hex(op)), gas, sp), where): return
        return
    if ptr: stats(M, tname, what, where, [x[0] for x in ref if x], r, E, arg)
def content(E, st, s):
    m = st.mem.get(s.o, {})
    if s.p in m: return m[s.p]
    if () in m: return m[()]
    return T("sl", s.o, *[v for v in m.values()])
def line(M, t, op, gas, sp):
    """does a log line show instruction, gas and stack top: True / False / None"""
    if isinstance(t, (SliceV,)): return None
    txt = repr(t)
    has = contains(t, gas) or (b"%d" % gas) in lits(t)
    hop = contains(t, op) or any(n and n.encode() in lits(t) for n in (M.nops.get(op),))
    return None if not (has or hop) and "sprintf" not in txt else has and hop
def lits(t):
    if isinstance(t, bytes): return t
    if isinstance(t, T): return b"|".join(lits(a) for a in t.args)
    if isinstance(t, Iface): return lits(t.v)
    return b""
def counts(seq):
    out = [{}, {}, {}, {}]
    for n in range(1, 5):
        for k in range(len(seq) - n + 1):
            key = 0
            for x in seq[k:k + n]: key = key << 16 | x
            out[n - 1][key] = out[n - 1].get(key, 0) + 1
    return out
def tables(M, E, st, arg):
    """(count, [single, pair, triple, quad]) of a runner's collected statistics"""
    P = M.P; t = P.typ(expand(PK + ".statisticRunner")); fs = P.types[t]["f"]
    k = next(k for k, f in enumerate(fs) if P.types[f["t"]]["s"] == "*" + expand(PK + ".statistics"))
    p = E.load(st, Ptr(arg.o, arg.p + (k,)), fs[k]["t"])
    if p is None: return 0, [{}, {}, {}, {}]
    sf = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[P.typ(expand(PK + ".statistics"))]["f"])}
    ld = lambda n: E.load(st, Ptr(p.o, p.p + (sf[n][0],)), sf[n][1])
    out = []
    for n in ("singleCount", "pairCount", "tripleCount", "quadCount"):
        q = ld(n)
        if q is None: out.append({}); continue
        m = st.mem.get(q.o) or {}
        if ("#complete",) not in m: raise Undecided("table " + n)
        out.append({z[1]: v for z, v in m.items() if z[0] == "#m" and v != 0})
    return ld("count"), out
NAMES = ("single", "pair", "triple", "quad")
def stats(M, tname, what, where, seq, r, E, arg):
    rep = M.rep
    if tname != "statisticRunner": return
    try: n, tb = tables(M, E, r.st, arg)
    except (Undecided, StopIteration, KeyError, AnchorMissing) as e: rep.undec(what + ": statistics", str(e)[:200]); return
    def cmp(n, tb, seqs, txt):
        want = [{}, {}, {}, {}]
        for s in seqs:
            for a, b in zip(want, counts(s)):
                for k, v in b.items(): a[k] = a.get(k, 0) + v
        if not rep.check(same(n, sum(map(len, seqs))) is True, "lfvm:stats:count", "%s: %s: %r executed instructions are counted instead of %d" % (what, txt, n, sum(map(len, seqs))), where): return
        for nm, a, b in zip(NAMES, want, tb):
            if not rep.check(a == b, "lfvm:stats:" + nm, "%s: %s: the %s counts are not those of the executed instructions (%s)" % (what, txt, nm, diff(a, b)), where): return
    cmp(n, tb, [seq], "statistics of one run")
    # a second run adds to the first
    P = M.P; ops, sched = schedules(M)[4]
    try:
        st = r.st.copy(); m = M.prog(ops, 2, gas=1000)
        for o in (M.L.C, M.L.S, M.L.D): st.mem[o] = m.mem[o]
        st.tags = {}; fn = next(f for f, t, p in methods(M) if t == tname)
        E2 = Engine(P, Sched(M, sched, ops), max_paths=50, max_seconds=20, sym_unroll=1000)
        rs = E2.run(fn, [arg, Ptr(M.L.C, ())], st)
        if len(rs) == 1 and rs[0].kind == "ret":
            n, tb = tables(M, E2, rs[0].st, arg)
            cmp(n, tb, [seq, [x[0] for x in reference(M, ops, sched, (0, 1000, 2)) if x]], "statistics of two runs")
        fn = "(*%s.statisticRunner).reset" % expand(PK)
        if fn in P.fns:
            for r2 in E2.run(fn, [arg], rs[0].st):
                if r2.kind != "ret": continue
                n, tb = tables(M, E2, r2.st, arg); cmp(n, tb, [], "statistics after a reset")
    except (Undecided, AnchorMissing, KeyError, StopIteration) as e: rep.undec(what + ": repeated runs", str(e)[:200])
def diff(a, b):
    for k in sorted(set(a) | set(b), key=repr):
        if a.get(k, 0) != b.get(k, 0): return "%s: %s instead of %s" % (hex(k) if isinstance(k, int) else repr(k)[:80], repr(b.get(k, 0))[:60], a.get(k, 0))
    return ""

# --- the stepping interface of the conformance tests ------------------------------
ST = "~ct/st"
class Stepping(Sched):
    def call(self, E, st, fr, i, name, args, dst, work, put):
        M = self.M; L = M.L
        if name == "(*sync.Pool).Get" and expand(PK) + "." in fr.fn["name"]:
            n = st.tags.get("pool", 0); st.tags["pool"] = n + 1
            o = ("h", "pstk%d" % n); st.mem[o] = {(M.L.sf["stackPointer"][0],): 0}
            put(st, Iface(M.P.typ("*" + expand(PK + ".stack")), Ptr(o, ()))); return "cont"
        if name == "(*sync.Pool).Put": put(st, None); return "cont"
        if name.endswith("utils.ToVmParameters"):
            st.tags["exported"] = args[0]; put(st, self.params); return "cont"
        if name.endswith(".Converter).Convert"):
            st.tags["conv"] = args[1:]; n = sym("$ncode", ty=I8); put(st, SliceV(L.D, (), 0, n, n)); return "cont"
        if name.endswith(".getPcMap") or name.endswith(".genPcMap"):
            st.tags["map"] = args[-1]; put(st, Ptr(("h", "pcmap"), ())); return "cont"
        if name == M.steps:
            if not isinstance(args[0], Ptr): raise Undecided("context %r" % (args[0],))
            c = args[0]; st.tags["ctx"] = c; k = st.tags.get("k", 0); st.tags["k"] = k + 1
            ld = lambda f: E.load(st, Ptr(c.o, c.p + (L.cf[f][0],)), L.cf[f][1])
            if k >= len(self.s): return "drop"
            st.tags["flags"] = st.tags.get("flags", ()) + (args[1],)
            if k == 0:
                st.tags["start"] = {f: ld(f) for f in L.cf}; sp = ld("stack")
                st.tags["stk"] = self.stack(E, st, sp); m = ld("memory")
                fl = lambda n: E.load(st, Ptr(m.o, m.p + (L.mf[n][0],)), L.mf[n][1])
                s = fl("store"); st.tags["mem"] = (s, [E.load(st, Ptr(s.o, s.p + (s.off + j,)), M.P.tindex["uint8"]) for j in range(s.len)] if isinstance(s, SliceV) and isinstance(s.len, int) else None, fl("currentMemoryCost"))
            end, pc, gas, n = self.s[k]
            w = lambda f, v: E.store(st, Ptr(c.o, c.p + (L.cf[f][0],)), v, L.cf[f][1])
            w("pc", pc); w("gas", gas); w("refund", gas + 7)
            sp, m = ld("stack"), ld("memory")
            E.store(st, Ptr(sp.o, sp.p + (L.sf["stackPointer"][0],)), n, L.sf["stackPointer"][1])
            for j in range(n): E.store(st, Ptr(sp.o, sp.p + (L.sf["data"][0], j)), T("sym", "$w%d_%d" % (k, j)), M.P.types[L.sf["data"][1]]["e"])
            E.store(st, Ptr(m.o, m.p + (L.mf["store"][0],)), SliceV(("h", "newmem%d" % k), (), 0, 32 * k, 32 * k), L.mf["store"][1])
            w("returnData", SliceV(("h", "newret%d" % k), (), 0, 3, 3)); st.mem[("h", "newret%d" % k)] = {(j,): 10 * k + j for j in range(3)}
            put(st, Agg("tuple", [M.run_, M.err] if end == "err" else [end, None], None)); return "cont"
    def stack(self, E, st, p):
        M = self.M; L = M.L
        n = E.load(st, Ptr(p.o, p.p + (L.sf["stackPointer"][0],)), L.sf["stackPointer"][1])
        if not isinstance(n, int): return None
        return [E.load(st, Ptr(p.o, p.p + (L.sf["data"][0], j)), M.P.types[L.sf["data"][1]]["e"]) for j in range(n)]
def mentions(t, out=None):
    """opaque origins a value is made of"""
    out = set() if out is None else out
    if isinstance(t, T):
        if t.op == "init": out.add((t.args[0], tuple(x for x in t.args[1] if type(x) is int)[:1])); return out
        if t.op == "sym": out.add(t.args[0]); return out
        for a in t.args: mentions(a, out)
    elif isinstance(t, Agg):
        for a in t.e: mentions(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t: mentions(a, out)
    elif isinstance(t, Iface): mentions(t.v, out)
    return out
def stepping(M):
    rep = M.rep; P = M.P; L = M.L; w = "go/interpreter/lfvm/ct.go StepN"
    fns = [n for n in P.fns if n.endswith(".StepN") and expand(PK) + "." in n and P.has(n)]
    if len(fns) != 1: rep.undec("stepping interface", "function StepN"); return
    fn = fns[0]; stt = P.typ(expand(ST + ".State")); sf = {f["n"]: (k, f["t"]) for k, f in enumerate(P.types[stt]["f"])}
    sts = M.C.enum(expand(ST + ".StatusCode")); run = sts.get("Running")
    pm = {f["n"]: (k, f["t"]) for k, f in enumerate(P.types[P.typ(expand(PK + ".pcMap"))]["f"])}
    pf = {f["n"]: (k, f["t"]) for k, f in enumerate(P.types[L.pt]["f"])}
    want_st = {"statusRunning": "Running", "statusReturned": "Stopped", "statusStopped": "Stopped", "statusReverted": "Reverted", "statusSelfDestructed": "Stopped", "statusFailed": "Failed"}
    R = M.run_
    def go(status, nsteps, sched, nstack, nmem, pc):
        st = State(); E = Engine(P, None); o = ("h", "state"); m = {}
        def setf(n, v): m[(sf[n][0],)] = v
        setf("Status", status); setf("Pc", pc); setf("Revision", max(L.rev.values())); setf("Gas", sym("$gas0", ty=I8)); setf("GasRefund", sym("$refund0", ty=I8)); setf("ReadOnly", sym("$ro"))
        for n, f in (("Code", "Code"), ("Stack", "Stack"), ("Memory", "Memory")): setf(n, Ptr(("h", "st" + f), ()))
        bt = P.typ(expand("~ct/common.Bytes"))
        for n, v in (("LastCallReturnData", b"\x01\x02\x03"), ("ReturnData", b"old"), ("CallData", b"in")): setf(n, Agg("s", [v], bt))
        st.mem[o] = m
        sl = [k for k, f in enumerate(P.types[P.typ(expand(ST + ".Stack"))]["f"]) if P.types[f["t"]]["k"] == "slice"]
        ml = [k for k, f in enumerate(P.types[P.typ(expand(ST + ".Memory"))]["f"]) if P.types[f["t"]]["k"] == "slice"]
        if len(sl) != 1 or len(ml) != 1: raise Undecided("layout of the test state")
        st.mem[("h", "stStack")] = {(sl[0],): SliceV(("h", "ststk"), (), 0, nstack, 1024)}
        st.mem[("h", "stMemory")] = {(ml[0],): SliceV(("h", "stmem"), (), 0, nmem, nmem)}
        st.mem[("h", "pcmap")] = {(pm["evmToLfvm"][0],): SliceV(("h", "to"), (), 0, 10, 10), (pm["lfvmToEvm"][0],): SliceV(("h", "from"), (), 0, 10, 10)}
        for a, b in (("to", 20), ("from", 40)): st.mem[("h", a)] = {(j,): b + j for j in range(10)}
        pol = Stepping(M, sched, ())
        pol.params = Agg("s", [max(L.rev.values()) if f["n"] == "Revision" else sym("$param_" + f["n"], ty=P.ity(f["t"])) if P.ity(f["t"]) else T("nonnil", T("ctxhost")) if f["n"] == "Context" else SliceV(("h", "pcode"), (), 0, 5, 5) if f["n"] == "Code" else Ptr(("h", "phash"), ()) if f["n"] == "CodeHash"
            else nested(E, P, f["t"], L) for f in P.types[L.pt]["f"]], L.pt)
        st.facts._narrow(sym("$ncode", ty=I8), 0, 1 << 20)
        E = Engine(P, pol, max_paths=60, max_seconds=30, sym_unroll=1000)
        ap = Ptr(("h", "adapter"), ()) if fn.startswith("(*") else fresh("adapter")
        rs = E.run(fn, [ap, Ptr(o, ()), nsteps], st)
        rs = [r for r in rs if r.kind == "ret" and same(r.vals[1], None) is True] or rs
        if len(rs) != 1 or rs[0].kind != "ret": raise Undecided("%d outcomes" % len(rs))
        return rs[0], E, m, o, pol
    fld = lambda r, E, o, n: E.load(r.st, Ptr(o, (sf[n][0],)), sf[n][1])
    ends = [("statusRunning", R)] + [(n, M.sts[n]) for n in want_st if n in M.sts and n != "statusRunning"] + [("statusFailed", "err")]
    cases = []
    for n, v in ends: cases.append((n, 1, [(v, 3, 55, 2)], 3, 33, 4))
    for ns in (0, 1, 2, 3, 5): cases.append(("statusRunning" if ns < 3 else "statusReturned", ns, [(R, 1, 70, 1), (R, 6, 60, 0), (M.sts.get("statusReturned", R), 7, 50, 4)], 2, 64, 0))
    for k in (0, 1, 4): cases.append(("statusRunning", 1, [(R, 2, 9, k)], k, 32 * k + (k > 1), 9))
    cases.append(("statusRunning", 1, [(R, 2, 9, 1)], 1, 32 * 30, 1))
    for endname, ns, sched, nstk, nmem, pc in cases:
        what = "stepping %d of %d instructions to %s with %d stack elements and %d bytes of memory" % (ns, len(sched), endname, nstk, nmem)
        try: r, E, m0, o, pol = go(run, ns, sched, nstk, nmem, pc)
        except (Undecided, AnchorMissing, KeyError, TypeError, AttributeError, StopIteration) as e: rep.undec(what, "%s: %s" % (type(e).__name__, str(e)[:200])); continue
        t = r.st.tags; k = t.get("k", 0); res = r.vals[0]
        chk = lambda c, key, txt: rep.check(c, "lfvm:StepN:" + key, "%s: %s" % (what, txt), w) if c is not None else rep.undec(what + ": " + key, txt) or True
        if not (isinstance(res, Ptr) and not res.p): rep.undec(what, "resulting state %r" % (res,)); continue
        ro = res.o
        if not chk(k == min(ns, len(sched)), "count", "%d steps are executed" % k): continue
        if not chk(all(f is True for f in t.get("flags", ())), "single", "a step is not a single instruction"): continue
        if k:
            s = t["start"]
            if not chk(num(s["pc"], 20 + pc), "pc", "execution starts at %r instead of the long form's position of %d" % (s["pc"], pc)): continue
            if not chk(gasok(s["gas"], pol, pf), "gas", "execution starts with gas %r" % (s["gas"],)): continue
            if not chk(num(base(s["refund"]), sym("$refund0", ty=I8)), "refund", "execution starts with refund %r" % (s["refund"],)): continue
            if not chk(None if t["stk"] is None else len(t["stk"]) == nstk and all(mentions(v) == {(("h", "ststk"), (j,))} for j, v in enumerate(t["stk"])), "stack", "execution starts with stack %s" % str(t["stk"])[:200]): continue
            sl, bs, cost = t["mem"]; wd = (nmem + 31) // 32
            okm = None if bs is None else len(bs) == 32 * wd and all((mentions(b) == {(("h", "stmem"), (j,))}) if j < nmem else z0(b) for j, b in enumerate(bs))
            if not chk(okm, "memory", "execution starts with other memory (%s bytes)" % (None if bs is None else len(bs))): continue
            if not chk(num(cost, wd * wd // 512 + 3 * wd), "memory-cost", "the memory's cost is %r instead of %d" % (cost, wd * wd // 512 + 3 * wd)): continue
            rd = s["returnData"]
            okr = None
            if isinstance(rd, SliceV) and isinstance(rd.len, int): okr = [E.load(r.st, Ptr(rd.o, rd.p + (rd.off + j,)), P.tindex["uint8"]) for j in range(rd.len)] == [1, 2, 3]
            if not chk(okr, "return-data", "execution starts with return data %r" % (rd,)): continue
            if not chk(s["code"].o == L.D if isinstance(s["code"], SliceV) else None, "code", "execution does not use the converted code"): continue
            if not chk(s["params"] == pol.params if isinstance(s["params"], Agg) else None, "params", "execution uses other parameters"): continue
            ctx = base(s["context"])
            if not chk(isinstance(ctx, T) and ctx == T("nonnil", T("ctxhost")), "host", "execution uses another host"): continue
        # what the resulting state shows
        last = sched[k - 1] if k else None
        if last is None:
            # nothing ran: the machine state stays
            for n, v in (("Status", run), ("Gas", None)):
                if v is not None and not chk(same(fld(r, E, ro, n), v), "idle", "%s changes without a step" % n): break
            continue
        end, npc, gas, nsp = last; nm = next((a for a, v in M.sts.items() if v == end), "statusFailed")
        ws = sts.get(want_st.get(nm, ""), None)
        if ws is not None and not chk(same(base(fld(r, E, ro, "Status")), ws), "status", "status %s is shown as %r" % (nm, fld(r, E, ro, "Status"))): continue
        if end == R and not chk(num(base(fld(r, E, ro, "Pc")), 40 + npc), "pc-out", "position %d is shown as %r" % (npc, fld(r, E, ro, "Pc"))): continue
        if nm == "statusFailed": continue
        if not chk(num(base(fld(r, E, ro, "Gas")), gas), "gas-out", "gas is shown as %r" % (fld(r, E, ro, "Gas"),)): continue
        if not chk(num(base(fld(r, E, ro, "GasRefund")), gas + 7), "refund-out", "refund is shown as %r" % (fld(r, E, ro, "GasRefund"),)): continue
        q = fld(r, E, ro, "Stack"); okk = None; got = None
        if isinstance(q, Ptr):
            k2 = [j for j, f in enumerate(P.types[P.typ(expand(ST + ".Stack"))]["f"]) if P.types[f["t"]]["k"] == "slice"][0]
            f2 = P.types[P.typ(expand(ST + ".Stack"))]["f"][k2]["t"]; sl = E.load(r.st, Ptr(q.o, q.p + (k2,)), f2)
            if isinstance(sl, SliceV) and isinstance(sl.len, int):
                got = [mentions(E.load(r.st, Ptr(sl.o, sl.p + (sl.off + j,)), P.types[f2]["e"])) for j in range(sl.len)]
                okk = got == [{"$w%d_%d" % (k - 1, j)} for j in range(nsp)]
        if not chk(okk, "stack-out", "the stack is shown as %s" % str(got)[:200]): continue
        q = fld(r, E, ro, "Memory"); okm = None
        if isinstance(q, Ptr):
            k2 = [j for j, f in enumerate(P.types[P.typ(expand(ST + ".Memory"))]["f"]) if P.types[f["t"]]["k"] == "slice"][0]
            f2 = P.types[P.typ(expand(ST + ".Memory"))]["f"][k2]["t"]; sl = E.load(r.st, Ptr(q.o, q.p + (k2,)), f2)
            if sl is None: okm = k == 1
            elif isinstance(sl, SliceV) and isinstance(sl.len, int):
                okm = sl.len == 32 * (k - 1) and all(mentions(E.load(r.st, Ptr(sl.o, sl.p + (sl.off + j,)), P.tindex["uint8"])) <= {(("h", "newmem%d" % (k - 1)), (j,))} for j in range(sl.len))
        if not chk(okm, "memory-out", "the memory is not the interpreter's"): continue
        nr = bytes([10 * (k - 1) + j for j in range(3)])
        for n, v in (("LastCallReturnData", nr), ("ReturnData", nr if nm in ("statusReturned", "statusReverted") else b"old")):
            x = fld(r, E, ro, n); x = x.e[0] if isinstance(x, Agg) else x
            if not chk(bytesame(E, r.st, x, v), n, "%s is %s" % (n, repr(x)[:100])): break
        else:
            bad = [n for n in ("Revision", "ReadOnly", "Code", "CallData") if n in sf and fld(r, E, ro, n) != m0[(sf[n][0],)]]
            chk(not bad, "rest", "%s changes" % ", ".join(bad))
    # states that are not running are left alone
    for n, v in sorted(sts.items()):
        if n == "Running" or n.lower().startswith("num"): continue
        what = "stepping a state in status " + n
        try: r, E, m0, o, pol = go(v, 1, [(R, 1, 2, 1)], 1, 0, 0)
        except (Undecided, AnchorMissing, KeyError, TypeError, AttributeError) as e: rep.undec(what, "%s: %s" % (type(e).__name__, str(e)[:200])); continue
        rep.check(not r.st.tags.get("k") and same(fld(r, E, r.vals[0].o, "Status"), v) is True, "lfvm:StepN:ended", "%s executes an instruction or changes the status" % what, w)
def z0(b): return b == 0 and not isinstance(b, bool) or isinstance(b, T) and b.op == "zero"
def nested(E, P, t, L):
    tt = P.types[t]
    if tt["k"] == "struct" and any(f["n"] == "Revision" for f in tt["f"]):
        return Agg("s", [max(L.rev.values()) if f["n"] == "Revision" else E.fresh(f["t"], "bp") for f in tt["f"]], t)
    return E.fresh(t, "par")
def gasok(g, pol, pf):
    g = base(g); w = pol.params.e[pf["Gas"][0]]
    return g is w or g == w or g is sym("$gas0", ty=I8)
def bytesame(E, st, x, v):
    if isinstance(x, bytes): return x == v
    if isinstance(x, T) and x.op == "bytes": return list(x.args) == list(v)
    if isinstance(x, T) and x.op in ("str", "conv", "string") and len(x.args) == 1: return bytesame(E, st, x.args[0], v)
    if isinstance(x, SliceV) and isinstance(x.len, int): return [E.load(st, Ptr(x.o, x.p + (x.off + j,)), E.P.tindex["uint8"]) for j in range(x.len)] == list(v)
    return None

def main(rep):
    try: L = lfvm.Lf(rep); M = Machine(L, rep)
    except (lfvm.Missing, AnchorMissing, KeyError) as e: rep.undec("long-form interpreter", e); return ("", "")
    loops(M)
    runners(M)
    try: stepping(M)
    except (AnchorMissing, KeyError) as e: rep.undec("stepping interface", e)
    return ("The step loop is interpreted over known instruction sequences with the instructions' effects and outcomes left open, once as a whole and once step by step; every runner is interpreted against schedules of steps.",
            "a complete run has the same paths as the sequence of single steps; every runner takes each step once, leaves the machine alone between steps, reports the last status, and logs and counts exactly the executed instructions")
