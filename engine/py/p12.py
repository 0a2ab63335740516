"""P12: outcomes of executions keep their meaning at every component boundary."""
import common, goprog, lfvm, re, os
from gosem import *
from lfvm import pos
I8 = (8, False)
def base(t):
    while isinstance(t, T) and t.op == "conv": t = t.args[0]
    return t
def same(a, b):
    """True / False / None (unclear)"""
    a, b = base(a), base(b)
    if a is b: return True
    conc = lambda v: v is None or isinstance(v, (bool, int, bytes))
    if conc(a) and conc(b): return a == b
    if isinstance(a, SliceV) and b is None: return a.len == 0 if isinstance(a.len, int) else False
    if isinstance(b, SliceV) and a is None: return same(b, a)
    if isinstance(a, Agg) and conc(b) or isinstance(b, Agg) and conc(a): return None
    if isinstance(a, (Agg, SliceV, Ptr, Iface)) and type(a) is type(b):
        if a == b: return True
        if isinstance(a, Agg) and len(a.e) == len(b.e):
            rs = [same(x, y) for x, y in zip(a.e, b.e)]
            return False if False in rs else True if all(r is True for r in rs) else None
        if isinstance(a, Iface): return False if a.t != b.t else same(a.v, b.v)
        return None
    leaf = lambda t: isinstance(t, T) and t.op in ("sym", "uniq", "fld", "init") or conc(t)
    if leaf(a) and leaf(b): return False
    if isinstance(a, (Iface, Ptr)) and b is None or isinstance(b, (Iface, Ptr)) and a is None: return False
    if isinstance(a, T) and a.op in ("nonnil", "errorf", "uniq") and b is None or isinstance(b, T) and b.op in ("nonnil", "errorf", "uniq") and a is None: return False
    return None
def S(n, ty=I8): return sym("$" + n, ty=ty)
def bytesl(n, ln=None):
    ln = S("len" + n) if ln is None else ln
    return SliceV(("h", n), (), 0, ln, ln)

class Chk:
    def __init__(self, rep, P): self.rep, self.P = rep, P
    def fields(self, name): return [f["n"] for f in self.P.types[self.P.typ(expand(name))]["f"]]
    def agg(self, name, **kw):
        t = self.P.typ(expand(name)); E = Engine(self.P)
        return Agg("s", [kw.get(f["n"], E.zero(f["t"])) for f in self.P.types[t]["f"]], t)
    def enum(self, name):
        """declared constants of a named type: name -> value"""
        out = {}
        for n, c in self.P.consts.items():
            if isinstance(c, dict) and self.P.types[c["t"]]["s"] == name: out[n.rsplit(".", 1)[1]] = c["v"] == "true" if c["v"] in ("true", "false") else int(c["v"])
        return out
    def find(self, suffix):
        c = [n for n in self.P.fns if n.endswith(suffix)]
        return c[0] if len(c) == 1 else None
    def run(self, fn, args, pol=None, st=None, **kw):
        kw.setdefault("max_paths", 4000); kw.setdefault("max_seconds", 40)
        E = Engine(self.P, pol, **kw); self.E = E
        return E.run(fn, args, st or State())
    def expect(self, key, what, rs, check, where):
        """every path of rs satisfies check(path) -> True/False/None or (verdict, text)"""
        und = None; rep = self.rep
        if not rs: rep.undec(what, "no path"); return
        for r in rs:
            rep.count("paths")
            try: v = check(r)
            except (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError) as e: v = (None, "%s: %s" % (type(e).__name__, e))
            t = ""
            if isinstance(v, tuple): v, t = v
            if v is False: rep.violation(key, "%s: violated%s" % (what, ", " + t if t else ""), pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos") or "") or where); return
            if v is None: und = t or "not comparable: %r" % (r.vals,)
        if und: rep.undec(what, und)
        else: rep.ok(what, where)

def result_is(C, r, name, want, err=None):
    """path returns (struct with the wanted fields, nil) - err: 'nil', 'err' or 'any'"""
    if r.kind != "ret": return False, "panics"
    v, e = r.vals[0], r.vals[1]
    if err == "err":
        s = same(e, None); return (True if s is False else False if s is True else None), "no error is reported"
    if err == "nil":
        s = same(e, None)
        if s is not True: return (False if s is False else None), "an error is reported: %r" % (e,)
    fl = C.fields(name); ok = True
    for n, w in want.items():
        s = same(v.e[fl.index(n)], w)
        if s is False: return False, "%s is %r instead of %r" % (n, v.e[fl.index(n)], w)
        if s is None: ok = None
    return ok, ""

# --- long-form interpreter ----------------------------------------------------
def lfvm_run(rep):
    try: L = lfvm.Lf(rep)
    except lfvm.Missing as e: rep.undec("long-form interpreter", e); return
    C = Chk(rep, L.P); P = L.P
    ent = [n for n in P.fns if n.endswith(".Run") and "lfvm" in n and P.fns[n].get("params") and any(P.types[p["t"]]["s"] == expand("~tosca.Parameters") for p in P.fns[n]["params"])]
    if len(ent) != 1: rep.undec("lfvm outcome", "entry point Run"); return
    ent = ent[0]
    sts = {n: v for n, v in C.enum(expand("~interpreter/lfvm.status")).items()}
    where = "go/interpreter/lfvm/interpreter.go"
    G, RF, RD = S("gasleft"), S("refundleft"), bytesl("out")
    ctxname = lambda f: (L.cf[f][0],)
    class Pol(Policy):
        def __init__(self, status, err): self.s, self.e = status, err
        def outcome(self, E, st, ctx, put, fn):
            p = ctx if isinstance(ctx, Ptr) else None
            if p is None: raise Undecided("runner context %r" % (ctx,))
            ld = lambda f: E.load(st, Ptr(p.o, p.p + (L.cf[f][0],)), L.cf[f][1])
            st.tags["start"] = {f: ld(f) for f in ("pc", "gas", "refund", "code", "context", "params", "stack", "memory", "returnData")}
            for f, v in (("gas", G), ("refund", RF), ("returnData", RD)): E.store(st, Ptr(p.o, p.p + (L.cf[f][0],)), v, L.cf[f][1])
            put(st, Agg("tuple", [self.s, self.e], None)); return "cont"
        def call(self, E, st, fr, i, name, args, dst, work, put):
            if name.endswith("Converter).Convert"):
                n = S("codelen"); st.facts._narrow(n, 0, 1 << 40)
                st.tags["conv"] = args; put(st, SliceV(("h", "converted"), (), 0, n, n)); return "cont"
            if name == expand(L.steps): return self.outcome(E, st, args[0], put, name)
        def ext(self, E, st, fr, i, name, args, dst, work, put):
            if name.endswith("lfvm.runner.run"): return self.outcome(E, st, args[1], put, name)
    params = fresh("params"); newest = 0
    def prun(status, err, fn=ent, args=None): return C.run(fn, args or [Ptr(("h", "vm"), ()), params], Pol(status, err))
    def ran(r): return "start" in r.st.tags
    codelen = S("codelen")
    spec = {"statusStopped": (dict(Success=True, GasLeft=G, GasRefund=RF, Output=None), "success without output"),
            "statusSelfDestructed": (dict(Success=True, GasLeft=G, GasRefund=RF, Output=None), "success without output"),
            "statusReturned": (dict(Success=True, GasLeft=G, GasRefund=RF, Output=RD), "success with output"),
            "statusReverted": (dict(Success=False, GasLeft=G, GasRefund=0, Output=RD), "no success, gas and output kept, no refund"),
            "statusFailed": (dict(Success=False, GasLeft=0, GasRefund=0, Output=None), "no success, no gas, refund or output")}
    for n, (want, txt) in spec.items():
        if n not in sts: rep.undec("lfvm: outcome %s" % n, "status not declared"); continue
        try: rs = prun(sts[n], None)
        except (Undecided, AnchorMissing) as e: rep.undec("lfvm: outcome %s" % n, e); continue
        C.expect("lfvm:" + n, "lfvm: a frame ending with %s is reported as %s" % (n, txt), [r for r in rs if ran(r)], lambda r: result_is(C, r, "~tosca.Result", want, "nil"), where)
        if n == "statusStopped":
            pf = {f["n"]: k for k, f in enumerate(P.types[P.typ(expand("~tosca.Parameters"))]["f"])}
            pv = lambda k: T("fld", params, pf[k])
            def start(r):
                s = r.st.tags["start"]
                for f, w, t in (("gas", ("Gas",), "gas"), ("context", ("Context",), "host")):
                    v = base(s[f])
                    if not (isinstance(v, T) and v.op == "fld" and v.args[0] is params and v.args[1] == pf[w[0]]): return (False if isinstance(v, (int, T)) or v is None else None), "%s is %r" % (t, v)
                for f in ("pc", "refund"):
                    if same(s[f], 0) is not True: return same(s[f], 0), "%s is %r" % (f, s[f])
                if same(s["returnData"], None) is not True: return same(s["returnData"], None), "return data is %r" % (s["returnData"],)
                if not (isinstance(s["code"], SliceV) and s["code"].o == ("h", "converted")): return None, "code"
                if base(s["params"]) is not params: return None, "parameters %r" % (s["params"],)
                return True
            C.expect("lfvm:start", "lfvm: a frame starts at position 0 with the given gas, host, parameters and converted code, no refund and no return data", [r for r in rs if ran(r)], start, where)
            def skipped(r):
                if r.kind != "ret": return False, "panics"
                e = same(r.vals[1], None)
                if e is False: return True   # unsupported revision, checked below
                fl = C.fields("~tosca.Result"); v = r.vals[0]
                if r.st.facts.known(mk_eq(0, codelen)) is not True and r.st.facts.known(mk_eq(codelen, 0)) is not True: return None, "path without execution"
                g = base(v.e[fl.index("GasLeft")]); ok = v.e[fl.index("Success")] is True and isinstance(g, T) and g.op == "fld" and g.args == (params, pf["Gas"])
                return (ok and same(v.e[fl.index("GasRefund")], 0) and same(v.e[fl.index("Output")], None)), "result %r" % (v,)
            C.expect("lfvm:empty", "lfvm: empty code succeeds with all gas, any other code is executed unless the fork is unsupported", [r for r in rs if not ran(r)], skipped, where)
            nv = None
            for k, c in P.consts.items():
                if k == expand("~interpreter/lfvm.newestSupportedRevision"): nv = int(c["v"])
            rv = L.rev; top = max(rv.values())
            def unsup(r):
                bl = [a for a, v in r.st.facts.order if isinstance(a, T) and a.op == "<" and "fld" in repr(a) and v]
                # the rejected revisions are those above the newest fork
                return True if any(a.args[0] == top for a in bl) else (False if bl and isinstance(bl[0].args[0], int) else None), "rejects %r" % (bl,)
            C.expect("lfvm:revision", "lfvm: exactly the forks after Cancun are rejected as unsupported", [r for r in rs if not ran(r) and r.kind == "ret" and same(r.vals[1], None) is False], unsup, "go/interpreter/lfvm/lfvm.go")
    # a violation inside an instruction: the step function reports an error
    try:
        rs = [r for r in prun(sts.get("statusRunning", 0), T("nonnil", T("violation"))) if ran(r)]
        vanilla = [r for r in rs if not any(e.n.endswith("runner.run") for e in r.st.events)]
        inner = [r for r in vanilla if not any("runner" in repr(a) and "==" in repr(a) and not v for a, v in r.st.facts.order)]
        def failed(r):
            if same(r.vals[1], None) is False: return True   # runner error, not reachable for the plain runner
            return result_is(C, r, "~tosca.Result", spec["statusFailed"][0], "nil")
        C.expect("lfvm:violation", "lfvm: an execution violation ends as failure without gas, refund and output", rs, failed, where)
    except (Undecided, AnchorMissing) as e: rep.undec("lfvm: execution violation", e)
    # all ways of running the step function classify alike
    for fn in sorted(P.fns):
        m = re.match(r"^\(?\*?(.*)\.(\w+)\)\.run$", fn)
        if not m or m.group(1) != expand("~interpreter/lfvm") or m.group(2).startswith("Mock"): continue
        if fn.startswith("(*") and ("(" + fn[2:]) in P.fns: continue
        ps = P.fns[fn]["params"]
        if len(ps) != 2 or P.types[ps[1]["t"]]["s"] != "*" + expand("~interpreter/lfvm.context"): continue
        runner(C, L, fn, sts)
def runner(C, L, fn, sts):
    rep = C.rep; P = L.P; short = fn.split("lfvm.")[-1].split(")")[0]; where = "go/interpreter/lfvm"
    class Pol(Policy):
        def __init__(self, s, e): self.s, self.e = s, e
        def call(self, E, st, fr, i, name, args, dst, work, put):
            if name == expand(L.steps):
                n = st.tags.get("steps", 0); st.tags["steps"] = n + 1
                put(st, Agg("tuple", [self.s, self.e], None)); return "cont"
            if ").insert" in name or ").nextOp" in name: return "drop" if 0 else (put(st, None), "cont")[1]
        def ext(self, E, st, fr, i, name, args, dst, work, put):
            if name.endswith(".Write"): put(st, Agg("tuple", [fresh("n", ty=I8), None], None)); return "cont"
    for n, v in sorted(sts.items(), key=lambda k: k[1]):
        if n == "statusRunning": continue
        def chk(r, v=v):
            if r.kind != "ret": return None, "panic path"
            e = same(r.vals[1], None)
            if e is False: return False, "reports an error"
            if not r.st.tags.get("steps"): return False, "no execution"
            return same(r.vals[0], v), "yields status %r" % (r.vals[0],)
        try:
            st, arg = State(), Ptr(("h", "ctx"), ())
            rs = C.run(fn, [fresh("runner") if not fn.startswith("(*") else Ptr(("h", "runner"), ()), arg], Pol(v, None), st)
            C.expect("lfvm:%s:%s" % (short, n), "lfvm: %s reports %s unchanged" % (short, n), [r for r in rs if r.kind == "ret"], chk, where)
        except (Undecided, AnchorMissing) as e: rep.undec("lfvm: %s %s" % (short, n), e)
    try:
        rs = C.run(fn, [fresh("runner") if not fn.startswith("(*") else Ptr(("h", "runner"), ()), Ptr(("h", "ctx"), ())], Pol(sts["statusRunning"], T("nonnil", T("violation"))))
        C.expect("lfvm:%s:violation" % short, "lfvm: %s turns an execution violation into statusFailed" % short, [r for r in rs if r.kind == "ret"], lambda r: (same(r.vals[0], sts["statusFailed"]), "yields status %r" % (r.vals[0],)), where)
    except (Undecided, AnchorMissing) as e: rep.undec("lfvm: %s violation" % short, e)

# --- EVMC ----------------------------------------------------------------------
EVMC = "github.com/ethereum/evmc/v11/bindings/go/evmc."
CONTRACT_FAILURES = ["EVMC_FAILURE", "EVMC_OUT_OF_GAS", "EVMC_INVALID_INSTRUCTION", "EVMC_UNDEFINED_INSTRUCTION", "EVMC_STACK_OVERFLOW", "EVMC_STACK_UNDERFLOW",
                     "EVMC_BAD_JUMP_DESTINATION", "EVMC_INVALID_MEMORY_ACCESS", "EVMC_STATIC_MODE_VIOLATION"]
CODES = dict(EVMC_FAILURE=1, EVMC_REVERT=2, EVMC_OUT_OF_GAS=3, EVMC_INVALID_INSTRUCTION=4, EVMC_UNDEFINED_INSTRUCTION=5, EVMC_STACK_OVERFLOW=6, EVMC_STACK_UNDERFLOW=7,
             EVMC_BAD_JUMP_DESTINATION=8, EVMC_INVALID_MEMORY_ACCESS=9, EVMC_CALL_DEPTH_EXCEEDED=10, EVMC_STATIC_MODE_VIOLATION=11)
INTERNAL = {"EVMC_INTERNAL_ERROR": -1, "EVMC_REJECTED": -2, "EVMC_OUT_OF_MEMORY": -3}
def evmc_run(rep, P):
    C = Chk(rep, P); fn = C.find("evmc.EvmcInterpreter).Run"); where = "go/interpreter/evmc/evmc_interpreter.go"
    if not fn: rep.undec("EVMC outcome", "EvmcInterpreter.Run"); return
    try: et = P.typ(EVMC + "Error"); rt = P.typ(EVMC + "Result")
    except (KeyError, AnchorMissing) as e: rep.undec("EVMC outcome", e); return
    out, gas, ref = bytesl("out"), S("gasleft"), S("refundleft")
    rf = {f["n"]: k for k, f in enumerate(P.types[rt]["f"])}
    class Pol(Policy):
        def __init__(self, err): self.e = err
        def call(self, E, st, fr, i, name, args, dst, work, put): return None
        def ext(self, E, st, fr, i, name, args, dst, work, put):
            if name.endswith("VM).Execute"):
                st.tags["ran"] = args
                r = [fresh("x") for _ in rf]
                r[rf["Output"]], r[rf["GasLeft"]], r[rf["GasRefund"]] = out, gas, ref
                put(st, Agg("tuple", [Agg("s", r, rt), self.e], None)); return "cont"
    def go(key, txt, err, want, kind):
        st = State(); pr = fresh("params")
        try: rs = C.run(fn, [Ptr(("h", "vm"), ()), pr], Pol(err), st)
        except (Undecided, AnchorMissing) as e: rep.undec("EVMC: " + txt, e); return
        rs = [r for r in rs if "ran" in r.st.tags]
        C.expect("evmc:" + key, "EVMC: " + txt, rs, lambda r: result_is(C, r, "~tosca.Result", want, kind), where)
    go("success", "a successful execution is reported as success with its gas, refund and output", None, dict(Success=True, Output=out, GasLeft=gas, GasRefund=ref), "nil")
    go("revert", "a revert is reported as no success with its gas and output", Iface(et, CODES["EVMC_REVERT"]), dict(Success=False, Output=out, GasLeft=gas), "nil")
    for n in CONTRACT_FAILURES:
        go(n, "%s is reported as failure without gas, refund and output" % n, Iface(et, CODES[n]), dict(Success=False, Output=None, GasLeft=0, GasRefund=0), "nil")
    for n, v in INTERNAL.items(): go(n, "%s is reported as an error of the interpreter" % n, Iface(et, v), {}, "err")
    # status codes the foreign interpreters actually produce are covered by the list above
    for f, rx in (("cpp/vm/evmzero/evmzero.cc", r"return\s+(EVMC_[A-Z_]+)\s*;"),):
        p = os.path.join(common.REPO, f)
        if not os.path.exists(p): continue
        src = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(p).read(), flags=re.S)
        m = re.search(r"evmc_status_code\s+\w+\s*\([^)]*\)\s*\{", src)
        if not m: rep.undec("status codes of evmzero", "conversion function"); continue
        d, j = 1, m.end()
        while d and j < len(src): d += {"{": 1, "}": -1}.get(src[j], 0); j += 1
        body = src[m.end():j]
        mp = {}
        pend = []
        for t in re.finditer(r"case\s+RunState::(\w+)\s*:|return\s+(EVMC_\w+)\s*;", body):
            if t.group(1): pend.append(t.group(1))
            else:
                for s in pend: mp[s] = t.group(2)
                pend = []
        for s, c in sorted(mp.items()):
            if s == "kRunning": continue
            want = {"kDone": "EVMC_SUCCESS", "kReturn": "EVMC_SUCCESS", "kRevert": "EVMC_REVERT"}.get(s)
            if want: rep.check(c == want, "evmzero:" + s, "evmzero reports %s as %s" % (s, want), f)
            elif s == "kErrorCall" and c == "EVMC_CALL_DEPTH_EXCEEDED": rep.ok("evmzero reports %s as %s (call depth is limited by the host)" % (s, c), f)
            else: rep.check(c in CONTRACT_FAILURES, "evmzero:" + s, "evmzero reports the failure %s as a status the Go adapter treats as failed execution (%s)" % (s, c), f)

def evmc_host(rep, P):
    C = Chk(rep, P); where = "go/interpreter/evmc/evmc_interpreter.go"
    cons = lambda t: C.enum(EVMC + t)
    tosc = lambda t: C.enum(expand("~tosca." + t))
    # calls
    fn = C.find("evmc.hostContext).Call")
    if fn:
        ek, tk = cons("CallKind"), tosc("CallKind")
        pn = [p["n"] for p in P.fns[fn]["params"]]
        for n in ("Call", "DelegateCall", "CallCode", "Create", "Create2"):
            if n not in ek or n not in tk: rep.undec("EVMC call kind %s" % n, "constant"); continue
            for static in (False, True):
                want = "StaticCall" if n == "Call" and static else n
                for mode in ("err", "ok", "rev"):
                    res = C.agg("~tosca.CallResult", Output=bytesl("out"), GasLeft=S("gasleft"), GasRefund=S("refundleft"), CreatedAddress=S("created", None), Success=mode == "ok")
                    class Pol(Policy):
                        def ext(self, E, st, fr, i, name, args, dst, work, put):
                            if name.endswith("RunContext.Call"):
                                st.tags["call"] = args
                                put(st, Agg("tuple", [res, T("nonnil", T("hosterr")) if mode == "err" else None], None)); return "cont"
                    kw = dict(kind=ek[n], static=static)
                    args = [Ptr(("h", "host"), ()) if j == 0 else kw.get(p, S(p, None)) for j, p in enumerate(pn)]
                    try: rs = C.run(fn, args, Pol())
                    except (Undecided, AnchorMissing) as e: rep.undec("EVMC call kind %s" % n, e); continue
                    def chk(r):
                        if r.kind != "ret": return False, "panics"
                        a = r.st.tags.get("call")
                        if a is None: return False, "no call is made"
                        if same(a[1], tk[want]) is not True: return same(a[1], tk[want]), "kind is %r" % (a[1],)
                        o, g, rf, ad, e = r.vals
                        if mode == "err": return same(e, T("nonnil", T("hosterr"))), "the host's error is not passed on"
                        for nm, x, y in (("output", o, res.e[C.fields("~tosca.CallResult").index("Output")]), ("gas", g, S("gasleft")), ("refund", rf, S("refundleft")), ("address", ad, S("created", None))):
                            if same(x, y) is not True: return same(x, y), "%s is %r" % (nm, x)
                        if mode == "ok": return same(e, None), "error %r" % (e,)
                        s = same(e, None)
                        if s is not False: return (False if s else None), "an unsuccessful call is reported as success"
                        return (same(base(e.v), CODES["EVMC_REVERT"]) if isinstance(e, Iface) else None), "unsuccessful call reported as %r" % (e,)
                    C.expect("evmc:call:%s:%s:%s" % (n, static, mode), "EVMC: call of kind %s%s (%s) is forwarded as %s and its outcome handed back" % (n, " from a static frame" if static else "", {"ok": "successful", "rev": "unsuccessful", "err": "host error"}[mode], want), rs, chk, where)
    else: rep.undec("EVMC calls", "hostContext.Call")
    # storage status, access status, revisions
    fn = C.find("evmc.hostContext).SetStorage")
    if fn:
        es, ts = cons("StorageStatus"), tosc("StorageStatus")
        for n, v in sorted(ts.items(), key=lambda k: k[1]):
            class Pol(Policy):
                def ext(self, E, st, fr, i, name, args, dst, work, put):
                    if name.endswith("RunContext.SetStorage"): st.tags["set"] = args; put(st, v); return "cont"
            if n not in es: rep.undec("EVMC storage status %s" % n, "constant"); continue
            try: rs = C.run(fn, [Ptr(("h", "host"), ())] + [S("a%d" % j, None) for j in range(3)], Pol())
            except (Undecided, AnchorMissing) as e: rep.undec("EVMC storage status %s" % n, e); continue
            C.expect("evmc:storage:" + n, "EVMC: storage status %s is reported under the same name" % n, rs, lambda r: (r.kind == "ret" and same(r.vals[0], es[n]), "reported as %r" % (r.vals,)), where)
    else: rep.undec("EVMC storage status", "hostContext.SetStorage")
    for fnn in ("AccessAccount", "AccessStorage"):
        fn = C.find("evmc.hostContext)." + fnn)
        if not fn: rep.undec("EVMC " + fnn, "function"); continue
        es, ts = cons("AccessStatus"), {k: v for k, v in tosc("AccessStatus").items()}
        tv = {"ColdAccess": False, "WarmAccess": True}
        for n in ("ColdAccess", "WarmAccess"):
            c = P.consts.get(expand("~tosca." + n)); v = tv[n] if c is None else (c["v"] if isinstance(c["v"], bool) else str(c["v"]).lower() == "true" if str(c["v"]).lower() in ("true", "false") else int(c["v"]))
            class Pol(Policy):
                def ext(self, E, st, fr, i, name, args, dst, work, put):
                    if name.endswith("RunContext." + fnn): put(st, v); return "cont"
            try: rs = C.run(fn, [Ptr(("h", "host"), ())] + [S("a%d" % j, None) for j in range(len(P.fns[fn]["params"]) - 1)], Pol())
            except (Undecided, AnchorMissing) as e: rep.undec("EVMC %s %s" % (fnn, n), e); continue
            C.expect("evmc:%s:%s" % (fnn, n), "EVMC: %s reports %s unchanged" % (fnn, n), rs, lambda r: (r.kind == "ret" and same(r.vals[0], es[n]), "reported as %r" % (r.vals,)), where)
    fn = C.find("evmc.toEvmcRevision")
    if fn:
        er, tr = cons("Revision"), tosc("Revision")
        for n, v in sorted(tr.items(), key=lambda k: k[1]):
            m = n.split("_", 1)[-1]
            if not n.startswith("R") or "_" not in n: continue
            try: rs = C.run(fn, [v])
            except (Undecided, AnchorMissing) as e: rep.undec("EVMC revision %s" % n, e); continue
            if m in er and v <= 5: C.expect("evmc:revision:" + n, "EVMC: fork %s is handed over as %s" % (n, m), rs, lambda r: (r.kind == "ret" and same(r.vals[0], er[m]) and same(r.vals[1], None), "handed over as %r" % (r.vals,)), where)
        rs = C.run(fn, [S("revision")])
        big = [r for r in rs if not any(b and isinstance(a, T) and a.op == "==" for a, b in r.st.facts.order)]
        C.expect("evmc:revision:other", "EVMC: any other fork is rejected", big, lambda r: (r.kind != "ret" or same(r.vals[1], None) is False, "accepted"), where)
    else: rep.undec("EVMC revisions", "toEvmcRevision")

# --- geth ------------------------------------------------------------------------
GV = "github.com/ethereum/go-ethereum/core/vm."
def geth_errs(st):
    names = "ErrOutOfGas ErrCodeStoreOutOfGas ErrDepth ErrInsufficientBalance ErrContractAddressCollision ErrExecutionReverted ErrMaxCodeSizeExceeded ErrMaxInitCodeSizeExceeded ErrInvalidJump ErrWriteProtection ErrReturnDataOutOfBounds ErrGasUintOverflow ErrInvalidCode ErrNonceUintOverflow".split()
    d = {}
    for n in names:
        d[n] = T("uniq", GV + n); st.mem[("g", GV + n)] = {(): d[n]}
    return d
def is_model(E, st, name, args, put):
    if name == "errors.Is":
        a, b = args
        put(st, True if a is b else False if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "uniq" else False if isinstance(a, (Iface,)) or isinstance(a, T) and a.op == "nonnil" else E.freshres({"t": 0}, "is") if 0 else fresh("is")); return "cont"
def geth_types(P):
    out = {}
    for n in ("ErrStackUnderflow", "ErrStackOverflow", "ErrInvalidOpCode"):
        try: out[n] = Iface(P.typ("*" + GV + n), Ptr(("h", n), ()))
        except (KeyError, AnchorMissing): pass
    return out
def geth_run(rep, P):
    C = Chk(rep, P); fn = C.find("geth.gethVm).Run"); where = "go/interpreter/geth/geth.go"
    if not fn: rep.undec("geth outcome", "gethVm.Run"); return
    gas, ref, out = S("gasleft"), S("refundleft"), bytesl("out")
    class Pol(Policy):
        def __init__(self, err): self.e = err
        def call(self, E, st, fr, i, name, args, dst, work, put):
            rt = [E.P.types[t]["s"] for t in (E.result_tids(i) or [])]
            if any(t.endswith("core/vm.Contract") for t in rt) and len(rt) == 3:
                vals = []
                for t in rt: vals.append(Ptr(("h", t.split(".")[-1]), ()))
                put(st, Agg("tuple", vals, None)); return "cont"
        def ext(self, E, st, fr, i, name, args, dst, work, put):
            r = is_model(E, st, name, args, put)
            if r: return r
            if name.endswith("Interpreter.Run"):
                st.tags["ran"] = args
                for a in args:
                    if isinstance(a, Ptr) and a.o == ("h", "Contract"): pass
                put(st, Agg("tuple", [out, self.e], None)); return "cont"
    def go(key, txt, err, want, kind):
        st = State(); geth_errs(st)
        ct = P.typ(GV + "Contract"); gi = [k for k, f in enumerate(P.types[ct]["f"]) if f["n"] == "Gas"][0]
        st.mem[("h", "Contract")] = {(gi,): gas}
        at = P.typ(expand("~interpreter/geth.stateDbAdapter")); ri = [k for k, f in enumerate(P.types[at]["f"]) if f["n"] == "refund"]
        if ri: st.mem[("h", "stateDbAdapter")] = {(ri[0],): ref}
        try: rs = C.run(fn, [Ptr(("h", "vm"), ()), fresh("params")], Pol(err), st)
        except (Undecided, AnchorMissing) as e: rep.undec("geth: " + txt, e); return
        C.expect("geth:" + key, "geth: " + txt, [r for r in rs if "ran" in r.st.tags], lambda r: result_is(C, r, "~tosca.Result", want, kind), where)
    E0 = geth_errs(State()); T0 = geth_types(P)
    go("success", "a successful execution is reported as success with its gas, refund and output", None, dict(Success=True, Output=out, GasLeft=gas, GasRefund=ref), "nil")
    go("revert", "a revert is reported as no success with its gas and output", E0["ErrExecutionReverted"], dict(Success=False, Output=out, GasLeft=gas), "nil")
    for n in "ErrOutOfGas ErrCodeStoreOutOfGas ErrMaxCodeSizeExceeded ErrInvalidJump ErrWriteProtection ErrReturnDataOutOfBounds ErrGasUintOverflow".split():
        go(n, "%s is reported as failure without gas, refund and output" % n, E0[n], dict(Success=False, Output=None, GasLeft=0, GasRefund=0), "nil")
    for n, v in T0.items(): go(n, "%s is reported as failure without gas, refund and output" % n, v, dict(Success=False, Output=None, GasLeft=0, GasRefund=0), "nil")
    go("other", "any other error is reported as an error", T("uniq", "unknown error"), {}, "err")

def geth_adapter(rep, P):
    C = Chk(rep, P); where = "go/geth_adapter/adapter.go"
    E0 = geth_errs(State()); T0 = geth_types(P)
    fn = C.find("geth_adapter.runContextAdapter).Call"); tk = C.enum(expand("~tosca.CallKind"))
    KEEP = ("ErrInsufficientBalance", "ErrDepth", "ErrNonceUintOverflow")
    FAIL = "ErrOutOfGas ErrCodeStoreOutOfGas ErrContractAddressCollision ErrMaxInitCodeSizeExceeded ErrMaxCodeSizeExceeded ErrInvalidJump ErrWriteProtection ErrReturnDataOutOfBounds ErrGasUintOverflow ErrInvalidCode".split()
    if fn:
        meth = {"Call": "Call", "StaticCall": "StaticCall", "DelegateCall": "DelegateCall", "CallCode": "CallCode", "Create": "Create", "Create2": "Create2"}
        out, gas, addr = bytesl("out"), S("gasleft"), S("created", None)
        cases = [("ok", None)] + [("ErrExecutionReverted", E0["ErrExecutionReverted"])] + [(n, E0[n]) for n in KEEP] + [(n, E0[n]) for n in FAIL] + list(T0.items()) + [("other", T("uniq", "unknown error"))]
        for kind, m in meth.items():
            if kind not in tk: rep.undec("geth adapter: call kind %s" % kind, "constant"); continue
            for n, err in cases:
                class Pol(Policy):
                    def ext(self, E, st, fr, i, name, args, dst, work, put):
                        r = is_model(E, st, name, args, put)
                        if r: return r
                        g = re.match(r"^\(\*.*core/vm\.EVM\)\.(\w+)$", name)
                        if g and g.group(1) in meth.values():
                            st.tags["call"] = (g.group(1), args)
                            l = [out, addr, gas, err] if g.group(1).startswith("Create") else [out, gas, err]
                            put(st, Agg("tuple", l, None)); return "cont"
                        return None
                st = State(); geth_errs(st); pg = S("callgas")
                pr = C.agg("~tosca.CallParameters", Gas=pg, Input=bytesl("in"), Value=S("value", None), Recipient=S("recipient", None), CodeAddress=S("codeaddr", None), Sender=S("sender", None), Salt=S("salt", None))
                try: rs = C.run(fn, [Ptr(("h", "ad"), ()), tk[kind], pr], Pol(), st)
                except (Undecided, AnchorMissing) as e: rep.undec("geth adapter: call kind %s, %s" % (kind, n), e); continue
                def chk(r):
                    if r.kind != "ret": return False, "panics"
                    c = r.st.tags.get("call")
                    if c is None: return False, "no call is made"
                    if c[0] != m: return False, "forwarded as %s" % c[0]
                    cr = "~tosca.CallResult"
                    if n == "ok": return result_is(C, r, cr, dict(Success=True, Output=out, GasLeft=gas, **({"CreatedAddress": addr} if kind.startswith("Create") else {})), "nil")
                    if n == "ErrExecutionReverted": return result_is(C, r, cr, dict(Success=False, Output=out, GasLeft=gas), "nil")
                    if n in KEEP: return result_is(C, r, cr, dict(Success=False, Output=None, GasLeft=pg), "nil")
                    if n == "other": return result_is(C, r, cr, {}, "err")
                    return result_is(C, r, cr, dict(Success=False, Output=None, GasLeft=0), "nil")
                C.expect("gethadapter:%s:%s" % (kind, n), "geth adapter: a call of kind %s ending with %s keeps its meaning" % (kind, n), rs, chk, where)
    else: rep.undec("geth adapter: calls", "runContextAdapter.Call")
    # frames run on behalf of geth
    fn = C.find("geth_adapter.gethInterpreterAdapter).Run")
    if not fn: rep.undec("geth adapter: frames", "gethInterpreterAdapter.Run"); return
    out, gas, ref = bytesl("out"), S("gasleft"), S("refundleft")
    ct = P.typ(GV + "Contract"); gi = [k for k, f in enumerate(P.types[ct]["f"]) if f["n"] == "Gas"][0]
    REVT = expand("~tosca.Revision")
    def frame(txt, key, res, err, want, depth=1, extra=None):
        class Pol(Policy):
            def call(self, E, st, fr, i, name, args, dst, work, put):
                f = E.P.fns.get(name); ts = [E.P.types[t]["s"] for t in (E.result_tids(i) or [])]
                if len(ts) == 2 and ts[1] == "error" and (ts[0] == REVT or ts[0].startswith(expand("~tosca."))) and not ts[0].endswith("Result"):
                    put(st, Agg("tuple", [fresh("cv"), None], None)); return "cont"
            def ext(self, E, st, fr, i, name, args, dst, work, put):
                r = is_model(E, st, name, args, put)
                if r: return r
                if name.endswith("tosca.Interpreter.Run"):
                    st.tags["ran"] = args; st.tags["before"] = len(st.events)
                    put(st, Agg("tuple", [res, err], None)); return "cont"
                if name.endswith(".GetDepth"):
                    put(st, st.tags.get("depth", depth)); return "cont"
                if name.endswith(".SetDepth"): st.tags["depth"] = args[1]; st.tags["depths"] = st.tags.get("depths", ()) + (args[1],); put(st, None); return "cont"
                if re.match(r"^\(\*.*core/vm\.EVM\)\.\w+$", name): put(st, E.freshres(i, "evm")); return "cont"   # queries of the EVM object leave it unchanged
                if name.endswith("StateDB.AddRefund") or name.endswith("StateDB.SubRefund"):
                    st.tags["ref"] = st.tags.get("ref", ()) + ((name.split(".")[-1], args[1], "ran" in st.tags),); put(st, None); return "cont"
        st = State(); geth_errs(st); st.mem[("h", "contract")] = {(gi,): S("contractgas")}
        fx = lambda t, n: [k for k, f in enumerate(P.types[P.typ(t)]["f"]) if f["n"] == n][0]
        try:
            st.mem[("h", "ad")] = {(fx(expand("~geth_adapter.gethInterpreterAdapter"), "evm"),): Ptr(("h", "evm"), ())}
            st.mem[("h", "evm")] = {(fx(GV + "EVM", "TxContext"), fx(GV + "TxContext", "BlobHashes")): SliceV(("h", "blobs"), (), 0, 1, 1)}
        except (KeyError, AnchorMissing, IndexError): pass
        st.facts._narrow(S("gasleft"), 1, (1 << 62)); st.facts._narrow(S("contractgas"), 0, (1 << 62)); st.facts._narrow(S("lenout"), 1, 1 << 40)
        try: rs = C.run(fn, [Ptr(("h", "ad"), ()), Ptr(("h", "contract"), ()), bytesl("input"), False], Pol(), st)
        except (Undecided, AnchorMissing) as e: rep.undec("geth adapter: " + txt, e); return
        def chk(r):
            if r.kind != "ret": return False, "panics"
            o, e = r.vals
            wo, we, wg = want
            if we == "err":
                s = same(e, None)
                if s is not False: return (False if s else None), "no error is reported"
            else:
                s = same(e, we)
                if s is not True: return s, "error is %r" % (e,)
            if wo != "any":
                s = same(o, wo)
                if s is not True: return s, "output is %r" % (o,)
            if wg is not None:
                E = C.E; g = E.load(r.st, Ptr(("h", "contract"), (gi,)), P.types[ct]["f"][gi]["t"])
                s = same(g, wg)
                if s is not True: return s, "remaining gas is %r" % (g,)
            if r.st.tags.get("depth", depth) != depth: return False, "call depth is not restored"
            if extra: return extra(r)
            return True
        C.expect("gethadapter:run:" + key, "geth adapter: " + txt, [r for r in rs if "ran" in r.st.tags], chk, where)
    R = lambda **kw: C.agg("~tosca.Result", **kw)
    def credited(r):
        rf = [x for x in r.st.tags.get("ref", ()) if x[2]]
        if len(rf) != 1: return False, "refund updates %r" % (rf,)
        nm, v, _ = rf[0]; neg = r.st.facts.known(mk_lt(ref, 0))
        if nm == "AddRefund": return same(v, ref) and neg is not True, "adds %r" % (v,)
        return (neg is not False and (True if repr(base(v)).count("refundleft") else None)), "subtracts %r" % (v,)
    def none(r):
        rf = [x for x in r.st.tags.get("ref", ()) if x[2]]
        return not rf, "the refund is changed by a frame that did not succeed"
    frame("a successful frame yields its output, remaining gas and refund", "success", R(Success=True, Output=out, GasLeft=gas, GasRefund=ref), None, (out, None, gas), extra=credited)
    frame("a reverted frame is signalled as revert with output and remaining gas, without refund", "revert", R(Success=False, Output=out, GasLeft=gas, GasRefund=ref), None, (out, E0["ErrExecutionReverted"], gas), extra=none)
    frame("a reverted frame without output is signalled as revert with its remaining gas", "revert2", R(Success=False, Output=None, GasLeft=gas, GasRefund=0), None, ("any", E0["ErrExecutionReverted"], gas), extra=none)
    frame("a reverted frame with output and no gas left is signalled as revert with its output", "revert3", R(Success=False, Output=out, GasLeft=0, GasRefund=0), None, (out, E0["ErrExecutionReverted"], 0), extra=none)
    frame("a failed frame is signalled as an error other than revert, without gas and refund", "failed", R(Success=False, Output=None, GasLeft=0, GasRefund=0), None, (None, E0["ErrOutOfGas"], 0), extra=none)
    frame("an internal error is signalled as an error", "error", R(Success=False), T("nonnil", T("internal")), ("any", "err", None), extra=none)
    def shifted(r):
        rf = r.st.tags.get("ref", ()); a = [v for n, v, late in rf if n == "AddRefund" and not late]; b = [v for n, v, late in rf if n == "SubRefund" and late]
        if not a: return True
        if len(a) != 1 or len(b) != 1: return False, "the artificial refund is not removed: %r" % (rf,)
        s = same(a[0], b[0])
        return (True if s else None if s is None else ("GetRefund" in repr(b[0]) or None)), "the artificial refund %r is removed as %r" % (a[0], b[0])
    frame("the artificial refund of an outermost frame is removed again", "shift", R(Success=True, Output=out, GasLeft=gas, GasRefund=0), None, ("any", None, gas), depth=0, extra=lambda r: shifted_ok(r, shifted))
    frame("the artificial refund of an outermost reverted frame is removed again", "shiftrev", R(Success=False, Output=out, GasLeft=gas, GasRefund=0), None, ("any", E0["ErrExecutionReverted"], gas), depth=0, extra=shifted)
    fn = C.find("geth_adapter.convertRevision")
    if fn:
        tr = C.enum(expand("~tosca.Revision")); rt = P.typ("github.com/ethereum/go-ethereum/params.Rules"); fl = [f["n"] for f in P.types[rt]["f"]]
        order = [("IsIstanbul", "R07_Istanbul"), ("IsBerlin", "R09_Berlin"), ("IsLondon", "R10_London"), ("IsMerge", "R11_Paris"), ("IsShanghai", "R12_Shanghai"), ("IsCancun", "R13_Cancun")]
        for k in range(len(order) + 1):
            on = {n for n, _ in order[:k]}
            E = Engine(P); v = Agg("s", [(f["n"] in on) if f["n"] in dict(order) else fresh("r") for f in P.types[rt]["f"]], rt)
            try: rs = C.run(fn, [v])
            except (Undecided, AnchorMissing) as e: rep.undec("geth adapter: forks", e); continue
            if k == 0: C.expect("gethadapter:fork:none", "geth adapter: forks before Istanbul are rejected", rs, lambda r: (r.kind == "ret" and same(r.vals[1], None) is False, "accepted"), where)
            else: C.expect("gethadapter:fork:" + order[k - 1][1], "geth adapter: the rules of %s select it" % order[k - 1][1], rs, lambda r: (r.kind == "ret" and same(r.vals[0], tr[order[k - 1][1]]) and same(r.vals[1], None), "selects %r" % (r.vals,)), where)
def shifted_ok(r, f):
    """as f, the frame's own (zero) refund update aside"""
    rf = r.st.tags.get("ref", ())
    r.st.tags["ref"] = tuple(x for x in rf if not (x[2] and same(x[1], 0) is True))
    try: return f(r)
    finally: r.st.tags["ref"] = rf

# --- status of conformance-test states ---------------------------------------------
def table(rep, P, suffix, src, dst, pairs, what, where, argkind=None):
    C = Chk(rep, P); fn = C.find(suffix)
    if not fn: rep.undec(what, "function " + suffix); return
    a, b = C.enum(src), C.enum(dst)
    for x, y in pairs.items():
        if x not in a or y not in b: rep.undec("%s: %s" % (what, x), "constant"); continue
        try: rs = C.run(fn, [a[x]])
        except (Undecided, AnchorMissing) as e: rep.undec("%s: %s" % (what, x), e); continue
        C.expect("%s:%s" % (suffix, x), "%s: %s becomes %s" % (what, x, y), rs, lambda r: (r.kind == "ret" and same(r.vals[0], b[y]) and (len(r.vals) < 2 or same(r.vals[1], None)), "becomes %r" % (r.vals,)), where)

def main(rep):
    lfvm_run(rep)
    P = goprog.load(["./go/interpreter/evmc", "./go/interpreter/geth", "./go/geth_adapter", "./go/interpreter/lfvm"], inits=(), rep=rep)
    for f in (evmc_run, evmc_host, geth_run, geth_adapter):
        try: f(rep, P)
        except (AnchorMissing, KeyError, IndexError, AttributeError, TypeError) as e: rep.undec(f.__name__, "%s: %s" % (type(e).__name__, e))
    ST = expand("~ct/st.StatusCode"); ES = EVMC + "StepStatus"; w = "go/interpreter/evmc/evmc_steppable_interpreter.go"
    table(rep, P, "evmc.convertCtStatusToEvmcStatus", ST, ES, {"Running": "Running", "Stopped": "Stopped", "Reverted": "Reverted", "Failed": "Failed"}, "EVMC stepping, status of a test state", w)
    table(rep, P, "evmc.convertEvmcStatusToCtStatus", ES, ST, {"Running": "Running", "Stopped": "Stopped", "Reverted": "Reverted", "Returned": "Stopped", "Failed": "Failed"}, "EVMC stepping, resulting status", w)
    table(rep, P, "lfvm.convertLfvmStatusToCtStatus", expand("~interpreter/lfvm.status"), ST, {"statusRunning": "Running", "statusStopped": "Stopped", "statusReturned": "Stopped", "statusReverted": "Reverted", "statusSelfDestructed": "Stopped", "statusFailed": "Failed"}, "lfvm stepping, resulting status", "go/interpreter/lfvm/ct.go")
    rep.assumptions += ["the go-ethereum and EVMC bindings behave as their documentation says (declarations only are analysed)"]
    return ("Path analysis of every function that translates an execution outcome, status, call kind, fork or access status from one component's convention into another's, for each value of the source convention with opaque gas, refund and output.",
            "success, revert and failure keep their meaning together with gas, refund and output; enumerations are translated name by name; internal errors are reported as errors and nothing else is")
