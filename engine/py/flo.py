"""Abstract model of the transaction state under the native processor: every request made to the transaction context is
an operation on a log; snapshots mark positions of the log and restoring one drops what came after it."""
import common, goprog, re
from gosem import *
from p12 import Chk, base, same
I8 = (8, False); U8 = (8, True); BY = (1, True)
PKG = "~processor/floria"
WRITES = {"SetBalance": ("bal", 1), "SetNonce": ("nonce", 1), "SetCode": ("code", 1), "SetStorage": ("stor", 2), "SetTransientStorage": ("trans", 2)}
READS = {"GetBalance": ("bal", 1), "GetNonce": ("nonce", 1), "GetCode": ("code", 1), "GetCodeHash": ("code", 1), "GetCodeSize": ("code", 1), "GetStorage": ("stor", 2), "GetTransientStorage": ("trans", 2)}
def S(n, ty=None): return sym("$" + n, ty=ty)
class Missing(Exception): pass

class WorldPolicy(Policy):
    """the transaction context and the interpreter are opaque; executing the interpreter changes the state arbitrarily"""
    vals = True
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        m = name.rsplit(".", 1)[-1]; own = name.rsplit(".", 1)[0]
        if "go/tosca." in own or own.endswith("runContext") or own.endswith("WorldState"):
            if own.endswith("Interpreter") and m == "Run": return self.interp(E, st, fr, i, args, dst, work, put)
            if any(own.endswith(x) for x in ("TransactionContext", "WorldState", "RunContext", "ProfilingInterpreter")):
                return self.world(E, st, fr, i, m, args, dst, work, put)
        if name.endswith("common.HexToAddress") and isinstance(args[0], bytes):
            h = args[0].decode(); h = h[2:] if h.startswith("0x") else h
            put(st, Agg("array", list(bytes.fromhex(h.rjust(40, "0"))), None)); return "cont"
        if m == "RequiredGas" and "PrecompiledContract" in own:
            r = S("precompiled.gas", U8)
            self.log(st, "pgas", args, i); put(st, r); return "cont"
        if m == "Run" and "PrecompiledContract" in own:
            self.log(st, "prun", args, i); out = SliceV(("h", "pout"), (), 0, S("len.pout", I8), S("len.pout", I8))
            st.facts._narrow(S("len.pout", I8), 0, 1 << 40)
            c = S("precompiled.ok")
            return E.cond_fork(st, c, work, lambda s: put(s, Agg("tuple", [out, None], None)), lambda s: put(s, Agg("tuple", [None, T("nonnil", "perr")], None)))
        if name.endswith("crypto.Keccak256"):
            put(st, SliceV(("sl", T("keccak256", *[E.slterm(st, a) if isinstance(a, SliceV) else repr(a) for a in args])), (), 0, 32, 32)); return "cont"
        if name.endswith("crypto.CreateAddress") or name.endswith("crypto.CreateAddress2"):
            put(st, T("created", m, *[self.val(E, st, a) for a in args])); return "cont"
        return None
    def val(self, E, st, a):
        if isinstance(a, SliceV): return E.slterm(st, a)
        if isinstance(a, Agg): return T("aggv", a)
        return a
    def log(self, st, k, a, i):
        st.tags["log"] = st.tags.get("log", ()) + ((k, tuple(a), i.get("p"), len(st.tags.get("w", ()))),)
    def world(self, E, st, fr, i, m, args, dst, work, put):
        w = st.tags.get("w", ()); a = args[1:]
        if m in WRITES:
            k, n = WRITES[m]; st.tags["w"] = w + ((k,) + tuple(a),); self.log(st, m, a, i)
            put(st, E.freshres(i, m)); return "cont"
        if m in READS:
            k, n = READS[m]; self.log(st, m, a, i)
            return self.read(E, st, m, k, n, tuple(a[:n]), w, i, work, put)
        if m == "AccountExists":
            self.log(st, m, a, i); put(st, T("exists", repr(len([x for x in w if x[0] == "run"])), self.val(E, st, a[0]), len(w))); return "cont"
        if m == "CreateSnapshot":
            n = st.tags.get("nsnap", 0); s = T("sym", "$snapshot%d" % n, ty=I8)
            st.tags["nsnap"] = n + 1; st.tags["snaps"] = st.tags.get("snaps", ()) + ((s, len(w)),); self.log(st, m, (s,), i)
            put(st, s); return "cont"
        if m == "RestoreSnapshot":
            self.log(st, m, a, i)
            for s, n in st.tags.get("snaps", ()):
                if base(a[0]) is s:
                    st.tags["w"] = w[:n]; st.tags["restored"] = st.tags.get("restored", ()) + ((s, w[n:]),); put(st, None); return "cont"
            st.tags["badrestore"] = repr(a[0]); put(st, None); return "cont"
        if m in ("AccessAccount", "AccessStorage"):
            st.tags["acc"] = st.tags.get("acc", ()) + ((m,) + tuple(a),); self.log(st, m, a, i)
            put(st, E.freshres(i, m)); return "cont"
        if m in ("EmitLog", "SelfDestruct"):
            st.tags["w"] = w + ((m,) + tuple(a),); self.log(st, m, a, i); put(st, E.freshres(i, m)); return "cont"
        self.log(st, m, a, i)
        r = T("w." + m, len([x for x in w if x[0] == "run"]), *[self.val(E, st, x) for x in a])
        if m == "GetLogs": put(st, SliceV(("sl", r), (), 0, S("len.logs", I8), S("len.logs", I8))); return "cont"
        put(st, E.freshres(i, m)); return "cont"
    def read(self, E, st, m, k, n, key, w, i, work, put):
        j = len(w) - 1
        while j >= 0:
            x = w[j]
            if x[0] == "run": break
            if x[0] == k:
                c = True
                for p, q in zip(key, x[1:1 + n]):
                    e = E.eq(st, p, q, None)
                    if e is False: c = False; break
                    if e is not True: c = e if c is True else T("and", c, e)
                if c is True: put(st, self.readval(E, st, m, x[1 + n], i)); return "cont"
                if c is not False:
                    w2 = w[:j]
                    res = []
                    def no(s): res.append(s)
                    s2 = st.copy(); s2.nfork += 1; st.nfork += 1
                    if s2.facts.assume(c, False):
                        r = self.read(E, s2, m, k, n, key, w2, i, work, lambda s, v: put(s, v))
                        if r == "cont": work.append(s2)
                    if not st.facts.assume(c, True): return "drop"
                    put(st, self.readval(E, st, m, x[1 + n], i)); return "cont"
            j -= 1
        ep = len([x for x in w[:j + 1] if x[0] == "run"])
        put(st, self.initial(E, st, m, k, ep, key, i)); return "cont"
    def readval(self, E, st, m, v, i):
        if m == "GetCodeHash": return T("codehash.of", self.val(E, st, v))
        if m == "GetCodeSize": return E.length(st, v, None)
        return v
    def initial(self, E, st, m, k, ep, key, i):
        ks = [self.val(E, st, x) for x in key]
        if m == "GetCode":
            n = T("codelen", ep, *ks, ty=I8); st.facts._narrow(n, 0, 1 << 30)
            return SliceV(("sl", T("code", ep, *ks)), (), 0, n, n)
        if m == "GetCodeSize": return T("codelen", ep, *ks, ty=I8)
        if m == "GetCodeHash": return T("codehash", ep, *ks)
        return T(k, ep, *ks, ty=U8 if m == "GetNonce" else None)
    # -- the interpreter
    def interp(self, E, st, fr, i, args, dst, work, put):
        n = len([x for x in st.tags.get("w", ()) if x[0] == "run"])
        self.log(st, "run", args[1:], i)
        p = args[1]; C = self.C
        ctx = p.e[C.fields("~tosca.Parameters").index("Context")] if isinstance(p, Agg) else None
        if isinstance(ctx, Iface) and isinstance(ctx.v, Ptr): ctx = Iface(ctx.t, ("deref", ctx.v, self.deref(E, st, ctx.v, C.P.types[ctx.t])))
        st.tags["runs"] = st.tags.get("runs", ()) + ((p, ctx, st.tags.get("w", ())),)
        st.tags["w"] = st.tags.get("w", ()) + (("run", n),)
        ln = S("len.out%d" % n, I8); st.facts._narrow(ln, 0, 1 << 40)
        out = SliceV(("h", "out%d" % n), (), 0, ln, ln)
        g, rf = S("run.gasleft", I8), S("run.refund", I8)
        st.facts._narrow(g, 0, 1 << 62); st.facts._narrow(rf, 0, 1 << 62)
        res = C.agg("~tosca.Result", Success=S("run.success"), Output=out, GasLeft=g, GasRefund=rf)
        return E.cond_fork(st, S("run.err"), work, lambda s: put(s, Agg("tuple", [res, T("nonnil", "runerr")], None)), lambda s: put(s, Agg("tuple", [res, None], None)))
    def deref(self, E, st, p, ty):
        try: return E.load(st, p, ty["e"])
        except Exception: return None
    # -- amounts, decided by their own property
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if not self.vals: return None
        b = name.replace(expand("~tosca."), "")
        if b in ("Add", "Sub") and len(args) == 2: put(st, vop("v" + b.lower(), args)); return "cont"
        m = re.match(r"^\(\*?(?:%s)?Value\)\.(Cmp|Scale)$" % re.escape(expand("~tosca.")), b if not name.startswith("(") else name)
        if m:
            x = args[0] if not isinstance(args[0], Ptr) else E.load(st, args[0], self.C.P.typ(expand("~tosca.Value")))
            if m.group(1) == "Cmp":
                t = T("vcmp", vv(x), vv(args[1]), ty=I8); st.facts._narrow(t, -1, 1); put(st, t); return "cont"
            put(st, T("vscale", vv(x), args[1])); return "cont"
def vv(x):
    return T("aggv", x) if isinstance(x, Agg) else x
def vop(op, args): return T(op, *[vv(x) for x in args])

class Flo:
    def __init__(self, rep):
        self.rep = rep; self.P = goprog.load(["./go/processor/floria"], inits=("tosca",), rep=rep); self.C = Chk(rep, self.P)
        P = self.P
        runs = [n for n in P.fns if n.endswith(".Run") and expand(PKG) in n and any(P.types[p["t"]]["s"] == expand("~tosca.TransactionContext") for p in P.fns[n]["params"])]
        if len(runs) != 1: raise Missing("Run method of the processor: %r" % (runs,))
        self.run = runs[0]
        calls = [n for n in P.fns if n.endswith(".Call") and expand(PKG) in n and n.startswith("(") and P.fns[n]["blocks"] and [P.types[p["t"]]["s"] for p in P.fns[n]["params"][1:]] == [expand("~tosca.CallKind"), expand("~tosca.CallParameters")]]
        best = [n for n in calls if P.fns[n]["params"][0]["n"] != "arg0" and not P.fns[n].get("syn")]
        vals = [n for n in calls if not n.startswith("(*")]
        self.call = (vals or best or [None])[0]
        if self.call is None or len({n.replace("(*", "(") for n in calls}) != 1: raise Missing("nested call entry: %r" % (calls,))
        self.ptr = self.call.startswith("(*")
        t = self.P.types[P.fns[self.call]["params"][0]["t"]]
        self.rct = P.fns[self.call]["params"][0]["t"] if not self.ptr else t["e"]
        self.kinds = {n: v for n, v in self.C.enum(expand("~tosca.CallKind")).items()}
        self.revs = {n: v for n, v in self.C.enum(expand("~tosca.Revision")).items() if re.match(r"R\d\d_", n) and not n.startswith("R99")}
        self.fl = P.types[self.rct]["f"]
        ints = [k for k, f in enumerate(self.fl) if P.ity(f["t"]) and not P.types[f["t"]]["s"].startswith("github")]
        bools = [k for k, f in enumerate(self.fl) if P.types[f["t"]]["k"] == "basic" and P.isbool(f["t"])]
        if len(ints) > 1: ints = [k for k in ints if "depth" in self.fl[k]["n"].lower()]
        if len(bools) > 1: bools = [k for k in bools if "static" in self.fl[k]["n"].lower()]
        if len(ints) != 1 or len(bools) != 1: raise Missing("depth and mode of the frame")
        self.di, self.si = ints[0], bools[0]
    def opaque(self, name, prefix, **kw):
        """struct of named unknowns"""
        t = self.P.typ(expand(name)); e = []
        for f in self.P.types[t]["f"]:
            if f["n"] in kw: e.append(kw[f["n"]]); continue
            e.append(S(prefix + "." + f["n"], self.P.ity(f["t"]) if self.P.types[f["t"]]["k"] == "basic" else None))
        return Agg("s", e, t)
    def receiver(self, st, depth, static, rev):
        P = self.P; E = Engine(P); e = []
        for k, f in enumerate(self.fl):
            s = P.types[f["t"]]["s"]
            if k == self.di: e.append(depth)
            elif k == self.si: e.append(static)
            elif s == expand("~tosca.BlockParameters"): e.append(self.opaque("~tosca.BlockParameters", "bp", Revision=rev)); self.bp = e[-1]
            elif s == expand("~tosca.TransactionParameters"): e.append(S("txparams")); self.tp = e[-1]
            elif s == expand("~tosca.TransactionContext"): e.append(T("uniq", "world"))
            elif s == expand("~tosca.Interpreter"): e.append(T("uniq", "interpreter"))
            elif P.types[f["t"]]["k"] == "iface": e.append(T("uniq", "field." + f["n"]))
            else: e.append(E.zero(f["t"]))
        a = Agg("s", e, self.rct)
        if self.ptr:
            E.store(st, Ptr(("h", "frame"), ()), a, self.rct); return Ptr(("h", "frame"), ())
        return a
    def callargs(self, st, kind, **kw):
        g = S("gas", I8); st.facts._narrow(g, 0, 1 << 62)
        n = S("len.input", I8); st.facts._narrow(n, 0, 1 << 40)
        d = dict(Sender=S("sender"), Recipient=S("recipient"), CodeAddress=S("codeaddress"), Value=S("value"), Salt=S("salt"), Gas=g, Input=SliceV(("h", "input"), (), 0, n, n))
        d.update(kw)
        if kind in ("Create", "Create2"): d["Recipient"] = kw.get("Recipient", self.C.E0.zero(self.P.typ(expand("~tosca.Address"))) if hasattr(self.C, "E0") else Engine(self.P).zero(self.P.typ(expand("~tosca.Address"))))
        return self.C.agg("~tosca.CallParameters", **d), d
    def frame(self, kind, rev, depth=None, static=None, st=None, pol=None, **kw):
        """all paths of one nested call"""
        st = st or State()
        depth = S("depth", I8) if depth is None else depth; static = S("static") if static is None else static
        if isinstance(depth, T): st.facts._narrow(depth, 0, 1 << 20)
        rc = self.receiver(st, depth, static, rev); cp, d = self.callargs(st, kind, **kw)
        pol = pol or WorldPolicy(); pol.C = self.C
        E = Engine(self.P, pol, max_paths=4000, max_seconds=60); self.E = E
        return E.run(self.call, [rc, self.kinds[kind], cp], st), d
    def show(self, pos): return (pos or "").replace(common.REPO + "/", "")

# --- valuations -----------------------------------------------------------------
import finmod
from finmod import Unk, M
class FM(finmod.Model):
    pass
def _leafop(m, t):
    k = (t.op,) + tuple(m.ev(x) if isinstance(x, (T, Agg)) else repr(x) for x in t.args)
    return m.leaf(k, t if t.ty else None)
def _bool(m, t):
    k = (t.op,) + tuple(repr(x) if not isinstance(x, (T, Agg)) else m.ev(x) for x in t.args)
    return m.leaf(k, finmod.BOOL)
def _arr(m, t):   # value of a named array leaf
    return m.leaf((t.op,) + tuple(repr(x) for x in t.args), None)
def install():
    X = finmod.EXTRA
    for o in ("bal", "nonce", "codelen", "codehash"): X[o] = _leafop
    X["created"] = _leafop
    X["exists"] = X["has"] = _bool
    X["vadd"] = lambda m, t: (m.ev(t.args[0]) + m.ev(t.args[1])) & M
    X["vsub"] = lambda m, t: (m.ev(t.args[0]) - m.ev(t.args[1])) & M
    X["vscale"] = lambda m, t: (m.ev(t.args[0]) * (m.ev(t.args[1]) & (2**64 - 1))) & M
    X["vcmp"] = lambda m, t: (lambda a, b: (a > b) - (a < b))(m.ev(t.args[0]), m.ev(t.args[1]))
def grid(facts, points, n=40, seed=11, extra=(), tries=60):
    """for every point (leaf key -> value) valuations extending it that satisfy the facts"""
    import random
    rnd = random.Random(seed); order = list(facts.order); ivs = [(t, lo, hi) for t, (lo, hi) in facts.iv.items()]
    for pt in points:
        for _ in range(tries):
            m = FM(rnd, facts); m.v.update(pt); finmod.seedleaves(m, order); m.v.update(pt)
            ok = False
            for _ in range(12):
                bad = finmod.holds(m, order, ivs)
                if bad is None: ok = True; break
                ks = [k for k, l in finmod.leafkeys(m, bad) if k not in pt]
                if not ks:
                    ks = [k for k in m.v if k not in pt]
                    if not ks: break
                m.v.pop(rnd.choice(ks)); m.memo.clear()
            if ok: yield pt, m; break

# --- shared by the checks ---------------------------------------------------------
def success(r):
    """[(facts, bool)]: the outcomes a path can report"""
    if r.kind != "ret": return []
    v, e = r.vals[0], r.vals[1]
    if e is not None and same(e, None) is not True:
        if same(e, None) is False: return [(r.st.facts, False)]
        return [(r.st.facts, None)]
    s = base(v.e[SUCC[0]]) if isinstance(v, Agg) else None
    if isinstance(s, bool): return [(r.st.facts, s)]
    if not isinstance(s, T): return [(r.st.facts, None)]
    k = r.st.facts.known(s)
    if k is not None: return [(r.st.facts, k)]
    out = []
    for b in (True, False):
        f = r.st.facts.copy()
        if f.assume(s, b): out.append((f, b))
    return out
SUCC = [None]
def errglobals(P, st):
    """package-level error values are distinct and not nil"""
    for n in P.globals:
        g = P.globals[n]; t = P.types[g["t"]]["s"] if isinstance(g, dict) and "t" in g else P.types[g]["s"] if isinstance(g, int) else ""
        if t in ("error", "*error"): st.mem[("g", n)] = {(): T("uniq", n)}
def where(F, r): return F.show(r.st.tags.get("retpos") or "") or "go/processor/floria/run_context.go"
def ops(w): return "+".join(sorted({x[0] for x in w})) or "nothing"
_leaf0 = _leafop
def _created(m, t):
    k = ("createdaddr", t)
    if k in m.v: return m.v[k]
    return _leaf0(m, t)
_install0 = install
def install():
    _install0(); finmod.EXTRA["created"] = _created
