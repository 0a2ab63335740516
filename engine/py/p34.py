"""P34: adapters between interpreters, processors and hosts pass requests and parameters on unchanged."""
import common, goprog, re
from gosem import *
from p12 import Chk, EVMC, GV, geth_errs, base
I8 = (8, False); U8 = (8, True)
def S(n, ty=None): return sym("$" + n, ty=ty)
def W(c, m, k, n=1): return T("req", m, c, k)
OPAQUE = ("sym", "uniq", "req", "fld", "bool2int")
def plain(a):
    while isinstance(a, T) and a.op in ("u.b32", "u.fromarr") and isinstance(a.args[0], T) and (a.op == "u.b32" and a.args[0].op in ("vu256", "u.fromarr")): a = a.args[0].args[0]
    return a
def same(a, b):
    """True/False/None: values built of named unknowns and results of requests"""
    a, b = plain(base(a)), plain(base(b))
    if a is b: return True
    conc = lambda v: v is None or isinstance(v, (bool, int, bytes))
    if conc(a) and conc(b): return a == b
    if isinstance(a, SliceV) and b is None: return a.len == 0 if isinstance(a.len, int) else False
    if isinstance(b, SliceV) and a is None: return same(b, a)
    if isinstance(a, T) and isinstance(b, T):
        if a.op in OPAQUE and b.op in OPAQUE: return False
        if a.op == b.op and len(a.args) == len(b.args) and a.op in SHAPES:
            l = [same(x, y) for x, y in zip(a.args, b.args)]
            return False if False in l else True if all(x is True for x in l) else None
        return False if a.op in SHAPES and b.op in OPAQUE + SHAPES or b.op in SHAPES and a.op in OPAQUE else None
    if isinstance(a, T) and a.op in OPAQUE and (conc(b) or isinstance(b, Agg) and allconst(b)): return False
    if isinstance(b, T) and b.op in OPAQUE and (conc(a) or isinstance(a, Agg) and allconst(a)): return False
    if type(a) is not type(b): return None
    if a == b: return True
    if isinstance(a, Agg) and len(a.e) == len(b.e):
        l = [same(x, y) for x, y in zip(a.e, b.e)]
        return False if False in l else True if all(x is True for x in l) else None
    if isinstance(a, SliceV):
        if a.o != b.o and isinstance(a.o, tuple) and isinstance(b.o, tuple) and a.o[0] == b.o[0] == "h": return False
        return None
    if isinstance(a, Iface): return False if a.t != b.t else same(a.v, b.v)
    if isinstance(a, Ptr): return False if isinstance(a.o, tuple) and isinstance(b.o, tuple) and a.o[0] == b.o[0] == "h" else None
    return None
SHAPES = ("vadd", "vsub", "vu256", "big", "hashof", "inv")
def allconst(v): return isinstance(v, (bool, int)) or v is None or isinstance(v, Agg) and all(allconst(x) for x in v.e)
U256 = "github.com/holiman/uint256.Int"; VAL = "~tosca.Value"
class Pol(Policy):
    """requests to the environment are logged and answered by named unknowns"""
    def __init__(self, C, hosts, fixed=None): self.C, self.hosts, self.fixed = C, hosts, fixed or {}
    def norm(self, E, st, a):
        if isinstance(a, Ptr):
            try:
                t = self.ptrs.get(a.o)
                if t is not None: return E.load(st, a, t)
            except Exception: pass
        return a
    ptrs = {}
    def log(self, st, c, m, args, i):
        l = st.tags.get("log", ()); st.tags["log"] = l + ((c, m, tuple(args), i.get("p")),)
        return len([x for x in l if x[0] == c and x[1] == m])
    def answer(self, E, st, i, c, m, k):
        if (c, m) in self.fixed: return self.fixed[(c, m)](k) if callable(self.fixed[(c, m)]) else self.fixed[(c, m)]
        t = i.get("t")
        if t is None: return None
        tt = E.P.types[t]
        def one(t, j):
            tt = E.P.types[t]
            if tt["k"] == "slice": 
                n = S("len.%s.%s.%d" % (c, m, k), I8); st.facts._narrow(n, 0, 1 << 40)
                return SliceV(("h", "%s.%s.%d" % (c, m, k)), (), 0, n, n)
            r = T("req", m, c, k, j, ty=E.tyof(t) if tt["k"] == "basic" or E.P.ity(t) else None)
            if tt["k"] == "ptr":
                o = ("h", "%s.%s.%d.%d" % (c, m, k, j)); e = E.P.types[tt["e"]]["s"]
                if e == U256: st.mem[o] = {(): T("vu256", r)}
                return Ptr(o, ())
            return r
        if tt["k"] == "tuple":
            return Agg("tuple", [one(x, j) for j, x in enumerate(tt["ts"])], None) if tt["ts"] else None
        return one(t, 0)
    def host(self, name, args):
        for pat, c in self.hosts:
            m = re.match(pat, name)
            if m: return c, m.group(1)
        return None
    def arg(self, E, st, a):
        """arguments by content"""
        v = self.arg0(E, st, a)
        return T("vu256", v.args[0]) if isinstance(v, T) and v.op == "u.fromarr" and v.args[1:] == (32,) else v
    def arg0(self, E, st, a):
        if isinstance(a, Ptr):
            for (o, p), v in [((a.o, ()), (st.mem.get(a.o) or {}).get(()))]:
                if isinstance(v, T) and v.op in ("vu256", "big", "u.fromarr"): return v
            v = (st.mem.get(a.o) or {}).get(a.p)
            if v is not None and a.p == () and isinstance(v, (T, Agg)): return v
            if a.p == () and a.o and st.mem.get(a.o): return ("ptr", a, dict(st.mem[a.o]))
        return a
    def call(self, E, st, fr, i, name, args, dst, work, put):
        b = name.replace(expand("~tosca."), "")
        if b == "ValueFromUint256":
            v = self.arg(E, st, args[0])
            put(st, v.args[0] if isinstance(v, T) and v.op == "vu256" else T("inv", v)); return "cont"
        if b in ("Add", "Sub") and len(args) == 2: put(st, T("v" + b.lower(), *args)); return "cont"
        if name.endswith("tosca.Value).ToUint256") or b.endswith("Value).ToUint256"):
            o = ("h", "vu256", st.tags.get("nu", 0)); st.tags["nu"] = st.tags.get("nu", 0) + 1
            v = E.load(st, args[0], self.C.P.typ(expand(VAL))) if isinstance(args[0], Ptr) else args[0]
            st.mem[o] = {(): T("vu256", v)}; put(st, Ptr(o, ())); return "cont"
        h = self.host(name, args)
        if h: return self.request(E, st, fr, i, h, args, work, put)
        return None
    def request(self, E, st, fr, i, h, args, work, put):
        c, m = h; k = self.log(st, c, m, [self.arg(E, st, a) for a in args[1:]], i)
        r = self.answer(E, st, i, c, m, k)
        put(st, r); return "cont"
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        h = self.host(name, args)
        if h: return self.request(E, st, fr, i, h, args, work, put)
        if name == "(*%s).Bytes32" % U256 or name == "(%s).Bytes32" % U256:
            v = self.arg(E, st, args[0])
            put(st, v.args[0] if isinstance(v, T) and v.op == "vu256" else T("inv", v)); return "cont"
        if name == "(*%s).SetBytes" % U256 or name == "(*%s).SetBytes32" % U256:
            v = self.content(E, st, args[1])
            if v is not None: st.mem[args[0].o] = {args[0].p: T("vu256", v)}; put(st, args[0]); return "cont"
        if name == "(*%s).Cmp" % U256:
            v = [self.arg(E, st, a) for a in args]
            t = T("ucmp", *v, ty=I8); st.facts._narrow(t, -1, 1); put(st, t); return "cont"
        if name == "(*math/big.Int).SetBytes":
            v = self.content(E, st, args[1])
            if v is not None and isinstance(args[0], Ptr): st.mem[args[0].o] = {args[0].p: T("big", v)}; put(st, args[0]); return "cont"
        if name == "math/big.NewInt":
            o = ("h", "big", st.tags.get("nu", 0)); st.tags["nu"] = st.tags.get("nu", 0) + 1
            st.mem[o] = {(): T("big", args[0])}; put(st, Ptr(o, ())); return "cont"
        if name.endswith("common.BytesToHash"):
            v = self.content(E, st, args[0])
            if v is not None: put(st, v); return "cont"
        if name.endswith("crypto.Keccak256Hash"):
            a = args[0]
            v = a
            if isinstance(a, SliceV) and isinstance(a.len, int) and a.len == 1: v = E.load(st, Ptr(a.o, a.p + (a.off,)), None) if 0 else (st.mem.get(a.o) or {}).get(a.p + (a.off,))
            put(st, T("hashof", repr(v))); return "cont"
        return None
    def content(self, E, st, s):
        """the array of which s is the full slice"""
        if isinstance(s, SliceV) and s.off == 0:
            m = st.mem.get(s.o) or {}
            v = m.get(s.p)
            if isinstance(v, Agg): return whole(v.e) or v
            if isinstance(v, T): return v
            for l in range(len(s.p)):
                v = m.get(s.p[:l])
                if v is None: continue
                for x in s.p[l:]:
                    if isinstance(v, Agg) and isinstance(x, int): v = v.e[x]
                    elif isinstance(v, T): v = T("fld", v, x)
                    else: return None
                return whole(v.e) or v if isinstance(v, Agg) else v if isinstance(v, T) else None
            l = s.len if isinstance(s.len, int) else 0
            e = [m.get(s.p + (k,)) for k in range(l)]
            if l: return whole(e)
        return None
def whole(e):
    """the unknown of which the values are all elements, in order"""
    if e and all(isinstance(x, T) and x.op == "fld" and x.args[1] == k and x.args[0] is e[0].args[0] for k, x in enumerate(e)): return e[0].args[0]
    return None
def logkey(x): return "%s.%s" % (x[0], x[1])
class A:
    """checks of one adapter"""
    def __init__(self, rep, C, where, hosts, label): self.rep, self.C, self.P, self.where, self.hosts, self.label = rep, C, C.P, where, hosts, label
    def method(self, recv, name):
        c = [n for n in self.P.fns if re.match(r"^\(\*?%s\)\.%s$" % (re.escape(recv), name), n)]
        b = [n for n in c if not self.P.fns[n].get("syn")]
        c = b or c
        return c[0] if len(c) == 1 else None
    def paths(self, fn, args, st=None, fixed=None):
        pol = Pol(self.C, self.hosts, fixed)
        return self.C.run(fn, args, pol, st or State())
    def forward(self, recv, name, args, want, result, st=None, fixed=None, mk=None, note=None, key=None):
        """every path of the method makes the requests 'want' [(host, method, args)], in order, and yields 'result' (callable(path) or value)"""
        what = "%s: %s %s" % (self.label, name, note or "passes the request on unchanged"); fn = self.method(recv, name)
        key = key or "%s:%s" % (self.label.split()[0], name)
        if fn is None: self.rep.undec(what, "method not found"); return
        try: rs = self.paths(fn, [mk or Ptr(("h", "recv"), ())] + args, st.copy() if st else None, fixed)
        except (Undecided, AnchorMissing) as e: self.rep.undec(what, e); return
        def chk(r):
            if r.kind != "ret": return False, "panics"
            log = r.st.tags.get("log", ())
            w = want(r) if callable(want) else want
            pure = lambda x: x[1].startswith(("Get", "Is", "Has", "Exist")) and (x[0], x[1]) not in [(a, b) for a, b, _ in w]
            l = [x for x in log if not pure(x)]
            if len(l) != len(w): return False, "requests %s instead of %s" % ([logkey(x) for x in l], [logkey(x) for x in w])
            un = None
            for x, (c, m, a) in zip(l, w):
                if (x[0], x[1]) != (c, m): return False, "requests %s instead of %s.%s" % (logkey(x), c, m)
                for j, (p, q) in enumerate(zip(x[2], a)):
                    if q is ANY: continue
                    s = q(p) if callable(q) else same(p, q)
                    if s is False: return False, "argument %d of %s is %r" % (j + 1, m, p)
                    if s is None: un = "argument %d of %s: %r" % (j + 1, m, p)
            if result is not ANY:
                res = result(r) if callable(result) else result
                vs = [r.vals[0]] if not isinstance(res, list) else r.vals
                for v, q in zip(vs, res if isinstance(res, list) else [res]):
                    if q is ANY: continue
                    if isinstance(v, Ptr) and isinstance(q, T): v = Pol(self.C, self.hosts).arg(None, r.st, v)
                    s = q(v) if callable(q) else same(v, q)
                    if s is False: return False, "yields %r" % (v,)
                    if s is None: un = un or "result %r" % (v,)
            return (None, un) if un else True
        self.C.expect(key, what, rs, chk, self.where)
class _Any: pass
ANY = _Any()
def R(c, m, k=0, j=0, ty=None): return T("req", m, c, k, j, ty=ty)
def tosca_host(iface="RunContext|TransactionContext|WorldState"):
    return (r"^(?:invoke )?\(?\*?%s(?:%s)\)?\.(\w+)$" % (re.escape(expand("~tosca.")), iface), "host")
def ssl(c, m, k=0): return lambda v: isinstance(v, SliceV) and v.o == ("h", "%s.%s.%d" % (c, m, k)) or (None if not isinstance(v, SliceV) or v.o[0] != "h" else False)

# --- EVMC -----------------------------------------------------------------------------
def typed(C, name, **kw): return C.agg(name, **kw)
def params_agg(C, st, P):
    """parameters of an execution, every field a named unknown"""
    E = Engine(P)
    def agg(tn, pre):
        t = P.typ(tn); e = []
        for f in P.types[t]["f"]:
            s = P.types[f["t"]]["s"]; n = pre + f["n"]
            if s in (expand("~tosca.BlockParameters"), expand("~tosca.TransactionParameters")): e.append(agg(s, "")); continue
            k = P.types[f["t"]]["k"]
            if P.types[f["t"]]["s"] == expand("~tosca.RunContext"): e.append(T("uniq", "hostobj")); continue
            if k == "ptr": e.append(Ptr(("h", n), ())); st.mem[("h", n)] = {(): S("*" + n)}; continue
            if f["n"] == "BlobHashes":
                a = [S("blob0"), S("blob1")]; et = P.types[f["t"]]["e"] if k == "slice" else None
                for j, x in enumerate(a): E.store(st, Ptr(("h", n), (j,)), x, et)
                e.append(SliceV(("h", n), (), 0, 2, 2)); continue
            if k == "slice" or s.endswith((".Code", ".Data")):
                ln = S("len." + n, I8); st.facts._narrow(ln, 0, 1 << 40); e.append(SliceV(("h", n), (), 0, ln, ln)); continue
            ty = P.ity(f["t"]) if k == "basic" or P.ity(f["t"]) else None
            v = S(n, ty); e.append(v)
        return Agg("s", e, t)
    return agg(expand("~tosca.Parameters"), "")
def fld(C, P, v, name):
    """field by name, also of embedded structs"""
    t = P.types[v.t] if v.t is not None else None
    for k, f in enumerate(t["f"]):
        if f["n"] == name: return v.e[k]
    for k, f in enumerate(t["f"]):
        if isinstance(v.e[k], Agg) and v.e[k].t is not None and P.types[v.e[k].t]["k"] == "struct":
            r = fld(C, P, v.e[k], name)
            if r is not None: return r
    return None
def recvtype(P, pkg, *methods):
    """the named types of a package having all the methods"""
    out = {}
    for n in P.fns:
        m = re.match(r"^\(\*?(%s\.\w+)\)\.(\w+)$" % re.escape(expand("~" + pkg)), n)
        if m: out.setdefault(m.group(1), set()).add(m.group(2))
    return [t for t, ms in out.items() if set(methods) <= ms and not t.rsplit(".", 1)[1].startswith("Mock")]
def evmc(rep):
    where = "go/interpreter/evmc/evmc_interpreter.go"
    P = goprog.load(["./go/interpreter/evmc"], inits=("tosca",), rep=rep); C = Chk(rep, P)
    ts = recvtype(P, "interpreter/evmc", "GetTxContext", "EmitLog", "GetBlockHash")
    if len(ts) != 1: rep.undec("EVMC host", "adapter type"); return
    rt = ts[0]; a = A(rep, C, where, [tosca_host()], "EVMC host")
    st = State(); E = Engine(P); t = P.typ(rt)
    par = params_agg(C, st, P)
    blobs = None; e = []
    for f in P.types[t]["f"]:
        s = P.types[f["t"]]["s"]
        if s == expand("~tosca.Parameters"): e.append(par)
        elif s == expand("~tosca.RunContext"): e.append(T("uniq", "hostobj"))
        elif P.types[f["t"]]["k"] == "slice":
            blobs = SliceV(("h", "blobs"), (), 0, 2, 2); e.append(blobs)
        else: e.append(S("recv." + f["n"]))
    E.store(st, Ptr(("h", "recv"), ()), Agg("s", e, t), t)
    x, k, v = S("addr"), S("key"), S("value")
    H = "host"
    a.forward(rt, "GetStorage", [x, k], [(H, "GetStorage", [x, k])], R(H, "GetStorage"), st)
    a.forward(rt, "SetStorage", [x, k, v], [(H, "SetStorage", [x, k, v])], ANY, st, fixed={(H, "SetStorage"): 0})
    a.forward(rt, "GetTransientStorage", [x, k], [(H, "GetTransientStorage", [x, k])], R(H, "GetTransientStorage"), st)
    a.forward(rt, "SetTransientStorage", [x, k, v], [(H, "SetTransientStorage", [x, k, v])], ANY, st)
    a.forward(rt, "GetBalance", [x], [(H, "GetBalance", [x])], R(H, "GetBalance"), st)
    a.forward(rt, "GetCodeSize", [x], [(H, "GetCodeSize", [x])], R(H, "GetCodeSize", ty=I8), st)
    a.forward(rt, "GetCode", [x], [(H, "GetCode", [x])], [ssl(H, "GetCode")], st)
    a.forward(rt, "Selfdestruct", [x, S("beneficiary")], [(H, "SelfDestruct", [x, S("beneficiary")])], R(H, "SelfDestruct"), st)
    n = S("number", I8)
    a.forward(rt, "GetBlockHash", [n], [(H, "GetBlockHash", [n])], R(H, "GetBlockHash"), st)
    a.forward(rt, "AccessAccount", [x], [(H, "AccessAccount", [x])], ANY, st)
    a.forward(rt, "AccessStorage", [x, k], [(H, "AccessStorage", [x, k])], ANY, st)
    # emptiness
    empty(a, rt, st, x, "AccountExists", lambda em, r: same(r.vals[0], not em))
    empty(a, rt, st, x, "GetCodeHash", lambda em, r: (allzero(r.vals[0]) if em else same(r.vals[0], R(H, "GetCodeHash"))))
    # logs
    for cnt in (0, 1, 2, 4):
        s2 = st.copy(); hk = P.typ(EVMC + "Hash")
        for j in range(cnt): E.store(s2, Ptr(("h", "topics"), (j,)), S("topic%d" % j), hk)
        ln = S("len.data", I8); s2.facts._narrow(ln, 0, 1 << 40); data = SliceV(("h", "data"), (), 0, ln, ln)
        logcheck(a, rt, "EmitLog", [x, SliceV(("h", "topics"), (), 0, cnt, cnt), data], s2, cnt, x, data)
    # transaction context
    fn = a.method(rt, "GetTxContext")
    if fn:
        try:
            rs = a.paths(fn, [Ptr(("h", "recv"), ())], st.copy())
            tt = P.types[P.typ(EVMC + "TxContext")]["f"]
            names = {"GasPrice": "GasPrice", "Origin": "Origin", "Coinbase": "Coinbase", "Number": "BlockNumber", "Timestamp": "Timestamp", "GasLimit": "GasLimit", "PrevRandao": "PrevRandao", "ChainID": "ChainID", "BaseFee": "BaseFee", "BlobBaseFee": "BlobBaseFee"}
            for f, w in names.items():
                ix = [j for j, q in enumerate(tt) if q["n"] == f]
                if not ix: rep.undec("EVMC host: transaction context %s" % f, "field"); continue
                C.expect("EVMC:tx:" + f, "EVMC host: %s of the transaction context is the execution's %s" % (f, w), rs, lambda r: (r.kind == "ret" and same(r.vals[0].e[ix[0]], fld(C, P, par, w)), "it is %r" % (r.vals[0].e[ix[0]],)), where)
            ix = [j for j, q in enumerate(tt) if q["n"] == "BlobHashes"]
            if ix and blobs: C.expect("EVMC:tx:BlobHashes", "EVMC host: the blob hashes of the transaction context are those collected for the execution", rs, lambda r: (same(r.vals[0].e[ix[0]], blobs), "they are %r" % (r.vals[0].e[ix[0]],)), where)
        except (Undecided, AnchorMissing) as e: rep.undec("EVMC host: transaction context", e)
    else: rep.undec("EVMC host: transaction context", "GetTxContext")
    # calls
    call_args(a, rt, st)
    execute(rep, P, C, rt)
def allzero(v):
    if isinstance(v, Agg): return all(x == 0 or isinstance(x, Agg) and allzero(x) is True for x in v.e) if allconst(v) else None
    return False if isinstance(v, T) and v.op in OPAQUE else None
def empty(a, rt, st, x, name, check):
    """paths classified by nonce, balance and code size"""
    what = "%s: %s depends on nonce, balance and code size" % (a.label, name); fn = a.method(rt, name); C = a.C
    if fn is None: a.rep.undec(what, "method not found"); return
    H = "host"; n, sz = R(H, "GetNonce", ty=U8), R(H, "GetCodeSize", ty=I8)
    for nv in (0, 1, 2**64 - 1):
        for bv in (0, 1):
            for sv in (0, 1, 24576):
                bal = Agg("array", [0] * 31 + [bv], None)
                fx = {(H, "GetNonce"): nv, (H, "GetCodeSize"): sv, (H, "GetBalance"): bal}
                try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), x], st.copy(), fx)
                except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
                em = nv == 0 and bv == 0 and sv == 0
                for r in rs:
                    s = check(em, r) if r.kind == "ret" else None
                    if s is False: a.rep.violation("%s:%s" % (a.label.split()[0], name), "%s: violated for nonce %d, balance %d and code size %d: %r" % (what, nv, bv, sv, r.vals), a.where); return
                    if s is None: a.rep.undec(what, "result %r" % (r.vals,)); return
                    for l in r.st.tags.get("log", ()):
                        if l[2] and same(l[2][0], x) is not True: a.rep.violation("%s:%s" % (a.label.split()[0], name), "%s: %s is asked of %r" % (what, l[1], l[2][0]), a.where); return
    a.rep.ok(what, a.where)
def logcheck(a, rt, name, args, st, cnt, x, data, method="EmitLog", addrf="Address"):
    what = "%s: %s of a log with %d topics" % (a.label, name, cnt); fn = a.method(rt, name); P, C = a.P, a.C
    if fn is None: a.rep.undec(what, "method not found"); return
    try: rs = a.paths(fn, [Ptr(("h", "recv"), ())] + args, st)
    except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
    def chk(r):
        if r.kind != "ret": return False, "panics"
        l = [q for q in r.st.tags.get("log", ()) if q[1] == method]
        if len(l) != 1: return False, "%d logs are emitted" % len(l)
        v = l[0][2][0]
        if isinstance(v, tuple) and v[0] == "ptr": v = v[1]
        if isinstance(v, Ptr): 
            lt = P.typ("github.com/ethereum/go-ethereum/core/types.Log"); v = Engine(P).load(r.st, v, lt)
        fl = [f["n"] for f in P.types[v.t]["f"]] if v.t is not None else ["Address", "Topics", "Data"]
        ad, tp, dt = v.e[fl.index("Address")], v.e[fl.index("Topics")], v.e[fl.index("Data")]
        if same(ad, x) is not True: return same(ad, x), "the address is %r" % (ad,)
        if isinstance(tp, SliceV):
            if tp.len != cnt: return False if isinstance(tp.len, int) else None, "%r topics" % (tp.len,)
            et = P.typ(expand("~tosca.Hash"))
            for j in range(cnt):
                q = Engine(P).load(r.st, Ptr(tp.o, tp.p + (tp.off + j,)), et)
                if same(q, S("topic%d" % j)) is not True: return same(q, S("topic%d" % j)), "topic %d is %r" % (j, q)
        elif tp is not None or cnt: return None, "topics %r" % (tp,)
        if isinstance(dt, SliceV) and dt == data: return True
        return same(dt, data), "data is %r" % (dt,)
    C.expect("%s:%s" % (a.label.split()[0], name), what + " hands on address, topics and data", rs, chk, a.where)
def call_args(a, rt, st):
    P, C = a.P, a.C; fn = a.method(rt, "Call"); what = "EVMC host: parameters of calls"
    if fn is None: a.rep.undec(what, "method not found"); return
    ek = C.enum(EVMC + "CallKind"); ln = S("len.input", I8); st = st.copy(); st.facts._narrow(ln, 0, 1 << 40)
    names = [p["n"] for p in P.fns[fn]["params"]][1:]
    pos = {}
    order = ["kind", "recipient", "sender", "value", "input", "gas", "depth", "static", "salt", "codeAddress"]   # EVMC's host interface
    if len(names) != len(order): a.rep.undec(what, "signature"); return
    inp = SliceV(("h", "input"), (), 0, ln, ln); g = S("gas", I8)
    fl = C.fields("~tosca.CallParameters")
    for kd in ("Call", "CallCode", "DelegateCall", "Create", "Create2"):
        if kd not in ek: a.rep.undec(what, "call kind " + kd); continue
        v = dict(kind=ek[kd], recipient=S("recipient"), sender=S("sender"), value=S("value"), input=inp, gas=g, depth=S("depth", I8), static=S("static"), salt=S("salt"), codeAddress=S("codeaddress"))
        res = C.agg("~tosca.CallResult", Success=S("ok"), GasLeft=S("gl", I8), GasRefund=S("gr", I8), CreatedAddress=S("ca"))
        try: rs = a.paths(fn, [Ptr(("h", "recv"), ())] + [v[o] for o in order], st.copy(), {("host", "Call"): Agg("tuple", [res, None], None)})
        except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); continue
        def chk(r):
            if r.kind != "ret": return False, "panics"
            l = [q for q in r.st.tags.get("log", ()) if q[1] == "Call"]
            if len(l) != 1: return False, "%d calls are requested" % len(l)
            p = l[0][2][1]; un = None
            for f, w in dict(Sender=S("sender"), Recipient=S("recipient"), Value=S("value"), Input=inp, Gas=g, Salt=S("salt"), CodeAddress=S("codeaddress")).items():
                s = same(p.e[fl.index(f)], w)
                if s is False: return False, "%s is %r" % (f, p.e[fl.index(f)])
                if s is None: un = "%s is %r" % (f, p.e[fl.index(f)])
            return (None, un) if un else True
        C.expect("EVMC:call:" + kd, "EVMC host: a %s passes sender, recipient, value, input, gas, salt and code address on" % kd, rs, chk, a.where)
def execute(rep, P, C, rt):
    """what the foreign interpreter is given"""
    where = "go/interpreter/evmc/evmc_interpreter.go"
    st = State(); par = params_agg(C, st, P)
    k = C.enum(EVMC + "Revision"); rv = C.enum(expand("~tosca.Revision"))
    def setrev(p):
        q = [f["n"] for f in P.types[P.typ(expand("~tosca.BlockParameters"))]["f"]]
        pf = [f["n"] for f in P.types[p.t]["f"]]; bi = pf.index("BlockParameters"); b = p.e[bi]; e = list(b.e); e[q.index("Revision")] = rv["R13_Cancun"]
        pe = list(p.e); pe[bi] = Agg("s", e, b.t); return Agg("s", pe, p.t)
    par = setrev(par)
    ER = EVMC + "Result"
    for entry, owner, ext in (("Run", "EvmcInterpreter", "VM).Execute"), ("StepN", "SteppableEvmcInterpreter", "VMSteppable).StepN")):
        c = [n for n in P.fns if n.endswith("evmc.%s).%s" % (owner, entry))]
        if len(c) != 1: rep.undec("EVMC %s: arguments" % entry, "method not found"); continue
        fn = c[0]
        class PE(Pol):
            def ext(self, E, s, fr, i, name, args, dst, work, put):
                if name.endswith(ext):
                    s.tags["exec"] = (args, s.copy()); 
                    return "drop" if 0 else (s.tags.__setitem__("stop", 1), put(s, E.freshres(i, "x")), "cont")[2]
                return Pol.ext(self, E, s, fr, i, name, args, dst, work, put)
        pol = PE(C, [tosca_host()])
        if entry == "Run":
            try: rs = C.run(fn, [Ptr(("h", "vm"), ()), par], pol, st.copy())
            except (Undecided, AnchorMissing) as e: rep.undec("EVMC Run: arguments", e); continue
            seen = [r for r in rs if "exec" in r.st.tags]
            order = [("context", None), ("revision", k.get("Cancun")), ("kind", None), ("static", S("Static")), ("depth", S("Depth", I8)), ("gas", S("Gas", I8)), ("recipient", S("Recipient")), ("sender", S("Sender")), ("input", fld(C, P, par, "Input")), ("value", S("Value")), ("codehash", None), ("code", fld(C, P, par, "Code"))]
            def getter(r, n):
                args = r.st.tags["exec"][0][1:]
                return args[[o[0] for o in order].index(n)]
        else: continue
        for n, w in order:
            if w is None: continue
            C.expect("EVMC:execute:" + n, "EVMC %s: the foreign interpreter is given the execution's %s" % (entry, n), seen, lambda r: (same(getter(r, n), w), "it is %r" % (getter(r, n),)), where)
        def ctx(r):
            v = getter(r, "context"); s = r.st.tags["exec"][1]
            if isinstance(v, Iface): v = v.v
            if not isinstance(v, Ptr): return None, "context %r" % (v,)
            v = Engine(P).load(s, v, P.typ(rt)); t = P.types[P.typ(rt)]["f"]; un = None
            for j, f in enumerate(t):
                n = P.types[f["t"]]["s"]
                if n == expand("~tosca.RunContext"):
                    x = same(v.e[j], T("uniq", "hostobj"))
                    if x is not True: return x, "the host is %r" % (v.e[j],)
                elif n == expand("~tosca.Parameters"):
                    x = same(v.e[j], par)
                    if x is False: return False, "the parameters are %r" % (v.e[j],)
                    if x is None: un = "parameters"
                elif P.types[f["t"]]["k"] == "slice":
                    b = v.e[j]
                    if not isinstance(b, SliceV) or b.len != 2: return (False if isinstance(b, SliceV) and isinstance(b.len, int) or b is None else None), "blob hashes %r" % (b,)
                    for q in range(2):
                        z = Engine(P).load(s, Ptr(b.o, b.p + (b.off + q,)), P.typ(EVMC + "Hash"))
                        if same(z, S("blob%d" % q)) is not True: return same(z, S("blob%d" % q)), "blob hash %d is %r" % (q, z)
            return (None, un) if un else True
        C.expect("EVMC:execute:context", "EVMC %s: the host adapter wraps the execution's host, parameters and blob hashes" % entry, seen, ctx, where)
        def ch(r):
            v = getter(r, "codehash"); s = r.st.tags["exec"][1]
            nil = r.st.facts.known(T("==", None, Ptr(("h", "CodeHash"), ()))) if 0 else None
            if not isinstance(v, Ptr): return (None if v is not None else False), "it is %r" % (v,)
            z = (s.mem.get(v.o) or {}).get(v.p)
            return same(z, S("*CodeHash")), "it is %r" % (z,)
        C.expect("EVMC:execute:codehash", "EVMC %s: the code hash, if known, is handed over" % entry, seen, ch, where)

# --- go-ethereum's interpreter on a Tosca host ---------------------------------------------
def seq(a, rt, st, steps, fixed=None):
    """run methods one after the other; steps: (method, args or callable(previous values)); results: final paths with all values"""
    fr = [(st, [])]
    for name, args in steps:
        fn = a.method(rt, name)
        if fn is None: raise Undecided("method %s not found" % name)
        nx = []
        for s, vals in fr:
            for r in a.paths(fn, [Ptr(("h", "recv"), ())] + (args(vals) if callable(args) else args), s.copy(), fixed):
                if r.kind != "ret": raise Undecided("%s panics" % name)
                nx.append((r.st, vals + [r.vals[0] if r.vals else None]))
        fr = nx
        if len(fr) > 40: raise Undecided("too many paths")
    return fr
def expectseq(a, rt, key, what, st, steps, check, fixed=None):
    try: out = seq(a, rt, st, steps, fixed)
    except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
    und = None
    for s, vals in out:
        a.rep.count("paths")
        try: v = check(s, vals)
        except (Undecided, KeyError, IndexError, AttributeError, TypeError) as e: v = (None, "%s: %s" % (type(e).__name__, e))
        t = ""
        if isinstance(v, tuple): v, t = v
        if v is False: a.rep.violation(key, "%s: violated, %s" % (what, t), a.where); return
        if v is None: und = t or "not comparable"
    if und or not out: a.rep.undec(what, und or "no path")
    else: a.rep.ok(what, a.where)
def reqs(s, *names): return [x for x in s.tags.get("log", ()) if not names or x[1] in names]
def u256p(st, n):
    o = ("h", "u256arg." + n); st.mem[o] = {(): T("vu256", S(n))}; return Ptr(o, ())
def recvstruct(P, rt, st, fill):
    E = Engine(P); t = P.typ(rt); e = []
    for f in P.types[t]["f"]:
        v = fill(f, P.types[f["t"]]["s"]); e.append(v if v is not KEEP else E.zero(f["t"]) if P.types[f["t"]]["k"] in ("map", "slice") else S("recv." + f["n"], P.ity(f["t"]) if P.types[f["t"]]["k"] == "basic" else None))
    E.store(st, Ptr(("h", "recv"), ()), Agg("s", e, t), t)
KEEP = _Any()
def geth(rep):
    where = "go/interpreter/geth/geth.go"
    P = goprog.load(["./go/interpreter/geth"], inits=("tosca",), rep=rep); C = Chk(rep, P)
    ts = recvtype(P, "interpreter/geth", "RevertToSnapshot", "AddLog", "GetCommittedState")
    if len(ts) != 1: rep.undec("geth state", "adapter type"); return
    rt = ts[0]; a = A(rep, C, where, [tosca_host()], "geth state"); H = "host"
    st = State()
    recvstruct(P, rt, st, lambda f, s: T("uniq", "hostobj") if s.startswith(expand("~tosca.")) and s.endswith("Context") else KEEP)
    x, k, v = S("addr"), S("key"), S("value")
    d = u256p(st, "amount")
    bal = R(H, "GetBalance")
    a.forward(rt, "SubBalance", [x, d, S("reason", I8)], [(H, "SetBalance", [x, T("vsub", bal, S("amount"))])], ANY, st, note="subtracts the amount from the account's balance")
    a.forward(rt, "AddBalance", [x, d, S("reason", I8)], [(H, "SetBalance", [x, T("vadd", bal, S("amount"))])], ANY, st, note="adds the amount to the account's balance")
    for n in ("SubBalance", "AddBalance"): asked(a, rt, n, [x, d, S("reason", I8)], st, "GetBalance", x)
    a.forward(rt, "GetBalance", [x], [(H, "GetBalance", [x])], T("vu256", bal), st)
    a.forward(rt, "GetNonce", [x], [(H, "GetNonce", [x])], R(H, "GetNonce", ty=U8), st)
    a.forward(rt, "SetNonce", [x, S("n", U8)], [(H, "SetNonce", [x, S("n", U8)])], ANY, st)
    a.forward(rt, "GetCodeHash", [x], [(H, "GetCodeHash", [x])], R(H, "GetCodeHash"), st)
    a.forward(rt, "GetCode", [x], [(H, "GetCode", [x])], [ssl(H, "GetCode")], st)
    ln = S("len.code", I8); st.facts._narrow(ln, 0, 1 << 40); code = SliceV(("h", "code"), (), 0, ln, ln)
    a.forward(rt, "SetCode", [x, code], [(H, "SetCode", [x, code])], ANY, st)
    a.forward(rt, "GetCodeSize", [x], [(H, "GetCodeSize", [x])], R(H, "GetCodeSize", ty=I8), st)
    a.forward(rt, "GetCommittedState", [x, k], [(H, "GetCommittedStorage", [x, k])], R(H, "GetCommittedStorage"), st)
    a.forward(rt, "GetState", [x, k], [(H, "GetStorage", [x, k])], R(H, "GetStorage"), st)
    a.forward(rt, "SetState", [x, k, v], [(H, "SetStorage", [x, k, v])], ANY, st)
    a.forward(rt, "GetTransientState", [x, k], [(H, "GetTransientStorage", [x, k])], R(H, "GetTransientStorage"), st)
    a.forward(rt, "SetTransientState", [x, k, v], [(H, "SetTransientStorage", [x, k, v])], ANY, st)
    a.forward(rt, "HasSelfDestructed", [x], [(H, "HasSelfDestructed", [x])], R(H, "HasSelfDestructed"), st)
    a.forward(rt, "Exist", [x], [(H, "AccountExists", [x])], R(H, "AccountExists"), st)
    a.forward(rt, "AddressInAccessList", [x], [(H, "IsAddressInAccessList", [x])], R(H, "IsAddressInAccessList"), st)
    a.forward(rt, "SlotInAccessList", [x, k], [(H, "IsSlotInAccessList", [x, k])], [R(H, "IsSlotInAccessList"), R(H, "IsSlotInAccessList", 0, 1)], st)
    a.forward(rt, "AddAddressToAccessList", [x], [(H, "AccessAccount", [x])], ANY, st)
    a.forward(rt, "AddSlotToAccessList", [x, k], [(H, "AccessStorage", [x, k])], ANY, st)
    for n in ("SelfDestruct", "Selfdestruct6780"):
        b = S("beneficiary")
        expectseq(a, rt, "geth:" + n, "geth state: %s names the account credited last as beneficiary" % n, st, [("AddBalance", [b, d, S("reason", I8)]), (n, [x])],
                  lambda s, vals: (len(reqs(s, "SelfDestruct")) == 1 and alltrue(same(p, q) for p, q in zip(reqs(s, "SelfDestruct")[0][2], (x, b))), "requests %r" % (reqs(s, "SelfDestruct"),)))
    # refunds and snapshots
    r1, r2 = S("r1", U8), S("r2", U8)
    expectseq(a, rt, "geth:refund", "geth state: refunds are added and subtracted", st, [("AddRefund", [1000]), ("AddRefund", [500]), ("SubRefund", [300]), ("GetRefund", [])], lambda s, vals: diff(vals[3], S0(st, P, rt), 1200))
    expectseq(a, rt, "geth:snapshot", "geth state: reverting to a snapshot restores the refund of its creation", st,
              [("AddRefund", [1000]), ("Snapshot", []), ("AddRefund", [77]), ("RevertToSnapshot", lambda vs: [vs[1]]), ("GetRefund", [])], lambda s, vals: snap(s, vals[4], S0(st, P, rt), 1000, 1))
    expectseq(a, rt, "geth:snapshots", "geth state: of two snapshots the right one is restored", st,
              [("Snapshot", []), ("AddRefund", [1000]), ("Snapshot", []), ("SubRefund", [7]), ("RevertToSnapshot", lambda vs: [vs[0]]), ("GetRefund", [])], lambda s, vals: snap(s, vals[5], S0(st, P, rt), 0, 1), {(H, "CreateSnapshot"): lambda k: 40 + 3 * k})
    for cnt in (0, 1, 4):
        s2 = st.copy(); E = Engine(P); lt = P.typ("github.com/ethereum/go-ethereum/core/types.Log"); hk = P.typ("github.com/ethereum/go-ethereum/common.Hash")
        for j in range(cnt): E.store(s2, Ptr(("h", "topics"), (j,)), S("topic%d" % j), hk)
        dl = S("len.data", I8); s2.facts._narrow(dl, 0, 1 << 40); data = SliceV(("h", "data"), (), 0, dl, dl)
        lv = [{"Address": x, "Topics": SliceV(("h", "topics"), (), 0, cnt, cnt), "Data": data}.get(f["n"], E.zero(f["t"])) for f in P.types[lt]["f"]]
        E.store(s2, Ptr(("h", "log"), ()), Agg("s", lv, lt), lt)
        logcheck(a, rt, "AddLog", [Ptr(("h", "log"), ())], s2, cnt, x, data)
    emptygeth(a, rt, st, x)
    acl(a, rt, st)
    gethrun(rep, P, C, rt)
    interceptor(rep, P, C, rt)
def alltrue(l):
    l = list(l)
    return False if False in l else True if all(q is True for q in l) else None
def asked(a, rt, name, args, st, m, x):
    fn = a.method(rt, name); what = "geth state: %s asks for the balance of the account" % name
    if fn is None: return
    try: rs = a.paths(fn, [Ptr(("h", "recv"), ())] + args, st.copy())
    except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
    a.C.expect("geth:%s:of" % name, what, rs, lambda r: alltrue(same(l[2][0], x) for l in reqs(r.st, m)), a.where)
def S0(st, P, rt):
    t = P.types[P.typ(rt)]["f"]; k = [j for j, f in enumerate(t) if f["n"] == "refund"]
    if len(k) != 1: raise Undecided("refund of the adapter")
    return Engine(P).load(st, Ptr(("h", "recv"), (k[0],)), t[k[0]]["t"])
from absdom import aff_add
def diff(v, b, n):
    w = aff_add(b, n, U8)
    v = base(v)
    if v is w or v == w: return True
    if isinstance(v, int) or isinstance(v, T) and v.op in ("aff", "sym", "req", "init"): return False, "the refund is %r" % (v,)
    return None, "the refund is %r" % (v,)
def snap(s, v, b, n, cnt):
    """of the snapshots, whose identifiers are distinct, the right one is looked up"""
    rr = reqs(s, "RestoreSnapshot")
    if len(rr) != 1: return False, "%d snapshots are restored" % len(rr)
    return diff(v, b, n)
def emptygeth(a, rt, st, x):
    what = "geth state: Empty depends on nonce, balance and code size"; fn = a.method(rt, "Empty"); H = "host"
    if fn is None: a.rep.undec(what, "method not found"); return
    for nv in (0, 1, 2**64 - 1):
        for bz in (True, False):
            for sv in (0, 1):
                class P0(Pol):
                    def ext(self, E, s, fr, i, name, args, dst, work, put):
                        if name.endswith("uint256.Int).IsZero"):
                            put(s, bz); return "cont"
                        if name.endswith("uint256.Int).Sign"): put(s, 0 if bz else 1); return "cont"
                        return Pol.ext(self, E, s, fr, i, name, args, dst, work, put)
                    def call(self, E, s, fr, i, name, args, dst, work, put):
                        if name.endswith("uint256.Int).IsZero") or name.endswith("uint256.Int).Sign"): return self.ext(E, s, fr, i, name, args, dst, work, put)
                        return Pol.call(self, E, s, fr, i, name, args, dst, work, put)
                try: rs = a.C.run(fn, [Ptr(("h", "recv"), ()), x], P0(a.C, a.hosts, {(H, "GetNonce"): nv, (H, "GetCodeSize"): sv}), st.copy())
                except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
                for r in rs:
                    w = nv == 0 and bz and sv == 0; v = r.vals[0] if r.kind == "ret" else None
                    if not isinstance(v, bool): a.rep.undec(what, "result %r" % (v,)); return
                    if v != w: a.rep.violation("geth:Empty", "%s: violated for nonce %d, balance %s and code size %d" % (what, nv, "0" if bz else "1", sv), a.where); return
                    for l in reqs(r.st):
                        if l[2] and same(l[2][0], x) is not True: a.rep.violation("geth:Empty", "%s: %s is asked of %r" % (what, l[1], l[2][0]), a.where); return
    a.rep.ok(what, a.where)
def acl(a, rt, st):
    P = a.P; what = "geth state: PrepareAccessList warms sender, destination, precompiled contracts and all entries"
    fn = a.method(rt, "PrepareAccessList")
    if fn is None: a.rep.undec(what, "method not found"); return
    E = Engine(P); ad = P.typ("github.com/ethereum/go-ethereum/common.Address"); hk = P.typ("github.com/ethereum/go-ethereum/common.Hash")
    try: tup = P.typ("github.com/ethereum/go-ethereum/core/types.AccessTuple")
    except (KeyError, AnchorMissing) as e: a.rep.undec(what, e); return
    for dest in (True, False):
        s = st.copy()
        E.store(s, Ptr(("h", "dest"), ()), S("dest"), ad)
        for j in range(2): E.store(s, Ptr(("h", "pre"), (j,)), S("pre%d" % j), ad)
        ks = [1, 0, 2]
        for j, n in enumerate(ks):
            for q in range(n): E.store(s, Ptr(("h", "keys%d" % j), (q,)), S("key%d.%d" % (j, q)), hk)
            E.store(s, Ptr(("h", "al"), (j,)), Agg("s", [S("al%d" % j) if f["n"] == "Address" else SliceV(("h", "keys%d" % j), (), 0, n, n) for f in P.types[tup]["f"]], tup), tup)
        try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), S("sender"), Ptr(("h", "dest"), ()) if dest else None, SliceV(("h", "pre"), (), 0, 2, 2), SliceV(("h", "al"), (), 0, 3, 3)], s)
        except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); continue
        want = [("AccessAccount", S("sender"))] + ([("AccessAccount", S("dest"))] if dest else []) + [("AccessAccount", S("pre%d" % j)) for j in range(2)]
        for j, n in enumerate(ks):
            want.append(("AccessAccount", S("al%d" % j))); want += [("AccessStorage", S("al%d" % j), S("key%d.%d" % (j, q))) for q in range(n)]
        def chk(r):
            if r.kind != "ret": return False, "panics"
            got = [(x[1],) + x[2] for x in reqs(r.st)]
            for w in want:
                if not any(g[0] == w[0] and all(same(p, q) is True for p, q in zip(g[1:], w[1:])) for g in got): return (False if all(isinstance(q, T) and q.op == "sym" for g in got for q in g[1:]) else None), "%s of %s is missing" % (w[0], w[1:])
            return len(got) == len(want), "%d requests" % len(got)
        a.C.expect("geth:acl", what + (" (with destination)" if dest else " (creation)"), rs, chk, a.where)
def gethrun(rep, P, C, rt):
    """what go-ethereum's interpreter is given"""
    where = "go/interpreter/geth/geth.go"; what = "geth interpreter: "
    c = [n for n in P.fns if n.endswith("geth.gethVm).Run")]
    fn = ([n for n in c if not P.fns[n].get("syn")] or c or [None])[0]
    if fn is None: rep.undec(what + "execution", "Run"); return
    st = State(); par = params_agg(C, st, P); rvs = C.enum(expand("~tosca.Revision"))
    q = [f["n"] for f in P.types[P.typ(expand("~tosca.BlockParameters"))]["f"]]
    bi = [f["n"] for f in P.types[par.t]["f"]].index("BlockParameters")
    for rn in ("R07_Istanbul", "R10_London", "R11_Paris", "R13_Cancun"):
        b = par.e[bi]; e = list(b.e); e[q.index("Revision")] = rvs[rn]; pe = list(par.e); pe[bi] = Agg("s", e, b.t); pr = Agg("s", pe, par.t)
        class PG(Pol):
            def ext(self, E, s, fr, i, name, args, dst, work, put):
                if name.endswith("EVM).Interpreter"): put(s, T("uniq", "geth interpreter")); return "cont"
                if name.endswith("vm.NewEVM"):
                    s.tags["newevm"] = (args, s.copy()); put(s, Ptr(("h", "evm"), ())); return "cont"
                if name.endswith("vm.NewContract"):
                    s.tags["newcontract"] = args
                    ct = P.typ(GV + "Contract"); fl = {f["n"]: j for j, f in enumerate(P.types[ct]["f"])}
                    if "Gas" in fl: s.mem[("h", "contract")] = {(fl["Gas"],): args[3]}
                    put(s, Ptr(("h", "contract"), ())); return "cont"
                if name.endswith("Interpreter).Run") or name.endswith("Interpreter.Run"):
                    s.tags["grun"] = (args, s.copy()); put(s, Agg("tuple", [None, None], None)); return "cont"
                return Pol.ext(self, E, s, fr, i, name, args, dst, work, put)
        try: rs = C.run(fn, [Ptr(("h", "vm"), ()), pr], PG(C, [tosca_host()]), st.copy())
        except (Undecided, AnchorMissing) as e2: rep.undec(what + "execution (%s)" % rn, e2); continue
        seen = [r for r in rs if "grun" in r.st.tags]
        ct = P.typ(GV + "Contract"); cf = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[ct]["f"])}
        def con(r, n):
            s = r.st.tags["grun"][1]; j, t = cf[n]
            return Engine(P).load(s, Ptr(("h", "contract"), (j,)), t)
        def ev(r, *path):
            s = r.st.tags["grun"][1]; t = P.typ(GV + "EVM"); p = ()
            for n in path:
                f = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[t]["f"])}
                p += (f[n][0],); t = f[n][1]
            m = s.mem.get(("h", "evm")) or {}
            if not any(k[:len(p)] == p or p[:len(k)] == k for k in m): return NEW
            v = Engine(P).load(s, Ptr(("h", "evm"), p), t)
            return Pol(C, []).arg(None, s, v)
        def handed(r, arg, *path):
            """value of the EVM's block or transaction context: set afterwards or given to NewEVM"""
            v = ev(r, *path)
            if v is NEW:
                args, s = r.st.tags["newevm"]; v = args[arg]; t = v.t
                for n in path[1:] if len(path) > 1 else path:
                    fl = [f["n"] for f in P.types[v.t]["f"]]; v = v.e[fl.index(n)]
                v = Pol(C, []).arg(None, s, v)
            return v
        def tx(r, n, arg=True):
            try: v = ev(r, "TxContext", n)
            except KeyError: v = NEW
            if v is NEW:
                args, s = r.st.tags["newevm"]; v = args[1]; fl = [f["n"] for f in P.types[v.t]["f"]]; v = v.e[fl.index(n)]
            return Pol(C, []).arg(None, r.st.tags["grun"][1], v) if arg else v
        def chk(key, text, get, want):
            def f(r):
                v = get(r); s = same(v, want) if not callable(want) else want(v)
                return s, "it is %r" % (v,)
            C.expect("geth:run:" + key, what + text + " (%s)" % rn, seen, f, where)
        chk("static", "static mode is handed over", lambda r: r.st.tags["grun"][0][3], S("Static"))
        chk("input", "the input is handed over", lambda r: r.st.tags["grun"][0][2], fld(C, P, par, "Input"))
        chk("code", "the code is handed over", lambda r: con(r, "Code"), fld(C, P, par, "Code"))
        if "CallerAddress" in cf: chk("sender", "the sender is handed over", lambda r: con(r, "CallerAddress"), S("Sender"))
        def nc(j):
            def g(r):
                v = r.st.tags["newcontract"][j]
                if isinstance(v, Iface): v = v.v
                return Pol(C, []).arg(None, r.st.tags["grun"][1], v)
            return g
        chk("recipient", "the recipient is handed over", nc(1), S("Recipient"))
        chk("value", "the value is handed over", nc(2), T("vu256", S("Value")))
        chk("gas", "the gas is handed over", lambda r: base(nc(3)(r)), S("Gas", I8))
        chk("number", "the block number is handed over", lambda r: handed(r, 0, "Context", "BlockNumber"), T("big", S("BlockNumber", I8)))
        chk("time", "the timestamp is handed over", lambda r: base(handed(r, 0, "Context", "Time")), S("Timestamp", I8))
        chk("coinbase", "the coinbase is handed over", lambda r: handed(r, 0, "Context", "Coinbase"), S("Coinbase"))
        chk("gaslimit", "the gas limit is handed over", lambda r: base(handed(r, 0, "Context", "GasLimit")), S("GasLimit", I8))
        chk("basefee", "the base fee is handed over", lambda r: handed(r, 0, "Context", "BaseFee"), T("big", S("BaseFee")))
        chk("blobfee", "the blob base fee is handed over", lambda r: handed(r, 0, "Context", "BlobBaseFee"), T("big", S("BlobBaseFee")))
        chk("difficulty", "the difficulty is handed over", lambda r: handed(r, 0, "Context", "Difficulty"), T("big", S("PrevRandao")))
        chk("random", "the random value is handed over from Paris on" if rvs[rn] >= rvs["R11_Paris"] else "no random value is handed over before Paris", lambda r: handed(r, 0, "Context", "Random"), S("PrevRandao") if rvs[rn] >= rvs["R11_Paris"] else (lambda v: v is None))
        chk("origin", "the origin is handed over", lambda r: tx(r, "Origin"), S("Origin"))
        chk("gasprice", "the gas price is handed over", lambda r: tx(r, "GasPrice"), T("big", S("GasPrice")))
        def blobs(r):
            v = tx(r, "BlobHashes", False); s = r.st.tags["newevm"][1]
            if not isinstance(v, SliceV) or v.len != 2: return (False if v is None or isinstance(v, SliceV) and isinstance(v.len, int) else None), "%r" % (v,)
            for j in range(2):
                z = Engine(P).load(s, Ptr(v.o, v.p + (v.off + j,)), P.typ("github.com/ethereum/go-ethereum/common.Hash"))
                if same(z, S("blob%d" % j)) is not True: return same(z, S("blob%d" % j)), "blob hash %d is %r" % (j, z)
            return True
        C.expect("geth:run:blobs", what + "the blob hashes are handed over (%s)" % rn, seen, blobs, where)
        def host(r):
            args, s = r.st.tags["newevm"]; v = args[2]
            if isinstance(v, Iface): v = v.v
            if not isinstance(v, Ptr): return None, "state %r" % (v,)
            v = Engine(P).load(s, v, P.typ(rt)); t = P.types[P.typ(rt)]["f"]
            h = [v.e[j] for j, f in enumerate(t) if P.types[f["t"]]["s"].startswith(expand("~tosca.")) and P.types[f["t"]]["s"].endswith("Context")]
            rf = [v.e[j] for j, f in enumerate(t) if f["n"] == "refund"]
            l = [same(x, T("uniq", "hostobj")) for x in h] + [same(x, 0) for x in rf]
            return alltrue(l), "the state is %r" % (v,)
        def gh(r):
            args, s = r.st.tags["newevm"]; v = args[0]; f = [x["n"] for x in P.types[v.t]["f"]]; v = v.e[f.index("GetHash")]
            if not isinstance(v, Func): return None, "%r" % (v,)
            num = S("num", U8); s2 = s.copy(); s2.facts._narrow(num, 0, 1 << 62); s2.frames = []; s2.tags["log"] = ()
            rs2 = closure(C, v, [num], Pol(C, [tosca_host()]), s2); l = []
            for q in rs2:
                g = reqs(q.st)
                if len(g) != 1 or g[0][1] != "GetBlockHash": return False, "requests %s" % [x[1] for x in g]
                l += [same_gas(g[0][2][0], num, 0), same(q.vals[0], R("host", "GetBlockHash"))]
            return alltrue(l) if rs2 else None
        C.expect("geth:run:blockhash", what + "hashes of blocks are those of the execution's host (%s)" % rn, seen, gh, where)
        C.expect("geth:run:host", what + "its state wraps the execution's host and starts without refund (%s)" % rn, seen, host, where)

# --- Tosca interpreters in go-ethereum -------------------------------------------------------
def gethadapter(rep):
    where = "go/geth_adapter/adapter.go"
    P = goprog.load(["./go/geth_adapter"], inits=("tosca",), rep=rep); C = Chk(rep, P)
    ts = recvtype(P, "geth_adapter", "SelfDestruct", "AccessStorage", "GetBlockHash")
    if len(ts) != 1: rep.undec("geth adapter", "adapter type"); return
    rt = ts[0]; H = "db"; a = A(rep, C, where, [(r"^(?:invoke )?\(?\*?%sStateDB\)?\.(\w+)$" % re.escape(GV), H), (r"^\(\*?%sContract\)\.(Address|Caller)$" % re.escape(GV), "contract"), (r"^\(\*?%sEVM\)\.(\w+)$" % re.escape(GV), "evm"), (r"^\(\*?github.com/ethereum/go-ethereum/params\.ChainConfig\)\.(\w+)$", "config")], "gethadapter")
    st = State()
    recvstruct(P, rt, st, lambda f, s: Ptr(("h", "evm"), ()) if s.endswith("vm.EVM") else Ptr(("h", "contract"), ()) if s.endswith("vm.Contract") else KEEP)
    E = Engine(P); et = P.typ(GV + "EVM"); E.store(st, Ptr(("h", "evm"), ()), T("sym", "evm"), et)
    x, k, v, c = S("addr"), S("key"), S("value"), None
    SS = {(H, "GetState"), (H, "GetBalance")}
    a.forward(rt, "AccountExists", [x], [(H, "Exist", [x])], R(H, "Exist"), st)
    a.forward(rt, "GetNonce", [x], [(H, "GetNonce", [x])], R(H, "GetNonce", ty=U8), st)
    a.forward(rt, "SetNonce", [x, S("n", U8)], [(H, "SetNonce", [x, S("n", U8)])], ANY, st)
    a.forward(rt, "GetStorage", [x, k], [(H, "GetState", [x, k])], R(H, "GetState"), st)
    a.forward(rt, "GetTransientStorage", [x, k], [(H, "GetTransientState", [x, k])], R(H, "GetTransientState"), st)
    a.forward(rt, "SetTransientStorage", [x, k, v], [(H, "SetTransientState", [x, k, v])], ANY, st)
    a.forward(rt, "GetCommittedStorage", [x, k], [(H, "GetCommittedState", [x, k])], R(H, "GetCommittedState"), st)
    a.forward(rt, "GetBalance", [x], [(H, "GetBalance", [x])], R(H, "GetBalance"), st)
    a.forward(rt, "GetCodeSize", [x], [(H, "GetCodeSize", [x])], R(H, "GetCodeSize", ty=I8), st)
    a.forward(rt, "GetCodeHash", [x], [(H, "GetCodeHash", [x])], R(H, "GetCodeHash"), st)
    a.forward(rt, "GetCode", [x], [(H, "GetCode", [x])], [ssl(H, "GetCode")], st)
    ln = S("len.code", I8); st.facts._narrow(ln, 0, 1 << 40); code = SliceV(("h", "code"), (), 0, ln, ln)
    a.forward(rt, "SetCode", [x, code], [(H, "SetCode", [x, code])], ANY, st)
    a.forward(rt, "IsAddressInAccessList", [x], [(H, "AddressInAccessList", [x])], R(H, "AddressInAccessList"), st)
    a.forward(rt, "IsSlotInAccessList", [x, k], [(H, "SlotInAccessList", [x, k])], [R(H, "SlotInAccessList"), R(H, "SlotInAccessList", 0, 1)], st)
    a.forward(rt, "HasSelfDestructed", [x], [(H, "HasSelfDestructed", [x])], R(H, "HasSelfDestructed"), st)
    try:
        t = et; p = ()
        for n in ("Context", "GetHash"):
            f = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[t]["f"])}; p += (f[n][0],); t = f[n][1]
        s2 = st.copy(); et2 = P.typ(GV + "EVM"); s2.mem[("h", "evm")] = {}; E.store(s2, Ptr(("h", "evm"), p), Func("block hash function", ()), t); nb = S("number", I8); s2.facts._narrow(nb, 0, 1 << 62)
        a2 = A(rep, C, where, a.hosts + [(r"^(block hash function)$", "hash")], "gethadapter")
        class PH(Pol):
            def request(self, E, s, fr, i, h, args, work, put): return Pol.request(self, E, s, fr, i, h, [None] + args if h[0] == "hash" else args, work, put)
        a2.paths = lambda fn, args, st=None, fixed=None: C.run(fn, args, PH(C, a2.hosts, fixed), st or State())
        a2.forward(rt, "GetBlockHash", [nb], [("hash", "block hash function", [lambda v: True if base(v) == nb or same_gas(v, nb, 0) else None])], R("hash", "block hash function"), s2)
    except (KeyError, AnchorMissing) as e: rep.undec("gethadapter: GetBlockHash", e)
    sn = S("snap", I8)
    a.forward(rt, "CreateSnapshot", [], [(H, "Snapshot", [])], R(H, "Snapshot", ty=I8), st)
    a.forward(rt, "RestoreSnapshot", [sn], [(H, "RevertToSnapshot", [sn])], ANY, st)
    ak = C.enum(expand("~tosca.AccessStatus"))
    cold = next((v2 for n, v2 in ak.items() if "Cold" in n), None); warm = next((v2 for n, v2 in ak.items() if "Warm" in n), None)
    if cold is None: cold, warm = P.consts.get(expand("~tosca.ColdAccess")), P.consts.get(expand("~tosca.WarmAccess"))
    cold, warm = [int(q["v"] == "true") if isinstance(q, dict) and q.get("v") in ("true", "false") else int(q["v"]) if isinstance(q, dict) else q for q in (cold, warm)]
    for w in (True, False):
        t = "warm" if w else "cold"
        a.forward(rt, "AccessAccount", [x], [(H, "AddressInAccessList", [x]), (H, "AddAddressToAccessList", [x])], lambda r: (lambda v: int(v) == (warm if w else cold) if isinstance(v, (int, bool)) else None), st, fixed={(H, "AddressInAccessList"): w}, note="reports a %s account and adds it" % t, key="gethadapter:AccessAccount")
        for ap in (True, False):
            if not ap and w: continue
            a.forward(rt, "AccessStorage", [x, k], [(H, "SlotInAccessList", [x, k]), (H, "AddSlotToAccessList", [x, k])], lambda r: (lambda v: int(v) == (warm if w else cold) if isinstance(v, (int, bool)) else None), st, fixed={(H, "SlotInAccessList"): Agg("tuple", [ap, w], None)}, note="reports a %s slot of a %s account and adds it" % (t, "warm" if ap else "cold"), key="gethadapter:AccessStorage")
        a.forward(rt, "CreateAccount", [x, code], [(H, "CreateAccount", [x]), (H, "SetCode", [x, code])] if not w else [], not w, st, fixed={(H, "Exist"): w}, note="of an %s account" % ("existing" if w else "unknown"), key="gethadapter:CreateAccount")
    # storage status
    what = "gethadapter: SetStorage stores changed values and classifies by original, current and new value"
    fn = a.method(rt, "SetStorage"); ss = C.enum(expand("~tosca.StorageStatus"))
    if fn:
        cur, org = R(H, "GetState"), R(H, "GetCommittedState")
        class PS(Pol):
            def call(self, E, s, fr, i, name, args, dst, work, put):
                if name == expand("~tosca.GetStorageStatus"): put(s, T("fld", T("req", "status", tuple(map(repr, args))), 0)); return "cont"
                return Pol.call(self, E, s, fr, i, name, args, dst, work, put)
        try:
            rs = C.run(fn, [Ptr(("h", "recv"), ()), x, k, v], PS(C, a.hosts), st.copy())
            def chk(r):
                sets = reqs(r.st, "SetState"); un = None
                for l in reqs(r.st):
                    for p, q in zip(l[2], (x, k, v)):
                        if same(p, q) is not True: return same(p, q), "%s of %r" % (l[1], p)
                if not sets:
                    eq = r.st.facts.known(mk_eq(cur, v))
                    if eq is not True: return (None if eq is None else False), "a changed value is not stored"
                    return same(r.vals[0], ss.get("StorageAssigned")), "an unchanged value yields %r" % (r.vals[0],)
                w = T("fld", T("req", "status", tuple(map(repr, (org, cur, v)))), 0)
                return (len(sets) == 1 and (True if base(r.vals[0]) is w or base(r.vals[0]) == w else False if getattr(base(r.vals[0]), "op", "") == "fld" or isinstance(r.vals[0], int) else None)), "the status is %r" % (r.vals[0],)
            C.expect("gethadapter:SetStorage", what, rs, chk, where)
        except (Undecided, AnchorMissing) as e: rep.undec(what, e)
    else: rep.undec(what, "method not found")
    # balances: the balance is the requested one afterwards
    what = "gethadapter: SetBalance changes the balance by the difference"
    fn = a.method(rt, "SetBalance")
    if fn:
        bal = R(H, "GetBalance")
        class PB(Pol):
            def call(self, E, s, fr, i, name, args, dst, work, put):
                if name.endswith("tosca.Value).Cmp"):
                    s.tags["cmp"] = s.tags.get("cmp", ()) + ((args, s.tags["want"]),); va, vb = [self.arg(E, s, q) for q in args[:2]]
                    if same(va, bal) is True and same(vb, v) is True: put(s, s.tags["want"]); return "cont"
                    if same(va, v) is True and same(vb, bal) is True: put(s, -s.tags["want"]); return "cont"
                return Pol.call(self, E, s, fr, i, name, args, dst, work, put)
        for o in (-1, 0, 1):
            s0 = st.copy(); s0.tags["want"] = o
            try: rs = C.run(fn, [Ptr(("h", "recv"), ()), x, v], PB(C, a.hosts), s0)
            except (Undecided, AnchorMissing) as e: rep.undec(what, e); continue
            def chk(r):
                ch = reqs(r.st, "AddBalance", "SubBalance")
                if not r.st.tags.get("cmp"): return None, "no comparison"
                if o == 0: return not ch or None, "an equal balance is changed"
                if len(ch) != 1: return False, "%d changes" % len(ch)
                if ch[0][1] != ("AddBalance" if o < 0 else "SubBalance"): return False, "%s is requested" % ch[0][1]
                l = [same(ch[0][2][0], x), same(ch[0][2][1], T("vu256", T("vsub", *((v, bal) if o < 0 else (bal, v)))))]
                return alltrue(l), "%s of %r" % (ch[0][1], ch[0][2][:2])
            C.expect("gethadapter:SetBalance", what + " (%s balance)" % {-1: "lower", 0: "equal", 1: "higher"}[o], rs, chk, where)
    else: rep.undec(what, "method not found")
    # self-destruct
    what = "gethadapter: SelfDestruct"; fn = a.method(rt, "SelfDestruct"); b = S("beneficiary")
    if fn:
        for can in (True, False):
            for had in (True, False):
                try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), x, b], st.copy(), {("config", "IsCancun"): can, (H, "HasSelfDestructed"): had, ("contract", "Address"): x})
                except (Undecided, AnchorMissing) as e: rep.undec(what, e); continue
                def chk(r):
                    ad, su, de = reqs(r.st, "AddBalance"), reqs(r.st, "SubBalance"), reqs(r.st, "SelfDestruct", "Selfdestruct6780")
                    if len(de) != 1 or de[0][1] != ("Selfdestruct6780" if can else "SelfDestruct"): return False, "requests %s" % [l[1] for l in de]
                    if len(ad) != 1 or len(su) != (1 if can else 0): return False, "%d credits and %d debits" % (len(ad), len(su))
                    q = T("vu256", R(H, "GetBalance")); l = [same(de[0][2][0], x), same(ad[0][2][0], b), same(ad[0][2][1], q)] + ([same(su[0][2][0], x), same(su[0][2][1], q)] if can else [])
                    l += [same(g[2][0], x) for g in reqs(r.st, "GetBalance", "HasSelfDestructed")]
                    l.append(same(r.vals[0], not had))
                    order = [g[1] for g in reqs(r.st)]
                    if order.index("AddBalance") < order.index("GetBalance") or order.index("HasSelfDestructed") > order.index(de[0][1]): return False, "order of requests %s" % order
                    return alltrue(l), "requests %s, result %r" % (reqs(r.st), r.vals[0])
                C.expect("gethadapter:SelfDestruct", what + " moves the balance to the beneficiary%s and reports %s" % (", also from the account," if can else "", "a repetition" if had else "the first time"), rs, chk, where)
    else: rep.undec(what, "method not found")
    for cnt in (0, 1, 4):
        s2 = st.copy(); hk = P.typ(expand("~tosca.Hash"))
        for j in range(cnt): E.store(s2, Ptr(("h", "topics"), (j,)), S("topic%d" % j), hk)
        dl = S("len.data", I8); s2.facts._narrow(dl, 0, 1 << 40); data = SliceV(("h", "data"), (), 0, dl, dl)
        logcheck(a, rt, "EmitLog", [C.agg("~tosca.Log", Address=x, Topics=SliceV(("h", "topics"), (), 0, cnt, cnt), Data=data)], s2, cnt, x, data, method="AddLog")
    gacalls(rep, P, C, a, rt, st)
    garun(rep, P, C, a, st)
def gacalls(rep, P, C, a, rt, st):
    where = a.where; fn = a.method(rt, "Call"); tk = C.enum(expand("~tosca.CallKind"))
    if fn is None: rep.undec("gethadapter: calls", "method not found"); return
    rec, snd, cod, val, salt = S("recipient"), S("sender"), S("codeaddress"), S("value"), S("salt")
    il = S("len.input", I8); st = st.copy(); st.facts._narrow(il, 0, 1 << 40); inp = SliceV(("h", "input"), (), 0, il, il); g = S("gas", I8); st.facts._narrow(g, 0, (1 << 62))
    bit = {"Call": (1, 2, 3, 4), "StaticCall": (1, 2, 3), "DelegateCall": (1, 2, 3), "CallCode": (1, 2, 3, 4), "Create": (2, 3, 4), "Create2": (2, 3, 4, 5)}
    t = P.typ(rt); ro = [j for j, f in enumerate(P.types[t]["f"]) if P.types[f["t"]]["k"] == "basic" and P.types[f["t"]]["s"] == "bool"]
    arr = lambda l: Agg("array", l, P.typ(expand("~tosca.Address")))
    pre = arr([0] * 19 + [4]); accounts = [("a contract", arr([0x31] * 20), False), ("an address differing from a precompiled one in byte 18", arr([0] * 18 + [1, 1]), False), ("an address differing from a precompiled one in byte 0", arr([1] + [0] * 18 + [1]), False), ("address 0", arr([0] * 20), False), ("address 11", arr([0] * 19 + [11]), False)] + [("precompiled contract %d" % n, arr([0] * 19 + [n]), True) for n in (1, 9, 10)]
    for kd in bit:
        if kd not in tk: rep.undec("gethadapter: %s" % kd, "constant"); continue
        for static in (False, True):
            for txt, ca, isp in accounts if kd in ("Call", "StaticCall") and static else accounts[:1]:
                s = st.copy(); E = Engine(P)
                if len(ro) == 1: E.store(s, Ptr(("h", "recv"), (ro[0],)), static, P.types[t]["f"][ro[0]]["t"])
                par = C.agg("~tosca.CallParameters", Sender=snd, Recipient=rec, Value=val, Input=inp, Gas=g, Salt=salt, CodeAddress=ca)
                try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), tk[kd], par], s)
                except (Undecided, AnchorMissing) as e: rep.undec("gethadapter: %s" % kd, e); continue
                def chk(r):
                    if r.kind != "ret": return False, "panics"
                    l = [q for q in reqs(r.st) if q[0] == "evm" and q[1] in bit]
                    if len(l) != 1 or l[0][1] != kd: return False, "requests %s" % [q[1] for q in l]
                    p = l[0][2]; un = None
                    create = kd.startswith("Create"); i0 = 0 if create else 1
                    me = p[0].v if isinstance(p[0], Iface) else p[0]
                    ch = [(me, Ptr(("h", "contract"), ()), "caller")]
                    if not create: ch.append((p[1], ca if kd in ("DelegateCall", "CallCode") else rec, "destination"))
                    ch.append((p[1 + i0], inp, "input"))
                    from absdom import aff_add
                    gg = base(p[2 + i0]); wants = static and not isp
                    ex = r.st.facts.known(T("==", gg, g)) if False else None
                    if wants: ok = same_gas(gg, g, 1 << 63)
                    else: ok = same_gas(gg, g, 0)
                    if ok is not True: return ok, "the gas is %r" % (gg,)
                    if kd not in ("StaticCall", "DelegateCall"): ch.append((p[3 + i0], T("vu256", val), "value"))
                    if kd == "Create2": ch.append((p[4], T("vu256", salt), "salt"))
                    for v, w, n in ch:
                        if isinstance(v, tuple) and v[0] == "ptr": v = v[1]
                        z = same(v, w)
                        if z is False: return False, "%s is %r" % (n, v)
                        if z is None: un = "%s is %r" % (n, v)
                    return (None, un) if un else True
                C.expect("gethadapter:call:" + kd, "gethadapter: a %s%s%s hands caller, destination, input, gas, value and salt on%s" % (kd, " in static mode" if static else "", " to " + txt if static and kd in ("Call", "StaticCall") else "", ", read-only mode being marked in the gas" if static and not isp else ", the gas being unmarked" if static else ""), rs, chk, where)
def same_gas(v, g, off):
    from absdom import aff_add
    v = base(v)
    for ty in (I8, U8):
        try:
            w = base(aff_add(g, off, ty)) if off else base(g)
            if v is w or v == w: return True
        except Exception: pass
    if off and isinstance(v, T) and v.op == "aff": return None if repr(v).count("$gas") != 1 else str(off) in repr(v) or str(off - (1 << 64)) in repr(v) or False
    if isinstance(v, T) and (v.op == "sym" or v.op == "aff") or isinstance(v, int): return False
    return None
def garun(rep, P, C, a, st):
    """what the Tosca interpreter is given"""
    where = a.where; what = "gethadapter: "
    fn = C.find("geth_adapter.gethInterpreterAdapter).Run")
    if fn is None: rep.undec(what + "execution", "Run"); return
    bt = "math/big.Int"; names = {}
    cr = P.typ(GV + "Contract"); cf = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[cr]["f"])}
    et = P.typ(GV + "EVM")
    def path(t, *ns):
        p = ()
        for n in ns:
            f = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[t]["f"])}; p += (f[n][0],); t = f[n][1]
        return p, t
    REVS = C.enum(expand("~tosca.Revision"))
    for rn in ("R10_London", "R13_Cancun"):
        for depth, ro, mark in ((0, True, None), (0, False, None), (1, False, 0), (1, False, 12345), (1023, True, 1 << 61), (7, False, None), (3, True, None)):
            s = State(); E = Engine(P)
            def big(n):
                o = ("h", "big." + n); s.mem[o] = {(): T("big", S(n))}; return Ptr(o, ())
            def put(v, *ns):
                p, t = path(et, *ns); E.store(s, Ptr(("h", "evm"), p), v, t)
            try:
                put(big("number"), "Context", "BlockNumber"); put(S("time", U8), "Context", "Time"); put(S("coinbase"), "Context", "Coinbase"); put(S("gaslimit", U8), "Context", "GasLimit")
                put(big("basefee"), "Context", "BaseFee"); put(big("blobfee"), "Context", "BlobBaseFee"); put(big("difficulty"), "Context", "Difficulty")
                E.store(s, Ptr(("h", "random"), ()), S("random"), P.typ("github.com/ethereum/go-ethereum/common.Hash"))
                put(Ptr(("h", "random"), ()) if rn == "R13_Cancun" else None, "Context", "Random")
                put(S("origin"), "TxContext", "Origin"); put(big("gasprice"), "TxContext", "GasPrice"); put(T("uniq", "db"), "StateDB")
                hk = P.typ("github.com/ethereum/go-ethereum/common.Hash")
                for j in range(2): E.store(s, Ptr(("h", "blobs"), (j,)), S("blob%d" % j), hk)
                put(SliceV(("h", "blobs"), (), 0, 2, 2), "TxContext", "BlobHashes")
                cl, il = S("len.code", I8), S("len.input", I8)
                for q in (cl, il): s.facts._narrow(q, 0, 1 << 40)
                code, inp = SliceV(("h", "code"), (), 0, cl, cl), SliceV(("h", "input"), (), 0, il, il)
                for n, v in dict(Code=code, CodeHash=S("codehash"), Input=inp).items():
                    if n in cf: E.store(s, Ptr(("h", "contract"), (cf[n][0],)), v, cf[n][1])
                g = S("gas", U8); s.facts._narrow(g, 0, 1 << 62)
                from absdom import aff_add
                E.store(s, Ptr(("h", "contract"), (cf["Gas"][0],)), g if mark is None else mark + (1 << 63), cf["Gas"][1])
                at = P.typ(expand("~geth_adapter.gethInterpreterAdapter")); av = [Ptr(("h", "evm"), ()) if P.types[f["t"]]["s"].endswith("vm.EVM") else T("uniq", "interpreter") for f in P.types[at]["f"]]
                E.store(s, Ptr(("h", "recv"), ()), Agg("s", av, at), at)
            except (KeyError, AnchorMissing) as e: rep.undec(what + "execution", "field %s" % e); return
            rv = REVS[rn]
            class PR(Pol):
                def call(self, E, st2, fr, i, name, args, dst, work, put):
                    f = E.P.fns.get(name); ts = [E.P.types[t]["s"] for t in (E.result_tids(i) or [])]
                    if len(ts) == 2 and ts[1] == "error" and ts[0] == expand("~tosca.Revision"): put(st2, Agg("tuple", [rv, None], None)); return "cont"
                    if len(ts) == 2 and ts[1] == "error" and args and isinstance(args[0], Ptr) and isinstance(args[0].o, tuple) and str(args[0].o[1]).startswith("big."):
                        put(st2, Agg("tuple", [self.arg(E, st2, args[0]).args[0], None], None)); return "cont"
                    return self.ext(E, st2, fr, i, name, args, dst, work, put) or Pol.call(self, E, st2, fr, i, name, args, dst, work, put)
                def ext(self, E, st2, fr, i, name, args, dst, work, put):
                    if name.endswith("tosca.Interpreter.Run"):
                        st2.tags["ran"] = (args[-1], st2.copy()); put(st2, Agg("tuple", [E.zero(E.result_tids(i)[0]), T("nonnil", T("stop"))], None)); return "cont"
                    if name.endswith(".GetDepth"): put(st2, st2.tags.get("depth", depth)); return "cont"
                    if name.endswith(".SetDepth"): st2.tags["depth"] = args[1]; put(st2, None); return "cont"
                    if name.endswith("params.ChainConfig).Rules"): put(st2, E.freshres(i, "rules")); return "cont"
                    if name.endswith("EVM).ChainConfig"):
                        ct = P.typ("github.com/ethereum/go-ethereum/params.ChainConfig"); fl = [f["n"] for f in P.types[ct]["f"]]
                        st2.mem[("h", "chainconfig")] = {(fl.index("ChainID"),): Ptr(("h", "big.chainid"), ())}; st2.mem[("h", "big.chainid")] = {(): T("big", S("chainid"))}
                        put(st2, Ptr(("h", "chainconfig"), ())); return "cont"
                    if name.endswith("vm.Contract).Value"):
                        o = ("h", "cvalue"); st2.mem[o] = {(): T("vu256", S("value"))}; put(st2, Ptr(o, ())); return "cont"
                    if name.endswith("vm.Contract).Address"): put(st2, S("recipient")); return "cont"
                    if name.endswith("vm.Contract).Caller"): put(st2, S("sender")); return "cont"
                    if name.endswith(("big.Int).Int64", "big.Int).Uint64")):
                        v = self.arg(E, st2, args[0])
                        if isinstance(v, T) and v.op == "big": put(st2, sym("$" + v.args[0].args[0].lstrip("$"), ty=I8) if False else S("number", I8)); return "cont"
                    return Pol.ext(self, E, st2, fr, i, name, args, dst, work, put)
            txt = "(%s, depth %d%s%s)" % (rn[4:], depth, ", read-only" if ro else "", ", read-only mode marked in the gas %d" % mark if mark is not None else "")
            try: rs = C.run(fn, [Ptr(("h", "recv"), ()), Ptr(("h", "contract"), ()), inp, ro], PR(C, a.hosts), s)
            except (Undecided, AnchorMissing) as e: rep.undec(what + "execution " + txt, e); continue
            seen = [r for r in rs if "ran" in r.st.tags]
            def get(r, n): return fld(C, P, r.st.tags["ran"][0], n)
            want = dict(ChainID=S("chainid"), BlockNumber=S("number", I8), Timestamp=S("time", U8), Coinbase=S("coinbase"), GasLimit=S("gaslimit", U8), PrevRandao=S("random") if rn == "R13_Cancun" else S("difficulty"), BaseFee=S("basefee"), BlobBaseFee=S("blobfee"), Revision=rv, Origin=S("origin"), GasPrice=S("gasprice"),
                        Static=ro or mark is not None, Depth=depth, Gas=S("gas", U8) if mark is None else mark, Recipient=S("recipient"), Sender=S("sender"), Input=inp, Value=S("value"), Code=code)
            for n, w in want.items():
                def chk(r):
                    v = get(r, n); z = same(v, w)
                    if z is None and n == "Gas" and mark is None: z = same_gas(v, S("gas", U8), 0)
                    return z, "it is %r" % (v,)
                C.expect("gethadapter:run:" + n, what + "the interpreter is given %s %s" % (n, txt), seen, chk, where)
            def host(r):
                v = get(r, "Context"); s2 = r.st.tags["ran"][1]
                if isinstance(v, Iface): v = v.v
                if not isinstance(v, Ptr): return None, "context %r" % (v,)
                t2 = P.typ(recvtype(P, "geth_adapter", "SelfDestruct", "AccessStorage", "GetBlockHash")[0]); v = Engine(P).load(s2, v, t2); l = []
                for j, f in enumerate(P.types[t2]["f"]):
                    n = P.types[f["t"]]["s"]
                    if n.endswith("vm.EVM"): l.append(same(v.e[j], Ptr(("h", "evm"), ())))
                    elif n.endswith("vm.Contract"): l.append(same(v.e[j], Ptr(("h", "contract"), ())))
                    elif n == "bool": l.append(same(v.e[j], ro or mark is not None))
                return alltrue(l), "the context is %r" % (v,)
            C.expect("gethadapter:run:Context", what + "the interpreter's context wraps EVM, contract and read-only mode %s" % txt, seen, host, where)
            def ch(r):
                v = get(r, "CodeHash"); s2 = r.st.tags["ran"][1]
                if v is None: 
                    return True   # unknown code hashes are zero
                if not isinstance(v, Ptr): return None, "%r" % (v,)
                z = Engine(P).load(s2, v, P.typ(expand("~tosca.Hash"))); return same(z, S("codehash")), "it is %r" % (z,)
            C.expect("gethadapter:run:CodeHash", what + "the interpreter is given CodeHash %s" % txt, seen, ch, where)
            def bl(r):
                v = get(r, "BlobHashes"); s2 = r.st.tags["ran"][1]
                if not isinstance(v, SliceV) or v.len != 2: return (False if v is None or isinstance(v, SliceV) and isinstance(v.len, int) else None), "%r" % (v,)
                for j in range(2):
                    z = Engine(P).load(s2, Ptr(v.o, v.p + (v.off + j,)), P.typ(expand("~tosca.Hash")))
                    if same(z, S("blob%d" % j)) is not True: return same(z, S("blob%d" % j)), "blob hash %d is %r" % (j, z)
                return True
            C.expect("gethadapter:run:BlobHashes", what + "the interpreter is given BlobHashes %s" % txt, seen, bl, where)
# --- conformance tests ------------------------------------------------------------------
def interceptor(rep, P, C, dbt):
    """calls of go-ethereum's interpreter in conformance tests"""
    where = "go/interpreter/geth/ct.go"
    ts = [t for t in recvtype(P, "interpreter/geth", "Call", "CallCode", "DelegateCall", "StaticCall", "Create", "Create2")]
    if len(ts) != 1: rep.undec("geth calls", "interceptor type"); return
    rt = ts[0]; tk = C.enum(expand("~tosca.CallKind")); fl = C.fields("~tosca.CallParameters"); H = "host"
    t = P.typ(rt); E = Engine(P)
    for kd in ("Call", "CallCode", "DelegateCall", "StaticCall", "Create", "Create2"):
        create = kd.startswith("Create"); hasval = kd not in ("DelegateCall", "StaticCall")
        for static in ((False, True) if kd == "Call" else (False,)):
            for cmp in ((-1, 0, 1) if hasval else (0,)):
                st = State(); par = params_agg(C, st, P)
                recvstruct(P, rt, st, lambda f, s: par if s == expand("~tosca.Parameters") else static if s == "bool" else Ptr(("h", "sdb"), ()))
                dt = P.typ(dbt); E.store(st, Ptr(("h", "sdb"), ()), Agg("s", [T("uniq", "hostobj") if P.types[f["t"]]["s"].startswith(expand("~tosca.")) and P.types[f["t"]]["s"].endswith("Context") else S("refund", U8) if f["n"] == "refund" else E.zero(f["t"]) for f in P.types[dt]["f"]], dt), dt)
                me, ad = S("me"), S("dest"); il = S("len.input", I8); st.facts._narrow(il, 0, 1 << 40); inp = SliceV(("h", "callinput"), (), 0, il, il); g = S("callgas", U8); st.facts._narrow(g, 0, 1 << 62)
                ol = S("len.out", I8); st.facts._narrow(ol, 0, 1 << 40); out = SliceV(("h", "callout"), (), 0, ol, ol)
                st.mem[("h", "val")] = {(): T("vu256", S("callvalue"))}; st.mem[("h", "salt")] = {(): T("vu256", S("callsalt"))}
                val, salt = Ptr(("h", "val"), ()), Ptr(("h", "salt"), ())
                mref = Iface(P.typ(GV + "ContractRef"), T("uniq", "me")) if 0 else T("uniq", "me")
                args = [Ptr(("h", "recv"), ()), Ptr(("h", "evm"), ()), mref] + ([] if create else [ad]) + [inp, g] + ([val] if hasval else []) + ([salt] if kd == "Create2" else [])
                fn = [n for n in P.fns if re.match(r"^\(\*?%s\)\.%s$" % (re.escape(rt), kd), n)]; fn = ([n for n in fn if not P.fns[n].get("syn")] or fn)[0]
                ok = S("ok"); res = C.agg("~tosca.CallResult", Output=out, GasLeft=S("gl", I8), GasRefund=S("gr", I8), CreatedAddress=S("created"), Success=True)
                class PI(Pol):
                    def ext(self, E, s, fr, i, name, args, dst, work, put):
                        if name.endswith("ContractRef.Address") or name.endswith("ContractRef).Address"): put(s, me); return "cont"
                        if name == "(*%s).Cmp" % U256:
                            a, b = [self.arg(E, s, q) for q in args]; v, h = T("vu256", S("callvalue")), T("vu256", R(H, "GetBalance"))
                            if a == v and b == h: put(s, cmp); return "cont"
                            if a == h and b == v: put(s, -cmp); return "cont"
                        if name == "(*%s).Lt" % U256 or name == "(*%s).Gt" % U256:
                            a, b = [self.arg(E, s, q) for q in args]; v, h = T("vu256", S("callvalue")), T("vu256", R(H, "GetBalance"))
                            sg = -1 if name.endswith("Lt") else 1
                            if a == v and b == h: put(s, cmp == sg); return "cont"
                            if a == h and b == v: put(s, -cmp == sg); return "cont"
                        return Pol.ext(self, E, s, fr, i, name, args, dst, work, put)
                    def call(self, E, s, fr, i, name, args, dst, work, put):
                        if name.startswith("(*%s)." % U256) and name.endswith((".Cmp", ".Lt", ".Gt")): return self.ext(E, s, fr, i, name, args, dst, work, put)
                        return Pol.call(self, E, s, fr, i, name, args, dst, work, put)
                er = geth_errs(st)
                txt = "geth calls: a %s%s%s" % (kd, " in static mode" if static else "", {1: " exceeding the balance", 0: "", -1: " within the balance"}[cmp] if hasval else "")
                try: rs = C.run(fn, args, PI(C, [tosca_host()], {(H, "Call"): Agg("tuple", [res, None], None)}), st)
                except (Undecided, AnchorMissing) as e: rep.undec(txt, e); continue
                want = dict(Gas=g, Input=inp)
                if kd in ("Call", "StaticCall"): want.update(Sender=me, Recipient=ad, CodeAddress=ad)
                elif kd == "CallCode": want.update(Sender=me, Recipient=me, CodeAddress=ad)
                elif kd == "DelegateCall": want.update(Sender=S("Sender"), Recipient=S("Recipient"), CodeAddress=ad, Value=S("Value"))
                else: want.update(Sender=me)
                if hasval: want["Value"] = S("callvalue")
                if kd == "StaticCall": want["Value"] = ZERO
                if kd == "Create2": want["Salt"] = S("callsalt")
                def chk(r):
                    if r.kind != "ret": return False, "panics"
                    cs = reqs(r.st, "Call")
                    if hasval and cmp > 0:
                        if cs: return False, "the call is made"
                        return alltrue([same(r.vals[-2], g), same(r.vals[-1], er["ErrInsufficientBalance"])]), "result %r" % (r.vals,)
                    if len(cs) != 1: return False, "%d calls" % len(cs)
                    kn, p = cs[0][2]; un = None
                    if kn != tk["StaticCall" if static else kd]: return False, "the kind is %r" % (kn,)
                    for f, w in want.items():
                        v = p.e[fl.index(f)]; z = same(v, w) if w is not ZERO else allzero(v)
                        if z is None and f == "Gas": z = same_gas(v, g, 0)
                        if z is False: return False, "%s is %r" % (f, v)
                        if z is None: un = "%s is %r" % (f, v)
                    l = [(r.vals[0], out, "output"), (r.vals[-2], S("gl", I8), "gas"), (r.vals[-1], None, "error")] + ([(r.vals[1], S("created"), "created address")] if create else [])
                    for v, w, n in l:
                        z = same(v, w)
                        if z is False: return False, "the %s is %r" % (n, v)
                        if z is None: un = "%s is %r" % (n, v)
                    rf = [j for j, f in enumerate(P.types[dt]["f"]) if f["n"] == "refund"]
                    if len(rf) == 1:
                        v = Engine(P).load(r.st, Ptr(("h", "sdb"), (rf[0],)), P.types[dt]["f"][rf[0]]["t"])
                        if base(v) == S("refund", U8): return False, "the refund of the call is lost"
                    return (None, un) if un else True
                C.expect("gethcalls:" + kd, txt + (" fails without being made" if hasval and cmp > 0 else " is made with its sender, recipient, code address, value, input, gas and salt and its result handed back"), rs, chk, where)
ZERO = _Any()
import finmod
CTS = "~ct/st."; CTC = "~ct/common."
def ctadapter(rep):
    """the conformance-test state as host of an interpreter"""
    where = "go/ct/utils/adapter.go"
    P = goprog.load(["./go/ct/utils"], inits=("tosca",), rep=rep); C = Chk(rep, P)
    ts = recvtype(P, "ct/utils", "SelfDestruct", "AccessStorage", "GetBlockHash")
    if len(ts) != 1: rep.undec("conformance host", "adapter type"); return
    rt = ts[0]; st0, cc = expand(CTS), expand(CTC)
    hosts = [(r"^\(\*?%s%s\)\.(\w+)$" % (re.escape(st0), n), n) for n in ("Accounts", "Storage", "TransientStorage", "Logs", "CallJournal", "Code")] + [(r"^\(\*?%sImmutableHashArray\)\.(\w+)$" % re.escape(cc), "Hashes"), (r"^\(\*?%sBytes\)\.(\w+)$" % re.escape(cc), "Bytes")]
    class PC(Pol):
        def call(self, E, s, fr, i, name, args, dst, work, put):
            if name == cc + "NewU256FromBytes":
                v = self.content(E, s, args[0])
                if v is not None: put(s, T("ctu", v)); return "cont"
                return None
            if name == "(%sU256).Bytes32be" % cc:
                v = args[0]; put(s, v.args[0] if isinstance(v, T) and v.op == "ctu" else T("req", "b32", v)); return "cont"
            if name == expand("~tosca.GetStorageStatus"): put(s, T("fld", T("req", "status", tuple(map(repr, args))), 0)); return "cont"
            return Pol.call(self, E, s, fr, i, name, args, dst, work, put)
        def request(self, E, s, fr, i, h, args, work, put):
            c, m = h
            if c == "Bytes": 
                put(s, SliceV(("h", "bytes"), (), 0, S("len.bytes", I8), S("len.bytes", I8)) if m == "ToBytes" else T("req", m, args[0], ty=I8)); s.tags["bytes"] = s.tags.get("bytes", ()) + ((m, args[0]),); return "cont"
            return Pol.request(self, E, s, fr, i, h, args, work, put)
    class AC(A):
        def paths(self, fn, args, st=None, fixed=None): return self.C.run(fn, args, PC(self.C, self.hosts, fixed), st or State())
    a = AC(rep, C, where, hosts, "ct")
    sname = expand("~ct/st.State"); sy = P.typ(sname); sf = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[sy]["f"])}
    st = State(); E = Engine(P)
    recvstruct(P, rt, st, lambda f, s: Ptr(("h", "state"), ()) if s.endswith("st.State") else KEEP)
    vals = []
    for f in P.types[sy]["f"]:
        k = P.types[f["t"]]["k"]
        if k == "ptr": st.mem[("h", f["n"])] = {(): S("obj." + f["n"])}; vals.append(Ptr(("h", f["n"]), ()))
        elif k == "slice": n = S("len." + f["n"], I8); st.facts._narrow(n, 0, 1 << 40); vals.append(SliceV(("h", f["n"]), (), 0, n, n))
        else: vals.append(S(f["n"], P.ity(f["t"]) if k == "basic" else None))
    E.store(st, Ptr(("h", "state"), ()), Agg("s", vals, sy), sy)
    x, k, v = S("addr"), S("key"), S("value"); u = lambda q: T("ctu", q); b32 = lambda q: T("req", "b32", q); RR = lambda c, m, **kw: R(c, m, **kw)
    ac, so, tr = "Accounts", "Storage", "TransientStorage"
    a.forward(rt, "AccountExists", [x], [(ac, "Exists", [x])], R(ac, "Exists"), st)
    a.forward(rt, "GetStorage", [x, k], [(so, "GetCurrent", [u(k)])], b32(R(so, "GetCurrent")), st)
    a.forward(rt, "GetCommittedStorage", [x, k], [(so, "GetOriginal", [u(k)])], b32(R(so, "GetOriginal")), st)
    a.forward(rt, "SetStorage", [x, k, v], [(so, "SetCurrent", [u(k), u(v)])], T("fld", T("req", "status", tuple(map(repr, (b32(R(so, "GetOriginal")), b32(R(so, "GetCurrent")), v)))), 0), st)
    order(a, rt, "SetStorage", [x, k, v], st, "GetCurrent", "SetCurrent", "the value replaced")
    a.forward(rt, "GetTransientStorage", [x, k], [(tr, "Get", [u(k)])], b32(R(tr, "Get")), st)
    a.forward(rt, "SetTransientStorage", [x, k, v], [(tr, "Set", [u(k), u(v)])], ANY, st)
    a.forward(rt, "GetBalance", [x], [(ac, "GetBalance", [x])], b32(R(ac, "GetBalance")), st)
    a.forward(rt, "GetCodeSize", [x], [(ac, "GetCode", [x])], T("req", "Length", R(ac, "GetCode"), ty=I8), st)
    a.forward(rt, "GetCodeHash", [x], [(ac, "GetCodeHash", [x])], R(ac, "GetCodeHash"), st)
    a.forward(rt, "GetCode", [x], [(ac, "GetCode", [x])], lambda r: (lambda q: (isinstance(q, SliceV) and q.o == ("h", "bytes") and r.st.tags.get("bytes", ((0, 0),))[0][1] == R(ac, "GetCode")) or None), st)
    a.forward(rt, "IsAddressInAccessList", [x], [(ac, "IsWarm", [x])], R(ac, "IsWarm"), st)
    a.forward(rt, "IsSlotInAccessList", [x, k], [(so, "IsWarm", [u(k)])], [ANY, R(so, "IsWarm")], st)
    ak = {n: P.consts.get(expand("~tosca." + n)) for n in ("ColdAccess", "WarmAccess")}
    cold, warm = [int(q["v"] == "true") if isinstance(q, dict) and q.get("v") in ("true", "false") else int(q["v"]) if isinstance(q, dict) else q for q in ak.values()]
    for w in (True, False):
        res = lambda r: (lambda q: int(q) == (warm if w else cold) if isinstance(q, (int, bool)) else None)
        a.forward(rt, "AccessAccount", [x], [(ac, "IsWarm", [x]), (ac, "MarkWarm", [x])], res, st, fixed={(ac, "IsWarm"): w}, note="reports a %s account and warms it" % ("warm" if w else "cold"), key="ct:AccessAccount")
        a.forward(rt, "AccessStorage", [x, k], [(so, "IsWarm", [u(k)]), (so, "MarkWarm", [u(k)])], res, st, fixed={(so, "IsWarm"): w}, note="reports a %s slot and warms it" % ("warm" if w else "cold"), key="ct:AccessStorage")
    kd = S("kind", I8); par = C.agg("~tosca.CallParameters", **{n: S("call." + n) for n in C.fields("~tosca.CallParameters")})
    a.forward(rt, "Call", [kd, par], [("CallJournal", "Call", [kd, par])], [R("CallJournal", "Call"), lambda q: q is None], st)
    # self-destruct
    fn = a.method(rt, "SelfDestruct"); hs = sf.get("HasSelfDestructed"); sj = sf.get("SelfDestructedJournal"); b = S("beneficiary")
    if fn and hs and sj:
        for had in (False, True):
            s = st.copy(); E.store(s, Ptr(("h", "state"), (hs[0],)), had, hs[1]); E.store(s, Ptr(("h", "state"), (sj[0],)), None, sj[1])
            what = "ct: SelfDestruct %s records account and beneficiary" % ("again" if had else "for the first time")
            try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), x, b], s)
            except (Undecided, AnchorMissing) as e: rep.undec(what, e); continue
            def chk(r):
                E2 = Engine(P); h2 = E2.load(r.st, Ptr(("h", "state"), (hs[0],)), hs[1]); j = E2.load(r.st, Ptr(("h", "state"), (sj[0],)), sj[1])
                if h2 is not True: return (False if h2 is False else None), "the state is not marked"
                z = same(r.vals[0], not had)
                if z is not True: return z, "the result is %r" % (r.vals[0],)
                if not isinstance(j, SliceV) or j.len != 1: return (False if j is None or isinstance(j, SliceV) and isinstance(j.len, int) else None), "journal %r" % (j,)
                en = E2.load(r.st, Ptr(j.o, j.p + (j.off,)), P.types[sj[1]]["e"]); fl = [f["n"] for f in P.types[P.types[sj[1]]["e"]]["f"]]
                return alltrue([same(en.e[fl.index("account")], x), same(en.e[fl.index("beneficiary")], b)]), "entry %r" % (en,)
            C.expect("ct:SelfDestruct", what, rs, chk, where)
    else: rep.undec("ct: SelfDestruct", "anchors")
    # logs
    for cnt in (0, 1, 2, 4):
        s2 = st.copy(); hk = P.typ(expand("~tosca.Hash"))
        for j in range(cnt): E.store(s2, Ptr(("h", "topics"), (j,)), S("topic%d" % j), hk)
        dl = S("len.data", I8); s2.facts._narrow(dl, 0, 1 << 40); data = SliceV(("h", "data"), (), 0, dl, dl)
        what = "ct: EmitLog hands on data and %d topics" % cnt; fn = a.method(rt, "EmitLog")
        if fn is None: rep.undec(what, "method not found"); continue
        try: rs = a.paths(fn, [Ptr(("h", "recv"), ()), C.agg("~tosca.Log", Address=x, Topics=SliceV(("h", "topics"), (), 0, cnt, cnt), Data=data)], s2)
        except (Undecided, AnchorMissing) as e: rep.undec(what, e); continue
        def chk(r):
            l = reqs(r.st, "AddLog")
            if len(l) != 1: return False, "%d logs" % len(l)
            d, tp = l[0][2][0], l[0][2][1]
            if d != data: return same(d, data), "data %r" % (d,)
            if cnt == 0: return (tp is None or isinstance(tp, SliceV) and tp.len == 0), "topics %r" % (tp,)
            if not isinstance(tp, SliceV) or tp.len != cnt: return (False if isinstance(tp, SliceV) and isinstance(tp.len, int) else None), "topics %r" % (tp,)
            for j in range(cnt):
                z = Engine(P).load(r.st, Ptr(tp.o, tp.p + (tp.off + j,)), P.typ(cc + "U256"))
                if z != u(S("topic%d" % j)): return (False if isinstance(z, T) and z.op == "ctu" else None), "topic %d is %r" % (j, z)
            return True
        C.expect("ct:EmitLog", what, rs, chk, where)
    # recent block hashes
    fn = a.method(rt, "GetBlockHash"); what = "ct: block hashes are known for the last 256 blocks"
    bc = sf.get("BlockContext")
    if fn and bc:
        s = st.copy(); n = S("number", I8); cur = S("current", U8); s.facts._narrow(cur, 0, 1 << 62)
        p = (bc[0],); t = bc[1]; q = {f["n"]: (j, f["t"]) for j, f in enumerate(P.types[t]["f"])}["BlockNumber"]
        bcv = [cur if f["n"] == "BlockNumber" else S("bc." + f["n"]) for f in P.types[t]["f"]]
        E.store(s, Ptr(("h", "state"), p), Agg("s", bcv, t), t)
        try:
            rs = a.paths(fn, [Ptr(("h", "recv"), ()), n], s)
            def chk(r):
                if r.kind != "ret": return False, "panics"
                l = reqs(r.st, "Get"); k2 = 0
                for m in finmod.models(r.st.facts, 40, edge=1):
                    try: nv, cv = m.ev(n), m.ev(cur)
                    except finmod.Unk: return None, "condition"
                    k2 += 1; inside = max(cv - 256, 0) <= nv < cv
                    if bool(l) != inside: return False, "block %d of chain head %d is %s" % (nv, cv, "looked up" if l else "unknown")
                    if l:
                        ix = m.ev(l[0][2][-1])
                        if ix != cv - 1 - nv: return False, "block %d of chain head %d is looked up at position %d" % (nv, cv, ix)
                if l: return same(r.vals[0], R("Hashes", "Get")) if k2 else None
                return allzero(r.vals[0]) if k2 else None
            C.expect("ct:GetBlockHash", what, rs, chk, where)
        except (Undecided, AnchorMissing) as e: rep.undec(what, e)
    else: rep.undec(what, "anchors")
    # parameters of executions
    fn = [f for f in P.fns if f == expand("~ct/utils.ToVmParameters")]
    if not fn: rep.undec("ct: parameters", "ToVmParameters"); return
    s = st.copy()
    def setstruct(name, **over):
        j, t = sf[name]; k = P.types[t]["k"]
        tt = P.types[t]["e"] if k == "ptr" else t
        v = Agg("s", [S("%s.%s" % (name, f["n"]), P.ity(f["t"]) if P.types[f["t"]]["k"] == "basic" else None) if P.types[f["t"]]["k"] != "slice" else SliceV(("h", f["n"]), (), 0, 2, 2) for f in P.types[tt]["f"]], tt)
        E.store(s, Ptr(("h", name), ()) if k == "ptr" else Ptr(("h", "state"), (j,)), v, tt)
    try:
        for n in ("BlockContext", "CallContext", "TransactionContext"): setstruct(n)
        rs = C.run(fn[0], [Ptr(("h", "state"), ())], PC(C, hosts), s)
    except (Undecided, AnchorMissing, KeyError) as e: rep.undec("ct: parameters", e); return
    B = lambda n: S("BlockContext." + n); I = lambda n: S("BlockContext." + n, U8); K = lambda n: S("CallContext." + n)
    want = dict(ChainID=b32(B("ChainID")), BlockNumber=I("BlockNumber"), Timestamp=I("TimeStamp"), Coinbase=B("CoinBase"), GasLimit=I("GasLimit"), PrevRandao=b32(B("PrevRandao")), BaseFee=b32(B("BaseFee")), BlobBaseFee=b32(B("BlobBaseFee")), GasPrice=b32(B("GasPrice")),
                Revision=S("Revision", I8), Origin=S("TransactionContext.OriginAddress"), Static=S("ReadOnly"), Depth=0, Gas=S("Gas", I8), Recipient=K("AccountAddress"), Sender=K("CallerAddress"), Value=b32(K("Value")))
    for n, w in want.items():
        C.expect("ct:run:" + n, "ct: the execution's %s is the state's" % n, rs, lambda r: (r.kind == "ret" and same(fld(C, P, r.vals[0], n), w), "it is %r" % (fld(C, P, r.vals[0], n) if r.kind == "ret" else r.kind,)), where)
    def inp(r):
        q = fld(C, P, r.vals[0], "Input")
        return (isinstance(q, SliceV) and q.o == ("h", "bytes") and any(m == "ToBytes" and z == S("CallData") for m, z in r.st.tags.get("bytes", ()))) or None
    C.expect("ct:run:Input", "ct: the execution's input is the state's call data", rs, inp, where)
    def code(r):
        q = fld(C, P, r.vals[0], "Code")
        return ssl("Code", "Copy")(q), "it is %r" % (q,)
    C.expect("ct:run:Code", "ct: the execution's code is the state's", rs, code, where)
    def ch(r):
        q = fld(C, P, r.vals[0], "CodeHash")
        z = Engine(P).load(r.st, q, P.typ(expand("~tosca.Hash"))) if isinstance(q, Ptr) else None
        return (same(z, R("Code", "Hash")) if isinstance(q, Ptr) else None), "it is %r" % (z,)
    C.expect("ct:run:CodeHash", "ct: the execution's code hash is the state's", rs, ch, where)
    def ctx(r):
        q = fld(C, P, r.vals[0], "Context"); q = q.v if isinstance(q, Iface) else q
        if isinstance(q, Ptr): q = Engine(P).load(r.st, q, P.typ(rt))
        return (alltrue(same(z, Ptr(("h", "state"), ())) for z in q.e) if isinstance(q, Agg) else None), "it is %r" % (q,)
    C.expect("ct:run:Context", "ct: the execution's host is the state", rs, ctx, where)
def order(a, rt, name, args, st, first, then, txt):
    fn = a.method(rt, name); what = "%s: %s considers %s" % (a.label, name, txt)
    if fn is None: a.rep.undec(what, "method not found"); return
    try: rs = a.paths(fn, [Ptr(("h", "recv"), ())] + args, st.copy())
    except (Undecided, AnchorMissing) as e: a.rep.undec(what, e); return
    def chk(r):
        l = [q[1] for q in reqs(r.st)]
        if first not in l or then not in l: return None, "requests %s" % l
        return l.index(first) < l.index(then), "requests %s" % l
    a.C.expect("%s:%s:order" % (a.label, name), what, rs, chk, a.where)
def closure(C, f, args, pol, st):
    """paths of a function value"""
    E = Engine(C.P, pol, max_paths=200, max_seconds=20); C.E = E
    fn = C.P.fns[f.n]
    return E.run(f.n, args, st, binds=f.b)
NEW = _Any()
def main(rep):
    for f in (evmc, geth, gethadapter, ctadapter):
        try: f(rep)
        except (AnchorMissing, KeyError) as e: rep.undec(f.__name__, "%s: %s" % (type(e).__name__, e))
    return ("Path analysis (Go SSA abstract interpretation) of every forwarding method with opaque arguments and opaque answers; requests made and values returned are compared with the specified ones.",
            "each adapter method makes exactly the specified requests with the specified arguments and returns the specified answer; executions are handed every parameter unchanged")
