"""Reference semantics of the EVM instructions, stated over the terms of the abstract interpretation of the long-form
interpreter's step function, and the comparison of every abstract path with it. Shared by P25 (results), P29 (gas), P30 (host requests)."""
import common, goprog, evmspec, lfvm, termnorm, finmod, p11
from gosem import *
from lfvm import pos, PK
import gosem
U8, I8 = (8, True), (8, False)
REVS = ["Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun"]
MAXMEM = 0x1FFFFFFFE0
M64 = (1 << 64) - 1
def u256(n): return T("u256", n)
def u64(x): return x.args[0] & M64 if x.op == "u256" else x.args[0] if x.op == "u.from64" else T("u.u64", x, ty=U8)
def is64(x): return x.args[0] < 1 << 64 if x.op == "u256" else True if x.op == "u.from64" else T("u.is64", x)
def conv(x, ty): return x if isinstance(x, int) else T("conv", x, ty=ty)
def band(*a):
    a = [x for x in a if x is not True]
    return False if any(x is False for x in a) else True if not a else a[0] if len(a) == 1 else T("and", *a)
def bor(*a):
    a = [x for x in a if x is not False]
    return True if any(x is True for x in a) else False if not a else a[0] if len(a) == 1 else T("or", *a)

def ideal(t, f, depth=0):
    """(constant, {term: coefficient}) over the integers, looking through conversions that cannot change the value"""
    if isinstance(t, bool): return int(t), {}
    if isinstance(t, int): return t, {}
    if not isinstance(t, T) or depth > 30: return 0, {t: 1}
    if t.op == "conv" and t.ty:
        x = t.args[0]; lo, hi = f.interval(x); tl, th = type_range(t)
        if isinstance(x, (T, int)) and lo is not None and hi is not None and tl <= lo and hi <= th: return ideal(x, f, depth + 1)
        if isinstance(x, T) and x.op == "aff" and x.ty and f._nowrap(x):
            c, d = ideal(x, f, depth + 1)
            return c, d
        return 0, {t: 1}
    if t.op == "aff":
        if not f._nowrap(t) and t.ty and not (t.ty == I8): return 0, {t: 1}
        # signed sums of gas amounts: compared as written
        c, d = t.args[0], {}
        for u, k in t.args[1]:
            c2, d2 = ideal(u, f, depth + 1)
            c += k * c2
            for x, k2 in d2.items(): d[x] = d.get(x, 0) + k * k2
        return c, {x: k for x, k in d.items() if k}
    return 0, {t: 1}
def idiff(x, y, f):
    """constant difference of two integer terms over the integers, or None"""
    a, b = ideal(x, f), ideal(y, f)
    d = dict(a[1])
    for t, k in b[1].items():
        d[t] = d.get(t, 0) - k
    return a[0] - b[0] if not any(d.values()) else None

class Verdict(Exception): pass
class X:
    """one path together with the vocabulary the reference semantics is written in"""
    def __init__(self, L, C, name, rev, static, r):
        self.L, self.C, self.name, self.rev, self.static, self.r, self.st = L, C, name, rev, static, r, r.st
        self.f = r.st.facts; self.E = Engine(L.P)
        self.charge = []; self.fail = []; self.regions = []; self.push = None; self.status = 0; self.pc = 1
        self.writes = []; self.effects = []; self.acc = []; self.ret = "same"; self.lower = 0; self.refund = []; self.swap = None; self.setgas = None
        self.events = [e for e in self.st.events if e.k == "call" and "RunContext." in e.n]
        self.used = set(); self.missing = []
    # -- operands and conditions
    def s(self, k):
        return T("init", self.L.S, (self.L.sf["data"][0], aff_add(self.L.SP, -1 - k, I8)))
    def known(self, c):
        if isinstance(c, bool): return c
        if c.op == "and":
            ks = [self.known(x) for x in c.args]
            return False if False in ks else True if all(k is True for k in ks) else None
        if c.op == "or":
            ks = [self.known(x) for x in c.args]
            return True if True in ks else False if all(k is False for k in ks) else None
        if c.op == "not":
            k = self.known(c.args[0]); return None if k is None else not k
        k = self.f.known(c)
        if k is None and c.op == "<":
            x, y = c.args
            cx, dx = ideal(aff_add(x, y, (16, False), -1), self.f) if 0 else ideal(x, self.f)
            cy, dy = ideal(y, self.f)
            d = dict(dx)
            for t, q in dy.items(): d[t] = d.get(t, 0) - q
            d = {t: q for t, q in d.items() if q}; cc = cx - cy
            if not d: return cc < 0
            for at, v in self.f.atoms.items():
                if at.op != "<" or not isinstance(v, bool): continue
                (c1, d1), (c2, d2) = self.ideal2(at)
                e = dict(d1)
                for t, q in d2.items(): e[t] = e.get(t, 0) - q
                e = {t: q for t, q in e.items() if q}
                if e == d:
                    # x-y = (a-b) + k
                    k2 = cc - (c1 - c2)
                    if v is True and k2 <= 0: return True
                    if v is False and k2 >= 0: return False
                elif {t: -q for t, q in e.items()} == d:
                    # x-y = -(a-b) + k
                    k2 = cc + (c1 - c2)
                    # a-b<=-1 -> -(a-b)>=1 ; a-b>=0 -> -(a-b)<=0
                    if v is True and k2 >= -1: return False
                    if v is False and k2 < 0: return True
        return k
    def ideal2(self, at):
        c = self.__dict__.setdefault("_i2", {})
        if at not in c: c[at] = (ideal(at.args[0], self.f), ideal(at.args[1], self.f))
        return c[at]
    def ite(self, c, a, b):
        k = self.known(c)
        if k is True: return a() if callable(a) else a
        if k is False: return b() if callable(b) else b
        a = a() if callable(a) else a; b = b() if callable(b) else b
        if a is b or isinstance(a, int) and isinstance(b, int) and a == b: return a
        ty = a.ty if isinstance(a, T) else b.ty if isinstance(b, T) else I8
        return T("ite", c, a, b, ty=ty)
    def param(self, n):
        q, t = self.L.parampath(n)
        return self.E.load(self.st0, Ptr(self.L.C, q), t)
    @property
    def st0(self): return self.C["st0"]
    def cst(self, n):
        c = self.L.P.consts.get(expand("~tosca." + n))
        if c is None: raise Undecided("constant tosca." + n)
        v = c["v"]
        return {"true": True, "false": False}.get(v, None) if v in ("true", "false") else int(v)
    def at(self, rev): return self.rev >= REVS.index(rev)
    # -- host queries
    def find(self, n, args):
        for k, e in enumerate(self.events):
            if e.n.split(".")[-1] == n and k not in self.used and len(e.a) == len(args) + 1:
                if all(self.same(x, y) is True for x, y in zip(e.a[1:], args)): return k, e
        for k, e in enumerate(self.events):
            if e.n.split(".")[-1] == n and k not in self.used and len(e.a) == len(args) + 1:
                if all(self.same(x, y) is not False for x, y in zip(e.a[1:], args)): return k, e
        return None, None
    def q(self, n, *args):
        """result of a query of the host that reads state"""
        key = (n,) + tuple(args)
        k, e = self.find(n, args)
        if e is None:
            self.missing.append(n); return T("sym", "$no-%s-request" % n)
        return e.r
    def touch(self, n, *args):
        """a query that changes the access lists: must happen exactly as specified"""
        k, e = self.find(n, args)
        self.acc.append((n, args, k))
        if e is None: return T("sym", "$no-%s-request" % n)
        self.used.add(k); return e.r
    def effect(self, n, *args):
        es = [k for k, e in enumerate(self.events) if e.n.split(".")[-1] == n]
        self.effects.append((n, args))
        if not es: return None
        self.used.add(es[0])
        return self.events[es[0]].r
    def account(self, addr):
        r = self.touch("AccessAccount", addr)
        cold = self.cst("ColdAccess")
        return mk_eq(r, cold) if not isinstance(r, bool) else r == cold
    def empty(self, addr):
        ps = []
        for n, z in (("GetNonce", None), ("GetBalance", "z"), ("GetCodeSize", None)):
            v = self.q(n, addr)
            p = mk_eq(v, 0) if z is None else self.arrzero(v)
            k = self.known(p)
            if k is False: return False
            if k is None: ps.append(p)
        return band(*ps)
    def arrzero(self, v):
        if isinstance(v, Agg): return all(x == 0 for x in v.e)
        for a in self.f.atoms:
            if a.op == "==" and v in a.args and any(isinstance(z, T) and z.op == "zero" or isinstance(z, T) and z.op == "aggv" and all(isinstance(q, int) and q == 0 for q in z.args[0].e) for z in a.args): return a
        return mk_eq(v, T("u256", 0))
    # -- memory
    def size_in_words(self, n):
        return T("/", aff_add(n, 31, U8), 32, ty=U8) if isinstance(n, T) else (n + 31) // 32
    def mem(self, off, size):
        """requires the region [off, off+size) (256-bit operands; size may be a number)"""
        if isinstance(size, int): size = u256(size)
        nz = self.known(mk_not(mk_eq(size, u256(0))))
        if nz is False: return
        need = aff_add(u64(off), u64(size), U8)
        c = mk_not(mk_eq(size, u256(0)))
        big = bor(mk_not(is64(off)), mk_not(is64(size)), mk_lt(MAXMEM, u64(off)), mk_lt(MAXMEM, u64(size)), mk_lt(MAXMEM, aff_add(u64(off), u64(size), U8)))
        self.fail.append(band(c, big))
        self.regions.append((c, need, off, size))
    def memfee(self):
        """fee for growing the memory to the largest required end"""
        L = self.L; end = None
        for c, need, _, _ in self.regions:
            n = self.ite(c, need, 0)
            if end is None: end = n
            else: end = self.ite(mk_lt(end, n), n, end)
        if end is None or isinstance(end, int): self.grown = L.ML; return 0
        w = self.size_in_words(end)
        cost = conv(aff_add(T("/", T("mul", w, w, ty=U8), 512, ty=U8), aff_mulc(w, 3, U8), U8), I8)
        grow = mk_lt(conv(L.ML, U8), end)
        self.grown = self.ite(grow, conv(aff_mulc(w, 32, U8), I8), L.ML)
        return self.ite(grow, aff_add(cost, L.MC, I8, -1), 0)
    def region(self, off, size): return ("region", off, size)
    # -- gas
    def pay(self, g):
        if isinstance(g, int) and g == 0: return
        self.charge.append(g)
    def total(self):
        g = 0
        for x in self.charge: g = aff_add(g, x, I8)
        return g
    # -- comparison
    cur = None
    def pathst(self):
        finmod.Model.st = self.cur or self.st
    def models(self):
        """valuations of the path, shared by all comparisons on it"""
        if self._ms is None: self._ms = list(finmod.models(self.f, *self.C.get("models", (8, 600)), edge=self.C.get("edge", 24)))
        return self._ms
    _ms = None
    def same(self, x, y):
        """True / False / None (not distinguished or not decidable)"""
        if x is y: return True
        if isinstance(x, bool) and isinstance(y, bool): return x == y
        if isinstance(y, tuple) and y and y[0] == "region": return self.sameregion(x, y)
        if isinstance(x, Agg) and isinstance(y, Agg):
            if len(x.e) != len(y.e): return False
            rs = [self.same(a, b) for a, b in zip(x.e, y.e)]
            return False if False in rs else True if all(r is True for r in rs) else None
        if isinstance(x, T) and isinstance(y, T) or isinstance(x, (T, int)) and isinstance(y, (T, int)):
            a, b = termnorm.u256(x) if isinstance(x, T) else x, termnorm.u256(y) if isinstance(y, T) else y
            if a is b: return True
            if not (isinstance(x, T) and x.op.startswith("u") and not x.ty) and idiff(x, y, self.f) == 0: return True
            if isinstance(a, T) and isinstance(b, T) and self.memnorm(a) is self.memnorm(b): return True
        if isinstance(x, int) and isinstance(y, int): return x == y
        if type(x) is type(y) and not isinstance(x, T) and x == y: return True
        self.pathst()
        d = finmod.differ(self.f, x if not isinstance(x, (Ptr,)) else T("sym", repr(x)), y, ms=self.models())
        if d is True:
            return False
        if d is False: self.C["rand"] = self.C.get("rand", 0) + 1
        else: self.C["und"] = self.C.get("und", 0) + 1; self.C.setdefault("undex", []).append((self.name, repr(x)[:160], repr(y)[:160]))
        return None
    def memnorm(self, t):
        """reads of the (grown) initial memory as words of the zero extended memory"""
        if t.op == "u.frombytesv":
            b = t.args[0]
            if b.op == "bytesv" and b.args[0].op == "init" and b.args[3] == 32:
                o = b.args[0].args[0]
                if o == ("h", "memdata") or self.isgrown(o): return T("memword", ("h", "memdata"), self.L.ML, b.args[2], 32)
        return t
    def isgrown(self, o):
        if not (isinstance(o, tuple) and o[0] == "sl" and isinstance(o[1], T) and o[1].op == "appended"): return False
        a, b = o[1].args
        if not (b.op == "sl0" and b.args[0][0] == "a"): return False
        if a.op != "sl0" or not (isinstance(a.args[2], int) and a.args[2] == 0): return False
        return a.args[0] == ("h", "memdata") or self.isgrown(a.args[0])
    def sameregion(self, x, y):
        """x: slice of the program; y: region of the memory at the time of the request"""
        _, off, size = y
        z = self.known(mk_eq(size, u256(0)))
        x = x if isinstance(x, SliceV) else SliceV(("nil",), (), 0, 0, 0) if x is None else x
        if not isinstance(x, SliceV): return False if isinstance(x, Agg) else None
        if z is True: return True if isinstance(x.len, int) and x.len == 0 else self.same(x.len, 0)
        if (x.o == ("h", "memdata") or self.isgrown(x.o)) and not (self.cur or self.st).mem.get(x.o) and self.same(x.off, u64(off)) is True and self.same(x.len, u64(size)) is True: return True
        self.pathst(); seen = 0
        for m in self.models():
            try:
                n = m.ev(u64(size))
                if m.ev(x.len) != n: return False
                base = m.ev(u64(off))
                for k in sorted({0, 1, n - 1, n // 2, n - 2} & set(range(n))):
                    a = m.slbyte(x, k); b = self.mem0byte(m, base + k)
                    if a != b: return False
                seen += 1
            except finmod.Unk: self.C["und"] = self.C.get("und", 0) + 1; return None
        self.C["rand" if seen else "und"] = self.C.get("rand" if seen else "und", 0) + 1
        return None
    def mem0byte(self, m, i):
        return m.base(("h", "memdata"), (), i) if i < m.ev(self.L.ML) else 0

ENV256 = {"CALLVALUE": "Value", "GASPRICE": "GasPrice", "PREVRANDAO": "PrevRandao", "CHAINID": "ChainID", "BASEFEE": "BaseFee", "BLOBBASEFEE": "BlobBaseFee"}
ENV160 = {"ADDRESS": "Recipient", "ORIGIN": "Origin", "CALLER": "Sender", "COINBASE": "Coinbase"}
ENV64 = {"TIMESTAMP": "Timestamp", "NUMBER": "BlockNumber", "GASLIMIT": "GasLimit"}
BIN = {"ADD": "Add", "MUL": "Mul", "SUB": "Sub", "DIV": "Div", "SDIV": "SDiv", "MOD": "Mod", "SMOD": "SMod", "AND": "And", "OR": "Or", "XOR": "Xor", "EXP": "Exp"}
def arr(v, n):
    if isinstance(v, T) and v.op in ("u.b32",) and n == 32: return v.args[0]
    return T("u.fromarr", v, n)
def num(v): return u256(v & M64) if isinstance(v, int) else T("u.from64", conv(v, U8) if v.ty and not v.ty[1] else v)
def b32(v): return T("u.b32", v)
def b20(v): return T("u.b20", v)

def spec(x):
    """fills the expectation of one path; x.push: pushed values (top last)"""
    n, s = x.name, x.s
    op, pops, pushes, fork = evmspec.OPS[n]
    berlin = x.at("Berlin")
    if x.rev < REVS.index(fork): x.fail.append(True); return
    x.fail += [mk_lt(x.L.SP, pops), mk_lt(1024, aff_add(x.L.SP, pushes - pops, I8))]
    if n == "INVALID": x.fail.append(True); return
    if x.static and n in evmspec.WRITES_STATIC: x.fail.append(True); return
    x.pay(evmspec.static_gas(n, berlin))
    x.pops, x.push = pops, []
    P = x.push.append
    one, zero = u256(1), u256(0)
    if n == "STOP": x.status = "stop"
    elif n in BIN:
        P(T("u." + BIN[n], s(0), s(1)))
        if n == "EXP": x.pay(aff_mulc(T("u.ByteLen", s(1), ty=I8), 50, I8))
    elif n in ("ADDMOD", "MULMOD"): P(T("u.AddMod" if n == "ADDMOD" else "u.MulMod", s(0), s(1), s(2)))
    elif n == "SIGNEXTEND": P(T("u.ExtendSign", s(1), s(0)))
    elif n in ("LT", "GT", "SLT", "SGT"):
        a, b = (s(0), s(1)) if n in ("LT", "SLT") else (s(1), s(0))
        P(x.ite(T("slt" if n[0] == "S" else "ult", a, b), one, zero))
    elif n == "EQ": P(x.ite(mk_eq(s(0), s(1)), one, zero))
    elif n == "ISZERO": P(x.ite(mk_eq(s(0), zero), one, zero))
    elif n == "NOT": P(T("u.Not", s(0)))
    elif n == "BYTE": P(T("u.Byte", s(1), s(0)))
    elif n in ("SHL", "SHR"): P(x.ite(T("ult", s(0), u256(256)), lambda: T("u.Lsh" if n == "SHL" else "u.Rsh", s(1), u64(s(0))), zero))
    elif n == "SAR":
        P(x.ite(T("ult", u256(256), s(0)), lambda: x.ite(T("slt", s(1), zero), u256(finmod.M), zero), lambda: T("u.SRsh", s(1), u64(s(0)))))
    elif n == "SHA3":
        x.mem(s(0), s(1)); x.pay(x.memfee()); x.pay(aff_mulc(conv(x.size_in_words(u64(s(1))), I8), 6, I8))
        P(("keccak", s(0), s(1)))
    elif n in ENV256: P(arr(x.param(ENV256[n]), 32))
    elif n in ENV160: P(arr(x.param(ENV160[n]), 20))
    elif n in ENV64: P(num(x.param(ENV64[n])))
    elif n == "BALANCE":
        a = b20(s(0)); access(x, a); P(arr(x.q("GetBalance", a), 32))
    elif n == "SELFBALANCE": P(arr(x.q("GetBalance", x.param("Recipient")), 32))
    elif n == "EXTCODESIZE":
        a = b20(s(0)); access(x, a); P(num(x.q("GetCodeSize", a)))
    elif n == "EXTCODEHASH":
        a = b20(s(0)); access(x, a)
        P(x.ite(x.empty(a), zero, lambda: arr(x.q("GetCodeHash", a), 32)))
    elif n == "BLOCKHASH":
        cur = conv(x.param("BlockNumber"), U8); k = u64(s(0))
        lower = x.ite(mk_lt(cur, 256), 0, lambda: aff_add(cur, -256, U8))
        ok = band(is64(s(0)), mk_lt(k, cur), mk_not(mk_lt(k, lower)))
        P(x.ite(ok, lambda: arr(x.q("GetBlockHash", conv(k, I8)), 32), zero))
    elif n == "BLOBHASH":
        q, _ = x.L.parampath("BlobHashes"); sl = x.E.load(x.st, Ptr(x.L.C, q), _)
        if not isinstance(sl, SliceV): sl = x.E.as_slice(x.st, sl)
        ht = x.L.P.typ(expand("~tosca.Hash"))
        ok = band(is64(s(0)), mk_lt(u64(s(0)), conv(sl.len, U8)))
        P(x.ite(ok, lambda: arr(x.E.load(x.st, Ptr(sl.o, sl.p + (aff_add(sl.off, u64(s(0)), I8) if sl.off else u64(s(0)),)), ht), 32), zero))
    elif n == "CALLDATASIZE": P(num(T("len", T("Input"), ty=I8)))
    elif n == "CODESIZE": P(num(T("len", T("Code"), ty=I8)))
    elif n == "RETURNDATASIZE": P(num(T("len", T("retdata"), ty=I8)))
    elif n == "MSIZE": P(num(x.L.ML))
    elif n == "GAS": P(("gasleft",))
    elif n == "PC": P(("arg",))
    elif n == "POP": pass
    elif n == "PUSH0": P(zero)
    elif n.startswith("PUSH"):
        k = int(n[4:]); P(("imm", k)); x.pc = (k + 1) // 2
    elif n.startswith("DUP"): P(s(int(n[3:]) - 1)); x.pops = 0
    elif n.startswith("SWAP"): x.swap = int(n[4:]); x.pops = 0
    elif n == "JUMPDEST": pass
    elif n in ("JUMP", "JUMPI"):
        d = s(0); t = True if n == "JUMP" else mk_not(mk_eq(s(1), zero))
        dest = conv(u64(d), (4, False)); opk = x.L.inf["opcode"][0]
        at = T("init", x.L.D, (dest, opk), ty=x.L.P.ity(x.L.inf["opcode"][1]))
        bad = bor(mk_not(is64(d)), mk_not(mk_lt(u64(d), conv(x.L.CL, U8))), mk_not(mk_eq(at, 0x5b)))
        x.fail.append(band(t, bad))
        x.pc = ("jump", t, dest)
    elif n == "CALLDATALOAD": P(T("memword", ("h", "Input"), T("len", T("Input"), ty=I8), T("whole", s(0)), 32))
    elif n in ("CALLDATACOPY", "CODECOPY", "EXTCODECOPY", "RETURNDATACOPY", "MCOPY"):
        k = 0
        if n == "EXTCODECOPY":
            a = b20(s(0)); access(x, a); k = 1
        dst, src, ln = s(k), s(k + 1), s(k + 2)
        if n == "MCOPY": x.mem(src, ln)
        x.mem(dst, ln); x.pay(x.memfee()); x.pay(aff_mulc(conv(x.size_in_words(u64(ln)), I8), 3, I8))
        if n == "RETURNDATACOPY":
            rl = conv(T("len", T("retdata"), ty=I8), U8)
            x.fail.append(bor(mk_not(is64(src)), mk_not(is64(ln)), mk_lt(aff_add(u64(src), u64(ln), U8), u64(src)), mk_lt(rl, aff_add(u64(src), u64(ln), U8))))
        what = {"CALLDATACOPY": ("h", "Input"), "CODECOPY": ("h", "Code"), "RETURNDATACOPY": ("h", "retdata"), "MCOPY": ("h", "memdata"), "EXTCODECOPY": None}[n]
        if n == "EXTCODECOPY": what = x.q("GetCode", a)
        x.writes.append((dst, ln, ("bytes", what, src)))
    elif n == "MLOAD":
        x.mem(s(0), 32); x.pay(x.memfee())
        P(T("memword", ("h", "memdata"), x.L.ML, u64(s(0)), 32))
    elif n == "MSTORE": x.mem(s(0), 32); x.pay(x.memfee()); x.writes.append((s(0), u256(32), ("value", s(1), 32)))
    elif n == "MSTORE8": x.mem(s(0), 1); x.pay(x.memfee()); x.writes.append((s(0), u256(1), ("value", s(1), 1)))
    elif n == "SLOAD":
        r, k = x.param("Recipient"), b32(s(0))
        if berlin:
            a = x.touch("AccessStorage", r, k)
            x.pay(x.ite(mk_eq(a, x.cst("ColdAccess")), 2100, 100))
        P(arr(x.q("GetStorage", r, k), 32))
    elif n == "SSTORE":
        r, k, v = x.param("Recipient"), b32(s(0)), b32(s(1))
        x.fail.append(mk_not(mk_lt(2300, x.L.GAS)))
        if berlin:
            a = x.touch("AccessStorage", r, k)
            x.pay(x.ite(mk_eq(a, x.cst("ColdAccess")), 2100, 0))
        res = x.effect("SetStorage", r, k, v)
        cost, ref = sstore(x, res)
        x.pay(cost); x.refund.append(ref)
    elif n == "TLOAD": P(arr(x.q("GetTransientStorage", x.param("Recipient"), b32(s(0))), 32))
    elif n == "TSTORE": x.effect("SetTransientStorage", x.param("Recipient"), b32(s(0)), b32(s(1)))
    elif n.startswith("LOG"):
        k = int(n[3:]); x.mem(s(0), s(1)); x.pay(x.memfee()); x.pay(conv(aff_mulc(u64(s(1)), 8, U8), I8))
        x.effect("EmitLog", ("log", x.param("Recipient"), [b32(s(2 + j)) for j in range(k)], ("region", s(0), s(1))))
    elif n in ("RETURN", "REVERT"):
        x.mem(s(0), s(1)); x.pay(x.memfee()); x.status = n.lower(); x.ret = ("region", s(0), s(1))
    elif n == "SELFDESTRUCT":
        b, r = b20(s(0)), x.param("Recipient")
        if berlin:
            a = x.touch("AccessAccount", b)
            x.pay(x.ite(mk_eq(a, x.cst("ColdAccess")), 2600, 0))
        e = x.empty(b); bal = x.q("GetBalance", r) if x.known(e) is not False else None
        nz = mk_not(x.arrzero(bal)) if bal is not None else False
        x.pay(x.ite(band(e, nz), 25000, 0))
        d = x.effect("SelfDestruct", r, b)
        x.status = "selfdestruct"
        if not x.at("London"): x.refund.append(x.ite(d if isinstance(d, (T, bool)) else False, 24000, 0))
    elif n in ("CREATE", "CREATE2"): create(x)
    elif n in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"): call(x)
    else: raise Undecided("no reference semantics for " + n)

def access(x, a):
    if x.at("Berlin"): x.pay(x.ite(x.account(a), 2600, 100))
def sstore(x, res):
    """gas and refund by storage status (EIP-2200 with EIP-2929/3529 parameters)"""
    berlin, london = x.at("Berlin"), x.at("London")
    st = {k: x.cst("Storage" + k) for k in "Assigned Added Deleted Modified DeletedAdded ModifiedDeleted DeletedRestored AddedDeleted ModifiedRestored".split()}
    reset, warm, cl = (2900, 100, 4800 if london else 15000) if berlin else (5000, 800, 15000)
    cost = {"Added": 20000, "Modified": reset, "Deleted": reset}
    # refunds: clearing a slot, undoing a clearing, restoring the original value
    restore = 5000 - 2100 - 100 if berlin else 4200
    ref = {"Deleted": cl, "ModifiedDeleted": cl, "DeletedAdded": -cl, "DeletedRestored": restore - cl, "AddedDeleted": 20000 - warm, "ModifiedRestored": restore}
    if res is None: return 0, 0
    def pick(tab, default):
        out = default
        for k, v in tab.items(): out = (lambda k, v, o: x.ite(mk_eq(res, st[k]), v, o))(k, v, out)
        return out
    return pick(cost, warm), pick(ref, 0)

def create(x):
    n, s = x.name, x.s
    x.mem(s(1), s(2)); x.pay(x.memfee())
    w = conv(x.size_in_words(u64(s(2))), I8)
    if x.at("Shanghai"):
        x.fail.append(bor(mk_not(is64(s(2))), mk_lt(49152, u64(s(2))))); x.pay(aff_mulc(w, 2, I8))
    if n == "CREATE2": x.pay(aff_mulc(w, 6, I8))
    left = aff_add(x.L.GAS, x.total(), I8, -1)
    x.poor = insufficient(x, s(0))
    k = x.known(x.poor)
    if k is None: k = not any(e.n.endswith(".Call") for e in x.events)
    if k is True:
        x.push.append(u256(0)); x.ret = None; x.setgas = left; return
    nested = aff_add(left, T("/", left, 64, ty=I8), I8, -1)
    flds = {"Sender": x.param("Recipient"), "Value": b32(s(0)), "Input": ("region", s(1), s(2)), "Gas": nested}
    if n == "CREATE2": flds["Salt"] = b32(s(3))
    res = x.effect("Call", x.cst("Create2" if n == "CREATE2" else "Create"), ("params", flds))
    finish(x, res, aff_add(left, nested, I8, -1), lambda r: arr(fldof(x, r, "CreatedAddress"), 20), True)
def insufficient(x, value):
    """the transferred value exceeds the balance of the executing account"""
    nz = mk_not(mk_eq(value, u256(0)))
    if x.known(nz) is False: return False
    bal = x.q("GetBalance", x.param("Recipient"))
    return band(nz, T("ult", arr(bal, 32), value))
def call(x):
    n, s = x.name, x.s
    hasval = n in ("CALL", "CALLCODE"); o = 1 if hasval else 0
    value = s(2) if hasval else u256(0)
    ino, ins, outo, outs = s(2 + o), s(3 + o), s(4 + o), s(5 + o)
    nz = mk_not(mk_eq(value, u256(0))) if hasval else False
    if x.static and n == "CALL": x.fail.append(nz)
    to = b20(s(1))
    x.mem(ino, ins); x.mem(outo, outs); x.pay(x.memfee())
    access(x, to)
    x.pay(x.ite(nz, 9000, 0))
    if n == "CALL" and x.known(nz) is not False: x.pay(x.ite(band(nz, x.empty(to)), 25000, 0))
    left = aff_add(x.L.GAS, x.total(), I8, -1)
    avail = aff_add(left, T("/", left, 64, ty=I8), I8, -1)
    want = conv(u64(s(0)), I8)
    fits = band(is64(s(0)), mk_lt(u64(s(0)), 1 << 63), mk_not(mk_lt(avail, want)))
    nested = x.ite(fits, want, avail)
    given = aff_add(nested, x.ite(nz, 2300, 0), I8)
    rest = aff_add(left, nested, I8, -1)
    poor = insufficient(x, value) if hasval else False
    k = x.known(poor)
    if k is None: k = not any(e.n.endswith(".Call") for e in x.events)
    x.poor = poor
    if k is True:
        x.push.append(u256(0)); x.ret = None; x.setgas = aff_add(rest, given, I8); return
    me = x.param("Recipient")
    flds = {"Input": ("region", ino, ins), "Gas": given}
    kind = {"CALL": "Call", "CALLCODE": "CallCode", "DELEGATECALL": "DelegateCall", "STATICCALL": "StaticCall"}[n]
    if n == "CALL" and x.static: kind = "StaticCall"
    flds["CodeAddress"] = to
    flds["Sender"] = x.param("Sender") if n == "DELEGATECALL" else me
    flds["Recipient"] = to if n in ("CALL", "STATICCALL") else me
    if n == "DELEGATECALL": flds["Value"] = x.param("Value")
    elif hasval: flds["Value"] = b32(value)
    res = x.effect("Call", x.cst(kind), ("params", flds))
    finish(x, res, rest, lambda r: u256(1), False)
    if res is not None and x.callerr is not True: x.writes.append((outo, outs, ("result", fldof(x, res.e[0], "Output"))))
def fldof(x, r, n):
    t = x.L.P.typ(expand("~tosca.CallResult"))
    for k, f in enumerate(x.L.P.types[t]["f"]):
        if f["n"] == n:
            if isinstance(r, Agg): return r.e[k]
            if isinstance(r, T) and r.op == "zero": return x.E.zero(f["t"])
            return T("fld", r, k, ty=x.E.tyof(f["t"]))
    raise Undecided("CallResult." + n)
def finish(x, res, rest, ok, creating):
    if res is None: x.push.append(u256(0)); return
    r, err = res.e
    good = mk_eq(None, err) if err is not None else True
    k = x.known(good); x.callerr = None if k is None else not k
    succ = fldof(x, r, "Success")
    x.push.append(x.ite(band(good, succ), lambda: ok(r), u256(0)))
    if x.callerr is True: x.setgas = "free"; x.ret = "free"; x.refund = ["free"]; return
    x.setgas = aff_add(rest, fldof(x, r, "GasLeft"), I8)
    x.refund.append(fldof(x, r, "GasRefund"))
    out = fldof(x, r, "Output")
    x.ret = x.ite(succ, ("none",), ("out", out)) if creating else ("out", out)

# --- enumeration and comparison -----------------------------------------------
QUERIES = {"GetBalance", "GetNonce", "GetCode", "GetCodeHash", "GetCodeSize", "GetStorage", "GetTransientStorage", "GetBlockHash", "GetCommittedStorage", "AccountExists",
           "IsAddressInAccessList", "IsSlotInAccessList", "HasSelfDestructed", "GetLogs"}
TOUCH = {"AccessAccount", "AccessStorage"}
WRITES = {"SetStorage", "SetTransientStorage", "EmitLog", "SelfDestruct", "Call", "SetBalance", "SetNonce", "SetCode", "CreateAccount", "RestoreSnapshot"}
class Pol(Policy):
    """hashing is opaque; the memory at every host request is remembered"""
    def __init__(self, L): self.L = L; self.hash = hashers(L)
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if name in self.hash:
            s = E.as_slice(st, args[-1]); t = T("keccak", E.slterm(st, s))
            st.tags["hashed"] = st.tags.get("hashed", ()) + ((t, s, dict(st.mem)),)
            put(st, t); return "cont"
        return None
    def on_slice(self, E, st, fr, i, x, lo, hi):
        xt = E.P.types[i["x"]["t"]]
        if xt["k"] == "ptr": mx = E.P.types[xt["e"]]["len"]
        elif isinstance(x, SliceV): mx = x.cap if isinstance(x.cap, int) else (x.len, x.cap)
        elif x is None: mx = 0
        else: return
        if hi is None: hi = x.len if isinstance(x, SliceV) else mx
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(mx, int) and 0 <= lo <= hi <= mx: return
        if isinstance(lo, int) and lo == 0 and isinstance(x, SliceV) and hi is x.len: return
        st.tags["bnd"] = st.tags.get("bnd", ()) + (("slice", lo, hi, mx, i.get("p"), E.P.short(fr.fn["name"])),)
    def on_index(self, E, st, fr, i, x, idx, work):
        if isinstance(x, Ptr) and x.o == self.L.S: return None
        if isinstance(x, SliceV): n = x.len
        elif isinstance(x, Ptr):
            t = E.P.types[i["x"]["t"]]; t = E.P.types[t["e"]] if t["k"] == "ptr" else t
            if t["k"] != "array": return None
            n = t["len"]
        else: return None
        if isinstance(idx, int) and isinstance(n, int) and 0 <= idx < n: return None
        st.tags["bnd"] = st.tags.get("bnd", ()) + (("index", idx, None, n, i.get("p"), E.P.short(fr.fn["name"])),)
        return None
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        if "RunContext." in name:
            st.tags["snaps"] = st.tags.get("snaps", ()) + ((len(st.events), dict(st.mem)),)
        return None
    def on_store(self, E, st, fr, i, p, v):
        L = self.L
        if p.o == L.M and isinstance(v, SliceV) and p.p[:1] == (L.mf["store"][0],) and v.len is not L.ML:
            st.tags["growth"] = st.tags.get("growth", ()) + ((v.len, L.field(st, "gas"), i.get("p"), E.P.short(fr.fn["name"])),)
def hashers(L):
    P = L.P; out = set(); pk = expand(PK) + "."
    ht = P.tindex.get(expand("~tosca.Hash"))
    for n, f in P.fns.items():
        if not (n.startswith(pk) or n.startswith("(*" + pk)): continue
        rs = f.get("results") or f.get("res"); ps = f.get("params") or []
        if f["short"] in ("Keccak256", "hash", "keccak256", "Keccak256For32byte", "keccak256_cgo"): out.add(n)
    return out
class Snap:
    def __init__(self, m): self.mem = m

def pre(m):
    r = m.r
    w = r.choice([0, 0, 1, 2, 3, 33, 1000, r.randint(0, 70), 1 << 20])
    m.v[("sym", "'$memlen'")] = 32 * w
    m.v[("sym", "'$memcost'")] = w * w // 512 + 3 * w
    for k in ("Input", "Code", "retdata"): m.v[("len", T(k))] = r.choice([0, 1, 31, 32, 33, 64, r.randint(0, 200), r.randint(0, 100000)])
def status_consts(L):
    out = {}
    for n, c in L.P.consts.items():
        a, b = n.rsplit(".", 1)
        if a == expand(PK) and b.startswith("status"): out[b] = L.cv(c)
    return out
def errname(v):
    if isinstance(v, Iface) and isinstance(v.v, bytes): return v.v.decode("latin1")
    return repr(v)[:60]

def analyse(L, name, rev, static, C):
    """records (category, key, message, where, verdict) for one instruction"""
    ops = L.opcodes()
    code = ops.get(name)
    if code is None:
        for k, v in ops.items():
            if evmspec.canon(k) == name: code = v
    if code is None: raise Undecided("op code %s not declared" % name)
    st = L.setup(code, static=static, rev=L.rev[REVS[rev]])
    C["st0"] = st.copy() if hasattr(st, "copy") else st
    f = st.facts
    f.assume(mk_lt(conv(L.PC, I8), L.CL), True)
    f._narrow(L.CL, 40, None)
    if name.startswith("PUSH") and name != "PUSH0":
        f.assume(mk_lt(aff_add(conv(L.PC, I8), (int(name[4:]) + 1) // 2, I8), L.CL), True)
    if finmod.PRE != [pre]: finmod.PRE[:] = [pre]
    rs = L.run(st, Pol(L), max_paths=60000, max_steps=6000000)
    C["paths"] = C.get("paths", 0) + len(rs)
    out = []
    part, parts = C.get("part", (0, 1))
    for i, r in enumerate(rs):
        if i % parts != part: continue
        try: path(L, C, name, rev, static, r, out)
        except Undecided as e: out.append(("any", "?", "%s" % e, "", "undec"))
    return out

def where(x, name):
    p = x.st.tags.get("retpos") or ""
    for e in x.events[-1:]: p = e.pos or p
    return pos(p) if p else "go/interpreter/lfvm/instructions.go"

def path(L, C, name, rev, static, r, out):
    S = C.setdefault("status", status_consts(L))
    label = "%s (%s%s)" % (name, REVS[rev], ", static" if static else "")
    if r.kind == "panic":
        out.append(("result", "panic", "%s: path ending in a panic: %s" % (label, repr(r.vals)[:120]), pos(r.st.tags.get("panicpos")), "viol" if feasible(X(L, C, name, rev, static, r), True) else "undec")); return
    x = X(L, C, name, rev, static, r)
    spec(x)
    w = where(x, name)
    def rec(cat, key, v, msg):
        C.setdefault("okk", {})[(cat, key)] = 1
        if v is True: C["ok"] = C.get("ok", 0) + 1; C.setdefault("okc", {}); C["okc"][cat] = C["okc"].get(cat, 0) + 1; return
        if v is None: C["notdist"] = C.get("notdist", 0) + 1; C.setdefault("ndc", {}); C["ndc"][cat] = C["ndc"].get(cat, 0) + 1; C.setdefault("ndk", {}); C["ndk"][(name, key)] = C["ndk"].get((name, key), 0) + 1; return
        out.append((cat, key, "%s: %s" % (label, msg), w, "viol"))
    bounds(x, rec)
    growth(x, rec)
    if static: readonly(x, rec)
    if r.vals[1] is not None:
        rec("gas" if "gas" in errname(r.vals[1]) else "result", "fails", mustfail(x), "fails with '%s' although the instruction is executable, when %s" % (errname(r.vals[1]), cond(x)))
        done = [e.n.split(".")[-1] for e in x.events]
        late = [n for n in done if n in WRITES and not (n == "SetStorage" and name == "SSTORE" and done.count(n) == 1)]
        for cat in ("order", "host"): rec(cat, "failing", True if not late else False if feasible(x, True) else None, "requests %s of the host and then fails with '%s', when %s" % (late, errname(r.vals[1]), cond(x)))
        return
    # success
    for c in x.fail:
        k = x.known(c)
        if k is False: continue
        if k is True: rec("result", "succeeds", False if feasible(x, True) else None, "is executed although %s, when %s" % (show(c), cond(x))); return
        rec("result", "succeeds", False if feasible(x, c) else None, "is executed although %s is possible, when %s" % (show(c), cond(x)))
    if x.push is None: return
    want = {0: S.get("statusRunning"), "stop": S.get("statusStopped"), "return": S.get("statusReturned"), "revert": S.get("statusReverted"), "selfdestruct": S.get("statusSelfDestructed")}[x.status]
    if want is None: raise Undecided("status constants")
    rec("result", "status", r.vals[0] == want if isinstance(r.vals[0], int) else None, "ends with status %s instead of %s" % (r.vals[0], want))
    if getattr(x, "poor", False) is not False and x.poor is not None:
        called = any(e.n.endswith(".Call") for e in x.events); k = x.known(x.poor)
        if k is None:
            v = None
            if feasible(x, x.poor if called else mk_not2(x.poor)): v = False
            rec("host", "balance", v, "%s although the balance %s the value, when %s" % (("calls", "does not cover") if called else ("does not call", "covers")) if 0 else "%s although the balance %s the value, when %s" % ("calls" if called else "does not call", "does not cover" if called else "covers", cond(x)))
        else: rec("host", "balance", k is not called or not feasible(x, True), "the call is %s although the balance %s the value, when %s" % ("made" if called else "not made", "does not cover" if called else "covers", cond(x)))
    # gas
    g = L.field(r.st, "gas"); exp = x.setgas if x.setgas is not None else aff_add(L.GAS, x.total(), I8, -1)
    if exp != "free" or not isinstance(exp, str):
        rec("gas", "gas", x.same(g, exp), "leaves gas %s, specified: %s, when %s" % (show(g), show(exp), cond(x)))
    c = mk_lt(L.GAS, x.total()); k = x.known(c)
    rec("gas", "affordable", True if k is False else False if feasible(x, c) else None, "is executed although the gas %s does not cover the charge %s, when %s" % (show(L.GAS), show(x.total()), cond(x)))
    rf = L.field(r.st, "refund"); er = L.REF
    if x.refund != ["free"]:
        for t in x.refund: er = aff_add(er, t, I8)
        rec("gas", "refund", x.same(rf, er), "leaves the refund %s, specified: %s, when %s" % (show(rf), show(er), cond(x)))
    # host
    host(x, rec)
    if x.status in ("stop", "selfdestruct"): return
    if x.status == 0:
        # stack
        exp_sp = aff_add(L.SP, len(x.push) - x.pops, I8); sp = L.sp(r.st)
        rec("result", "height", idiff(sp, exp_sp, x.f) == 0 if idiff(sp, exp_sp, x.f) is not None else x.same(sp, exp_sp), "leaves the stack height %s, specified: %s" % (show(sp), show(exp_sp)))
        exps = {-x.pops + j: v for j, v in enumerate(x.push)}
        if x.swap: exps = {-1: x.s(x.swap), -1 - x.swap: x.s(0)}
        touched = set(exps)
        for q in (r.st.mem.get(L.S) or {}):
            if len(q) >= 2 and q[0] == L.sf["data"][0]:
                d = aff_diff(q[1], L.SP)
                if d is None: raise Undecided("stack cell %r" % (q,))
                if d < len(x.push) - x.pops: touched.add(d)
        for d in sorted(touched):
            v = L.slot(r.st, d); e = exps.get(d)
            if e is None: e = x.s(-1 - d)
            rec("result", "stack%d" % (len(x.push) - x.pops - 1 - d), slotcmp(x, v, e, g), "leaves %s at depth %d, specified: %s, when %s" % (show(v), len(x.push) - x.pops - 1 - d, show(e), cond(x)))
        # program counter
        pc = L.field(r.st, "pc")
        if isinstance(x.pc, int): rec("result", "pc", x.same(pc, aff_add(L.PC, x.pc, (4, False))), "continues at %s, specified: %s" % (show(pc), "pc+%d" % x.pc))
        else:
            _, t, dest = x.pc; e = x.ite(t, dest, aff_add(L.PC, 1, (4, False)))
            rec("result", "pc", x.same(pc, e), "continues at %s, specified: %s, when %s" % (show(pc), show(e), cond(x)))
    memory(x, rec)
    rd = L.field(r.st, "returnData")
    if isinstance(x.ret, str):
        if x.ret == "same": rec("result", "returndata", isinstance(rd, SliceV) and rd.o == ("h", "retdata") or None, "changes the return data")
    elif x.ret is None or x.ret == ("none",):
        sl = x.E.as_slice(r.st, rd); rec("result", "returndata", True if sl.len == 0 and isinstance(sl.len, int) else x.same(sl.len, 0), "keeps return data %s where none is specified, when %s" % (show(rd), cond(x)))
    elif isinstance(x.ret, tuple) and x.ret[0] == "out": rec("result", "returndata", x.same(rd, x.ret[1]) if isinstance(rd, T) else (False if isinstance(rd, SliceV) and isinstance(rd.len, int) or rd is None else None), "return data is %s, specified: the output of the call, when %s" % (show(rd), cond(x)))
    elif isinstance(x.ret, tuple) and x.ret[0] == "region": x.cur = None; rec("result", "returndata", x.sameregion(rd, x.ret), "returns %s, specified: the memory region, when %s" % (show(rd), cond(x)))

def bounds(x, rec):
    """every slice expression and index of the path is in range"""
    for kind, lo, hi, mx, p, fn in dict.fromkeys(x.st.tags.get("bnd", ())):
        if isinstance(mx, tuple): mx = mx[1] if any(mx[1] in finmod.leaves(a) for a in x.f.atoms) else mx[0]
        cs = [mk_lt(lo, 0), mk_lt(hi, lo), mk_lt(mx, hi)] if kind == "slice" else [mk_lt(lo, 0), mk_not(mk_lt(lo, mx))]
        for c in cs:
            k = x.known(c)
            v = True if k is False else False if feasible(x, c) else None
            rec("result", "range:" + fn, v, "%s in %s out of range (%s), when %s" % (kind, fn, show(c), cond(x)))
def growth(x, rec):
    """the memory grows only once the growth has been paid for"""
    for n, gas, p, fn in x.st.tags.get("growth", ()):
        if not hasattr(x, "_fee"): x._fee = x.memfee() if x.regions else 0
        others = [c for c in x.charge if c is not x._fee]; v = None
        for m in range(1 << min(len(others), 6)):
            g = aff_add(x.L.GAS, x._fee, I8, -1)
            for j, c in enumerate(others[:6]):
                if m >> j & 1: g = aff_add(g, c, I8, -1)
            if idiff(gas, g, x.f) == 0: v = True; break
        if v is None:
            x.pathst(); k = 0
            for m in x.models():
                try:
                    size = m.ev(n); w = size // 32
                    if size > m.ev(x.L.ML) and m.ev(x.L.GAS) - m.ev(gas) < w * w // 512 + 3 * w - m.ev(x.L.MC): v = False; break
                except finmod.Unk as e: x.C.setdefault("undex", []).append((x.name, "growth", str(e))); break
        rec("order", "memory", v, "%s (%s) grows the memory to %s bytes before the growth is paid for, when %s" % (fn, pos(p), show(n), cond(x)))
def readonly(x, rec):
    """static mode: no state change is requested, nested calls are static"""
    done = [(e.n.split(".")[-1], e) for e in x.events]
    bad = [n for n, _ in done if n in WRITES and n != "Call"]
    rec("static", "writes", True if not bad else False if feasible(x, True) else None, "requests %s of the host in static mode, when %s" % (bad, cond(x)))
    for n, e in done:
        if n != "Call": continue
        k = e.a[1]; ok = x.C.setdefault("kinds", callkinds(x.L))
        v = ok.get(k) if isinstance(k, int) else None
        if v in ("Create", "Create2", "Call", None) and feasible(x, True): rec("static", "kind", False, "makes a nested call of kind %s in static mode, when %s" % (v or show(k), cond(x)))
        else: rec("static", "kind", True, "")
        t = x.L.P.typ(expand("~tosca.CallParameters"))
        for fd, w in zip(x.L.P.types[t]["f"], e.a[2].e if isinstance(e.a[2], Agg) else ()):
            if fd["n"] == "Value" and v == "StaticCall":
                z = x.E.zero(fd["t"]); rec("static", "value", x.same(w, z), "makes a static call with value %s" % show(w))
def callkinds(L):
    out = {}
    for n, c in L.P.consts.items():
        a, b = n.rsplit(".", 1)
        if isinstance(c, dict) and L.P.types[c["t"]]["s"] == expand("~tosca.CallKind"): out[L.cv(c)] = b
    return out
def mk_not2(c): return T("not", c) if isinstance(c, T) else not c
def feasible(x, c):
    """is there a valuation of the path's facts satisfying c"""
    x.pathst(); n = 0
    for m in x.models():
        n += 1
        try:
            if bool(m.ev(c)): return True
        except finmod.Unk as e: x.C.setdefault("undex", []).append((x.name, "condition", str(e))); return False
    return False
def mustfail(x):
    fs = x.fail
    for c in fs:
        if x.known(c) is True: return True
    # gas: some partial sum of the charges exceeds the gas
    import itertools
    ch = x.charge; f = x.f
    for at, v in f.order:
        if at.op == "<" and v is True and len(ch) <= 8:
            (c1, d1), (c2, d2) = x.ideal2(at)
            d = dict(d1)
            for t, k in d2.items(): d[t] = d.get(t, 0) - k
            d = {t: k for t, k in d.items() if k}; c = c1 - c2
            if L_gas(x) not in d: continue
            for m in range(1, 1 << len(ch)):
                cc = 0; dd = {L_gas(x): 1}
                for j, a in enumerate(ch):
                    if m >> j & 1:
                        if isinstance(a, T) and a.op == "ite": break
                        c3, d3 = ideal(a, f); cc -= c3
                        for t, k in d3.items(): dd[t] = dd.get(t, 0) - k
                else:
                    if {t: k for t, k in dd.items() if k} == d and cc >= c or {t: k for t, k in dd.items() if k} == d and cc <= c: 
                        # gas - charges <= a - b < 0 needs charges at least as large
                        if cc <= c: return True
    x.pathst(); n = 0
    tot = x.charge
    for m in x.models():
        n += 1
        try:
            bad = any(bool(m.ev(c)) for c in fs) or m.ev(x.L.GAS) < sum(m.ev(a) for a in tot)
        except finmod.Unk as e: x.C.setdefault("undex", []).append((x.name, "mustfail", str(e))); return None
        if not bad: return False
    return None
def L_gas(x): return x.L.GAS
def slotcmp(x, v, e, g):
    L = x.L
    if isinstance(e, tuple):
        if e[0] == "gasleft": return x.same(v, num(g) if isinstance(g, int) else T("u.from64", conv(g, U8)))
        argt = L.P.ity(L.inf["arg"][1])
        arg = lambda j: T("init", L.D, (aff_add(L.PC, j, (4, False)), L.inf["arg"][0]), ty=argt)
        if e[0] == "arg": return x.same(v, T("u.from64", arg(0)))
        if e[0] == "imm": return x.same(v, T("u.frombytes", *[T("byteof", arg(j // 2), 8 if j % 2 == 0 else 0, ty=(1, True)) for j in range(e[1])]))
        if e[0] == "keccak":
            if isinstance(v, T) and v.op == "u.fromarr" and v.args[1] == 32:
                for t, s, mem in x.st.tags.get("hashed", ()):
                    if t is v.args[0]:
                        x.cur = Snap(mem)
                        try: return x.sameregion(s, ("region", e[1], e[2]))
                        finally: x.cur = None
            return None
    return x.same(v, e)

def host(x, rec):
    evs = [(k, e) for k, e in enumerate(x.events)]
    eff = [(k, e) for k, e in evs if e.n.split(".")[-1] not in QUERIES | TOUCH]
    want = x.effects
    names = [e.n.split(".")[-1] for _, e in eff]
    if names != [n for n, _ in want]:
        rec("host", "effects", False if feasible(x, True) else None, "requests %s of the host, specified: %s, when %s" % (names or "nothing", [n for n, _ in want] or "nothing", cond(x))); return
    rec("host", "effects", True, "")
    tk = [k for k, e in evs if e.n.split(".")[-1] in TOUCH]
    ok = len(tk) == len(x.acc) and all(k is not None for _, _, k in x.acc)
    if not ok: rec("host", "access", False if feasible(x, True) else None, "reports the accesses %s, specified: %s, when %s" % ([show(x.events[k].a[1:]) for k in tk], [(n, show(a)) for n, a, _ in x.acc], cond(x)))
    elif x.acc: rec("host", "access", True, "")
    snaps = dict(x.st.tags.get("snaps", ()))
    idx = {id(e): k for k, e in enumerate(x.st.events)}
    for (k, e), (n, args) in zip(eff, want):
        x.cur = Snap(snaps.get(idx.get(id(e)), x.st.mem))
        try:
            a = list(e.a[1:])
            if n == "Call":
                rec("host", "callkind", x.same(a[0], args[0]), "calls with kind %s, specified: %s, when %s" % (show(a[0]), args[0], cond(x)))
                t = x.L.P.typ(expand("~tosca.CallParameters")); fl = x.L.P.types[t]["f"]
                if not isinstance(a[1], Agg): rec("host", "call", None, ""); continue
                for fdesc, v in zip(fl, a[1].e):
                    if fdesc["n"] in args[1][1]:
                        ev = args[1][1][fdesc["n"]]
                        rec("host", "call:" + fdesc["n"], x.same(v, ev), "calls with %s = %s, specified: %s, when %s" % (fdesc["n"], show(v), show(ev), cond(x)))
            elif n == "EmitLog":
                t = x.L.P.typ(expand("~tosca.Log")); fl = {fd["n"]: v for fd, v in zip(x.L.P.types[t]["f"], a[0].e)} if isinstance(a[0], Agg) else None
                if fl is None: rec("host", "log", None, ""); continue
                _, addr, topics, reg = args[0]
                rec("host", "log:Address", x.same(fl["Address"], addr), "logs the address %s" % show(fl["Address"]))
                tp = x.E.as_slice(x.st, fl["Topics"]); good = isinstance(tp.len, int)
                if not good: rec("host", "log:Topics", None, "")
                else:
                    rec("host", "log:Topics", tp.len == len(topics), "logs %s topics instead of %d" % (tp.len, len(topics)))
                    ht = x.L.P.typ(expand("~tosca.Hash"))
                    for j in range(min(tp.len, len(topics))):
                        v = x.E.load(x.st, Ptr(tp.o, tp.p + (tp.off + j,)), ht)
                        rec("host", "log:Topic%d" % j, x.same(v, topics[j]), "logs %s as topic %d, specified: %s" % (show(v), j, show(topics[j])))
                d = fl["Data"]
                if isinstance(d, T): d = x.E.as_slice(x.st, d)
                rec("host", "log:Data", logdata(x, d, reg), "logs the data %s, specified: the memory region, when %s" % (show(d), cond(x)))
            else:
                for j, (p, q) in enumerate(zip(a, args)):
                    rec("host", "%s:%d" % (n, j), x.same(p, q), "%s with argument %d = %s, specified: %s" % (n, j, show(p), show(q)))
        finally: x.cur = None
def logdata(x, d, reg):
    if isinstance(d, SliceV) and isinstance(d.o, tuple) and d.o[0] == "sl" and d.o[1].op == "fn:bytes.Clone":
        q = d.o[1].args[0]
        if q is None: return x.sameregion(SliceV(("nil",), (), 0, 0, 0), reg)
        if q.op == "sl0": return x.sameregion(SliceV(q.args[0], q.args[1], q.args[2], q.args[3], None), reg)
        if q.op == "slc" and q.args[0] == (): return x.sameregion(SliceV(("nil",), (), 0, 0, 0), reg)
    return x.sameregion(d, reg)

def memory(x, rec):
    L = x.L
    if "store" not in L.mf: raise Undecided("memory representation")
    sl = x.E.load(x.st, Ptr(L.M, (L.mf["store"][0],)), L.mf["store"][1])
    if not isinstance(sl, SliceV): raise Undecided("memory content %r" % (sl,))
    if not hasattr(x, "grown"): x.grown = L.ML
    rec("result", "memsize", x.same(sl.len, x.grown), "leaves a memory of %s bytes, specified: %s, when %s" % (show(sl.len), show(x.grown), cond(x)))
    if "currentMemoryCost" in L.mf:
        mc = x.E.load(x.st, Ptr(L.M, (L.mf["currentMemoryCost"][0],)), L.mf["currentMemoryCost"][1])
        rec("gas", "memcost", memcost(x, mc), "remembers the memory cost %s, when %s" % (show(mc), cond(x)))
    clean = (sl.o == ("h", "memdata") or x.isgrown(sl.o)) and not x.st.mem.get(sl.o)
    if clean and not x.writes: rec("result", "memory", True, ""); return
    live = [w for w in x.writes if x.known(mk_eq(w[1], u256(0))) is not True]
    if clean and not live: rec("result", "memory", True, ""); return
    if len(live) == 1 and overlay(x, sl, live[0]): rec("result", "memory", True, ""); return
    x.cur = None; x.pathst(); seen = 0
    for m in x.models():
        try:
            n = m.ev(sl.len)
            marks = {0, n - 1, m.r.randrange(n) if n > 0 else 0}
            for dst, ln, src in live:
                d, l = m.ev(dst), m.ev(ln)
                marks |= {d - 1, d, d + 1, d + l - 1, d + l, d + l // 2, d + m.r.randrange(l) if l else d}
                if src[0] == "result": marks |= {d + m.ev(T("len", src[1], ty=I8)), d + m.ev(T("len", src[1], ty=I8)) - 1}
                if src[0] == "bytes":
                    so = m.ev(src[2]); sn = srclen(x, m, src[1]); marks |= {d + sn - so, d + sn - so - 1}
            for i in sorted(marks):
                if not 0 <= i < n: continue
                a = m.slbyte(sl, i); b = wanted(x, m, live, i)
                if a != b:
                    rec("result", "memory", False, "leaves byte %d of the memory = %d, specified: %d, e.g. for operands %s, when %s" % (i, a, b, [m.ev(x.s(k)) for k in range(x.pops)], cond(x))); return
            seen += 1
        except finmod.Unk as e: x.C.setdefault("undex", []).append((x.name, "memory", str(e))); rec("result", "memory", None, ""); return
    rec("result", "memory", None, "")
def memcost(x, mc):
    """the remembered cost stays the cost of the memory size"""
    fee = [c for c in x.charge]
    if x.regions:
        f = x.memfee()
        return x.same(mc, aff_add(x.L.MC, f, I8))
    return x.same(mc, x.L.MC)
def srclen(x, m, obj):
    if obj == ("h", "memdata"): return m.ev(x.L.ML)
    if isinstance(obj, tuple): return m.ev(T("len", T({"Input": "Input", "Code": "Code", "retdata": "retdata"}[obj[1]]), ty=I8))
    return m.ev(T("len", obj, ty=I8))
def wanted(x, m, writes, i):
    for dst, ln, src in reversed(writes):
        d, l = m.ev(dst), m.ev(ln)
        if not d <= i < d + l: continue
        k = i - d
        if src[0] == "value": return (m.ev(src[1]) >> (8 * (src[2] - 1 - k))) & 255
        if src[0] == "result":
            if k < m.ev(T("len", src[1], ty=I8)): return m.base(("sl", src[1]), (), k)
            continue
        o = m.ev(src[2]) + k
        if o >= srclen(x, m, src[1]): return 0
        return m.base(src[1] if isinstance(src[1], tuple) else ("sl", src[1]), (), o)
    return x.mem0byte(m, i)
def overlay(x, sl, w):
    """structural proof: one copy onto the (grown) initial memory"""
    m = x.st.mem.get(sl.o)
    if not (sl.o == ("h", "memdata") or x.isgrown(sl.o)) or not m or list(m) != [()]: return False
    v = m[()]
    if not (isinstance(v, T) and v.op == "overlay"): return False
    o, p, off, dl, src, prev = v.args
    if prev is not None: return False
    dst, ln, kind = w
    if x.same(off, u64(dst)) is not True or x.same(dl, u64(ln)) is not True: return False
    q = src.args[0]
    if kind[0] == "value":
        n = kind[2]
        if q.op == "slv" and q.args[3] == n and q.args[2] == 0:
            d = dict(q.args[4]); return n == 32 and list(d) == [()] and isinstance(d[()], T) and d[()].op == "u.b32" and x.same(d[()].args[0], kind[1]) is True
        if q.op == "slc" and len(q.args[0]) == 1 and n == 1:
            c = q.args[0][0]
            return len(c) == 1 and c[0][0] == () and x.same(c[0][1], conv(u64(kind[1]), (1, True))) is True
        return False
    if kind[0] == "bytes":
        return q.op == "sl0" and q.args[0] == kind[1] and q.args[1] == () and kind[1] != ("h", "memdata") and x.same(q.args[2], u64(kind[2])) is True and x.same(q.args[3], u64(ln)) is True
    return False
def show(v):
    s = p11.alloc_free(v) if not isinstance(v, (tuple, list)) else p11.alloc_free(v)
    s = s.replace("init(('h', 'stk'),(0, ($sp-", "operand(").replace("('h', 'ctx')", "ctx")
    return s if len(s) < 260 else s[:250] + "..."
def cond(x): return show(" and ".join(("%r" if v else "not %r") % (t,) for t, v in x.f.order[-3:]))
