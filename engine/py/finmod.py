"""Random interpretation of terms: valuations of the opaque leaves that satisfy a path's facts.
Used to tell genuinely different terms from terms that merely lack a common normal form."""
import random
from absdom import *
import gosem
from gosem import Agg, SliceV, Ptr
M = (1 << 256) - 1
BYTE = T("sym", "$byte", ty=(1, True)); STK = repr(("h", "stk")); BOOL = T("sym", "$bool")
class Unk(Exception): pass
def sgn(v): return v - (1 << 256) if v >> 255 else v
PAL = [0, 1, 2, 3, 31, 32, 33, 64, 255, 256, 257, 1000, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 1 << 255, (1 << 255) - 1, M, M - 1, M - 30]
def top(v, n): return (v & ((1 << (8 * n)) - 1)) << (8 * (32 - n))
class Model:
    """Byte arrays denote 256-bit numbers holding their bytes from the most significant end on."""
    def __init__(self, rnd, facts): self.r, self.f, self.v, self.memo = rnd, facts, {}, {}
    # -- byte sequences
    def seqlen(self, s):
        if s.op in ("sl0", "slv"): return self.ev(s.args[3])
        if s.op == "slc": return len(s.args[0])
        raise Unk(s.op)
    def seqbyte(self, s, i):
        if s.op == "sl0": return self.base(s.args[0], s.args[1], self.ev(s.args[2]) + i)
        if s.op == "slv": return self.objbyte(s.args[0], dict(s.args[4]), s.args[1], self.ev(s.args[2]) + i)
        if s.op == "slc":
            for q, v in s.args[0][i]:
                if q == (): return self.ev(v) & 255
            raise Unk("slc")
        raise Unk(s.op)
    def objbyte(self, o, m, p, i):
        """byte i of the array at path p of object o whose cells are m"""
        n = len(p); whole = None
        for q, v in m.items():
            if len(q) == n + 1 and self.path(q[:n]) == self.path(p) and self.ev(q[n]) == i: return self.ev(v) & 255
            if len(q) <= n and q == p[:len(q)]: whole = (q, v)
        if whole is None: return self.base(o, p, i)
        q, v = whole
        if q != p and q != (): raise Unk("path")
        if isinstance(v, T):
            if v.op == "overlay":
                o2, p2, off, dl, src, prev = v.args
                k = i - self.ev(off); sq = src.args[0]
                if 0 <= k < self.ev(dl) and k < self.seqlen(sq): return self.seqbyte(sq, k)
                return self.objbyte(o2, dict(prev), p2, i) if prev else self.base(o2, p2, i)
            if v.op == "zero": return 0
            if v.op in ("u.b32", "u.b20") or v.op == "init" or v.op == "fld" or v.op == "sym" and not v.ty: return (self.ev(v) >> (8 * (31 - i))) & 255
        if isinstance(v, Agg): return self.ev(v.e[i]) & 255
        raise Unk("cell %r" % (v,))
    def base(self, o, p, i):
        if isinstance(o, tuple) and o[0] == "a": return 0
        if isinstance(o, tuple) and o[0] == "sl":
            t = o[1]
            if t.op == "appended":
                n = self.seqlen(t.args[0])
                return self.seqbyte(t.args[0], i) if i < n else self.seqbyte(t.args[1], i - n)
            if t.op == "fn:bytes.Clone": return self.seqbyte(t.args[0], i)
            return self.leaf(("byte", t, i), BYTE)
        return self.leaf(("init", repr(o), self.path(p) + (i,)), BYTE)
    def memword(self, n, off):
        """n bytes of the zero extended initial content of an object"""
        raise Unk("memword")
    def leaf(self, key, t):
        if key not in self.v:
            r = self.r
            if t is not None and t.ty and t.op not in ("init256",):
                lo, hi = self.f.interval(t); tl, th = type_range(t)
                lo = tl if lo is None else lo; hi = th if hi is None else hi
                c = r.random()
                if c < .25: v = r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
                elif c < .6: v = r.randint(lo, min(hi, lo + r.choice([4, 40, 1100, 100000])))
                elif c < .7: v = min(hi, max(lo, r.choice(PAL)))
                else: v = r.randint(lo, hi)
            elif t is not None and t is BOOL: v = r.random() < .5
            else:
                c = r.random()
                v = r.choice(PAL) if c < .45 else r.randint(0, 300) if c < .7 else r.getrandbits(r.choice([16, 64, 128, 255, 256])) if c < .9 else M - r.getrandbits(r.choice([5, 64]))
                if key[0] != "init" or key[1] != STK:
                    if v >> 96 == 0 and key[0] != "hash": v <<= 96
            self.v[key] = v
        return self.v[key]
    def ev(self, t):
        if isinstance(t, bool): return t
        if isinstance(t, int): return t
        if t is None: return None
        if isinstance(t, Agg) and t.k == "array" and len(t.e) <= 32:
            r = 0
            for x in t.e: r = r << 8 | (self.ev(x) & 255)
            return r << (8 * (32 - len(t.e)))
        if isinstance(t, SliceV): 
            return ("slice", self.ev(t.len)) + tuple(self.slbyte(t, k) for k in range(min(self.ev(t.len), 40)))
        if not isinstance(t, T): raise Unk(repr(t)[:40])
        if t in self.memo: return self.memo[t]
        v = self.ev0(t); self.memo[t] = v
        return v
    def wr(self, v, t): return wrap(v, *t.ty) if t.ty else v
    def path(self, p): return tuple(self.ev(x) if isinstance(x, T) else x for x in p)
    def ev0(self, t):
        o, a = t.op, t.args; E = self.ev
        if o == "aff":
            c, ts = a; return self.wr(c + sum(k * E(x) for x, k in ts), t)
        if o == "conv": return self.wr(int(E(a[0])), t) if t.ty else E(a[0])
        if o == "zx":
            x = a[0]; v = E(x)
            return v & ((1 << (8 * x.ty[0])) - 1) if isinstance(x, T) and x.ty else v
        if o == "bv":
            r = 0
            for x in a: r = r << 8 | (E(x) & 255)
            return r
        if o == "join":
            r = 0
            for x in a: r = r << 8 | (E(x) & 255)
            return self.wr(r, t)
        if o == "byteof":
            return (E(a[0]) >> a[1]) & 255
        if o in ("mul", "*"): return self.wr(E(a[0]) * E(a[1]), t)
        if o in ("/", "%"):
            x, y = E(a[0]), E(a[1])
            if y == 0: raise Unk("div")
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return self.wr(q if o == "/" else x - q * y, t)
        if o == "shl": 
            n = E(a[1]); return self.wr(E(a[0]) << n, t) if n < 1000 else 0
        if o == "shr": 
            n = E(a[1]); return self.wr(E(a[0]) >> min(n, 1000), t)
        if o in ("bit|", "bit&", "bit^"):
            x, y = E(a[0]), E(a[1]); return self.wr(x | y if o == "bit|" else x & y if o == "bit&" else x ^ y, t)
        if o == "<": return E(a[0]) < E(a[1])
        if o == "==": 
            x, y = a
            for p, q in ((x, y), (y, x)):
                if p is None and isinstance(q, T): return False if q.op == "nonnil" else self.leaf(("isnil", q), BOOL)
            return E(x) == E(y)
        if o in ("not", "and", "or", "ite"):
            for x in a[:1] if o == "ite" else a:
                if isinstance(x, T) and not x.ty and x.op in LEAFS or isinstance(x, T) and x.op in ("fresh", "res", "call") and not x.ty:
                    try: k = self.lkey(x) if x.op in LEAFS else x
                    except Unk: continue
                    if k not in self.v: self.leaf(k, BOOL)
        if o == "not": return not E(a[0])
        if o == "and": return all(E(x) for x in a)
        if o == "or": return any(E(x) for x in a)
        if o == "ite": return E(a[1]) if E(a[0]) else E(a[2])
        if o == "add64": return (E(a[0]) + E(a[1]) + E(a[2])) & (2**64 - 1)
        if o == "addcarry": return ((E(a[0]) & (2**64 - 1)) + (E(a[1]) & (2**64 - 1)) + E(a[2])) >> 64
        if o == "sub64": return (E(a[0]) - E(a[1]) - E(a[2])) & (2**64 - 1)
        if o == "subcarry": return 1 if E(a[0]) - E(a[1]) - E(a[2]) < 0 else 0
        if o == "mulhi": return E(a[0]) * E(a[1]) >> 64
        if o == "mullo": return E(a[0]) * E(a[1]) & (2**64 - 1)
        if o == "u256": return a[0]
        if o == "zero": return 0
        if o in ("ult", "slt"):
            x, y = E(a[0]), E(a[1]); return x < y if o == "ult" else sgn(x) < sgn(y)
        if o == "u256w": return sum((E(w) & (2**64 - 1)) << (64 * k) for k, w in enumerate(a))
        if o == "u.from64": return E(a[0]) & (2**64 - 1)
        if o == "u.frombytes":
            r = 0
            for x in a: r = r << 8 | (E(x) & 255)
            return r & M
        if o == "u.fromarr": return E(a[0]) >> (8 * (32 - a[1]))
        if o == "u.b32": return E(a[0]) & M
        if o == "u.b20": return top(E(a[0]), 20)
        if o == "u.frombytesv":
            b = a[0]
            if b.op != "bytesv": raise Unk("bytesv")
            ver, p, off, n = b.args; n = E(n); off = E(off)
            if n > 64: raise Unk("bytesv length")
            r = 0
            for k in range(n): r = r << 8 | (self.base(ver.args[0], p, off + k) if ver.op == "init" else self.objbyte(ver.args[0], dict(ver.args[1]), p, off + k))
            return r & M
        if o == "aggv": return E(a[0])
        if o == "copied":
            if a[0].op not in ("slcontent", "slterm"): raise Unk(a[0].op)
            if a[1] < self.seqlen(a[0].args[0]): return self.seqbyte(a[0].args[0], a[1])
            if a[2] is None: raise Unk("copied")
            return E(a[2])
        if o == "min": return min(E(x) for x in a)
        if o == "max": return max(E(x) for x in a)
        if o == "keccak":
            n = self.seqlen(a[0])
            if n > 600: return self.leaf(("hash-long", a[0]), None)
            return self.leaf(("hash", tuple(self.seqbyte(a[0], k) for k in range(n))), None)
        if o == "memword":
            obj, ln, off, n = a; off = E(off.args[0] if isinstance(off, T) and off.op == "whole" else off); ln = E(ln); r = 0
            for k in range(n): r = r << 8 | (self.base(obj, (), off + k) if off + k < ln else 0)
            return r
        if o == "len" and isinstance(a[0], T) and a[0].op == "fn:bytes.Clone": return self.seqlen(a[0].args[0])
        if o == "fld":
            if t.ty == (1, True): return (E(a[0]) >> (8 * (31 - E(a[1])))) & 255
            if t.ty == (8, True) and isinstance(a[0], T) and (a[0].op.startswith("u.") or a[0].op == "init"): return (E(a[0]) >> (64 * a[1])) & (2**64 - 1)
            return self.leaf((o, self.key(a[0]), a[1]), t)
        if o.startswith("u."): return self.u(o[2:], [E(x) for x in a], t)
        if o == "init":
            p = self.path(a[1])
            if t.ty == (8, True) and a[0] == ("h", "stk") and len(p) == 3:
                return (self.leaf(("init", repr(a[0]), p[:-1]), None) >> (64 * p[-1])) & (2**64 - 1)
            if t.ty == (1, True) and len(p) > 1 and isinstance(p[-1], int) and (a[0] == ("h", "ctx") or isinstance(a[0], tuple) and a[0][0] == "sl"):
                return (self.ev(T("init", a[0], a[1][:-1])) >> (8 * (31 - p[-1]))) & 255
            return self.leaf(("init", self.key(a[0]), p), t)
        if o in ("sym", "len", "cap", "nonnil", "uniq"): return self.leaf((o,) + tuple(self.key(x) for x in a), t)
        if o in ("fresh", "res", "call"): return self.leaf(t, t)
        f = EXTRA.get(o)
        if f is not None: return f(self, t)
        raise Unk(o)
    def lkey(self, p):
        if p.op == "init": return ("init", self.key(p.args[0]), self.path(p.args[1]))
        if p.op == "fld": return ("fld", self.key(p.args[0]), p.args[1])
        return (p.op,) + tuple(self.key(z) for z in p.args)
    def key(self, x):
        if isinstance(x, T): 
            return x
        return repr(x)
    def slbyte(self, s, k):
        m = self.st.mem.get(s.o) if self.st is not None else None
        if not m: return self.base(s.o, s.p, self.ev(s.off) + k)
        return self.objbyte(s.o, m, s.p, self.ev(s.off) + k)
    st = None
    def u(self, op, x, t):
        if op in ("Add", "Sub", "Mul", "And", "Or", "Xor"):
            a, b = x
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "And": a & b, "Or": a | b, "Xor": a ^ b}[op] & M
        if op == "Not": return ~x[0] & M
        if op == "Neg": return -x[0] & M
        if op == "Div": return x[0] // x[1] if x[1] else 0
        if op == "Mod": return x[0] % x[1] if x[1] else 0
        if op in ("SDiv", "SMod"):
            a, b = sgn(x[0]), sgn(x[1])
            if b == 0: return 0
            q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
            return (q if op == "SDiv" else a - q * b) & M
        if op == "AddMod": return (x[0] + x[1]) % x[2] if x[2] else 0
        if op == "MulMod": return (x[0] * x[1]) % x[2] if x[2] else 0
        if op == "Exp": return pow(x[0], x[1], 1 << 256)
        if op == "ExtendSign":
            if x[1] > 31: return x[0]
            b = x[1] * 8 + 7
            return (x[0] | (M << b) & M) if (x[0] >> b) & 1 else x[0] & ((1 << b) - 1)
        if op == "Byte": return (x[0] >> (8 * (31 - x[1]))) & 255 if x[1] < 32 else 0
        if op == "Lsh": return (x[0] << x[1]) & M if x[1] < 256 else 0
        if op == "Rsh": return x[0] >> x[1] if x[1] < 256 else 0
        if op == "SRsh": return (sgn(x[0]) >> min(x[1], 256)) & M
        if op == "u64": return x[0] & (2**64 - 1)
        if op == "is64": return x[0] < 2**64
        if op == "Sign": return (x[0] != 0) - 2 * (x[0] >> 255)
        if op == "Cmp": return (x[0] > x[1]) - (x[0] < x[1])
        if op == "ByteLen": return (x[0].bit_length() + 7) // 8
        if op == "BitLen": return x[0].bit_length()
        if op == "AddUint64": return (x[0] + x[1]) & M
        if op == "SubUint64": return (x[0] - x[1]) & M
        if op == "Addovf": return x[0] + x[1] > M
        if op == "Subovf": return x[0] < x[1]
        if op == "Mulovf": return x[0] * x[1] > M
        if op == "Sqrt":
            import math; return math.isqrt(x[0])
        raise Unk("u." + op)

EXTRA = {}   # further operators: op -> f(model, term)
PRE = []
LEAFS = ("sym", "init", "len", "cap", "fld")
_lv = {}
def leaves(t):
    """leaf terms a term is evaluated from"""
    r = _lv.get(t)
    if r is None:
        r = []
        if t.op in LEAFS or t.op in ("nonnil", "uniq", "fresh", "res", "call"): r.append(t)
        if t.op not in ("fresh", "res", "call"):
            for x in t.args:
                for y in _sub(x): r += [z for z in leaves(y) if z not in r]
        _lv[t] = r
    return r
def _sub(x):
    if isinstance(x, T): return [x]
    if isinstance(x, (tuple, list)): return [z for y in x for z in _sub(y)]
    if isinstance(x, Agg): return [z for y in x.e for z in _sub(y)]
    return []
CMP = ("<", "==", "ult", "slt")
def gap(m, a):
    """difference of the operands of a comparison"""
    x, y = a.args
    if x is None or y is None: raise Unk("nil")
    x, y = m.ev(x), m.ev(y)
    if isinstance(x, bool) or isinstance(y, bool) or not isinstance(x, int) or not isinstance(y, int): raise Unk("gap")
    return sgn(x) - sgn(y) if a.op == "slt" else x - y
def leafkeys(m, t):
    for l in leaves(t):
        try: k = m.lkey(l) if l.op in LEAFS or l.op in ("nonnil", "uniq") else l
        except Unk: continue
        if l.op == "init" and k not in m.v and len(k[2]) > 1 and (k[0], k[1], k[2][:-1]) in m.v: k = (k[0], k[1], k[2][:-1])
        if l.op == "init" and k[1] != STK and ("init", repr(l.args[0]), k[2]) in m.v: k = ("init", repr(l.args[0]), k[2])
        if k in m.v: yield k, l
def with_(m, k, v):
    n = Model(m.r, m.f); n.v = dict(m.v); n.v[k] = v
    return n
def steer(m, a, want, fixed=()):
    """a valuation in which the operands of the comparison differ by want, reached by changing one leaf"""
    try: cur = gap(m, a)
    except Unk: return None
    ks = [(k, l) for k, l in leafkeys(m, a) if k not in fixed and isinstance(m.v[k], int) and not isinstance(m.v[k], bool)]
    m.r.shuffle(ks)
    for k, l in ks:
        hi = M; lo = 0
        if l.ty:
            lo, hi = m.f.interval(l); tl, th = type_range(l)
            lo = tl if lo is None else lo; hi = th if hi is None else hi
        for d in (1, -1, 32):
            if not lo <= m.v[k] + d <= hi: continue
            try: sl = gap(with_(m, k, m.v[k] + d), a) - cur
            except Unk: break
            if sl == 0: continue
            q, rem = divmod((want - cur) * d, sl)
            if rem: continue
            v = m.v[k] + q
            if not lo <= v <= hi: continue
            n = with_(m, k, v)
            try:
                if gap(n, a) == want: return n
            except Unk: pass
    return None
def holds(m, order, ivs):
    """first violated fact, or None"""
    for a, v in order:
        try:
            if bool(m.ev(a)) != v: return a
        except Unk: pass
    for t, lo, hi in ivs:
        try: x = m.ev(t)
        except Unk: continue
        if isinstance(x, int) and ((lo is not None and x < lo) or (hi is not None and x > hi)): return t
    return None
def models(facts, n=60, tries=4000, seed=7, edge=0):
    """valuations satisfying every evaluable fact: random ones, repaired by changing leaves of violated facts, and up to
    edge further ones in which a comparison is as tight as possible or an operand is special"""
    rnd = random.Random(seed); out = []
    order = list(facts.order); ivs = [(t, lo, hi) for t, (lo, hi) in facts.iv.items()]; val = dict(order)
    while tries > 0 and len(out) < n:
        m = Model(rnd, facts); ok = False
        for pre in PRE: pre(m)
        prek = set(m.v); seedleaves(m, order); pinned = set(m.v) - prek
        for _ in range(60):
            tries -= 1; bad = holds(m, order, ivs)
            if bad is None: ok = True; break
            if bad.op in CMP and bad in val and not (bad.op == "==" and not val[bad]) and rnd.random() < .7:
                d = rnd.choice([0, 0, 1, rnd.randint(0, 60), rnd.randint(0, 5000)])
                w = 0 if bad.op == "==" else -1 - d if val[bad] else d
                m2 = steer(m, bad, w, pinned | prek)
                if m2 is not None: m = m2; continue
            ks = [k for k, l in leafkeys(m, bad) if k not in pinned or rnd.random() < .05]
            if not ks: break
            k = rnd.choice(ks)
            if k in prek:
                for pre in PRE: pre(m)
            else:
                old = m.v.pop(k); c = rnd.random()
                if isinstance(old, bool): m.v[k] = not old
                elif k[0] == "init" and k[1] == STK and c < .7:
                    m.v[k] = rnd.randint(0, 70) if c < .3 else rnd.randint(0, 5000) if c < .5 else rnd.getrandbits(rnd.randint(1, 38))
            m.memo.clear()
        if ok:
            out.append(m); yield m
    if not out or not edge: return
    cmps = [a for a, v in order if a.op in CMP and None not in a.args and not (a.op == "==" and v)]
    jobs = [("t", a) for a in cmps] + [("v", k, v) for k in sorted({k for m in out[:1] for k in m.v if isinstance(k, tuple) and k[0] == "init" and k[1] == STK}, key=repr) for v in (0, 1, M, 1 << 255)]
    if len(jobs) > edge: jobs = rnd.sample(jobs, edge)
    for jb in jobs:
        for m in rnd.sample(out, min(3, len(out))):
            if jb[0] == "v":
                if m.v.get(jb[1]) == jb[2] or jb[1] not in m.v: continue
                m2 = with_(m, jb[1], jb[2])
            else:
                a = jb[1]; m2 = steer(m, a, 1 if a.op == "==" else -1 if val[a] else 0)
            if m2 is not None and holds(m2, order, ivs) is None: yield m2; break
def seedleaves(m, order):
    """equalities directly usable to fix leaves"""
    for a, v in order:
        try:
            if a.op in LEAFS and not a.ty:
                k = m.lkey(a)
                if k not in m.v: m.v[k] = v
            if a.op == "==" and v is True:
                x, y = a.args
                for p, q in ((x, y), (y, x)):
                    if isinstance(p, T) and p.op in LEAFS and q is not None and not (isinstance(q, T) and q.op == p.op):
                        k = m.lkey(p)
                        if k not in m.v: m.v[k] = m.ev(q)
            elif a.op == "==" and None in a.args:
                q = a.args[0] if a.args[1] is None else a.args[1]
                if ("isnil", q) not in m.v: m.v[("isnil", q)] = v
        except Unk: pass

def differ(facts, x, y, n=60, ms=None):
    """True: distinguished by a valuation; False: never; None: not evaluable or no valuation found"""
    seen = 0
    for m in (models(facts, n) if ms is None else ms):
        try:
            if m.ev(x) != m.ev(y): return True
        except Unk: return None
        seen += 1
    return False if seen else None
