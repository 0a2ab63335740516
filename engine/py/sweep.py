"""Product of a single-loop byte code sweep (LLVM IR) with the EVM's instruction/data automaton.

One loop iteration is interpreted from a symbolic position P for each of the 256 values of the byte at P and
every reachable control state; the marks it stores, the bytes it skips and the state it carries on are compared
with the automaton. Control states are the loop variables, which are inferred to be either at a constant
distance from the position, at a constant sum with it, or finite valued."""
from llsem import *
import ezev

P = sym("P", ty=(8, True)); LEN = sym("len", ty=(8, True))
MAXLEN = 1 << 32

class Bad(Exception): sure = True
class Unproven(Bad): sure = False
class Narrow(Exception): pass
class NotPos(Und): pass

INF = 1 << 70
def lin(x):
    """x = a*P + b*LEN + c with small constants, or None"""
    if isinstance(x, bool): return None
    if isinstance(x, int):
        return (0, 0, x - (1 << 64) if x >= 1 << 63 else x)
    if x is P: return (1, 0, 0)
    if x is LEN: return (0, 1, 0)
    if isinstance(x, T) and x.op == "aff" and x.ty and x.ty[0] == 8:
        c, d = aff_parts(x); a = b = 0
        for t, k in d.items():
            if k >= 1 << 63: k -= 1 << 64
            if t is P: a = k
            elif t is LEN: b = k
            else: return None
        c = c - (1 << 64) if c >= 1 << 63 else c
        return (a, b, c)
    return None
class Bounds:
    """intervals of P, LEN and LEN-P implied by the branch facts"""
    def __init__(self, facts, maxlen, extra=()):
        self.p = [0, maxlen + 64]; self.n = [0, maxlen]; self.d = [-INF, INF]
        for _ in range(4):
            before = (tuple(self.p), tuple(self.n), tuple(self.d))
            for at, v in list(facts.atoms.items()) + list(extra):
                if at.op not in ("<", "=="): continue
                x, y = lin(at.args[0]), lin(at.args[1])
                if x is None or y is None or not self.valid(x) or not self.valid(y): continue
                e = tuple(i - j for i, j in zip(x, y))
                if at.op == "<": self.upper(e, -1) if v else self.lower(e, 0)
                elif v: self.upper(e, 0); self.lower(e, 0)
                else:
                    lo, hi = self.range(e)
                    if lo == 0: self.lower(e, 1)
                    if hi == 0: self.upper(e, -1)
            self.close()
            if before == (tuple(self.p), tuple(self.n), tuple(self.d)): break
    def close(self):
        p, n, d = self.p, self.n, self.d
        for _ in range(2):
            d[0] = max(d[0], n[0] - p[1]); d[1] = min(d[1], n[1] - p[0])
            p[0] = max(p[0], n[0] - d[1]); p[1] = min(p[1], n[1] - d[0])
            n[0] = max(n[0], p[0] + d[0]); n[1] = min(n[1], p[1] + d[1])
    def empty(self): return self.p[0] > self.p[1] or self.n[0] > self.n[1] or self.d[0] > self.d[1]
    def valid(self, e):
        lo, hi = self.range(e); return lo >= 0 and hi < 1 << 64
    def sel(self, e):
        a, b, c = e
        for ab, v, sg in (((1, 0), self.p, 1), ((-1, 0), self.p, -1), ((0, 1), self.n, 1), ((0, -1), self.n, -1), ((-1, 1), self.d, 1), ((1, -1), self.d, -1)):
            if (a, b) == ab: return v, sg
        return None, 0
    def range(self, e):
        a, b, c = e
        if (a, b) == (0, 0): return c, c
        v, sg = self.sel(e)
        if v is None: return -INF, INF
        return (v[0] + c, v[1] + c) if sg > 0 else (c - v[1], c - v[0])
    def upper(self, e, m):
        v, sg = self.sel(e)
        if v is None: return
        if sg > 0: v[1] = min(v[1], m - e[2])
        else: v[0] = max(v[0], e[2] - m)
    def lower(self, e, m):
        v, sg = self.sel(e)
        if v is None: return
        if sg > 0: v[0] = max(v[0], m - e[2])
        else: v[1] = min(v[1], e[2] - m)
    def decide(self, at):
        if at.op == "not":
            r = self.decide(at.args[0]); return None if r is None else not r
        if at.op not in ("<", "=="): return None
        x, y = lin(at.args[0]), lin(at.args[1])
        if x is None or y is None or not self.valid(x) or not self.valid(y): return None
        lo, hi = self.range(tuple(i - j for i, j in zip(x, y)))
        if at.op == "<": return True if hi < 0 else (False if lo >= 0 else None)
        if lo == hi == 0: return True
        if lo > 0 or hi < 0: return False
        return None

class PV(ezev.Ev):
    """terms over a concrete position and length"""
    def __init__(s, p, n): s.memo = {P: p, LEN: n}
    def u0(s, t):
        if t.op in ("sym", "mem", "brd", "code"): raise ezev.Unk(t.op)
        return ezev.Ev.u0(s, t)

def marks_of(code):
    out = bytearray(len(code)); i = 0
    while i < len(code):
        b = code[i]
        if b == 0x5b: out[i] = 1
        i += b - 0x5e if 0x60 <= b <= 0x7f else 1
    return out
def codes():
    """codes a sweep is propagated over when the product construction does not settle it"""
    J = b"\x5b"
    yield b""
    for b in range(256):
        B = bytes([b]); yield B; yield B + J * 70
        yield J + B + J * 40
    for n in range(0x60, 0x80):
        B = bytes([n]); k = n - 0x5f
        for m in range(0, k + 3): yield B + J * m
        yield b"\x01" * 7 + B + J * (k // 2) + B + J * 40; yield (B + J * k) * 3 + J + b"\x00" + J
        yield B * 70 + J * 40; yield B + bytes(range(256))[:k] + J + B + b"\x5f" * k + J
    x = 1
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 700):
        for mode in range(3):
            c = bytearray()
            for _ in range(n):
                x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1); r = x >> 33
                c.append((r & 255) if mode == 0 else (0x5b if r % 5 < 3 else 0x60 + (r >> 8) % 32) if mode == 1 else 0x5b)
            yield bytes(c)
def longcodes():
    J = b"\x5b"; yield (J * 30 + b"\x00" * 3) * 2100; yield (b"\x7f" + J * 33) * 2100; yield b"\x00" * 32765 + b"\x63" + J * 10 + b"\x00" * 32750 + b"\x6f" + J * 24
def cname(c):
    if len(c) <= 40: return "code " + (c.hex(" ") or "(empty)")
    return "code %s ... (%d bytes)" % (c[:24].hex(" "), len(c))

class Plain(LEngine):
    """constants only: result buffers are arrays of known bytes"""
    def __init__(self, M, code, **k):
        LEngine.__init__(self, M, **k); self.code = code; self.arr = {}
    def mload(self, st, p, size, ty=None):
        if p.o == ("code",):
            if not isinstance(p.off, int): raise Und("unknown position")
            if p.off + size > len(self.code): raise Bad("reads the code at position %d" % (p.off if p.off < 1 << 63 else p.off - (1 << 64)))
            return int.from_bytes(self.code[p.off:p.off + size], "little")
        a = self.arr.get(p.o)
        if a is None: return LEngine.mload(self, st, p, size, ty)
        if not isinstance(p.off, int): raise Und("unknown position")
        if p.off + size > len(a): raise Bad("accesses the result at position %d" % (p.off if p.off < 1 << 63 else p.off - (1 << 64)))
        v = a[p.off:p.off + size]
        return UNDEF if None in v else int.from_bytes(bytes(v), "little")
    def big(self, st, p):
        if p.o in self.arr: return self.arr[p.o]
        n = st.tags.get("size", {}).get(p.o) if isinstance(p.o, tuple) and p.o[0] == "heap" else None
        if isinstance(n, int) and n <= 1 << 20: self.arr[p.o] = [None] * n; return self.arr[p.o]
    def put(self, a, p, vs):
        if not isinstance(p.off, int): raise Und("unknown position")
        if p.off + len(vs) > len(a): raise Bad("accesses the result at position %d" % (p.off if p.off < 1 << 63 else p.off - (1 << 64)))
        a[p.off:p.off + len(vs)] = vs
    def mstore(self, st, p, size, v):
        a = self.big(st, p)
        if p.o == ("code",): raise Bad("writes to the code")
        if a is None: return LEngine.mstore(self, st, p, size, v)
        self.put(a, p, list(v.to_bytes(size, "little")) if isinstance(v, int) else [None] * size)
    def mset(self, st, d, v, n):
        a = self.big(st, d)
        if a is None or not isinstance(n, int): return LEngine.mset(self, st, d, v, n)
        self.put(a, d, [v & 255 if isinstance(v, int) else None] * n)
    def mcopy(self, st, d, s, n):
        a = self.big(st, d)
        if a is None or not isinstance(n, int): return LEngine.mcopy(self, st, d, s, n)
        if n > 1 << 20: raise Und("copy of %d bytes" % n)
        self.put(a, d, [self.mload(st, LPtr(s.o, s.off + k), 1) for k in range(n)])

class Sweep:
    plain = None
    maxlen = MAXLEN; upto = False; lenient = False
    """mk(E) -> (function, args); code object ('code',); buf(st) -> LPtr of the marks; done(st) -> problem or None"""
    def __init__(self, M, fn, args, rep):
        self.M, self.fn, self.args, self.rep = M, fn, args, rep
        self.problems = []
    def engine(self):
        if self.plain is not None:
            E = Plain(self.M, self.plain, max_steps=60000000, max_paths=100); self.heads = set()
            def ent(E_, st, fr, phis, work): self.heads.add((fr.fn.name, fr.b))
            E.on_header = ent; return E
        E = LEngine(self.M, max_steps=6000000, max_paths=100000)
        def acc(E_, st, fr, ins, p, size, isst, v):
            if p.o == ("code",):
                if isst: raise Bad("writes to the code")
                lo = E_.dec(st, mk_lt(p.off, LEN)) if size == 1 else E_.dec(st, mk_lt(aff_add(p.off, size - 1, (8, True)), LEN))
                if lo is not True and not self.lenient: raise Unproven("reads the code at a position that is not known to be inside it: " + ins["text"])
                self.rep.count("code_accesses")
            elif isinstance(p.o, tuple) and p.o[0] == "heap":
                sz = st.tags.get("size", {}).get(p.o)
                if ins["op"] in ("load", "store") and sz is not None:
                    ok = E_.dec(st, mk_lt(p.off, sz)) if isinstance(p.off, (int, T)) else None
                    if ok is not True and not self.lenient: raise Unproven("accesses the result at a position that is not known to be inside it: " + ins["text"])
                if isst and ins["op"] == "store":
                    st.events.append(("mark", p.o, p.off, v))
                elif not isst and self.inloop(st): raise Und("reads the result while computing it")
            elif isinstance(p.o, tuple) and p.o[0] == "g":
                g = self.M.globals.get(p.o[1])
                if isst or not (g and g["const"]): raise Und("mutable global " + p.o[1])
        E.on_access = acc
        def known2(st, at):
            if not isinstance(at, T): return None
            key = (len(st.facts.order), at)
            return Bounds(st.facts, self.maxlen, [(mk_lt(LEN, P), False)] if self.upto and self.inloop(st) else ()).decide(at)
        E.known2 = known2
        def ptrcmp(st, p, a, b):
            if isinstance(a, LPtr) and isinstance(b, LPtr) and a.o == b.o and not (isinstance(a.off, int) and isinstance(b.off, int)):
                q = {"slt": "ult", "sle": "ule", "sgt": "ugt", "sge": "uge"}.get(p, p)
                return E.cmp(st, q, a.off, b.off, ity(64))
            return None
        E.ptrcmp = ptrcmp
        def leaf(st, o, off, size, ty):
            if o == ("code",):
                if size != 1: raise Und("wide access to the code")
                k = aff_diff(off, P) if isinstance(off, (int, T)) else None
                if (k == 0 or self.lenient) and "lane" in st.tags: return st.tags["lane"]
                return T("code", off, ty=(1, True))
            return None
        E.on_leaf = leaf
        E.on_header = self.header
        return E
    def inloop(self, st): return st.tags.get("H") is not None
    def header(self, E, st, fr, phis, work):
        H = st.tags.get("H")
        if H is None:
            if len(st.frames) > 3: raise Und("loop nesting")
            return LResult("head", (len(st.frames) - 1, fr.fn.name, fr.b, phis), st)
        if (len(st.frames) - 1, fr.fn.name, fr.b) == H[:3]:
            if st.tags.get("fresh"): st.tags["fresh"] = False; return None
            return LResult("head", (len(st.frames) - 1, fr.fn.name, fr.b, phis), st)
        if len(st.frames) - 1 <= H[0] and st.tags.get("left"): raise Und("second loop")
        return None
    def iterate(self, E, base, vals, lane, extra=()):
        """one iteration from the header with the given loop variable values"""
        st = base.st.copy(); d, fnn, b, phis = base.val
        st.tags["H"] = (d, fnn, b); st.events = []; st.tags["fresh"] = True
        if lane is not None: st.tags["lane"] = lane
        fr = st.frames[-1]
        for (ins, _), v in zip(phis, vals): fr.regs[ins["d"]] = v
        fr.ip = len(phis)
        for t in vals:
            if isinstance(t, T) and t.op == "aff": pass
        st.facts._narrow(P, 0, self.maxlen + 64)
        for at, v in extra:
            if not st.facts.assume(at, v): return []
        st.tags["fresh"] = False
        rs = E.loop([st])
        for r in rs:
            if r.kind == "head": r.val = r.val[:3] + ([(ins, self.simp(E, r.st, v)) for ins, v in r.val[3]],)
        return rs
    def simp(self, E, st, v):
        """replaces decided conditions inside a sum by their values"""
        if isinstance(v, LPtr):
            w = self.simp(E, st, v.off); return v if w is v.off else LPtr(v.o, w)
        if not isinstance(v, T) or v.op not in ("aff", "b2i") or not v.ty: return v
        c, d = aff_parts(v); out = c
        for t, k in d.items():
            x = t
            if t.op == "b2i":
                b = E.dec(st, t.args[0])
                if b is not None: x = int(bool(b)) * (-1 if t.args[1] else 1)
            out = aff_add(out, aff_mulc(x, k, v.ty), v.ty)
        return out
    def propagate(self, code):
        """the marks computed for one code, None when they do not follow from constants"""
        self.plain = code
        try:
            E = self.engine(); rs = E.run(self.fn, [len(code) if a is LEN else a for a in self.args], LState())
            rs = [r for r in rs if r.kind != "unreachable"]
            self.loops |= self.heads
            if len(rs) != 1: return None
            r = rs[0]
            if r.kind in ("throw", "ub", "trap", "abort"): raise Bad("ends with %s" % (r.val if r.kind == "ub" else r.kind))
            if r.kind != "ret": return None
            return self.result(E, r.st, len(code))
        finally: self.plain = None
    def witness(self, secs=150):
        """propagates codes chosen from the rule through the analysis; returns (number decided, mismatch or None)"""
        import time; t = time.time(); n = und = 0; self.loops = set()
        for gen in (codes(), longcodes()):
            for c in gen:
                if time.time() - t > secs: return n, None
                try: got = self.propagate(c)
                except Bad as e: return n, "%s for %s" % (e, cname(c))
                except (Und, KeyError, ValueError, IndexError, TypeError, AttributeError) as e: got = None
                if got is None:
                    und += 1
                    if und > 3: return n, None
                    continue
                n += 1; want = marks_of(c)
                if len(got) != len(c): return n, "covers %d positions of %s" % (len(got), cname(c))
                for i, (x, y) in enumerate(zip(got, want)):
                    if bool(x) != bool(y): return n, "classifies position %d of %s as %s jump destination although it %s" % (i, cname(c), "a valid" if x else "no", "is one" if y else "is none")
        return n, None
    def decide(self):
        """the product construction decides; a doubt it raises is a violation when a code shows it"""
        why = None
        try: self.run(); return
        except Bad as e: why = e
        except (Und, KeyError, ValueError, IndexError, TypeError) as e: why = e
        n, w = self.witness()
        self.rep.count("codes_propagated", n)
        if w: raise Bad(w)
        if isinstance(why, Bad):
            if why.sure and len(self.loops) <= 1: raise why
            raise Und("not proven: %s (no code found that shows it)" % why)
        raise why if isinstance(why, Und) else Und(repr(why))
    reduced = False
    def run(self):
        """a position counter narrower than an address is analysed with codes short enough for it first"""
        try: return self.run1()
        except Narrow as e: n = e.args[0]
        self.reduced = True; self.maxlen = min(MAXLEN, (1 << (n - 1)) - 100)
        if self.maxlen < 200: raise Und("position counter of %d bits" % n)
        self.run1()
        if n < 32: raise Bad("counts positions with %d bits, so it never gets past position %d of a longer code" % (n, (1 << n) - 1))
    def run1(self):
        E = self.engine()
        st = LState(); st.facts._narrow(LEN, 0, self.maxlen)
        heads = []
        for r in E.run(self.fn, self.args, st):
            if r.kind == "head": heads.append(r)
            elif r.kind == "ret":
                k = E.dec(r.st, mk_lt(0, LEN))
                if k is not False:
                    self.finish(E, r.st); raise Und("returns without a sweep")
                heads.append(r)
            elif r.kind in ("throw", "unreachable"): self.rep.ok("entry path ends with %s" % r.kind)
            else: raise Bad("%s %s" % (r.kind, r.val))
        seen = 0; und = None
        for h in heads:
            if h.kind == "ret":
                self.finish(E, h.st); continue
            seen += 1
            try: self.analyse(E, h)
            except Und as e: und = und or e
        if und: raise und
        if not seen: raise Und("no sweep loop found")
        self.rep.count("steps", E.steps)
    def analyse(self, E, h):
        d, fnn, b, phis = h.val
        M = self.M
        tys = [M.res(ins["ty"]) for ins, _ in phis]; inits = [v for _, v in phis]
        # ---- classify the loop variables with one iteration on unconstrained values
        cands = []
        for i, (t, v) in enumerate(zip(tys, inits)):
            if t.k == "int" and t.n >= 8 and isinstance(v, int) and v == 0: cands.append(i)
            elif t.k == "ptr" and isinstance(v, LPtr) and v.o == ("code",) and v.off == 0: cands.append(i)
        self.fixbuf(h.st)
        errs = []; bad = None; unsure = False
        cands.sort(key=lambda c: -(tys[c].n if tys[c].k == "int" else 64))
        for c in cands:
            if bad is not None and tys[c].k == "int" and tys[c].n < 64: break
            for upto in (False, True):
                self.upto = upto; narrow = tys[c].n if tys[c].k == "int" and tys[c].n < 64 else None
                if narrow and not self.reduced: raise Narrow(narrow)
                try:
                    self.withpos(E, h, c, phis, tys, inits); return
                except Und as e: errs.append(str(e)); unsure = unsure or not isinstance(e, NotPos)
                except Bad as e:
                    if bad is None: bad = e
                    continue
                break
        if bad is not None and not unsure: raise bad
        raise Und("no loop variable is the position (%s)" % "; ".join(errs))
    def fixbuf(self, st):
        """a filled result buffer whose length is a known small constant"""
        for o, sz in st.tags.get("size", {}).items():
            m = st.mem.get(o)
            if not m or any(isinstance(k, T) for k in m): continue
            for n in range(0, 5):
                if Bounds(st.facts, self.maxlen).decide(mk_eq(sz, n) if isinstance(sz, T) else T("==", 0, 1)) is True and n and all(m.get(k) == (1, 0) for k in range(n)):
                    st.mem[o] = {"default": lambda off, size: 0}
    def posval(self, t, c, k=0):
        v = aff_add(P, k, (8, True)) if k else P
        if t.k == "ptr": return LPtr(("code",), v)
        if t.n < 64: return T("trunc", v, ty=u(t.n))
        return v
    def wst(self):
        st = LState(); st.facts._narrow(P, 0, self.maxlen + 64); st.facts._narrow(LEN, 0, self.maxlen); return st
    def num(self, v):
        """integer view of a loop variable"""
        if isinstance(v, LPtr): return ("p", v.o), v.off
        if isinstance(v, T) and v.ty and v.ty[0] < 8:
            w = LEngine(self.M).widen(self.wst(), v, v.ty[0] * 8, 64)
            if w is not None: return "i", w
        if isinstance(v, bool): return "i", int(v)
        return "i", v
    def withpos(self, E, h, c, phis, tys, inits):
        kinds = {}
        others = [i for i in range(len(phis)) if i != c]
        fr_ = [None] * len(phis); fr_[c] = self.posval(tys[c], c)
        for i in others:
            if isinstance(inits[i], LPtr): fr_[i] = LPtr(inits[i].o, sym("y%d" % i, ty=(8, True)))
            elif isinstance(inits[i], (int, T)) and tys[i].k == "int": fr_[i] = sym("y%d" % i, ty=u(tys[i].n)) if tys[i].n > 1 else sym("y%d" % i)
            else: fr_[i] = inits[i]
        rel = {i: {"rel", "sum", "same"} for i in others}
        for lane in range(256):
            self.lenient = True
            try: rs = self.iterate(E, h, fr_, lane, extra=[(mk_lt(P, LEN), True)])
            except Bad: continue
            finally: self.lenient = False
            for r in rs:
                if r.kind != "head": continue
                new = dict(zip(range(len(phis)), [v for _, v in r.val[3]]))
                dp = aff_diff(self.num(new[c])[1], P)
                if dp is None:
                    self.nonaffine(E, h, c, phis, tys, inits)
                    raise NotPos("position does not advance by a constant")
                for i in others:
                    a, o = self.num(new[i]), self.num(fr_[i])
                    if new[i] is not fr_[i] and not (isinstance(new[i], LPtr) and new[i] == fr_[i]): rel[i].discard("same")
                    dd = aff_diff(a[1], o[1]) if a[0] == o[0] and isinstance(a[1], (int, T)) else None
                    if dd is None or dd != dp: rel[i].discard("rel")
                    if dd is None or (dd + dp) % (1 << 64) != 0: rel[i].discard("sum")
        def value(i, st=None, cur=None):
            if cur is not None: return cur
            if "same" in rel[i]: return inits[i]
            if "rel" in rel[i]:
                if isinstance(inits[i], LPtr):
                    return LPtr(inits[i].o, aff_add(P, inits[i].off, (8, True)))
                return aff_add(P, inits[i], (8, True))
            if "sum" in rel[i]: return aff_add(inits[i], P, (8, True), -1)
            return None
        consts = [i for i in others if value(i) is None]
        for i in consts:
            if not isinstance(inits[i], (int, bool)): raise Und("loop variable %s" % phis[i][0]["d"])
        start = (tuple(int(inits[i]) for i in consts), 0)
        todo = [start]; seen = {start}; states = 0
        while todo:
            key = todo.pop(); states += 1
            if states > 3000: raise Und("too many control states")
            vals = [None] * len(phis); vals[c] = self.posval(tys[c], c)
            for i in others: vals[i] = key[0][consts.index(i)] if i in consts else value(i)
            for lane in range(256):
                try: rs = self.iterate(E, h, vals, lane)
                except Bad as e: raise type(e)("%s (byte 0x%02x at the current position, %s)" % (e, lane, self.dname(key[1])))
                for r in rs:
                    self.rep.count("iterations")
                    if r.kind == "head":
                        new = [v for _, v in r.val[3]]
                        dp = aff_diff(self.num(new[c])[1], P)
                        if Bounds(r.st.facts, self.maxlen, [(mk_lt(LEN, P), False)] if self.upto else ()).empty(): continue
                        if dp is None or dp < 0 or dp > 64: raise NotPos("position moves by %r" % (dp,))
                        if self.upto and E.dec(r.st, mk_lt(LEN, aff_add(P, dp, (8, True)))) is not False: raise NotPos("position may pass the end")
                        if E.dec(r.st, mk_lt(P, LEN)) is not True: raise Und("sweep continues past the end")
                        for i in others:
                            if i in consts: continue
                            w = value(i)
                            if "same" in rel[i]: continue
                            a, o = self.num(new[i]), self.num(w)
                            want = (o[1], dp) if "rel" in rel[i] else (o[1], -dp)
                            if a[0] != o[0] or aff_diff(a[1], o[1]) not in (want[1], want[1] % (1 << 64)): raise Und("loop variable relation")
                        nd = self.consume(E, r.st, key[1], lane, dp, False)
                        if nd is None: continue
                        kv = []
                        for i in consts:
                            v = new[i]
                            if isinstance(v, bool): v = int(v)
                            if not isinstance(v, int): raise Und("loop variable %s has value %r" % (phis[i][0]["d"], v))
                            kv.append(v)
                        k2 = (tuple(kv), nd)
                        if k2 not in seen: seen.add(k2); todo.append(k2)
                    elif r.kind == "ret":
                        if Bounds(r.st.facts, self.maxlen, [(mk_lt(LEN, P), False)] if self.upto else ()).empty(): continue
                        self.consume(E, r.st, key[1], lane, None, True)
                        self.finish(E, r.st)
                    elif r.kind in ("throw",): raise Bad("raises an exception in the sweep")
                    elif r.kind == "ub": raise Bad(str(r.val))
                    elif r.kind == "unreachable": pass
                    else: raise Und("%s %s" % (r.kind, r.val))
        self.rep.count("control_states", states)
        for k in range(states): self.rep.ok("control state %d of the sweep agrees with the instruction/data automaton for all 256 byte values" % k)
    def nonaffine(self, E, h, c, phis, tys, inits):
        """the position's next value is no constant distance away: evaluated for positions around the word sizes.
        A byte that is no PUSH must lead from every position to the next one with the other loop variables unchanged,
        so every position is reached in the initial control state; only then is the step of the other bytes judged."""
        others = [i for i in range(len(phis)) if i != c]; vals = [None] * len(phis); vals[c] = self.posval(tys[c], c); rel = {}
        for i in others: vals[i] = LPtr(inits[i].o, sym("y%d" % i, ty=(8, True))) if isinstance(inits[i], LPtr) else sym("y%d" % i, ty=u(tys[i].n)) if tys[i].k == "int" else inits[i]
        def vary(rs):
            for r in rs:
                if r.kind != "head": continue
                new = [v for _, v in r.val[3]]
                if aff_diff(self.num(new[c])[1], P) != 1: return False
                for i in others:
                    a, o = self.num(new[i]), self.num(vals[i])
                    dd = aff_diff(a[1], o[1]) if a[0] == o[0] and isinstance(a[1], (int, T)) else None
                    k = "same" if new[i] is vals[i] or dd == 0 else "rel" if dd == 1 else None
                    if k is None or rel.setdefault(i, k) != k: return False
            return True
        steady = vary(self.iterate(E, h, vals, 0, extra=[(mk_lt(P, LEN), True)]))
        if not steady and others: return
        for i in others:
            if rel.get(i, "same") == "same": vals[i] = inits[i]
            else: vals[i] = LPtr(inits[i].o, aff_add(P, inits[i].off, (8, True))) if isinstance(inits[i], LPtr) else aff_add(P, inits[i], (8, True))
        r0 = self.iterate(E, h, vals, 0); reach = None
        if not any(r.kind == "head" for r in r0): return
        if not steady:
            # the positions a code of zero bytes leads to, one by one
            p, n = 0, min(70000, self.maxlen - 100)
            while p < n:
                e = PV(p, n + 100); q = None
                try:
                    for r in r0:
                        if all(bool(e.b(a)) == bool(v) for a, v in r.st.facts.order):
                            if r.kind == "head": q = e.u(self.num(r.val[3][c][1])[1])
                            break
                except (ezev.Unk, ezev.Bad, KeyError, TypeError, AttributeError): return
                if q != p + 1: break
                p += 1
            reach = p
        ps = sorted({max(0, (1 << b) + d) for b in (4, 7, 8, 12, 15, 16, 20, 24, 30, 31) for d in list(range(-34, 3))} | set(range(0, 40)))
        for lane in list(range(0x60, 0x80)) + [0x5b, 0x01, 0x5f, 0x80, 0xff]:
            rs = self.iterate(E, h, vals, lane); k = lane - 0x5f if 0x60 <= lane <= 0x7f else 0
            for p in ps:
                if p + 100 > self.maxlen or reach is not None and p > reach: continue
                for r in rs:
                    if any("code" in repr(a) for a, _ in r.st.facts.order): continue
                    e = PV(p, p + 100)
                    try:
                        if not all(bool(e.b(a)) == bool(v) for a, v in r.st.facts.order): continue
                        if r.kind != "head": continue
                        new = [v for _, v in r.val[3]]; q = e.u(self.num(new[c])[1])
                        same = all(isinstance(new[i], LPtr) == isinstance(vals[i], LPtr) and (e.u(self.num(new[i])[1]) - e.u(self.num(vals[i])[1])) % (1 << 64) == (0 if rel.get(i, "same") == "same" else (q - p) % (1 << 64)) for i in others)
                    except (ezev.Unk, ezev.Bad, KeyError, TypeError, AttributeError): continue
                    if q == p + 1 + k or q >= p + 100: continue
                    if q > p + 1 + k: raise Bad("continues at position %d after byte 0x%02x at position %d, skipping instruction bytes" % (q, lane, p))
                    if same: raise Bad("continues at position %d after byte 0x%02x at position %d, %s" % (q, lane, p, "going back in the code" if q <= p else "taking immediate bytes for instructions"))
    def dname(self, d): return "%d immediate bytes left" % d if d else "at an instruction"
    def consume(self, E, st, d, lane, n, final):
        """feeds the bytes passed in this iteration to the automaton; returns the new number of immediate bytes left"""
        buf = self.buf(st)
        marks = {}
        for ev in st.events:
            if ev[0] != "mark": continue
            if buf is None or ev[1] != buf.o: continue
            k = aff_diff(ev[2], aff_add(P, buf.off, (8, True)))
            if k is None or k < 0 or k >= 1 << 63: 
                if isinstance(ev[3], (int, bool)) and not self.isdest(ev[3]): continue
                raise Und("mark at unknown position")
            marks[k] = ev[3]
        k = 0; 
        while True:
            if n is not None and k >= n: break
            inside = E.dec(st, mk_lt(aff_add(P, k, (8, True)) if k else P, LEN))
            if inside is False: 
                if n is None: return None
                k += 1
                # positions past the end do not matter any more
                d = 0; return None if self.pastend(E, st, n) else d
            if k > 40: raise Bad("stops before the end of the code (byte 0x%02x at the current position, %s)" % (lane, self.dname(d)))
            if d > 0: want = 0; d -= 1
            elif k == 0:
                want = 1 if lane == 0x5b else 0
                if 0x60 <= lane <= 0x7f: d = lane - 0x5f
            else:
                if n is None: raise Bad("stops before the end of the code (after byte 0x%02x)" % lane)
                raise Bad("skips an instruction byte without looking at it (after byte 0x%02x at the current position)" % lane)
            got = marks.get(k)
            if got is None:
                got = E.mload(self.clean(st, buf), LPtr(buf.o, aff_add(P, k, (8, True))), 1) if buf is not None else UNDEF
            if isinstance(got, bool): got = int(got)
            if not isinstance(got, int): raise Bad("position mark has no definite value (%r) for byte 0x%02x (%s)" % (got, lane, self.dname(d)))
            if self.isdest(got) != bool(want):
                raise Bad("a position is classified as %s jump destination although it %s (byte 0x%02x at the sweep position, offset %d)" % ("a valid" if self.isdest(got) else "no", "is one" if want else "is none", lane, k))
            k += 1
        if any(m >= n and self.isdest(v) for m, v in marks.items()): raise Und("marks ahead of the sweep")
        return d
    def pastend(self, E, st, n): 
        return E.dec(st, mk_lt(aff_add(P, n, (8, True)), LEN)) is False
    def isdest(self, v): return bool(v)
    def clean(self, st, buf):
        s = LState(); m = st.mem.get(buf.o) or {}
        s.mem[buf.o] = {k: v for k, v in m.items() if k == "default"}
        s.facts = st.facts; s.tags = st.tags
        return s
