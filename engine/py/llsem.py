"""Abstract interpreter for LLVM IR over the domain of absdom: a powerset of states, each mapping
object/offset pairs to terms and carrying branch facts. Integers are unsigned terms."""
from absdom import *
from llir import *

class LPtr:
    __slots__ = ("o", "off", "_h")
    def __init__(self, o, off=0): self.o, self.off = o, off; self._h = hash((o, off))
    def __hash__(self): return self._h
    def __eq__(self, x): return isinstance(x, LPtr) and x.o == self.o and (x.off is self.off or x.off == self.off)
    def __repr__(self): return "&%s+%s" % (self.o, self.off)
class Seg(tuple):
    """aggregate ssa value"""
    pass
class Und(Exception): pass

UNDEF = T("undef")
def u(n): return (max(1, (n + 7) // 8) if n > 1 else 1, True)

class LFrame:
    __slots__ = ("fn", "b", "ip", "prev", "regs", "dst", "ok", "bad", "visits")
    def __init__(self, fn): self.fn = fn; self.b = fn.entry; self.ip = 0; self.prev = None; self.regs = {}; self.dst = None; self.ok = None; self.bad = None; self.visits = {}
    def copy(self):
        f = LFrame.__new__(LFrame)
        f.fn, f.b, f.ip, f.prev, f.dst, f.ok, f.bad = self.fn, self.b, self.ip, self.prev, self.dst, self.ok, self.bad
        f.regs = dict(self.regs); f.visits = dict(self.visits); return f
class LState:
    def __init__(self): self.frames = []; self.mem = {}; self.facts = Facts(); self.events = []; self.tags = {}; self.n = 0; self.nfork = 0
    def copy(self):
        s = LState.__new__(LState)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.facts = self.facts.copy(); s.events = list(self.events)
        s.tags = dict(self.tags); s.n = self.n; s.nfork = self.nfork; return s
class LResult:
    def __init__(self, kind, val, st): self.kind, self.val, self.st = kind, val, st
    def __repr__(self): return "<%s %r ev=%r facts=%r>" % (self.kind, self.val, self.st.events, self.st.facts.order)

class LEngine:
    """hooks (all optional): ext(name) table; on_access(st,fr,ins,ptr,size,isstore,val); on_header(st,fr,blk,prev)"""
    def __init__(self, M, max_steps=2000000, max_paths=5000, max_depth=60):
        self.M = M; self.max_steps = max_steps; self.max_paths = max_paths; self.max_depth = max_depth
        self.steps = 0; self.ext = {}; self.on_access = None; self.on_header = None; self.ext_default = None; self.on_leaf = None
        self.on_deref = None; self.known2 = None
        self.symvisits = 40; self.exceptions = False
        self.visited = set(); self.ptrcmp = None
    # ---- memory
    def leaf(self, st, o, off, size, ty):
        if self.on_leaf:
            r = self.on_leaf(st, o, off, size, ty)
            if r is not None: return r
        if isinstance(o, tuple) and o and o[0] == "g":
            g = self.M.globals.get(o[1])
            if g and g["const"] and g["init"] is not None and isinstance(off, int):
                b = self.gbytes(g, off, size)
                if b is not None: return b
        if isinstance(o, tuple) and o and o[0] in ("alloca",): return UNDEF
        if isinstance(o, tuple) and o and o[0] == "zero": return 0
        return T("mem", o, off, size, ty=(size, True))
    def ginit(self, g):
        """flattened initialiser: dict off->(size,val)"""
        if "_flat" not in g:
            m = {}
            self.flat(g["ty"], g["init"], 0, m); g["_flat"] = m; g["_size"] = self.M.size(g["ty"])
        return g["_flat"]
    def flat(self, ty, c, off, m):
        M = self.M; ty = M.res(ty)
        if c[0] == "zero" or c[0] == "undef": return
        if c[0] == "str":
            for i, b in enumerate(c[1]): m[off + i] = (1, b)
        elif c[0] == "agg":
            for i, (ety, e) in enumerate(c[1]):
                o = off + (M.fieldoff(ty, i) if ty.k == "struct" else i * M.size(ety))
                self.flat(ety, e, o, m)
        else: m[off] = (M.size(ty), self.const(c, ty))
    def gbytes(self, g, off, size):
        m = self.ginit(g)
        if off in m and m[off][0] == size: return m[off][1]
        if off + size > g["_size"]: return None
        r = 0
        for k in range(size):
            v = 0
            for o in (off + k,):
                hit = False
                for q in range(max(0, o - 15), o + 1):
                    if q in m and q + m[q][0] > o:
                        if not isinstance(m[q][1], int): return None
                        v = (m[q][1] >> (8 * (o - q))) & 255
            r |= v << (8 * k)
        return r
    def mload(self, st, p, size, ty=None):
        m = st.mem.get(p.o)
        off = p.off
        if m:
            if off in m and m[off][0] == size: return m[off][1]
            syms = [k for k in m if isinstance(k, T)]
            if isinstance(off, int) and not syms:
                # overlap handling
                hits = [k for k in m if isinstance(k, int) and k < off + size and off < k + m[k][0]]
                if not hits:
                    return m["default"](off, size) if "default" in m else self.leaf(st, p.o, off, size, ty)
                return self.cat([self.mbyte(st, p.o, m, off + k) for k in range(size)], ty)
            if syms or (isinstance(off, T) and any(k != "default" for k in m)):
                # try to prove no overlap
                for k, (s, v) in [(k, m[k]) for k in m if k != "default"]:
                    d = aff_diff(off, k) if isinstance(off, (int, T)) and isinstance(k, (int, T)) else None
                    if d is not None and (d >= s or d <= -size): continue
                    if d is None and self.apart(st, off, size, k, s): continue
                    return fresh("aliased", ty=(size, True))
            if "default" in m: return m["default"](off, size)
        return self.leaf(st, p.o, off, size, ty)
    def apart(self, st, a, na, b, nb):
        """[a,a+na) and [b,b+nb) are disjoint for every value the facts allow (offsets modulo 2^64)"""
        d = aff_add(a, b, (8, True), -1)
        if isinstance(d, int): lo = hi = d
        else:
            c, ts = aff_parts(d); lo = hi = c
            for t, k in ts.items():
                l, h = st.facts.interval(t)
                if l is None or h is None: return False
                if h < 1 << 31:
                    l2, h2 = st.facts.interval(T("trunc", t, ty=(4, True)))
                    l, h = max(l, l2), min(h, h2)
                lo += k * (l if k > 0 else h); hi += k * (h if k > 0 else l)
        w = hi - lo; lo &= (1 << 64) - 1
        return w < 1 << 63 and lo >= nb and lo + w <= (1 << 64) - na
    def mbyte(self, st, o, m, off):
        for k in m:
            if isinstance(k, int) and k <= off < k + m[k][0]:
                s, v = m[k]
                j = off - k
                if isinstance(v, int): return (v >> (8 * j)) & 255
                if s == 1: return v
                return T("byte", v, j, ty=(1, True))
        if "default" in m: return m["default"](off, 1)
        return self.leaf(st, o, off, 1, None)
    def cat(self, bs, ty):
        if all(isinstance(b, int) for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
        if all(isinstance(b, T) and b.op == "byte" and b.args[0] is bs[0].args[0] and b.args[1] == i for i, b in enumerate(bs)):
            v = bs[0].args[0]
            if isinstance(v, T) and v.ty and v.ty[0] == len(bs): return v
            return T("low", v, len(bs), ty=(len(bs), True))
        if any(b is UNDEF for b in bs) : return UNDEF
        return T("cat", *bs, ty=(len(bs), True))
    def mstore(self, st, p, size, v):
        m = dict(st.mem.get(p.o) or {})
        off = p.off
        for k in list(m):
            if k == "default": continue
            s, old = m[k]
            if isinstance(k, int) and isinstance(off, int):
                if k < off + size and off < k + s:
                    del m[k]
                    for b in range(k, k + s):
                        if not (off <= b < off + size):
                            m[b] = (1, ((old >> (8 * (b - k))) & 255) if isinstance(old, int) else (T("byte", old, b - k, ty=(1, True)) if isinstance(old, T) else UNDEF))
            else:
                d = aff_diff(k, off)
                if k == off: del m[k]
                elif d is None and self.apart(st, k, s, off, size): pass
                elif d is None or -s < d < size: m[k] = (s, fresh("aliased", ty=(s, True)))
        m[off] = (size, v)
        st.mem[p.o] = m
    def mcopy(self, st, d, s, n):
        if not isinstance(n, int) or not isinstance(d.off, int) or not isinstance(s.off, int):
            st.mem[d.o] = {"default": lambda off, size: fresh("copied", ty=(size, True))}; return
        m = st.mem.get(s.o) or {}
        items = []; covered = set()
        for k in m:
            if isinstance(k, int) and s.off <= k and k + m[k][0] <= s.off + n:
                items.append((k - s.off, m[k][0], m[k][1])); covered.update(range(k, k + m[k][0]))
        b = s.off
        while b < s.off + n:
            if b in covered: b += 1; continue
            # copy whole 8 byte leaves where possible
            if b % 8 == 0 and b + 8 <= s.off + n and not any(x in covered for x in range(b, b + 8)) and not any(isinstance(k, int) and k < b + 8 and b < k + m[k][0] for k in m if k != "default"):
                items.append((b - s.off, 8, self.mload(st, LPtr(s.o, b), 8))); b += 8; continue
            items.append((b - s.off, 1, self.mload(st, LPtr(s.o, b), 1))); b += 1
        for o, sz, v in items: self.mstore(st, LPtr(d.o, d.off + o), sz, v)
    def mset(self, st, d, v, n):
        if isinstance(n, int) and isinstance(d.off, int) and n <= 256:
            b = 0
            while b < n:
                if n - b >= 8 and isinstance(v, int): self.mstore(st, LPtr(d.o, d.off + b), 8, int.from_bytes(bytes([v & 255]) * 8, "little")); b += 8
                else: self.mstore(st, LPtr(d.o, d.off + b), 1, v); b += 1
            return
        # whole-object fill
        vv = v & 255 if isinstance(v, int) else v
        def dflt(off, size, vv=vv): return int.from_bytes(bytes([vv]) * size, "little") if isinstance(vv, int) else T("fill", vv, size, ty=(size, True))
        old = st.mem.get(d.o) or {}
        if d.off == 0 and not any(isinstance(k, T) for k in old):
            keep = {k: x for k, x in old.items() if isinstance(n, int) and isinstance(k, int) and k >= n}
            st.mem[d.o] = dict(keep, default=dflt)
        elif isinstance(n, int) and isinstance(d.off, int):
            m = {k: x for k, x in old.items() if k != "default" and not (isinstance(k, int) and d.off <= k < d.off + n)}
            od = old.get("default"); lo, hi = d.off, d.off + n
            eng = self
            def dd(off, size):
                if isinstance(off, int) and lo <= off and off + size <= hi: return dflt(off, size)
                if od: return od(off, size)
                return T("mem", d.o, off, size, ty=(size, True))
            m["default"] = dd; st.mem[d.o] = m
        else:
            sz = st.tags.get("size", {}).get(d.o)
            if sz is not None and isinstance(d.off, int) and isinstance(n, (int, T)) and isinstance(vv, int) and aff_diff(aff_add(n, d.off, (8, True)), sz) == 0 \
               and all(k in old and old[k] == (1, vv) for k in range(d.off)) and not any(isinstance(k, T) for k in old):
                st.mem[d.o] = {"default": dflt}; return   # the rest of the object, whose start already holds the value
            st.mem[d.o] = {"default": lambda off, size: fresh("filled", ty=(size, True))}

    # ---- values
    def const(self, c, ty):
        k = c[0]
        if k == "c": return c[1]
        if k == "g":
            n = self.M.aliases.get(c[1], c[1])
            return LPtr(("f", n), 0) if n in self.M.funcs or n in self.M.decls else LPtr(("g", n), 0)
        if k in ("zero",):
            t = self.M.res(ty)
            if t.k in ("int", "ptr"): return 0
            if t.k == "struct": return Seg(self.const(c, e) for e in t.e)
            if t.k in ("array", "vec"): return Seg([self.const(c, t.e)] * t.n)
            return T("fltconst", "0")
        if k == "undef":
            t = self.M.res(ty)
            if t.k == "struct": return Seg(UNDEF for e in t.e)
            return UNDEF
        if k == "agg": return Seg(self.const(e, et) for et, e in c[1])
        if k == "flt": return T("fltconst", c[1])
        if k == "ba": return LPtr(("ba", c[1], c[2]), 0)
        if k == "str": return Seg(c[1])
        if k == "asm": return T("asm", c[1])
        if k == "expr":
            _, op, bty, args = c
            if op == "getelementptr":
                p = self.const(args[0][1], PTR)
                return self.gep(bty, p, [(t, self.const(a, t)) for t, a in args[1:]])
            if op in ("bitcast", "ptrtoint", "inttoptr"): return self.const(args[0][1], args[0][0])
            return T("cexpr", op, *[repr(self.const(a, t)) for t, a in args if a is not None])
        raise Und("const " + repr(c))
    def val(self, fr, c, ty=None):
        if c[0] == "r":
            if c[1] not in fr.regs: raise Und("undefined %" + c[1] + " in " + fr.fn.name)
            return fr.regs[c[1]]
        return self.const(c, ty)
    def gep(self, bty, p, idx):
        M = self.M; off = 0; ty = bty
        for n, (ity_, i) in enumerate(idx):
            if n == 0: sz = M.size(ty); 
            else:
                r = M.res(ty)
                if r.k == "struct":
                    off = aff_add(off, M.fieldoff(r, i), (8, True)); ty = r.e[i]; continue
                ty = r.e; sz = M.size(ty)
            if isinstance(i, int):
                w = ity_.n
                if i >> (w - 1): i -= 1 << w
                off = aff_add(off, i * sz, (8, True)) if not isinstance(off, int) else off + i * sz
            elif isinstance(i, T):
                off = aff_add(off, aff_mulc(i, sz, (8, True)), (8, True))
            else: raise Und("gep index %r" % (i,))
        if isinstance(p, LPtr):
            if isinstance(p.off, int) and isinstance(off, int): return LPtr(p.o, p.off + off)
            o = aff_add(p.off, off, (8, True))
            if isinstance(o, T) and o.op == "aff" and o.args[0] >> 63: pass
            return LPtr(p.o, o)
        if isinstance(p, int): 
            if isinstance(off, int): return (p + off) & ((1 << 64) - 1)
            return LPtr("null", off)
        if p is UNDEF: return UNDEF
        if isinstance(p, T): return LPtr(("d", p), off)
        raise Und("gep on %r" % (p,))
    def toptr(self, v):
        if isinstance(v, LPtr): return v
        if isinstance(v, T) and v is not UNDEF: return LPtr(("d", v), 0)
        return None

    # ---- running
    def run(self, name, args, st=None):
        fn = self.M.funcs[self.M.aliases.get(name, name)]
        st = st.copy() if st else LState(); st.frames = []
        self.push(st, fn, args, None)
        return self.loop([st])
    def push(self, st, fn, args, dst, ok=None, bad=None):
        f = LFrame(fn); f.dst, f.ok, f.bad = dst, ok, bad
        for (n, ty, _), a in zip(fn.params, args): f.regs[n] = a
        st.frames.append(f); self.visited.add(fn.name); return f
    def loop(self, work):
        out = []
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps: raise Und("step budget")
                r = self.step(st, work)
                if r == "cont": continue
                if r == "drop": break
                out.append(r)
                if len(out) > self.max_paths: raise Und("path budget")
                break
        return out
    def goto(self, st, fr, b):
        fr.prev = fr.b; fr.b = b; fr.ip = 0
        if b in fr.fn.headers():
            fr.visits[b] = fr.visits.get(b, 0) + 1
            if fr.visits[b] > 200000: raise Und("loop budget")
        return None
    def doret(self, st, v, work):
        f = st.frames.pop()
        if not st.frames: return LResult("ret", v, st)
        c = st.frames[-1]
        if f.dst is not None: c.regs[f.dst] = v
        if f.ok: self.goto(st, c, f.ok)
        return "cont"
    def throw(self, st, exc, bad, work):
        """exception out of a call in the top frame; bad = unwind label in that frame or None"""
        while True:
            fr = st.frames[-1]
            if bad:
                st.tags["exc"] = exc; self.goto(st, fr, bad); return "cont"
            f = st.frames.pop(); bad = f.bad
            if not st.frames: return LResult("throw", exc, st)
    def fork(self, st, cond, work, fT, fF):
        if isinstance(cond, int): (fT if cond else fF)(st); return "cont"
        if cond is UNDEF: raise Und("branch on undef")
        k = st.facts.known(cond)
        if k is None and self.known2: k = self.known2(st, cond)
        if k is not None: (fT if k else fF)(st); return "cont"
        s2 = st.copy(); st.nfork += 1; s2.nfork += 1
        if s2.facts.assume(cond, False): fF(s2); work.append(s2)
        if st.facts.assume(cond, True): fT(st); return "cont"
        return "drop"
    def step(self, st, work):
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.b]
        if fr.ip == 0:
            phis = []; i = 0
            while i < len(blk) and blk[i]["op"] == "phi":
                ins = blk[i]
                v = None
                for lb, c in ins["in"]:
                    if lb == fr.prev: v = self.val(fr, c, ins["ty"]); break
                else: raise Und("phi")
                phis.append((ins, v)); i += 1
            if self.on_header and fr.b in fr.fn.headers():
                r = self.on_header(self, st, fr, phis, work)
                if r is not None:
                    if r == "drop" or isinstance(r, LResult): return r
                    phis = r
            for ins, v in phis: fr.regs[ins["d"]] = v
            fr.ip = i
        ins = blk[fr.ip]; fr.ip += 1
        return self.ins(st, fr, ins, work)

    def cmp(self, st, p, a, b, ty):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        n = ty.n if ty.k == "int" else 64
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, LPtr) or isinstance(b, LPtr):
            r = self.cmpptr(st, p, a, b)
            if r is not None: return r
            return T("pcmp", p, T("w", repr(a)), T("w", repr(b)))
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                sg = lambda x: x - (1 << n) if x >> (n - 1) else x
                a, b = sg(a), sg(b)
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]
        if n == 1:
            # boolean terms
            if p in ("eq", "ne"):
                r = None
                if isinstance(a, int): r = b if a else mk_not(b)
                elif isinstance(b, int): r = a if b else mk_not(a)
                elif a is b: r = True
                else: r = T("iff", a, b)
                return r if p == "eq" else mk_not(r)
        if p in ("eq", "ne"):
            r = mk_eq(a, b)
            r = self.dec(st, r)
            return r if p == "eq" else mk_not(r)
        signed = p[0] == "s"; op = p[1:]
        if signed:
            half = 1 << (n - 1)
            al, ah = st.facts.interval(a); bl, bh = st.facts.interval(b)
            if ah is not None and bh is not None and ah < half and bh < half: pass
            else:
                if isinstance(b, int) and b == 0 and op == "lt": return T("sneg", a)
                if isinstance(b, int) and b == (1 << n) - 1 and op == "gt": return mk_not(T("sneg", a))
                x, y = (a, b) if op in ("lt", "ge") else (b, a)
                r = T("slt", x, y)
                return r if op in ("lt", "gt") else mk_not(r)
        if op == "lt": return self.dec(st, mk_lt(a, b))
        if op == "gt": return self.dec(st, mk_lt(b, a))
        if op == "le": return mk_not(self.dec(st, mk_lt(b, a)))
        return mk_not(self.dec(st, mk_lt(a, b)))
    def dec(self, st, c):
        if isinstance(c, T):
            k = st.facts.known(c)
            if k is None and self.known2: k = self.known2(st, c)
            if k is not None: return k
        return c
    def cmpptr(self, st, p, a, b):
        if self.ptrcmp:
            r = self.ptrcmp(st, p, a, b)
            if r is not None: return r
        if isinstance(a, LPtr) and isinstance(b, LPtr):
            if a.o == b.o:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    return {"eq": a.off == b.off, "ne": a.off != b.off, "ult": a.off < b.off, "ule": a.off <= b.off, "ugt": a.off > b.off, "uge": a.off >= b.off}.get(p)
                return self.cmp(st, p, a.off, b.off, ity(64))
            if p == "eq": return False if self.distinct(a.o, b.o) else None
            if p == "ne": return True if self.distinct(a.o, b.o) else None
            return None
        x, y = (a, b) if isinstance(a, LPtr) else (b, a)
        if y == 0:
            if x.o == "null": return None
            if isinstance(x.o, tuple) and x.o[0] == "d": return None
            return {"eq": False, "ne": True, "ugt": isinstance(a, LPtr), "ult": not isinstance(a, LPtr)}.get(p)
        return None
    def distinct(self, a, b):
        k = lambda o: isinstance(o, tuple) and o[0] in ("alloca", "heap", "g", "f", "arg", "this", "node", "pair", "zero")
        return k(a) and k(b) and a != b
    def arith(self, st, op, a, b, n, flags=()):
        ty = u(n); full = (1 << n) - 1
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0): return 0
            return UNDEF
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, LPtr) or isinstance(b, LPtr):
            if op == "sub" and isinstance(a, LPtr) and isinstance(b, LPtr) and a.o == b.o: 
                return (a.off - b.off) & full if isinstance(a.off, int) and isinstance(b.off, int) else aff_add(a.off, b.off, (8, True), -1)
            if op in ("add", "sub"):
                if isinstance(a, LPtr) and isinstance(b, (int, T)):
                    if isinstance(b, int) and b >> 63: b -= 1 << 64
                    o = (a.off + b if op == "add" else a.off - b) if isinstance(a.off, int) and isinstance(b, int) else aff_add(a.off, b, (8, True), 1 if op == "add" else -1)
                    return LPtr(a.o, o)
                if isinstance(b, LPtr) and op == "add" and isinstance(a, (int, T)): return self.arith(st, op, b, a, n)
            return T("parith", op, T("w", repr(a)), T("w", repr(b)), ty=ty)
        if n == 1:
            if isinstance(a, int) and not isinstance(b, int): a, b = b, a
            if isinstance(b, int):
                if op == "and": return a if b else False
                if op == "or": return True if b else a
                if op in ("xor", "add", "sub"): return (mk_not(a) if not isinstance(a, int) else 1 - a) if b else a
            if isinstance(a, int) and isinstance(b, int): pass
            else:
                if op in ("and", "or"):
                    if a is b: return a
                    return T(op, *sorted((a, b), key=lambda t: t.id))
                if op == "xor": return T("xor1", a, b)
        if isinstance(a, int) and isinstance(b, int):
            sg = lambda x: x - (1 << n) if x >> (n - 1) else x
            if op == "add": r = a + b
            elif op == "sub": r = a - b
            elif op == "mul": r = a * b
            elif op == "udiv": r = a // b if b else 0
            elif op == "urem": r = a % b if b else 0
            elif op == "sdiv": x, y = sg(a), sg(b); r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else 0
            elif op == "srem": x, y = sg(a), sg(b); r = (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else 0
            elif op == "shl": r = a << b if b < n else 0
            elif op == "lshr": r = a >> b if b < n else 0
            elif op == "ashr": r = sg(a) >> min(b, n - 1)
            elif op == "and": r = a & b
            elif op == "or": r = a | b
            elif op == "xor": r = a ^ b
            else: raise Und(op)
            return r & full
        if op == "add": return aff_add(a, b, ty)
        if op == "sub": return aff_add(a, b, ty, -1)
        if op == "mul":
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return aff_mulc(a, b, ty)
            if a.id > b.id: a, b = b, a
            return T("mul", a, b, ty=ty)
        if op == "shl" and isinstance(b, int) and n in (8, 16, 32, 64):
            if b == 0: return a
            return T("shl", a, b, ty=ty)
        if op in ("sdiv", "udiv") and isinstance(b, int) and isinstance(a, T) and a.op == "aff":
            c, items = a.args
            sc = c
            if all(k % b == 0 for _, k in items) and sc % b == 0 and ("exact" in flags):
                return aff_make(sc // b, {t: k // b for t, k in items}, ty)
        if op in ("and", "or", "xor"):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == "and" and b == 0: return 0
                if op == "and" and b == full: return a
                if op in ("or", "xor") and b == 0: return a
                if op == "or" and b == full: return full
            else:
                if a is b: return 0 if op == "xor" else a
                if a.id > b.id: a, b = b, a
        if op in ("lshr", "ashr", "shl") and b == 0: return a
        r = T(op, a, b, ty=ty)
        lo, hi = st.facts.interval(a)
        if op == "and" and isinstance(b, int): st.facts._narrow(r, 0, b)
        elif op == "lshr" and isinstance(b, int) and hi is not None: st.facts._narrow(r, 0, hi >> b)
        elif op == "urem" and isinstance(b, int) and b: st.facts._narrow(r, 0, b - 1)
        elif op == "udiv" and isinstance(b, int) and b and hi is not None: st.facts._narrow(r, 0, hi // b)
        return r
    def cast(self, st, op, a, fty, ty):
        if a is UNDEF: return UNDEF
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"): return a
        if op in ("fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc"): return T("fc", op, a, ty=u(ty.n) if ty.k == "int" else None)
        if ty.k != "int" or fty.k != "int": return T("vc", op, a)
        if isinstance(a, bool): a = int(a)
        if isinstance(a, int):
            if op == "trunc": return a & ((1 << ty.n) - 1)
            if op == "sext" and a >> (fty.n - 1): return (a - (1 << fty.n)) & ((1 << ty.n) - 1)
            return a
        if isinstance(a, LPtr): return T("pcast", T("w", repr(a)), ty=u(ty.n))
        if fty.n == 1:
            k = st.facts.known(a)
            if k is not None: return (1 if op == "zext" else (1 << ty.n) - 1) if k else 0
            r = T("b2i", a, op == "sext", ty=u(ty.n)); st.facts._narrow(r, 0, 1 if op == "zext" else (1 << ty.n) - 1); return r
        if ty.n == 1:
            if isinstance(a, T) and a.op == "b2i": return a.args[0]
            lo, hi = st.facts.interval(a)
            if hi is not None and hi <= 1: return mk_not(mk_eq(a, 0))
            return mk_not(mk_eq(T("and", a, 1, ty=a.ty), 0))
        if op == "sext":
            w = self.widen(st, a, fty.n - 1, ty.n)
            if w is not None: return w
        lo, hi = st.facts.interval(a)
        if op == "zext" or (op == "sext" and hi is not None and hi < 1 << (fty.n - 1)):
            w = self.widen(st, a, fty.n, ty.n)
            if w is not None: return w
            if isinstance(a, T) and a.op == "b2i" and not a.args[1]: return self.cast(st, "zext", a.args[0], ity(1), ty)
            r = T("zext", a, ty=u(ty.n))
            if hi is not None: st.facts._narrow(r, lo or 0, hi)
            return r
        if op == "trunc":
            if isinstance(a, T) and a.op == "zext":
                b = a.args[0]
                if b.ty == u(ty.n): return b
                if b.ty and b.ty[0] * 8 > ty.n: return self.cast(st, "trunc", b, ity(b.ty[0] * 8), ty)
                if b.ty and b.ty[0] * 8 < ty.n: return T("zext", b, ty=u(ty.n))
            r = T("trunc", a, ty=u(ty.n))
            if hi is not None and hi < 1 << ty.n: st.facts._narrow(r, lo, hi)
            return r
        return T("sext", a, ty=u(ty.n))

    def widen(self, st, a, n, m):
        """zero extension of a term whose value is known not to wrap"""
        if isinstance(a, T) and a.op == "trunc" and a.args[0].ty == u(m):
            lo, hi = st.facts.interval(a.args[0])
            if hi is not None and lo >= 0 and hi < 1 << n: return a.args[0]
        if isinstance(a, T) and a.op == "aff" and a.args[0] < 1 << (n - 1) and all(0 < k < 1 << 16 for _, k in a.args[1]):
            hi = a.args[0]; parts = []
            for t, k in a.args[1]:
                h = st.facts.interval(t)[1]
                w = self.widen(st, t, n, m)
                if w is None: w = T("zext", t, ty=u(m))
                elif st.facts.interval(w)[1] is not None: h = min(h, st.facts.interval(w)[1]) if h is not None else st.facts.interval(w)[1]
                if h is None: return None
                hi += k * h; parts.append((w, k))
            if hi < 1 << n:
                r = a.args[0]
                for w, k in parts: r = aff_add(r, aff_mulc(w, k, u(m)), u(m))
                return r
        return None
    def access(self, st, fr, ins, p, size, isst, v=None):
        if self.on_access: self.on_access(self, st, fr, ins, p, size, isst, v)
    def ins(self, st, fr, x, work):
        op = x["op"]; R = fr.regs; M = self.M; V = self.val
        if op in BIN:
            if op[0] == "f": R[x["d"]] = T(op, V(fr, x["a"], x["ty"]), V(fr, x["b"], x["ty"])); return "cont"
            if x["ty"].k != "int": raise Und("vector arithmetic")
            R[x["d"]] = self.arith(st, op, V(fr, x["a"], x["ty"]), V(fr, x["b"], x["ty"]), x["ty"].n, x["flags"]); return "cont"
        if op == "icmp":
            R[x["d"]] = self.cmp(st, x["p"], V(fr, x["a"], x["ty"]), V(fr, x["b"], x["ty"]), x["ty"]); return "cont"
        if op == "fcmp": R[x["d"]] = T("fcmp", x["p"], V(fr, x["a"], x["ty"]), V(fr, x["b"], x["ty"])); return "cont"
        if op in CAST:
            R[x["d"]] = self.cast(st, op, V(fr, x["a"], x["fty"]), x["fty"], x["ty"]); return "cont"
        if op == "alloca":
            st.n += 1; R[x["d"]] = LPtr(("alloca", fr.fn.name + "%" + x["d"], st.n), 0); return "cont"
        if op in ("load", "store", "atomicrmw", "cmpxchg"):
            pv = V(fr, x["p"], PTR); p = self.toptr(pv)
            if p is None or p.o == "null":
                st.tags["badptr"] = (x["text"], fr.fn.name); return LResult("ub", "null or undefined pointer dereference: " + x["text"], st)
            ty = M.res(x["ty"]); size = M.size(ty)
            if self.on_deref:
                r = self.on_deref(self, st, fr, x, p, size, work)
                if r is not None: return r
            if op == "load":
                self.access(st, fr, x, p, size, False)
                if ty.k in ("struct", "array"): R[x["d"]] = self.loadagg(st, p, ty)
                else:
                    v = self.mload(st, p, size, ty)
                    if ty.k == "int" and ty.n == 1 and isinstance(v, T) and v is not UNDEF and v.ty: v = mk_not(mk_eq(v, 0))
                    R[x["d"]] = v
                return "cont"
            if op == "store":
                v = V(fr, x["v"], ty)
                self.access(st, fr, x, p, size, True, v)
                if isinstance(v, Seg): self.storeagg(st, p, ty, v)
                else: self.mstore(st, p, size, int(v) if isinstance(v, bool) else v)
                return "cont"
            self.access(st, fr, x, p, size, True)
            old = self.mload(st, p, size, ty)
            if op == "atomicrmw":
                v = V(fr, x["v"], ty)
                nv = {"xchg": lambda: v, "add": lambda: self.arith(st, "add", old, v, size * 8), "sub": lambda: self.arith(st, "sub", old, v, size * 8)}.get(x["o"], lambda: fresh("rmw", ty=(size, True)))()
                self.mstore(st, p, size, nv); R[x["d"]] = old
            else:
                self.mstore(st, p, size, fresh("cas", ty=(size, True))); R[x["d"]] = Seg([old, fresh("casok")])
            return "cont"
        if op == "getelementptr":
            R[x["d"]] = self.gep(x["bty"], V(fr, x["p"], PTR), [(t, V(fr, c, t)) for t, c in x["idx"]]); return "cont"
        if op == "select":
            c = V(fr, x["c"], ity(1)); a, b = V(fr, x["a"], x["ty"]), V(fr, x["b"], x["ty"])
            if isinstance(c, int): R[x["d"]] = a if c else b; return "cont"
            if (isinstance(a, int) and isinstance(b, int) and a == b) or a is b: R[x["d"]] = a; return "cont"
            if x["ty"].k == "int" and x["ty"].n == 1:
                if isinstance(b, int) and not b: R[x["d"]] = self.arith(st, "and", c, a, 1); return "cont"
                if isinstance(a, int) and a: R[x["d"]] = self.arith(st, "or", c, b, 1); return "cont"
            if c is UNDEF: R[x["d"]] = UNDEF; return "cont"
            d = x["d"]
            def s1(s): s.frames[-1].regs[d] = a
            def s2(s): s.frames[-1].regs[d] = b
            return self.fork(st, c, work, s1, s2)
        if op == "br":
            if "c" not in x: self.goto(st, fr, x["t"]); return "cont"
            c = V(fr, x["c"], ity(1))
            return self.fork(st, c, work, lambda s: self.goto(s, s.frames[-1], x["t"]), lambda s: self.goto(s, s.frames[-1], x["f"]))
        if op == "switch":
            v = V(fr, x["v"], x["ty"])
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                self.goto(st, fr, dict(x["cases"]).get(v, x["dflt"])); return "cont"
            if v is UNDEF: raise Und("switch on undef")
            for c, lb in x["cases"]:
                at = mk_eq(v, c) if not (x["ty"].n == 1) else (v if c else mk_not(v))
                k = self.dec(st, at)
                if k is False: continue
                if k is True: self.goto(st, fr, lb); return "cont"
                s2 = st.copy(); s2.nfork += 1
                if s2.facts.assume(at, True): self.goto(s2, s2.frames[-1], lb); work.append(s2)
                st.nfork += 1
                if not st.facts.assume(at, False): return "drop"
            self.goto(st, fr, x["dflt"]); return "cont"
        if op == "indirectbr":
            p = V(fr, x["p"], PTR)
            if isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "ba" and p.o[1] == fr.fn.name: self.goto(st, fr, p.o[2]); return "cont"
            raise Und("indirect branch to %r" % (p,))
        if op == "ret":
            return self.doret(st, V(fr, x["v"][1], x["v"][0]) if "v" in x else None, work)
        if op in ("call", "invoke"):
            return self.call(st, fr, x, work)
        if op == "extractvalue":
            v = V(fr, x["a"], x["aty"])
            for i in x["idx"]: v = v[i] if isinstance(v, Seg) else T("ext", v, i)
            R[x["d"]] = v; return "cont"
        if op == "insertvalue":
            v = V(fr, x["a"], x["aty"]); w = V(fr, x["v"], x["vty"])
            def ins(agg, ty, idx):
                ty = M.res(ty)
                l = list(agg) if isinstance(agg, Seg) else [UNDEF] * ty.n
                if len(idx) == 1: l[idx[0]] = w
                else: l[idx[0]] = ins(l[idx[0]], ty.e[idx[0]] if ty.k == "struct" else ty.e, idx[1:])
                return Seg(l)
            R[x["d"]] = ins(v, x["aty"], x["idx"]); return "cont"
        if op == "freeze":
            R[x["d"]] = V(fr, x["a"], x["ty"]); return "cont"
        if op == "unreachable":
            return LResult("unreachable", None, st)
        if op == "landingpad":
            R[x["d"]] = Seg([st.tags.get("exc", T("exc")), T("sel")]); 
            return "cont"
        if op == "resume":
            return self.throw(st, st.tags.get("exc"), None, work) if False else self.unwind(st, work)
        if op == "fence": return "cont"
        raise Und("instruction " + x.get("text", op))
    def unwind(self, st, work):
        f = st.frames.pop()
        if not st.frames: return LResult("throw", st.tags.get("exc"), st)
        return self.throw(st, st.tags.get("exc"), f.bad, work)
    def loadagg(self, st, p, ty):
        M = self.M; ty = M.res(ty)
        out = []
        for i in range(ty.n):
            e = ty.e[i] if ty.k == "struct" else ty.e
            o = M.fieldoff(ty, i) if ty.k == "struct" else i * M.size(e)
            q = LPtr(p.o, aff_add(p.off, o, (8, True)) if not isinstance(p.off, int) else p.off + o)
            out.append(self.loadagg(st, q, e) if M.res(e).k in ("struct", "array") else self.mload(st, q, M.size(e), M.res(e)))
        return Seg(out)
    def storeagg(self, st, p, ty, v):
        M = self.M; ty = M.res(ty)
        for i in range(ty.n):
            e = ty.e[i] if ty.k == "struct" else ty.e
            o = M.fieldoff(ty, i) if ty.k == "struct" else i * M.size(e)
            q = LPtr(p.o, aff_add(p.off, o, (8, True)) if not isinstance(p.off, int) else p.off + o)
            if isinstance(v[i], Seg): self.storeagg(st, q, e, v[i])
            else: self.mstore(st, q, M.size(e), int(v[i]) if isinstance(v[i], bool) else v[i])

    def call(self, st, fr, x, work):
        f = x["fn"]; M = self.M
        args = [self.val(fr, c, t) if t.k != "metadata" else None for t, c in x["args"]]
        if f[0] == "r":
            p = self.val(fr, f)
            if isinstance(p, LPtr) and p.o[0] == "f": name = p.o[1]
            else: name = "<indirect>"; args = [p] + args
        elif f[0] == "g": name = M.aliases.get(f[1], f[1])
        elif f[0] == "asm": name = "<asm>"
        else: name = "<indirect>"
        ok, bad = x.get("ok"), x.get("bad")
        def put(s, v):
            c = s.frames[-1]
            if x["d"] is not None: c.regs[x["d"]] = v
            if ok: self.goto(s, c, ok)
        h = self.ext.get(name)
        if h is not None:
            r = h(self, st, fr, x, name, args, put, work)
            if r is not None: return r
        if name in M.funcs and name not in self.ext:
            if len(st.frames) > self.max_depth: raise Und("call depth")
            self.push(st, M.funcs[name], args, x["d"], ok, bad); return "cont"
        r = self.intrinsic(st, fr, x, name, args, put, work)
        if r is not None: return r
        if self.ext_default:
            r = self.ext_default(self, st, fr, x, name, args, put, work)
            if r is not None: return r
        v = self.freshty(x["ty"], name)
        st.events.append(("call", name, tuple(args), fr.fn.name, v))
        put(st, v); return "cont"
    def freshty(self, ty, h):
        t = self.M.res(ty)
        if t.k == "void": return None
        if t.k == "int": return fresh(h, ty=u(t.n)) if t.n > 1 else fresh(h)
        if t.k == "ptr": return fresh(h)
        if t.k == "struct": return Seg(self.freshty(e, h) for e in t.e)
        return fresh(h)
    def newheap(self, st, tag="heap"):
        st.n += 1; return LPtr(("heap", tag, st.n), 0)
    def intrinsic(self, st, fr, x, name, a, put, work):
        if name.startswith("llvm."):
            n = name
            if any(n.startswith("llvm." + p) for p in ("lifetime", "dbg", "invariant", "experimental.noalias", "donothing", "prefetch", "var.annotation", "stackrestore", "va_")):
                put(st, 0); return "cont"
            if n.startswith("llvm.assume"):
                if isinstance(a[0], T):
                    if not st.facts.assume(a[0], True): return "drop"
                elif not a[0]: return "drop"
                put(st, None); return "cont"
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                if a[2] == 0 and isinstance(a[2], int): put(st, None); return "cont"
                d, s = self.toptr(a[0]), self.toptr(a[1])
                if d is None or s is None: return LResult("ub", "null memcpy", st)
                self.access(st, fr, x, s, a[2], False); self.access(st, fr, x, d, a[2], True)
                self.mcopy(st, d, s, a[2]); put(st, None); return "cont"
            if n.startswith("llvm.memset"):
                if a[2] == 0 and isinstance(a[2], int): put(st, None); return "cont"
                d = self.toptr(a[0])
                if d is None: return LResult("ub", "null memset", st)
                self.access(st, fr, x, d, a[2], True, a[1])
                self.mset(st, d, a[1], a[2]); put(st, None); return "cont"
            ty = x["ty"]
            if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                p = a[0], a[1]; k = n[5:9]
                c = self.cmp(st, ("u" if k[0] == "u" else "s") + "lt", a[0], a[1], ty)
                lo, hi = (a[0], a[1]) if k.endswith("min") else (a[1], a[0])
                return self.fork(st, c, work, lambda s: put(s, lo), lambda s: put(s, hi))
            if n.startswith("llvm.usub.sat"):
                c = self.cmp(st, "ult", a[0], a[1], ty)
                return self.fork(st, c, work, lambda s: put(s, 0), lambda s: put(s, self.arith(s, "sub", a[0], a[1], ty.n)))
            if n.startswith("llvm.expect"): put(st, a[0]); return "cont"
            if n.startswith(("llvm.fshl", "llvm.fshr")):
                w = ty.n
                if isinstance(a[2], int):
                    s = a[2] % w
                    if n.startswith("llvm.fshr"): s = (w - s) % w
                    if s == 0: put(st, a[0] if n.startswith("llvm.fshl") else a[1]); return "cont"
                    put(st, self.arith(st, "or", self.arith(st, "shl", a[0], s, w), self.arith(st, "lshr", a[1], w - s, w), w)); return "cont"
                put(st, T("fsh", *a, ty=u(w))); return "cont"
            if n.startswith(("llvm.bswap", "llvm.ctpop", "llvm.ctlz", "llvm.cttz", "llvm.bitreverse", "llvm.abs")):
                w = ty.n; v = a[0]; op = n.split(".")[1]
                if isinstance(v, int):
                    b = bin(v).count("1")
                    r = {"bswap": lambda: int.from_bytes(v.to_bytes(w // 8, "little"), "big"), "ctpop": lambda: b, "ctlz": lambda: w - v.bit_length(),
                         "cttz": lambda: (v & -v).bit_length() - 1 if v else w, "bitreverse": lambda: int(bin(v)[2:].zfill(w)[::-1], 2), "abs": lambda: min(v, (-v) % (1 << w))}[op]()
                    put(st, r)
                else: put(st, T(op, v, ty=u(w)))
                return "cont"
            m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
            if m:
                w = int(m.group(3)); r = self.arith(st, m.group(2), a[0], a[1], w)
                if isinstance(a[0], int) and isinstance(a[1], int):
                    e = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[m.group(2)]
                    if m.group(1) == "u": o = not (0 <= e < 1 << w); put(st, Seg([r, o])); return "cont"
                if m.group(1) == "u" and m.group(2) == "sub": o = self.cmp(st, "ult", a[0], a[1], ity(w))
                else:
                    o = T("ovf", m.group(1) + m.group(2), a[0], a[1], *([w] if w % 8 else []))
                    if m.group(1) == "u" and m.group(2) == "add":
                        h1, h2 = st.facts.interval(a[0])[1], st.facts.interval(a[1])[1]
                        if h1 is not None and h2 is not None and h1 + h2 < 1 << w: o = False
                put(st, Seg([r, o])); return "cont"
            if n.startswith("llvm.objectsize"): put(st, (1 << 64) - 1); return "cont"
            if n.startswith("llvm.is.constant"): put(st, 0); return "cont"
            if n.startswith("llvm.trap") or n.startswith("llvm.debugtrap"):
                if n == "llvm.debugtrap": st.events.append(("trap",)); put(st, None); return "cont"
                return LResult("trap", None, st)
            if n.startswith("llvm.eh.typeid"): put(st, fresh("typeid", ty=(4, True))); return "cont"
            if n.startswith("llvm.stacksave"): put(st, T("stack")); return "cont"
            if n.startswith("llvm.ptr.annotation"): put(st, a[0]); return "cont"
            put(st, T(n, *[y if isinstance(y, (int, T)) else T("w", repr(y)) for y in a], ty=u(ty.n) if ty.k == "int" else None)); return "cont"
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"):
            p = self.newheap(st)
            st.tags["size"] = dict(st.tags.get("size", {})); st.tags["size"][p.o] = a[0]
            st.events.append(("alloc", name, p.o, a[0]))
            st.mem[p.o] = {"default": lambda off, size: UNDEF}
            put(st, p); return "cont"
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
            st.events.append(("free", name, a[0])); put(st, None); return "cont"
        if name == "memset":
            if not (isinstance(a[2], int) and a[2] == 0):
                d = self.toptr(a[0])
                if d is None: return LResult("ub", "null memset", st)
                self.access(st, fr, x, d, a[2], True, a[1]); self.mset(st, d, a[1], a[2])
            put(st, a[0]); return "cont"
        if name in ("memcpy", "memmove"):
            if not (isinstance(a[2], int) and a[2] == 0):
                d, s = self.toptr(a[0]), self.toptr(a[1])
                if d is None or s is None: return LResult("ub", "null memcpy", st)
                self.access(st, fr, x, s, a[2], False); self.access(st, fr, x, d, a[2], True); self.mcopy(st, d, s, a[2])
            put(st, a[0]); return "cont"
        if name.startswith("_ZSt") and "__throw_" in name:
            return self.throw(st, T("exc", name), x.get("bad"), work)
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort", "__assert_fail"): return LResult("abort", name, st)
        if name == "__cxa_begin_catch": put(st, T("w", "exc")); return "cont"
        if name == "__cxa_end_catch": put(st, None); return "cont"
        if name == "__cxa_rethrow": return self.throw(st, st.tags.get("exc"), x.get("bad"), work)
        if name == "__cxa_throw": return self.throw(st, T("exc", "user"), x.get("bad"), work)
        if name == "__cxa_allocate_exception": put(st, self.newheap(st, "exc")); return "cont"
        return None

PASSES = "always-inline,cgscc(inline),function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,sroa,instcombine<no-verify-fixpoint>,simplifycfg)"
def clang_ir(src_text, name="w.cc", flags=(), includes=(), passes=PASSES, std="c++20", defs=("NDEBUG",), lang=None):
    """compiles a witness unit (which includes the sources of /repo) to normalised IR"""
    import common, os
    d = common.tmpdir(); p = os.path.join(d, name)
    with open(p, "w") as f: f.write(src_text)
    ll = p + ".ll"; out = p + ".opt.ll"
    cmd = ["clang++-18", "-x", "c++", "-std=" + std, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-S", "-emit-llvm", "-g0", "-w", "-o", ll]
    for i in includes: cmd += ["-I", i]
    for D in defs: cmd.append("-D" + D)
    common.run(cmd + list(flags) + [p])
    common.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S", "-passes=" + passes, ll, "-o", out])
    return Module(open(out).read())
