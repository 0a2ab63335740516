"""P36: the conversion to long form keeps the program and its jump destinations."""
import common, goprog, evmspec, lfvm, p10, gomodels
from gosem import *
PK = lfvm.PK
W = "go/interpreter/lfvm/converter.go"
class Und(Exception): pass
class Flat(dict):
    """memory of one object whose keys are all positions of one depth: known positions neither overlap nor alias"""
    def __init__(self, m, depth): dict.__init__(self, m); self.depth = depth; self.own = None
    def __setitem__(self, k, v):
        if len(k) != self.depth or not all(type(x) is int for x in k): self.depth = None
        dict.__setitem__(self, k, v)
def flat(m):
    if isinstance(m, Flat): return m if m.depth else None
    if len(m) < 48: return None
    d = len(next(iter(m)))
    return Flat(m, d) if d and all(len(k) == d and all(type(x) is int for x in k) for k in m) else None
class CE(Engine):
    def agglimit(self, t): return 1 << 20
    def flatat(self, st, ptr):
        m = st.mem.get(ptr.o)
        if m is None or len(m) < 48: return None
        f = flat(m)
        if f is None: return None
        if f is not m: st.mem[ptr.o] = f
        return f if len(ptr.p) == f.depth and all(type(x) is int for x in ptr.p) else None
    def load(self, st, ptr, tid):
        f = self.flatat(st, ptr)
        if f is None: return Engine.load(self, st, ptr, tid)
        return f[ptr.p] if ptr.p in f else self.leafinit(st, ptr.o, ptr.p, tid)
    def store(self, st, ptr, v, tid):
        f = self.flatat(st, ptr)
        if f is None: return Engine.store(self, st, ptr, v, tid)
        own = (id(st), st.nfork)
        if f.own != own: g = Flat(f, f.depth); g.own = own; st.mem[ptr.o] = f = g
        dict.__setitem__(f, ptr.p, v)
class Conv:
    def __init__(self, L):
        self.L = L; self.P = P = L.P; self.memo = {}
        self.fn = "(*%s.Converter).Convert" % expand(PK)
        if not P.has(self.fn): raise Und("no function Converter.Convert")
        self.ct = P.typ(expand(PK + ".Converter")); self.gf = PK + ".ConversionConfig"
        ops = L.opcodes(); self.names = {v: n for n, v in ops.items()}
        self.DATA = ops.get("DATA"); self.run_ = 0
        c = P.consts.get(expand(PK + ".statusRunning"))
        if c is not None: self.run_ = L.cv(c)
    def engine(self, n=20000000, secs=300): return CE(self.P, max_steps=n, max_seconds=secs)
    def config(self, fused):
        t = self.P.typ(expand(self.gf))
        return Agg("struct", [fused if f["n"] == "WithSuperInstructions" else False if self.P.isbool(f["t"]) else -1 for f in self.P.types[t]["f"]], t)
    def input(self, st, bs):
        st.mem[("h", "evm")] = {(k,): b for k, b in enumerate(bs)}
        return SliceV(("h", "evm"), (), 0, len(bs), len(bs))
    def convert(self, bs, fused):
        """long form of a code, without a cache"""
        P = self.P; st = State(); s = self.input(st, bs); o = ("h", "conv"); st.mem[o] = {}
        for k, f in enumerate(P.types[self.ct]["f"]):
            st.mem[o][(k,)] = self.config(fused) if P.types[f["t"]].get("named", "").endswith(".ConversionConfig") else None if P.types[f["t"]]["k"] in ("ptr", "map", "iface", "slice") else P and Engine(P).zero(f["t"])
        E = self.engine(); rs = E.run(self.fn, [Ptr(o, ()), s, None], st)
        if len(rs) != 1: raise Und("%d outcomes of the conversion" % len(rs))
        r = rs[0]
        if r.kind != "ret": return None
        v = r.vals[0]
        if v is None: return []
        if not isinstance(v, SliceV) or not isinstance(v.len, int): raise Und("conversion result %r" % (v,))
        out = []
        for k in range(v.len):
            x = tuple(E.load(r.st, Ptr(v.o, v.p + (v.off + k, self.L.inf[n][0])), self.L.inf[n][1]) for n in ("opcode", "arg"))
            x = tuple(0 if isinstance(q, T) and q.op == "zero" else q for q in x)
            if not all(isinstance(q, int) for q in x): raise Und("instruction %r" % (x,))
            out.append(x)
        return out
    def step(self, res, p):
        """(new position, height change, pushed value, gas used) of executing the instruction at p; None if it fails"""
        op = res[p]; k = p + 1
        while k < len(res) and res[k][0] in (self.DATA, self.names and -1): k += 1
        base = self.names.get(op[0]) in evmspec.OPS
        key = (tuple(res[p:k]), p if self.names.get(op[0]) == "PC" else None) if base else None
        if key in self.memo: d = self.memo[key]; return None if d is None else (d[0] + p,) + d[1:]
        L = self.L; st = L.setup(pc=p); D = {}
        lo, hi = max(0, p - 2), min(len(res), max(k + 2, p + 40))
        if not base: hi = len(res)
        for j in range(lo, hi): D[(j, L.inf["opcode"][0])] = res[j][0]; D[(j, L.inf["arg"][0])] = res[j][1]
        st.mem[L.D] = D; st.mem[L.C][(L.cf["code"][0],)] = SliceV(L.D, (), 0, len(res), len(res))
        out = None; n = 0
        if base: rs = L.run(st, max_paths=4000, max_steps=400000)
        else: rs = CE(self.P, max_seconds=60, max_steps=4000000).run(L.steps, [Ptr(L.C, ()), True], st)
        for r in rs:
            if r.kind != "ret": raise Und("step panics")
            if r.vals[1] is not None or r.vals[0] != self.run_: continue
            n += 1; pc = L.field(r.st, "pc"); h = aff_diff(L.sp(r.st), L.SP); g = aff_diff(L.field(r.st, "gas"), L.GAS); v = None
            if not isinstance(pc, int): raise Und("position %r" % (pc,))
            if h == 1: v = self.value(L.slot(r.st, 0))
            x = (pc, h, v, g)
            if out is not None and out != x: raise Und("several outcomes of one step")
            out = x
        if key is not None: self.memo[key] = None if out is None else (out[0] - p,) + out[1:]
        return out
    def value(self, t):
        if isinstance(t, int): return t
        if isinstance(t, T) and t.op == "zero": return 0
        import termnorm
        t = termnorm.u256(t)
        if isinstance(t, int): return t
        if isinstance(t, T) and t.op in ("u256", "u.from64") and isinstance(t.args[0], int): return t.args[0]
        v = gomodels.const_u(t) if hasattr(gomodels, "const_u") else None
        if v is not None: return v
        import finmod
        r = set()
        for k in range(3):
            try: r.add(finmod.ev(t, {}))
            except Exception as e: raise Und("value %r" % (t,))
        if len(r) != 1: raise Und("value %r" % (t,))
        return r.pop()
def evm(bs):
    """[(position, op, immediate)] of a code"""
    out = []; i = 0
    while i < len(bs):
        n = bs[i] - 0x5f if 0x60 <= bs[i] <= 0x7f else 0
        d = list(bs[i + 1:i + 1 + n]); d += [0] * (n - len(d)); v = 0
        for x in d: v = v << 8 | x
        out.append((i, bs[i], v, n)); i += 1 + n
    return out
def show(bs): return " ".join("%02x" % b for b in bs[:40]) + (" ... (%d bytes)" % len(bs) if len(bs) > 40 else "")
class Walk:
    def __init__(self, C, rep): self.C = C; self.rep = rep
    def code(self, bs, fused, label=None, start=0, maps=False):
        C = self.C; rep = self.rep; what = label or "code " + show(bs)
        res = C.convert(bs, fused)
        if not rep.check(res is not None, "panic", "the conversion of %s panics" % what, W): return
        rep.count("codes"); ins = evm(bs); dests = {e for e, o, _, _ in ins if o == 0x5b}
        got = {k for k, x in enumerate(res) if C.names.get(x[0]) == "JUMPDEST"}
        if not rep.check(dests == got, "jumpdests", "%s: jump destination at %s of the code, %s" % (what, min(dests ^ got) if dests ^ got else 0, "missing in the long form" if dests - got else "made up by the long form") , W): return
        p = 0; k = 0; pairs = []; fill = []
        while k < len(ins):
            e, o, v, n = ins[k]
            if p >= len(res): rep.violation("short", "%s: the long form ends before the instruction at %d" % (what, e), W); return
            op = res[p]; nm = C.names.get(op[0]); w = evmspec.BYCODE.get(o)
            if nm in evmspec.OPS or op[0] < 256:
                if e >= start or op[0] != o:
                    if w == "PC" and e > 65535 and nm == "INVALID":
                        rep.violation("op:PC:beyond16bit", "PC at positions beyond 65535 becomes INVALID", W); p += 1; k += 1; continue
                    if not rep.check(op[0] == o, "op:%s" % (w or hex(o)), "%s: %s at %d becomes %s" % (what, w or hex(o), e, nm or hex(op[0])), W): return
                if w == "JUMPDEST" and not rep.check(p == e, "jumpdest", "%s: the jump destination at %d is reached at %d" % (what, e, p), W): return
                q = p + 1
                if n or w == "PC":
                    if e >= start:
                        s = C.step(res, p)
                        if s is None or s[1] != 1: rep.violation("push", "%s: %s at %d does not push a value" % (what, w, e), W); return
                        want = v if n else e
                        if not rep.check(s[2] == want, "value:%s" % ("PUSH" if n else w), "%s: %s at %d pushes %x, not %x" % (what, w, e, s[2], want), W): return
                        q = s[0]
                    else:
                        while q < len(res) and res[q][0] == C.DATA: q += 1
                pairs.append((e, p)); p = q; k += 1; continue
            parts = p10.parts(nm) if nm else None
            if parts:
                seq = [evmspec.BYCODE.get(x[1]) for x in ins[k:k + len(parts)]]
                if not rep.check(list(parts) == seq, "fused", "%s: %s stands for %s" % (what, nm, " ".join(map(str, seq))), W): return
                p += 1; k += len(parts)
                while p < len(res) and res[p][0] == C.DATA: p += 1
                continue
            if p in fill: rep.violation("loop", "%s: the filler at %d of the long form never reaches the instruction at %d" % (what, p, e), W); return
            s = C.step(res, p) if e >= start or nm != "JUMP_TO" else (op[1], 0, None, None)
            if s is None: rep.violation("filler", "%s: %s at %d of the long form fails where %s at %d is due" % (what, nm or hex(op[0]), p, w or hex(o), e), W); return
            if not rep.check(s[1] == 0 and s[0] > p and (w == "JUMPDEST" and s[0] <= e or w != "JUMPDEST"), "target", "%s: %s at %d of the long form continues at %d where %s at %d is due" % (what, nm, p, s[0], w or hex(o), e), W): return
            fill.append(p); p = s[0]
        # behind the last instruction the code stops
        rep.check(p >= len(res) or all(C.names.get(x[0]) == "STOP" for x in res[p:p + 1]), "end", "%s: instructions follow the last one in the long form" % what, W)
        if maps: self.maps(bs, res, pairs, fill, what)
    def maps(self, bs, res, pairs, fill, what):
        C = self.C; P = C.P; fn = PK + ".genPcMap"; rep = self.rep; w = "go/interpreter/lfvm/ct.go genPcMap"
        if not P.has(fn): return
        st = State(); E = C.engine(); rs = E.run(expand(fn), [C.input(st, bs)], st)
        if len(rs) != 1 or rs[0].kind != "ret": 
            rep.violation("map:panic", "%s: the map of positions cannot be built" % what, w) if len(rs) == 1 else None; return
        r = rs[0]; t = P.types[P.typ(expand(PK + ".pcMap"))]["f"]; m = {}
        for k, f in enumerate(t):
            s = E.load(r.st, Ptr(rs[0].vals[0].o, rs[0].vals[0].p + (k,)), f["t"])
            if not isinstance(s, SliceV) or not isinstance(s.len, int): raise Und("position map")
            m[f["n"]] = [E.load(r.st, Ptr(s.o, s.p + (s.off + j,)), P.types[f["t"]]["e"]) for j in range(s.len)]
        if not {"evmToLfvm", "lfvmToEvm"} <= set(m): raise Und("position map")
        z = lambda x: 0 if isinstance(x, T) and x.op == "zero" else x
        to, fr = [z(x) for x in m["evmToLfvm"]], [z(x) for x in m["lfvmToEvm"]]
        at = lambda l, k: l[k] if k < len(l) else "nothing"
        for e, p in pairs + [(len(bs), len(res))]:
            if not rep.check(at(to, e) == p, "map:to", "%s: position %d maps to %s of the long form, not to %d" % (what, e, at(to, e), p), w): return
            if not rep.check(at(fr, p) == e, "map:from", "%s: position %d of the long form maps back to %s, not to %d" % (what, p, at(fr, p), e), w): return
        for p in fill:
            nx = min([e for e, q in pairs if q > p], default=None)
            rep.check(at(fr, p) == nx, "map:fill", "%s: the jump to the next destination at %d of the long form maps back to %s, not to %s" % (what, p, at(fr, p), nx), w)
def plains():
    """codes exercised for every instruction, push width and truncation"""
    for op in range(256):
        n = op - 0x5f if 0x60 <= op <= 0x7f else 0
        yield [op]; yield [op, 0, 0]; yield [0x01, op, 0x5b, op]
        if n:
            d = [(0x5b, 0x60, 0xff, 0x57, 0x80, 0x00, 0x56)[k % 7] for k in range(n)]; d2 = [(0x11 * (k + 1)) & 0xff for k in range(n)]
            for k in range(1, n + 1): yield [op] + d[:k]
            for k in (1, n // 2, n): yield [0x50, op] + d2[:k]
            for t in ([0x5b], [0x00], [0x58, 0x5b], [0x01, 0x01, 0x5b, 0x00]): yield [op] + d + t; yield [0x5b, op] + d2 + t
def mixes():
    ops = [0x00, 0x01, 0x0c, 0x15, 0x16, 0x1b, 0x03, 0x50, 0x56, 0x57, 0x58, 0x5b, 0x5f, 0x60, 0x61, 0x62, 0x63, 0x64, 0x74, 0x7f, 0x80, 0x82, 0x90, 0x91, 0xf3, 0xfe]
    for a in ops:
        for b in ops: yield [a, b]; yield [a, 0x5b, b, 0x03, 0x58, 0x5b, 0x00]
    x = 12345
    for n in range(160):
        l = []
        for _ in range(8 + n % 40):
            x = (x * 1103515245 + 12345) & 0x7fffffff; l.append(ops[(x >> 12) % len(ops)] if (x >> 8) % 5 else (x >> 16) & 255)
        yield l
def fusedcodes(C):
    fs = {n: p10.parts(n) for n in C.names.values() if n not in evmspec.OPS and p10.parts(n)}
    def enc(seq):
        out = []
        for n in seq:
            c = evmspec.OPS[n][0]; out.append(c)
            if 0x60 <= c <= 0x7f: out += [(0x5b, 0x91, 0x60, 0x03)[(k + c) % 4] for k in range(c - 0x5f)]
        return out
    all_ = [enc(p) for p in sorted(fs.values())]
    for s in all_:
        yield s + [0x00]; yield s + s + [0x5b]; yield [0x62, 1, 2, 3] + s + [0x5b, 0x58, 0x5b] + s
        for k in range(1, len(s) + 1): yield s[:k]; yield s[:k] + [0x5b] + s[k:] + [0x58, 0x5b]
    for q in sorted(fs.values()):
        for k in range(len(q)):
            for d in (-2, -1, 1, 2, 16, -16):
                c = evmspec.OPS[q[k]][0] + d
                if 0 <= c < 256: yield enc(q[:k]) + [c] + ([7] * (c - 0x5f) if 0x60 <= c <= 0x7f else []) + enc(q[k + 1:]) + [0x5b, 0, 0, 0, 0]
    for a in sorted({q[0] for q in fs.values()}):
        for b in range(256): yield enc([a]) + [b] + [0] * 7
    for k, s in enumerate(all_): yield s + all_[(k * 7 + 3) % len(all_)] + [0x5b, 0x00]; yield s[1:] + all_[(k * 5 + 1) % len(all_)] + [0x5b]
def longcodes():
    """codes beyond 16 bit positions"""
    base = [0x7f] + [0x5b] * 32; n = 10
    pre = [0x01] * 65000 + base * n
    z = [0x02] * (65535 - len(pre) - 2) + [0x5b]
    yield "a code with a jump destination at 65533", pre + z + [0x5b], 65000
    yield "a code with jump destinations at 65535 and 65536", pre + [0x5b] * (65537 - len(pre)), 65400
    yield "a code with a jump destination behind position 65535", pre + base * 8 + [0x5b, 0x00, 0x58, 0x5b, 0x61, 0x12, 0x34, 0x60, 0x99, 0x5b, 0x00], 65400
def main(rep):
    rep.assumptions.append("an instruction is converted from at most the eight bytes it starts with, its immediate data and its position, so that the enumerated codes contain every situation; bytes of immediate data are copied independently of their value")
    try: L = lfvm.Lf(rep); C = Conv(L)
    except (lfvm.Missing, Und, AnchorMissing, KeyError) as e: rep.undec("long-form interpreter", e); return ("", "")
    V = Walk(C, rep)
    for label, it, modes in (("single instructions", plains(), (False, True)), ("mixtures", mixes(), (False, True)), ("fused sequences", fusedcodes(C), (True,))):
        for bs in it:
            for f in modes:
                try: V.code(bs, f, maps=not f)
                except (Und, Undecided, AnchorMissing, KeyError) as e: rep.undec("conversion of %s (%s)" % (label, show(bs)), "%s %s" % (type(e).__name__, e)); break
            if len(rep.viol) > 20 or len(rep.undecided) > 20: break
    for label, bs, start in longcodes():
        try: V.code(bs, False, label, start)
        except (Und, Undecided, AnchorMissing, KeyError) as e: rep.undec(label, "%s %s" % (type(e).__name__, e))
    return ("The conversion is interpreted on codes covering every instruction, every push width and truncation, every fused sequence interrupted and cut at every place, and positions beyond 16 bits; the long form is read with the interpreter's own step function.",
            "the long form lists the same instructions in the same order with the same operands, has a jump destination exactly where the code has one, and its fillers lead to the next instruction; the position maps of the conformance tests are inverse to each other")
