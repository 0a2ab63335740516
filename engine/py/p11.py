"""P11: every fused instruction, executed on the code the converter emits for it, ends like the plain sequence it replaces."""
import common, goprog, evmspec, lfvm, termnorm, finmod
from gosem import *
from lfvm import pos, PK
import p10

IMM = lambda n: evmspec.PUSHLEN(evmspec.OPS[n][0])
def evmbytes(seq):
    out = []; k = 0
    for n in seq:
        out.append(evmspec.OPS[n][0])
        for _ in range(IMM(n)): out.append(sym("$imm%d" % k, ty=(1, True))); k += 1
    return out

class Q(Policy):
    """no logging, opaque memory writes recorded by the engine"""

def convert(L, bs, fused, tail=12):
    """LFVM code of an EVM byte sequence: list of (facts, [(op, arg)...])"""
    P = L.P; st = State(); o = ("h", "evm"); bs = list(bs) + [0] * tail
    st.mem[o] = {(k,): b for k, b in enumerate(bs)}
    ct = P.typ(expand(PK + ".ConversionConfig"))
    cfg = Agg("struct", [fused if f["n"] == "WithSuperInstructions" else L.P.types[f["t"]].get("k") == "basic" and (False if P.isbool(f["t"]) else 1024) for f in P.types[ct]["f"]], ct)
    E = Engine(P)
    rs = E.run(expand(PK + ".convert"), [SliceV(o, (), 0, len(bs), len(bs)), cfg], st)
    out = []
    for r in rs:
        if r.kind != "ret": raise Undecided("the conversion panics")
        v = r.vals[0]
        if not isinstance(v, SliceV) or not isinstance(v.len, int): raise Undecided("conversion result " + repr(v)[:100])
        code = []
        for k in range(v.len):
            f = lambda n: E.load(r.st, Ptr(v.o, v.p + (v.off + k, L.inf[n][0])), L.inf[n][1])
            code.append((f("opcode"), f("arg")))
        out.append((r.st, code))
    return out

class Outcome:
    pass

def place(L, st, code):
    for k, (o, a) in enumerate(code):
        i = (aff_add(L.PC, k, (4, False)),)
        st.mem.setdefault(L.D, {})[i + (L.inf["opcode"][0],)] = o
        st.mem[L.D][i + (L.inf["arg"][0],)] = a

def runseq(L, code, n):
    """abstract execution of n steps over a placed code; returns final states"""
    st = L.setup(); place(L, st, code)
    # the whole placed code is part of the contract
    st.facts.assume(mk_lt(aff_add(T("conv", L.PC, ty=(8, False)), len(code), (8, False)), L.CL), True)
    st.facts._narrow(L.CL, len(code), None)
    cur = [("run", st)]; done = []
    for step in range(n):
        nxt = []
        for _, s in cur:
            for r in L.run(s, Q(), max_paths=8000):
                if r.kind == "panic": done.append(("panic", r)); continue
                if r.vals[1] is not None: done.append(("fail", r))
                elif r.vals[0] != L.RUNNING: done.append(("status%r" % (r.vals[0],), r))
                else: nxt.append(("run", r.st, r))
        cur = [(a, s) for a, s, *_ in nxt]; last = nxt
    for a, s, *r in last: done.append(("run", r[0]))
    return done

def events(L, st):
    return [(e.k, e.n if e.k != "append" else "", tuple(norm(a) for a in e.a)) for e in st.events if e.k not in ("mapset", "lock", "unlock")]
def norm(a):
    if isinstance(a, T): return termnorm.u256(a) if a.op.startswith("u") else termnorm.canon(a)
    return repr(a)

def alloc_free(x):
    import re
    return re.sub(r"\('a', '[^']*', \d+\)", "(alloc)", repr(x))

def merge(fa, fb):
    """facts of both paths, None if contradictory"""
    f = fa.copy()
    for a, v in fb.order:
        if not f.assume(a, v): return None
    for t, (lo, hi) in fb.iv.items():
        if not f._narrow(t, lo, hi): return None
    return f

def compare(rep, L, name, code, A, ra, nA, B, nB, lenA, lenB):
    """outcome of the fused run vs the plain run on all compatible paths"""
    w = "go/interpreter/lfvm/super_instructions.go"
    pairs = 0; bad = {}
    def kindof(k): return k
    for ka, a in A:
        for kb, b in B:
            f = merge(a.st.facts, b.st.facts)
            if f is None: continue
            pairs += 1
            if ka != kb:
                if "status" not in bad and not any(True for _ in finmod.models(f, 1)): bad.setdefault("?", "no valuation found for a pair of paths ending differently"); continue
                bad.setdefault("status", "%s ends with %s where the sequence ends with %s, when %s" % (name, show(ka, a), show(kb, b), cond(f, a, b))); continue
            if ka == "fail": continue
            # height
            sa, sb = L.sp(a.st), L.sp(b.st)
            if sa is not sb and aff_diff(sa, sb) != 0: bad.setdefault("height", "%s leaves height %s, the sequence %s" % (name, sa, sb)); continue
            d = aff_diff(sa, L.SP)
            if d is None: bad.setdefault("?", "height %r" % (sa,)); continue
            for k in range(-20, d):
                x, y = termnorm.u256(L.slot(a.st, k)), termnorm.u256(L.slot(b.st, k))
                if x is not y and alloc_free(x) != alloc_free(y):
                    if not apart(bad, "stack term", f, x, y): continue
                    bad.setdefault("stack", "%s leaves %s at depth %d, the sequence leaves %s" % (name, alloc_free(x)[:160], d - 1 - k, alloc_free(y)[:160]))
                    break
            # program counter
            pa, pb = L.field(a.st, "pc"), L.field(b.st, "pc")
            da, db = aff_diff(pa, L.PC), aff_diff(pb, L.PC)
            if (da is None) != (db is None): bad.setdefault("pc", "%s continues at %r, the sequence at %r" % (name, pa, pb))
            elif da is None:
                if termnorm.canon(pa) is not termnorm.canon(pb) and canonpc(pa) != canonpc(pb) and apart(bad, "jump target", f, pa, pb): bad.setdefault("pc", "%s jumps to %s, the sequence to %s" % (name, pa, pb))
            elif (da, db) != (lenA, lenB): bad.setdefault("pc", "%s advances by %d of %d instructions, the sequence by %d of %d" % (name, da, lenA, db, lenB))
            ga, gb = L.field(a.st, "gas"), L.field(b.st, "gas")
            if ga is not gb and aff_diff(ga, gb) != 0 and alloc_free(ga) != alloc_free(gb) and apart(bad, "gas", f, ga, gb): bad.setdefault("gas", "%s leaves gas %s, the sequence %s" % (name, ga, gb))
            ea, eb = events(L, a.st), events(L, b.st)
            if alloc_free(ea) != alloc_free(eb) and evapart(bad, f, a.st, b.st): bad.setdefault("memory", "%s has effects %s, the sequence %s" % (name, alloc_free(ea)[:200], alloc_free(eb)[:200]))
            for o in (L.M, ("h", "memdata")):
                x, y = a.st.mem.get(o), b.st.mem.get(o)
                if memrepr(x) != memrepr(y): bad.setdefault("memory", "%s leaves other memory than the sequence: %s / %s" % (name, memrepr(x)[:150], memrepr(y)[:150]))
    return pairs, bad
def apart(bad, what, f, x, y):
    """terms without a common normal form: do they denote different values under the facts?"""
    d = finmod.differ(f, x, y)
    if d is None: bad.setdefault("?", "%s: %s / %s" % (what, alloc_free(x)[:150], alloc_free(y)[:150]))
    return d is True
def evapart(bad, f, sa, sb):
    K = lambda s: [e for e in s.events if e.k not in ("mapset", "lock", "unlock")]
    A, B = K(sa), K(sb)
    if [(e.k, len(e.a)) for e in A] != [(e.k, len(e.a)) for e in B]: return True
    for x, y in zip(A, B):
        for p, q in zip(x.a, y.a):
            if alloc_free(norm(p)) == alloc_free(norm(q)): continue
            if isinstance(p, T) and isinstance(q, T):
                if apart(bad, "effect", f, p, q): return True
            else: return True
    return False
def canonpc(p):
    c, d = aff_parts(p)
    return (c, tuple(sorted((repr(termnorm.canon(t)), k) for t, k in d.items())))
def memrepr(m):
    if not m: return "-"
    import re
    s = alloc_free(sorted(((k, norm(v)) for k, v in m.items()), key=lambda e: repr(e[0])))
    return re.sub(r"(cap|mayalias|mem|clob|copied)#\d+", r"\1#", s)
def show(k, r):
    if k == "fail": return "the failure %s" % (r.vals[1].v.decode() if isinstance(r.vals[1], Iface) and isinstance(r.vals[1].v, bytes) else repr(r.vals[1])[:60])
    return {"run": "normal continuation"}.get(k, k)
def cond(f, a, b):
    sa = set(x for x in a.st.facts.order); own = [x for x in b.st.facts.order if x not in sa] or b.st.facts.order[-2:]
    return " and ".join(("%r" if v else "not %r") % (t,) for t, v in own[-3:])[:240]

class First(Policy):
    """stops the conversion when the observer reports the instruction pair after the wanted position"""
    def __init__(self, L, cb, want): self.L, self.cb, self.want, self.out = L, cb, want, []
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if name == "$observer":
            ep, lp = args
            if isinstance(ep, int) and ep >= self.want:
                L = self.L; code = None
                for f in st.frames:
                    for b in f.fn["blocks"]:
                        for ins in b["i"]:
                            if ins["op"] == "alloc" and ins["et"] == self.cb and ins["n"] in f.regs:
                                v = E.load(st, f.regs[ins["n"]], self.cb)
                                if isinstance(v, Agg):
                                    sl = [x for x in v.e if isinstance(x, SliceV)]
                                    if len(sl) == 1 and isinstance(lp, int):
                                        sl = sl[0]; code = []
                                        for k in range(lp):
                                            g = lambda n: E.load(st, Ptr(sl.o, sl.p + (sl.off + k, L.inf[n][0])), L.inf[n][1])
                                            code.append((g("opcode"), g("arg")))
                if code is None: raise Undecided("builder of the converted code not found")
                self.out.append((st, code, ep))
                return "drop"
            return "cont"
        return None

def firstof(L, bs, fused, facts, want):
    """converted code of the first instructions up to EVM position >= want"""
    P = L.P; st = State(); o = ("h", "evm")
    st.mem[o] = {(k,): b for k, b in enumerate(bs)}
    if facts is not None: st.facts = facts.copy()
    ct = P.typ(expand(PK + ".ConversionConfig")); cb = P.typ(expand(PK + ".codeBuilder"))
    cfg = Agg("struct", [fused if f["n"] == "WithSuperInstructions" else (False if P.isbool(f["t"]) else 1024) for f in P.types[ct]["f"]], ct)
    pol = First(L, cb, want)
    rs = Engine(P, pol).run(expand(PK + ".convertWithObserver"), [SliceV(o, (), 0, len(bs), len(bs)), cfg, Func("$observer")], st)
    return pol.out, rs

def main(rep):
    try: L = lfvm.Lf(rep)
    except lfvm.Missing as e: rep.undec("long-form interpreter", e); return ("", "")
    P = L.P
    if not P.has(PK + ".convert"): rep.undec("code conversion", "function convert not found"); return ("", "")
    L.RUNNING = 0
    c = P.consts.get(expand(PK + ".statusRunning"))
    if c is not None: L.RUNNING = L.cv(c)
    ops = L.opcodes()
    fusedops = {v: n for n, v in ops.items() if n not in evmspec.OPS and p10.parts(n)}
    rep.count("fused_op_codes", len(fusedops))
    reached = set()
    def compare_code(label, st0, plain, fused, nplain, width):
        """plain/fused: converted code; executes the first instruction of fused and the corresponding plain prefix"""
    for code, name in sorted(fusedops.items()):
        seq = p10.parts(name)
        try:
            bs = evmbytes(seq)
            fa, pl = convert(L, bs, True), convert(L, bs, False)
        except (Undecided, AnchorMissing) as e: rep.undec("conversion of " + name, e); continue
        hit = [(s, c) for s, c in fa if c and c[0][0] == code]
        if not hit:
            ops0 = sorted({str(fusedops.get(c[0][0], c[0][0])) for s, c in fa})
            rep.notes.append("%s is not produced for its sequence (first instruction: %s)" % (name, ",".join(ops0)))
        for s, cA in hit:
            for s2, cB in pl:
                f = merge(s.facts, s2.facts)
                if f is None: continue
                # lengths of the encodings: up to the first STOP of the tail
                nb = len(bs)
                tailA = len(cA) - 12; tailB = len(cB) - 12
                # every EVM tail byte (STOP) yields one instruction
                lenA, lenB = tailA, tailB
                # number of plain instructions = parts
                try:
                    A = runseq(L, cA, 1); B = runseq(L, cB, len(seq))
                    n, bad = compare(rep, L, name, code, A, None, 1, B, len(seq), lenA, lenB)
                except Undecided as e: rep.undec(name, e); continue
                rep.count("path_pairs", n); rep.count("paths", len(A) + len(B))
                if n == 0: rep.undec(name, "no compatible pair of paths"); continue
                for k, m in bad.items():
                    if k == "?": rep.undec(name, m)
                    else: rep.violation("%s:%s" % (name, k), m, "go/interpreter/lfvm/super_instructions.go")
                if not bad: rep.ok("%s agrees with its sequence on %d pairs of abstract paths" % (name, n), "go/interpreter/lfvm/super_instructions.go")
    patterns(rep, L, fusedops)
    return ("The converter is interpreted abstractly on the byte sequence of every fused instruction with opaque immediates, with and without fusion; both encodings are then executed abstractly from the same opaque state and the results are compared on all compatible pairs of paths.",
            "equal status class, stack terms, height, program counter, gas and memory effects")

def patterns(rep, L, fusedops):
    """whatever bytes the converter fuses: the fused instruction replaces exactly these bytes' instructions"""
    P = L.P; w = "go/interpreter/lfvm/converter.go"
    if not P.has(PK + ".convertWithObserver"): rep.undec("fusion patterns", "convertWithObserver not found"); return
    work = [(op0, 8, 12) for op0 in range(256) if op0 != 0x5b]
    fusing = set(); done = set(); data = data_ops(L)
    def tails(): 
        yield from work
        for op0 in range(256):
            if op0 == 0x5b: continue
            for length in range(1, 9):
                if op0 in fusing or length in (1, 3): yield (op0, length, 0)
    for op0, length, tail in tails():
        bs = [op0] + [sym("$b%d" % k, ty=(1, True)) for k in range(1, length)] + [0] * tail
        try: out, rs = firstof(L, bs, True, None, 1)
        except (Undecided, AnchorMissing) as e: rep.undec("fusion patterns (%02x, %d bytes)" % (op0, length), e); continue
        rep.count("conversion_paths", len(out) + len(rs))
        # code ending right behind the first instruction is observed through the returned slice
        for r in rs:
            if r.kind == "panic": rep.violation("pattern:panic", "the conversion of a %d byte code panics when %s" % (length, cond2(r.st.facts)), pos(r.st.tags.get("panicpos")))
            elif r.kind == "ret" and isinstance(r.vals[0], SliceV) and isinstance(r.vals[0].len, int): out.append((r.st, whole(L, r), len(bs)))
        for st, code, ep in out:
            if not code or not isinstance(code[0][0], int) or fusedops.get(code[0][0]) is None: continue
            fusing.add(op0); name = fusedops[code[0][0]]; want = p10.parts(name)
            def fix(b):
                lo, hi = st.facts.interval(b)
                return lo if isinstance(b, T) and lo == hi else b
            bs2 = [fix(b) for b in bs[:ep]]
            sig = (name, tuple(x if isinstance(x, int) else "*" for x in bs2), tail)
            if sig in done: continue
            done.add(sig)
            # the instructions the replaced bytes consist of, by the EVM encoding
            names = []; k = 0
            while k < len(bs2):
                if not isinstance(bs2[k], int): names = None; break
                n = evmspec.BYCODE.get(bs2[k], "0x%02x" % bs2[k]); names.append(n); k += 1 + (evmspec.PUSHLEN(bs2[k]) or 0)
            if names is None: rep.violation("pattern:%s" % name, "%s is emitted for bytes whose meaning the converter did not determine: %s" % (name, bs2), w); continue
            if k != len(bs2) and tail: rep.violation("pattern:%s:cut" % name, "%s replaces %d bytes, ending within an instruction" % (name, ep), w); continue
            if not rep.check(names == want, "pattern:%s" % name, "%s replaces the sequence %s" % (name, " ".join(names)), w): continue
            # and it is encoded like in the exact sequence analysed before
            imm = [b for b in bs2 if isinstance(b, T)]
            try:
                ren = {b: sym("$imm%d" % k, ty=(1, True)) for k, b in enumerate(imm)}
                ref = [c for s, c in convert(L, [ren.get(b, b) if isinstance(b, T) else b for b in bs2], True) if c[0][0] == code[0][0]]
                mine = [c for s, c in convert(L, bs2, True) if c[0][0] == code[0][0]]
            except Undecided as e: rep.undec("pattern of " + name, e); continue
            if len(bs2) != len(evmbytes(want)): # truncated immediates at the end of the code
                rep.undec("pattern of " + name, "fused for a truncated sequence"); continue
            if not ref or not mine: rep.undec("pattern of " + name, "not fused for its exact sequence"); continue
            ok = False
            for c in mine:
                if len(c) - 12 <= len(code) and code[:len(c) - 12] == c[:len(c) - 12]: ok = True
            if ok: rep.ok("%s as emitted for a %d byte code is the encoding analysed" % (name, len(bs)), w)
            else: rep.undec("pattern of " + name, "emitted in another encoding for other surroundings: %r / %r" % (code, mine[0]))
def whole(L, r):
    v = r.vals[0]; E = Engine(L.P)
    g = lambda k, nm: E.load(r.st, Ptr(v.o, v.p + (v.off + k, L.inf[nm][0])), L.inf[nm][1])
    return [(g(k, "opcode"), g(k, "arg")) for k in range(v.len)]
def data_ops(L):
    ops = L.opcodes(); return {v for k, v in ops.items() if k in ("DATA", "NOOP")}
def cond2(f): return " and ".join(("%r" if v else "not %r") % (t,) for t, v in f.order[-4:])[:240]
