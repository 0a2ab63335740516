"""P16: 256-bit amounts: terms computed by Add, Sub, NewValue, Cmp and the conversions compared with limb-wise
normal forms."""
import common, goprog
from gosem import *
from gomodels import join_bytes
def pos(p): return (p or "").replace(common.REPO + "/", "")
KNOWN = {"byteof", "add64", "addcarry", "sub64", "subcarry", "join", "fld", "sym", "u.b32", "u.Add", "u.Sub", "u.Mul", "u.fromarr", "u.from64", "u256", "conv", "aff", "shr", "bytescmp", "bytes", "u.Cmp", "nonnil", "big", "bigval", "init", "zero"}

def ops(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T):
        acc.add(t.op)
        for a in t.args:
            if isinstance(a, T): ops(a, acc)
            elif isinstance(a, (tuple, list)):
                for x in a:
                    if isinstance(x, T): ops(x, acc)
                    elif isinstance(x, tuple):
                        for y in x: ops(y, acc)
    elif isinstance(t, Agg):
        for x in t.e: ops(x, acc)
    return acc

def main(rep):
    P = goprog.load(["./go/tosca"], inits=(), rep=rep)
    a, b = sym("$a"), sym("$b"); where = "go/tosca/types.go"
    vt = expand("~tosca.Value")
    fld = lambda v, k: T("fld", v, k, ty=(1, True))
    limb = lambda v, i: T("join", *[fld(v, 8 * i + j) for j in range(8)], ty=(8, True))   # i: 0 = most significant
    def bits(op, x, y, c):
        if op == "add" and id(x) and __import__("gosem")._k(x) > __import__("gosem")._k(y): x, y = y, x
        return T(op + "64", x, y, c, ty=(8, True)), T(op + "carry", x, y, c, ty=(8, True))
    def expect(op):
        out = [None] * 32; c = 0
        for i in (3, 2, 1, 0):
            s, c = bits(op, limb(a, i), limb(b, i), c)
            for j in range(8): out[8 * i + j] = T("byteof", s, 8 * (7 - j), ty=(1, True))
        return out
    def elems(v):
        if isinstance(v, Agg): return list(v.e)
        if isinstance(v, T): return v
        return None
    def run(fn, args):
        if not P.has(fn): rep.undec(fn, "function not found"); return None
        try: return Engine(P).run(fn, args)
        except Undecided as e: rep.undec(fn, e); return None
    def bytewise(op, v):
        """ripple over bytes: every element is the low byte of a sum whose carry-in is the previous sum's high part"""
        if not isinstance(v, Agg): return None
        sgn = 1 if op == "add" else -1
        prev = None
        for i in range(31, -1, -1):
            x = v.e[i]
            if not (isinstance(x, T) and x.op == "conv" and isinstance(x.args[0], T) and x.args[0].op in ("aff",)): return None
            s = x.args[0]; c, d = aff_parts(s)
            if c != 0: return None
            rest = {}
            for t, k in d.items():
                base = t.args[0] if t.op == "conv" else t
                rest[base] = (k, t)
            ea, eb = fld(a, i), fld(b, i)
            if ea not in rest or eb not in rest or rest[ea][0] != 1 or rest[eb][0] != sgn: return False
            left = {t: k for t, (k, t_) in rest.items() if t not in (ea, eb)}
            if prev is None:
                if left: return None
            else:
                if len(left) != 1: return False
                (t, k), = left.items()
                if not (t.op == "shr" and t.args[0] is prev and t.args[1] == 8): return None
                if op != "add" or k != 1: return None
            prev = s
        return True
    for op, fn in (("add", "Add"), ("sub", "Sub")):
        rs = run("~tosca." + fn, [a, b])
        if rs is None: continue
        for r in rs:
            w = pos(r.st.tags.get("retpos")) or where
            if r.kind != "ret": rep.violation(fn + ":panic", "%s panics" % fn, w); continue
            v = r.vals[0]; e = elems(v); want = expect(op)
            if isinstance(e, list):
                if all(x is y for x, y in zip(e, want)):
                    for i in range(4): rep.ok("%s: limb %d is the exact sum/difference with the carry of all lower limbs" % (fn, i), w)
                    continue
                bw = bytewise(op, v)
                if bw is True: rep.ok("%s: byte-wise ripple carry" % fn, w); continue
                o = ops(v)
                if o <= (KNOWN - {"conv", "aff", "shr"}) and "join" in o and ("add64" in o or "sub64" in o) and len(rs) == 1:
                    badl = [i for i in range(4) if any(e[8 * i + j] is not want[8 * i + j] for j in range(8))]
                    for i in badl: rep.violation("%s:limb%d" % (fn, i), "%s: the 64-bit word %d (0 = most significant) of the result is %r" % (fn, i, e[8 * i]), w)
                else: rep.undec(fn, "form of the result not recognised: %s" % sorted(o)[:12])
            else:
                u = [T("u.fromarr", a, 32), T("u.fromarr", b, 32)]
                if op == "add": u.sort(key=__import__("gosem")._k)
                if v is T("u.b32", T("u.Add" if op == "add" else "u.Sub", *u)): rep.ok("%s: exact 256-bit operation" % fn, w)
                elif isinstance(v, T) and v.op == "u.b32" and ops(v) <= KNOWN: rep.violation(fn + ":u256", "%s computes %r" % (fn, v), w)
                else: rep.undec(fn, repr(v)[:200])
    # NewValue
    fn = "~tosca.NewValue"
    if P.has(fn):
        u64 = P.tindex.get("uint64")
        for k in range(0, 7):
            st = State(); obj = ("args",)
            ws = [sym("$w%d" % j, ty=(8, True)) for j in range(k)]
            st.mem[obj] = {(j,): w for j, w in enumerate(ws)}
            try: rs = Engine(P).run(fn, [SliceV(obj, (), 0, k, k) if k else None], st)
            except Undecided as e: rep.undec("NewValue of %d words" % k, e); continue
            for r in rs:
                w = pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")) or where
                if k > 4:
                    rep.check(r.kind == "panic", "NewValue:%d" % k, "NewValue refuses %d words" % k, w); continue
                if r.kind != "ret": rep.violation("NewValue:%d" % k, "NewValue panics on %d words" % k, w); continue
                v = r.vals[0]
                want = [0] * (32 - 8 * k)
                for x in ws: want += [T("byteof", x, 8 * (7 - j), ty=(1, True)) for j in range(8)]
                e = elems(v)
                if isinstance(v, T) and v.op == "zero": e = [0] * 32
                if not isinstance(e, list): rep.undec("NewValue of %d words" % k, repr(v)[:200]); continue
                if all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(e, want)): rep.ok("NewValue places each of %d words" % k, w)
                elif ops(v) <= {"byteof", "sym"}: rep.violation("NewValue:%d" % k, "NewValue of %d words yields %r" % (k, v), w)
                else: rep.undec("NewValue of %d words" % k, repr(v)[:200])
    else: rep.undec("NewValue", "function not found")
    # Cmp
    fn = "(%s).Cmp" % vt
    bt = lambda v: T("bytes", *[fld(v, j) for j in range(32)])
    rs = run(fn, [a, b])
    for r in rs or []:
        w = pos(r.st.tags.get("retpos")) or where; v = r.vals[0]
        if len(rs) == 1 and (v is T("bytescmp", bt(a), bt(b), ty=(8, False)) or v is T("u.Cmp", T("u.fromarr", a, 32), T("u.fromarr", b, 32), ty=(8, False))): rep.ok("Cmp compares all bytes in big-endian order", w)
        elif len(rs) == 1 and isinstance(v, T) and v.op in ("bytescmp", "u.Cmp"): rep.violation("Cmp", "Cmp compares %s" % ("the operands in the wrong order" if v in (T("bytescmp", bt(b), bt(a), ty=(8, False)), T("u.Cmp", T("u.fromarr", b, 32), T("u.fromarr", a, 32), ty=(8, False))) else repr(v)[:150]), w)
        else: rep.undec("Cmp", repr(v)[:200]); break
    # conversions
    rs = run("(%s).ToUint256" % vt, [a])
    for r in rs or []:
        v = r.vals[0] if r.kind == "ret" else None
        if isinstance(v, Ptr):
            import gomodels
            u = gomodels.uval(Engine(P), r.st, v)
            if u is T("u.fromarr", a, 32): rep.ok("ToUint256 converts all 32 bytes", where)
            elif ops(u) <= KNOWN | {"u.frombytes"}: rep.violation("ToUint256", "ToUint256 yields %r" % (u,), pos(r.st.tags.get("retpos")))
            else: rep.undec("ToUint256", repr(u)[:200])
        else: rep.undec("ToUint256", repr(v)[:200])
    x = sym("$x256"); st = State(); st.mem[("x",)] = {(): x}
    for arg, wants in ((Ptr(("x",), ()), [T("u.b32", x)]), (None, [0])):
        if not P.has("~tosca.ValueFromUint256"): rep.undec("ValueFromUint256", "function not found"); break
        try: rs = Engine(P).run("~tosca.ValueFromUint256", [arg], st)
        except Undecided as e: rep.undec("ValueFromUint256", e); continue
        for r in rs:
            w = pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")) or where
            if r.kind != "ret": rep.violation("ValueFromUint256:panic", "ValueFromUint256 panics%s" % (" on nil" if arg is None else ""), w); continue
            v = r.vals[0]
            if arg is None: rep.check((isinstance(v, T) and v.op == "zero") or (isinstance(v, Agg) and all(isinstance(q, int) and q == 0 for q in v.e)), "ValueFromUint256:nil", "ValueFromUint256(nil) is zero", w)
            elif v is wants[0]: rep.ok("ValueFromUint256 converts all 32 bytes", w)
            elif isinstance(v, T) and ops(v) <= KNOWN: rep.violation("ValueFromUint256", "ValueFromUint256 yields %r" % (v,), w)
            else: rep.undec("ValueFromUint256", repr(v)[:200])
    s = sym("$s", ty=(8, True))
    rs = run("(%s).Scale" % vt, [a, s])
    for r in rs or []:
        v = r.vals[0] if r.kind == "ret" else None
        want = T("u.b32", T("u.Mul", *sorted([T("u.fromarr", a, 32), T("u.from64", s)], key=__import__("gosem")._k)))
        if v is want: rep.ok("Scale is the exact product modulo 2^256", where)
        elif isinstance(v, T) and ops(v) <= KNOWN: rep.violation("Scale", "Scale computes %r" % (v,), pos(r.st.tags.get("retpos")))
        else: rep.undec("Scale", repr(v)[:200])
    # SizeInWords: ceil(size/32) also near the top of the range
    return ("The symbolic results of the amount operations are computed word by word from opaque operands and compared with the normal form of the exact operation.",
            "carry chain through all four words in order; words in place; unsigned big-endian order")
