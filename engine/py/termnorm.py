"""Normal form of integer and 256-bit terms: byte vectors."""
from absdom import *
import gosem
from gosem import Agg
def intbytes(t, size=None):
    """big endian byte terms of an unsigned integer term"""
    if isinstance(t, bool): t = int(t)
    if isinstance(t, int):
        n = size or 8
        return [(t >> (8 * (n - 1 - k))) & 255 for k in range(n)]
    n = t.ty[0] if t.ty else (size or 8)
    r = _ib(t, n)
    if size is not None and size != n: r = [0] * (size - n) + r if size > n else r[n - size:]
    return r
_memo = {}
def _ib(t, n):
    k = (t, n); r = _memo.get(k)
    if r is None: r = _memo[k] = _ib0(t, n)
    return r
def _ib0(t, n):
    o = t.op; opaque = lambda: [canon(t)] if n == 1 else [T("byteof", t, 8 * (n - 1 - k), ty=(1, True)) for k in range(n)]
    if o == "conv":
        x = t.args[0]
        if isinstance(x, T) and x.ty:
            b = intbytes(x); m = x.ty[0]
            if n <= m: return b[m - n:]
            if x.ty[1]: return [0] * (n - m) + b
        return opaque()
    if o in ("shl", "shr") and isinstance(t.args[1], int) and t.args[1] % 8 == 0:
        k = t.args[1] // 8; b = intbytes(t.args[0], n)
        if o == "shl": return (b + [0] * k)[k:]
        if t.ty and t.ty[1]: return ([0] * k + b)[:n]
    if o == "bit|":
        a, b = (intbytes(x, n) for x in t.args)
        if all(isinstance(p, int) or isinstance(q, int) for p, q in zip(a, b)):
            out = []
            for p, q in zip(a, b):
                if p == 0 and isinstance(p, int): out.append(q)
                elif q == 0 and isinstance(q, int): out.append(p)
                elif isinstance(p, int) and isinstance(q, int): out.append(p | q)
                else: return opaque()
            return out
    if o == "bit&":
        a, b = (intbytes(x, n) for x in t.args)
        out = []
        for p, q in zip(a, b):
            if isinstance(p, T): p, q = q, p
            if p == 0 and isinstance(p, int): out.append(0)
            elif p == 255 and isinstance(p, int): out.append(q)
            elif isinstance(p, int) and isinstance(q, int): out.append(p & q)
            else: return opaque()
        return out
    if o == "aff":
        # sums of terms occupying disjoint bytes
        c, d = aff_parts(t); out = intbytes(c & ((1 << (8 * n)) - 1), n)
        for u, k in d.items():
            if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8: return opaque()
            sh = (k.bit_length() - 1) // 8
            b = (intbytes(u, n) + [0] * sh)[sh:]
            for j in range(n):
                if isinstance(out[j], int) and out[j] == 0: out[j] = b[j]
                elif isinstance(b[j], int) and b[j] == 0: pass
                else: return opaque()
        return out
    if o == "join": return [canon(b) for b in t.args]
    if o == "byteof" and isinstance(t.args[0], T) and t.args[0].ty:
        b = intbytes(t.args[0]); k = len(b) - 1 - t.args[1] // 8
        if 0 <= k < len(b) and not (isinstance(b[k], T) and b[k].op == "byteof" and b[k].args[0] is t.args[0]): return [b[k]]
    return opaque()
def canon(t):
    """canonical form of an integer term, equal for equal byte vectors"""
    if not isinstance(t, T): return int(t) if isinstance(t, bool) else t
    if t.op == "conv" and isinstance(t.args[0], T) and t.args[0].ty and t.args[0].ty[0] == 1 and not t.args[0].ty[1]: return t
    if t.op in ("conv", "shl", "shr", "bit|", "bit&", "join", "aff") and t.ty:
        b = intbytes(t)
        if all(isinstance(x, int) for x in b): return int.from_bytes(bytes(b), "big")
        if not all(isinstance(x, int) or x.op != "byteof" for x in b):
            # complete low part of one opaque term
            k = 0
            while k < len(b) and isinstance(b[k], int) and b[k] == 0: k += 1
            m = len(b) - k; x = b[k]
            if isinstance(x, T) and x.op == "byteof" and x.args[0].ty and x.args[0].ty[0] == m and x.args[0].ty[1] and all(isinstance(y, T) and y.op == "byteof" and y.args[0] is x.args[0] and y.args[1] == 8 * (m - 1 - j) for j, y in enumerate(b[k:])):
                return T("zx", x.args[0]) if x.args[0] is not t else t
            if t.op == "aff": return t
        while b and isinstance(b[0], int) and b[0] == 0: b = b[1:]
        if len(b) == 1: return T("zx", b[0])
        return T("bv", *b)
    if t.ty and t.ty[1] and t.op not in ("zx", "bv"): return T("zx", t)
    return t
def u256(t):
    """canonical form of a 256-bit term"""
    if isinstance(t, int): return T("u256", t)
    if not isinstance(t, T): return t
    o = t.op
    if o == "u.from64": return frombytes(intbytes(t.args[0], 8))
    if o == "u.frombytes": return frombytes([canonb(b) for b in t.args])
    if o == "u.fromarr" and isinstance(t.args[0], T): return frombytes([T("fld", t.args[0], k, ty=(1, True)) for k in range(t.args[1])])
    if o == "u256w":
        r = addchain(t.args)
        if r: return r
        b = []
        for w in reversed(t.args): b += intbytes(w, 8) if isinstance(w, int) or w.ty else [T("byteof", w, 8 * (7 - k)) for k in range(8)]
        # bytes of one opaque 256-bit value
        return frombytes(b)
    if o in ("u.Add", "u.Mul", "u.And", "u.Or", "u.Xor"): return T(o, *sorted([u256(a) for a in t.args], key=lambda x: x.id))
    if o.startswith("u.") and o not in ("u.b32", "u.b20", "u.bytes", "u.frombytesv", "u.frombytes32"):
        return T(o, *[u256(a) if isinstance(a, T) and (a.op.startswith("u") or a.op == "init") else canon(a) for a in t.args])
    return t
def canonb(b):
    if isinstance(b, T) and b.ty and b.ty[0] == 1:
        r = intbytes(b)[0]
        z = r.args[0] if isinstance(r, T) and r.op == "zx" else r
        if isinstance(z, T) and z.op == "init" and len(z.args[1]) > 1: r = z
        if isinstance(r, T) and r.op == "init" and len(r.args[1]) > 1 and isinstance(r.args[1][-1], int): r = T("fld", T("init", r.args[0], r.args[1][:-1]), r.args[1][-1], ty=(1, True))
        return r
    return b
def frombytes(bs):
    bs = list(bs)
    while bs and isinstance(bs[0], int) and bs[0] == 0: bs = bs[1:]
    if all(isinstance(b, int) for b in bs): return T("u256", int.from_bytes(bytes(bs), "big"))
    return T("u.frombytes", *bs)
def addchain(ws):
    """recognises the word-wise addition (or subtraction) of two 256-bit values"""
    for op, u in (("add", "u.Add"), ("sub", "u.Sub")):
        carry = 0; xs, ys = [], []
        for k, w in enumerate(ws):
            if not (isinstance(w, T) and w.op == op + "64"): break
            x, y, c = w.args
            if not (c is carry or c == carry and isinstance(c, int) and isinstance(carry, int)): break
            xs.append(x); ys.append(y)
            carry = T(op + "carry", x, y, c, ty=(8, True))
        else:
            if op == "add":
                # operands were ordered per word: group the words of the same opaque value
                X, Y = [], []
                base = lambda v: v.args[0] if isinstance(v, T) and v.op == "fld" else (v.args[0], v.args[1][:-1]) if isinstance(v, T) and v.op == "init" else None
                ref = None
                for x, y in zip(xs, ys):
                    for p in (x, y):
                        if ref is None and base(p) is not None: ref = base(p)
                for x, y in zip(xs, ys):
                    if base(x) == ref: X.append(x); Y.append(y)
                    else: X.append(y); Y.append(x)
            else: X, Y = xs, ys
            return u256(T(u, words(X), words(Y)))
    return None
def words(ws):
    import gomodels
    return gomodels.norm_u(Agg("array", ws, None))
