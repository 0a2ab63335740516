"""P03: HashBytes<N> reads exactly its key, depends on nothing else, and every key byte can influence
the result. Bit-level dependency analysis of the compiled (LLVM IR) hash of each key length."""
import common, ezev, random, re, hashlib
from llsem import *

QUICK_N = list(range(0, 41)) + [48, 63, 64, 65, 96, 127, 128, 129]
THOROUGH_N = list(range(0, 513))

def bitdeps(t, w, memo):
    """list of w bit masks: which key bits bit i of term t may depend on; raises Und for terms whose
    inputs are not key bytes (key = offending term)"""
    if isinstance(t, bool): return [0] * w
    if isinstance(t, int): return [0] * w
    if not isinstance(t, T): raise Und("value %r" % (t,))
    k = (t.id, w)
    if k in memo: return memo[k]
    r = _bd(t, w, memo); memo[k] = r; return r
def known_bits(t, w):
    return t if isinstance(t, int) else None
def _bd(t, w, memo):
    D = lambda x, ww=None: bitdeps(x, ww or (x.ty[0] * 8 if isinstance(x, T) and x.ty else w), memo)
    if t.op == "mem":
        o, off, size = t.args
        if o != ("arg", "key"): raise Und("input other than the key: %r" % (t,))
        return [1 << (8 * off + i) for i in range(8 * size)]
    if t.op == "aff":
        c, items = t.args
        acc = [0] * w
        # sum: bit i depends on every lower bit of the (shifted) summands
        tot = [0] * w
        for x, k in items:
            d = D(x)
            sh = (k & -k).bit_length() - 1 if k else 0
            for i in range(w):
                if i - sh >= 0 and i - sh < len(d): tot[i] |= d[i - sh]
        if len(items) == 1 and c == 0 and items[0][1] > 0 and (items[0][1] & (items[0][1] - 1)) == 0: return tot
        run = 0
        for i in range(w): run |= tot[i]; acc[i] = run
        return acc
    if t.op in ("zext",): d = D(t.args[0]); return (d + [0] * w)[:w]
    if t.op in ("trunc", "low"): return D(t.args[0])[:w]
    if t.op == "sext": d = D(t.args[0]); return (d + [d[-1]] * w)[:w]
    if t.op == "byte": d = D(t.args[0]); j = t.args[1]; return d[8 * j:8 * j + 8]
    if t.op == "cat":
        out = []
        for x in t.args: out += D(x, 8)
        return (out + [0] * w)[:w]
    if t.op in ("xor", "or", "and"):
        a, b = t.args
        da = D(a, w) if isinstance(a, T) else None; db = D(b, w) if isinstance(b, T) else None
        if da is None or db is None:
            c = a if da is None else b; d = db if da is None else da
            if t.op == "and": return [d[i] if (c >> i) & 1 else 0 for i in range(w)]
            if t.op == "or": return [0 if (c >> i) & 1 else d[i] for i in range(w)]
            return d
        return [x | y for x, y in zip(da, db)]
    if t.op == "shl" and isinstance(t.args[1], int): d = D(t.args[0]); return ([0] * t.args[1] + d)[:w]
    if t.op == "lshr" and isinstance(t.args[1], int): d = D(t.args[0]); return (d[t.args[1]:] + [0] * w)[:w]
    if t.op == "ashr" and isinstance(t.args[1], int): d = D(t.args[0]); return (d[t.args[1]:] + [d[-1]] * w)[:w]
    if t.op == "bswap":
        d = D(t.args[0]); n = len(d) // 8; return sum([d[8 * (n - 1 - i):8 * (n - i)] for i in range(n)], [])
    if t.op == "mul":
        a, b = (D(x, w) for x in t.args); run = 0; out = []
        for i in range(w): run |= a[i] | b[i]; out.append(run)
        return out
    # anything else: every bit may depend on every input bit
    allb = 0
    def rec(x):
        nonlocal allb
        if isinstance(x, T):
            if x.op == "undef": raise Und("undefined value")
            if x.op == "w": raise Und("depends on an address: %r" % (x,))
            if x.op == "sym": raise Und("input other than the key: %r" % (x,))
            for b in bitdeps(x, x.ty[0] * 8, memo) if x.ty and x is not t else [0]: allb |= b
            if x is t or not x.ty:
                for y in x.args: rec(y)
        elif isinstance(x, tuple):
            for y in x: rec(y)
    for y in t.args: rec(y)
    return [allb] * w

class KeyEv(ezev.Ev):
    """value of a term for a concrete key at a concrete address"""
    class S: pass
    def __init__(s, key, addr): s.S = KeyEv.S(); s.S.memo = {}; s.key = key; s.addr = addr; ezev.Ev.__init__(s, s.S)
    def leaf(s, o, off, size):
        off -= (1 << 64) if off >> 63 else 0
        if o != ("arg", "key") or off < 0 or off + size > len(s.key): raise ezev.Unk(repr(o))
        return s.le(s.key[off:off + size])
    def u0(s, t):
        if t.op == "w":
            x = str(t.args[0])
            if re.fullmatch(r"\d+", x): return int(x)
            m = re.fullmatch(r"&\('arg', 'key'\)\+(\d+)", x)
            if not m: raise ezev.Unk("address")
            return (s.addr + int(m.group(1))) & (2**64 - 1)
        if t.op == "pcast": return s.w(s.u(t.args[0]), t)
        if t.op == "parith":
            x, y = s.u(t.args[1]), s.u(t.args[2]); f = {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y, "mul": x * y}
            if t.args[0] in ("lshr", "shl") and y < 64: f[t.args[0]] = x >> y if t.args[0] == "lshr" else x << y
            if t.args[0] in ("urem", "udiv") and y: f[t.args[0]] = x % y if t.args[0] == "urem" else x // y
            if t.args[0] not in f: raise ezev.Unk(t.args[0])
            return s.w(f[t.args[0]], t)
        if t.op == "hashbytes": return int.from_bytes(hashlib.sha256(repr([s.u(x) for x in t.args]).encode()).digest()[:8], "little")
        return ezev.Ev.u0(s, t)
def paths(rep, n, rs, where):
    """several paths: the address must not choose among different results, and on each path every byte that does not choose the path must reach the result"""
    rnd = random.Random(n); seen = set(); key = None
    def at(key, addr):
        for k, r in enumerate(rs):
            E = KeyEv(key, addr)
            if all(bool(E.b(a)) == bool(v) for a, v in r.st.facts.order): return k, E.u(rs[k].val) & (2**64 - 1)
        raise ezev.Unk("no path")
    try:
        for _ in range(60 + 20 * len(rs)):
            c = rnd.random()
            key = bytes(rnd.choice([0, 0, 1, 255, rnd.randrange(256)]) if c < .6 else rnd.randrange(256) for _ in range(n))
            k0, h0 = at(key, 4096); seen.add(k0)
            for d in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32):
                k1, h1 = at(key, 4096 + d); seen.add(k1)
                if h1 != h0: rep.violation("N=%d:address" % n, "HashBytes<%d>: equal keys at different addresses have different hashes" % n, where); return
        for k in sorted(seen):
            deps = 0
            for d in bitdeps(rs[k].val, 64, {}): deps |= d
            for a, _ in rs[k].st.facts.order:
                try:
                    for d in bitdeps(T("ctl", a), 64, {}): deps |= d
                except Und: pass
            miss = [i for i in range(n) if not (deps >> (8 * i)) & 255]
            if miss: rep.violation("N=%d:path" % n, "HashBytes<%d>: for some keys bytes %s cannot influence the hash" % (n, miss), where); return
    except (Und, ezev.Unk, ezev.Bad) as e: rep.undec("HashBytes<%d> paths" % n, "%s" % e)
def main(rep):
    ns = QUICK_N if rep.tier == "quick" else THOROUGH_N
    src = '#include <cstddef>\n#include "common/hash_utils.h"\n'
    for n in ns:
        src += 'extern "C" size_t w_hash_%d(const uint8_t* p) { return tosca::HashBytes<%d>{}(std::span<const uint8_t, %d>(p, %d)); }\n' % (n, n, n, n)
    # an explicit array argument as callers use it
    M = clang_ir(src, "p03.cc", includes=[common.REPO + "/cpp"])
    where = "cpp/common/hash_utils.h HashBytes"
    for n in ns:
        bad = []
        def acc(E, st, fr, ins, p, size, isst, v):
            if p.o == ("arg", "key"):
                rep.count("key_accesses")
                if isst: bad.append(("writes its key", ins))
                elif not (isinstance(p.off, int) and isinstance(size, int)): raise Und("key access at unknown offset")
                else:
                    off = p.off - (1 << 64) if p.off >> 63 else p.off
                    if off < 0 or off + size > n: bad.append(("reads key bytes [%d,%d) of a %d byte key" % (off, off + size, n), ins))
            elif isinstance(p.o, tuple) and p.o[0] == "g":
                g = M.globals.get(p.o[1])
                if isst or not (g and g["const"]): bad.append(("uses mutable global state %s" % p.o[1], ins))
        E = LEngine(M, max_steps=400000, max_paths=64); E.on_access = acc
        def extd(E, st, fr, x, name, args, put, work):
            raise Und("call of " + name)
        E.ext_default = extd
        def libcpp_hash(E, st, fr, x, name, args, put, work):
            # std::_Hash_bytes(ptr, len, seed): reads len bytes, result depends on all of them
            p = E.toptr(args[0])
            if p is None or not isinstance(args[1], int): raise Und("_Hash_bytes")
            E.access(st, fr, x, p, args[1], False)
            v = T("hashbytes", *[E.mload(st, LPtr(p.o, p.off + i), 1) for i in range(args[1])], args[2], ty=(8, True))
            put(st, v); return "cont"
        E.ext["_ZSt11_Hash_bytesPKvmm"] = libcpp_hash
        E.on_leaf = None
        try:
            rs = E.run("w_hash_%d" % n, [LPtr(("arg", "key"), 0)])
        except Und as e:
            rep.undec("HashBytes<%d>" % n, e)
            for b, ins in bad: rep.violation("N=%d" % n, "HashBytes<%d> %s" % (n, b), where)
            continue
        rep.count("lengths")
        if bad: rep.violation("N=%d" % n, "HashBytes<%d> %s" % (n, bad[0][0]), where + ": " + bad[0][1]["text"]); continue
        deps = 0; und = None
        for r in rs:
            if r.kind != "ret": 
                if r.kind == "ub": rep.violation("N=%d" % n, "HashBytes<%d>: %s" % (n, r.val), where)
                else: und = "outcome " + r.kind
                continue
            try:
                ds = bitdeps(r.val, 64, {})
            except Und as e:
                if "depends on an address" in str(e) or "input other than the key" in str(e):
                    rep.violation("N=%d" % n, "HashBytes<%d>: %s" % (n, e), where)
                elif "undefined" in str(e): rep.violation("N=%d" % n, "HashBytes<%d> depends on uninitialised data" % n, where)
                else: und = e
                continue
            for d in ds: deps |= d
            # control dependencies
            for at, _ in r.st.facts.order:
                try:
                    for d in bitdeps(T("ctl", at), 64, {}): deps |= d
                except Und: pass
        if und: rep.undec("HashBytes<%d>" % n, und); continue
        if len(rs) > 1 and all(r.kind == "ret" for r in rs): paths(rep, n, rs, where)
        miss = [i for i in range(n) if not (deps >> (8 * i)) & 255]
        missbits = [i for i in range(8 * n) if not (deps >> i) & 1]
        rep.check(not miss, "N=%d" % n, "HashBytes<%d>: every byte reaches the result, nothing outside the key is read" % n if not miss else
                  "HashBytes<%d>: key bytes %s cannot influence the hash" % (n, miss), where)
    return ("Bit-level dependency analysis of the IR of HashBytes<N> for the listed key lengths; each memory access is located relative to the key, each result bit's dependencies on key bits are propagated through shifts, masks, sums.",
            "accesses stay inside [0,N) of the key; result depends on all key bits and only on them")
