"""Valuations of the terms a path of evmz.py is described by, and the reference semantics of one EVM instruction
(EVMC frame) those valuations are compared with."""
import hashlib, random
from absdom import *
from llir import *
from llsem import LPtr, UNDEF
import evmspec
U = (1 << 256) - 1
sg = lambda v, n=256: v - (1 << n) if v >> (n - 1) & 1 else v
class Unk(Exception): pass
class Bad(Exception): pass
class Skip(Exception): pass
STKTOP = 32768

_V = [0, 1, U, 1 << 255, (1 << 255) - 1, 0x80, 0x8000]
_A = [0, 1, 2, 3, U, U - 1, 1 << 255, (1 << 255) - 1, (1 << 255) + 1, 1 << 64, (1 << 64) - 1, 1 << 128, (1 << 128) - 1, (1 << 192) + 7, U - (1 << 64)]
_I = [0, 1, 2, 7, 8, 15, 30, 31, 32, 33, 63, 64, 255, 256, 257, 287, 1 << 32, 1 << 64, (1 << 64) + 1, (1 << 128) + 1, U]
_S = [0, 1, 7, 8, 31, 32, 63, 64, 65, 127, 128, 191, 192, 193, 254, 255, 256, 257, 300, 511, 512, 1 << 32, (1 << 32) + 1, 1 << 64, (1 << 64) + 1, (1 << 128) + 8, U]
_M = [0, 1, 2, U, U - 1, 1 << 255, 1 << 128, 7]
_grid = {}
def edges(name):
    """boundary operands of the arithmetic instructions"""
    if name not in _grid:
        vals = _V + [int.from_bytes(bytes(range(0x7c, 0x9c)), "big"), int.from_bytes(bytes(range(0x9b, 0x7b, -1)), "big")]
        if name in ("BYTE", "SIGNEXTEND"): g = [(i, v) for i in _I for v in vals]
        elif name in ("SHL", "SHR", "SAR"): g = [(i, v) for i in _S for v in vals]
        elif name in ("ADDMOD", "MULMOD"): g = [(a, b, c) for a in _M for b in _M for c in _M]
        elif name in ("ISZERO", "NOT"): g = [(a,) for a in _A]
        elif name in ("ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "LT", "GT", "SLT", "SGT", "EQ", "AND", "OR", "XOR"): g = [(a, b) for a in _A for b in _A]
        elif name == "EXP": g = [(a, b) for a in (0, 1, 2, U, 3) for b in [(1 << (8 * k)) - d for k in range(33) for d in (0, 1) if k or d == 0] if b <= U]
        else: g = []
        _grid[name] = g
    return _grid[name]
class Sample:
    def __init__(s, L, op, mode, rnd, k=None):
        """k: index into the grid of boundary operands of the instruction"""
        s.L, s.op, s.mode, s.r = L, op, mode, rnd; s.memo = {}; s.seed = rnd.getrandbits(64)
        s.pal = []; s.mkframe()
        g = edges(s.name)
        if k is not None and k < len(g):
            n = len(g[k]); s.N = max(s.N, n); s.N = s.N if s.N < 1020 else n
            s.stack = (list(g[k]) + s.stack[n:] + [s.word(.3) for _ in range(n)])[:s.N]
    def hb(s, n, *key):
        b = b""; i = 0
        while len(b) < n:
            b += hashlib.sha256(repr((s.seed, i, key)).encode()).digest(); i += 1
        return b[:n]
    def pick(s, key, xs): return xs[int.from_bytes(s.hb(4, "pick", key), "big") % len(xs)]
    def word(s, small):
        r = s.r; c = r.random()
        if c < small: return r.choice([0, 0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 128, r.randrange(0, 400), r.randrange(0, 100), len(s.mem), max(0, len(s.mem) - 32), len(s.ret), len(s.inp), len(s.code) - 33])
        if c < small + .15: return r.choice([U, U - 1, U - 31, 1 << 255, (1 << 255) - 1, 1 << 64, (1 << 64) - 1, (1 << 64) - 32, (1 << 64) + 5, (1 << 63) - 1, 1 << 63, (1 << 32) + 7, (1 << 32) - 1, 1 << 32, 255, 256, 257, (1 << 64) - 64, (1 << 128) + 3, (1 << 192) + 32, 1 << 31, 1 << 40, (1 << 62) + 1])
        if c < small + .25: return int.from_bytes(r.getrandbits(160).to_bytes(32, "big"), "big")
        return r.getrandbits(r.choice([8, 16, 64, 65, 128, 200, 256, 256]))
    def mkframe(s):
        r = s.r; L = s.L; name = evmspec.BYCODE.get(s.op); s.name = name
        s.rev = r.choice([7, 8, 9, 10, 11, 12, 12]); s.refund = r.choice([0, 0, 100, 30000, r.getrandbits(20)])
        rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
        s.mem = rb(32 * r.choice([0, 0, 1, 2, 3, 4, 8, 23])); s.ret = rb(r.choice([0, 0, 1, 31, 32, 33, 64, 100])); s.inp = rb(r.choice([0, 0, 1, 31, 32, 33, 64, 100, 140]))
        s.pc = 0 if s.mode == "full" else r.choice([0, 0, 1, 5, 20])
        n = s.pc + 1 + r.choice([0, 1, 2, 5, 16, 31, 32, 40, 70])
        code = bytearray(rb(n)); code[s.pc] = s.op
        jt = bytearray(n)
        for i in range(n):
            if r.random() < .3 and i != s.pc: code[i] = 0x5B
        for i in range(n):
            if code[i] == 0x5B: jt[i] = int(r.random() < .7)
        s.code = bytes(code) + bytes(33); s.jt = bytes(jt)
        s.static = r.random() < .3; s.depth = r.choice([0, 1, 5, 1023, 1024])
        pops, pushes = (evmspec.OPS[name][1:3] if name else (0, 0))
        c = r.random()
        if c < .1 and pops: s.N = r.randrange(0, pops)
        elif c < .15: s.N = r.choice([1024, 1023])
        else: s.N = min(1024, pops + r.choice([0, 0, 1, 3, 16, 17]))
        small = {"EXP": .4, "SIGNEXTEND": .6, "BYTE": .6}.get(name, .7 if name in MEMOPS else .45)
        base = s.hb(64, "stack")
        s.stack = [int.from_bytes(hashlib.sha256(base + bytes([i >> 8, i & 255])).digest(), "big") for i in range(s.N)]
        for i in range(min(s.N, 17)): s.stack[i] = s.word(small)
        if s.N > 1 and r.random() < .12: s.stack[1] = s.stack[0]
        if name in ("JUMP", "JUMPI") and s.N and r.random() < .75:
            ds = [i for i in range(n) if jt[i]]; nd = [i for i in range(n) if not jt[i]]
            d = r.choice(ds) if ds and r.random() < .7 else r.choice(nd) if nd else 0
            s.stack[0] = d + r.choice([0] * 12 + [1 << 32, 1 << 64, 1 << 128, 1 << 192])
            if s.N > 1 and r.random() < .4: s.stack[1] = r.choice([0, 1, 1 << 64, 1 << 200])
        if name in ("CREATE", "CREATE2") and s.N > 2 and r.random() < .25: s.stack[2] = 49152 + r.choice([0, 1, -31, 32])
        if name == "RETURNDATACOPY" and s.N > 2 and r.random() < .5:
            s.stack[1] = r.choice([0, len(s.ret) // 2, len(s.ret)]); s.stack[2] = max(0, len(s.ret) - s.stack[1] + r.choice([0, 0, -1, 1]))
        s.number = r.choice([0, 1, 255, 256, 257, 258, 300, 1000000, (1 << 62) - 1]); 
        if name == "BLOCKHASH" and s.N and r.random() < .8: s.stack[0] = max(0, s.number + r.choice([-258, -257, -256, -255, -1, 0, 1])) + r.choice([0] * 8 + [1 << 64])
        if name in VALUEAT and s.N > VALUEAT[name] and r.random() < .45: s.stack[VALUEAT[name]] = 0
        s.blobs = rb(32 * r.choice([0, 1, 2, 6]))
        if name == "BLOBHASH" and s.N and r.random() < .7: s.stack[0] = max(0, len(s.blobs) // 32 + r.choice([-2, -1, -1, 0, 1])) + r.choice([0] * 5 + [1 << 64])
        # message and transaction context images
        m = bytearray(rb(L["msgsize"])); F = L["msg"]
        def put(b, off, v, n): b[off:off + n] = (v % (1 << (8 * n))).to_bytes(n, "little")
        s.gas = 0; s.msgimg = m; s.F = F
        put(m, F[0], r.choice([0, 0, 1, 2, 3]), 4); put(m, F[1], int(s.static), 4); put(m, F[2], s.depth, 4); put(m, F[7], len(s.inp), 8)
        s.msg = lambda i, n: bytes(m[F[i]:F[i] + n])
        t = bytearray(rb(L["txsize"])); X = L["tx"]
        put(t, X[3], s.number, 8); put(t, X[4], r.choice([0, 1, r.getrandbits(31), r.getrandbits(62)]), 8); put(t, X[5], r.getrandbits(40), 8)
        put(t, X[11], len(s.blobs) // 32, 8); s.tx = lambda i, n: bytes(t[X[i]:X[i] + n]); s.tximg = t
        s.status = r.choice([0, 0, 0, 2, 2, 1, 3, 5, 17, 0xffffffff])
        s.callout = rb(r.choice([0, 0, 1, 31, 32, 33, 64, 100])) if s.status in (0, 2) else b""
        s.callref = r.choice([0, 4800, 19900, -4800]) if s.status == 0 else 0
        s.gasfrac = r.random()
    def setgas(s, g):
        s.gas = g; s.memo = {}; s.msgimg[s.F[3]:s.F[3] + 8] = g.to_bytes(8, "little")
    # ---- answers of the host
    def answer(s, meth, *a):
        if meth == "account_exists": return bool(s.hb(1, meth, a)[0] & 1)
        if meth == "get_code_size": return len(s.codeof(a[0]))
        if meth == "copy_code": return min(a[2], max(0, len(s.codeof(a[0])) - a[1]))
        if meth == "get_balance":
            v = s.stack[VALUEAT[s.name]] if s.name in VALUEAT and s.N > VALUEAT[s.name] else 5
            return s.pick((meth, a), [0, v, v, max(0, v - 1), min(U, v + 1), U, 0, v >> 1, int.from_bytes(s.hb(32, "bal", a), "big")]).to_bytes(32, "big")
        if meth in ("access_account", "access_storage"):
            if meth == "access_storage" and s.name == "SSTORE" and s.stat() >= 4: return True
            return s.hb(1, meth, a)[0] & 1 == 1
        if meth == "selfdestruct": return bool(s.hb(1, meth, a)[0] & 1)
        if meth == "set_storage": return s.stat()
        if meth == "call.status": return s.status
        if meth == "call.gas_left":
            g = a[0]; f = s.gasfrac
            return 0 if s.status not in (0, 2) or f < .2 else g if f > .8 else int(g * f)
        if meth == "call.refund": return s.callref
        n = {"call.addr": 20}.get(meth, 32); return s.hb(n, meth, a)
    def stat(s): return s.hb(1, "storage status")[0] % 9
    def codeof(s, A): return s.hb(s.pick(("len", A), [0, 1, 31, 32, 60, 100]), "code", A)

MEMOPS = "SHA3 CALLDATACOPY CODECOPY EXTCODECOPY RETURNDATACOPY MLOAD MSTORE MSTORE8 MCOPY LOG0 LOG1 LOG2 LOG3 LOG4 CREATE CREATE2 CALL CALLCODE DELEGATECALL STATICCALL RETURN REVERT CALLDATALOAD".split()
VALUEAT = {"CREATE": 0, "CREATE2": 0, "CALL": 2, "CALLCODE": 2}
def kec(b): return hashlib.sha256(b"keccak" + b).digest()

class Ev:
    def __init__(s, S): s.S = S; s.memo = S.memo
    def u(s, x):
        """unsigned value of a term or constant"""
        if isinstance(x, int): return int(x)
        if not isinstance(x, T): raise Unk(repr(x)[:60])
        if x in s.memo: return s.memo[x]
        v = s.memo[x] = s.u0(x); return v
    def n(s, x): return x.ty[0] * 8 if isinstance(x, T) and x.ty else None
    def w(s, v, t): return v & ((1 << (8 * t.ty[0])) - 1) if t.ty else v
    def pair(s, a, b):
        n = s.n(a) or s.n(b)
        if n is None: raise Unk("width")
        m = (1 << n) - 1; return s.u(a) & m, s.u(b) & m, n
    def le(s, b): return int.from_bytes(b, "little")
    def u0(s, t):
        o, a = t.op, t.args; E = s.u
        if o == "sym":
            k = a[0]; S = s.S
            if k == "N": return S.N
            if k == "rev": return S.rev
            if k == "refund": return S.refund & (2**64 - 1)
            if k == "pc": return S.pc
            if k.startswith("size:"): return len(s.init(k[5:]))
            raise Unk(k)
        if o == "aff": return s.w(a[0] + sum(k * E(x) for x, k in a[1]), t)
        if o == "mem": return s.leaf(a[0], E(a[1]), a[2])
        if o == "brd": return s.le(s.rd(a[1], E(a[2]), a[3]))
        if o == "bchunk": 
            b = s.blob(a[0]); return s.le(b[a[1]:a[1] + a[2]])
        if o == "idx":
            b = s.blob(a[0]); i = E(a[1])
            if i >= len(b): raise Bad("index %d of a %d byte array" % (i, len(b)))
            return b[i]
        if o == "part": return (s.w256(a[0]) >> (64 * a[1])) & (2**64 - 1)
        if o == "ite": return E(a[1] if s.b(a[0]) else a[2])
        if o == "b2i":
            v = s.b(a[0]); return s.w(-1, t) if v and a[1] else int(v)
        if o == "zext": return E(a[0]) & ((1 << (s.n(a[0]) or 64)) - 1) if isinstance(a[0], T) and a[0].ty else int(E(a[0]))
        if o == "sext":
            n = s.n(a[0])
            if n is None: raise Unk("sext")
            return s.w(sg(E(a[0]) & ((1 << n) - 1), n), t)
        if o == "trunc": return s.w(E(a[0]), t)
        if o in ("and", "or", "xor"):
            if not t.ty: return s.b(t)
            v = E(a[0])
            for x in a[1:]: v = v & E(x) if o == "and" else v | E(x) if o == "or" else v ^ E(x)
            return s.w(v, t)
        if o == "shl":
            k = E(a[1])
            if k >= 8 * t.ty[0]: raise Bad("shift by %d" % k)
            return s.w(E(a[0]) << k, t)
        if o == "lshr":
            k = E(a[1])
            if k >= 8 * t.ty[0]: raise Bad("shift by %d" % k)
            return s.w(E(a[0]), t) >> k
        if o == "ashr":
            k = E(a[1]); return s.w(sg(s.w(E(a[0]), t), 8 * t.ty[0]) >> k, t)
        if o == "mul": return s.w(E(a[0]) * E(a[1]), t)
        if o in ("udiv", "urem", "sdiv", "srem"):
            n = 8 * t.ty[0]; x, y = s.w(E(a[0]), t), s.w(E(a[1]), t)
            if y == 0: raise Bad("division by zero")
            if o[0] == "u": return x // y if o == "udiv" else x % y
            x, y = sg(x, n), sg(y, n); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return s.w(q if o == "sdiv" else x - q * y, t)
        if o == "bswap": n = t.ty[0]; return int.from_bytes((E(a[0]) & ((1 << 8 * n) - 1)).to_bytes(n, "little"), "big")
        if o == "byte": return (E(a[0]) >> (8 * a[1])) & 255
        if o == "low": return E(a[0]) & ((1 << (8 * a[1])) - 1)
        if o == "cat":
            r = 0; sh = 0
            for x in a:
                k = x.ty[0] if isinstance(x, T) and x.ty else 1; r |= (E(x) & ((1 << 8 * k) - 1)) << sh; sh += 8 * k
            return r
        if o == "u256sigbytes": return (s.w256(a[0]).bit_length() + 7) // 8
        if o == "u256clz": return 256 - s.w256(a[0]).bit_length()
        if o == "ans": return s.w(s.ans(t), t) if t.ty else int(s.ans(t))
        if o in BOOLOPS: return int(s.b(t))
        if o in ("undef", "poison"): raise Bad("use of an uninitialised value")
        raise Unk(o)
    def ans(s, t):
        m = t.args[0]; a = t.args[1:]
        if m in ("access_account", "access_storage"):
            key = tuple(s.blob(x) for x in a[:-1]); p = a[-1]
            while isinstance(p, T):
                if tuple(s.blob(x) for x in p.args[1:-1]) == key: return 1
                p = p.args[-1]
            return int(s.S.answer(m, *key))
        if m in ("call.status", "call.refund"): return s.S.answer(m) if a[0] == 0 else s.no("second call")
        if m == "call.gas_left": return s.S.answer(m, sg(s.u(a[0]) & (2**64 - 1), 64)) if a[1] == 0 else s.no("second call")
        return s.S.answer(m, *[s.blob(x) if isinstance(x, T) and x.op in BLOBOPS else s.u(x) for x in a])
    def no(s, what): raise Unk(what)
    def b(s, t):
        if isinstance(t, int): return bool(t)
        k = ("b", t)
        if k in s.memo: return s.memo[k]
        v = s.memo[k] = s.b0(t); return v
    def b0(s, t):
        o, a = t.op, t.args
        if o == "not": return not s.b(a[0])
        if o in ("and", "or") and not t.ty: return all(s.b(x) for x in a) if o == "and" else any(s.b(x) for x in a)
        if o in ("xor1", "iff"): return (s.b(a[0]) != s.b(a[1])) == (o == "xor1")
        if o == "ite": return s.b(a[1] if s.b(a[0]) else a[2])
        if o == "allof": return all(s.b(x) == bool(v) for x, v in zip(a[0::2], a[1::2]))
        if o == "==":
            if any(isinstance(x, T) and not x.ty and x.op in BOOLOPS | {"ans"} for x in a): return s.b(a[0]) == s.b(a[1])
            x, y, n = s.pair(*a); return x == y
        if o == "<": x, y, n = s.pair(*a); return x < y
        if o == "slt": x, y, n = s.pair(*a); return sg(x, n) < sg(y, n)
        if o == "sneg":
            n = s.n(a[0])
            if n is None: raise Unk("sneg")
            return bool(s.u(a[0]) >> (n - 1) & 1)
        if o == "ovf":
            x, y, n = s.pair(a[1], a[2]); k = a[0]; op = k[-3:] if k[-3:] in ("add", "sub", "mul") else None
            if op is None: raise Unk(k)
            if len(a) > 3: n = a[3]; x &= (1 << n) - 1; y &= (1 << n) - 1
            if k[0] == "s": x, y = sg(x, n), sg(y, n); lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            else: lo, hi = 0, (1 << n) - 1
            v = x + y if op == "add" else x - y if op == "sub" else x * y; return not lo <= v <= hi
        if o == "u256eq": return s.w256(a[0]) == s.w256(a[1])
        if o == "u256lt": return s.w256(a[0]) < s.w256(a[1])
        if o == "u256slt": return sg(s.w256(a[0])) < sg(s.w256(a[1]))
        if o == "u256carry": return s.w256(a[0]) + s.w256(a[1]) > U
        if o in ("mem_eq", "mem_lt"):
            x, y = s.blob(a[0]), s.blob(a[1]); return x == y if o == "mem_eq" else x < y
        if o == "mem_nz": return any(s.blob(a[0]))
        if o == "ans": return bool(s.ans(t))
        if t.ty: return bool(s.u(t))
        raise Unk(o)
    def w256(s, x):
        if isinstance(x, int): return x & U
        k = ("w", x)
        if k in s.memo: return s.memo[k]
        v = s.memo[k] = s.w0(x); return v
    def w0(s, x):
        o, a = x.op, x.args
        if o == "u256w": return sum((s.u(y) & (2**64 - 1)) << (64 * i) for i, y in enumerate(a))
        if o == "frombe": return int.from_bytes(s.blob(a[0]), "big")
        if o == "o256":
            k = a[0]; v = [s.w256(y) for y in a[1:]]
            if k in ("div", "mod", "sdiv", "smod") and v[1] == 0 or k in ("addmod", "mulmod") and v[2] == 0: raise Bad("256-bit %s by zero" % k)
            return op256(k, *v) & U
        if o == "ite": return s.w256(a[1] if s.b(a[0]) else a[2])
        raise Unk(o)
    def blob(s, B):
        k = ("B", B)
        if k in s.memo: return s.memo[k]
        v = s.memo[k] = s.blob0(B); return v
    def blob0(s, B):
        o, a = B.op, B.args
        if o == "be":
            x = s.w256(a[1]) & ((1 << (8 * a[0])) - 1); return x.to_bytes(a[0], "big")
        if o == "brdn": return s.rd(a[1], s.u(a[2]), a[0])
        if o == "ansb":
            m = a[1]
            if m == "call.addr": return s.S.answer(m) if a[2] == 0 else s.no("second call")
            return s.S.answer(m, *[s.blob(x) if isinstance(x, T) and x.op in BLOBOPS else s.u(x) for x in a[2:]])
        if o == "ovl":
            b = s.blob(a[1]); n = s.u(a[2])
            if n > a[0]: raise Bad("write of %d bytes to a %d byte array" % (n, a[0]))
            return s.desc(a[3], n) + b[n:]
        if o == "keccak": return kec(s.desc(a[1], s.u(a[2])))
        if o == "bytes": return b"".join((s.u(v) & ((1 << 8 * n) - 1)).to_bytes(n, "little") for n, v in zip(a[0::2], a[1::2]))
        raise Unk(o)
    def desc(s, d, n):
        if n == 0: return b""
        if n > 1 << 21: raise Bad("a range of %d bytes" % n)
        if d.op == "bcopy": return s.rd(d.args[0], s.u(d.args[1]), n)
        if d.op == "bval":
            b = s.blob(d.args[0])
            if n > len(b): raise Bad("%d bytes of %d" % (n, len(b)))
            return b[:n]
        if d.op == "bfill": return bytes([s.u(d.args[0]) & 255]) * n
        if d.op == "bcode": return s.S.codeof(s.blob(d.args[0]))[s.u(d.args[1]):][:n]
        raise Unk(d.op)
    def init(s, k):
        S = s.S; return {"code": S.code, "jt": S.jt, "mem": S.mem, "ret": S.ret, "input": S.inp, "callout": S.callout, "blobs": S.blobs}[k]
    def buf(s, v):
        k = ("V", v)
        if k in s.memo: return s.memo[k]
        r = s.memo[k] = s.buf0(v); return r
    def buf0(s, v):
        o, a = v.op, v.args
        if o == "binit": return s.init(a[0])
        if o == "bzero": return bytes(s.u(a[0]))
        if o == "bresize":
            n = s.u(a[1])
            if n > 1 << 21: raise Bad("a buffer of %d bytes" % n)
            b = s.buf(a[0]); return b[:n] + bytes(max(0, n - len(b)))
        if o == "bw":
            b = s.buf(a[0]); n = s.u(a[2]); off = s.u(a[1])
            if n == 0: return b
            if off + n > len(b): raise Bad("write of [%d,+%d) in a buffer of %d bytes" % (off, n, len(b)))
            d = s.desc(a[3], n)
            if len(d) != n: raise Unk("length of a written range")
            return b[:off] + d + b[off + n:]
        raise Unk(o)
    def rd(s, v, off, n):
        if n == 0: return b""
        b = s.buf(v)
        if off + n > len(b): raise Bad("read of [%d,+%d) in a buffer of %d bytes" % (off, n, len(b)))
        return b[off:off + n]
    def leaf(s, o, off, size):
        S = s.S
        if o == ("msg",): return s.le(S.msgimg[off:off + size])
        if o == ("tx",): return s.le(S.tximg[off:off + size])
        if isinstance(o, tuple) and o[0] == "stk":
            if o[1] == 1: return s.le(s.stkimg()[off:off + size]) if off + size <= STKTOP else int.from_bytes(S.hb(size, "beyond", off), "big")
            return int.from_bytes(S.hb(size, "garbage", o, off), "big")
        raise Unk(repr(o)[:50])
    def stkimg(s):
        if "img" not in s.S.__dict__:
            S = s.S; b = b"".join(x.to_bytes(32, "little") for x in S.stack); S.img = S.hb(64, "junk") * ((STKTOP - len(b)) // 64 + 1); S.img = S.img[:STKTOP - len(b)] + b
        return s.S.img
BLOBOPS = {"be", "brdn", "ansb", "ovl", "keccak", "bytes"}
BOOLOPS = {"not", "==", "<", "slt", "sneg", "ovf", "u256eq", "u256lt", "u256slt", "u256carry", "mem_eq", "mem_lt", "mem_nz", "allof", "iff", "xor1"}

def op256(k, a, b=0, c=0):
    if k == "add": return a + b
    if k == "sub": return a - b
    if k == "mul": return a * b
    if k == "div": return a // b
    if k == "mod": return a % b
    if k == "sdiv":
        x, y = sg(a), sg(b); q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
    if k == "smod":
        x, y = sg(a), sg(b); q = abs(x) % abs(y); return -q if x < 0 else q
    if k == "addmod": return (a + b) % c
    if k == "mulmod": return (a * b) % c
    if k == "exp": return pow(a, b, 1 << 256)
    if k == "and": return a & b
    if k == "or": return a | b
    if k == "xor": return a ^ b
    if k == "not": return U - a
    if k == "neg": return -a
    if k == "shl": return a << b if b < 256 else 0
    if k == "shr": return a >> b if b < 256 else 0
    if k == "bswap": return int.from_bytes(a.to_bytes(32, "little"), "big")
    raise Unk("o256 " + k)

# ---------------------------------------------------------------- reference
class Fail(Exception): pass
class Out:
    def __init__(s, kind, **k): s.kind = kind; s.__dict__.update(k)
FORKREV = {"Istanbul": 7, "Berlin": 8, "London": 9, "Paris": 10, "Shanghai": 11, "Cancun": 12}

class Ref:
    """one instruction of the EVM on the frame of a sample"""
    def __init__(s, S): s.S = S
    def run(s):
        S = s.S; s.gas = S.gas; s.refund = S.refund; s.stack = list(S.stack); s.mem = S.mem; s.ret = S.ret; s.eff = []; s.acc = set(); s.marks = []; s.pc = S.pc + 1; s.kind = 0; s.out = None
        s.jumped = False
        try: s.step()
        except Fail: s.kind = 4
        return s
    def use(s, n):
        s.marks.append(s.S.gas - s.gas + n); s.gas -= n
        if s.gas < 0: raise Fail()
    def pop(s): return s.stack.pop(0)
    def push(s, v): s.stack.insert(0, int(v) & U)
    def expand(s, *rs):
        """charge for the memory the given ranges need; returns the new size"""
        n = len(s.mem)
        for off, size in rs:
            if size: n = max(n, off + size)
        w = lambda x: (x + 31) // 32
        c = lambda k: k * k // 512 + 3 * k
        if n > 1 << 45: raise Fail()
        return c(w(n)) - c(w(len(s.mem))), w(n) * 32
    def grow(s, n):
        if n > 1 << 20: raise Skip()
        s.mem = s.mem + bytes(n - len(s.mem))
    def rd(s, off, n): return s.mem[off:off + n] if n else b""
    def wr(s, off, b):
        if b: s.mem = s.mem[:off] + b + s.mem[off + len(b):]
    def access(s, m, *key):
        warm = (m,) + key in s.acc or s.S.answer(m, *key); s.acc.add((m,) + key); return warm
    def acct(s, A):
        """cost of touching an account"""
        if s.S.rev < 8: return 700
        return 100 if s.access("access_account", A) else 2600
    def ans(s, m, *a): return s.S.answer(m, *a)
    def bal(s, A): return int.from_bytes(s.ans("get_balance", A), "big")
    def step(s):
        S = s.S; n = S.name
        if n is None or n == "INVALID": raise Fail()
        code, pops, pushes, fork = evmspec.OPS[n]; rev = S.rev
        if rev < FORKREV[fork]: raise Fail()
        if len(s.stack) < pops or len(s.stack) - pops + pushes > 1024: raise Fail()
        if S.static and n in evmspec.WRITES_STATIC: raise Fail()
        me = S.msg(4, 20); berlin = rev >= 8
        addr = lambda v: (v & ((1 << 160) - 1)).to_bytes(20, "big"); b32 = lambda v: v.to_bytes(32, "big"); num = lambda b: int.from_bytes(b, "big")
        le = lambda b: int.from_bytes(b, "little")
        P = s.pop; w = lambda x: (x + 31) // 32
        padded = lambda b, off, k: (b[off:off + k] if off < len(b) else b"").ljust(k, b"\0")
        if n in ARITH:
            s.use(ARITH[n][0]); s.push(ARITH[n][1](*[P() for _ in range(pops)])); return
        if n == "EXP":
            a, e = P(), P(); s.use(10 + 50 * ((e.bit_length() + 7) // 8)); s.push(pow(a, e, 1 << 256)); return
        if n == "STOP": s.kind = 1; s.ret = b""; return
        if n == "SHA3":
            o, k = P(), P(); c, m = s.expand((o, k)); s.use(30); s.use(6 * w(k)); s.use(c); s.grow(m); s.push(num(kec(s.rd(o, k)))); return
        SIMPLE = {"ADDRESS": lambda: num(me), "ORIGIN": lambda: num(S.tx(1, 20)), "CALLER": lambda: num(S.msg(5, 20)), "CALLVALUE": lambda: num(S.msg(8, 32)),
                  "CALLDATASIZE": lambda: len(S.inp), "CODESIZE": lambda: len(S.code) - 33, "GASPRICE": lambda: num(S.tx(0, 32)), "RETURNDATASIZE": lambda: len(s.ret),
                  "COINBASE": lambda: num(S.tx(2, 20)), "TIMESTAMP": lambda: le(S.tx(4, 8)), "NUMBER": lambda: le(S.tx(3, 8)), "PREVRANDAO": lambda: num(S.tx(6, 32)),
                  "GASLIMIT": lambda: le(S.tx(5, 8)), "CHAINID": lambda: num(S.tx(7, 32)), "BASEFEE": lambda: num(S.tx(8, 32)), "BLOBBASEFEE": lambda: num(S.tx(9, 32)),
                  "PC": lambda: S.pc, "MSIZE": lambda: len(s.mem), "GAS": lambda: s.gas, "PUSH0": lambda: 0}
        if n in SIMPLE: s.use(2); s.push(SIMPLE[n]()); return
        if n == "SELFBALANCE": s.use(5); s.push(s.bal(me)); return
        if n == "BALANCE": A = addr(P()); s.use(s.acct(A)); s.push(s.bal(A)); return
        if n == "EXTCODESIZE": A = addr(P()); s.use(s.acct(A)); s.push(s.ans("get_code_size", A)); return
        if n == "EXTCODEHASH": A = addr(P()); s.use(s.acct(A)); s.push(num(s.ans("get_code_hash", A))); return
        if n == "CALLDATALOAD": s.use(3); s.push(num(padded(S.inp, P(), 32))); return
        if n in ("CALLDATACOPY", "CODECOPY"):
            d, o, k = P(), P(), P(); c, m = s.expand((d, k)); s.use(3); s.use(3 * w(k)); s.use(c); s.grow(m)
            s.wr(d, padded(S.inp if n == "CALLDATACOPY" else S.code[:-33], o, k)); return
        if n == "RETURNDATACOPY":
            d, o, k = P(), P(), P(); s.use(3)
            if o + k > len(s.ret): raise Fail()
            c, m = s.expand((d, k)); s.use(3 * w(k)); s.use(c); s.grow(m); s.wr(d, s.ret[o:o + k]); return
        if n == "EXTCODECOPY":
            A = addr(P()); d, o, k = P(), P(), P(); c, m = s.expand((d, k)); a = s.acct(A); s.use(a); s.use(c); s.use(3 * w(k)); s.grow(m); s.wr(d, padded(S.codeof(A), o, k)); return
        if n == "BLOCKHASH":
            s.use(20); b = P(); s.push(num(s.ans("get_block_hash", b)) if S.number - 256 <= b < S.number else 0); return
        if n == "BLOBHASH": s.use(3); i = P(); s.push(num(S.blobs[32 * i:32 * i + 32]) if i < len(S.blobs) // 32 else 0); return
        if n == "POP": s.use(2); P(); return
        if n in ("MLOAD", "MSTORE", "MSTORE8"):
            o = P(); k = 1 if n == "MSTORE8" else 32; s.use(3); c, m = s.expand((o, k)); s.use(c); s.grow(m)
            if n == "MLOAD": s.push(num(s.rd(o, 32)))
            else: v = P(); s.wr(o, b32(v)[32 - k:])
            return
        if n == "MCOPY":
            d, o, k = P(), P(), P(); s.use(3); c, m = s.expand((d, k), (o, k)); s.use(3 * w(k)); s.use(c); s.grow(m); s.wr(d, s.rd(o, k)); return
        if n == "SLOAD":
            K = b32(P()); s.use(800 if not berlin else 100 if s.access("access_storage", me, K) else 2100); s.push(num(s.ans("get_storage", me, K))); return
        if n == "SSTORE":
            if s.gas <= 2300: s.marks += [2300, 2301]; raise Fail()
            K, V = b32(P()), b32(P()); cold = berlin and not s.access("access_storage", me, K)
            st = s.ans("set_storage", me, K, V); s.eff.append(("set_storage", me, K, V))
            c = 20000 if st == 1 else (2900 if berlin else 5000) if st in (2, 3) else 100 if berlin else 800
            s.use(c + (2100 if cold else 0)); clear = 4800 if rev >= 9 else 15000; rst = 2800 if berlin else 4200
            s.refund += {2: clear, 4: -clear, 5: clear, 6: rst - clear, 7: 19900 if berlin else 19200, 8: rst}.get(st, 0); return
        if n == "TLOAD": s.use(100); s.push(num(s.ans("get_transient_storage", me, b32(P())))); return
        if n == "TSTORE": s.use(100); K, V = b32(P()), b32(P()); s.eff.append(("set_transient_storage", me, K, V)); return
        if n in ("JUMP", "JUMPI"):
            s.use(8 if n == "JUMP" else 10); d = P(); c = P() if n == "JUMPI" else 1
            if c:
                if d >= len(S.jt) or not S.jt[d]: raise Fail()
                s.pc = d; s.jumped = True
            return
        if n == "JUMPDEST": s.use(1); return
        if n.startswith("PUSH"):
            k = code - 0x5F; s.use(3); s.push(num(padded(S.code, S.pc + 1, k))); s.pc = S.pc + 1 + k; return
        if n.startswith("DUP"): s.use(3); s.push(s.stack[code - 0x80]); return
        if n.startswith("SWAP"): s.use(3); i = code - 0x8F; s.stack[0], s.stack[i] = s.stack[i], s.stack[0]; return
        if n.startswith("LOG"):
            o, k = P(), P(); tp = [b32(P()) for _ in range(pops - 2)]; s.use(375 * (1 + len(tp))); c, m = s.expand((o, k)); s.use(c); s.use(8 * k); s.grow(m)
            s.eff.append(("emit_log", me, s.rd(o, k)) + tuple(tp)); return
        if n in ("RETURN", "REVERT"):
            o, k = P(), P(); c, m = s.expand((o, k)); s.use(c); s.grow(m); s.ret = s.rd(o, k); s.kind = 2 if n == "RETURN" else 3; return
        if n == "SELFDESTRUCT":
            B = addr(P()); s.use(5000); c = 25000 if s.bal(me) and not s.ans("account_exists", B) else 0
            if berlin and not s.access("access_account", B): c += 2600
            s.use(c); s.eff.append(("selfdestruct", me, B)); s.kind = 1; s.ret = b""
            if s.ans("selfdestruct", me, B) and rev < 9: s.refund += 24000
            return
        if n in ("CREATE", "CREATE2"):
            v, o, k = P(), P(), P(); salt = P() if n == "CREATE2" else 0; s.use(32000); c, m = s.expand((o, k)); s.use(c)
            if rev >= 11:
                if k > 49152: raise Fail()
                s.use(2 * w(k))
            if n == "CREATE2": s.use(6 * w(k))
            s.grow(m); s.ret = b""
            if v and s.bal(me) < v: s.push(0); return
            g = s.gas - s.gas // 64; s.eff.append(("call", 3 if n == "CREATE" else 4, S.depth + 1, g, me, s.rd(o, k), b32(v), b32(salt) if n == "CREATE2" else None))
            if S.status == 2: s.ret = S.callout
            s.gas -= g - s.ans("call.gas_left", g); s.refund += S.callref; s.push(num(s.ans("call.addr")) if S.status == 0 else 0); return
        if n in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"):
            rq, A = P(), addr(P()); v = P() if n in VALUEAT else 0; io, ik, oo, ok = P(), P(), P(), P()
            c, m = s.expand((io, ik), (oo, ok)); s.use(c)
            if S.static and v and n == "CALL": raise Fail()
            a = s.acct(A); x = 25000 if v and n == "CALL" and not s.ans("account_exists", A) else 0
            s.use(a + (9000 if v else 0) + x); s.grow(m); s.ret = b""
            g = min(rq, s.gas - s.gas // 64)
            if v: g += 2300; s.gas += 2300
            if v and s.bal(me) < v: s.push(0); return
            own = n in ("CALLCODE", "DELEGATECALL")
            s.eff.append(("call", 1 if n == "DELEGATECALL" else 2 if n == "CALLCODE" else 0, 1 if n == "STATICCALL" else int(S.static), S.depth + 1, g, me if own else A,
                          S.msg(5, 20) if n == "DELEGATECALL" else me, s.rd(io, ik), S.msg(8, 32) if n == "DELEGATECALL" else b32(v), A))
            s.ret = S.callout; s.wr(oo, S.callout[:ok]); s.gas -= g - s.ans("call.gas_left", g); s.refund += S.callref; s.push(S.status == 0); return
        raise Unk(n)
div = lambda k: lambda a, b: op256(k, a, b) if b else 0
def signext(i, x):
    if i >= 31: return x
    n = 8 * i + 8; v = x & ((1 << n) - 1); return v | (U ^ ((1 << n) - 1)) if v >> (n - 1) else v
ARITH = {"ADD": (3, lambda a, b: a + b), "MUL": (5, lambda a, b: a * b), "SUB": (3, lambda a, b: a - b), "DIV": (5, div("div")), "SDIV": (5, div("sdiv")), "MOD": (5, div("mod")), "SMOD": (5, div("smod")),
         "ADDMOD": (8, lambda a, b, m: (a + b) % m if m else 0), "MULMOD": (8, lambda a, b, m: a * b % m if m else 0), "SIGNEXTEND": (5, signext),
         "LT": (3, lambda a, b: a < b), "GT": (3, lambda a, b: a > b), "SLT": (3, lambda a, b: sg(a) < sg(b)), "SGT": (3, lambda a, b: sg(a) > sg(b)), "EQ": (3, lambda a, b: a == b),
         "ISZERO": (3, lambda a: a == 0), "AND": (3, lambda a, b: a & b), "OR": (3, lambda a, b: a | b), "XOR": (3, lambda a, b: a ^ b), "NOT": (3, lambda a: U - a),
         "BYTE": (3, lambda i, x: (x >> (8 * (31 - i))) & 255 if i < 32 else 0), "SHL": (3, lambda k, x: x << k if k < 256 else 0), "SHR": (3, lambda k, x: x >> k if k < 256 else 0),
         "SAR": (3, lambda k, x: sg(x) >> min(k, 256))}
