"""Abstract interpretation of the C++ interpreter evmzero (LLVM IR of its interpreter, stack and memory, not inlined):
one instruction from an opaque frame. Byte buffers (std::vector<uint8_t>, spans handed in by the caller) are versioned
sequences; 256-bit integers, byte strings and host answers are opaque terms."""
import re, os
from llsem import *

WITNESS = r'''
#include "vm/evmzero/stack.cc"
#include "vm/evmzero/memory.cc"
#include "vm/evmzero/interpreter.cc"
using namespace tosca::evmzero;
extern "C" void vp_done(int kind, uint64_t pc, int64_t gas, int64_t refund, const uint256_t* top, uint64_t size, const void* mem, const void* ret) noexcept;
static inline int kindof(RunState s) { return s == RunState::kRunning ? 0 : s == RunState::kDone ? 1 : s == RunState::kReturn ? 2 : s == RunState::kRevert ? 3 : 4; }
extern "C" void vp_step(const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, const evmc_host_interface* hi, evmc_host_context* hc,
                        evmc_revision rev, int64_t refund, uint64_t pc, int64_t size, const Memory& mem, const std::vector<uint8_t>& ret, Sha3Cache* cache) {
  SteppingArgs a;
  a.padded_code = std::span<const uint8_t>(code, n); a.valid_jump_targets = std::span<const uint8_t>(jt, jn);
  a.message = msg; a.host_interface = hi; a.host_context = hc; a.revision = rev; a.sha3_cache = cache;
  a.pc = pc; a.gas_refunds = refund; a.steps = 1; a.memory = mem; a.last_call_return_data = ret;
  a.stack.SetTop(a.stack.Top() - size);
  auto r = InterpretNSteps(a);
  vp_done(kindof(r.state), r.pc, r.remaining_gas, r.refunded_gas, r.stack.Top(), r.stack.GetSize(), &r.memory, &r.return_data);
}
extern "C" void vp_full(const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, evmc::HostInterface* host,
                        evmc_revision rev, int64_t refund, int64_t size, const Memory& mem, const std::vector<uint8_t>& ret, Sha3Cache* cache) {
  internal::Context c;
  c.is_static_call = msg->flags & EVMC_STATIC; c.gas = msg->gas; c.gas_refunds = refund; c.padded_code = std::span<const uint8_t>(code, n);
  c.return_data = ret; c.valid_jump_targets = std::span<const uint8_t>(jt, jn); c.memory = mem; c.message = msg; c.host = host; c.revision = rev; c.sha3_cache = cache;
  c.stack.SetTop(c.stack.Top() - size);
  NoObserver o;
  internal::RunInterpreter<NoObserver, false>(c, o);
  vp_done(kindof(c.state), c.pc, c.gas, c.gas_refunds, c.stack.Top(), c.stack.GetSize(), &c.memory, &c.return_data);
}
'''
PASSES_NI = "internalize,globaldce,function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse)"

def module(src=WITNESS, api=("vp_step", "vp_full"), name="evmz.cc"):
    import common
    V = common.VERIF; R = common.REPO
    d = common.tmpdir(); p = os.path.join(d, name)
    with open(p, "w") as f: f.write(src)
    ll = p + ".ll"; out = p + ".opt.ll"
    common.run(["clang++-18", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-S", "-emit-llvm", "-g0", "-w", "-DNDEBUG",
                "-I", V + "/stubs/cc/evm", "-I", V + "/stubs/cc/lru", "-I", R + "/cpp", "-o", ll, p])
    common.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S", "-passes=" + PASSES_NI, "-internalize-public-api-list=" + ",".join(api), ll, "-o", out])
    return Module(open(out).read())

VEC = re.compile(r"_ZNK?St6vectorIhSaIhEE(.*)$")
HOST = re.compile(r"_ZNK?4evmc13HostInterface(\d+)(.*)$")
MM = re.compile(r"_ZSt3(min|max)I([a-z])ERKT_S2_S2_$")
W = {"l": (8, 1), "m": (8, 0), "i": (4, 1), "j": (4, 0), "x": (8, 1), "y": (8, 0)}
BUF = lambda k: LPtr(("buf", k), 0)
SRET = {"get_storage", "get_balance", "get_code_hash", "get_block_hash", "get_transient_storage", "call", "get_tx_context"}
B32 = {"get_storage": 32, "get_balance": 32, "get_code_hash": 32, "get_block_hash": 32, "get_transient_storage": 32}

def isbuf(p): return isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "buf"

def blen(b):
    if b.op == "be": return b.args[0]
    if b.op in ("brdn", "ansb", "ovl", "keccak", "slice"): return b.args[0]
    if b.op == "bytes": return sum(b.args[0::2])
    raise Und("blob " + b.op)
def chunk(b, off, n):
    if b.op == "be" and isinstance(b.args[1], int):
        x = (b.args[1] & ((1 << (8 * b.args[0])) - 1)).to_bytes(b.args[0], "big")
        return int.from_bytes(x[off:off + n], "little")
    if b.op == "bytes":
        o = 0
        for s, v in zip(b.args[0::2], b.args[1::2]):
            if o == off and s == n: return v
            o += s
    return T("bchunk", b, off, n, ty=(n, True))
def part(x, i):
    if isinstance(x, int): return (x >> (64 * i)) & (2**64 - 1)
    if x.op == "u256w": return x.args[i]
    return T("part", x, i, ty=(8, True))
def mk256(ws):
    if all(isinstance(w, int) for w in ws): return sum(w << (64 * i) for i, w in enumerate(ws))
    if all(isinstance(w, T) and w.op == "part" and w.args[1] == i and w.args[0] is ws[0].args[0] for i, w in enumerate(ws)): return ws[0].args[0]
    return T("u256w", *ws)

class EZ(LEngine):
    def __init__(self, M, op, mode, **kw):
        LEngine.__init__(self, M, **kw)
        self.op, self.mode = op, mode
        self.asize = {}; self.nomerge = set(); self.depth = 0
    # ---- vectors and buffers
    def tag(self, st, k):
        d = dict(st.tags.get(k, {})); st.tags[k] = d; return d
    def ver(self, st, o):
        return st.tags.get("buf", {}).get(o, (T("binit", o[1]), None, None))
    def lim(self, st, o):
        l = self.ver(st, o)[1]
        return l if l is not None else sym("size:%s" % (o[1],), ty=(8, True))
    def newbuf(self, st, ver, size):
        st.n += 1; o = ("buf", st.n); self.tag(st, "buf")[o] = (ver, size, None); return o
    def vec(self, st, p):
        if not isinstance(p, LPtr): raise Und("vector at %r" % (p,))
        v = st.tags.get("vec", {}).get((p.o, p.off))
        if v is None:
            if p.o in (("argmem",), ("argret",)) and p.off == 0: v = ("buf", p.o[0][3:])
            else: raise Und("vector used before its construction")
            self.setvec(st, p, v)
        return v
    def setvec(self, st, p, o): self.tag(st, "vec")[(p.o, p.off)] = o
    def stale(self, st, o, cond):
        v = self.ver(st, o); self.tag(st, "buf")[o] = (v[0], self.lim(st, o), cond)
    def need(self, st, p, n, what):
        """records that [p, p+n) must lie in its buffer"""
        if isinstance(n, int) and n == 0: return
        v = self.ver(st, p.o)
        st.tags["obl"] = st.tags.get("obl", ()) + ((p.o[1], p.off, n, self.lim(st, p.o), v[2], what, len(st.facts.order)),)
    def setver(self, st, o, ver):
        v = self.ver(st, o); self.tag(st, "buf")[o] = (ver, v[1], v[2])
    def resize(self, st, p, n):
        o = self.vec(st, p); v = self.ver(st, o)[0]; old = self.lim(st, o)
        if n == 0 and isinstance(n, int): nv = T("bzero", 0)
        else: nv = T("bresize", v, n)
        self.stale(st, o, (old, n)); self.setvec(st, p, self.newbuf(st, nv, n))
    def size64(self, a, b):
        """b - a for pointers"""
        if isinstance(a, int) and isinstance(b, int): return (b - a) & (2**64 - 1)
        return self.arith_ptrdiff(b, a)
    def arith_ptrdiff(self, a, b):
        if isinstance(a, LPtr) and isinstance(b, LPtr) and a.o == b.o:
            return (a.off - b.off) & (2**64 - 1) if isinstance(a.off, int) and isinstance(b.off, int) else aff_add(a.off, b.off, (8, True), -1)
        raise Und("difference of unrelated pointers %r %r" % (a, b))
    def plainobj(self, p): return isinstance(p, LPtr) and not isbuf(p)
    def src(self, st, p, n, what):
        """descriptor of the n bytes at p"""
        if isbuf(p):
            self.need(st, p, n, what); return T("bcopy", self.ver(st, p.o)[0], p.off)
        if isinstance(n, int): return T("bval", self.rdbytes(st, p, n))
        if isinstance(p, LPtr) and p.o in self.asize and isinstance(p.off, int): return T("bval", self.rdbytes(st, p, self.asize[p.o] - p.off))
        raise Und("bytes of unknown extent at %r" % (p,))
    def bwrite(self, st, p, n, desc, what):
        self.need(st, p, n, what); self.setver(st, p.o, T("bw", self.ver(st, p.o)[0], p.off, n, desc))
    def copybytes(self, st, d, s, n, what):
        if isinstance(n, int) and n == 0: return
        if isinstance(d, int) or isinstance(s, int):
            # a null pointer is fine as long as nothing is copied
            st.tags["zero"] = st.tags.get("zero", ()) + (n,); return
        if isbuf(d): self.bwrite(st, d, n, self.src(st, s, n, what), what); return
        if isinstance(n, int):
            if isbuf(s):
                self.need(st, s, n, what); self.wrbytes(st, d, T("brdn", n, self.ver(st, s.o)[0], s.off)); return
            LEngine_mcopy(self, st, d, s, n); return
        if d.o in self.asize and isinstance(d.off, int):
            c = self.asize[d.o] - d.off
            st.tags["obl"] = st.tags.get("obl", ()) + (("local", 0, n, c, None, what, 0),)
            self.wrbytes(st, d, T("ovl", c, self.rdbytes(st, d, c), n, self.src(st, s, n, what))); return
        raise Und("copy of unknown length to %r" % (d,))
    def fillbytes(self, st, d, n, v, what):
        if isinstance(n, int) and n == 0: return
        if isinstance(d, int): st.tags["zero"] = st.tags.get("zero", ()) + (n,); return
        if isbuf(d): self.bwrite(st, d, n, T("bfill", v), what); return
        if d.o in self.asize and isinstance(d.off, int) and not isinstance(n, int):
            c = self.asize[d.o] - d.off
            self.wrbytes(st, d, T("ovl", c, self.rdbytes(st, d, c), n, T("bfill", v))); return
        LEngine.mset(self, st, d, v, n)
    def rdbytes(self, st, p, n):
        if n == 0: return T("bytes")
        if isbuf(p):
            self.need(st, p, n, "read"); return T("brdn", n, self.ver(st, p.o)[0], p.off)
        if not isinstance(p, LPtr): raise Und("bytes at %r" % (p,))
        ps = []; b = 0; m = st.mem.get(p.o) or {}
        while b < n:
            off = aff_add(p.off, b, (8, True)) if not isinstance(p.off, int) else p.off + b
            if off in m and m[off][0] <= n - b: s = m[off][0]
            else:
                s = 8
                while s > n - b: s //= 2
                while s > 1 and isinstance(off, int) and any(isinstance(k, int) and k != "default" and k < off + s and off < k + m[k][0] for k in m if k != "default"): s //= 2
            ps += [s, self.mload(st, LPtr(p.o, off), s)]; b += s
        vs = ps[1::2]
        if all(isinstance(v, T) and v.op == "bchunk" and v.args[0] is vs[0].args[0] for v in vs):
            B = vs[0].args[0]; o = 0; ok = blen(B) == n
            for s, v in zip(ps[0::2], vs):
                ok = ok and v.args[1] == o and v.args[2] == s; o += s
            if ok: return B
        if UNDEF in vs: return T("bytes", *[T("undef", ty=(1, True)) if x is UNDEF else x for x in ps])
        if all(isinstance(v, int) for v in vs):
            x = b"".join(v.to_bytes(s, "little") for s, v in zip(ps[0::2], vs)); return T("be", n, int.from_bytes(x, "big"))
        return T("bytes", *[int(x) if isinstance(x, bool) else x for x in ps])
    def wrbytes(self, st, p, B):
        n = blen(B)
        if isbuf(p): self.bwrite(st, p, n, T("bval", B), "write"); return
        b = 0
        while b < n:
            s = 8
            while s > n - b: s //= 2
            off = aff_add(p.off, b, (8, True)) if not isinstance(p.off, int) else p.off + b
            self.mstore(st, LPtr(p.o, off), s, chunk(B, b, s)); b += s
    def rd256(self, st, p):
        p = self.toptr(p)
        return mk256([self.mload(st, LPtr(p.o, aff_add(p.off, 8 * i, (8, True)) if not isinstance(p.off, int) else p.off + 8 * i), 8) for i in range(4)])
    def wr256(self, st, p, x):
        p = self.toptr(p)
        for i in range(4): self.mstore(st, LPtr(p.o, aff_add(p.off, 8 * i, (8, True)) if not isinstance(p.off, int) else p.off + 8 * i), 8, part(x, i))
    # ---- memory hooks
    def leaf(self, st, o, off, size, ty):
        if isinstance(o, tuple) and o[0] == "g":
            g = self.M.globals.get(o[1])
            if g and g["init"] is not None:
                if isinstance(off, int):
                    b = self.gbytes(g, off, size)
                    if b is not None: return b
                elif g["const"] and size == 8 and isinstance(off, T) and off.op == "aff" and off.args[0] == 0 and len(off.args[1]) == 1 and off.args[1][0][1] == 8:
                    f = off.args[1][0][0]
                    if f.op == "zext": f = f.args[0]
                    if isinstance(f, T) and f.op == "brd" and f.args[3] == 1 and f.args[1].op == "binit" and f.args[1].args[0] == "code":
                        k = st.tags.get("fetch", ()); st.tags["fetch"] = k + (f.args[2],)
                        return self.gbytes(g, 8 * (self.op if not k else 0), 8)
                    if isinstance(f, T) and f.op == "mem": raise Und("dispatch on %r" % (f,))
        if isinstance(o, tuple) and o[0] == "stk": return T("mem", o, off, size, ty=(size, True))
        return LEngine.leaf(self, st, o, off, size, ty)
    def gbytes(self, g, off, size):
        m = self.ginit(g)
        if off in m and m[off][0] == size: return m[off][1]
        if not m and g["init"][0] in ("zero",): return 0
        return LEngine.gbytes(self, g, off, size)
    def mload(self, st, p, size, ty=None):
        if st.frames: self.cur = st
        if isbuf(p):
            self.need(st, p, size, "load"); return T("brd", 0, self.ver(st, p.o)[0], p.off, size, ty=(size, True))
        m = st.mem.get(p.o)
        if m and isinstance(p.off, T) and p.off not in m and p.o in self.asize and size == 1:
            return T("idx", self.rdbytes(st, LPtr(p.o, 0), self.asize[p.o]), p.off, ty=(1, True))
        return LEngine.mload(self, st, p, size, ty)
    def mstore(self, st, p, size, v):
        if isbuf(p):
            self.bwrite(st, p, size, T("bval", T("bytes", size, v)), "store"); return
        LEngine.mstore(self, st, p, size, v)
    def mcopy(self, st, d, s, n): self.copybytes(st, d, s, n, "memcpy")
    def mset(self, st, d, v, n): self.fillbytes(st, d, n, v, "memset")
    def arith(self, st, op, a, b, n, flags=()):
        if op in ("ashr", "lshr") and "exact" in flags and isinstance(b, int) and isinstance(a, T) and a.op == "aff":
            c, items = a.args; k = 1 << b
            if c % k == 0 and all(x % k == 0 for _, x in items): return aff_make(c // k, {t: x // k for t, x in items}, u(n))
        return LEngine.arith(self, st, op, a, b, n, flags)
    def cmpptr(self, st, p, a, b):
        if isbuf(a) and isinstance(b, int) and b == 0 or isbuf(b) and isinstance(a, int) and a == 0: return {"eq": False, "ne": True}.get(p)
        return LEngine.cmpptr(self, st, p, a, b)
    def cmp(self, st, p, a, b, ty):
        r = LEngine.cmp(self, st, p, a, b, ty)
        if isinstance(r, T) and r.op == "==":
            for k, v in (r.args, r.args[::-1]):
                if isinstance(k, int) and isinstance(v, T) and v.op == "ite" and all(isinstance(y, int) for y in v.args[1:]):
                    x, y = v.args[1] == k, v.args[2] == k
                    return x if x == y else self.dec(st, v.args[0] if x else mk_not(v.args[0]))
        return r
    def distinct(self, a, b):
        k = lambda o: isinstance(o, tuple) and o[0] in ("stk", "msg", "argmem", "argret", "tx", "buf")
        if (k(a) or LEngine.distinct(self, a, a) or (isinstance(a, tuple) and a[0] in ("alloca", "heap", "g"))) and (k(b) or (isinstance(b, tuple) and b[0] in ("alloca", "heap", "g"))): return a != b
        return LEngine.distinct(self, a, b)
    def ins(self, st, fr, x, work):
        if x["op"] == "alloca":
            r = LEngine.ins(self, st, fr, x, work)
            self.asize[fr.regs[x["d"]].o] = self.M.size(x["ty"]); return r
        if x["op"] == "select" and x["ty"].k == "int" and x["ty"].n > 1:
            c = self.val(fr, x["c"], ity(1))
            if isinstance(c, T) and c is not UNDEF:
                c = self.dec(st, c)
                a, b = self.val(fr, x["a"], x["ty"]), self.val(fr, x["b"], x["ty"])
                if isinstance(c, T) and all(isinstance(y, (int, T)) and y is not UNDEF for y in (a, b)):
                    fr.regs[x["d"]] = a if a is b or (isinstance(a, int) and a == b and isinstance(b, int)) else T("ite", c, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b, ty=u(x["ty"].n)); return "cont"
        return LEngine.ins(self, st, fr, x, work)
    def intrinsic(self, st, fr, x, name, a, put, work):
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")) and x["ty"].k == "int":
            put(st, self.minmax(st, name[6:8] == "in", name[5] == "s", a[0], a[1], x["ty"].n)); return "cont"
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or name in ("memcpy", "memmove", "memset"):
            if "memset" in name: self.fillbytes(st, a[0], a[2], a[1], "memset")
            else: self.copybytes(st, a[0], a[1], a[2], name)
            put(st, a[0]); return "cont"
        return LEngine.intrinsic(self, st, fr, x, name, a, put, work)
    def minmax(self, st, ismin, signed, a, b, n):
        c = self.cmp(st, ("s" if signed else "u") + "lt", a, b, ity(n)); c = self.dec(st, c)
        lo, hi = (a, b) if ismin else (b, a)
        if not isinstance(c, T): return lo if c else hi
        return T("ite", c, lo, hi, ty=u(n))
    # ---- calls
    def call(self, st, fr, x, work):
        f = x["fn"]
        if f[0] == "g":
            name = self.M.aliases.get(f[1], f[1]); h = None
            if name.startswith("vp_"): h = self.vp
            elif VEC.match(name): h = self.vecop
            elif HOST.match(name): h = self.host
            elif MM.match(name): h = self.stdminmax
            elif name.startswith("_ZSt4copyI") or name.startswith("_ZSt6copy_nI") or name.startswith("_ZSt6fill_nI") or name.startswith("_ZSt4fillI"): h = self.algo
            elif "Sha3Cache4Hash" in name or "ethash9keccak256" in name: h = self.hash
            elif name in ("_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "pthread_mutex_lock", "pthread_mutex_unlock"): h = self.misc
            elif name.startswith("_ZN4evmc6ResultD"): h = self.misc
            if h:
                args = [self.val(fr, c, t) if t.k != "metadata" else None for t, c in x["args"]]
                ok = x.get("ok")
                def put(s, v):
                    c = s.frames[-1]
                    if x["d"] is not None: c.regs[x["d"]] = v
                    if ok: self.goto(s, c, ok)
                r = h(st, fr, x, name, args, put, work)
                if r is not None: return r
            elif name in self.M.funcs and "sret" in x["text"] and name not in self.nomerge:
                if self.merge(st, fr, x, name): return "cont"
                self.nomerge.add(name)
        return LEngine.call(self, st, fr, x, work)
    def merge(self, st, fr, x, name):
        """a call whose only effect is its result object: all its paths at once, the result as a case distinction"""
        args = [self.val(fr, c, t) if t.k != "metadata" else None for t, c in x["args"]]
        out = self.toptr(args[0]); sub = st.copy(); sub.frames = []
        if out is None or self.depth > 2: return False
        n0 = len(st.facts.order); self.depth += 1
        try:
            self.push(sub, self.M.funcs[name], args, None); rs = self.loop([sub])
        finally: self.depth -= 1
        if len(rs) < 2 or len(rs) > 64: return False
        loc = lambda k: isinstance(k, tuple) and k[0] == "alloca" and k not in st.mem
        for r in rs:
            if r.kind != "ret" or isinstance(r.val, T) or r.st.events != st.events: return False
            if any(r.st.tags.get(k) is not st.tags.get(k) and r.st.tags.get(k) != st.tags.get(k) for k in set(r.st.tags) | set(st.tags)): return False
            for k, m in r.st.mem.items():
                if k != out.o and not loc(k) and m is not st.mem.get(k) and m != st.mem.get(k): return False
        ms = [r.st.mem.get(out.o) or {} for r in rs]
        if any({k: m[k][0] for k in m if k != "default"} != {k: ms[0][k][0] for k in ms[0] if k != "default"} for m in ms): return False
        conds = [T("allof", *[y for a, v in r.st.facts.order[n0:] for y in (a, v)]) for r in rs]
        m = dict(ms[0])
        for k in m:
            if k == "default": continue
            vs = [q[k][1] for q in ms]; sz = m[k][0]
            if all(v is vs[0] or (isinstance(v, int) and v == vs[0] and isinstance(vs[0], int)) for v in vs): continue
            if any(not isinstance(v, (int, T)) for v in vs): return False
            t = T("undef", ty=(sz, True)) if vs[-1] is UNDEF else int(vs[-1]) if isinstance(vs[-1], bool) else vs[-1]
            for c, v in list(zip(conds, vs))[-2::-1]:
                v = T("undef", ty=(sz, True)) if v is UNDEF else int(v) if isinstance(v, bool) else v
                if v is not t: t = T("ite", c, v, t, ty=(sz, True))
            iv = [r.st.facts.interval(v) if v is not UNDEF else (None, None) for r, v in zip(rs, vs)]
            if isinstance(t, T) and all(None not in i for i in iv): st.facts._narrow(t, min(i[0] for i in iv), max(i[1] for i in iv))
            m[k] = (sz, t)
        st.mem[out.o] = m; st.n = max(r.st.n for r in rs)
        if x["d"] is not None: fr.regs[x["d"]] = rs[0].val
        if x.get("ok"): self.goto(st, fr, x["ok"])
        return True
    def misc(self, st, fr, x, name, a, put, work):
        if name == "_ZnwmSt11align_val_t":
            st.tags["nstk"] = st.tags.get("nstk", 0) + 1
            put(st, LPtr(("stk", st.tags["nstk"]), 0)); return "cont"
        put(st, 0); return "cont"
    def stdminmax(self, st, fr, x, name, a, put, work):
        m = MM.match(name); w = W.get(m.group(2))
        if not w: return None
        pa, pb = self.toptr(a[0]), self.toptr(a[1])
        v = self.minmax(st, m.group(1) == "min", bool(w[1]), self.mload(st, pa, w[0]), self.mload(st, pb, w[0]), 8 * w[0])
        st.n += 1; p = LPtr(("alloca", "minmax", st.n), 0); self.asize[p.o] = w[0]; self.mstore(st, p, w[0], v); put(st, p); return "cont"
    def algo(self, st, fr, x, name, a, put, work):
        if len(a) != 3: return None
        if name.startswith("_ZSt4copyI"):
            n = self.size64(a[0], a[1]); self.copybytes(st, a[2], a[0], n, "std::copy"); put(st, self.adv(a[2], n)); return "cont"
        if name.startswith("_ZSt6copy_nI"):
            t, c = x["args"][1]; n = a[1]
            if t.k == "int" and t.n < 64: n = self.cast(st, "sext", n, t, ity(64))
            self.copybytes(st, a[2], a[0], n, "std::copy_n"); put(st, self.adv(a[2], n)); return "cont"
        if name.startswith("_ZSt6fill_nI"):
            t, c = x["args"][1]; n = a[1]
            if t.k == "int" and t.n < 64: n = self.cast(st, "sext", n, t, ity(64))
            v = self.mload(st, self.toptr(a[2]), self.refsize(x, 2)); self.fillbytes(st, a[0], n, self.low8(v), "std::fill_n"); put(st, self.adv(a[0], n)); return "cont"
        n = self.size64(a[0], a[1]); v = self.mload(st, self.toptr(a[2]), self.refsize(x, 2))
        self.fillbytes(st, a[0], n, self.low8(v), "std::fill"); put(st, None); return "cont"
    def low8(self, v): return v & 255 if isinstance(v, int) else v if v.ty == (1, True) else T("trunc", v, ty=(1, True))
    def refsize(self, x, i):
        m = re.findall(r"dereferenceable\((\d+)\)", x["text"]); return int(m[-1]) if m else 1
    def adv(self, p, n):
        if isinstance(p, int): return p
        return LPtr(p.o, aff_add(p.off, n, (8, True)) if not (isinstance(p.off, int) and isinstance(n, int)) else p.off + n)
    def hash(self, st, fr, x, name, a, put, work):
        if "Sha3Cache" in name: out, p, n = a[0], a[2], a[3]
        else: out, p, n = a[0], a[1], a[2]
        if isinstance(p, int): d = T("bcopy", T("bzero", 0), 0)
        else: d = self.src(st, p, n, "hash")
        B = T("keccak", 32, d, n)
        if "Sha3Cache" in name: self.wr256(st, out, T("frombe", B))
        else: self.wrbytes(st, self.toptr(out), B)
        put(st, None); return "cont"
    def vp(self, st, fr, x, name, a, put, work):
        n = name[3:]
        if n == "done":
            g = lambda p: (lambda o: (self.ver(st, o)[0], self.lim(st, o)))(self.vec(st, p))
            return LResult("done", (a[0], a[1], a[2], a[3], a[4], a[5], g(a[6]), g(a[7])), st)
        if n in ("lt", "eq", "slt", "carry"):
            p, q = self.rd256(st, a[0]), self.rd256(st, a[1])
            if isinstance(p, int) and isinstance(q, int):
                sg = lambda v: v - (1 << 256) if v >> 255 else v
                put(st, {"lt": p < q, "eq": p == q, "slt": sg(p) < sg(q), "carry": p + q >= 1 << 256}[n])
            elif n == "eq": put(st, True if p is q else T("u256eq", *sorted((p, q), key=lambda t: (0, t) if isinstance(t, int) else (1, t.id))))
            else: put(st, False if p is q and n != "carry" else T("u256" + n, p, q))
            return "cont"
        if n in ("sigbytes", "clz"): put(st, T("u256" + n, self.rd256(st, a[0]), ty=(4, True))); return "cont"
        if n == "be_load":
            B = self.rdbytes(st, self.toptr(a[1]), a[2])
            self.wr256(st, a[0], B.args[1] % (1 << (8 * B.args[0])) if B.op == "be" and isinstance(B.args[1], int) else B.args[1] if B.op == "be" and B.args[0] == 32 else T("frombe", B)); put(st, None); return "cont"
        if n == "be_store":
            self.wrbytes(st, self.toptr(a[0]), T("be", a[1], self.rd256(st, a[2]))); put(st, None); return "cont"
        if n in ("mem_eq", "mem_lt"):
            put(st, T(n, self.rdbytes(st, self.toptr(a[0]), a[2]), self.rdbytes(st, self.toptr(a[1]), a[2]))); return "cont"
        if n == "mem_nz": put(st, T(n, self.rdbytes(st, self.toptr(a[0]), a[1]))); return "cont"
        v = [self.rd256(st, p) for p in a[1:]]
        self.wr256(st, a[0], T("o256", n, *v)); put(st, None); return "cont"
    def vecop(self, st, fr, x, name, a, put, work):
        m = VEC.match(name).group(1); p = a[0]
        def ret(v=None): put(st, v); return "cont"
        if m in ("C2Ev", "C1Ev"): self.setvec(st, p, self.newbuf(st, T("bzero", 0), 0)); return ret()
        if m.startswith(("D1", "D2")): return ret()
        if re.match(r"C[12]ERKS1_|aSERKS1_", m):
            if m.startswith("aS") and p == a[1]: return ret(p)
            o = self.vec(st, a[1]); n = self.newbuf(st, self.ver(st, o)[0], self.lim(st, o)); self.setvec(st, p, n); return ret(p)
        if re.match(r"C[12]EOS1_|aSEOS1_", m):
            o = self.vec(st, a[1]); self.setvec(st, p, o); self.setvec(st, a[1], self.newbuf(st, T("bzero", 0), 0)); return ret(p)
        if m.startswith("4swapERS1_"):
            o, q = self.vec(st, p), self.vec(st, a[1]); self.setvec(st, p, q); self.setvec(st, a[1], o); return ret()
        if m.startswith("6resizeEm"):
            if m != "6resizeEm": return None if False else (_ for _ in ()).throw(Und("vector::resize with value"))
            self.resize(st, p, a[1]); return ret()
        if m.startswith("7reserve"): return ret()
        if m.startswith("5clear"): self.setvec(st, p, self.newbuf(st, T("bzero", 0), 0)); return ret()
        if m.startswith("6assignI") or re.match(r"C[12]I", m):
            n = self.size64(a[1], a[2]); d = self.src(st, a[1], n, "assign") if isinstance(a[1], LPtr) else None
            v = T("bzero", 0) if d is None else T("bw", T("bresize", T("bzero", 0), n), 0, n, d)
            self.setvec(st, p, self.newbuf(st, v, n)); return ret()
        if m.startswith("4size"): return ret(self.lim(st, self.vec(st, p)))
        if m.startswith("4data") or m.startswith("5begin") or m.startswith("6cbegin"): return ret(LPtr(self.vec(st, p), 0))
        if m.startswith("3end") or m.startswith("4cend"):
            o = self.vec(st, p); return ret(LPtr(o, self.lim(st, o)))
        if m.startswith("5empty"): return ret(mk_eq(self.lim(st, self.vec(st, p)), 0))
        if m.startswith("ixEm"): return ret(LPtr(self.vec(st, p), a[1]))
        raise Und("std::vector method " + m)
    def fo(self, i): return self.M.fieldoff(self.M.types["struct.evmc_message"], i)
    def host(self, st, fr, x, name, a, put, work):
        m = HOST.match(name); k = int(m.group(1)); meth = m.group(2)[:k]
        out = None
        if meth in SRET: out = self.toptr(a[0]); a = a[1:]
        a = a[1:]
        ad = lambda p: self.rdbytes(st, self.toptr(p), 20)
        b32 = lambda p: self.rdbytes(st, self.toptr(p), 32)
        def ev(*args): st.events.append(("host", meth) + args)
        if meth in ("account_exists", "get_balance", "get_code_size", "get_code_hash"):
            A = ad(a[0]); ev(A)
            if out is not None: self.wrbytes(st, out, T("ansb", 32, meth, A)); put(st, None)
            else: put(st, T("ans", meth, A, ty=(8, True) if meth == "get_code_size" else None))
            return "cont"
        if meth in ("get_storage", "get_transient_storage"):
            A, K = ad(a[0]), b32(a[1]); ev(A, K); self.wrbytes(st, out, T("ansb", 32, meth, A, K)); put(st, None); return "cont"
        if meth in ("set_storage", "set_transient_storage"):
            A, K, V_ = ad(a[0]), b32(a[1]), b32(a[2]); ev(A, K, V_)
            put(st, T("ans", meth, A, K, V_, ty=(4, True)) if meth == "set_storage" else None); return "cont"
        if meth in ("access_account", "access_storage"):
            A = (ad(a[0]),) + ((b32(a[1]),) if meth == "access_storage" else ()); prev = st.tags.get(meth, 0); ev(*A)
            t = T("ans", meth, *A, prev, ty=(4, True)); st.facts._narrow(t, 0, 1); st.tags[meth] = t; put(st, t); return "cont"
        if meth == "selfdestruct":
            A, B = ad(a[0]), ad(a[1]); ev(A, B); put(st, T("ans", meth, A, B)); return "cont"
        if meth == "get_block_hash": ev(a[0]); self.wrbytes(st, out, T("ansb", 32, meth, a[0])); put(st, None); return "cont"
        if meth == "emit_log":
            A = ad(a[0]); n = a[4]
            if not isinstance(n, int): raise Und("log with unknown number of topics")
            d = self.src(st, a[1], a[2], "log data") if isinstance(a[1], LPtr) else T("bcopy", T("bzero", 0), 0)
            tp = [b32(LPtr(a[3].o, a[3].off + 32 * i)) for i in range(n)]
            ev(A, d, a[2], *tp); put(st, None); return "cont"
        if meth == "copy_code":
            A = ad(a[0]); ev(A, a[1]); t = T("ans", meth, A, a[1], a[3], ty=(8, True))
            if isinstance(a[2], LPtr): self.bwrite_any(st, a[2], t, T("bcode", A, a[1]), a[3])
            put(st, t); return "cont"
        if meth == "get_tx_context":
            ev(); n = self.M.size(self.M.types["struct.evmc_tx_context"]); base = out.off
            if not isinstance(base, int): raise Und("transaction context at %r" % (out,))
            tt = self.M.types["struct.evmc_tx_context"]; ob = self.M.fieldoff(tt, 10)
            for b in range(0, n, 8): self.mstore(st, LPtr(out.o, base + b), 8, BUF("blobs") if b == ob else T("mem", ("tx",), b, 8, ty=(8, True)))
            put(st, None); return "cont"
        if meth == "call":
            p = self.toptr(a[0]); L = lambda i, n: self.mload(st, LPtr(p.o, p.off + self.fo(i)), n)
            B = lambda i, n: self.rdbytes(st, LPtr(p.o, p.off + self.fo(i)), n)
            ip, n = L(6, 8), L(7, 8)
            d = self.src(st, ip, n, "input data of a call") if isinstance(ip, LPtr) else T("bcopy", T("bzero", 0), 0)
            k = st.tags.get("ncall", 0); st.tags["ncall"] = k + 1
            gas = L(3, 8)
            ev(L(0, 4), L(1, 4), L(2, 4), gas, B(4, 20), B(5, 20), d, n, B(8, 32), B(9, 32), B(10, 20))
            rt = self.M.types["struct.evmc_result"]; F = lambda i: LPtr(out.o, out.off + self.M.fieldoff(rt, i))
            self.mstore(st, F(0), 4, T("ans", "call.status", k, ty=(4, True)))
            gl = T("ans", "call.gas_left", gas, k, ty=(8, True)); self.mstore(st, F(1), 8, gl); st.facts._narrow(gl, 0, (1 << 63) - 1)
            self.mstore(st, F(2), 8, T("ans", "call.refund", k, ty=(8, True)))
            self.mstore(st, F(3), 8, BUF("callout")); self.mstore(st, F(4), 8, sym("size:callout", ty=(8, True)))
            self.mstore(st, F(5), 8, 0); self.wrbytes(st, F(6), T("ansb", 20, "call.addr", k)); put(st, None); return "cont"
        raise Und("host method " + meth)
    def bwrite_any(self, st, p, n, desc, cap):
        if not isbuf(p): raise Und("code copied to %r" % (p,))
        self.need(st, p, cap, "copy_code"); self.setver(st, p.o, T("bw", self.ver(st, p.o)[0], p.off, n, desc))

def LEngine_mcopy(eng, st, d, s, n):
    if n >= 1024:
        fz = LState(); fz.mem[s.o] = dict(st.mem.get(s.o) or {}); fz.tags = st.tags
        dl = aff_add(s.off, d.off, (8, True), -1) if not (isinstance(s.off, int) and isinstance(d.off, int)) else s.off - d.off
        o = s.o
        def df(off, size, fz=fz, dl=dl, o=o):
            q = aff_add(off, dl, (8, True)) if not (isinstance(off, int) and isinstance(dl, int)) else off + dl
            fz.facts = eng.cur.facts; return eng.mload(fz, LPtr(o, q), size)
        df.src, df.o, df.dl = fz.mem[s.o], s.o, dl
        st.mem[d.o] = {"default": df}; return
    b = 0
    while b < n:
        z = 8
        while z > n - b: z //= 2
        add = lambda p: aff_add(p.off, b, (8, True)) if not isinstance(p.off, int) else p.off + b
        so = add(s); m = st.mem.get(s.o) or {}
        if isinstance(so, int):
            if so in m and m[so][0] <= n - b and m[so][0] < 8: z = m[so][0]
            else:
                while z > 1 and so not in m and any(isinstance(k, int) and k < so + z and so < k + m[k][0] for k in m if k != "default"): z //= 2
        eng.mstore(st, LPtr(d.o, add(d)), z, eng.mload(st, LPtr(s.o, so), z)); b += z

def frame(eng):
    """opaque frame: arguments of the witness"""
    st = LState(); S = lambda n, w=8: sym(n, ty=(w, True))
    M = eng.M
    st.mem[("msg",)] = {M.fieldoff(M.types["struct.evmc_message"], 6): (8, BUF("input"))}
    st.facts._narrow(S("N"), 0, 1024); st.facts._narrow(S("rev", 4), 7, 12)
    for k in ("code", "jt", "mem", "ret", "input", "callout", "blobs"): st.facts._narrow(S("size:" + k), 0, 1 << 40)
    st.facts._narrow(S("size:code"), 33, 1 << 40); st.facts._narrow(S("pc"), 0, 1 << 40)
    st.facts._narrow(T("mem", ("msg",), eng.fo(3), 8, ty=(8, True)), 0, 1 << 52)
    st.facts._narrow(T("mem", ("msg",), eng.fo(2), 4, ty=(4, True)), 0, 1024)
    st.facts._narrow(T("mem", ("msg",), eng.fo(7), 8, ty=(8, True)), 0, 1 << 40)
    cache = LPtr(("cache",), 0)
    a = [BUF("code"), S("size:code"), BUF("jt"), S("size:jt"), LPtr(("msg",), 0)]
    if eng.mode == "step": a += [LPtr(("hi",), 0), LPtr(("hc",), 0), S("rev", 4), S("refund"), S("pc"), S("N"), LPtr(("argmem",), 0), LPtr(("argret",), 0), cache]
    else: a += [LPtr(("hi",), 0), S("rev", 4), S("refund"), S("N"), LPtr(("argmem",), 0), LPtr(("argret",), 0), cache]
    return st, a

def paths(M, op, mode, **kw):
    e = EZ(M, op, mode, **kw); st, a = frame(e)
    return e, e.run("vp_" + mode, a, st)
