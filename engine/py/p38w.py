"""Abstract interpretation of evmzero's EVMC entry points (LLVM IR of evmzero.cc with an opaque interpreter and an opaque cache)."""
import os, re
from llsem import *
import evmz
from evmz import EZ, LPtr, isbuf, BUF

WITNESS = r'''
#include <array>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <span>
#include <string_view>
#include <vector>
#define private public
#include "vm/evmzero/stack.cc"
#include "vm/evmzero/memory.cc"
#include "vm/evmzero/evmzero.cc"
#undef private
using namespace tosca::evmzero;
extern "C" {
const std::vector<uint8_t>& vp_vec(int kind, const void* p, size_t n) noexcept;
void vp_interp(const void* observer, const void* code, size_t n, const void* jt, size_t jn, const void* msg, const void* hi, const void* hc, int rev, const void* sha3) noexcept;
void vp_stepargs(int state, uint64_t pc, int64_t refunds, const uint256_t* top, uint64_t size, const void* mem, const void* lrd, int steps) noexcept;
uint64_t vp_out(int i) noexcept;
uint256_t vp_word(int i) noexcept;
void vp_buf(const void** p, size_t* n) noexcept;
}
namespace tosca::evmzero {
static void rep(const InterpreterArgs& a, const void* o) { vp_interp(o, a.padded_code.data(), a.padded_code.size(), a.valid_jump_targets.data(), a.valid_jump_targets.size(), a.message, a.host_interface, a.host_context, a.revision, a.sha3_cache); }
static void res(InterpreterResult& r) { r.state = static_cast<RunState>(vp_out(0)); r.remaining_gas = vp_out(1); r.refunded_gas = vp_out(2); r.return_data = vp_vec(2, nullptr, 0); }
template <Observer O> InterpreterResult Interpret(const InterpreterArgs& a, O& o) { rep(a, &o); InterpreterResult r; res(r); return r; }
template InterpreterResult Interpret<NoObserver>(const InterpreterArgs&, NoObserver&);
template InterpreterResult Interpret<Logger>(const InterpreterArgs&, Logger&);
template InterpreterResult Interpret<Profiler<ProfilerMode::kFull>>(const InterpreterArgs&, Profiler<ProfilerMode::kFull>&);
template InterpreterResult Interpret<Profiler<ProfilerMode::kExternal>>(const InterpreterArgs&, Profiler<ProfilerMode::kExternal>&);
SteppingResult InterpretNSteps(const SteppingArgs& a) {
  rep(a, nullptr);
  Stack copy = a.stack;
  vp_stepargs(static_cast<int>(a.state), a.pc, a.gas_refunds, copy.Top(), copy.GetSize(), &a.memory, &a.last_call_return_data, a.steps);
  SteppingResult r; res(r); r.pc = vp_out(3);
  uint64_t n = vp_out(4); for (uint64_t i = 0; i < n; ++i) r.stack.Push(vp_word(i));
  const void* p; size_t m; vp_buf(&p, &m);
  r.memory = Memory(std::span<const uint8_t>(static_cast<const uint8_t*>(p), m));
  r.last_call_return_data = vp_vec(3, nullptr, 0);
  return r;
}
namespace internal { std::vector<uint8_t> PadCode(std::span<const uint8_t> c) { return vp_vec(0, c.data(), c.size()); } }
namespace op { ValidJumpTargetsBuffer CalculateValidJumpTargets(std::span<const uint8_t> c) { return vp_vec(1, c.data(), c.size()); } }
}
extern "C" {
evmc_vm* vp_create() { return evmc_create_evmzero(); }
evmc_vm_steppable* vp_create_steppable() { return evmc_create_steppable_evmzero(); }
const void* vp_member(evmc_vm* v, int i) {
  VM* vm = static_cast<VM*>(v);
  switch (i) { case 0: return &vm->no_observer_; case 1: return &vm->logger_; case 2: return &vm->profiler_; case 3: return &vm->profiler_external_; case 4: return &vm->sha3_cache_; default: return &vm->contract_info_cache_; }
}
int vp_option(evmc_vm* vm, const char* name, const char* value) { return vm->set_option(vm, name, value); }
int vp_flags(evmc_vm* v) { VM* vm = static_cast<VM*>(v); return vm->logging_enabled_ | vm->analysis_cache_enabled_ << 1 | vm->sha3_cache_enabled_ << 2 | vm->profiling_enabled_ << 3 | vm->profiling_external_enabled_ << 4; }
void vp_execute(evmc_result* out, evmc_vm* vm, const evmc_host_interface* hi, evmc_host_context* hc, evmc_revision rev, const evmc_message* msg, const uint8_t* code, size_t n) { *out = vm->execute(vm, hi, hc, rev, msg, code, n); }
void vp_release(const evmc_result* r) { if (r->release) r->release(r); }
void vp_stepn(evmc_step_result* out, evmc_vm_steppable* vm, const evmc_host_interface* hi, evmc_host_context* hc, evmc_revision rev, const evmc_message* msg, const uint8_t* code, size_t n,
              evmc_step_status_code status, uint64_t pc, int64_t refunds, evmc_uint256be* stack, size_t ss, uint8_t* mem, size_t ms, uint8_t* lrd, size_t ls, int32_t steps) {
  *out = vm->step_n(vm, hi, hc, rev, msg, code, n, status, pc, refunds, stack, ss, mem, ms, lrd, ls, steps);
}
void vp_release_step(const evmc_step_result* r) { if (r->release) r->release(r); }
void vp_destroy(evmc_vm* vm) { vm->destroy(vm); }
void vp_destroy_steppable(evmc_vm_steppable* vm) { vm->destroy(vm); }
int vp_abi(evmc_vm* vm) { return vm->abi_version == EVMC_ABI_VERSION; }
int vp_caps(evmc_vm* vm) { return vm->get_capabilities(vm); }
const char* vp_str(evmc_vm* vm, int i) { return i ? vm->version : vm->name; }
void vp_dump(evmc_vm* vm) { evmzero_dump_profile(vm); }
void vp_resetp(evmc_vm* vm) { evmzero_reset_profiler(vm); }
const void* vp_inner(evmc_vm_steppable* vm) { return vm->vm; }
}
'''
API = ("vp_create", "vp_create_steppable", "vp_member", "vp_option", "vp_flags", "vp_execute", "vp_release", "vp_stepn", "vp_release_step", "vp_destroy", "vp_destroy_steppable",
       "vp_abi", "vp_caps", "vp_str", "vp_inner", "vp_dump", "vp_resetp")

def module():
    import common
    V = common.VERIF; R = common.REPO
    d = common.tmpdir(); p = os.path.join(d, "vm.cc")
    with open(p, "w") as f: f.write(WITNESS)
    ll = p + ".ll"; out = p + ".opt.ll"
    common.run(["clang++-18", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-S", "-emit-llvm", "-g0", "-w", "-DNDEBUG",
                "-I", V + "/stubs/cc/evmvm", "-I", V + "/stubs/cc/evm", "-I", V + "/stubs/cc/lru", "-I", R + "/cpp", "-I", R + "/cpp/vm/evmzero", "-o", ll, p])
    common.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S", "-passes=" + evmz.PASSES_NI, "-internalize-public-api-list=" + ",".join(API), ll, "-o", out])
    return Module(open(out).read())

PROF = re.compile(r"_ZNK?5tosca7evmzero(\d)Profile(r?)ILNS0_12ProfilerModeE(\d)EE\d+(Dump|Collect|Reset)Ev$")

class VMEng(EZ):
    """conf: state (what the interpreter ends with), words (number of stack elements it leaves)"""
    def __init__(self, M, **kw):
        EZ.__init__(self, M, 0, "step", **kw); self.state = 0; self.words = 0
    def vec(self, st, p):
        if isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "avec" and p.off == 0: return ("buf",) + p.o[1:]
        v = EZ.vec(self, st, p)
        if v in st.tags.get("dead", ()): raise Und("use of a destroyed vector")
        return v
    def ver(self, st, o):
        v = st.tags.get("buf", {}).get(o)
        return v if v is not None else (T("binit", o[1] if len(o) == 2 else T("of", *o[1:])), None, None)
    def lim(self, st, o):
        l = self.ver(st, o)[1]
        return l if l is not None else sym("size:%s" % (o[1],) if len(o) == 2 else "size:%s" % (o[1:],), ty=(8, True))
    def vecop(self, st, fr, x, name, a, put, work):
        m = evmz.VEC.match(name).group(1)
        if m.startswith(("D1", "D2")):
            d = st.tags.get("vec", {}).get((a[0].o, a[0].off)) if isinstance(a[0], LPtr) else None
            if d is not None: st.tags["dead"] = st.tags.get("dead", ()) + (d,)
            put(st, None); return "cont"
        return EZ.vecop(self, st, fr, x, name, a, put, work)
    def cstr(self, st, p):
        s = b""
        while len(s) < 64:
            c = self.mload(st, LPtr(p.o, p.off + len(s)), 1)
            if not isinstance(c, int): raise Und("string of unknown content")
            if c == 0: return s
            s += bytes([c])
        raise Und("long string")
    def bytesat(self, st, p, n): return bytes(self.mload(st, LPtr(p.o, p.off + i), 1) for i in range(n))
    def call(self, st, fr, x, work):
        f = x["fn"]
        if f[0] == "g":
            name = self.M.aliases.get(f[1], f[1])
            m = PROF.match(name)
            if m:
                a = self.val(fr, x["args"][0][1], x["args"][0][0]); v = None
                if m.group(4) == "Dump": st.events.append(("dump", a))
                elif m.group(2) == "r": st.events.append((m.group(4), int(m.group(3)), a)); v = LPtr(("collected", a), 0)
                if m.group(2) == "r" or m.group(4) == "Dump":
                    if x["d"] is not None: fr.regs[x["d"]] = v
                    if x.get("ok"): self.goto(st, fr, x["ok"])
                    return "cont"
            if name in ("strlen", "memcmp", "bcmp", "strcmp", "_Znam", "_ZdaPv", "_ZdaPvm", "_ZdlPv", "_ZdlPvm", "vp_mem_eq", "vp_mem_nz") or name.startswith("_ZNSt6chrono3_V2") or name == "llvm.x86.rdtscp":
                args = [self.val(fr, c, t) if t.k != "metadata" else None for t, c in x["args"]]
                ok = x.get("ok")
                def put(s, v):
                    c = s.frames[-1]
                    if x["d"] is not None: c.regs[x["d"]] = v
                    if ok: self.goto(s, c, ok)
                if name == "strlen": put(st, len(self.cstr(st, args[0]))); return "cont"
                if name in ("memcmp", "bcmp"):
                    p, q = self.bytesat(st, args[0], args[2]), self.bytesat(st, args[1], args[2]); put(st, 0 if p == q else 1 if p > q else 2**32 - 1); return "cont"
                if name == "strcmp":
                    p, q = self.cstr(st, args[0]), self.cstr(st, args[1]); put(st, 0 if p == q else 1 if p > q else 2**32 - 1); return "cont"
                if name == "_Znam" and not isinstance(args[0], int):
                    p = LPtr(self.newbuf(st, T("bundef", args[0]), args[0]), 0); st.events.append(("alloc", name, p.o, args[0])); put(st, p); return "cont"
                if name.startswith("_Zd"):
                    if isinstance(args[0], LPtr) or isinstance(args[0], T): st.events.append(("free", name[:5], args[0]))
                    put(st, None); return "cont"
                if name == "vp_mem_eq":
                    p, q = self.rdbytes(st, self.toptr(args[0]), args[2]), self.rdbytes(st, self.toptr(args[1]), args[2])
                    if p.op == q.op == "be": put(st, p.args[1] == q.args[1]); return "cont"
                    put(st, True if p is q else T("mem_eq", p, q)); return "cont"
                if name == "vp_mem_nz":
                    p = self.rdbytes(st, self.toptr(args[0]), args[1])
                    if p.op == "be": put(st, p.args[1] != 0); return "cont"
                    put(st, T("mem_nz", p)); return "cont"
                if name.startswith("_ZNSt6chrono"): put(st, fresh("clock", ty=(8, True))); return "cont"
                if name == "llvm.x86.rdtscp": put(st, Seg([fresh("ticks", ty=(8, True)), fresh("aux", ty=(4, True))])); return "cont"
        return EZ.call(self, st, fr, x, work)
    def vp(self, st, fr, x, name, a, put, work):
        n = name[3:]
        if n == "vec":
            if a[0] in (2, 3): put(st, LPtr(("avec", "out%d" % a[0]), 0)); return "cont"
            d = (repr(a[1]), a[2] if isinstance(a[2], int) else a[2].id)
            o = ("avec", "pad" if a[0] == 0 else "jt"); st.events.append(("compute", o[1], a[1], a[2])); put(st, LPtr(o, 0)); return "cont"
        if n == "interp":
            def b(p, l):
                if not isbuf(p): return (p, None, l)
                return (p, self.ver(st, p.o)[0], l, p.o in st.tags.get("dead", ()))
            st.events.append(("interp", a[0], b(a[1], a[2]), b(a[3], a[4])) + tuple(a[5:])); put(st, None); return "cont"
        if n == "stepargs":
            g = lambda p: (lambda o: (self.ver(st, o)[0], self.lim(st, o)))(self.vec(st, p))
            k = a[4]
            if not isinstance(k, int) or k > 1024: raise Und("stack of unknown size")
            ws = [self.rd256(st, LPtr(a[3].o, a[3].off + 32 * (k - 1 - i))) for i in range(k)]
            st.events.append(("stepargs", a[0], a[1], a[2], tuple(ws), g(a[5]), g(a[6]), a[7])); put(st, None); return "cont"
        if n == "out": put(st, self.state if a[0] == 0 else self.words if a[0] == 4 else sym("out%d" % a[0], ty=(8, True))); return "cont"
        if n == "word": self.wr256(st, a[0], T("word", a[1])); put(st, None); return "cont"
        if n == "buf":
            self.mstore(st, a[0], 8, BUF("outmem")); self.mstore(st, a[1], 8, sym("size:outmem", ty=(8, True))); put(st, None); return "cont"
        if n == "cache":
            st.events.append(("cache", a[0], self.rdbytes(st, self.toptr(a[1]), 32))); put(st, None); return "cont"
        return EZ.vp(self, st, fr, x, name, a, put, work)

import random, ezev
class Val:
    """one valuation of the request and of what the interpreter leaves"""
    def __init__(s, seed, k):
        r = random.Random("%s/%d" % (seed, k)); s.memo = {}
        def size(i): return 0 if k >> i & 1 else [32, 33 + i, 1, 64][k] if k < 4 and k else r.choice([1, 31, 32, 33, 64, 70, 100])
        s.bufs = {n: bytes(r.randrange(256) for _ in range(size(i))) for i, n in enumerate(("out2", "out3", "outmem", "imem", "ilrd"))}
        for n in ("code", "pad", "jt"): s.bufs[n] = bytes(r.randrange(256) for _ in range(r.choice([33, 40, 64])))
        s.vals = {n: r.getrandbits(w) for n, w in (("out1", 63), ("out2", 63), ("out3", 40), ("pc", 40), ("refunds", 64), ("rev", 3), ("steps", 31))}
        if k % 4 == 3: s.vals["steps"] = k // 4 % 3
        s.img = {o: bytes(r.randrange(256) for _ in range(4096)) for o in (("bestack",), ("msg",))}
        s.words = [r.getrandbits(256) for _ in range(16)]
class VEv(ezev.Ev):
    def init(s, k):
        if k not in s.S.bufs: raise ezev.Unk("buffer %s" % (k,))
        return s.S.bufs[k]
    def u0(s, t):
        if t.op == "sym" and t.args[0] in s.S.vals: return s.w(s.S.vals[t.args[0]], t)
        return ezev.Ev.u0(s, t)
    def leaf(s, o, off, size):
        if o in s.S.img: return s.le(s.S.img[o][off:off + size])
        raise ezev.Unk(repr(o)[:50])
    def w0(s, x):
        if isinstance(x, T) and x.op == "word": return s.S.words[s.u(x.args[0]) % 16]
        return ezev.Ev.w0(s, x)
    def buf0(s, v):
        if v.op == "bundef": return b"\xdb" * s.u(v.args[0])
        return ezev.Ev.buf0(s, v)
