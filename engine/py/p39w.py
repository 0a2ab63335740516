"""Abstract interpretation of evmzero's observed runs: RunInterpreter under the profilers and the logger, Interpret around it, and the profilers themselves."""
import os, re
from llsem import *
import evmz
from evmz import EZ, LPtr, isbuf, BUF

HEAD = r'''
#include <iostream>
#include "vm/evmzero/profiler.h"
#include "vm/evmzero/stack.cc"
#include "vm/evmzero/memory.cc"
'''
KIND = r'''
static inline int kindof(RunState s) { return s == RunState::kRunning ? 0 : s == RunState::kDone ? 1 : s == RunState::kReturn ? 2 : s == RunState::kRevert ? 3 : 4; }
'''
RUN = HEAD + r'''
using namespace tosca::evmzero;
extern "C" void vp_hook(int kind, int op, const void* ctx, const void* msg) noexcept;
extern "C" void vp_done(int kind, uint64_t pc, int64_t gas, int64_t refund, const uint256_t* top, uint64_t size, const void* mem, const void* ret) noexcept;
namespace tosca::evmzero {
#define HOOK(M) \
template <> inline void Profiler<ProfilerMode::M>::PreInstruction(op::OpCode o, const internal::Context& c) { vp_hook(0, o, &c, c.message); } \
template <> inline void Profiler<ProfilerMode::M>::PostInstruction(op::OpCode o, const internal::Context& c) { vp_hook(1, o, &c, c.message); }
HOOK(kFull) HOOK(kExternal)
}
#include "vm/evmzero/interpreter.cc"
using namespace tosca::evmzero;
''' + KIND + r'''
template <class O> static void go(O& o, const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, evmc::HostInterface* host,
                        evmc_revision rev, int64_t refund, int64_t size, const Memory& mem, const std::vector<uint8_t>& ret, Sha3Cache* cache) {
  internal::Context c;
  c.is_static_call = msg->flags & EVMC_STATIC; c.gas = msg->gas; c.gas_refunds = refund; c.padded_code = std::span<const uint8_t>(code, n);
  c.return_data = ret; c.valid_jump_targets = std::span<const uint8_t>(jt, jn); c.memory = mem; c.message = msg; c.host = host; c.revision = rev; c.sha3_cache = cache;
  c.stack.SetTop(c.stack.Top() - size);
  internal::RunInterpreter<O, false>(c, o);
  vp_done(kindof(c.state), c.pc, c.gas, c.gas_refunds, c.stack.Top(), c.stack.GetSize(), &c.memory, &c.return_data);
}
#define GO(N, O) extern "C" void vp_o##N(O& o, const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, evmc::HostInterface* host, \
   evmc_revision rev, int64_t refund, int64_t size, const Memory& mem, const std::vector<uint8_t>& ret, Sha3Cache* cache) { go<O>(o, code, n, jt, jn, msg, host, rev, refund, size, mem, ret, cache); }
using PF = Profiler<ProfilerMode::kFull>; using PE = Profiler<ProfilerMode::kExternal>;
GO(0, NoObserver) GO(1, PF) GO(2, PE) GO(3, Logger)
'''
RUNAPI = ("vp_o0", "vp_o1", "vp_o2", "vp_o3")
OBS = ("NoObserver", "Profiler<kFull>", "Profiler<kExternal>", "Logger")

ITP = HEAD + r'''
extern "C" {
void vp_hook(int kind, int op, const void* ctx, const void* msg) noexcept;
void vp_ctx(const void* obs, const void* code, size_t n, const void* jt, size_t jn, const void* msg, const void* host, const void* sha3, int rev, bool st, int64_t gas, int64_t refund, int state, uint64_t pc, uint64_t stack, uint64_t mem, size_t ret) noexcept;
uint64_t vp_out(int i) noexcept;
int vp_st() noexcept;
const std::vector<uint8_t>& vp_outvec() noexcept;
void vp_res(int state, int64_t gas, int64_t refund, const void* ret) noexcept;
}
namespace tosca::evmzero {
#define HOOK(M) \
template <> inline void Profiler<ProfilerMode::M>::PreRun(const InterpreterArgs& a) { vp_hook(2, 0, &a, a.message); } \
template <> inline void Profiler<ProfilerMode::M>::PostRun(const InterpreterArgs& a) { vp_hook(3, 0, &a, a.message); }
HOOK(kFull) HOOK(kExternal)
struct VpObs {
  static constexpr bool uses_context = true;
  void PreRun(const InterpreterArgs& a) { vp_hook(2, 0, &a, a.message); }
  void PreInstruction(op::OpCode, const internal::Context&) {}
  void PostInstruction(op::OpCode, const internal::Context&) {}
  void PostRun(const InterpreterArgs& a) { vp_hook(3, 0, &a, a.message); }
};
namespace internal {
template <class O> static void opaque(Context& c, O& o) {
  vp_ctx(&o, c.padded_code.data(), c.padded_code.size(), c.valid_jump_targets.data(), c.valid_jump_targets.size(), c.message, c.host, c.sha3_cache, c.revision, c.is_static_call, c.gas, c.gas_refunds,
         static_cast<int>(c.state), c.pc, c.stack.GetSize(), c.memory.GetSize(), c.return_data.size());
  c.state = static_cast<RunState>(vp_st()); c.gas = vp_out(1); c.gas_refunds = vp_out(2); c.return_data = vp_outvec();
}
#define OPQ(O) template <> void RunInterpreter<O, false>(Context& c, O& o, int) { opaque<O>(c, o); }
OPQ(NoObserver) OPQ(Profiler<ProfilerMode::kFull>) OPQ(Profiler<ProfilerMode::kExternal>) OPQ(VpObs)
}
}
#include "vm/evmzero/interpreter.cc"
using namespace tosca::evmzero;
#define GO(N, O) extern "C" void ii_##N(O& o, const InterpreterArgs& a) { auto r = Interpret<O>(a, o); vp_res(static_cast<int>(r.state), r.remaining_gas, r.refunded_gas, &r.return_data); } 
using PF = Profiler<ProfilerMode::kFull>; using PE = Profiler<ProfilerMode::kExternal>;
GO(0, NoObserver) GO(1, PF) GO(2, PE) GO(3, VpObs)
extern "C" void ii_args(InterpreterArgs& a, const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, const evmc_host_interface* hi, evmc_host_context* hc, evmc_revision rev, Sha3Cache* cache) {
  a.padded_code = std::span<const uint8_t>(code, n); a.valid_jump_targets = std::span<const uint8_t>(jt, jn); a.message = msg; a.host_interface = hi; a.host_context = hc; a.revision = rev; a.sha3_cache = cache; }
#define ALL(N, O) extern "C" void vp_a##N(O& o, const uint8_t* code, size_t n, const uint8_t* jt, size_t jn, const evmc_message* msg, const evmc_host_interface* hi, evmc_host_context* hc, evmc_revision rev, Sha3Cache* cache) { \
  InterpreterArgs a; ii_args(a, code, n, jt, jn, msg, hi, hc, rev, cache); ii_##N(o, a); }
ALL(0, NoObserver) ALL(1, PF) ALL(2, PE) ALL(3, VpObs)
'''
ITPAPI = ("vp_a0", "vp_a1", "vp_a2", "vp_a3")

PROF = r'''
#include "vm/evmzero/profiler.h"
using namespace tosca::evmzero;
extern "C" void vp_mark(int id, uint64_t calls, uint64_t ticks) noexcept;
extern "C" void vp_at(int id) noexcept;
template <ProfilerMode M> struct W {
  using P = Profiler<M>;
  static void st(P& p, int id, int op) { auto s = p.Collect().GetInstructionStats(static_cast<op::OpCode>(op)); vp_mark(id, s.num_calls, s.total_ticks); }
  static void is(P& p, int id) { auto s = p.Collect().GetInterpreterStats(); vp_mark(id, s.num_calls, s.total_ticks); }
  static void all(P& p, int id, int op, int other) { st(p, id, op); st(p, id + 1, other); is(p, id + 2); }
  static void pre(P& p, int op, const internal::Context& c) { vp_at(0); p.PreInstruction(static_cast<op::OpCode>(op), c); }
  static void post(P& p, int op, const internal::Context& c) { vp_at(1); p.PostInstruction(static_cast<op::OpCode>(op), c); }
  static void in(P& p, const InterpreterArgs& a) { vp_at(2); p.PreRun(a); }
  static void out(P& p, const InterpreterArgs& a) { vp_at(3); p.PostRun(a); }
  // one instruction
  static void one(P& p, int op, int other, const internal::Context& c) { all(p, 0, op, other); pre(p, op, c); post(p, op, c); all(p, 10, op, other); }
  // an instruction with a run of the interpreter inside, then one without
  static void nest(P& p, int op, int other, const internal::Context& c, const InterpreterArgs& a) {
    all(p, 0, op, other); pre(p, op, c); in(p, a); out(p, a); post(p, op, c); all(p, 10, op, other); pre(p, op, c); post(p, op, c); all(p, 20, op, other); }
  // an instruction with a run of the interpreter inside, which executes an instruction itself
  static void deep(P& p, int op, int inner, const internal::Context& c, const InterpreterArgs& a, const internal::Context& c2) {
    all(p, 0, op, inner); pre(p, op, c); in(p, a); pre(p, inner, c2); post(p, inner, c2); out(p, a); post(p, op, c); all(p, 10, op, inner); }
  static void run(P& p, int op, int other, const InterpreterArgs& a) { all(p, 0, op, other); in(p, a); out(p, a); all(p, 10, op, other); }
  static void merge(P& p, const Profile<M>& q, int op, int other) {
    all(p, 0, op, other); auto s = q.GetInstructionStats(static_cast<op::OpCode>(op)); vp_mark(50, s.num_calls, s.total_ticks); auto s2 = q.GetInstructionStats(static_cast<op::OpCode>(other)); vp_mark(51, s2.num_calls, s2.total_ticks);
    auto s3 = q.GetInterpreterStats(); vp_mark(52, s3.num_calls, s3.total_ticks); p.Merge(q); all(p, 10, op, other); }
  static void reset(P& p, int op, int other) { p.Reset(); all(p, 10, op, other); }
};
#define F(N, MODE) extern "C" { \
void vp_one##N(Profiler<MODE>& p, int op, int other, const internal::Context& c) { W<MODE>::one(p, op, other, c); } \
void vp_nest##N(Profiler<MODE>& p, int op, int other, const internal::Context& c, const InterpreterArgs& a) { W<MODE>::nest(p, op, other, c, a); } \
void vp_deep##N(Profiler<MODE>& p, int op, int inner, const internal::Context& c, const InterpreterArgs& a, const internal::Context& c2) { W<MODE>::deep(p, op, inner, c, a, c2); } \
void vp_run##N(Profiler<MODE>& p, int op, int other, const InterpreterArgs& a) { W<MODE>::run(p, op, other, a); } \
void vp_merge##N(Profiler<MODE>& p, const Profile<MODE>& q, int op, int other) { W<MODE>::merge(p, q, op, other); } \
void vp_reset##N(Profiler<MODE>& p, int op, int other) { W<MODE>::reset(p, op, other); } }
F(1, ProfilerMode::kFull)
F(2, ProfilerMode::kExternal)
extern "C" size_t vp_offm() { return offsetof(internal::Context, message); }
extern "C" size_t vp_offa() { return offsetof(InterpreterArgs, message); }
extern "C" size_t vp_offd() { return offsetof(evmc_message, depth); }
'''
PROFAPI = tuple("vp_%s%d" % (n, i) for n in ("one", "nest", "deep", "run", "merge", "reset") for i in (1, 2)) + ("vp_offm", "vp_offa", "vp_offd")

class ObsEng(EZ):
    """hooks and log output become events"""
    def __init__(self, M, op, **kw): EZ.__init__(self, M, op, "full", **kw)
    def cstr(self, st, p):
        s = b""
        while len(s) < 64:
            c = self.mload(st, LPtr(p.o, p.off + len(s)), 1)
            if not isinstance(c, int): raise Und("string of unknown content")
            if c == 0: return s
            s += bytes([c])
        raise Und("long string")
    def call(self, st, fr, x, work):
        f = x["fn"]
        if f[0] == "g":
            name = self.M.aliases.get(f[1], f[1]); tok = None
            std = name.startswith(("_ZNSols", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZNSo5flush", "_ZNSo3put", "_ZNSo5write"))
            word = name.startswith("_ZN5tosca7evmzerolsERSoRK") and "intx" in name
            if std or word:
                a = [self.val(fr, c, t) if t.k != "metadata" else None for t, c in x["args"]]
                if word: tok = ("word", self.rd256(st, a[1]))
                elif name in ("_ZNSolsEl", "_ZNSolsEx", "_ZNSolsEm", "_ZNSolsEy"): tok = ("int", a[1])
                elif name in ("_ZNSolsEi", "_ZNSolsEj"): tok = ("int", self.cast(st, "sext" if name[-1] == "i" else "zext", a[1], ity(32), ity(64)))
                elif name.startswith("_ZNSolsEPFRSoS_E"):
                    g = a[1].o[1] if isinstance(a[1], LPtr) and a[1].o[0] == "g" else str(a[1])
                    tok = b"\n" if "endl" in g else b"" if "flush" in g else None
                elif name.startswith("_ZSt4endl"): tok = b"\n"
                elif name.startswith(("_ZSt5flush", "_ZNSo5flush")): tok = b""
                elif name.endswith("PKc") and name.startswith("_ZStls"): tok = self.cstr(st, a[1])
                elif name.startswith("_ZStls") and name.endswith("_c") and isinstance(a[1], int) or name.startswith("_ZNSo3put") and isinstance(a[1], int): tok = bytes([a[1] & 255])
                elif name.startswith("_ZNSo5write") and isinstance(a[2], int): tok = bytes(self.mload(st, LPtr(a[1].o, a[1].off + i), 1) for i in range(a[2]))
                if tok is None: raise Und("output by " + name[:80])
                st.events.append(("log", a[0], tok))
                if x["d"] is not None: fr.regs[x["d"]] = a[0]
                if x.get("ok"): self.goto(st, fr, x["ok"])
                return "cont"
            if name == "llvm.x86.rdtscp" or name.startswith("_ZNSt6chrono3_V2"):
                k = st.tags.get("tick", 0); st.tags["tick"] = k + 1; v = sym("tick%d" % k, ty=(8, True)); st.events.append(("tick", v))
                v = Seg([v, fresh("aux", ty=(4, True))]) if name.startswith("llvm") else v
                if x["d"] is not None: fr.regs[x["d"]] = v
                if x.get("ok"): self.goto(st, fr, x["ok"])
                return "cont"
            if "TimeConverter" in name and name in self.M.funcs:
                if x["d"] is not None: fr.regs[x["d"]] = fresh("time", ty=(8, True))
                if x.get("ok"): self.goto(st, fr, x["ok"])
                return "cont"
        return EZ.call(self, st, fr, x, work)
    def vp(self, st, fr, x, name, a, put, work):
        n = name[3:]
        if n in ("hook", "at", "mark"): st.events.append((n,) + tuple(a)); put(st, None); return "cont"
        if n == "ctx":
            h = self.toptr(a[6]); hp = tuple(self.mload(st, LPtr(h.o, h.off + k), 8) for k in (0, 8)) if h is not None else None
            st.events.append(("ctx", hp) + tuple(a)); put(st, None); return "cont"
        if n == "out": put(st, sym("out%d" % a[0], ty=(4 if a[0] == 0 else 8, True))); return "cont"
        if n == "st": put(st, sym("out0", ty=(4, True))); return "cont"
        if n == "outvec": put(st, LPtr(("argret",), 0)); return "cont"
        if n == "res":
            o = self.vec(st, a[3]); st.events.append(("res", a[0], a[1], a[2], self.ver(st, o)[0], self.lim(st, o))); put(st, None); return "cont"
        return EZ.vp(self, st, fr, x, name, a, put, work)

class ProfEng(ObsEng):
    """large objects cleared and copied word by word"""
    def fillbytes(self, st, d, n, v, what):
        if isinstance(n, int) and isinstance(v, int) and isinstance(d, LPtr) and not isbuf(d) and isinstance(d.off, int) and n % 8 == 0 and n <= 1 << 17:
            w = (v & 255) * 0x0101010101010101
            for b in range(0, n, 8): self.mstore(st, LPtr(d.o, d.off + b), 8, w)
            return
        ObsEng.fillbytes(self, st, d, n, v, what)
    def copybytes(self, st, d, s, n, what):
        if isinstance(n, int) and n % 8 == 0 and n <= 1 << 17 and all(isinstance(p, LPtr) and not isbuf(p) and isinstance(p.off, int) for p in (d, s)):
            ws = [self.mload(st, LPtr(s.o, s.off + b), 8) for b in range(0, n, 8)]
            for b, w in zip(range(0, n, 8), ws): self.mstore(st, LPtr(d.o, d.off + b), 8, w)
            return
        ObsEng.copybytes(self, st, d, s, n, what)
