"""P06: jump destination analysis."""
import common, re
from sweep import *

SRC = r'''
#include <new>
#include <span>
#include "vm/evmzero/opcodes.cc"
using Buf = tosca::evmzero::op::ValidJumpTargetsBuffer;
static_assert(sizeof(typename Buf::value_type) == 1 && sizeof(Buf) == 24);
extern "C" void w_sweep(const uint8_t* p, size_t n, Buf* out) { new (out) Buf(tosca::evmzero::op::CalculateValidJumpTargets(std::span<const uint8_t>(p, n))); }
'''
WHERE = "cpp/vm/evmzero/opcodes.cc CalculateValidJumpTargets"

class Cpp(Sweep):
    def buf(self, st):
        E = LEngine(self.M)
        v = E.mload(st, LPtr(("arg", "out"), 0), 8)
        if isinstance(v, LPtr): return v
        # not yet moved into the result object: the only allocation
        hs = [e for e in st.tags.get("size", {})]
        return LPtr(hs[0], 0) if len(hs) == 1 else None
    def result(self, E, st, n):
        b = E.mload(st, LPtr(("arg", "out"), 0), 8); e = E.mload(st, LPtr(("arg", "out"), 8), 8)
        if isinstance(b, int) and isinstance(e, int) and b == e == 0: return []
        if not (isinstance(b, LPtr) and isinstance(e, LPtr) and b.o == e.o and isinstance(b.off, int) and isinstance(e.off, int)): return None
        return self.values(E, st, b, e.off - b.off)
    def values(self, E, st, b, n):
        out = [E.mload(st, LPtr(b.o, b.off + i), 1) for i in range(n)]
        return [self.isdest(x) for x in out] if all(isinstance(x, int) for x in out) else None
    def finish(self, E, st):
        b = E.mload(st, LPtr(("arg", "out"), 0), 8); e = E.mload(st, LPtr(("arg", "out"), 8), 8)
        if isinstance(b, LPtr) and isinstance(e, LPtr) and b.o == e.o:
            n = aff_add(e.off, b.off, (8, True), -1)
        elif isinstance(b, int) and b == 0 and isinstance(e, int) and e == 0: n = 0
        else: raise Und("result buffer %r..%r" % (b, e))
        ok = aff_diff(n, LEN) == 0 or (E.dec(st, mk_eq(LEN, n)) is True)
        if not ok: raise Bad("the result covers %r positions instead of the code's length" % (n,))

def cpp(rep):
    try: M = clang_ir(SRC, "p06.cc", includes=[common.REPO + "/cpp"])
    except common.CheckError as e:
        if "static assertion" in str(e): rep.undec(WHERE, "result type is not a byte vector"); return
        raise
    try:
        Cpp(M, "w_sweep", [LPtr(("code",), 0), LEN, LPtr(("arg", "out"), 0)], rep).decide()
    except Bad as e: rep.violation("cpp", "CalculateValidJumpTargets " + str(e), WHERE)
    except Und as e: rep.undec(WHERE, e)

RS = r'''
#![allow(warnings)]
extern "C" { fn w_fill(x: u8, n: usize) -> *mut u8; }
#[inline(always)] pub fn filled<T: Copy>(x: T, n: usize) -> Vec<T> {
    const { assert!(std::mem::size_of::<T>() == 1) };
    unsafe { Vec::from_raw_parts(w_fill(std::mem::transmute_copy(&x), n) as *mut T, n, n) }
}
macro_rules! vec { ($x:expr; $n:expr) => { $crate::filled($x, $n) }; }
pub mod types {
    #[path = "%(repo)s/rust/src/types/opcode.rs"] mod opcode;
    #[path = "%(repo)s/rust/src/types/code_analysis.rs"] mod code_analysis;
    pub use opcode::*; pub use code_analysis::{AnalysisContainer, CodeAnalysis};
    #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub struct u256([u64; 4]);
    impl u256 { pub const ZERO: u256 = u256([0; 4]); pub fn into_u64_with_overflow(self) -> (u64, bool) { (self.0[0], false) } }
}
pub mod utils {}
#[no_mangle] pub unsafe extern "C" fn w_sweep(p: *const u8, n: usize, out: &mut (*const u8, usize)) {
    let a = std::mem::ManuallyDrop::new(types::CodeAnalysis::<false>::new(std::slice::from_raw_parts(p, n), None));
    out.0 = a.analysis.as_ptr() as *const u8; out.1 = a.analysis.len();
}
#[no_mangle] pub extern "C" fn w_jd() -> u8 { types::CodeByteType::JumpDest as u8 }
const _: () = assert!(std::mem::size_of::<types::CodeByteType>() == 1 && std::mem::offset_of!((*const u8, usize), 0) == 0);
'''
RPASSES = "always-inline cgscc(inline) function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,sroa,instcombine<no-verify-fixpoint>,simplifycfg)"
RWHERE = "rust/src/types/code_analysis.rs CodeAnalysis::new"
class Rust(Cpp):
    size = 1
    def engine(self):
        E = Cpp.engine(self)
        def fill(E_, st, fr, x, name, a, put, work):
            p = E_.newheap(st); v = a[0]
            if not isinstance(v, int): raise Und("filled with %r" % (v,))
            st.tags["size"] = dict(st.tags.get("size", {})); st.tags["size"][p.o] = a[1]
            st.mem[p.o] = {"default": lambda off, size: v}
            if self.plain is not None: E_.arr[p.o] = [v] * a[1]
            put(st, p); return "cont"
        E.ext["w_fill"] = fill
        def other(E_, st, fr, x, name, a, put, work):
            panics = "panick" in name or "slice_index" in name or "unwrap_failed" in name
            if panics and self.lenient: return LResult("unreachable", None, st)
            if panics: raise Unproven("panics in the sweep (%s)" % re.sub(r"[^a-z_].*", "", name.split("panicking")[-1].lstrip("0123456789")) )
            if "alloc" in name or "raw_vec" in name: raise Und("vector operation " + name[:80])
            return None
        E.ext_default = other
        return E
    def result(self, E, st, n):
        b = E.mload(st, LPtr(("arg", "out"), 0), 8); k = E.mload(st, LPtr(("arg", "out"), 8), 8)
        if k == 0: return []
        return self.values(E, st, b, k) if isinstance(b, LPtr) and isinstance(k, int) and isinstance(b.off, int) else None
    def finish(self, E, st):
        b = E.mload(st, LPtr(("arg", "out"), 0), 8); n = E.mload(st, LPtr(("arg", "out"), 8), 8)
        if not (isinstance(b, LPtr) and isinstance(b.o, tuple) and b.o[0] == "heap" and b.off == 0):
            if E.dec(st, mk_eq(LEN, n) if isinstance(n, T) else T("==", 0, 1)) is True and isinstance(n, int) and n == 0: return
            raise Und("result %r" % (b,))
        if aff_diff(n, LEN) != 0 and E.dec(st, mk_eq(LEN, n)) is not True: raise Bad("the result covers %r positions instead of the code's length" % (n,))
    def isdest(self, v): return v == self.jd
def rust(rep):
    import common, os
    if not os.path.exists(common.REPO + "/rust/src/types/code_analysis.rs"): rep.undec(RWHERE, "no such file"); return
    d = common.tmpdir(); src = d + "/p06.rs"; open(src, "w").write(RS % dict(repo=common.REPO))
    try:
        common.run(["rustc", "--edition", "2021", "--crate-type", "lib", "-C", "opt-level=1", "-C", "no-prepopulate-passes", "-C", "passes=" + RPASSES, "-C", "panic=abort", "-C", "debug-assertions=off", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "codegen-units=1", "--emit=llvm-ir", "-o", d + "/p06.ll", src])
        M = Module(open(d + "/p06.ll").read())
    except Exception as e: rep.undec(RWHERE, "the analysis cannot be compiled on its own: " + str(e)[-300:]); return
    try:
        r = LEngine(M).run("w_jd", [], LState())
        S = Rust(M, "w_sweep", [LPtr(("code",), 0), LEN, LPtr(("arg", "out"), 0)], rep); S.jd = r[0].val
        if len(r) != 1 or not isinstance(S.jd, int): raise Und("value of CodeByteType::JumpDest")
        S.decide()
    except Bad as e: rep.violation("rust", "CodeAnalysis::new " + str(e), RWHERE)
    except (Und, KeyError, ValueError, IndexError, TypeError) as e: rep.undec(RWHERE, e)

GWHERE = "go/ct/st/code.go"
def goct(rep):
    """code/data bitmap of the conformance tests, propagated over codes covering every PUSH width and cut"""
    import goprog
    from gosem import State, SliceV, Ptr, Undecided, AnchorMissing, Engine
    import p36
    try: P = goprog.load(["./go/ct/st"], inits=("tosca/vm",), rep=rep)
    except common.CheckError as e: rep.undec(GWHERE, e); return
    new = "~ct/st.NewCode"; pre = "(*~ct/st.Code)."
    have = [m for m in ("IsCode", "IsData", "GetOperation", "GetData") if P.has(pre + m)]
    if not P.has(new) or not have: rep.undec(GWHERE, "no NewCode or no observers"); return
    def one(fn, args, st):
        rs = p36.CE(P, max_seconds=60, max_steps=2000000).run(fn, args, st)
        if len(rs) != 1: raise Undecided("%d outcomes of %s" % (len(rs), fn))
        return rs[0]
    J = b"\x5b"; cs = [b""]
    for b in (0, 1, 0x5a, 0x5b, 0x5c, 0x5e, 0x5f, 0x80, 0xa0, 0xe0, 0xff): cs += [bytes([b]) + J, J + bytes([b]) + J * 33]
    for n in range(0x60, 0x80):
        B = bytes([n]); k = n - 0x5f
        cs += [B, B + J * k, B + J * (k + 2), B + J * (k // 2), B + B * k + J, J + B + bytes(range(0x61, 0x61 + k)) + J + B]
    for c in cs:
        try:
            st = State(); st.mem[("h", "evm")] = {(k,): b for k, b in enumerate(c)}
            r = one(new, [SliceV(("h", "evm"), (), 0, len(c), len(c)) if c else None], st)
            if r.kind != "ret": rep.violation("ct:panic", "NewCode panics for %s" % cname(c), GWHERE); continue
            o = r.vals[0]; data = bytearray(len(c)); i = 0; rep.count("ct_codes")
            while i < len(c):
                k = c[i] - 0x5f if 0x60 <= c[i] <= 0x7f else 0
                for q in range(i + 1, min(len(c), i + 1 + k)): data[q] = 1
                i += 1 + k
            last = len(c) - 1
            at = sorted(set(q for q in range(len(c)) if q < 4 or q > last - 4 or q and data[q] != data[q - 1] or q < last and data[q] != data[q + 1]) | {len(c) // 2} & set(range(len(c))))
            bad = None
            for q in at:
                for m in have:
                    z = one(pre + m, [o, q], r.st)
                    if z.kind != "ret": bad = (q, "%s panics" % m); break
                    v = z.vals
                    if m in ("IsCode", "IsData"):
                        if not isinstance(v[0], bool): raise Undecided("%s gives %r" % (m, v[0]))
                        if v[0] != ((m == "IsData") == bool(data[q])): bad = (q, "%s is %s" % (m, v[0])); break
                    else:
                        due = bool(data[q]) == (m == "GetData")
                        if (v[1] is None) != due: bad = (q, "%s %s" % (m, "fails" if due else "succeeds")); break
                        if due and v[0] != c[q]:
                            if not isinstance(v[0], int): raise Undecided("%s gives %r" % (m, v[0]))
                            bad = (q, "%s gives 0x%02x instead of 0x%02x" % (m, v[0], c[q])); break
                    rep.count("ct_positions")
                if bad: break
            if bad: rep.violation("ct", "%s for position %d of %s, which holds %s" % (bad[1], bad[0], cname(c), "immediate data" if data[bad[0]] else "an instruction"), GWHERE); return
            rep.ok("code/data classification of " + cname(c))
        except (Undecided, AnchorMissing, KeyError, TypeError, AttributeError, IndexError) as e: rep.undec("NewCode for " + cname(c), e); return

def main(rep):
    rep.assumptions += ["codes are shorter than 2^32 bytes"]
    cpp(rep); rust(rep); goct(rep)
    return ("One iteration of the sweep loop is interpreted over the IR for a symbolic position, for every reachable control state and each of the 256 byte values, in product with the instruction/data automaton of the EVM; accesses are located relative to the code's length.",
            "marks, skipped bytes and carried state agree with the automaton; no read outside the code; result as long as the code")
