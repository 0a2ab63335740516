"""P05: opcode classification predicates are exact for all 256 byte values (constant propagation per
byte through the compiled predicates)."""
import common
from evmspec import *

EXTERNAL = {"BALANCE", "ORIGIN", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY", "EXTCODEHASH", "BLOCKHASH", "COINBASE", "TIMESTAMP", "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE", "BLOBHASH", "BLOBBASEFEE", "SLOAD", "SSTORE", "TLOAD", "TSTORE", "LOG0", "LOG1", "LOG2", "LOG3", "LOG4", "SELFDESTRUCT"}
is_push = lambda b: 0x5F <= b <= 0x7F
valid = lambda b: b in BYCODE and BYCODE[b] != "INVALID"

def go_part(rep):
    import goprog
    from gosem import Engine, Undecided, AnchorMissing, SliceV, State
    P = goprog.load(["./go/tosca/vm"], inits=("tosca/vm",), rep=rep)
    where = "go/tosca/vm/opcodes.go"
    def single(fn, args):
        E = Engine(P)
        rs = E.run(fn, args)
        vs = set(repr(r.vals) if r.kind == "ret" else r.kind for r in rs)
        if len(vs) != 1 or rs[0].kind != "ret": raise Undecided("%s: %s" % (fn, list(vs)[:3]))
        return rs[0]
    if P.has("~tosca/vm.IsValid"):
        for b in range(256):
            try: v = single("~tosca/vm.IsValid", [b]).vals[0]
            except Undecided as e: rep.undec("IsValid(0x%02X)" % b, e); continue
            if not isinstance(v, bool): rep.undec("IsValid(0x%02X)" % b, v); continue
            rep.check(v == valid(b), "go:IsValid:%02X" % b, "Go IsValid(0x%02X %s) = %s, specified %s" % (b, BYCODE.get(b, "unassigned"), v, valid(b)), where)
    else: rep.undec("IsValid", "function not found")
    if P.has("(~tosca/vm.OpCode).Width"):
        for b in range(256):
            try: v = single("(~tosca/vm.OpCode).Width", [b]).vals[0]
            except Undecided as e: rep.undec("Width(0x%02X)" % b, e); continue
            if not isinstance(v, int): rep.undec("Width(0x%02X)" % b, v); continue
            rep.check(v == 1 + PUSHLEN(b), "go:Width:%02X" % b, "Go Width(0x%02X %s) = %s, specified %d" % (b, BYCODE.get(b, "unassigned"), v, 1 + PUSHLEN(b)), where)
    else: rep.undec("Width", "function not found")
    fn = "~tosca/vm.ValidOpCodesNoPush"
    if P.has(fn):
        try:
            # the enumeration may be handed out repeatedly: it is evaluated twice, the second time in the
            # state the first evaluation left behind
            r = single(fn, [])
            E = Engine(P); 
            r2 = E.run(fn, [], r.st)
            for k, (E_, rr) in enumerate(((Engine(P), r), (E, r2[0]))):
                s = rr.vals[0]
                if k == 1 and len(r2) != 1: raise Undecided("second evaluation has several outcomes")
                if not isinstance(s, SliceV) or not isinstance(s.len, int): raise Undecided("result %r" % (s,))
                from gosem import Ptr
                et = P.types[P.fns[[n for n in P.fns if n.endswith("vm.ValidOpCodesNoPush")][0]]["res"][0]]["e"] if False else P.tindex.get("github.com/Fantom-foundation/Tosca/go/tosca/vm.OpCode")
                vals = [E_.load(rr.st, Ptr(s.o, s.p + (s.off + j,)), et) for j in range(s.len)]
                if not all(isinstance(v, int) for v in vals): raise Undecided("elements not constant")
                want = [b for b in range(256) if valid(b) and not is_push(b)]
                for b in range(256):
                    n = vals.count(b); w = 1 if b in want else 0
                    rep.check(n == w, "go:NoPush:%02X" % b, "Go ValidOpCodesNoPush lists 0x%02X %s %d times, specified %d%s" % (b, BYCODE.get(b, "unassigned"), n, w, " (second call)" if k else ""), where)
        except Undecided as e: rep.undec("ValidOpCodesNoPush", e)
    else: rep.undec("ValidOpCodesNoPush", "function not found")

def cpp_part(rep):
    from llsem import clang_ir, LEngine, LPtr, Und
    where = "cpp/vm/evmzero/opcodes.h"
    src = '#include "vm/evmzero/opcodes.h"\nusing namespace tosca::evmzero;\n'
    preds = {"IsUsedOpCode": lambda b: b in BYCODE, "IsCallOpCode": lambda b: BYCODE.get(b) in CALLS, "IsExternalOpCode": lambda b: BYCODE.get(b) in EXTERNAL}
    mods = {}
    for p in preds:
        try: mods[p] = clang_ir(src + 'extern "C" bool w(uint8_t b) { return op::%s(static_cast<op::OpCode>(b)); }\n' % p, "p05%s.cc" % p, includes=[common.REPO + "/cpp"])
        except common.CheckError as e: rep.undec("C++ " + p, str(e)[-300:])
    for p, M in mods.items():
        for b in range(256):
            try:
                rs = LEngine(M).run("w", [b])
                if len(rs) != 1 or rs[0].kind != "ret" or not isinstance(rs[0].val, int): raise Und(repr(rs))
            except Und as e: rep.undec("%s(0x%02X)" % (p, b), e); continue
            v = bool(rs[0].val)
            rep.check(v == preds[p](b), "cpp:%s:%02X" % (p, b), "C++ %s(0x%02X %s) = %s, specified %s" % (p, b, BYCODE.get(b, "unassigned"), v, preds[p](b)), where)
    for c, w in (("kNumOpCodes", 149), ("kNumUnusedOpCodes", 107), ("kNumUsedAndUnusedOpCodes", 256)):
        import os, subprocess
        d = common.tmpdir(); f = os.path.join(d, "p05c.cc")
        open(f, "w").write(src + "static_assert(op::%s == %d);\n" % (c, w))
        p = common.run(["clang++-18", "-std=c++20", "-fsyntax-only", "-w", "-I", common.REPO + "/cpp", f], ok=None)
        if p.returncode == 0: rep.ok("C++ %s == %d" % (c, w), where)
        elif "static assertion failed" in p.stderr: rep.violation("cpp:" + c, "C++ %s differs from the specified %d" % (c, w), where)
        else: rep.undec("C++ " + c, p.stderr[:300])

def main(rep):
    for part, nm in ((go_part, "Go"), (cpp_part, "C++")):
        try: part(rep)
        except (common.CheckError, OSError) as e: rep.undec(nm + " part", e)
        except Exception as e:
            if type(e).__name__ in ("Undecided", "AnchorMissing", "Und"): rep.undec(nm + " part", e)
            else: raise
    return ("Constant propagation of each of the 256 byte values through the SSA/IR of the predicates and enumerations.",
            "classification of the Cancun instruction set")
