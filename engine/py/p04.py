"""P04: opcode numbers and mnemonics agree with the EVM in Go, C++ and Rust."""
import json, os, re
import common
from evmspec import *

def go_part(rep):
    import goprog
    from gosem import Engine, Undecided, AnchorMissing, MODP
    P = goprog.load(["./go/tosca/...", "./go/interpreter/lfvm"], rep=rep)
    for pkg, what in (("tosca/vm", "go/tosca/vm/opcodes.go"), ("interpreter/lfvm", "go/interpreter/lfvm/opcode.go")):
        tn = MODP + pkg + ".OpCode"
        cs = {k[len(MODP + pkg) + 1:]: c for k, c in P.consts.items() if k.startswith(MODP + pkg + ".") and P.types[c["t"]]["s"] == tn}
        if not cs: rep.undec("opcode constants of " + pkg, "no constants of type OpCode found"); continue
        seen = set()
        for n, c in sorted(cs.items()):
            m = canon(n)
            if m in OPS and "_" not in n:
                seen.add(m)
                rep.check(int(c["v"]) == OPS[m][0], "go:%s:%s" % (pkg, m), "Go constant %s.%s = 0x%02X (specified 0x%02X)" % (pkg, n, int(c["v"]), OPS[m][0]), c.get("p"))
        for m in sorted(set(OPS) - seen): rep.violation("go:%s:missing:%s" % (pkg, m), "Go package %s has no constant for instruction %s (0x%02X)" % (pkg, m, OPS[m][0]), what)
        # printing
        fn = "(~%s.OpCode).String" % pkg
        if not P.has(fn): rep.undec("printing of " + pkg, "no String method"); continue
        names = {}
        E = Engine(P)
        for b in range(256):
            try: rs = E.run(fn, [b])
            except (Undecided, AnchorMissing) as e: rep.undec("%s String(0x%02X)" % (pkg, b), e); continue
            vals = set(r.vals[0] if r.kind == "ret" else r.kind for r in rs)
            if len(vals) != 1 or not isinstance(list(vals)[0], bytes):
                rep.undec("%s String(0x%02X)" % (pkg, b), "not constant: %r" % vals); continue
            s = list(vals)[0].decode("utf8", "replace"); rep.count("printed_bytes")
            judge_print(rep, "go:%s" % pkg, b, s, what, names)

def judge_print(rep, key, b, s, where, names):
    if s in names: rep.violation("%s:print:%02X" % (key, b), "bytes 0x%02X and 0x%02X both print as %r (%s)" % (names[s], b, s, key), where); return
    if b in BYCODE:
        names[s] = b
        rep.check(canon(s) == BYCODE[b], "%s:print:%02X" % (key, b), "byte 0x%02X prints as %r (specified %s) (%s)" % (b, s, BYCODE[b], key), where)
    else:
        rep.check(canon(s) not in OPS, "%s:print:%02X" % (key, b), "unassigned byte 0x%02X prints as %r (%s)" % (b, s, key), where)

def cpp_part(rep):
    from llsem import clang_ir, LEngine, LPtr, Und
    inc = ["-I", common.REPO + "/cpp"]
    where = "cpp/vm/evmzero/opcodes.inc"
    d = common.tmpdir(); src = os.path.join(d, "p04.cc")
    pre = ['#include "vm/evmzero/opcodes.h"', "using namespace tosca::evmzero;"]
    names = sorted(OPS)
    lines = pre + ["static_assert(static_cast<int>(op::%s) == 0x%02X);" % (n, OPS[n][0]) for n in names]
    open(src, "w").write("\n".join(lines) + "\n")
    p = common.run(["clang++-18", "-std=c++20", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-w"] + inc + [src], ok=None)
    bad = {}
    for l in p.stderr.split("\n"):
        m = re.match(re.escape(src) + r":(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m: bad.setdefault(int(m.group(1)), m.group(2))
        elif re.search(r": (fatal )?error: ", l) and not l.startswith(src): bad["other"] = l
    if "other" in bad or any(isinstance(k, int) and k <= len(pre) for k in bad):
        rep.undec("C++ opcode constants", bad.get("other") or bad); return
    for i, n in enumerate(names):
        e = bad.get(len(pre) + 1 + i)
        rep.check(e is None, "cpp:" + n, "C++ enumerator op::%s == 0x%02X%s" % (n, OPS[n][0], "" if e is None else " does not hold: " + e), where)
    # printing by constant propagation over the compiled ToString
    M = clang_ir(pre[0] + '\nextern "C" const char* w_str(uint8_t b) { return tosca::evmzero::op::ToString(static_cast<tosca::evmzero::op::OpCode>(b)); }\n', "p04s.cc", includes=[common.REPO + "/cpp"])
    nm = {}
    for b in range(256):
        try:
            E = LEngine(M, max_steps=200000); rs = E.run("w_str", [b])
            if len(rs) != 1 or rs[0].kind != "ret" or not isinstance(rs[0].val, LPtr): raise Und("result %r" % rs)
            s = b""; st = rs[0].st; q = rs[0].val; k = 0
            while True:
                c = E.mload(st, LPtr(q.o, q.off + k), 1)
                if not isinstance(c, int): raise Und("string content %r" % c)
                if c == 0: break
                s += bytes([c]); k += 1
                if k > 64: raise Und("unterminated string")
        except Und as e: rep.undec("C++ ToString(0x%02X)" % b, e); continue
        rep.count("printed_bytes")
        if b in BYCODE: judge_print(rep, "cpp", b, s.decode(), "cpp/vm/evmzero/opcodes.h ToString", nm)
        else: rep.check(canon(s.decode()) not in OPS, "cpp:print:%02X" % b, "unassigned byte 0x%02X prints as %r (C++)" % (b, s.decode()), "cpp/vm/evmzero/opcodes.h ToString")

def rust_variants(path):
    """variant names of the enum whose discriminants are opcodes"""
    t = open(path).read()
    m = re.search(r"pub enum Opcode\s*\{(.*?)\n\}", t, re.S)
    if not m: return None
    body = re.sub(r"//.*", "", m.group(1)); body = re.sub(r"#\[[^\]]*\]", "", body)
    return re.findall(r"\b([A-Za-z]\w*)\s*(?:=[^,]*)?(?:,|$)", body)

def rust_part(rep):
    path = common.REPO + "/rust/src/types/opcode.rs"
    where = "rust/src/types/opcode.rs"
    if not os.path.exists(path): rep.undec("Rust opcode constants", "file missing"); return
    vs = rust_variants(path)
    if not vs: rep.undec("Rust opcode constants", "enum Opcode not found"); return
    by = {}
    for v in vs: by.setdefault(canon(v), v)
    d = common.tmpdir(); src = os.path.join(d, "p04.rs")
    names = sorted(OPS)
    lines = ['#[path = "%s"] pub mod opcode;' % path]
    idx = {}
    for n in names:
        if n not in by: rep.violation("rust:" + n, "Rust enum Opcode has no variant for %s (0x%02X)" % (n, OPS[n][0]), where); continue
        lines.append("const _: () = assert!(opcode::Opcode::%s as u8 == 0x%02X);" % (by[n], OPS[n][0])); idx[len(lines)] = n
    open(src, "w").write("\n".join(lines) + "\n")
    p = common.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-A", "warnings", "--error-format=json", "-o", os.path.join(d, "p04.rmeta"), src], ok=None)
    bad = {}; other = None
    for l in p.stderr.split("\n"):
        if not l.startswith("{"): continue
        j = json.loads(l)
        if j.get("level") != "error": continue
        sp = [s for s in j["spans"] if s["file_name"].endswith("p04.rs")]
        if sp: bad[sp[0]["line_start"]] = j["message"]
        elif j["spans"]: other = j["message"]
    if other: rep.undec("Rust opcode constants", other); return
    for ln, n in idx.items():
        e = bad.get(ln)
        if e and "evaluation" not in e and "assert" not in e: rep.undec("Rust " + n, e); continue
        rep.check(e is None, "rust:" + n, "Rust Opcode::%s as u8 == 0x%02X%s" % (by[n], OPS[n][0], "" if e is None else " does not hold"), where)

def main(rep):
    for part, nm in ((go_part, "Go"), (cpp_part, "C++"), (rust_part, "Rust")):
        try: part(rep)
        except (common.CheckError, OSError) as e: rep.undec(nm + " part", e)
        except Exception as e:
            if type(e).__name__ in ("Undecided", "AnchorMissing", "Und"): rep.undec(nm + " part", e)
            else: raise
    return ("Typed constants of the Go packages read from the type checker, C++ enumerators and Rust variants decided by compile-time assertions (compile-fail witnesses), printed names by constant propagation through String/ToString for each of the 256 byte values.",
            "mnemonic <-> byte bijection of the Ethereum specification up to Cancun in every language")
