"""P10: every stack access of every (plain or fused) instruction of the long-form interpreter lies within the stack,
and the accepted stack heights and the resulting height are those of the instruction."""
import common, goprog, evmspec, lfvm
from gosem import *
from lfvm import pos
INTERNAL = {"JUMP_TO": (0, 0), "NOOP": None, "DATA": None, "INVALID": None}

def parts(name):
    """plain instructions a fused instruction name stands for, or None"""
    ps = name.split("_")
    if len(ps) > 1 and all(evmspec.canon(p) in evmspec.OPS for p in ps): return [evmspec.canon(p) for p in ps]
    return None
def effect(name):
    """(needed elements, room needed, change of height)"""
    seq = parts(name) or [evmspec.canon(name)]
    need = room = h = 0
    for p in seq:
        _, a, b, _ = evmspec.OPS[p]
        need = max(need, a - h); h += b - a
        room = max(room, h)
    return need, room, h

class Acc(Policy):
    def __init__(self, L): self.L = L; self.bad = []; self.n = 0; self.sites = set()
    def on_index(self, E, st, fr, i, x, idx, work):
        L = self.L
        if not isinstance(x, Ptr) or x.o != L.S or x.p != (L.sf["data"][0],): return None
        self.n += 1; self.sites.add((fr.fn["name"], i.get("p")))
        lo, hi = st.facts.interval(idx)
        if lo is None or lo < 0 or hi is None or hi > 1023:
            # refine through the affine relation with the initial stack pointer
            self.bad.append((fr.fn["name"], i.get("p"), idx, (lo, hi), st.facts.interval(L.SP)))
        return None

def main(rep):
    try: L = lfvm.Lf(rep)
    except lfvm.Missing as e: rep.undec("long-form interpreter", e); return ("", "")
    ops = L.opcodes()
    # size of the stack array
    at = L.P.types[L.sf["data"][1]]
    rep.check(at["k"] == "array" and at["len"] == 1024, "stack:size", "the operand stack holds 1024 elements", "go/interpreter/lfvm/stack.go")
    seen = set(); sites = set()
    for name, code in sorted(ops.items(), key=lambda e: e[1]):
        if name.startswith("_") or name[:1].islower(): continue
        fused = parts(name) if name not in evmspec.OPS else None
        known = evmspec.canon(name) in evmspec.OPS and evmspec.canon(name) != "INVALID"
        if not (fused or known or name in INTERNAL): rep.notes.append("op code %s not analysed: unknown name" % name); continue
        st = L.setup(code)
        pol = Acc(L)
        try: rs = L.run(st, pol, max_paths=60000, max_steps=4000000)
        except Undecided as e: rep.undec("stack use of " + name, e); continue
        rep.count("paths", len(rs)); rep.count("stack_accesses", pol.n); sites |= pol.sites; seen.add(name)
        for fn, p, idx, iv, spiv in pol.bad:
            if any(x in repr(idx) for x in ("loop.", "sym")) and not isinstance(aff_diff(idx, L.SP), int): rep.undec("stack index in %s during %s" % (L.P.short(fn), name), "index %r" % (idx,)); continue
            rep.violation("bounds:%s:%s" % (name, L.P.short(fn)), "%s: stack index %s reaches %s with a stack of %s elements" % (name, str(idx).replace("$sp", "height"), iv, spiv), pos(p))
        if not pol.bad: rep.ok("stack accesses of %s within bounds (%d accesses)" % (name, pol.n), "go/interpreter/lfvm/instructions.go")
        good = [r for r in rs if r.kind == "ret" and r.vals[1] is None and not (L.field(r.st, "pc") is L.PC and L.sp(r.st) is L.SP and L.field(r.st, "gas") is L.GAS)]
        for r in rs:
            if r.kind == "panic" and not (isinstance(r.vals[0], T) and r.vals[0].op == "nilderef"): rep.notes.append("panic path in %s" % name)
        if name in INTERNAL and INTERNAL[name] is None:
            continue
        need, room, delta = (0, 0, 0) if name == "JUMP_TO" else effect(name)
        if name == "STOP": good = [r for r in rs if r.kind == "ret" and r.vals[1] is None]
        if not good: rep.undec("effect of " + name, "no successful path"); continue
        lo = min(r.st.facts.interval(L.SP)[0] for r in good); hi = max(r.st.facts.interval(L.SP)[1] for r in good)
        w = "go/interpreter/lfvm/stack_usage.go"
        rep.check(lo == need, "need:" + name, "%s accepts stacks from %d elements on (needs %d)" % (name, lo, need), w)
        rep.check(hi == 1024 - room, "room:" + name, "%s accepts stacks up to %d elements (specification: %d)" % (name, hi, 1024 - room), w)
        ds = set(); undec = False
        for r in good:
            d = aff_diff(L.sp(r.st), L.SP)
            if d is None: undec = True
            else: ds.add(d)
        if undec: rep.undec("height after " + name, "stack pointer not an offset of the initial one")
        elif name in ("RETURN", "REVERT", "SELFDESTRUCT", "STOP") and ds: rep.ok("height after %s irrelevant: the frame ends" % name, w)
        else: rep.check(ds == {delta}, "delta:" + name, "%s changes the stack height by %s (specification: %d)" % (name, sorted(ds), delta), "go/interpreter/lfvm/instructions.go")
    rep.count("op_codes", len(seen)); rep.count("access_sites", len(sites))
    missing = [n for n in evmspec.OPS if n != "INVALID" and n not in {evmspec.canon(s) for s in seen}]
    if missing: rep.undec("op codes", "no constant found for %s" % ",".join(missing[:10]))
    for f in sorted(L.E.visited): pass
    return ("For each op code of the long-form interpreter the step function is interpreted abstractly with an opaque stack height (0..1024), program counter, gas, revision and mode; every index into the stack array is bounded by the interval facts of its path, and the heights of the successful paths are compared with the specification.",
            "0 <= index < 1024 at every access; accepted heights [needed, 1024-room]; height change = pushes-pops")
