"""Abstract interpreter for Go SSA (dumped by godump). The abstract domain is a powerset of
states; a state maps abstract locations to terms/constants/affine integers and carries a
conjunction of branch facts and the sequence of observable events (interface and external calls,
lock operations). Loops whose trip count is not constant are widened: everything written in the
loop is replaced by unknowns until the written set is stable."""
import json, sys
from absdom import *

class Agg:
    __slots__ = ("k", "e", "t", "_h")
    def __init__(self, k, e, t): self.k, self.e, self.t = k, tuple(e), t; self._h = hash((k, self.e))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Agg) and o.k == self.k and o.e == self.e
    def __repr__(self):
        if self.k == "array" and all(isinstance(x, int) for x in self.e): return "0x" + "".join("%02x" % (x & 255) for x in self.e)
        return "%s{%s}" % (self.k[0], ",".join(map(repr, self.e)))
class Ptr:
    __slots__ = ("o", "p", "_h")
    def __init__(self, o, p=()): self.o, self.p = o, p; self._h = hash((o, p))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Ptr) and o.o == self.o and o.p == self.p
    def __repr__(self): return "&%r%s" % (self.o, "".join(".%s" % (x,) for x in self.p))
class SliceV:
    __slots__ = ("o", "p", "off", "len", "cap")
    def __init__(self, o, p, off, ln, cap): self.o, self.p, self.off, self.len, self.cap = o, p, off, ln, cap
    def key(self): return (self.o, self.p, self.off, self.len)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, SliceV) and o.key() == self.key()
    def __repr__(self): return "%r%s[%s:+%s]" % (self.o, self.p or "", self.off, self.len)
class Iface:
    __slots__ = ("t", "v")
    def __init__(self, t, v): self.t, self.v = t, v
    def __hash__(self): return hash((self.t, self.v))
    def __eq__(self, o): return isinstance(o, Iface) and o.t == self.t and o.v == self.v
    def __repr__(self): return "iface(%s:%r)" % (self.t, self.v)
class Func:
    __slots__ = ("n", "b")
    def __init__(self, n, b=()): self.n, self.b = n, tuple(b)
    def __hash__(self): return hash((self.n, self.b))
    def __eq__(self, o): return isinstance(o, Func) and o.n == self.n and o.b == self.b
    def __repr__(self): return "func:%s" % self.n

class Undecided(Exception): pass
class AnchorMissing(Exception): pass

class Event:
    __slots__ = ("k", "n", "a", "pos", "r", "fn", "nf")
    def __init__(self, k, n, a, pos, r=None, fn=None, nf=0): self.k, self.n, self.a, self.pos, self.r, self.fn, self.nf = k, n, tuple(a), pos, r, fn, nf
    def __repr__(self): return "%s:%s%r@%s" % (self.k, self.n, self.a, (self.pos or "").split("/")[-1])

class Frame:
    __slots__ = ("fn", "b", "ip", "prev", "regs", "defers", "loops", "dst", "rundef", "retv", "panicking")
    def __init__(self, fn):
        self.fn = fn; self.b = 0; self.ip = 0; self.prev = -1; self.regs = {}; self.defers = []; self.loops = {}; self.dst = None
        self.rundef = False; self.retv = None; self.panicking = False
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.b, f.ip, f.prev, f.dst, f.rundef, f.retv, f.panicking = self.fn, self.b, self.ip, self.prev, self.dst, self.rundef, self.retv, self.panicking
        f.regs = dict(self.regs); f.defers = list(self.defers); f.loops = {k: dict(v) for k, v in self.loops.items()}
        return f

class State:
    __slots__ = ("frames", "mem", "facts", "events", "wlog", "nalloc", "nfork", "tags", "path")
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = Facts(); self.events = []; self.wlog = []; self.nalloc = 0; self.nfork = 0; self.tags = {}; self.path = []
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.facts = self.facts.copy(); s.events = list(self.events); s.wlog = list(self.wlog)
        s.nalloc = self.nalloc; s.nfork = self.nfork; s.tags = dict(self.tags); s.path = list(self.path)
        return s

class Result:
    def __init__(self, kind, vals, st, pos=None): self.kind, self.vals, self.st, self.pos = kind, vals, st, pos
    def __repr__(self): return "<%s %r events=%r facts=%r>" % (self.kind, self.vals, self.st.events, self.st.facts.order)

MODP = "github.com/Fantom-foundation/Tosca/go/"

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        if not d["types"]: raise Undecided("the Go sources do not type check: " + "; ".join("%s %s" % (e.get("pos", ""), e.get("msg")) for e in d["errors"][:3]))
        self.types = d["types"]; self.fns = {f["name"]: f for f in d["functions"]}
        self.globals = d["globals"]; self.consts = d["consts"]; self.methods = d["methods"]; self.errors = d["errors"]
        self.tindex = {t["s"]: i for i, t in enumerate(self.types)}
        self._back = {}
        self.base = {}
    def t(self, i): return self.types[i]
    def typ(self, s):
        if s not in self.tindex: raise AnchorMissing("type " + s)
        return self.tindex[s]
    def fn(self, name):
        n = expand(name)
        if n not in self.fns or not self.fns[n]["blocks"]: raise AnchorMissing("function " + n)
        return self.fns[n]
    def has(self, name):
        n = expand(name); return n in self.fns and bool(self.fns[n]["blocks"])
    def ity(self, tid):
        t = self.types[tid]
        if t["k"] == "basic" and "size" in t: return (t["size"], t["uns"])
        return None
    def isbool(self, tid): return self.types[tid]["k"] == "basic" and self.types[tid]["flags"] & 1
    def isstr(self, tid): return self.types[tid]["k"] == "basic" and self.types[tid]["flags"] & 32
    def headers(self, fn):
        """loop headers: targets of back edges in a DFS"""
        h = self._back.get(fn["name"])
        if h is None:
            h = set(); seen = set(); onst = set()
            st = [(0, iter(fn["blocks"][0]["s"]))]; seen.add(0); onst.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s in onst: h.add(s)
                    elif s not in seen:
                        seen.add(s); onst.add(s); st.append((s, iter(fn["blocks"][s]["s"]))); break
                else:
                    st.pop(); onst.discard(b)
            self._back[fn["name"]] = h
        return h
    def field(self, tid, name):
        for i, f in enumerate(self.types[tid].get("f", [])):
            if f["n"] == name: return i
        raise AnchorMissing("field %s of %s" % (name, self.types[tid]["s"]))
    def short(self, n): return n.replace("github.com/Fantom-foundation/Tosca/go/", "")

def expand(name):
    return name.replace("~", MODP)

class Engine:
    def __init__(self, prog, policy=None, max_paths=4000, max_steps=400000, sym_unroll=1, max_depth=25, max_seconds=120):
        import time; self.clock = time.monotonic; self.max_seconds = max_seconds
        self.P = prog; self.policy = policy; self.max_paths = max_paths; self.max_steps = max_steps
        self.sym_unroll = sym_unroll; self.max_depth = max_depth
        self.visited = set(); self.notes = set()
        self.steps = 0
        self.use_base = True
        import gomodels
        self.models = gomodels.MODELS
        self.gomodels = gomodels

    # -- values ------------------------------------------------------------
    def zero(self, tid):
        t = self.P.types[tid]; k = t["k"]
        if k == "basic":
            if self.P.isbool(tid): return False
            if self.P.isstr(tid): return b""
            if "size" in t: return 0
            return T("fltconst", "0") if t["flags"] & 24 else None
        if k == "struct": return Agg("struct", [self.zero(f["t"]) for f in t["f"]], tid)
        if k == "array":
            if t["len"] <= self.agglimit(t): return Agg("array", [self.zero(t["e"])] * t["len"], tid)
            return T("zero", tid)
        return None
    def agglimit(self, t):
        n = t.get("_lv")
        if n is None: n = t["_lv"] = self.leaves(t["e"])
        return 1300 // max(n, 1)
    def leaves(self, tid):
        t = self.P.types[tid]
        if t["k"] == "struct": return sum(self.leaves(f["t"]) for f in t["f"])
        if t["k"] == "array": return t["len"] * self.leaves(t["e"])
        return 1
    def fresh(self, tid, hint="v"):
        return fresh(hint, ty=self.tyof(tid))
    def tyof(self, tid):
        it = self.P.ity(tid)
        if it: return it
        return None
    def typed(self, op, *args, tid): return T(op, *args, ty=self.tyof(tid))

    def proj(self, v, idx, tid):
        """element idx of aggregate value v; tid = element type"""
        if isinstance(v, Agg):
            if isinstance(idx, int):
                if 0 <= idx < len(v.e): return v.e[idx]
                return T("oob", idx)
            if all(x == v.e[0] for x in v.e): return v.e[0]
            return T("sel", T("agg", *[self.asarg(x) for x in v.e]), self.asarg(idx), ty=self.tyof(tid))
        if isinstance(v, T) and v.op == "zero": return self.zero(tid)
        return T("fld", v, self.asarg(idx), ty=self.tyof(tid))
    def asarg(self, v): return v

    def elemtid(self, tid, idx):
        t = self.P.types[tid]
        if t["k"] == "struct": return t["f"][idx]["t"]
        return t["e"]

    # -- memory ------------------------------------------------------------
    def objtype_unknown(self, st, obj): pass
    def leafinit(self, st, obj, path, tid):
        if isinstance(obj, tuple) and obj[0] == "a": return self.zero(tid)
        if isinstance(obj, tuple) and obj[0] == "h": return T("init", obj, path, ty=self.tyof(tid))
        return T("init", obj, path, ty=self.tyof(tid))
    def may_alias_idx(self, a, b):
        if a == b: return True
        if isinstance(a, int) and isinstance(b, int): return False
        d = aff_diff(a, b) if isinstance(a, (int, T)) and isinstance(b, (int, T)) else None
        return d is None
    def load(self, st, ptr, tid):
        o, p = ptr.o, ptr.p
        m = st.mem.get(o)
        if m is None and isinstance(o, tuple) and o[0] == "d" and isinstance(o[1], T) and o[1].op == "s2ap" and isinstance(o[1].args[2], int):
            # array view of a slice that does not start its object
            bo, bp, off = o[1].args; at = self.P.types[tid]
            if p and isinstance(p[0], int): return self.load(st, Ptr(bo, bp + (off + p[0],) + p[1:]), tid)
            if not p and at["k"] == "array" and at["len"] <= 64: return Agg("array", [self.load(st, Ptr(bo, bp + (off + k,)), at["e"]) for k in range(at["len"])], tid)
        if m is None and self.use_base: m = self.P.base.get(o)
        if m:
            n = len(p)
            subs = [q for q in m if len(q) > n and q[:n] == p and q[n] not in ("#m", "#ver", "#complete")]
            best = None
            for l in range(n, -1, -1):
                if p[:l] in m: best = l; break
            if subs:
                t = self.P.types[tid]
                if t["k"] == "struct":
                    return Agg("struct", [self.load(st, Ptr(o, p + (i,)), f["t"]) for i, f in enumerate(t["f"])], tid)
                if t["k"] == "array" and t["len"] <= self.agglimit(t):
                    return Agg("array", [self.load(st, Ptr(o, p + (i,)), t["e"]) for i in range(t["len"])], tid)
                return T("blob", o if not isinstance(o, T) else o, p, len(st.wlog), ty=None)
            if best is not None:
                v = m[p[:best]]
                # project down
                if best == n: return v
                return self.project_path(v, p[best:], tid)
        return self.leafinit(st, o, p, tid)
    def project_path(self, v, path, tid):
        for i, x in enumerate(path):
            if isinstance(v, T) and v.op == "zero": return self.zero(tid)
            if isinstance(v, Agg): v = self.proj(v, x, tid)
            elif v is None or isinstance(v, (int, bytes)): return T("bad", repr(v), x)
            else: v = T("fld", v, x, ty=self.tyof(tid) if i == len(path) - 1 else None)
        return v
    def store(self, st, ptr, v, tid):
        o, p = ptr.o, ptr.p
        m = st.mem.get(o)
        if m is None:
            m = dict(self.P.base.get(o, {})) if self.use_base else {}
        else: m = dict(m)
        n = len(p)
        for q in list(m):
            if len(q) >= n and q[:n] == p: del m[q]
            elif q != p:
                # symbolic indices that may denote the same element
                l = min(len(q), n); alias = True; differ = False
                for a, b in zip(q[:l], p[:l]):
                    if a == b: continue
                    differ = True
                    if isinstance(a, str) or isinstance(b, str) or not self.may_alias_idx(a, b): alias = False; break
                if differ and alias: m[q] = fresh("mayalias"); 
        m[p] = v
        st.mem[o] = m
        st.wlog.append((o, p, tid))
    def havoc_obj(self, st, o, why="havoc"):
        if isinstance(o, tuple) and o and o[0] == "a" or True:
            st.mem[o] = {(): fresh(why)}
            st.wlog.append((o, (), None))

    def alloc(self, st, site, tid):
        st.nalloc += 1
        return Ptr(("a", site, st.nalloc), ())

    # -- evaluation --------------------------------------------------------
    def val(self, st, fr, v):
        k = v["k"]
        if k == "r":
            if v["n"] not in fr.regs: raise Undecided("undefined register %s in %s" % (v["n"], fr.fn["name"]))
            return fr.regs[v["n"]]
        if k == "c":
            if v.get("z"): return self.zero(v["t"]) if v["t"] >= 0 else None
            if v.get("int"):
                x = int(v["v"])
                if self.P.types[v["t"]]["k"] == "basic" and self.P.types[v["t"]]["flags"] & 24 and not self.P.ity(v["t"]): return T("fltconst", v["v"])
                return x
            if v.get("str"): return bytes.fromhex(v["v"])
            if v.get("flt"): return T("fltconst", v["v"])
            return v["v"]
        if k == "g": return Ptr(("g", v["n"]), ())
        if k == "f": return Func(v["n"])
        if k == "b": return ("builtin", v["n"])
        raise Undecided("value kind " + k)

    def run(self, fname, args, st=None, binds=()):
        """Runs function on abstract args; returns list of Result."""
        fn = self.P.fn(fname) if isinstance(fname, str) else fname
        st = st.copy() if st is not None else State()
        st.frames = []
        self.push(st, fn, args, None, binds)
        return self.loop([st])

    def push(self, st, fn, args, dst, bindings=()):
        f = Frame(fn); f.dst = dst
        for p, a in zip(fn["params"], args): f.regs[p["n"]] = a
        for p, a in zip(fn["fv"], bindings): f.regs[p["n"]] = a
        st.frames.append(f)
        self.visited.add(fn["name"])
        return f

    def loop(self, work):
        out = []; t0 = self.clock()
        while work:
            st = work.pop()
            self.steps_path = 0
            while True:
                self.steps += 1
                if self.steps & 255 == 0 and self.clock() - t0 > self.max_seconds: raise Undecided("time budget exceeded")
                if self.steps > self.max_steps: raise Undecided("step budget exceeded (%d)" % self.max_steps)
                r = self.step(st, work)
                if r == "cont": continue
                if r == "drop": break
                if isinstance(r, Result):
                    out.append(r)
                    if len(out) > self.max_paths: raise Undecided("more than %d abstract paths" % self.max_paths)
                    break
        return out

    def ret_into(self, st, vals, work):
        fr = st.frames.pop()
        if not st.frames: return Result("ret", vals, st)
        caller = st.frames[-1]
        if fr.dst == "#defer": return "cont"
        if fr.dst:
            caller.regs[fr.dst] = vals[0] if len(vals) == 1 else Agg("tuple", vals, None)
        return "cont"

    def step(self, st, work):
        fr = st.frames[-1]
        if fr.rundef:
            if fr.defers:
                c, args, callee = fr.defers.pop()
                return self.do_call(st, fr, c, callee, args, "#defer", work)
            fr.rundef = False
            if fr.panicking:
                return self.unwind(st, fr.retv, work, ran=True)
            return "cont"
        blk = fr.fn["blocks"][fr.b]
        if fr.ip == 0 and blk["i"] and fr.prev >= 0:
            r = self.enter_block(st, fr, blk)
            if r: return r
        ins = blk["i"][fr.ip]
        fr.ip += 1
        return self.instr(st, fr, ins, work)

    def enter_block(self, st, fr, blk):
        """evaluates phis in parallel and handles loop widening"""
        phis = []
        i = 0
        while i < len(blk["i"]) and blk["i"][i]["op"] == "phi":
            ph = blk["i"][i]
            e = ph["e"][blk["p"].index(fr.prev)]
            phis.append((ph, self.val(st, fr, e))); i += 1
        isheader = fr.b in self.P.headers(fr.fn)
        if isheader:
            L = fr.loops.get(fr.b)
            if L is None or L.get("left"):
                fr.loops[fr.b] = {"n": 0, "sym": 0, "nfork": st.nfork, "wstart": len(st.wlog), "wid": None, "na": st.nalloc, "init": tuple(v for _, v in phis)}
            else:
                # is this an entry from outside? (prev not dominated) – treat re-entry via back edge only
                L["n"] += 1
                if L["n"] > 100000: raise Undecided("loop bound")
                if L["wid"] is not None:
                    # objects allocated within the loop are not visible at its head
                    new = set((o, p) for o, p, t in st.wlog[L["wstart"]:] if not (isinstance(o, tuple) and o[0] == "a" and o[2] > L["na"])) - L["wid"]
                    if not new: return "drop"
                    self.widen(st, fr, L, phis)
                    phis = [(ph, fr.regs[ph["n"]]) for ph, _ in phis]
                elif st.nfork != L["nfork"]:
                    L["sym"] += 1; L["nfork"] = st.nfork
                    if L["sym"] > self.sym_unroll:
                        self.widen(st, fr, L, phis)
                        phis = [(ph, fr.regs[ph["n"]]) for ph, _ in phis]
        for ph, v in phis: fr.regs[ph["n"]] = v
        fr.ip = i
        return None

    def widen(self, st, fr, L, phis):
        locs = {}
        for o, p, t in st.wlog[L["wstart"]:]: locs[(o, p)] = t
        for (o, p), t in locs.items():
            if p and isinstance(p[-1], str) and p[-1].startswith("#"):
                m = dict(st.mem.get(o, {})); m = {q: x for q, x in m.items() if False}
                m[("#ver",)] = fresh("ver"); st.mem[o] = m; continue
            m = dict(st.mem.get(o, {}))
            for q in list(m):
                if q[:len(p)] == p: del m[q]
            m[p] = fresh("loop", ty=self.tyof(t) if t is not None else None)
            st.mem[o] = m
        L["wid"] = set(locs) | (L["wid"] or set())
        for k, (ph, v) in enumerate(phis):
            init = L["init"][k]
            if v == init and not isinstance(v, SliceV): fr.regs[ph["n"]] = v; continue
            if isinstance(v, SliceV) and isinstance(init, (SliceV, type(None))):
                ln = fresh("loop.len", ty=(8, False)); st.facts.assume(mk_lt(ln, 0), False)
                f = fresh("loop." + ph["n"])
                fr.regs[ph["n"]] = SliceV(("sl", f), (), 0, ln, fresh("cap", ty=(8, False))); continue
            if v == init: fr.regs[ph["n"]] = v; continue
            f = fresh("loop." + (ph.get("c") or ph["n"]), ty=self.tyof(ph["t"]))
            if self.P.ity(ph["t"]) and isinstance(init, (int, T)) and isinstance(v, (int, T)):
                d = aff_diff(v, init)
                lo, hi = st.facts.interval(init)
                if d is not None and d > 0 and lo is not None: st.facts._narrow(f, lo=lo)
                elif d is not None and d < 0 and hi is not None: st.facts._narrow(f, hi=hi)
                else:
                    # monotone induction: current value is previous header value plus a positive constant
                    pv = fr.regs.get(ph["n"])
                    d2 = aff_diff(v, pv) if isinstance(pv, (int, T)) else None
                    if d2 is not None and d2 > 0 and lo is not None: st.facts._narrow(f, lo=lo)
                    elif d2 is not None and d2 < 0 and hi is not None: st.facts._narrow(f, hi=hi)
            fr.regs[ph["n"]] = f
        st.wlog.append(("#widen", (), None))
        L["wstart"] = len(st.wlog)

    def jump(self, st, fr, target):
        # leaving loops: forget loop records whose header cannot be re-reached is not needed; re-entry is
        # recognised because the header is entered from a block outside the loop (lower visit)
        for h in list(fr.loops):
            if h != target and not self.inloop(fr.fn, h, target): del fr.loops[h]
        fr.prev = fr.b; fr.b = target; fr.ip = 0
    def inloop(self, fn, header, b):
        key = (fn["name"], header)
        c = self.P._back.get(key)
        if c is None:
            # natural loop: blocks that can reach header without passing ... = reach(header) ∩ reach-to(header)
            fw = set(); st = [header]
            while st:
                x = st.pop()
                for s in fn["blocks"][x]["s"]:
                    if s not in fw: fw.add(s); st.append(s)
            bw = set(); st = [header]
            while st:
                x = st.pop()
                for s in fn["blocks"][x]["p"]:
                    if s not in bw: bw.add(s); st.append(s)
            c = (fw & bw) | {header}
            # restrict to blocks dominated by header: drop blocks reachable from entry avoiding header
            seen = {0} if header != 0 else set(); st = list(seen)
            while st:
                x = st.pop()
                for s in fn["blocks"][x]["s"]:
                    if s != header and s not in seen: seen.add(s); st.append(s)
            c = (c - seen) | {header}
            self.P._back[key] = c
        return b in c

    def unwind(self, st, v, work, ran=False):
        """panic propagation"""
        while True:
            fr = st.frames[-1]
            if fr.defers and not ran:
                fr.rundef = True; fr.panicking = True; fr.retv = v
                return "cont"
            ran = False
            st.frames.pop()
            if not st.frames: return Result("panic", [v], st)

    def branch(self, st, fr, cond, work, tb, fb):
        blk = fr.b
        if isinstance(cond, bool):
            self.jump(st, fr, tb if cond else fb); return "cont"
        if not isinstance(cond, T): raise Undecided("branch on %r" % (cond,))
        k = st.facts.known(cond)
        if k is not None:
            self.jump(st, fr, tb if k else fb); return "cont"
        s2 = st.copy()
        ok1 = st.facts.assume(cond, True); ok2 = s2.facts.assume(cond, False)
        st.nfork += 1; s2.nfork += 1
        if ok2:
            self.jump(s2, s2.frames[-1], fb); work.append(s2)
        if ok1:
            self.jump(st, fr, tb); return "cont"
        return "drop"

    def cond_fork(self, st, cond, work, fT, fF):
        """forks state on boolean term; fT/fF are callables applied to the respective state"""
        if isinstance(cond, bool):
            (fT if cond else fF)(st); return "cont"
        k = st.facts.known(cond)
        if k is not None:
            (fT if k else fF)(st); return "cont"
        s2 = st.copy(); st.nfork += 1; s2.nfork += 1
        if s2.facts.assume(cond, False): fF(s2); work.append(s2)
        if st.facts.assume(cond, True): fT(st); return "cont"
        return "drop"

    # -- operators ---------------------------------------------------------
    def decide(self, st, atom):
        if isinstance(atom, T):
            k = st.facts.known(atom)
            if k is not None: return k
        return atom

    def eq(self, st, x, y, tid):
        if isinstance(x, Agg) and isinstance(y, Agg):
            if len(x.e) != len(y.e): return False
            cs = []
            for a, b in zip(x.e, y.e):
                c = self.eq(st, a, b, None)
                if c is False: return False
                if c is not True: cs.append(c)
            if not cs: return True
            if len(cs) == 1: return cs[0]
            return T("and", *sorted(set(cs), key=lambda t: t.id))
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Agg) and isinstance(b, T):
                ax = T("aggv", a)
                # array compared with opaque array value
                if b.op == "zero": return self.eq(st, a, self.zero(b.args[0]), None)
                return self.decide(st, T("==", b, ax))
            if isinstance(a, T) and isinstance(b, T) and a.op == "zero" and b is not a:
                return self.decide(st, T("==", b, a))
        if isinstance(x, (Ptr, SliceV, Func, Iface, tuple)) or isinstance(y, (Ptr, SliceV, Func, Iface, tuple)):
            for a, b in ((x, y), (y, x)):
                if isinstance(a, T) and a.op == "uniq" and isinstance(b, (Ptr, Iface)): return False
            if x is None or y is None:
                o = y if x is None else x
                if isinstance(o, SliceV):
                    if isinstance(o.o, tuple) and o.o[0] == "sl": return self.decide(st, mk_eq(o.o[1], None))
                    return False
                return False
            if type(x) == type(y):
                if x == y: return True
                if isinstance(x, Ptr):
                    if self.distinct_obj(x.o, y.o): return False
                if isinstance(x, Iface):
                    if x.t != y.t: return False
                    return self.eq(st, x.v, y.v, None)
                return self.decide(st, T("==", T("w", repr(x)), T("w", repr(y))))
            return self.decide(st, T("==", T("w", repr(x)), T("w", repr(y))))
        if isinstance(x, T) and isinstance(y, T):
            if x.op == "uniq" and y.op == "uniq": return x is y
            if x is y: return True
        for a, b in ((x, y), (y, x)):
            if isinstance(a, T) and b is None and a.op in ("uniq", "nonnil", "errorf"): return False
        return self.decide(st, mk_eq(x, y))
    def distinct_obj(self, a, b):
        if a == b: return False
        f = lambda o: isinstance(o, tuple) and o[0] in ("a", "g")
        return f(a) and f(b) or (isinstance(a, tuple) and a[0] == "a") or (isinstance(b, tuple) and b[0] == "a")

    def binop(self, st, o, x, y, tid, xtid):
        ity = self.P.ity(tid)
        if o == "==": return self.eq(st, x, y, xtid)
        if o == "!=": 
            r = self.eq(st, x, y, xtid); return mk_not(r)
        if o in ("<", ">", "<=", ">="):
            if isinstance(x, bytes) and isinstance(y, bytes):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o]
            if o == ">": return self.decide(st, mk_lt(y, x))
            if o == "<": return self.decide(st, mk_lt(x, y))
            if o == "<=": return mk_not(self.decide(st, mk_lt(y, x)))
            return mk_not(self.decide(st, mk_lt(x, y)))
        if self.P.isstr(tid):
            if isinstance(x, bytes) and isinstance(y, bytes) and o == "+": return x + y
            return T("concat", x, y)
        if ity is None: return T("op" + o, x, y)
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        size, uns = ity
        if isinstance(x, int) and isinstance(y, int):
            if o == "+": r = x + y
            elif o == "-": r = x - y
            elif o == "*": r = x * y
            elif o == "/":
                if y == 0: return T("bad", "div0")
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif o == "%":
                if y == 0: return T("bad", "div0")
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif o == "&": r = x & y
            elif o == "|": r = x | y
            elif o == "^": r = x ^ y
            elif o == "&^": r = x & ~y
            elif o == "<<": r = x << y if y < 512 else 0
            elif o == ">>": r = x >> y if y < 512 else (0 if x >= 0 else -1)
            else: raise Undecided("op " + o)
            return wrap(r, size, uns)
        if o == "+": return aff_add(x, y, ity)
        if o == "-": return aff_add(x, y, ity, -1)
        if o == "*":
            if isinstance(x, int): return aff_mulc(y, x, ity)
            if isinstance(y, int): return aff_mulc(x, y, ity)
            if _k(x) > _k(y): x, y = y, x
            return T("mul", x, y, ty=ity)
        if o == "<<" and isinstance(y, int) and y < 8 * size:
            if y == 0: return x
            return T("shl", x, y, ty=ity)
        if o == ">>" and isinstance(y, int):
            if y == 0: return x
            if y >= 8 * size and uns: return 0
            # (x << a) etc are left symbolic
            r = T("shr", x, y, ty=ity)
            lo, hi = st.facts.interval(x)
            if lo is not None and hi is not None and lo >= 0:
                st.facts._narrow(r, lo >> y, hi >> y)
            return r
        if o in ("&", "|", "^"):
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int):
                full = wrap(-1, size, uns)
                if o == "&" and y == 0: return 0
                if o == "&" and y == full: return x
                if o in ("|", "^") and y == 0: return x
                if o == "|" and y == full: return full
            else:
                if x is y: return x if o in "&|" else 0
                if _k(x) > _k(y): x, y = y, x
            r = T("bit" + o, x, y, ty=ity)
            if o == "&" and isinstance(y, int) and y >= 0: st.facts._narrow(r, 0, y)
            return r
        if o == "/" and y == 1: return x
        r = T(o, x, y, ty=ity)
        if o == "/" and isinstance(y, int) and y > 0:
            lo, hi = st.facts.interval(x)
            if lo is not None and lo >= 0 and hi is not None: st.facts._narrow(r, lo // y, hi // y)
        if o == "%" and isinstance(y, int) and y > 0:
            lo, hi = st.facts.interval(x)
            if lo is not None and lo >= 0: st.facts._narrow(r, 0, y - 1)
        return r

    def convert(self, st, x, ft, tt):
        P = self.P; fi, ti = P.ity(ft), P.ity(tt)
        if fi and ti:
            if isinstance(x, bool): x = int(x)
            if isinstance(x, int): return wrap(x, *ti)
            if fi == ti: return x
            lo, hi = st.facts.interval(x)
            tl, th = (0, (1 << (8 * ti[0])) - 1) if ti[1] else (-(1 << (8 * ti[0] - 1)), (1 << (8 * ti[0] - 1)) - 1)
            # conv(conv(x)) back to the original type of the same size
            if isinstance(x, T) and x.op == "conv" and x.args[0].ty == ti and x.ty[0] >= ti[0]: return x.args[0]
            base = x
            if isinstance(x, T) and x.op == "conv" and isinstance(x.args[0], T) and x.args[0].ty and x.ty[0] > x.args[0].ty[0] and x.args[0].ty[1]:
                base = x.args[0]
                if base.ty == ti: return base
            if isinstance(base, T) and base.op == "aff" and base.ty and ti[0] > base.ty[0] and st.facts._nowrap(base) and (not ti[1] or (lo is not None and lo >= 0)):
                # widening an affine term that does not wrap: distributes over the sum
                c, d = aff_parts(base)
                if not ti[1] or all((st.facts.interval(t)[0] or -1) >= 0 for t in d):
                    out = {}
                    for t, k in d.items():
                        ct = T("conv", t, ty=ti); tl2, th2 = st.facts.interval(t)
                        st.facts._narrow(ct, tl2, th2); out[ct] = k
                    return aff_make(c, out, ti)
            r = T("conv", base, ty=ti)
            if lo is not None and hi is not None and lo >= tl and hi <= th:
                st.facts._narrow(r, lo, hi)
            return r
        fk, tk = P.types[ft]["k"], P.types[tt]["k"]
        if isinstance(x, bytes):
            if P.isstr(tt): return x
            if tk == "slice":  # []byte(const string)
                p = self.alloc(st, "str", None)
                for i, c in enumerate(x): self.store(st, Ptr(p.o, (i,)), c, P.types[tt]["e"])
                return SliceV(p.o, (), 0, len(x), len(x))
        if fk == "slice" and P.isstr(tt):
            b = self.slice_bytes(st, x)
            if b is not None: return b
            return T("str", self.bytesterm(st, x))
        if fk == tk: return x
        if P.isstr(ft) and tk == "slice":
            f = T("bytesof", x)
            return SliceV(("sl", f), (), 0, T("len", x, ty=(8, False)), T("cap", f, ty=(8, False)))
        if isinstance(x, int) and P.isstr(tt): return chr(x).encode()
        if fk == "ptr" or tk == "ptr": return x
        return T("convx", x, tt)

    def slice_bytes(self, st, s):
        if s is None: return b""
        if isinstance(s, SliceV) and isinstance(s.len, int) and isinstance(s.off, int):
            out = []
            for i in range(s.len):
                v = self.load(st, Ptr(s.o, s.p + (s.off + i,)), self.P.tindex.get("byte", self.P.tindex.get("uint8")))
                if not isinstance(v, int): return None
                out.append(v)
            return bytes(out)
        return None
    def bytesterm(self, st, s):
        """term denoting the content of a byte slice"""
        if s is None: return T("bytes")
        if isinstance(s, SliceV):
            if isinstance(s.len, int) and isinstance(s.off, int) and s.len <= 256:
                bt = self.P.tindex.get("byte", self.P.tindex.get("uint8"))
                return T("bytes", *[self.load(st, Ptr(s.o, s.p + (s.off + i,)), bt) for i in range(s.len)])
            m = st.mem.get(s.o)
            ver = T("init", s.o) if not m else T("content", s.o, frozenset((k, v) for k, v in m.items()))
            return T("bytesv", ver, s.p, s.off, s.len)
        return s

    def as_slice(self, st, x, tid=None):
        if isinstance(x, SliceV): return x
        if x is None: return SliceV(("nil",), (), 0, 0, 0)
        if isinstance(x, T):
            ln = T("len", x, ty=(8, False))
            return SliceV(("sl", x), (), 0, ln, T("cap", x, ty=(8, False)))
        raise Undecided("slice %r" % (x,))

    def length(self, st, x, tid):
        P = self.P
        if isinstance(x, bytes): return len(x)
        t = P.types[tid] if tid is not None and tid >= 0 else {"k": "?"}
        if t["k"] == "array": return t["len"]
        if t["k"] == "ptr" and P.types[t["e"]]["k"] == "array": return P.types[t["e"]]["len"]
        if isinstance(x, SliceV): return x.len
        if x is None: return 0
        if isinstance(x, Ptr) and t["k"] == "map":
            m = st.mem.get(x.o) or P.base.get(x.o) or {}
            if ("#complete",) in m: return len([q for q in m if q[0] == "#m"])
            return T("maplen", x.o, self.mapver(st, x), ty=(8, False))
        return T("len", x, ty=(8, False))
    def mapver(self, st, ptr):
        m = st.mem.get(ptr.o) or self.P.base.get(ptr.o) or {}
        return m.get(("#ver",), 0)

    def to_ptr(self, x):
        if isinstance(x, Ptr): return x
        if isinstance(x, T): return Ptr(("d", x), ())
        if x is None: return None
        raise Undecided("deref of %r" % (x,))

    # -- instructions ------------------------------------------------------
    def instr(self, st, fr, i, work):
        op = i["op"]; P = self.P; R = fr.regs
        V = lambda v: self.val(st, fr, v)
        if op == "if":
            s = fr.fn["blocks"][fr.b]["s"]
            return self.branch(st, fr, V(i["x"]), work, s[0], s[1])
        if op == "jump":
            self.jump(st, fr, fr.fn["blocks"][fr.b]["s"][0]); return "cont"
        if op == "ret":
            vals = [V(r) for r in i["r"]]
            if len(st.frames) == 1: st.tags["retpos"] = i.get("p")
            return self.ret_into(st, vals, work)
        if op == "rundefers":
            fr.rundef = True; return "cont"
        if op == "panic":
            st.tags["panicpos"] = i.get("p")
            return self.unwind(st, V(i["x"]), work)
        if op == "phi":
            raise Undecided("stray phi")
        if op == "alloc":
            R[i["n"]] = self.alloc(st, fr.fn["name"] + "." + i["n"], i["et"])
            return "cont"
        if op == "bin":
            R[i["n"]] = self.binop(st, i["o"], V(i["x"]), V(i["y"]), i["t"], i["x"].get("t"))
            return "cont"
        if op == "un":
            x = V(i["x"]); o = i["o"]
            if o == "*":
                p = self.to_ptr(x)
                if p is None: return self.unwind(st, T("nilderef"), work)
                if self.policy and self.policy.on_load: self.policy.on_load(self, st, fr, i, p)
                R[i["n"]] = self.load(st, p, i["t"])
            elif o == "!": R[i["n"]] = mk_not(x) if isinstance(x, (bool, T)) else T("not", x)
            elif o == "-":
                R[i["n"]] = aff_mulc(x, -1, P.ity(i["t"])) if P.ity(i["t"]) else T("neg", x)
            elif o == "^":
                it = P.ity(i["t"])
                R[i["n"]] = wrap(~x, *it) if isinstance(x, int) else T("bitnot", x, ty=it)
            else:
                R[i["n"]] = self.fresh(i["t"], "recv")
                if i.get("ok"): R[i["n"]] = Agg("tuple", [fresh("recv"), fresh("ok")], None)
            return "cont"
        if op == "store":
            p = self.to_ptr(V(i["a"]))
            if p is None: return self.unwind(st, T("nilderef"), work)
            v = V(i["v"])
            if self.policy and self.policy.on_store: self.policy.on_store(self, st, fr, i, p, v)
            self.store(st, p, v, i["v"].get("t"))
            return "cont"
        if op == "fieldaddr":
            p = self.to_ptr(V(i["x"]))
            if p is None: return self.unwind(st, T("nilderef"), work)
            R[i["n"]] = Ptr(p.o, p.p + (i["f"],)); return "cont"
        if op == "field":
            R[i["n"]] = self.proj(V(i["x"]), i["f"], i["t"]); return "cont"
        if op == "indexaddr":
            x = V(i["x"]); idx = V(i["i"]); xt = P.types[i["x"]["t"]]
            if isinstance(idx, T) and idx.op == "conv": 
                b = idx.args[0]
                if isinstance(b, T) and b.ty and b.ty[1] and idx.ty and idx.ty[0] >= b.ty[0]: pass
            if self.policy and self.policy.on_index:
                r = self.policy.on_index(self, st, fr, i, x, idx, work)
                if r: return r
            if xt["k"] == "slice":
                s = self.as_slice(st, x)
                if getattr(self.policy, "strict", False) and isinstance(idx, int) and isinstance(s.len, int) and not 0 <= idx < s.len: return self.bounds(st, i)
                n = aff_add(s.off, idx, (8, False)) if not (s.off == 0) else idx
                R[i["n"]] = Ptr(s.o, s.p + (n,))
            else:
                p = self.to_ptr(x)
                R[i["n"]] = Ptr(p.o, p.p + (idx,))
            return "cont"
        if op == "index":
            x = V(i["x"]); idx = V(i["i"])
            if isinstance(x, bytes):
                R[i["n"]] = x[idx] if isinstance(idx, int) and 0 <= idx < len(x) else T("idx", x, idx, ty=(1, True))
            else: R[i["n"]] = self.proj(x, idx, i["t"])
            return "cont"
        if op in ("chgt", "chgif"):
            R[i["n"]] = V(i["x"]); return "cont"
        if op == "conv":
            R[i["n"]] = self.convert(st, V(i["x"]), i["x"]["t"], i["t"]); return "cont"
        if op == "s2ap":
            s = self.as_slice(st, V(i["x"]))
            # pointer to array view
            if getattr(self.policy, "strict", False) and isinstance(s.len, int):
                pt = P.types[i["t"]]
                if s.len < P.types[pt["e"]]["len"]: return self.bounds(st, i)
            if s.off == 0: R[i["n"]] = Ptr(s.o, s.p)
            else: R[i["n"]] = T("s2ap", s.o, s.p, s.off)
            return "cont"
        if op == "mkif":
            x = V(i["x"]); R[i["n"]] = Iface(i["x"].get("t"), x) ; return "cont"
        if op == "closure":
            R[i["n"]] = Func(i["fn"]["n"], [V(b) for b in i["b"]]); return "cont"
        if op == "mkmap":
            p = self.alloc(st, fr.fn["name"] + "." + i["n"], None)
            st.mem[p.o] = {("#complete",): True, ("#ver",): 0}
            R[i["n"]] = p; return "cont"
        if op == "mkchan":
            R[i["n"]] = T("nonnil", fresh("chan")); return "cont"
        if op == "mkslice":
            p = self.alloc(st, fr.fn["name"] + "." + i["n"], None)
            R[i["n"]] = SliceV(p.o, (), 0, V(i["len"]), V(i["cap"])); return "cont"
        if op == "slice":
            return self.do_slice(st, fr, i, V)
        if op == "lookup":
            return self.do_lookup(st, fr, i, V, work)
        if op == "mapupdate":
            m = V(i["x"]); k = V(i["k"]); v = V(i["v"])
            self.map_update(st, m, k, v, i)
            if self.policy and self.policy.on_mapupdate: self.policy.on_mapupdate(self, st, fr, i, m, k, v)
            return "cont"
        if op == "range":
            x = V(i["x"])
            xt = P.types[i["x"]["t"]]
            if isinstance(x, bytes):
                items = []; j = 0
                s = x.decode("utf8", "replace")
                for ch in s: items.append((j, ord(ch))); j += len(ch.encode("utf8"))
                it = ("it", tuple(items))
            elif isinstance(x, Ptr) and ("#complete",) in (st.mem.get(x.o) or P.base.get(x.o) or {}):
                m = st.mem.get(x.o) or P.base.get(x.o)
                it = ("it", tuple((q[1], v) for q, v in m.items() if q[0] == "#m"))
            elif x is None: it = ("it", ())
            else: it = ("symit", x)
            p = self.alloc(st, "iter", None)
            st.mem[p.o] = {(): (it, 0)}
            R[i["n"]] = p
            if self.policy and self.policy.on_range: self.policy.on_range(self, st, fr, i, x)
            return "cont"
        if op == "next":
            p = V(i["x"]); cur = st.mem.get(p.o, {}).get(())
            tt = P.types[i["t"]]["ts"]
            if isinstance(cur, tuple) and cur[0][0] == "it":
                it, pos = cur
                if pos < len(it[1]):
                    k, v = it[1][pos]; st.mem[p.o] = {(): (it, pos + 1)}
                    R[i["n"]] = Agg("tuple", [True, k, v], None)
                else: R[i["n"]] = Agg("tuple", [False, None, None], None)
            else:
                def z(t, h): return self.fresh(t, h) if t >= 0 and P.types[t].get("b") != "invalid type" else None
                R[i["n"]] = Agg("tuple", [fresh("next.ok"), z(tt[1], "key"), z(tt[2], "val")], None)
            return "cont"
        if op == "extract":
            x = V(i["x"])
            R[i["n"]] = x.e[i["i"]] if isinstance(x, Agg) else T("ext", x, i["i"], ty=self.tyof(i["t"]))
            return "cont"
        if op == "assert":
            return self.do_assert(st, fr, i, V, work)
        if op in ("call", "defer", "go"):
            c = i["call"]
            args = [V(a) for a in c["args"]]
            if "inv" in c: callee = ("inv", c["inv"], V(c["recv"]), c["it"])
            else:
                callee = V(c["fn"])
                if isinstance(callee, Func) and c["fn"]["k"] == "r": pass
            if op == "defer":
                fr.defers.append((i, args, callee)); return "cont"
            if op == "go":
                st.events.append(Event("go", repr(callee), args, i.get("p"))); return "cont"
            return self.do_call(st, fr, i, callee, args, i["n"], work)
        if op in ("send", "select"):
            st.events.append(Event(op, "", [], i.get("p")))
            if op == "select": R[i["n"]] = fresh("select")
            return "cont"
        raise Undecided("instruction " + op)

    def do_slice(self, st, fr, i, V):
        x = V(i["x"]); P = self.P; xt = P.types[i["x"]["t"]]
        lo = V(i["lo"]) if i["lo"] else 0
        hi = V(i["hi"]) if i["hi"] else None
        if self.policy and self.policy.on_slice: self.policy.on_slice(self, st, fr, i, x, lo, hi)
        if P.isstr(i["x"]["t"]):
            if isinstance(x, bytes) and isinstance(lo, int) and (hi is None or isinstance(hi, int)): fr.regs[i["n"]] = x[lo:hi]
            else: fr.regs[i["n"]] = T("substr", x, lo, hi)
            return "cont"
        if xt["k"] == "ptr":
            p = self.to_ptr(x); n = P.types[xt["e"]]["len"]
            h = n if hi is None else hi
            fr.regs[i["n"]] = SliceV(p.o, p.p, lo, aff_add(h, lo, (8, False), -1), aff_add(n, lo, (8, False), -1))
            return "cont"
        if x is None and lo == 0 and (hi is None or hi == 0): fr.regs[i["n"]] = None; return "cont"
        s = self.as_slice(st, x)
        h = s.len if hi is None else hi
        mx = V(i["max"]) if i["max"] else s.cap
        def nn(v): return self.unconv(st, v)
        lo, h = nn(lo), nn(h)
        if getattr(self.policy, "strict", False) and all(isinstance(v, int) for v in (lo, h, mx)) and not 0 <= lo <= h <= mx: return self.bounds(st, i)
        fr.regs[i["n"]] = SliceV(s.o, s.p, aff_add(s.off, lo, (8, False)), aff_add(h, lo, (8, False), -1), aff_add(mx, lo, (8, False), -1))
        return "cont"

    def bounds(self, st, i):
        st.tags["panicpos"] = i.get("p")
        return self.unwind(st, T("bounds"), None)

    def unconv(self, st, v): return v

    def map_update(self, st, m, k, v, i):
        p = self.to_ptr(m)
        if p is None: return
        mm = dict(st.mem.get(p.o) or self.P.base.get(p.o) or {("#ver",): 0})
        over = mm.get(("#ver",), 0)
        if is_const(k) or isinstance(k, Agg):
            mm[("#m", k)] = v
        else:
            mm.pop(("#complete",), None)
            mm = {q: x for q, x in mm.items() if q[0] != "#m"}
            mm[("#m", k)] = v
        mm[("#ver",)] = T("ver", mm.get(("#ver",), 0), len(st.wlog))
        st.mem[p.o] = mm
        st.wlog.append((p.o, ("#m",), None))
        st.events.append(Event("mapset", p.o, [k, v], i.get("p"), over, fn=st.frames[-1].fn["name"] if st.frames else None))

    def do_lookup(self, st, fr, i, V, work):
        x = V(i["x"]); k = V(i["i"]); P = self.P
        if isinstance(x, bytes):
            fr.regs[i["n"]] = x[k] if isinstance(k, int) and 0 <= k < len(x) else T("idx", x, k, ty=(1, True)); return "cont"
        if P.isstr(i["x"]["t"]):
            fr.regs[i["n"]] = T("idx", x, k, ty=(1, True)); return "cont"
        et = P.types[i["x"]["t"]]["e"]
        ok = i.get("ok")
        def put(s, v, o): s.frames[-1].regs[i["n"]] = Agg("tuple", [v, o], None) if ok else v
        if x is None:
            put(st, self.zero(et), False); return "cont"
        p = self.to_ptr(x)
        if self.policy and self.policy.on_lookup: self.policy.on_lookup(self, st, fr, i, p, k)
        m = st.mem.get(p.o) or P.base.get(p.o) or {}
        if ("#m", k) in m:
            put(st, m[("#m", k)], True); return "cont"
        if ("#complete",) in m:
            keys = [q[1] for q in m if q[0] == "#m"]
            if is_const(k) or isinstance(k, Agg) and all(is_const(z) for z in k.e):
                if all(is_const(q) or isinstance(q, Agg) for q in keys):
                    put(st, self.zero(et), False); return "cont"
            elif len(keys) <= 400:
                # case split over the known keys
                for q in keys:
                    c = self.eq(st, k, q, None)
                    if c is False: continue
                    if c is True: put(st, m[("#m", q)], True); return "cont"
                    s2 = st.copy(); s2.nfork += 1
                    if s2.facts.assume(c, True):
                        put(s2, m[("#m", q)], True); work.append(s2)
                    st.nfork += 1
                    if not st.facts.assume(c, False): return "drop"
                put(st, self.zero(et), False); return "cont"
        ver = m.get(("#ver",), 0)
        kt = self.keyterm(k)
        v = T("lookup", p.o, ver, kt, ty=self.tyof(et))
        if ok: put(st, v, T("has", p.o, ver, kt))
        else: put(st, v, None)
        return "cont"
    def keyterm(self, k): return k

    def do_assert(self, st, fr, i, V, work):
        x = V(i["x"]); P = self.P; at = i["at"]; ok = i.get("ok"); n = i["n"]
        att = P.types[at]
        def put(s, v, o): s.frames[-1].regs[n] = Agg("tuple", [v, o], None) if ok else v
        if x is None:
            if ok: put(st, self.zero(at), False); return "cont"
            return self.unwind(st, T("assertfail"), work)
        if isinstance(x, Iface):
            if att["k"] == "iface":
                put(st, x, True); return "cont"
            if P.types[x.t]["s"] == att["s"]: put(st, x.v, True); return "cont"
            if ok: put(st, self.zero(at), False); return "cont"
            return self.unwind(st, T("assertfail"), work)
        v = x if att["k"] == "iface" else T("as", x, att["s"], ty=self.tyof(at))
        c = T("is", x, att["s"])
        if isinstance(x, T) and x.op in ("uniq",) and att["k"] != "iface":
            put(st, self.zero(at), False) if ok else None
            return "cont"
        if ok:
            return self.cond_fork(st, c, work, lambda s: put(s, v, True), lambda s: put(s, self.zero(at), False))
        st.facts.assume(c, True)
        put(st, v, None); return "cont"

    # -- calls -------------------------------------------------------------
    def do_call(self, st, fr, i, callee, args, dst, work):
        P = self.P
        def put(s, v):
            if dst and dst != "#defer": s.frames[-1].regs[dst] = v
        if isinstance(callee, tuple) and callee and callee[0] == "builtin":
            return self.builtin(st, fr, i, callee[1], args, dst, work, put)
        name = None
        if isinstance(callee, tuple) and callee[0] == "inv":
            _, meth, recv, it = callee
            if recv is None: return self.unwind(st, T("nilderef"), work)
            if isinstance(recv, Iface):
                ts = P.types[recv.t]["s"]
                mm = P.methods.get(ts, {})
                if meth in mm and mm[meth] in P.fns:
                    return self.enter(st, fr, i, mm[meth], [recv.v] + args, (), dst, work, put)
                name = "(%s).%s" % (ts, meth)
                args = [recv.v] + args
                return self.external(st, fr, i, name, args, dst, work, put)
            iname = P.types[it]["s"] + "." + meth
            return self.external(st, fr, i, iname, [recv] + args, dst, work, put, iface=True)
        if isinstance(callee, Func):
            return self.enter(st, fr, i, callee.n, args, callee.b, dst, work, put)
        if callee is None: return self.unwind(st, T("nilcall"), work)
        return self.external(st, fr, i, "dyncall", [callee] + args, dst, work, put, iface=True)

    def enter(self, st, fr, i, name, args, bindings, dst, work, put):
        P = self.P
        if name.endswith("$bound") or name.endswith("$thunk"):
            pass
        if self.policy:
            r = self.policy.call(self, st, fr, i, name, args, dst, work, put)
            if r is not None: return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, i, name, args, dst, work, put)
            if r is not None: return r
        fn = P.fns.get(name)
        if fn is None or not fn["blocks"]:
            return self.external(st, fr, i, name, args, dst, work, put)
        if sum(1 for f in st.frames if f.fn is fn) >= 2 or len(st.frames) > self.max_depth:
            self.notes.add("recursion cut at " + name)
            return self.external(st, fr, i, name, args, dst, work, put)
        self.push(st, fn, args, dst, bindings)
        return "cont"

    def result_tids(self, i):
        t = i.get("t")
        if t is None: return []
        tt = self.P.types[t]
        return list(tt["ts"]) if tt["k"] == "tuple" else [t]
    def freshres(self, i, hint):
        t = i.get("t")
        if t is None: return None
        tt = self.P.types[t]
        if tt["k"] == "tuple":
            if not tt["ts"]: return None
            return Agg("tuple", [self.fresh(x, hint + "." + str(j)) for j, x in enumerate(tt["ts"])], None)
        return self.fresh(t, hint)
    def resterm(self, i, op, *args):
        """deterministic (uninterpreted) result of a pure function"""
        t = i.get("t"); tt = self.P.types[t]
        if tt["k"] == "tuple":
            return Agg("tuple", [T(op, *args, j, ty=self.tyof(x)) for j, x in enumerate(tt["ts"])], None)
        return T(op, *args, ty=self.tyof(t))

    def external(self, st, fr, i, name, args, dst, work, put, iface=False):
        if self.policy:
            r = self.policy.ext(self, st, fr, i, name, args, dst, work, put)
            if r is not None: return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, i, name, args, dst, work, put)
            if r is not None: return r
        r = self.gomodels.generic(self, st, fr, i, name, args, dst, work, put)
        if r is not None: return r
        short = name.split("/")[-1]
        res = self.freshres(i, short)
        st.events.append(Event("call", name, args, i.get("p"), res, fn=fr.fn["name"], nf=len(st.facts.order)))
        if not iface:
            for a in args: self.havoc_arg(st, a)
        put(st, res)
        return "cont"
    def havoc_arg(self, st, a):
        if isinstance(a, Ptr): 
            v = fresh("clob")
            m = dict(st.mem.get(a.o, {}))
            for q in list(m):
                if q[:len(a.p)] == a.p: del m[q]
            m[a.p] = v; st.mem[a.o] = m; st.wlog.append((a.o, a.p, None))
        elif isinstance(a, SliceV):
            self.havoc_obj(st, a.o, "clob")

    def builtin(self, st, fr, i, n, args, dst, work, put):
        P = self.P
        c = i["call"]
        if n == "len":
            put(st, self.length(st, args[0], c["args"][0]["t"])); return "cont"
        if n == "cap":
            x = args[0]
            put(st, x.cap if isinstance(x, SliceV) else (0 if x is None else (self.length(st, x, c["args"][0]["t"]) if P.types[c["args"][0]["t"]]["k"] != "slice" else T("cap", x, ty=(8, False))))); return "cont"
        if n == "append":
            put(st, self.do_append(st, fr, i, args)); return "cont"
        if n == "copy":
            put(st, self.do_copy(st, args, c)); return "cont"
        if n == "delete":
            p = self.to_ptr(args[0])
            if p is not None:
                mm = dict(st.mem.get(p.o) or P.base.get(p.o) or {("#ver",): 0})
                if ("#m", args[1]) in mm and is_const(args[1]): del mm[("#m", args[1])]
                elif ("#complete",) in mm and constagg(args[1]) and all(is_const(q[1]) or constagg(q[1]) for q in mm if q[0] == "#m"): mm.pop(("#m", args[1]), None)
                elif not is_const(args[1]):
                    mm.pop(("#complete",), None)
                    mm = {q: x for q, x in mm.items() if q[0] != "#m"}
                mm[("#ver",)] = T("ver", mm.get(("#ver",), 0), len(st.wlog))
                st.mem[p.o] = mm; st.wlog.append((p.o, ("#m",), None))
                st.events.append(Event("mapdel", p.o, [args[1]], i.get("p"), fn=fr.fn["name"]))
            return "cont"
        if n == "clear":
            a = args[0]
            st.events.append(Event("clear", repr(a), [], i.get("p"), fn=fr.fn["name"]))
            if isinstance(a, Ptr): st.mem[a.o] = {("#complete",): True, ("#ver",): T("ver", len(st.wlog))}; st.wlog.append((a.o, ("#m",), None))
            elif a is not None: self.havoc_obj(st, self.as_slice(st, a).o)
            return "cont"
        if n in ("min", "max"):
            a = args[0]
            for b in args[1:]:
                if isinstance(a, int) and isinstance(b, int): a = (min if n == "min" else max)(a, b)
                else:
                    k = self.decide(st, mk_lt(a, b))
                    if k is True: a = a if n == "min" else b
                    elif k is False: a = b if n == "min" else a
                    else:
                        r = T(n, *sorted((a, b), key=_k), ty=self.tyof(i["t"]))
                        (al, ah), (bl, bh) = st.facts.interval(a), st.facts.interval(b)
                        if n == "min":
                            hs = [h for h in (ah, bh) if h is not None]
                            if hs: st.facts._narrow(r, hi=min(hs))
                            if al is not None and bl is not None: st.facts._narrow(r, lo=min(al, bl))
                        a = r
            put(st, a); return "cont"
        if n == "recover": put(st, None); return "cont"
        if n in ("print", "println", "close"): return "cont"
        if n.startswith("ssa:wrapnilchk"):
            put(st, args[0]); return "cont"
        put(st, self.freshres(i, n))
        self.notes.add("builtin " + n)
        return "cont"

    def do_append(self, st, fr, i, args):
        P = self.P
        a = args[0]; b = args[1] if len(args) > 1 else None
        et = P.types[i["t"]]["e"]
        if isinstance(b, bytes):
            b = self.convert(st, b, P.tindex["string"], i["t"])
        sa = self.as_slice(st, a)
        sb = self.as_slice(st, b)
        if b is None or sb.len == 0 and isinstance(sb.len, int): return a
        ln = aff_add(sa.len, sb.len, (8, False))
        if isinstance(sa.len, int) and isinstance(sb.len, int) and isinstance(sa.off, int) and isinstance(sb.off, int) and sa.len + sb.len <= 4096:
            p = self.alloc(st, "append", None)
            m = {}
            src = st.mem.get(sa.o) or P.base.get(sa.o) or {}
            for j in range(sa.len): self.copy_elem(st, m, j, Ptr(sa.o, sa.p + (sa.off + j,)), et)
            for j in range(sb.len): self.copy_elem(st, m, sa.len + j, Ptr(sb.o, sb.p + (sb.off + j,)), et)
            st.mem[p.o] = m
            return SliceV(p.o, (), 0, sa.len + sb.len, fresh("cap", ty=(8, False)))
        st.events.append(Event("append", repr(a), [a, b], i.get("p"), fn=fr.fn["name"]))
        f = T("appended", self.slterm(st, sa), self.slterm(st, sb))
        st.facts.assume(mk_lt(ln, 0), False) if isinstance(ln, T) else None
        return SliceV(("sl", f), (), 0, ln, fresh("cap", ty=(8, False)))
    def slterm(self, st, s):
        m = st.mem.get(s.o)
        if isinstance(s.len, int) and isinstance(s.off, int) and s.len <= 16 and m is not None and not any(s.p[:l] in m for l in range(len(s.p) + 1)):
            elems = []
            for j in range(s.len):
                vals = tuple(sorted(((k[len(s.p) + 1:], v) for k, v in m.items() if k[:len(s.p) + 1] == s.p + (s.off + j,)), key=repr))
                elems.append(vals)
            return T("slc", tuple(elems))
        if not m: return T("sl0", s.o, s.p, s.off, s.len)
        return T("slv", s.o, s.p, s.off, s.len, frozenset(m.items()))
    def copy_elem(self, st, m, j, src, et):
        m[(j,)] = self.load(st, src, et)

    def do_copy(self, st, args, c):
        d = self.as_slice(st, args[0]) if not isinstance(args[0], bytes) else None
        s = args[1]
        P = self.P
        if isinstance(s, bytes):
            if isinstance(d.len, int) and isinstance(d.off, int):
                n = min(d.len, len(s))
                for j in range(n): self.store(st, Ptr(d.o, d.p + (d.off + j,)), s[j], P.tindex.get("uint8"))
                return n
            self.havoc_obj(st, d.o, "copied"); return len(s)
        ss = self.as_slice(st, s)
        et = P.types[c["args"][0]["t"]].get("e")
        if all(isinstance(z, int) for z in (d.len, d.off, ss.len, ss.off)) and min(d.len, ss.len) <= 2048:
            n = min(d.len, ss.len)
            vals = [self.load(st, Ptr(ss.o, ss.p + (ss.off + j,)), et) for j in range(n)]
            for j, v in enumerate(vals): self.store(st, Ptr(d.o, d.p + (d.off + j,)), v, et)
            return n
        # symbolic copy: content of destination becomes a function of the source
        src = T("slcontent", self.slterm(st, ss))
        st.events.append(Event("copy", d.o, [d, ss], None))
        if isinstance(d.len, int) and isinstance(d.off, int) and d.len <= 64:
            for j in range(d.len):
                old = self.load(st, Ptr(d.o, d.p + (d.off + j,)), et)
                self.store(st, Ptr(d.o, d.p + (d.off + j,)), T("copied", src, j, old if isinstance(old, (int, T)) else None, ty=self.tyof(et)), et)
        else:
            prev = st.mem.get(d.o)
            st.mem[d.o] = {(): T("overlay", d.o, d.p, d.off, d.len, src, frozenset(prev.items()) if prev else None)}
            st.wlog.append((d.o, (), None))
        k = self.decide(st, mk_lt(d.len, ss.len))
        if k is True: return d.len
        if k is False: return ss.len
        return T("min", *sorted((d.len, ss.len), key=_k), ty=(8, False))

def _k(v): return (1, v.id) if isinstance(v, T) else (0, repr(v))

def constagg(v): return isinstance(v, Agg) and all(is_const(x) or constagg(x) for x in v.e)

class Policy:
    """Analysis specific hooks; return None to fall through to the default treatment."""
    on_load = on_store = on_index = on_mapupdate = on_range = on_slice = on_lookup = None
    def call(self, E, st, fr, i, name, args, dst, work, put): return None
    def ext(self, E, st, fr, i, name, args, dst, work, put): return None

def init_globals(P, pkgs, log=None):
    """Constant-propagates package initialisers so that table-like globals are known. Globals written
    anywhere outside init code (or whose address escapes into a store elsewhere) stay unknown."""
    written = set()
    for name, f in P.fns.items():
        isinit = f["short"] == "init" or f["short"].startswith("init#")
        for b in f["blocks"]:
            for ins in b["i"]:
                if ins["op"] == "store" and ins["a"]["k"] == "g":
                    if not isinit: written.add(ins["a"]["n"])
                if ins["op"] == "mapupdate" and not isinit:
                    pass
    # derived addresses: fieldaddr/indexaddr of a global followed by store
    for name, f in P.fns.items():
        isinit = f["short"] == "init" or f["short"].startswith("init#") or (f.get("parent") or "").endswith(".init")
        if isinit: continue
        regs = {}
        for b in f["blocks"]:
            for ins in b["i"]:
                if ins["op"] in ("fieldaddr", "indexaddr") and ins["x"]["k"] == "g": regs[ins["n"]] = ins["x"]["n"]
                elif ins["op"] in ("fieldaddr", "indexaddr") and ins["x"]["k"] == "r" and ins["x"]["n"] in regs: regs[ins["n"]] = regs[ins["x"]["n"]]
                elif ins["op"] == "un" and ins["o"] == "*" and ins["x"]["k"] == "g": regs[ins["n"]] = ins["x"]["n"]
                elif ins["op"] == "store" and ins["a"]["k"] == "r" and ins["a"]["n"] in regs: written.add(regs[ins["a"]["n"]])
                elif ins["op"] == "mapupdate" and ins["x"]["k"] == "r" and ins["x"]["n"] in regs: written.add(regs[ins["x"]["n"]])
                elif ins["op"] == "call" and ins["call"].get("fn", {}).get("k") == "b" and ins["call"]["fn"]["n"] in ("delete", "clear"):
                    a = ins["call"]["args"][0]
                    if a["k"] == "r" and a["n"] in regs: written.add(regs[a["n"]])
    for pk in pkgs:
        nm = pk + ".init"
        if nm not in P.fns: continue
        E = Engine(P, InitPolicy(pk), max_paths=4, max_steps=3000000)
        st = State()
        st.mem[("g", pk + ".init$guard")] = {(): False}
        try:
            rs = E.run(nm, [], st)
        except Undecided as e:
            if log is not None: log.append("init of %s: %s" % (pk, e))
            continue
        rs = [r for r in rs if r.kind == "ret"]
        if len(rs) != 1:
            if log is not None: log.append("init of %s: %d outcomes" % (pk, len(rs)))
            if not rs: continue
        for o, m in rs[0].st.mem.items():
            if isinstance(o, tuple) and o[0] == "g" and o[1] in written: continue
            P.base[o] = m
    P.written_globals = written

class InitPolicy(Policy):
    def __init__(self, pk): self.pk = pk
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if name.endswith(".init") and not name.startswith(self.pk): return "cont"
        if name in ("errors.New", "fmt.Errorf"):
            put(st, T("uniq", "%s@%s" % (name, i.get("p")))); return "cont"
        return None
