"""Lockset analysis on top of the Go abstract interpreter: records every access to shared memory together
with the locks held, checks that locks are balanced on every exit, and forgets what was known about shared
data when a lock is (re)acquired, so that check-then-act sequences across critical sections show."""
from gosem import *

LOCKS = {"Lock": "x", "RLock": "r"}
UNLOCKS = {"Unlock": "x", "RUnlock": "r"}
ATOMIC = ("sync/atomic.", "(*sync/atomic.", "(*sync.Map).")

def root(o):
    """the shared root an object hangs off: ('g', name), ('gp', name, path) for what a global points to,
    ('p', name...) for what a parameter points to; None for private memory"""
    if isinstance(o, tuple):
        if o[0] == "g": return o
        if o[0] in ("d", "sl") and isinstance(o[1], T): return troot(o[1])
    return None
def troot(t):
    if not isinstance(t, T): return None
    if t.op in ("init", "blob"):
        r = root(t.args[0])
        if r is None: return None
        return ("*",) + ((r,) + tuple(x if isinstance(x, (int, str)) else "?" for x in t.args[1]),)
    if t.op == "epoch": return ("*", (root(t.args[0]), "?")) if root(t.args[0]) is not None else None
    if t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "epoch":
        r = root(t.args[0].args[0])
        return None if r is None else ("*", (r, t.args[1] if isinstance(t.args[1], (int, str)) else "?"))
    if t.op in ("fld", "nonnil", "ext", "as"): return troot(t.args[0])
    if t.op in ("lookup",):
        r = root(t.args[0])
        return None if r is None else ("*", (r, "[]"))
    if t.op == "sym":
        n = str(t.args[0])
        if n.startswith("$"): return ("p", n)
        if n.startswith(("clob", "loop", "mayalias", "havoc")): return ("unknown", n)
    return None

class Acc:
    __slots__ = ("loc", "w", "locks", "pos", "fn", "entry")
    def __init__(self, loc, w, locks, pos, fn, entry): self.loc, self.w, self.locks, self.pos, self.fn, self.entry = loc, w, locks, pos, fn, entry

class LockPolicy(Policy):
    def __init__(self, shared):
        """shared(root) -> True when the location is shared between threads"""
        self.shared = shared; self.acc = []; self.problems = []; self.entry = None; self.atomics = set(); self.seq = 0
    def locks(self, st): return dict(st.tags.get("locks", ()))
    def rec(self, st, fr, i, o, p, w, kind=""):
        r = root(o)
        if r is None or not self.shared(r): return
        sh = st.tags.get("sh", frozenset())
        if o not in sh: st.tags["sh"] = sh | {o}
        path = ()
        for x in p:
            path += (x if isinstance(x, (int, str)) else "?",)
        self.acc.append(Acc((r, path, kind), w, frozenset(st.tags.get("locks", ())), i.get("p"), fr.fn["name"], self.entry))
    def on_load(self, E, st, fr, i, p): self.rec(st, fr, i, p.o, p.p, False)
    def on_store(self, E, st, fr, i, p, v): self.rec(st, fr, i, p.o, p.p, True)
    def on_lookup(self, E, st, fr, i, p, k): self.rec(st, fr, i, p.o, p.p, False, "map")
    def on_mapupdate(self, E, st, fr, i, m, k, v):
        p = E.to_ptr(m)
        if p is not None: self.rec(st, fr, i, p.o, p.p, True, "map")
    def on_range(self, E, st, fr, i, x):
        if isinstance(x, Ptr) or isinstance(x, T):
            p = E.to_ptr(x); self.rec(st, fr, i, p.o, p.p, False, "map")
    def lockid(self, E, x):
        p = E.to_ptr(x)
        return None if p is None else repr(p)
    def call(self, E, st, fr, i, name, args, dst, work, put):
        base = name.split("[")[0]
        if name.startswith("(*sync.Mutex).") or name.startswith("(*sync.RWMutex)."):
            m = name.split(".")[-1]
            if m in LOCKS: return self.dolock(E, st, fr, i, args[0], LOCKS[m], put)
            if m in UNLOCKS: return self.dounlock(E, st, fr, i, args[0], UNLOCKS[m], put)
            if m in ("TryLock", "TryRLock"):
                s2 = st.copy()
                self.dolock(E, st, fr, i, args[0], "x" if m == "TryLock" else "r", lambda s, v: put(s, True))
                f2 = s2.frames[-1]
                if dst and dst != "#defer": f2.regs[dst] = False
                work.append(s2); return "cont"
        if name.startswith(ATOMIC):
            for a in args[:1]:
                p = E.to_ptr(a) if isinstance(a, (Ptr, T)) else None
                if p is not None and root(p.o) is not None: self.atomics.add(root(p.o))
        if base in ("maps.Clone", "golang.org/x/exp/maps.Clone"):
            if args[0] is None: put(st, None); return "cont"
            p = E.to_ptr(args[0]); self.rec(st, fr, i, p.o, p.p, False, "map")
            q = E.alloc(st, "maps.Clone", None)
            src = st.mem.get(p.o) or E.P.base.get(p.o)
            st.mem[q.o] = dict(src) if src else {("#ver",): T("clone", p.o, 0)}
            put(st, q); return "cont"
        if base in ("maps.Copy", "golang.org/x/exp/maps.Copy"):
            d, s = E.to_ptr(args[0]), E.to_ptr(args[1])
            if s is not None: self.rec(st, fr, i, s.o, s.p, False, "map")
            if d is not None:
                self.rec(st, fr, i, d.o, d.p, True, "map")
                st.mem[d.o] = {("#ver",): fresh("mapcopy")}; st.wlog.append((d.o, ("#m",), None))
            return "cont"
        if base in ("maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "maps.Equal"):
            for a in args[:2]:
                if isinstance(a, (Ptr, T)): p = E.to_ptr(a); self.rec(st, fr, i, p.o, p.p, False, "map")
            put(st, E.freshres(i, "keys")); return "cont"
        return self.more(E, st, fr, i, name, args, dst, work, put)
    def more(self, E, st, fr, i, name, args, dst, work, put): return None
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        if name in ("sync.Locker.Lock", "sync.Locker.Unlock") and args:
            a = args[0]; a = a.v if isinstance(a, Iface) else a
            return (self.dolock if name.endswith(".Lock") else self.dounlock)(E, st, fr, i, a, "x", put)
        return None
    def dolock(self, E, st, fr, i, x, mode, put):
        lk = self.lockid(E, x); h = self.locks(st)
        if lk in h and (mode == "x" or h[lk] == "x"):
            self.problems.append(("relock", "%s acquires %s while already holding it" % (short(fr.fn["name"]), lk), i.get("p")))
        h[lk] = mode; st.tags["locks"] = tuple(sorted(h.items()))
        st.events.append(Event("lock" if mode == "x" else "rlock", lk, [], i.get("p"), fn=fr.fn["name"]))
        # other threads may have changed everything shared since the last critical section
        self.seq += 1
        if st.tags.get("locked_before"):
            for o in set(st.mem) | st.tags.get("sh", frozenset()):
                r = root(o)
                if r is not None and self.shared(r):
                    st.mem[o] = {(): T("epoch", o, self.seq), ("#ver",): fresh("epoch")}
            st.tags["epoch"] = self.seq
        st.tags["locked_before"] = True
        put(st, None); return "cont"
    def havoc_plain(self, r): return False
    def dounlock(self, E, st, fr, i, x, mode, put):
        lk = self.lockid(E, x); h = self.locks(st)
        if lk not in h:
            self.problems.append(("unlock", "%s releases %s without holding it" % (short(fr.fn["name"]), lk), i.get("p")))
        elif h[lk] != mode:
            self.problems.append(("unlock", "%s releases %s in the wrong mode" % (short(fr.fn["name"]), lk), i.get("p")))
        h.pop(lk, None); st.tags["locks"] = tuple(sorted(h.items()))
        st.events.append(Event("unlock", lk, [], i.get("p"), fn=fr.fn["name"]))
        put(st, None); return "cont"

def short(n): return n.replace(MODP, "")

def reach(P, name, pred, limit=4000):
    """does the function (transitively, static callees and function values) satisfy pred(fn)?"""
    seen = set(); st = [name]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        f = P.fns.get(n)
        if f is None: continue
        if pred(f): return True
        for o in operands(f):
            if o.get("k") == "f": st.append(o["n"])
        if len(seen) > limit: return True
    return False
_opc = {}
def operands(f):
    c = _opc.get(f["name"])
    if c is None:
        c = []
        def walk(x):
            if isinstance(x, dict):
                if "k" in x and x["k"] in ("g", "f", "r", "c"): c.append(x)
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for b in f["blocks"]:
            for i in b["i"]: walk(i)
        _opc[f["name"]] = c
    return c

def evaluate(acc):
    """lockset rule: (violations, groups). A location written by an operation needs one lock common to all
    accesses, held exclusively by the writers."""
    by = {}
    for a in acc: by.setdefault(a.loc, []).append(a)
    out = []; ok = []
    for loc, l in by.items():
        if not any(a.w for a in l): continue
        bad = [a for a in l if not a.locks] + [a for a in l if a.w and a.locks and all(m == "r" for _, m in a.locks)]
        common = None
        for a in l:
            s = {k for k, m in a.locks if m == "x" or not a.w}
            common = s if common is None else common & s
        if common: ok.append((loc, l, common)); continue
        if not bad:
            # locks are held everywhere but they are not the same one: report the minority
            cnt = {}
            for a in l:
                for k, m in a.locks: cnt[k] = cnt.get(k, 0) + 1
            main = max(cnt, key=lambda k: cnt[k])
            bad = [a for a in l if main not in dict(a.locks)] or l
        out.append((loc, bad, l))
    return out, ok
