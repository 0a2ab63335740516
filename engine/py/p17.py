"""P17: caches, pools and other shared data of the Go interpreters."""
import goprog, common
from golocks import *
from goshared import Shared
def pos(p): return (p or "").replace(common.REPO + "/", "")
PK = ["./go/interpreter/...", "./go/ct/st", "./go/tosca/..."]
SCOPE = (MODP + "interpreter/", MODP + "ct/st", MODP + "tosca")

def main(rep):
    P = goprog.load(PK, inits=(), rep=rep)
    rep.assumptions += ["sync.Mutex, sync.Pool and the LRU container behave as documented", "Interpreter.Run may be called concurrently on one instance (documented)"]
    locksets(rep, P); pools(rep, P); unsynchronised(rep, P)
    return ("Lockset analysis of every type that embeds a mutex over all paths of its operations; typestate of pooled objects over all paths; pointer-origin analysis of everything reachable from concurrently used entry points.",
            "one lock per datum on every access, released on every exit; no use of an object after returning it to its pool, returned at most once; no write to shared memory outside locks")

# ---------------------------------------------------------------- locks
class LP(LockPolicy):
    def __init__(self):
        LockPolicy.__init__(self, lambda r: base(r) == "$obj")
    def rec(self, st, fr, i, o, p, w, kind=""):
        n = len(self.acc); LockPolicy.rec(self, st, fr, i, o, p, w, kind)
        if len(self.acc) > n:
            a = self.acc[-1]; r = a.loc[0]
            if r[0] == "*":
                tid = i["v"].get("t") if i["op"] == "store" else i.get("t")
                f = [x for x in a.loc[1] if isinstance(x, int)][:1]
                a.loc = (("p", "$obj"), ("heap",) + tuple(f) + ((tid,) if not kind else ()), kind)
    def more(self, E, st, fr, i, name, args, dst, work, put):
        f = E.P.fns.get(name)
        if f is None or not f["blocks"] or f.get("parent"): return None
        def mine(a):
            while isinstance(a, Iface): a = a.v
            if isinstance(a, Ptr): r = root(a.o)
            elif isinstance(a, SliceV): r = root(a.o)
            elif isinstance(a, T): r = troot(a)
            elif isinstance(a, Func): return True
            else: return False
            if r is not None and self.shared(r): return True
            # private memory that refers to the object
            o = a.o if isinstance(a, (Ptr, SliceV)) else None
            return o is not None and any(isinstance(v, (Ptr, T, SliceV, Func)) and v is not a and (isinstance(v, Func) or (root(v.o) if not isinstance(v, T) else troot(v)) is not None) for v in (st.mem.get(o) or {}).values())
        if any(mine(a) for a in args): return None
        put(st, E.freshres(i, name.split(".")[-1])); return "cont"
def base(r):
    while r[0] == "*": r = r[1][0]
    return r[1] if r[0] == "p" else None

def locksets(rep, P):
    structs = []
    for tid, t in enumerate(P.types):
        if t["k"] == "struct" and t["s"].startswith(SCOPE) and any(P.types[f["t"]]["s"] in ("sync.Mutex", "sync.RWMutex") for f in t["f"]): structs.append(tid)
    if not structs: rep.undec("mutex protected types", "none found")
    for tid in structs:
        ts = P.types[tid]["s"]; sh = ts.replace(MODP, "")
        meths = {n for n, f in P.fns.items() if f["blocks"] and f["params"] and P.types[f["params"][0]["t"]]["s"] == "*" + ts and not n.endswith(("$bound", "$thunk"))}
        callers = {}
        for n, f in P.fns.items():
            for o in operands(f):
                if o.get("k") == "f" and o["n"] in meths: callers.setdefault(o["n"], set()).add(n)
        internal = set()
        # helpers that are only called by other operations of the type (constructors work on private objects)
        makes = {n for n, f in P.fns.items() if any(i["op"] == "alloc" and i["et"] == tid for b in f["blocks"] for i in b["i"])}
        for m in meths:
            cs = callers.get(m, set())
            if cs and cs <= (meths | makes) and not m.split(".")[-1][:1].isupper(): internal.add(m)
        mut = mutable(P, ts, makes)
        rep.notes.append("%s: mutable fields %s" % (sh, sorted(P.types[tid]["f"][x]["n"] for x in mut)))
        for m in sorted(meths - internal):
            if not reach(P, m, lambda f: any(i["op"] == "fieldaddr" and i["f"] in mut and P.types[i["x"]["t"]]["s"] == "*" + ts for b in f["blocks"] for i in b["i"])): continue
            pol = LP(); pol.entry = m.split(").")[-1].split(".")[-1]
            f = P.fns[m]; args = [sym("$obj")] + [fresh("arg%d" % j, ty=P.ity(p["t"])) for j, p in enumerate(f["params"][1:])]
            try: rs = Engine(P, pol, max_paths=3000, max_seconds=60).run(m, args)
            except Undecided as e: rep.undec("%s.%s" % (sh, pol.entry), e); continue
            rep.count("lock_entry_points"); rep.count("paths", len(rs))
            for r in rs:
                rep.check(not r.st.tags.get("locks", ()), "exit:%s.%s" % (sh, pol.entry), "%s.%s releases the lock on every exit" % (sh, pol.entry), pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")))
            for k, w, p in pol.problems: rep.violation("lock:%s.%s:%s" % (sh, pol.entry, k), w, pos(p))
            allacc.setdefault(tid, []).extend(pol.acc)
        bad, ok = evaluate(allacc.get(tid, []))
        fields = [f["n"] for f in P.types[tid]["f"]]
        def d(loc):
            if loc[1][:1] == ("heap",): return "data reachable from %s" % sh
            return "%s.%s" % (sh, ".".join(fields[x] if isinstance(x, int) and j == 0 else str(x) for j, x in enumerate(loc[1])))
        # locations written only by nobody are immutable after construction
        for loc, b, l in bad:
            if loc[1][:1] and isinstance(loc[1][0], int) and P.types[P.types[tid]["f"][loc[1][0]]["t"]]["s"].startswith(("sync.", "sync/atomic")): continue
            for a in b[:4]: rep.violation("race:%s:%s:%s" % (d(loc), a.entry, "w" if a.w else "r"), "%s %s %s without the lock that protects it" % (a.entry, "modifies" if a.w else "reads", d(loc)), pos(a.pos))
        for loc, l, cm in ok: rep.ok("%d accesses to %s hold the lock" % (len(l), d(loc)), pos(l[0].pos)); rep.count("accesses", len(l))
allacc = {}
def derived(P, f, seed):
    """registers derived from the given ones (register -> set of labels)"""
    d = {k: set(v) for k, v in seed.items()}
    for _ in range(3):
        n0 = sum(map(len, d.values()))
        for b in f["blocks"]:
            for i in b["i"]:
                op = i["op"]
                if op in ("fieldaddr", "indexaddr", "un", "slice", "lookup", "extract", "chgt", "field", "index"): srcs = [i["x"]]
                elif op == "phi": srcs = i["e"]
                else: continue
                for x in srcs:
                    if x["k"] == "r" and x["n"] in d: d.setdefault(i["n"], set()).update(d[x["n"]])
        if sum(map(len, d.values())) == n0: break
    return d
_pw = {}
def targets(P, f):
    """operands through which the function modifies memory"""
    for b in f["blocks"]:
        for i in b["i"]:
            op = i["op"]
            if op == "store": yield i["a"]
            elif op == "mapupdate": yield i["x"]
            elif op == "closure":
                for x in i["b"]: yield x
            elif op in ("call", "defer", "go"):
                c = i["call"]; fn = c.get("fn")
                if fn and fn["k"] == "b" and fn["n"] in ("copy", "delete", "clear") and c["args"]: yield c["args"][0]
                elif fn and fn["k"] == "f" and fn["n"] in P.fns and P.fns[fn["n"]]["blocks"]:
                    for j in paramwrites(P, fn["n"]):
                        if j < len(c["args"]): yield c["args"][j]
def paramwrites(P, n):
    """indices of the parameters through which the function may modify memory"""
    if n in _pw: return _pw[n]
    _pw[n] = set()
    f = P.fns[n]
    d = derived(P, f, {p["n"]: {j} for j, p in enumerate(f["params"])})
    out = set()
    for x in targets(P, f):
        if x["k"] == "r" and x["n"] in d: out |= d[x["n"]]
    _pw[n] = out; return out
def mutable(P, ts, makes):
    """fields of the type through which something is modified outside its constructors"""
    out = set()
    for n, f in P.fns.items():
        if n in makes: continue
        seed = {i["n"]: {i["f"]} for b in f["blocks"] for i in b["i"] if i["op"] == "fieldaddr" and P.types[i["x"]["t"]]["s"] == "*" + ts}
        if not seed: continue
        d = derived(P, f, seed)
        for x in targets(P, f):
            if x["k"] == "r" and x["n"] in d: out |= d[x["n"]]
    return {x for x in out if not P.types[P.types[P.tindex[ts]]["f"][x]["t"]]["s"].startswith("sync.")}

# ---------------------------------------------------------------- pools
class PoolPol(Policy):
    """typestate of pooled objects: got -> put; any access or second put after put is a violation"""
    def __init__(self, rep): self.rep = rep; self.puts = 0; self.bad = []; self.gets = 0
    def obj(self, E, x):
        while isinstance(x, Iface): x = x.v
        if isinstance(x, (Ptr, T)):
            p = E.to_ptr(x); o = p.o
            # strip type assertions
            while isinstance(o, tuple) and o[0] == "d" and isinstance(o[1], T) and o[1].op == "as": o = ("d", o[1].args[0])
            return o
        return None
    def isput(self, st, o):
        while isinstance(o, tuple) and o[0] == "d" and isinstance(o[1], T) and o[1].op == "as": o = ("d", o[1].args[0])
        return o in st.tags.get("put", ())
    def touch(self, st, fr, i, o, what):
        if self.isput(st, o): self.bad.append((fr.fn["name"], what, i.get("p")))
    def on_load(self, E, st, fr, i, p): self.touch(st, fr, i, p.o, "reads")
    def on_store(self, E, st, fr, i, p, v): self.touch(st, fr, i, p.o, "writes")
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if name == "(*sync.Pool).Get":
            self.gets += 1
            put(st, T("nonnil", fresh("pooled"))); return "cont"
        if name == "(*sync.Pool).Put":
            o = self.obj(E, args[1]); self.puts += 1
            if o is not None:
                if self.isput(st, o): self.bad.append((fr.fn["name"], "returns twice to the pool", i.get("p")))
                st.tags["put"] = st.tags.get("put", ()) + (o,)
            put(st, None); return "cont"
        if name not in E.P.fns or not E.P.fns[name]["blocks"]: self.args(E, st, fr, i, name, args)
        elif not self.follow(name): 
            self.args(E, st, fr, i, name, args)
            put(st, E.freshres(i, name.split(".")[-1])); return "cont"
        return None
    def follow(self, name): return True
    def args(self, E, st, fr, i, name, args):
        for a in args:
            o = self.obj(E, a)
            if o is not None and self.isput(st, o): self.bad.append((fr.fn["name"], "uses (%s)" % name.split("/")[-1], i.get("p")))
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        self.args(E, st, fr, i, name, args); return None

def pools(rep, P):
    isput = lambda f: any(o.get("k") == "f" and o["n"] in ("(*sync.Pool).Put", "(*sync.Pool).Get") for o in operands(f))
    direct = [n for n, f in P.fns.items() if f["blocks"] and n.replace("(*", "").startswith(SCOPE) and isput(f)]
    # a function that only hands objects in or out transfers ownership; its callers are analysed as well
    near = set(direct)
    for n, f in P.fns.items():
        if f["blocks"] and n.replace("(*", "").replace("(", "").startswith(SCOPE) and any(o.get("k") == "f" and o["n"] in direct for o in operands(f)): near.add(n)
    for n in sorted(near):
        if n.endswith(("$bound", "$thunk")) or ".init" in n: continue
        f = P.fns[n]
        if f["fv"]: continue        # analysed with the function that creates it
        pol = PoolPol(rep)
        nr = near
        pol.follow = lambda name: name in nr or P.fns[name].get("parent") == n
        args = [fresh("arg%d" % j, ty=P.ity(p["t"])) for j, p in enumerate(f["params"])]
        sh = n.replace(MODP, "")
        try: rs = Engine(P, pol, max_paths=3000).run(n, args)
        except Undecided as e: rep.undec("pool use in " + sh, e); continue
        rep.count("pool_functions"); rep.count("paths", len(rs))
        for fn, what, p in pol.bad: rep.violation("pool:%s:%s" % (sh, what.split("(")[0].strip()), "%s %s an object after returning it to its pool" % (fn.replace(MODP, ""), what), pos(p))
        if not pol.bad: rep.ok("%s: no pooled object is used after its return (%d paths)" % (sh, len(rs)), pos(f.get("p")))

# ---------------------------------------------------------------- everything else
def unsynchronised(rep, P):
    entries = set()
    for n, f in P.fns.items():
        if not f["blocks"] or n.endswith(("$bound", "$thunk")): continue
        if not n.replace("(*", "").replace("(", "").startswith((MODP + "interpreter/", MODP + "tosca")): continue
        if "Mock" in n: continue
        last = n.split(".")[-1]
        if n.startswith("(") and last in ("Run", "StepN", "Convert"): entries.add(n)
        elif n.startswith("(") and n.replace("(*", "").replace("(", "").startswith(MODP + "tosca") and last[:1].isupper() and not last.startswith("Unmarshal"): entries.add(n)
        elif not n.startswith("(") and "/interpreter/" in n and last[:1].isupper() and not last.startswith(("Register", "Must")): entries.add(n)
    if not any(n.endswith("Run") for n in entries): rep.undec("entry points", "no Run method found"); return
    S = Shared(P, (MODP + "interpreter/", MODP + "tosca"), entries)
    if not S.solve(): rep.undec("pointer origins", "no fixpoint"); return
    reach = S.reachable(entries)
    rep.count("functions_reachable_from_entry_points", len(reach)); rep.count("entry_points", len(entries))
    regs = (MODP + "tosca.interpreterRegistry", MODP + "tosca.processorRegistry")
    seen = set()
    for n in sorted(reach):
        bad = False
        for t, (p, what, wf) in S.sum[n]["writes"].items():
            if t[0] == "g" and t[1].startswith(regs): continue      # decided by P13
            if t[0] in ("g", "s") and (t, p) not in seen:
                seen.add((t, p)); bad = True
                rep.violation("shared:%s:%s" % (t[1].replace(MODP, ""), wf.replace(MODP, "")), "%s modifies %s (%s), which concurrent executions share, without a lock" % (wf.replace(MODP, ""), t[1].replace(MODP, ""), what), pos(p))
        if not bad: rep.ok("%s writes no shared memory outside locks" % n.replace(MODP, ""))
