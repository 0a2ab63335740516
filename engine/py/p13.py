"""P13: registries of interpreters and processors: lockset analysis, atomic check-and-insert, letter case,
rejection of nil and duplicate registrations, independence of snapshots."""
import goprog
from golocks import *

PKG = MODP + "tosca"
import common
def pos(p): return (p or "").replace(common.REPO + "/", "")

def contains(t, x):
    return t is x or isinstance(t, T) and any(contains(a, x) for a in t.args)
def folds(t): return isinstance(t, T) and (t.op in ("lower", "upper") or any(folds(a) for a in t.args))
def case_of(t, name):
    """how a map key derives from the name: 'lower', 'upper', 'raw', another case-folding term or None"""
    if isinstance(t, T) and t.op in ("lower", "upper"):
        u = t.args[0]
        while isinstance(u, T) and u.op in ("lower", "upper"): u = u.args[0]
        if u is name: return t.op
    if not contains(t, name): return None
    return repr(t) if folds(t) else "raw"

class Pol(LockPolicy):
    havoc = True

def main(rep):
    P = goprog.load(["./go/tosca"], inits=(), rep=rep)
    rep.assumptions += ["sync.Mutex/RWMutex behave as documented", "registration during package initialisation is single threaded"]
    # registry data: package variables through which a map of factories is reached
    gtypes = {}
    def has_map(tid, depth=0):
        t = P.types[tid]
        if depth > 4: return None
        if t["k"] == "map":
            e = P.types[t["e"]]["s"]
            for k in ("InterpreterFactory", "ProcessorFactory"):
                if e.endswith("tosca." + k): return k
        if t["k"] == "struct":
            for f in t["f"]:
                r = has_map(f["t"], depth + 1)
                if r: return r
        if t["k"] in ("ptr",): return has_map(t["e"], depth + 1)
        return None
    shared = lambda r: (r[0] == "g" and r[1].startswith(PKG + ".")) or (r[0] == "*" and r[1][0][0] in ("g", "*") and "tosca." in repr(r))
    pol = LockPolicy(shared)
    regglob = set()
    for n, g in P.globals.items():
        tid = g.get("t")
        if not n.startswith(PKG + ".") or tid is None: continue
        k = has_map(tid) or (has_map(P.types[tid]["e"]) if P.types[tid]["k"] == "ptr" else None)
        if k: regglob.add(n)
    if not regglob: rep.undec("registries", "no package variable holds a map of factories"); 
    refs = lambda f: any(o["k"] == "g" and o["n"] in regglob for o in operands(f))
    name = sym("$name"); impl = sym("$impl")
    runs = {}
    for fn, f in sorted(P.fns.items()):
        if f.get("pkg") != PKG and not fn.startswith(PKG + "."): continue
        sh = fn[len(PKG) + 1:]
        if not fn.startswith(PKG + ".") or not sh[:1].isupper() or "." in sh or "$" in sh or "[" in sh: continue
        if not f["blocks"] or not reach(P, fn, refs): continue
        pol.entry = sh
        args = []
        for k, p in enumerate(f["params"]):
            tt = P.types[p["t"]]
            if tt["k"] == "slice": args.append(sym("$cfg"))
            elif P.isstr(p["t"]): args.append(name)
            else: args.append(impl)
        try:
            E = Engine(P, pol); rs = E.run(fn, args)
        except Undecided as e:
            rep.undec(sh, e); continue
        rep.count("entry_points"); rep.count("paths", len(rs))
        runs[sh] = (f, rs)
        for r in rs:
            lk = r.st.tags.get("locks", ())
            rep.check(not lk, "exit:" + sh, "%s: the registry lock is released when the function %s" % (sh, "returns" if r.kind == "ret" else "panics"), pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")))
    for k, m, p in pol.problems: rep.violation("lock:%s:%s" % (k, m[:60]), m, pos(p))
    if pol.atomics: rep.undec("atomic accesses", "shared data accessed through %s" % sorted(map(str, pol.atomics))[:3])
    bad, ok = evaluate([a for a in pol.acc])
    for loc, b, l in bad:
        if loc[0] in pol.atomics: continue
        for a in b[:4]:
            rep.violation("race:%s:%s:%s" % (loc[0], a.entry, "w" if a.w else "r"), "%s %s %s without the lock that protects it" % (a.entry, "modifies" if a.w else "reads", describe(loc)), pos(a.pos))
    for loc, l, common in ok: rep.ok("%d accesses to %s hold %s" % (len(l), describe(loc), sorted(common)[0]), pos(l[0].pos)); rep.count("accesses", len(l))
    # reading a map variable that is never reassigned is covered by the map accesses themselves
    # --- behaviour
    reg = {"Interpreter": ("RegisterInterpreterFactory", "GetInterpreterFactory", "GetAllRegisteredInterpreters"),
           "Processor": ("RegisterProcessorFactory", "GetProcessorFactory", "GetAllRegisteredProcessorFactories")}
    for kind, (R, G, A) in reg.items():
        cases = {}
        regobj = None
        if R in runs:
            f, rs = runs[R]; nreg = 0
            for r in rs:
                sets = [e for e in r.st.events if e.k in ("mapset", "mapdel", "clear") and root(e.n) is not None]
                other = [e for e in sets if e.k != "mapset"]
                if other: rep.violation("%s:del" % R, "%s removes entries from the registry" % R, pos(other[0].pos)); continue
                rejected = r.kind == "panic" or (r.kind == "ret" and r.vals and r.vals[0] is not None)
                nilf = r.st.facts.known(mk_eq(impl, None))
                if nilf is True:
                    rep.check(rejected and not sets, R + ":nil", "%s rejects a nil factory without changing the registry" % R, pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos"))); continue
                if nilf is None and not rejected:
                    rep.violation(R + ":nil", "%s accepts a nil factory" % R, pos(sets[0].pos if sets else f.get("p"))); continue
                if rejected:
                    if nilf is None and r.kind == "ret": rep.undec(R, "rejection whose reason is not followed")
                    else: rep.check(not sets, R + ":rejected", "%s leaves the registry unchanged when it rejects a registration" % R, pos(sets[0].pos if sets else None))
                    # must be justified by a present key
                    continue
                if len(sets) != 1: rep.violation(R + ":sets", "%s accepts a registration but stores %d entries" % (R, len(sets)), pos(r.st.tags.get("retpos"))); continue
                e = sets[0]; k, v = e.a
                regobj = e.n
                cs = case_of(k, name)
                cases[R] = cs
                if cs is None: rep.undec(R, "key %r" % (k,)); continue
                rep.check(v is impl, R + ":value", "%s stores the given factory" % R, pos(e.pos))
                has = T("has", e.n, e.r, k)
                rep.check(r.st.facts.known(has) is False, R + ":overwrite", "%s stores only after finding the name unused in the same critical section" % R, pos(e.pos))
                nreg += 1
            if not nreg and not [v for v in rep.viol if v[0].startswith(R)] : rep.undec(R, "no accepting path found")
            dup = [r for r in rs if any(a.op == "has" and v for a, v in r.st.facts.atoms.items() if isinstance(a, T))]
            for r in dup:
                rejected = r.kind == "panic" or (r.kind == "ret" and r.vals and r.vals[0] is not None)
                rep.check(rejected, R + ":dup", "%s rejects a name that is already registered" % R, pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")))
        else: rep.undec(R, "function not found")
        if G in runs:
            for r in runs[G][1]:
                if r.kind != "ret": rep.violation(G + ":panic", "%s panics" % G, pos(r.st.tags.get("panicpos"))); continue
                v = r.vals[0]
                if isinstance(v, T) and v.op == "lookup":
                    cs = case_of(v.args[2], name); cases[G] = cs
                    if cs is None: rep.undec(G, "key %r" % (v.args[2],)); continue
                    if regobj is not None: rep.check(v.args[0] == regobj, G + ":obj", "%s reads the registry that registration fills" % G, pos(r.st.tags.get("retpos")))
                elif v is None:
                    has = [a for a, x in r.st.facts.atoms.items() if isinstance(a, T) and a.op == "has" and x is False]
                    nilv = [a for a, x in r.st.facts.atoms.items() if isinstance(a, T) and a.op == "==" and x is True]
                    if has:
                        cs = case_of(has[0].args[2], name); cases.setdefault(G, cs)
                        rep.ok("%s returns nil for an unknown name" % G)
                    elif nilv: rep.ok("%s returns nil for an unknown name" % G)
                    else: rep.violation(G + ":nil", "%s returns no factory whatever is registered" % G, pos(r.st.tags.get("retpos")))
                else: rep.undec(G, "result %r" % (v,))
        else: rep.undec(G, "function not found")
        if R in cases and G in cases and cases[R] and cases[G]:
            rep.check(cases[R] != "raw", R + ":case", "%s registers under a case-independent key" % R, PKG)
            rep.check(cases[G] == cases[R] or "raw" in cases.values() and cases[R] == "raw", G + ":case", "%s looks up the key that registration uses (%s / %s)" % (G, cases[R], cases[G]), PKG)
        if A in runs:
            for r in runs[A][1]:
                if r.kind != "ret": rep.violation(A + ":panic", "%s panics" % A, pos(r.st.tags.get("panicpos"))); continue
                v = r.vals[0]
                if isinstance(v, Ptr):
                    rep.check(root(v.o) is None, A + ":alias", "the map returned by %s is not the registry itself" % A, pos(r.st.tags.get("retpos")))
                elif isinstance(v, T):
                    rep.check(troot(v) is None or not shared(troot(v)), A + ":alias", "the map returned by %s is not the registry itself" % A, pos(r.st.tags.get("retpos")))
        else: rep.undec(A, "function not found")
    # front ends
    for n in ("NewInterpreter",):
        if n not in runs: continue
        for r in runs[n][1]:
            if r.kind != "ret": rep.violation(n + ":panic", "%s panics (%r)" % (n, r.vals), pos(r.st.tags.get("panicpos"))); continue
            calls = [e for e in r.st.events if e.k == "call" and e.n == "dyncall"]
            if calls: rep.check(isinstance(calls[0].a[0], T) and calls[0].a[0].op == "lookup" and case_of(calls[0].a[0].args[2], name) == cases.get("GetInterpreterFactory", case_of(calls[0].a[0].args[2], name)), n + ":factory", "NewInterpreter uses the registered factory", pos(calls[0].pos))
            else: rep.check(r.vals[1] is not None and r.vals[0] is None, n + ":missing", "NewInterpreter reports an error when nothing is registered under the name", pos(r.st.tags.get("retpos")))
    for n, R in (("RegisterInterpreter", "RegisterInterpreterFactory"), ("MustRegisterInterpreterFactory", "RegisterInterpreterFactory")):
        if n not in runs: continue
        for r in runs[n][1]:
            sets = [e for e in r.st.events if e.k == "mapset" and root(e.n) is not None]
            rep.check((r.kind == "panic") == (not sets), n + ":fail", "%s fails loudly exactly when the registration is rejected" % n, pos(r.st.tags.get("retpos") or r.st.tags.get("panicpos")))
    return ("Every exported function of the package that reaches registry data is interpreted abstractly on all paths with symbolic names and factories; each access to package level data is recorded with the set of locks held.",
            "one lock common to all accesses, exclusive for writers, balanced on all exits; check and insert in one critical section; keys case-folded alike; nil and duplicates rejected; snapshots are copies")

def describe(loc):
    r, path, kind = loc
    def d(r):
        if r[0] == "g": return r[1].replace(MODP, "")
        if r[0] == "*": return "what %s refers to" % d(r[1][0])
        return str(r)
    return d(r)
