"""P01: lock discipline of the LRU cache (lockset analysis over all paths of all operations)."""
import common
from lru import *
from p02 import NAMES, WHERE
NS = (3, 64)

def main(rep):
    L = Lru(NS, rep)
    g = L.M.globals["w_kinds"]
    for i, n in enumerate(("Get", "InsertOrAssign", "GetOrInsert")):
        k = L.gb(g, 4 * i, 4)
        if k == 1: rep.ok(n + " returns by value", WHERE)
        elif k == 2: rep.violation(n + ":reference", n + " returns a reference or pointer into the cache", WHERE + " " + n)
        else: rep.undec(n + " result type", "unknown result type")
    viol = []
    for N in NS:
        try: lay = L.layout(N)
        except Und as e: rep.undec("capacity %d: roles of the cache's fields" % N, e); continue
        todo = [("clear", None)] + [(fn, sc) for sc in scenarios(N) for fn in ("get", "put", "goi")]
        for fn, sc in todo:
            for exc in (False, True):
                L.phase = NAMES[fn]
                try:
                    if fn == "clear":
                        rs = [r2 for r in L.construct(N, lay) if r.kind == "ret" for r2 in L.reclear(N, lay, r.st, exc)]
                    else: rs = L.run(fn, sc, exc)
                except Finding as f:
                    if f.key not in ("relock", "unlock", "stale"): rep.undec("%s on %s" % (L.phase, sc), f.msg); continue
                    viol.append(("%s:%s" % (L.phase, f.key), f.msg, L.phase)); continue
                except Und as e:
                    rep.undec("%s on %s" % (L.phase, sc), e); continue
                for r in rs:
                    if r.kind in ("ret", "throw"):
                        lk = r.st.tags.get("locks", ())
                        if lk: viol.append(("%s:held" % L.phase, "%s %s without releasing the lock" % (L.phase, "returns" if r.kind == "ret" else "is left by an exception"), L.phase))
                        else: rep.ok("%s: lock released on %s" % (L.phase, "return" if r.kind == "ret" else "exceptional exit"), WHERE)
    # pairwise lockset check
    locs = {}
    for a in set(L.acc): locs.setdefault(a[0], set()).add((a[1], a[2], a[3], a[4], a[5], a[6]))
    rep.count("shared_locations", len(locs)); rep.count("distinct_accesses", sum(len(v) for v in locs.values()))
    name = {}
    try:
        lay = L.layout(NS[-1]); name = {("cache", lay[k]): k for k in ("head", "tail", "entries", "index")}; name.update({("entry", lay[k]): "entry " + k for k in ("key", "value", "pred", "succ")})
    except Und: pass
    for loc, accs in sorted(locs.items(), key=repr):
        ws = [a for a in accs if a[0]]
        races = set()
        for w in ws:
            for o in accs:
                if w[5] and o[5]: continue
                lw, lo = dict(w[1]), dict(o[1])
                if any(lw[k] == "x" or lo[k] == "x" for k in lw if k in lo): continue
                races.add((w[2], o[2], w[4] if not w[1] else o[4]))
        loc = loc[1:]; nmx = name.get(loc, "%s at %s" % loc)
        if not races: rep.ok("all accesses to %s are ordered by a common lock" % nmx, WHERE)
        for wf, of, text in sorted(races):
            # name the operation whose access is unprotected
            viol.append(("race:%s:%s:%s" % (nmx.replace(" ", "_"), wf, of), "%s (write) and %s access %s without a common lock: %s" % (wf, of, nmx, text.strip()[:100]), "%s / %s" % (wf, of)))
    for k, m, w in viol:
        if L.atomics and k.startswith("race"): rep.undec(m, "the cache also synchronises through atomic operations")
        else: rep.violation(k, m, WHERE + " " + w)
    return ("Lockset analysis: all paths (normal and exceptional) of Get, InsertOrAssign, GetOrInsert and Clear over all abstract shapes; every access to the cache object, its entries, its index and to mutable globals is recorded with the locks held; two accesses of which one writes must share a lock that one of them holds exclusively.",
            "common exclusive lock per shared location; lock balanced on every exit; never re-acquired; results by value")
