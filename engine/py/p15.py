"""P15: GetStorageStatus against the EIP-2200 / EVMC table for all relations between the three values."""
import common, goprog
from gosem import *
def pos(p): return (p or "").replace(common.REPO + "/", "")

def table(o, c, n):
    """block numbers of a partition of (original, current, new, zero); zero is block 0"""
    if c == n: return "StorageAssigned"
    if o == c:
        if o == 0: return "StorageAdded"
        return "StorageDeleted" if n == 0 else "StorageModified"
    if o == 0: return "StorageAddedDeleted" if n == 0 else "StorageAssigned"
    if c == 0: return "StorageDeletedRestored" if n == o else "StorageDeletedAdded"
    if n == 0: return "StorageModifiedDeleted"
    return "StorageModifiedRestored" if n == o else "StorageAssigned"

def partitions():
    for o in range(2):
        for c in range(3):
            for n in range(4):
                if c > max(o, 0) + 1 or n > max(o, c) + 1: continue
                yield o, c, n

def main(rep):
    P = goprog.load(["./go/tosca"], inits=(), rep=rep)
    fn = "~tosca.GetStorageStatus"; where = "go/tosca GetStorageStatus"
    if not P.has(fn): rep.undec("GetStorageStatus", "function not found"); return "-", "-"
    vals = {}
    for n, c in P.consts.items():
        t = c.get("t"); t = P.types[t]["s"] if isinstance(t, int) else t
        if t == expand("~tosca.StorageStatus"): vals[n.rsplit(".", 1)[-1]] = int(c["v"])
    o, c, n = sym("$original"), sym("$current"), sym("$new")
    E = Engine(P)
    try: rs = E.run(fn, [o, c, n])
    except Undecided as e: rep.undec("GetStorageStatus", e); return "-", "-"
    rep.count("paths", len(rs))
    zero = None
    def who(t):
        for nm, s in (("o", o), ("c", c), ("n", n)):
            if t is s: return nm
        if isinstance(t, T) and t.op == "aggv" and all(x == 0 and isinstance(x, int) for x in t.args[0].e): return "z"
        if isinstance(t, T) and t.op == "zero": return "z"
        return None
    def rel(a):
        """atom as a pair of names, or None"""
        if isinstance(a, T) and a.op == "==":
            x, y = who(a.args[0]), who(a.args[1])
            if x and y: return (x, y)
        return None
    names = {v: k for k, v in vals.items()}
    unknown = [a for r in rs for a, _ in r.st.facts.order if isinstance(a, T) and a.op not in ("and", "or") and rel(a) is None]
    if unknown: rep.undec("GetStorageStatus", "condition %r is not a relation between the values" % (unknown[0],)); return "-", "-"
    def holds(a, blk):
        if isinstance(a, bool): return a
        if a.op in ("and", "or"):
            l = [holds(x, blk) for x in a.args]; return all(l) if a.op == "and" else any(l)
        if a.op == "not": return not holds(a.args[0], blk)
        x, y = rel(a); return blk[x] == blk[y]
    for po, pc, pn in partitions():
        blk = {"o": po, "c": pc, "n": pn, "z": 0}
        m = [r for r in rs if all(holds(a, blk) == b for a, b in r.st.facts.order)]
        d = lambda b: "0" if b == 0 else "XYZ"[b - 1]
        txt = "%s -> %s -> %s" % (d(po), d(pc), d(pn)); want = table(po, pc, pn)
        if len(m) != 1: rep.undec(txt, "%d paths" % len(m)); continue
        r = m[0]
        if r.kind != "ret": rep.violation(txt, "storage change %s: panics" % txt, where); continue
        v = r.vals[0]
        if not isinstance(v, int): rep.undec(txt, repr(v)); continue
        rep.check(v == vals.get(want), txt, "storage change %s is classified %s, specified %s" % (txt, names.get(v, v), want), pos(r.st.tags.get("retpos")) or where)
    # numbering: the status names are distinct
    rep.check(len(set(vals.values())) == len(vals) == 9, "numbers", "the nine storage statuses have distinct numbers", "go/tosca")
    # callers hand over the values in order: original, current, new
    return ("All paths of the classification with opaque values; every one of the 15 ways in which original, current, new value and zero can coincide selects exactly one path.", "EVMC / EIP-2200 table")
