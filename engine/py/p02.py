"""P02: shape analysis of the LRU cache operations."""
import common
from lru import *

WHERE = "cpp/common/lru_cache.h"
NAMES = {"get": "Get", "put": "InsertOrAssign", "goi": "GetOrInsert", "clear": "Clear"}
NS = (2, 3, 4, 64)

def walk(E, st, L, lay, e, sc, N, used):
    """the list reached from head: item names; checks back links"""
    rd = lambda p, f: E.mload(st, LPtr(p.o, p.off + lay[f]), 8)
    head = E.mload(st, LPtr(THIS, lay["head"]), 8); tail = E.mload(st, LPtr(THIS, lay["tail"]), 8)
    seq = []; cur = head; prev = None
    while not (isinstance(cur, int) and cur == 0):
        if not isinstance(cur, LPtr): return seq, "link to %r" % (cur,), tail
        o = cur.o
        if o[0] == "node" and o[1] == e and cur.off == 0:
            if o[2] in seq: return seq, "the list is cyclic at %s" % o[2], tail
            p = rd(cur, "pred")
            if prev is not None and p != prev: return seq, "predecessor of %s is %s, not %s" % (o[2], nm(p), nm(prev)), tail
            if prev is None and L.inv[0] and p != 0: return seq, "predecessor of the first entry is %s" % nm(p), tail
            seq.append(o[2]); prev = cur
            if cur == tail:
                nx = rd(cur, "succ")
                if used and L.inv[1] and not (isinstance(nx, int) and nx == 0): return seq, "successor of the last entry is %s" % nm(nx), tail
                break
            cur = rd(cur, "succ")
        elif o[0] == "opq" and o[1] == e and o[3] == "first":
            if o[2] in seq: return seq, "the list is cyclic", tail
            i = sc.items.index(o[2])
            first_pred = L.neighbour(sc, e, i, -1); nxt = L.neighbour(sc, e, i, 1)
            if prev != first_pred: return seq, "entry %s precedes the middle part but is not linked back" % nm(prev), tail
            seq.append(o[2]); prev = LPtr(("opq", e, o[2], "last"), 0); cur = nxt
        else: return seq, "link to %s" % nm(cur), tail
    if not (isinstance(prev, LPtr) and tail == prev): return seq, "last entry is %s but the tail pointer is %s" % (nm(prev), nm(tail)), tail
    return seq, None, tail
def nm(p):
    if p is None: return "nothing"
    if isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "node": return p.o[2]
    if isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "opq": return p.o[2]
    return "null" if p == 0 else repr(p)

def final(L, lay, fn, sc0, r):
    """problems of one result"""
    st = r.st; sc = st.tags["sc"]; e = st.tags["epoch"]; N = sc.N; bad = []
    E = L.engine(N, lay)
    if r.kind == "ub": return [("link", r.val)]
    if r.kind == "unreachable" or r.kind == "trap" or r.kind == "abort": return [("abort", "execution cannot continue (%s)" % r.kind)]
    if r.kind == "throw": return [] if st.tags.get("thrown") else [("throw", "raises an exception")]
    seq, err, tail = walk(E, st, L, lay, e, sc, N, sc.live > 0 or fn != "get")
    if err: return [("list", err)]
    pres = st.tags.get("pres", {}); items = sc.items
    hit = sc.hit is not None
    made = st.tags.get("made", 0)
    ins = not hit and (fn == "put" or (fn == "goi"))
    cleared = st.tags.get("mapclear")
    if cleared: return [("index", "empties the index")]
    # order
    if hit:
        x = items[sc.hit]; want = [[x] + [y for y in items if y != x]]
        if fn == "put" or made: want.append(items)
        if seq not in want: bad.append(("order", "recency order becomes %s instead of %s" % ("-".join(seq), "-".join(want[0]))))
    elif ins:
        want = [[y] + [z for z in items if z != y] for y in (items[sc.live:] or items[-1:]) if y[0] != "O"]
        if items[-1][0] != "O" and [items[-1]] + items[:-1] not in want: want.append([items[-1]] + items[:-1])
        if seq not in want: bad.append(("order", "recency order becomes %s, expected %s" % ("-".join(seq), "-".join(want[-1]))))
        if seq and sc.full and seq[0] != items[-1]: bad.append(("evict", "the least recently used entry is not the one reused"))
    elif seq != items: bad.append(("order", "a lookup that misses changes the order to " + "-".join(seq)))
    # index
    newp = {k: v for k, v in pres.items()}
    was = lambda k: (hit if k is K else (isinstance(k, T) and k.op == "nkey" and sc.items.index(k.args[1]) < sc.live))
    removed = [k for k, v in newp.items() if not v and was(k)]
    added = [k for k, v in newp.items() if v and not was(k)]
    evicted = L.nkey(st, sc, e, items[-1]) if ins and sc.full else None
    lbl = lambda k: "the key" if k is K else "the key of " + str(k.args[1] if isinstance(k, T) else k)
    for k in removed:
        if k is not evicted: bad.append(("index", "removes %s from the index" % lbl(k)))
    if evicted is not None and evicted not in removed: bad.append(("index", "the evicted entry's key stays in the index"))
    for k in added:
        if not (ins and k is K): bad.append(("index", "adds %s to the index" % lbl(k)))
    if ins and K not in added: bad.append(("index", "the inserted key is not in the index"))
    # entries
    rd = lambda n, f: E.mload(st, LPtr(("node", e, n), lay[f]), 8)
    newv = VAL if fn == "put" else (sym("made%d" % made, ty=(8, True)) if made else None)
    kn = items[sc.hit] if hit else (seq[0] if ins and seq else None)
    for i, n in enumerate(items):
        if n[0] == "O": continue
        if n == kn and ins:
            if rd(n, "key") is not K: bad.append(("entry", "the new entry's stored key is not the inserted key"))
            if rd(n, "value") is not newv: bad.append(("entry", "the new entry's stored value is not the inserted value"))
            s = E.mload(st, LPtr(("slot", e, K), 8), 8)
            if not (isinstance(s, LPtr) and s == LPtr(("node", e, n), 0)): bad.append(("index", "the inserted key is indexed at %s instead of %s" % (nm(s), n)))
        else:
            if i < sc.live and n != (items[-1] if ins and sc.full else None):
                if rd(n, "key") is not L.nkey(st, sc, e, n): bad.append(("entry", "changes the stored key of another entry"))
                k = L.nkey(st, sc, e, n)
                s = E.mload(st, LPtr(("slot", e, k), 8), 8)
                if not (isinstance(s, LPtr) and s == LPtr(("node", e, n), 0)): bad.append(("index", "re-indexes %s at %s" % (lbl(k), nm(s))))
                v = rd(n, "value"); old = T("nval", e, n, ty=(8, True))
                if n == kn and hit and fn == "put":
                    if v is not VAL: bad.append(("entry", "assigning to a present key does not store the value"))
                elif n == kn and hit and made:
                    if v is not old and v is not newv: bad.append(("entry", "stores an unrelated value for the key"))
                elif v is not old: bad.append(("entry", "changes the stored value of %s" % ("the looked-up entry" if n == kn else "another entry")))
    # results
    eq = lambda a, b: a is b or (isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and int(a) == int(b))
    if fn == "get":
        if isinstance(r.val, (int, bool)):
            if bool(r.val) != hit: bad.append(("result", "reports %s for %s key" % ("a value" if r.val else "no value", "a present" if hit else "an absent")))
            elif hit:
                out = E.mload(st, LPtr(("arg", "out"), 0), 8)
                if out is not T("nval", e, items[sc.hit], ty=(8, True)): bad.append(("result", "returns something other than the key's value"))
        else: raise Und("result %r" % (r.val,))
    elif fn == "put":
        if r.val is not VAL: bad.append(("result", "does not return the assigned value"))
    else:
        old = T("nval", e, items[sc.hit], ty=(8, True)) if hit else None
        okv = [old] if hit and not made else ([old, newv] if hit else [newv])
        if hit and made and rd(items[sc.hit], "value") is newv: okv = [newv]
        if r.val not in [x for x in okv if x is not None]: bad.append(("result", "does not return the value kept for the key"))
        if hit and made and st.tags.get("acq", 0) < 2: bad.append(("result", "creates a value although the key is present"))
        if not hit and made > 1: bad.append(("result", "creates more than one value"))
    return bad

def analyse(L, N, inv, rep=None):
    """violations of one capacity under one invariant choice: list of (key, msg, where)"""
    L.inv = inv; out = []; und = []; n = 0
    lay = L.layout(N)
    # construction and clearing
    L.phase = "constructor"
    for nmn, rs in (("the constructor", L.construct(N, lay)),):
        for r in rs:
            b = fresh_state(L, N, lay, r, nmn)
            out += b; n += 1
            if not b:
                L.phase = "Clear"
                for r2 in L.reclear(N, lay, r.st):
                    out += fresh_state(L, N, lay, r2, "Clear"); n += 1
                    if not r2.st.tags.get("mapclear") and r2.st.facts.interval(sym("oldsize", ty=(8, True)))[1] != 0: out.append(("Clear:index", "Clear leaves entries in the index", "Clear"))
    for sc in scenarios(N):
        for fn in ("get", "put", "goi"):
            L.phase = NAMES[fn]
            try:
                for r in L.run(fn, sc):
                    for k, m in final(L, lay, fn, sc, r):
                        out.append(("%s:%s" % (NAMES[fn], k), "%s: %s (from %s%s)" % (NAMES[fn], m, r.st.tags["sc"], ", after another thread ran between two critical sections" if r.st.tags.get("epoch") else ""), NAMES[fn]))
                n += 1
            except Finding as f:
                if f.key in ("relock", "unlock"): und.append(("%s on %s" % (NAMES[fn], sc), f.msg)); continue
                out.append(("%s:%s" % (NAMES[fn], f.key), f.msg + " (%s)" % sc, NAMES[fn]))
            except Und as u: und.append(("%s on %s" % (NAMES[fn], sc), u))
    return out, und, n

def fresh_state(L, N, lay, r, what):
    st = r.st; E = LEngine(L.M)
    if r.kind != "ret": return [("Clear:abort", "%s does not complete (%s %s)" % (what, r.kind, r.val), "Clear")]
    head = E.mload(st, LPtr(THIS, lay["head"]), 8); tail = E.mload(st, LPtr(THIS, lay["tail"]), 8)
    b = E.mload(st, LPtr(THIS, lay["entries"]), 8)
    if not isinstance(b, LPtr): raise Und("entry storage")
    e_ = E.mload(st, LPtr(THIS, lay["entries"] + 8), 8)
    if not isinstance(e_, LPtr) or e_.o != b.o: raise Und("entry storage")
    cnt = (e_.off - b.off) // lay["esz"]
    if cnt != N: return [("Clear:size", "%s prepares %d entries for capacity %d" % (what, cnt, N), "Clear")]
    seq = []; cur = head; prev = None
    while True:
        if not (isinstance(cur, LPtr) and cur.o == b.o and isinstance(cur.off, int) and (cur.off - b.off) % lay["esz"] == 0 and 0 <= (cur.off - b.off) // lay["esz"] < N):
            return [("Clear:list", "%s: after %d entries the list continues outside the entry storage (%r)" % (what, len(seq), cur), "Clear")]
        i = (cur.off - b.off) // lay["esz"]
        if i in seq: return [("Clear:list", "%s: entry %d occurs twice in the list" % (what, i), "Clear")]
        p = E.mload(st, LPtr(cur.o, cur.off + lay["pred"]), 8)
        if prev is not None and p != prev: return [("Clear:list", "%s: predecessor of entry %d is %r" % (what, i, p), "Clear")]
        if prev is None and L.inv[0] and not (isinstance(p, int) and p == 0): return [("Clear:list", "%s: predecessor of the first entry is %r" % (what, p), "Clear")]
        seq.append(i); prev = cur
        if cur == tail: break
        if len(seq) > N: return [("Clear:list", what + ": the list does not reach the tail", "Clear")]
        cur = E.mload(st, LPtr(cur.o, cur.off + lay["succ"]), 8)
    if len(seq) != N: return [("Clear:list", "%s: the list holds %d of %d entries" % (what, len(seq), N), "Clear")]
    return []

def main(rep):
    L = Lru(NS, rep)
    rep.assumptions += ["the index container behaves as absl::flat_hash_map documents", "capacity at least two", "operations that throw (memory exhaustion) are not considered here"]
    for N in (NS if rep.tier == "quick" else NS):
        try: L.layout(N)
        except (Und, KeyError) as e: rep.undec("capacity %d: roles of the cache's fields" % N, e); continue
        first = None
        for inv in ((1, 1), (0, 1), (1, 0), (0, 0)):
            try: out, und, n = analyse(L, N, inv)
            except Und as e: out, und, n = None, [("capacity %d" % N, e)], 0; break
            except Finding as f: out, und, n = [(f.key, f.msg, f.where)], [], 1
            if first is None: first = (out, und, n)
            if not out: break
        else: out, und, n = first
        for k, m, w in out or []: rep.violation(k, m, WHERE + " " + str(w))
        for a, b in und: rep.undec(a, b)
        for i in range(n - len({k for k, _, _ in out or []})): rep.ok("capacity %d: operation on one abstract shape keeps the invariant" % N, WHERE)
        rep.count("capacities")
    # the index must use the cache's own hash and equality
    try:
        N = NS[-1]; L.phase = "constructor"; rs = L.construct(N, L.layout(N))
        ids = rs[0].st.tags.get("map", {}).get("ids")
        if ids: rep.check(tuple(ids) == (7, 9), "index-functions", "the index uses the cache's hash and key equality functions", WHERE)
    except Und as e: rep.undec("hash and equality of the index", e)
    return ("Shape analysis: every operation is run on every abstract shape of the doubly linked recency list (all shapes for capacities 2, 3 and 4; head, second, middle, last-but-one and tail positions with opaque parts of unbounded length for a large one), index as abstract partial map; construction and clearing by constant propagation. Each resulting shape is compared with the specification and must satisfy the representation invariant again.",
            "order, links, index, stored key/value and result as specified")
