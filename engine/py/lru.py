"""Runs the operations of tosca::LruCache (IR of a witness instantiation) on every abstract shape of the
cache: a doubly linked list of named nodes with opaque middle parts, an index that is an abstract partial
map, and the lock as an event. Used by P01 (lock discipline) and P02 (integrity)."""
import common
from llsem import *

HEAD = r'''
#include "common/lru_cache.h"
#include <cstdint>
#include <type_traits>
extern "C" uint64_t vs_make();
struct VHash { static constexpr long vs_id = 7; size_t operator()(const uint64_t&) const; };
struct VEq { static constexpr long vs_id = 9; bool operator()(const uint64_t&, const uint64_t&) const; };
template <size_t N> using C = tosca::LruCache<uint64_t, uint64_t, N, VHash, VEq>;
template <class R> constexpr int kind() {
  if constexpr (std::is_same_v<R, std::optional<uint64_t>> || std::is_same_v<R, uint64_t>) return 1;
  else if constexpr (std::is_reference_v<R> || std::is_pointer_v<R>) return 2;
  else if constexpr (std::is_same_v<R, std::optional<uint64_t*>> || std::is_same_v<R, std::optional<const uint64_t*>> ||
                     std::is_same_v<R, std::optional<std::reference_wrapper<uint64_t>>> || std::is_same_v<R, std::reference_wrapper<uint64_t>> ||
                     std::is_same_v<R, std::optional<std::reference_wrapper<const uint64_t>>> || std::is_same_v<R, std::reference_wrapper<const uint64_t>>) return 2;
  else return 0;
}
struct MakeF { uint64_t operator()() const { return vs_make(); } };
extern "C" const int w_kinds[3] = {
  kind<decltype(std::declval<C<4>&>().Get(std::declval<const uint64_t&>()))>(),
  kind<decltype(std::declval<C<4>&>().InsertOrAssign(std::declval<const uint64_t&>(), uint64_t{}))>(),
  kind<decltype(std::declval<C<4>&>().GetOrInsert(std::declval<const uint64_t&>(), MakeF{}))>()};
'''
PERN = r'''
extern "C" void* w_new_@N@(void* p) { return new (p) C<@N@>(); }
extern "C" bool w_get_@N@(C<@N@>* c, const uint64_t* k, uint64_t* out) { auto r = c->Get(*k); if (r) { *out = *r; return true; } return false; }
extern "C" uint64_t w_put_@N@(C<@N@>* c, const uint64_t* k, uint64_t v) { return c->InsertOrAssign(*k, v); }
extern "C" uint64_t w_goi_@N@(C<@N@>* c, const uint64_t* k) { return c->GetOrInsert(*k, MakeF{}); }
extern "C" void w_clear_@N@(C<@N@>* c) { c->Clear(); }
extern "C" const size_t w_lay_@N@[] = {sizeof(C<@N@>), @LAY@};
'''
LAY = ["__builtin_offsetof(C<@N@>, entries_)", "__builtin_offsetof(C<@N@>, index_)", "__builtin_offsetof(C<@N@>, head_)", "__builtin_offsetof(C<@N@>, tail_)",
       "sizeof(C<@N@>::Entry)", "__builtin_offsetof(C<@N@>::Entry, key)", "__builtin_offsetof(C<@N@>::Entry, value)",
       "__builtin_offsetof(C<@N@>::Entry, pred)", "__builtin_offsetof(C<@N@>::Entry, succ)"]
THIS = ("this",); K = sym("K", ty=(8, True)); VAL = sym("V", ty=(8, True))
LOCK_FNS = {"pthread_mutex_lock": "x", "pthread_rwlock_wrlock": "x", "pthread_rwlock_rdlock": "s", "pthread_spin_lock": "x", "mtx_lock": "x"}
UNLOCK_FNS = ("pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock", "mtx_unlock")
TRY_FNS = {"pthread_mutex_trylock": "x", "pthread_rwlock_trywrlock": "x", "pthread_rwlock_tryrdlock": "s", "pthread_spin_trylock": "x"}

class Scenario:
    """items: node names and 'O<i>' opaque runs of at least one node, in recency order; live: number of leading items
    whose nodes are indexed (an opaque run straddling the border counts as live); hit: index of the item holding the key"""
    def __init__(self, N, items, live, hit, sz, alllive=None):
        self.N, self.items, self.live, self.hit, self.sz = N, items, live, hit, sz
        self.full = sz == N
    def __repr__(self):
        return "capacity %d, %s entries indexed, list %s, %s" % (self.N, self.sz if isinstance(self.sz, int) else "%d..%d" % self.sz, "-".join(self.items[:self.live]) + ("|" + "-".join(self.items[self.live:]) if self.live < len(self.items) else ""),
            "key in %s" % self.items[self.hit] if self.hit is not None else "key absent")

def scenarios(N):
    out = []
    if N <= 6:
        items = ["n%d" % i for i in range(N)]
        for L in range(N + 1):
            out.append(Scenario(N, items, L, None, L))
            for h in range(L): out.append(Scenario(N, items, L, h, L))
        return out
    a = ["n0", "n1", "n2", "O0", "n3", "n4", "n5"]
    for L, sz in ((0, 0), (1, 1), (2, 2), (3, 3), (4, (4, N - 3)), (5, N - 2), (6, N - 1), (7, N)):
        for h in [None] + [i for i in (0, 1, 5, 6) if i < L]: out.append(Scenario(N, a, L, h, sz))
    b = ["n0", "O0", "n1", "n2", "n3", "O1", "n4"]
    for L, sz in ((4, (4, N - 3)), (5, (5, N - 3)), (6, (5, N - 1)), (7, N)):
        out.append(Scenario(N, b, L, 3, sz))
    return out

class Finding(Exception):
    def __init__(self, key, msg, where=None): self.key, self.msg, self.where = key, msg, where

class Lru:
    def __init__(self, Ns, rep):
        self.rep = rep; self.Ns = Ns
        inc = [common.STUBS + "/cc/lru", common.REPO + "/cpp"]
        def build(lay):
            src = HEAD + "".join(PERN.replace("@LAY@", ", ".join(lay)).replace("@N@", str(n)) for n in Ns)
            return clang_ir(src, "lru.cc", includes=inc, flags=["-fno-access-control", "-Wno-invalid-offsetof"], defs=("NDEBUG", "TOSCA_ASSERT_ENABLED=0"))
        self.named = True
        try: self.M = build(LAY)
        except common.CheckError as e:
            self.named = False; self.M = build(["0"])     # raises if the header itself does not compile
        self.acc = []; self.findings = []; self.atomics = False; self.inv = (1, 1); self.phase = None
    def layout(self, N):
        if N in getattr(self, "_lay", {}): return self._lay[N]
        if not hasattr(self, "_lay"): self._lay = {}
        g = self.M.globals["w_lay_%d" % N]
        n = 10 if self.named else 2
        v = [self.gb(g, 8 * i, 8) for i in range(n)]
        if self.named: d = dict(zip(("size", "entries", "index", "head", "tail", "esz", "key", "value", "pred", "succ"), v))
        else: d = self.infer(N, v[0])
        self._lay[N] = d; return d
    def gb(self, g, off, size): return LEngine(self.M).gbytes(g, off, size)
    def infer(self, N, size):
        """field roles from the state the constructor builds"""
        rs = self.construct(N, None)
        if len(rs) != 1 or rs[0].kind != "ret": raise Und("constructor")
        st = rs[0].st; m = st.mem.get(THIS, {})
        get = lambda o: m[o][1] if o in m and m[o][0] == 8 else None
        ptrs = {o: get(o) for o in m if isinstance(o, int) and isinstance(get(o), LPtr) and isinstance(get(o).off, int) and isinstance(get(o).o, tuple) and get(o).o[0] == "heap"}
        for o in sorted(ptrs):
            b, e, c = ptrs.get(o), ptrs.get(o + 8), ptrs.get(o + 16)
            if b and e and c and b.o == e.o == c.o and b.off == 0 and e.off > 0 and e.off % N == 0 and c.off >= e.off: break
        else: raise Und("no entry array found in the cache")
        esz = e.off // N; buf = b.o
        rest = [(x, p) for x, p in ptrs.items() if x not in (o, o + 8, o + 16) and p.o == buf]
        heads = [x for x, p in rest if p.off == 0]; tails = [x for x, p in rest if p.off == e.off - esz]
        if len(heads) != 1 or len(tails) != 1: raise Und("head/tail pointers not identified")
        bm = st.mem[buf]
        E = LEngine(self.M)
        f = lambda i, fo: E.mload(st, LPtr(buf, i * esz + fo), 8)
        pred = [x for x in range(0, esz, 8) if f(1, x) == LPtr(buf, 0)]; succ = [x for x in range(0, esz, 8) if f(1, x) == LPtr(buf, 2 * esz)]
        if N < 3 or len(pred) != 1 or len(succ) != 1: 
            if N < 3: d = self.layout(max(self.Ns)); return dict(d, size=size)
            raise Und("link fields not identified")
        kv = [x for x in range(0, esz, 8) if x not in (pred[0], succ[0])]
        if len(kv) != 2 or "map" not in st.tags: raise Und("entry layout")
        return dict(size=size, entries=o, index=st.tags["map"]["addr"], head=heads[0], tail=tails[0], esz=esz, key=kv[0], value=kv[1], pred=pred[0], succ=succ[0])

    # ---- engine with hooks
    def engine(self, N, lay, ctor=False):
        E = LEngine(self.M, max_steps=3000000, max_paths=20000)
        self.extra = []
        L = self
        def loc_of(p):
            o = p.o
            if o == THIS: return ("cache", p.off)
            if isinstance(o, tuple):
                if o[0] in ("node", "opq"): return ("entry", p.off)
                if o[0] == "slot": return ("index", 0)
                if o[0] == "entries" or (o[0] == "heap" and not ctor): return ("entry storage", 0) if o[0] == "entries" else None
                if o[0] == "g":
                    g = L.M.globals.get(o[1])
                    if g and g.get("const"): return None
                    if g and g.get("tl"): return None
                    return ("global " + o[1], 0)
                if o[0] == "d":
                    t = o[1]
                    if isinstance(t, T) and t.op.startswith("llvm.threadlocal"): return None
                    return ("via " + repr(t)[:60], p.off)
            return None
        def locks(st): return st.tags.get("locks", ())
        def record(st, fr, loc, isst, text, atomic=False):
            if ctor or loc is None: return
            L.acc.append(((N,) + loc, bool(isst), frozenset(locks(st)), L.phase, fr.fn.name, text, atomic))
        def acc(E_, st, fr, ins, p, size, isst, v):
            if ins["op"] in ("atomicrmw", "cmpxchg"): L.atomics = True
            at = bool(ins.get("atomic")) or ins["op"] in ("atomicrmw", "cmpxchg")
            if at: L.atomics = True
            lc = loc_of(p)
            record(st, fr, lc, isst, ins.get("text", ""), at)
        E.on_access = acc
        def deref(E_, st, fr, ins, p, size, work):
            o = p.o
            if isinstance(o, tuple) and o[0] in ("node", "opq", "slot") and o[1] != st.tags.get("epoch", 0):
                raise Finding("stale", "%s uses bookkeeping it looked up in an earlier critical section" % L.phase, ins.get("text"))
            if isinstance(o, tuple) and o[0] == "d" and isinstance(o[1], T) and o[1].op == "garbage":
                return LResult("ub", "follows an undefined link (%s)" % (o[1].args[0],), st)
            if isinstance(o, tuple) and o[0] == "opq": raise Und("looks inside an opaque part of the list")
            if isinstance(o, tuple) and o[0] == "entries": raise Und("indexes the entry storage directly")
            if o == THIS and not isinstance(p.off, int): raise Und("symbolic offset in the cache")
            return None
        E.on_deref = deref
        def leaf(st, o, off, size, ty):
            if o == ("arg", "key"): return K
            sc = st.tags.get("sc")
            if isinstance(o, tuple) and o[0] == "node" and sc is not None: return L.node_leaf(st, sc, o, off, size, lay)
            if isinstance(o, tuple) and o[0] == "slot" and sc is not None:
                if off == 0: return o[2]
                if off == 8:
                    return LPtr(("node", o[1], L.owner(st, sc, o[2])), 0)
            if o == THIS and sc is not None:
                if size == 8:
                    if off == lay["head"]: return LPtr(("node", st.tags["epoch"], sc.items[0]), 0)
                    if off == lay["tail"]: return LPtr(("node", st.tags["epoch"], sc.items[-1]), 0)
                    if off == lay["entries"]: return LPtr(("entries",), 0)
                    if off in (lay["entries"] + 8, lay["entries"] + 16): return LPtr(("entries",), N * lay["esz"])
                return None
            return None
        E.on_leaf = leaf
        # --- locks
        def lockid(p):
            if not isinstance(p, LPtr): p = E.toptr(p)
            if p is None: return None
            if p.o == THIS: return ("cache+%s" % p.off)
            if isinstance(p.o, tuple) and p.o[0] == "g":
                g = L.M.globals.get(p.o[1])
                return None if g and g.get("tl") else "global " + p.o[1]
            if isinstance(p.o, tuple) and p.o[0] == "d" and isinstance(p.o[1], T) and p.o[1].op == "mem" and p.o[1].args[0] == THIS: return repr(p)
            return None
        def do_lock(st, lk, mode):
            if lk is None: return
            cur = dict(locks(st))
            if lk in cur and mode == "x": raise Finding("relock", "%s acquires the cache lock while already holding it" % L.phase)
            cur[lk] = mode
            st.tags["locks"] = tuple(sorted(cur.items()))
            st.events.append(("lock", lk, mode))
        def lock(E_, st, fr, x, name, a, put, work):
            lk = lockid(a[0]); do_lock(st, lk, LOCK_FNS.get(name) or TRY_FNS.get(name))
            if not ctor and lk is not None: return acquired(st, lambda s: put(s, 0), work)
            put(st, 0); return "cont"
        def acquired(st, k, work):
            """another thread may have changed the cache since an earlier critical section of this operation"""
            n = st.tags.get("acq", 0); st.tags["acq"] = n + 1
            if n == 0 or st.tags.get("sc") is None: k(st); return "cont"
            if len(locks(st)) > 1: k(st); return "cont"
            for i, sc in enumerate(scenarios(N)):
                s2 = st.copy(); L.redraw(s2, sc, lay)
                k(s2); work.append(s2)
            return "drop"
        def unlock(E_, st, fr, x, name, a, put, work):
            lk = lockid(a[0])
            if lk is not None:
                cur = dict(locks(st))
                if lk not in cur: raise Finding("unlock", "%s releases the cache lock without holding it" % L.phase)
                del cur[lk]; st.tags["locks"] = tuple(sorted(cur.items())); st.events.append(("unlock", lk))
            put(st, 0); return "cont"
        def trylock(E_, st, fr, x, name, a, put, work):
            s2 = st.copy(); put(s2, 16); work.append(s2)
            return lock(E_, st, fr, x, name, a, put, work)
        for n in LOCK_FNS: E.ext[n] = lock
        for n in UNLOCK_FNS: E.ext[n] = unlock
        for n in TRY_FNS: E.ext[n] = trylock
        def mayThrow(st, x, work):
            s2 = st.copy(); s2.tags["thrown"] = True
            r = E.throw(s2, T("exc", "user"), x.get("bad"), work)
            if r == "cont": work.append(s2)
            elif isinstance(r, LResult): L.extra.append(r)
        # --- index
        def slotof(st, k): return LPtr(("slot", st.tags["epoch"], k), 0)
        def m_init(E_, st, fr, x, name, a, put, work):
            st.tags["map"] = {"ids": (a[1], a[2]), "addr": a[0].off if isinstance(a[0], LPtr) and a[0].o == THIS else None}; st.tags["mapclear"] = True; put(st, None); return "cont"
        def keyarg(st, p):
            p = E.toptr(p)
            if p is None: raise Und("index key")
            k = E.mload(st, p, 8)
            return k
        def presence(st, k):
            pm = st.tags.get("pres", {})
            if k in pm: return pm[k]
            if st.tags.get("mapclear"): return False
            sc = st.tags.get("sc")
            if sc is None: raise Und("index lookup")
            if k is K: return sc.hit is not None
            if isinstance(k, T) and k.op == "nkey":
                if k.args[0] != st.tags["epoch"]: raise Und("key of an earlier critical section")
                i = sc.items.index(k.args[1])
                if i < sc.live: return True
                raise Finding("stalekey", "%s looks up or removes the key of an entry that is not in use (it may equal a live entry's key)" % L.phase)
            raise Und("index lookup of %r" % (k,))
        def setpres(st, k, v):
            pm = dict(st.tags.get("pres", {})); pm[k] = v; st.tags["pres"] = pm
        def m_find(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), False, name); k = keyarg(st, a[1])
            put(st, slotof(st, k) if presence(st, k) else 0); return "cont"
        def m_emplace(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), True, name); k = keyarg(st, a[1]); p = E.toptr(a[2])
            if presence(st, k): E.mstore(st, p, 1, 0)
            else:
                if L.exc: mayThrow(st, x, work)
                setpres(st, k, True); E.mstore(st, p, 1, 1); st.tags["szd"] = st.tags.get("szd", 0) + 1
                st.mem[slotof(st, k).o] = {0: (8, k), 8: (8, UNDEF)}
                st.events.append(("index+", k))
            put(st, slotof(st, k)); return "cont"
        def m_erase(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), True, name); k = keyarg(st, a[1]); 
            if presence(st, k): setpres(st, k, False); st.tags["szd"] = st.tags.get("szd", 0) - 1; st.events.append(("index-", k)); put(st, 1)
            else: put(st, 0)
            return "cont"
        def m_erase_slot(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), True, name); p = E.toptr(a[1])
            if p is None or p.o[0] != "slot": raise Finding("eraseend", "%s removes a position that is not in the index" % L.phase)
            k = p.o[2]
            if presence(st, k): setpres(st, k, False); st.tags["szd"] = st.tags.get("szd", 0) - 1; st.events.append(("index-", k))
            put(st, None); return "cont"
        def m_size(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), False, name)
            d = st.tags.get("szd", 0)
            if st.tags.get("mapclear"): put(st, d); return "cont"
            sc = st.tags.get("sc")
            if sc is None:
                if not st.tags.get("anysize"): raise Und("index size")
                t = sym("oldsize", ty=(8, True)); st.facts._narrow(t, 0, N)
                put(st, aff_add(t, d, (8, True)) if d else t); return "cont"
            if isinstance(sc.sz, int): put(st, sc.sz + d)
            else:
                t = sym("size%d" % st.tags["epoch"], ty=(8, True)); st.facts._narrow(t, *sc.sz)
                put(st, aff_add(t, d, (8, True)))
            return "cont"
        def m_clear(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), True, name)
            st.tags["mapclear"] = True; st.tags["pres"] = {}; st.tags["szd"] = 0; put(st, None); return "cont"
        def m_reserve(E_, st, fr, x, name, a, put, work):
            record(st, fr, ("index", 0), True, name)
            if L.exc: mayThrow(st, x, work)
            put(st, None); return "cont"
        def m_iter(E_, st, fr, x, name, a, put, work):
            # the first element of a hash index may be any of its elements
            p = E.toptr(a[1]) if len(a) > 1 else None; sc = st.tags.get("sc")
            if not (p is None or p.o == "null") or sc is None and not st.tags.get("mapclear"): raise Und("iterates over the index")
            record(st, fr, ("index", 0), False, name)
            ks = [k for k, v in st.tags.get("pres", {}).items() if v]
            if not st.tags.get("mapclear"):
                pm = st.tags.get("pres", {})
                for i, n in enumerate(sc.items[:sc.live]):
                    if n[0] == "O": continue
                    k = L.nkey(st, sc, st.tags["epoch"], n)
                    if k not in pm: ks.append(k)
                if any(n[0] == "O" for n in sc.items[:sc.live]) and not ks: raise Und("iterates over the index")
            if not ks: put(st, 0); return "cont"
            for k in ks[1:]:
                s2 = st.copy(); put(s2, slotof(s2, k)); work.append(s2)
            put(st, slotof(st, ks[0])); return "cont"
        for n, h in (("init", m_init), ("find", m_find), ("emplace", m_emplace), ("erase_key", m_erase), ("erase_slot", m_erase_slot), ("size", m_size), ("clear", m_clear), ("reserve", m_reserve), ("iter", m_iter)):
            E.ext["vs_map_" + n] = h
        def make(E_, st, fr, x, name, a, put, work):
            st.tags["made"] = st.tags.get("made", 0) + 1
            if L.exc: mayThrow(st, x, work)
            put(st, sym("made%d" % st.tags["made"], ty=(8, True))); return "cont"
        E.ext["vs_make"] = make
        def extd(E_, st, fr, x, name, args, put, work):
            if name in ("pthread_self",): put(st, fresh("self", ty=(8, True))); return "cont"
            if name.startswith("_ZSt") and "throw" in name: return None
            raise Und("call of " + name)
        E.ext_default = extd
        return E
    # ---- abstract cache
    def nkey(self, st, sc, e, name):
        i = sc.items.index(name)
        return K if sc.hit is not None and i == sc.hit else T("nkey", e, name, ty=(8, True))
    def owner(self, st, sc, k):
        if k is K:
            if sc.hit is None: raise Und("slot")
            return sc.items[sc.hit]
        return k.args[1]
    def neighbour(self, sc, e, i, d):
        j = i + d
        if j < 0 or j >= len(sc.items): return None
        n = sc.items[j]
        if n[0] == "O": return LPtr(("opq", e, n, "first" if d > 0 else "last"), 0)
        return LPtr(("node", e, n), 0)
    def node_leaf(self, st, sc, o, off, size, lay):
        e, n = o[1], o[2]; i = sc.items.index(n)
        if size != 8: raise Und("partial access to an entry")
        if off == lay["key"]: return self.nkey(st, sc, e, n)
        if off == lay["value"]: return T("nval", e, n, ty=(8, True))
        if off == lay["pred"]:
            p = self.neighbour(sc, e, i, -1)
            return p if p is not None else (0 if self.inv[0] else T("garbage", "predecessor of the first entry"))
        if off == lay["succ"]:
            p = self.neighbour(sc, e, i, 1)
            return p if p is not None else (0 if self.inv[1] and sc.live > 0 else T("garbage", "successor of the last entry"))
        raise Und("entry field at %r" % (off,))
    def redraw(self, st, sc, lay):
        e = st.tags.get("epoch", -1) + 1
        st.tags["epoch"] = e; st.tags["sc"] = sc; st.tags["pres"] = {}; st.tags["szd"] = 0; st.tags["mapclear"] = False
        for o in list(st.mem):
            if o == THIS or (isinstance(o, tuple) and o[0] in ("node", "opq", "slot", "entries")): del st.mem[o]
        keys = [self.nkey(st, sc, e, n) for i, n in enumerate(sc.items[:sc.live]) if n[0] != "O"]
        if sc.hit is None: keys.append(K)
        for i in range(len(keys)):
            for j in range(i): st.facts.assume(mk_eq(keys[i], keys[j]), False)
    def start(self, sc, lay):
        st = LState(); st.tags["locks"] = (); self.redraw(st, sc, lay); return st
    def run(self, fn, sc, exc=False):
        N = sc.N; lay = self.layout(N); E = self.engine(N, lay); self.exc = exc; self.extra = []
        args = [LPtr(THIS, 0)]
        if fn != "clear": args.append(LPtr(("arg", "key"), 0))
        if fn == "get": args.append(LPtr(("arg", "out"), 0))
        if fn == "put": args.append(VAL)
        rs = E.run("w_%s_%d" % (fn, N), args, self.start(sc, lay))
        self.rep.count("abstract_steps", E.steps); self.rep.count("paths", len(rs) + len(self.extra))
        return rs + self.extra
    def construct(self, N, lay):
        E = self.engine(N, lay, ctor=True); self.exc = False; self.extra = []
        st = LState(); st.tags["locks"] = ()
        rs = E.run("w_new_%d" % N, [LPtr(THIS, 0)], st)
        self.rep.count("abstract_steps", E.steps)
        return rs
    def reclear(self, N, lay, st0, exc=False):
        """Clear on a constructed cache with arbitrary entry contents and an arbitrary index"""
        E = self.engine(N, lay); self.exc = exc; self.extra = []
        st = st0.copy(); st.frames = []; st.events = []; st.tags["mapclear"] = False; st.tags["pres"] = {}; st.tags["szd"] = 0; st.tags["locks"] = (); st.tags["acq"] = 0; st.tags["anysize"] = True
        b = E.mload(st, LPtr(THIS, lay["entries"]), 8)
        if not isinstance(b, LPtr): raise Und("entry storage")
        o = b.o
        st.mem[o] = {"default": lambda off, size: T("garbage", "old entry contents", off, size)}
        for k in ("head", "tail"): E.mstore(st, LPtr(THIS, lay[k]), 8, T("garbage", "old " + k))
        rs = E.run("w_clear_%d" % N, [LPtr(THIS, 0)], st)
        self.rep.count("abstract_steps", E.steps)
        return rs + self.extra
