"""Which functions may modify memory that is shared between goroutines, without synchronisation?
A flow-insensitive, summary-based pointer-origin analysis over the Go SSA: every register carries the set of
origins it may point into - ('g', name) package variables, ('p', i) parameter i, ('v', i) captured variable i,
and shared roots given by the client. Fields of structs carry the shared origins ever stored to them.
Origins below a struct that embeds a mutex, and objects of synchronised container types, are excluded here:
the lockset analysis decides those."""
from gosem import *

SAFE_TYPES = ("sync.", "sync/atomic.", "github.com/hashicorp/golang-lru/v2.", "regexp.Regexp", "math/rand.")
# externally defined methods that only read their receiver
READERS = {"Bytes", "Bytes32", "Bytes20", "Cmp", "CmpUint64", "CmpBig", "Eq", "Gt", "Lt", "Sgt", "Slt", "IsZero", "IsUint64", "Uint64", "Uint64WithOverflow", "Sign", "BitLen", "ByteLen",
           "ToBig", "String", "Hex", "Dec", "Clone", "LtUint64", "GtUint64", "WriteToSlice", "WriteToArray32", "WriteToArray20", "PutUint256", "Format", "Int64", "IsInt64", "Text", "FillBytes", "Error",
           "MatchString", "FindAllStringSubmatch", "Len", "Hash", "Big", "Unwrap", "Is"}

class Shared:
    def __init__(self, P, inpkgs, entries=()):
        self.P = P; self.inpkgs = inpkgs; self.entries = set(entries)
        self.sum = {}                 # fn -> Summary
        self.fld = {}                 # (type, field) -> set of global/shared origins
        self.addrtaken = {}           # signature string -> functions used as values
        self.guarded = {}
        for f in P.fns.values():
            for b in f["blocks"]:
                for i in b["i"]: self._collect(f, i)
        self.impl = {}
        for ts, mm in P.methods.items():
            for m, fn in mm.items(): self.impl.setdefault(m, set()).add(fn)

    def _collect(self, f, i):
        def walk(x, callee=False):
            if isinstance(x, dict):
                if x.get("k") == "f" and not callee and "t" in x: self.addrtaken.setdefault(self.P.types[x["t"]]["s"], set()).add(x["n"])
                for k, v in x.items(): walk(v, k == "fn" and "args" in x)
            elif isinstance(x, list):
                for v in x: walk(v)
        if i["op"] == "closure":
            self.addrtaken.setdefault(self.P.types[i["t"]]["s"], set()).add(i["fn"]["n"])
            for v in i["b"]: walk(v)
        else: walk(i)

    def hasmutex(self, tid):
        g = self.guarded.get(tid)
        if g is None:
            t = self.P.types[tid]
            g = t["k"] == "struct" and any(self.P.types[f["t"]]["s"] in ("sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex") for f in t["f"])
            self.guarded[tid] = g
        return g
    def safe(self, tid):
        s = self.P.types[tid]["s"].lstrip("*")
        return s.startswith(SAFE_TYPES)
    def pointerlike(self, tid):
        t = self.P.types[tid]; k = t["k"]
        if k in ("ptr", "map", "slice", "chan", "iface", "func", "sig"): return True
        if k == "struct": return any(self.pointerlike(f["t"]) for f in t["f"])
        if k == "array": return self.pointerlike(t["e"])
        if k == "tuple": return any(x >= 0 and self.pointerlike(x) for x in t["ts"])
        return k not in ("basic",)
    def structof(self, tid):
        t = self.P.types[tid]
        return t["e"] if t["k"] == "ptr" else tid

    def solve(self):
        work = [n for n, f in self.P.fns.items() if f["blocks"] and self.inscope(n, f)]
        for _ in range(40):
            ch = False
            for n in work:
                if self.analyse(n): ch = True
            if not ch: return True
        return False
    def inscope(self, n, f):
        if f["short"] == "init" or f["short"].startswith("init#") or (f.get("parent") or "").endswith(".init"): return False
        pk = f.get("pkg") or ""
        return any(pk.startswith(x) for x in self.inpkgs) or any(x in n for x in self.inpkgs)

    def analyse(self, n):
        P = self.P; f = P.fns[n]
        S = self.sum.get(n)
        if S is None: S = self.sum[n] = dict(writes={}, ret={}, regs={}, calls=[], fstores={})
        regs = S["regs"]; changed = [False]
        def add(d, k, toks):
            if not toks: return
            o = d.get(k)
            if o is None: d[k] = set(toks); changed[0] = True
            elif not toks <= o: o |= toks; changed[0] = True
        for j, p in enumerate(f["params"]):
            if self.pointerlike(p["t"]) and not self.safe(p["t"]):
                add(regs, p["n"], {("s", "the instance running %s" % n.replace(MODP, ""))} if n in self.entries and j == 0 and n.startswith("(") else {("p", j)})
        for j, p in enumerate(f.get("fv") or []):
            add(regs, p["n"], {("v", n, j)} | self.fld.get(("fv:" + n, j), set()))
        def val(x):
            if x is None: return set()
            if x["k"] == "r": return regs.get(x["n"], set())
            if x["k"] == "g": return {("g", x["n"])}
            return set()
        def write(toks, pos, what):
            for t in toks: 
                if t not in S["writes"]: S["writes"][t] = (pos, what, n); changed[0] = True
        def fieldin(key, toks):
            toks = {t for t in toks}
            glob = {t for t in toks if t[0] != "p"}
            if glob: add(self.fld, key, glob)
            loc = {t for t in toks if t[0] == "p"}
            if loc: add(S["fstores"], key, loc)
        def load_type(tid): return self.pointerlike(tid) and not self.safe(tid)
        akey = {}
        for b in f["blocks"]:
            for i in b["i"]:
                op = i["op"]; nm = i.get("n")
                if op in ("fieldaddr", "field"):
                    st = self.structof(i["x"]["t"]) if op == "fieldaddr" else i["x"]["t"]
                    akey[nm] = (P.types[st]["s"], i["f"])
                    if self.hasmutex(st): continue
                    ft = i["t"]
                    if op == "fieldaddr" and self.safe(self.structof(ft)): continue
                    add(regs, nm, val(i["x"]))
                    if op == "field" and load_type(i["t"]): add(regs, nm, self.fld.get(akey[nm], set()))
                elif op in ("indexaddr", "index"):
                    add(regs, nm, val(i["x"]))
                    if i["x"]["k"] == "r" and i["x"]["n"] in akey and op == "indexaddr": akey[nm] = akey[i["x"]["n"]]
                    elif op == "indexaddr": akey[nm] = ("elem:" + P.types[i["x"]["t"]]["s"], 0)
                elif op == "un" and i["o"] == "*":
                    if load_type(i["t"]):
                        x = i["x"]
                        if x["k"] == "g" and self.safe(i["t"]): continue
                        add(regs, nm, val(x))
                        if x["k"] == "r" and x["n"] in akey: add(regs, nm, self.fld.get(akey[x["n"]], set()))
                        if x["k"] == "r" and x["n"] in akey: akey.setdefault(nm, akey[x["n"]]) if akey[x["n"]][0].startswith("elem:") else None
                elif op == "phi":
                    for e in i["e"]: add(regs, nm, val(e))
                elif op in ("chgt", "chgif", "conv", "mkif", "slice", "s2ap", "range", "extract", "assert"):
                    if op == "conv" and not self.pointerlike(i["t"]): continue
                    if op == "conv" and "string" in (P.types[i["t"]]["s"], P.types[i["x"]["t"]]["s"]): continue
                    if op == "slice" and P.isstr(i["t"]) : continue
                    if op == "mkif" and not self.pointerlike(i["x"].get("t", i["t"])): continue
                    if op in ("assert", "extract") and not (i["t"] >= 0 and load_type(i["t"])): continue
                    add(regs, nm, val(i["x"]))
                    if op == "slice" and i["x"]["k"] == "r" and i["x"]["n"] in akey: akey[nm] = akey[i["x"]["n"]]
                elif op == "next": add(regs, nm, val(i["x"]) if self.pointerlike(i["t"]) else set())
                elif op == "lookup":
                    if not P.isstr(i["x"]["t"]) and self.pointerlike(P.types[i["x"]["t"]]["e"]): add(regs, nm, val(i["x"]))
                elif op == "store":
                    a = i["a"]; tgt = val(a)
                    write(tgt, i.get("p"), "store")
                    if i["v"].get("t") is not None and self.pointerlike(i["v"]["t"]):
                        v = val(i["v"])
                        if v and a["k"] == "r" and a["n"] in akey: fieldin(akey[a["n"]], v)
                        elif v and a["k"] == "r": fieldin(("cell:" + n, a["n"]), v); add(regs, a["n"], set())
                elif op == "mapupdate":
                    write(val(i["x"]), i.get("p"), "map update")
                elif op == "closure":
                    fn = i["fn"]["n"]; cf = P.fns.get(fn)
                    add(regs, nm, set())
                    for j, bnd in enumerate(i["b"]):
                        toks = val(bnd)
                        glob = {t for t in toks if t[0] != "p"}
                        add(self.fld, ("fv:" + fn, j), glob)
                        # captured parameters: a write by the closure counts as a write of the creator
                        cs = self.sum.get(fn)
                        if cs:
                            for t, (pos, what, wf) in list(cs["writes"].items()):
                                if t == ("v", fn, j):
                                    for x in toks:
                                        if x not in S["writes"]: S["writes"][x] = (pos, what, wf); changed[0] = True
                    if cf:
                        cs = self.sum.get(fn)
                        if cs and fn != n: S["calls"].append(fn) if fn not in S["calls"] else None
                elif op == "ret":
                    for j, r in enumerate(i["r"]): add(S["ret"], j, val(r))
                elif op in ("call", "defer", "go"):
                    self.docall(n, S, i, val, add, regs, write, fieldin)
            # local cells
        # loads from local cells holding pointers
        for b in f["blocks"]:
            for i in b["i"]:
                if i["op"] == "un" and i["o"] == "*" and i["x"]["k"] == "r" and load_type(i["t"]):
                    k = ("cell:" + n, i["x"]["n"])
                    add(regs, i["n"], self.fld.get(k, set())); add(regs, i["n"], S["fstores"].get(k, set()))
                    ak = akey.get(i["x"]["n"])
                    if ak: add(regs, i["n"], S["fstores"].get(ak, set()))
        return changed[0]

    def docall(self, n, S, i, val, add, regs, write, fieldin):
        P = self.P; c = i["call"]; nm = i.get("n"); args = c["args"]
        targets = []; ext = None
        if "inv" in c:
            meth = c["inv"]; it = P.types[c["it"]]["s"]
            if it in ("error", "fmt.Stringer"): return
            for fn in self.impl.get(meth, ()):
                if fn in P.fns and P.fns[fn]["blocks"] and "ock" not in fn.split("/")[-1].split(")")[0]: targets.append(fn)
            args = [c["recv"]] + args
            if not targets: ext = it + "." + meth
        else:
            fv = c["fn"]
            if fv["k"] == "b":
                b = fv["n"]
                if b in ("copy", "delete", "clear") and args: write(val(args[0]), i.get("p"), b)
                if b == "append" and args:
                    x = args[0]
                    src = val(x)
                    # appending to a sub-slice of shared memory overwrites it
                    d = self.defof(n, x)
                    if src and d is not None and d["op"] == "slice": write(src, i.get("p"), "append into a slice of it")
                    if nm: add(regs, nm, src)
                    for a in args[1:]: 
                        if nm and self.pointerlike(P.types[i["t"]]["e"]): add(regs, nm, val(a))
                return
            if fv["k"] == "f": targets = [fv["n"]]
            elif fv["k"] == "r":
                d = self.defof(n, fv)
                if d is not None and d["op"] == "closure": targets = [d["fn"]["n"]]
                else: targets = sorted(self.addrtaken.get(P.types[fv["t"]]["s"], ()))
        for fn in targets:
            f = P.fns.get(fn)
            if fn.startswith("(*sync.Once).Do") : return
            if f is None or not f["blocks"] or not self.inscope(fn, f):
                self.extern(n, S, i, fn, args, val, add, regs, write, f); continue
            if fn not in S["calls"]: S["calls"].append(fn)
            cs = self.sum.get(fn)
            if cs is None: continue
            def sub(toks, only=None):
                out = set()
                for t in toks:
                    if t[0] == "p":
                        if t[1] < len(args): out |= val(args[t[1]])
                    else: out.add(t)
                return out
            for t, (pos, what, wf) in list(cs["writes"].items()):
                if t[0] == "p" and t[1] < len(args):
                    for x in val(args[t[1]]):
                        if x not in S["writes"]: S["writes"][x] = (pos, what, wf); self._ch = True; S["ret"].setdefault("_", set()).add(x)
            for k, toks in list(cs["fstores"].items()):
                if not k[0].startswith("cell:"): fieldin(k, sub(toks))
            if nm and i.get("t") is not None and i["t"] >= 0:
                for j, toks in cs["ret"].items():
                    if j == "_": continue
                    add(regs, nm, sub(toks))
        if ext: self.extern(n, S, i, ext, args, val, add, regs, write, None)

    def defof(self, n, x):
        if x["k"] != "r": return None
        for b in self.P.fns[n]["blocks"]:
            for j in b["i"]:
                if j.get("n") == x["n"]: return j
        return None

    def extern(self, n, S, i, name, args, val, add, regs, write, f):
        """calls leaving the analysed code"""
        P = self.P
        if name.startswith(("(*github.com/hashicorp/golang-lru", "(*sync.Map)")) and name.split(".")[-1] in ("Get", "Peek", "Load", "LoadOrStore") and i.get("n"):
            add(regs, i["n"], {("s", "an object held by a shared cache")})
        if name.startswith(("(*sync.", "sync.", "(*sync/atomic.", "sync/atomic.", "errors.", "fmt.", "strings.", "(*github.com/hashicorp", "(*regexp.", "sort.Search", "(*strings.")): 
            return
        meth = name.split(".")[-1].split("[")[0]
        t0 = args and val(args[0])
        if name.startswith("(*") and args and t0:
            if meth not in READERS and name.startswith(("(*github.com/holiman/uint256.Int)", "(*math/big.Int)", "(*bytes.Buffer)", "(*strings.Builder)", "(*math/rand.Rand)", "(*pgregory.net/rand.Rand)")): write(t0, i.get("p"), "%s on it" % meth)
            if i.get("n") and i.get("t") is not None and i["t"] >= 0 and self.pointerlike(i["t"]): add(regs, i["n"], t0)
        elif name.startswith(("encoding/binary", "(encoding/binary")) and "Put" in meth:
            a = args[1] if name.startswith("(") else args[0]
            write(val(a), i.get("p"), meth)
        elif meth in ("Sort", "SortFunc", "SortStableFunc", "Reverse", "Copy", "DeleteFunc", "Shuffle", "Strings", "Ints", "Slice") and args:
            write(t0 or set(), i.get("p"), meth)
        elif "binary.bigEndian" in name and "Put" in meth and len(args) > 1: write(val(args[1]), i.get("p"), meth)

    def reachable(self, entries):
        seen = set(); st = [e for e in entries if e in self.sum]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            st += [c for c in self.sum[n]["calls"] if c in self.sum]
        return seen
