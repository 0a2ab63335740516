"""P22: conformance-test states are cloned, compared and exported completely."""
import base64, json, re
import common, goprog, gomodels
from gosem import *
from p33 import keccak
PK = "~ct/st"
class Und(Exception): pass
class XE(Engine):
    """slices keep their identity: append writes in place when the capacity suffices"""
    def agglimit(self, t): return 100000
    def known(self, v):
        r = self.kn.get(id(v))
        if r is None or r[0] is not v: r = self.kn[id(v)] = (v, all(isinstance(x, (int, bytes)) or isinstance(x, Agg) and self.known(x) for x in v.e))
        return r[1]
    kn = {}
    def eq(self, st, x, y, tid):
        if isinstance(x, Agg) and isinstance(y, Agg) and self.known(x) and self.known(y): return x.e == y.e
        return Engine.eq(self, st, x, y, tid)
    def do_append(self, st, fr, i, args):
        a = args[0]; b = args[1] if len(args) > 1 else None
        et = self.P.types[i["t"]]["e"]
        if isinstance(b, bytes): b = self.convert(st, b, self.P.tindex["string"], i["t"])
        sa, sb = self.as_slice(st, a), self.as_slice(st, b)
        if b is None or sb.len == 0: return a
        if not all(isinstance(z, int) for z in (sa.len, sa.off, sa.cap, sb.len, sb.off)): raise Und("append of unknown length")
        vals = [self.load(st, Ptr(sb.o, sb.p + (sb.off + j,)), et) for j in range(sb.len)]; n = sa.len + sb.len
        if n <= sa.cap and sa.o != ("nil",):
            for j, v in enumerate(vals): self.store(st, Ptr(sa.o, sa.p + (sa.off + sa.len + j,)), v, et)
            return SliceV(sa.o, sa.p, sa.off, n, sa.cap)
        p = self.alloc(st, "append", None)
        m = {(j,): self.load(st, Ptr(sa.o, sa.p + (sa.off + j,)), et) for j in range(sa.len)}
        for j, v in enumerate(vals): m[(sa.len + j,)] = v
        st.mem[p.o] = m
        return SliceV(p.o, (), 0, n, n + 3)
class JErr(Exception): pass
def froz(v): return tuple(froz(x) for x in v.e) if isinstance(v, Agg) else v
class Pol(Policy):
    strict = True
    pool = 3
    def call(self, E, st, fr, i, name, args, dst, work, put):
        b = name.split("[")[0]; m = b.rsplit(".", 1)[-1]
        r = self.coding.call(E, st, b, m, args, put)
        if r: return r
        if b in ("maps.Clone", "maps.clone", "golang.org/x/exp/maps.Clone"): put(st, self.mclone(E, st, args[0])); return "cont"
        if b == "maps.Equal": return None
        if name.startswith("(*sync.Mutex).") or name.startswith("(*sync.RWMutex)."): return "cont"
        if name == "(*sync.Pool).Get": return self.get(E, st, i, args, put)
        if name == "(*sync.Pool).Put": return "cont"
        if name in ("fmt.Sprintf", "fmt.Sprint", "fmt.Errorf"): return self.text(E, st, args, put)
        if name in ("strings.Repeat", "strings.Join"): put(st, b""); return "cont"
        if m.startswith("NewLegacyKeccak256") or b.endswith("sha3.New256"):
            p = E.alloc(st, "hasher", None); st.mem[p.o] = {("data",): b""}; put(st, p); return "cont"
        if name.endswith("sha3.Sum256") or m == "Keccak256": raise Und(name)
        if b in ("slices.Sort", "sort.Slice", "slices.SortFunc", "sort.Strings"): return "cont"
        return None
    def mclone(self, E, st, x):
        if x is None: return None
        m = st.mem.get(x.o)
        if m is None or ("#complete",) not in m: raise Und("clone of an unknown map")
        p = E.alloc(st, "mapclone", None); st.mem[p.o] = dict(m); return p
    def get(self, E, st, i, args, put):
        """an object some earlier user left in the pool: content and size are anything"""
        a = args[0]; P = E.P
        if isinstance(a, Ptr) and isinstance(a.o, tuple) and a.o[0] == "g" and a.o[1].endswith("stackPool") or True:
            tid = P.typ(expand("*" + PK + ".Stack")); t = P.types[tid]["e"]; f = P.types[t]["f"]
            if len(f) != 1 or P.types[f[0]["t"]]["k"] != "slice": raise Und("pooled stack")
            o = E.alloc(st, "pooled", None); d = E.alloc(st, "pooled.data", None); et = P.types[f[0]["t"]]["e"]
            n = self.pool; junk = Agg("struct", [Agg("array", [0xdead + k for k in range(4)], None)], et)
            st.mem[d.o] = {(k,): junk for k in range(n)}
            st.mem[o.o] = {(0,): SliceV(d.o, (), 0, min(1, n), n)}
            put(st, Iface(tid, o)); return "cont"
    def text(self, E, st, args, put):
        """messages keep their wording and the texts put into them; other arguments do not matter"""
        if self.coding.on:
            x = self.coding.sprintf(E, st, args)
            if x is not None: put(st, x); return "cont"
        out = args[0] if isinstance(args[0], bytes) else b""
        s = args[-1]
        if isinstance(s, SliceV) and isinstance(s.len, int):
            for j in range(s.len):
                x = E.load(st, Ptr(s.o, s.p + (s.off + j,)), E.P.tindex.get("any", E.P.tindex.get("interface{}")))
                if isinstance(x, Iface) and isinstance(x.v, bytes) and E.P.types[x.t]["s"] == "string": out += b"<" + x.v + b">"
        put(st, out); return "cont"
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        m = name.rsplit(".", 1)[-1]
        if args and isinstance(args[0], Ptr) and ("data",) in (st.mem.get(args[0].o) or {}):
            h = args[0].o; d = st.mem[h][("data",)]
            if m == "Write":
                b = self.seq(E, st, args[1]); st.mem[h] = {("data",): d + b}; put(st, Agg("tuple", [len(b), None], None)); return "cont"
            if m == "Reset": st.mem[h] = {("data",): b""}; return "cont"
            if m == "Sum":
                pre = self.seq(E, st, args[1]); k = pre + keccak(d); o = E.alloc(st, "sum", None)
                st.mem[o.o] = {(j,): b for j, b in enumerate(k)}
                put(st, SliceV(o.o, (), 0, len(k), len(k))); return "cont"
        return None
    def seq(self, E, st, s):
        s = E.as_slice(st, s)
        if not isinstance(s.len, int) or not isinstance(s.off, int): raise Und("bytes of unknown length")
        bt = E.P.tindex.get("byte", E.P.tindex.get("uint8"))
        r = [E.load(st, Ptr(s.o, s.p + (s.off + k,)), bt) for k in range(s.len)]
        if not all(isinstance(x, int) for x in r): raise Und("unknown bytes")
        return bytes(r)
class Coding:
    """encoding/json over the declared types; the project's own codings of leaves are interpreted"""
    def __init__(self, w): self.w = w; self.P = w.P; self.on = False; self.texts = []; self.files = {}; self.E = None; self.pats = []; self.memo = {}
    def call(self, E, st, b, m, args, put):
        P = self.P
        def tup(x, e=None): put(st, Agg("tuple", [x, self.err() if e else None], None)); return "cont"
        s = lambda x: x if isinstance(x, bytes) else E.policy.seq(E, st, x)
        if b.startswith("encoding/json.") or b.startswith("(*encoding/json."):
            if m in ("Marshal", "MarshalIndent"):
                try: return tup(self.bytes(st, self.totext(self.tojson(st, args[0].v, args[0].t) if isinstance(args[0], Iface) else None)))
                except JErr: return tup(None, True)
            if m in ("Unmarshal", "Decode"):
                if m == "Decode": data, strict = st.mem[args[0].o][("data",)], st.mem[args[0].o][("strict",)]
                else: data, strict = s(args[0]), False
                x = args[1]
                if not isinstance(x, Iface) or not isinstance(x.v, Ptr): raise Und("decoding into %r" % (x,))
                t = P.types[x.t]["e"]
                try: E.store(st, x.v, self.fromjson(st, self.ofbytes(data), t, E.load(st, x.v, t), strict), t); put(st, None)
                except JErr: put(st, self.err())
                return "cont"
            if m == "NewDecoder":
                r = args[0].v if isinstance(args[0], Iface) else args[0]
                o = E.alloc(st, "decoder", None); st.mem[o.o] = {("data",): st.mem[r.o][("data",)], ("strict",): False}; put(st, o); return "cont"
            if m == "DisallowUnknownFields": st.mem[args[0].o] = dict(st.mem[args[0].o], **{}); st.mem[args[0].o][("strict",)] = True; return "cont"
            raise Und(b)
        if b in ("bytes.NewReader", "bytes.NewBuffer"): o = E.alloc(st, "reader", None); st.mem[o.o] = {("data",): s(args[0])}; put(st, o); return "cont"
        if b == "os.WriteFile": self.files[s(args[0])] = s(args[1]); put(st, None); return "cont"
        if b == "os.ReadFile":
            d = self.files.get(s(args[0]))
            return tup(None, True) if d is None else tup(self.bytes(st, d))
        if b in ("encoding/hex.DecodeString", "encoding/hex.EncodeToString"):
            if m == "EncodeToString": put(st, s(args[0]).hex().encode()); return "cont"
            try: return tup(self.bytes(st, bytes.fromhex(s(args[0]).decode("ascii"))) if b" " not in s(args[0]) else 1 / 0)
            except (ValueError, ZeroDivisionError): return tup(None, True)
        if b == "regexp.MustCompile": self.pats.append(args[0]); o = E.alloc(st, "regexp", None); st.mem[o.o] = {("re",): args[0]}; put(st, o); return "cont"
        if b.startswith("(*regexp.Regexp)."):
            r = re.compile(st.mem[args[0].o][("re",)].replace(b"[[:xdigit:]]", b"[0-9a-fA-F]").replace(b"[[:digit:]]", b"[0-9]"))
            g = r.search(s(args[1]))
            if m in ("MatchString", "Match"): put(st, bool(g)); return "cont"
            if m == "FindAllStringSubmatch":
                l = list(r.finditer(s(args[1])))[:args[2] if args[2] >= 0 else None]
                if not l: put(st, None); return "cont"
                def mk(l): o = E.alloc(st, "match", None); st.mem[o.o] = {(k,): x for k, x in enumerate(l)}; return SliceV(o.o, (), 0, len(l), len(l))
                put(st, mk([mk([g.group(0)] + list(g.groups())) for g in l])); return "cont"
            if m in ("FindSubmatch", "FindStringSubmatch"):
                if not g: put(st, None); return "cont"
                o = E.alloc(st, "match", None); l = [g.group(0)] + list(g.groups()); st.mem[o.o] = {(k,): x if m[4] == "S" and m != "FindSubmatch" else self.bytes(st, x) for k, x in enumerate(l)}
                put(st, SliceV(o.o, (), 0, len(l), len(l))); return "cont"
            raise Und(b)
        if b == "strconv.Atoi":
            try: return tup(int(s(args[0])))
            except ValueError: return tup(0, True)
        if b == "strconv.ParseUint":
            try:
                v = int(s(args[0]), args[1]); 
                if v >> args[2]: return tup(0, True)
                return tup(v)
            except ValueError: return tup(0, True)
        if b.startswith("strings.") and all(isinstance(x, bytes) for x in args):
            f = {"ToLower": lambda x: x.lower(), "ToUpper": lambda x: x.upper(), "HasPrefix": lambda x, y: x.startswith(y), "HasSuffix": lambda x, y: x.endswith(y), "TrimPrefix": lambda x, y: x[len(y):] if x.startswith(y) else x, "TrimSpace": lambda x: x.strip(), "Contains": lambda x, y: y in x, "EqualFold": lambda x, y: x.lower() == y.lower()}.get(m)
            if f: put(st, f(*args)); return "cont"
        return None
    def err(self): return Iface(self.P.tindex["string"], b"error")
    def bytes(self, st, d):
        o = self.w.E.alloc(st, "bytes", None); st.mem[o.o] = {(j,): x for j, x in enumerate(d)}; return SliceV(o.o, (), 0, len(d), len(d))
    def sprintf(self, E, st, args):
        P = self.P
        if not isinstance(args[0], bytes) or not isinstance(args[-1], SliceV): return None
        s = args[-1]; vs = [E.load(st, Ptr(s.o, s.p + (s.off + j,)), P.tindex.get("any", P.tindex.get("interface{}"))) for j in range(s.len)]
        out = b""; k = 0; f = args[0]; j = 0
        for g in re.finditer(rb"%(0?)(\d*)([a-z%])", f):
            out += f[j:g.start()]; j = g.end()
            if g.group(3) == b"%": out += b"%"; continue
            if k >= len(vs) or not isinstance(vs[k], Iface): return None
            x = vs[k]; k += 1; t = P.types[x.t]; v = x.v; c = g.group(3)
            if isinstance(v, Agg) and all(isinstance(z, int) for z in v.e) and t["k"] == "array": v = bytes(v.e) if all(0 <= z < 256 for z in v.e) else None
            elif isinstance(v, SliceV): v = E.policy.seq(E, st, v)
            if c == b"x" and isinstance(v, bytes) and not g.group(2): out += v.hex().encode()
            elif c in b"xd" and isinstance(v, int) and not isinstance(v, bool): out += (("%" + g.group(1).decode() + g.group(2).decode() + c.decode()) % v).encode()
            elif c in b"sv" and isinstance(v, bytes) and t["k"] == "basic" and not g.group(2): out += v
            else: return None
        return out + f[j:] if k == len(vs) else None
    def totext(self, j):
        if j is None: return b"null"
        if isinstance(j, (str, bool, int)): return json.dumps(j).encode()
        self.texts.append(j); return b"\0J%d" % (len(self.texts) - 1)
    def ofbytes(self, d):
        if d.startswith(b"\0J"): return self.texts[int(d[2:])]
        try: return json.loads(d)
        except ValueError: raise JErr("not JSON")
    def meth(self, tid, m):
        """(function, by pointer) of a method of a type"""
        s = self.P.types[tid]["s"]
        if self.P.types[tid]["k"] == "ptr": s = self.P.types[self.P.types[tid]["e"]]["s"]
        for n, p in (("(%s).%s" % (s, m), False), ("(*%s).%s" % (s, m), True)):
            if self.P.types[tid].get("named") and self.P.has(n) and self.P.fns[n].get("params"):
                if p and self.P.has("(%s).%s" % (s, m)): continue
                return n, p
        return None
    def inner(self, st, fn, args):
        E = self.w.engine(); E.policy = self.w.E.policy; rs = E.run(fn, args, st)
        if len(rs) != 1: raise Und("%s has %d outcomes" % (fn.split("/")[-1], len(rs)))
        if rs[0].kind != "ret": raise Panic(fn.split("/")[-1])
        st.mem = rs[0].st.mem; st.nalloc = rs[0].st.nalloc; return rs[0].vals
    def encode(self, st, v, tid, m):
        fn, p = self.meth(tid, m)
        if p:
            o = self.w.E.alloc(st, "recv", None); self.w.E.store(st, o, v, tid); v = o
        r = self.inner(st, fn, [v])
        if r[1] is not None: raise JErr("coding of " + self.P.types[tid]["s"])
        return self.w.E.policy.seq(self.w.E, st, r[0])
    def decode(self, st, data, tid, cur, m):
        fn, p = self.meth(tid, m); E = self.w.E
        if not p: raise Und("decoding by value")
        k = (tid, data) if not data.startswith(b"\0J") and isinstance(cur, (int, Agg)) else None
        if k in self.memo: return self.memo[k]
        o = E.alloc(st, "recv", None); E.store(st, o, cur, tid)
        r = self.inner(st, fn, [o, self.bytes(st, data)])
        if r[0] is not None: raise JErr("coding of " + self.P.types[tid]["s"])
        v = E.load(st, o, tid)
        if k and (isinstance(v, int) or isinstance(v, Agg) and E.known(v)): self.memo[k] = v
        return v
    def fieldname(self, f):
        t = re.search(r'json:"([^"]*)"', f.get("tag", ""))
        if t:
            l = t.group(1).split(",")
            if l[0] == "-" and len(l) == 1: return None
            if "string" in l[1:] : raise Und("json tag " + t.group(1))
            if not f["n"][0].isupper(): return None
            return l[0] or f["n"]
        if f.get("emb"): raise Und("embedded field in JSON")
        return f["n"] if f["n"][0].isupper() else None
    def omit(self, f): return "omitempty" in f.get("tag", "")
    def tojson(self, st, v, tid):
        P = self.P; E = self.w.E; t = P.types[tid]; k = t["k"]
        if isinstance(v, T) and v.op == "zero": v = E.zero(tid)
        if k == "ptr":
            if v is None: return None
            return self.tojson(st, E.load(st, v, t["e"]), t["e"])
        for m in ("MarshalJSON", "MarshalText"):
            if self.meth(tid, m):
                key = (tid, froz(v), m) if isinstance(v, int) or isinstance(v, Agg) and E.known(v) else None
                if key in self.memo: return self.memo[key]
                d = self.encode(st, v, tid, m)
                r = self.ofbytes(d) if m == "MarshalJSON" else d.decode("utf-8", "replace")
                if key: self.memo[key] = r
                return r
        if k == "basic":
            if isinstance(v, bytes): return v.decode("utf-8", "replace")
            if isinstance(v, (int, bool)): return v
            raise Und("encoding of %r" % (v,))
        if k == "struct":
            if not isinstance(v, Agg): raise Und("encoding of %r" % (v,))
            r = {}
            for x, f in zip(v.e, t["f"]):
                n = self.fieldname(f)
                if n is None: continue
                if n in r: raise Und("field name twice")
                if self.omit(f):
                    if x is None or x == 0 and isinstance(x, (int, bool)) or x == b"": continue
                    if isinstance(x, SliceV) and x.len == 0: continue
                    if isinstance(x, Ptr) and P.types[f["t"]]["k"] == "map" and not [1 for q in st.mem[x.o] if q[0] == "#m"]: continue
                r[n] = self.tojson(st, x, f["t"])
            return r
        if k == "array":
            if not isinstance(v, Agg): raise Und("encoding of %r" % (v,))
            if all(isinstance(x, int) for x in v.e) and P.types[t["e"]]["k"] == "basic" and not self.meth(t["e"], "MarshalJSON") and not self.meth(t["e"], "MarshalText"): return list(v.e)
            return [self.tojson(st, x, t["e"]) for x in v.e]
        if k == "slice":
            if v is None: return None
            if P.types[t["e"]].get("size") == 1 and P.types[t["e"]]["k"] == "basic": return base64.b64encode(E.policy.seq(E, st, v)).decode()
            return [self.tojson(st, E.load(st, Ptr(v.o, v.p + (v.off + j,)), t["e"]), t["e"]) for j in range(v.len)]
        if k == "map":
            if v is None: return None
            r = {}; kt = t.get("key", t.get("kt")); m = st.mem.get(v.o)
            if m is None or ("#complete",) not in m: raise Und("unknown map")
            for q, x in list(m.items()):
                if q[0] != "#m": continue
                if P.types[kt]["k"] == "basic" and P.isstr(kt): n = q[1].decode("utf-8", "replace")
                elif self.meth(kt, "MarshalText"): n = self.tojson_text(st, q[1], kt)
                elif P.types[kt]["k"] == "basic" and P.ity(kt): n = str(q[1])
                else: raise JErr("map key")
                r[n] = self.tojson(st, x, t["e"])
            return r
        if k == "iface" and v is None: return None
        raise Und("JSON of " + t["s"])
    def tojson_text(self, st, v, tid): return self.encode(st, v, tid, "MarshalText").decode("utf-8", "replace")
    def fromjson(self, st, j, tid, cur, strict):
        P = self.P; E = self.w.E; t = P.types[tid]; k = t["k"]
        if k == "ptr":
            if j is None: return None
            o = cur if isinstance(cur, Ptr) else E.alloc(st, "decoded", t["e"])
            c = E.load(st, o, t["e"]) if isinstance(cur, Ptr) else E.zero(t["e"])
            E.store(st, o, self.fromjson(st, j, t["e"], c, strict), t["e"]); self.w.split(st, o, t["e"]); return o
        if self.meth(tid, "UnmarshalJSON"): return self.decode(st, self.totext(j), tid, cur, "UnmarshalJSON")
        if j is None: return None if k in ("map", "slice", "iface") else cur
        if self.meth(tid, "UnmarshalText"):
            if not isinstance(j, str): raise JErr("text expected")
            return self.decode(st, j.encode(), tid, cur, "UnmarshalText")
        if k == "basic":
            if P.isbool(tid) and isinstance(j, bool): return j
            if P.isstr(tid) and isinstance(j, str): return j.encode()
            if P.ity(tid) and isinstance(j, int) and not isinstance(j, bool):
                w, sg = 8 * P.ity(tid)[0], not P.ity(tid)[1]
                if not (-(1 << (w - 1)) <= j < 1 << (w - 1) if sg else 0 <= j < 1 << w): raise JErr("range")
                return j
            raise JErr("kind")
        if isinstance(cur, T) and cur.op == "zero": cur = E.zero(tid)
        if k == "struct":
            if not isinstance(j, dict): raise JErr("kind")
            e = list(cur.e); names = {}
            for i, f in enumerate(t["f"]):
                n = self.fieldname(f)
                if n is not None: names[n] = i
            low = {n.lower(): i for n, i in names.items()}
            for n, x in j.items():
                i = names.get(n, low.get(n.lower()))
                if i is None:
                    if strict: raise JErr("unknown field " + n)
                    continue
                e[i] = self.fromjson(st, x, t["f"][i]["t"], e[i], strict)
            return Agg("struct", e, tid)
        if k == "array":
            if not isinstance(j, list): raise JErr("kind")
            z = E.zero(t["e"]); c = list(cur.e)
            if all(isinstance(x, int) and 0 <= x < 256 for x in j) and len(j) == t["len"] and P.types[t["e"]].get("size") == 1 and not self.meth(t["e"], "UnmarshalJSON"): return Agg("array", j, tid)
            return Agg("array", [self.fromjson(st, j[i], t["e"], c[i], strict) if i < len(j) else z for i in range(t["len"])], tid)
        if k == "slice":
            if P.types[t["e"]].get("size") == 1 and P.types[t["e"]]["k"] == "basic":
                if not isinstance(j, str): raise JErr("kind")
                return self.bytes(st, base64.b64decode(j))
            if not isinstance(j, list): raise JErr("kind")
            o = E.alloc(st, "decoded", None); st.mem[o.o] = {}
            for i, x in enumerate(j): st.mem[o.o][(i,)] = self.fromjson(st, x, t["e"], E.zero(t["e"]), strict)
            return SliceV(o.o, (), 0, len(j), len(j))
        if k == "map":
            if not isinstance(j, dict): raise JErr("kind")
            kt = t.get("key", t.get("kt")); o = E.alloc(st, "decoded", None); m = {("#complete",): True, ("#ver",): 0}
            for n, x in j.items():
                if P.types[kt]["k"] == "basic" and P.isstr(kt): q = n.encode()
                elif self.meth(kt, "UnmarshalText"): q = self.decode(st, n.encode(), kt, E.zero(kt), "UnmarshalText")
                elif P.types[kt]["k"] == "basic" and P.ity(kt): q = int(n)
                else: raise JErr("map key")
                m[("#m", q)] = self.fromjson(st, x, t["e"], E.zero(t["e"]), strict)
            st.mem[o.o] = m; return o
        raise Und("JSON of " + t["s"])
# ---- values as trees ----------------------------------------------------------------
# ("v", x) ("agg", kind, [nodes]) ("nil",) ("ptr", node) ("sl", [nodes]) ("map", [(k, v)]) ("code", bytes) ("skip",)
class W:
    def __init__(self, rep):
        self.P = P = goprog.load(["./go/ct/st"], inits=("tosca/vm", "tosca", "ct/common", "ct/st"), rep=rep)
        self.rep = rep; self.E = self.engine(); self.n = 0; self.bc = {}
        self.tid = P.typ(expand(PK + ".State")); self.fields = [f["n"] for f in P.types[self.tid]["f"]]
    def engine(self):
        p = Pol(); p.coding = getattr(self, "coding", None) or Coding(self); self.coding = p.coding
        return XE(self.P, p, max_paths=200, max_steps=3000000)
    def name(self, tid): return self.P.types[tid].get("named", "").split("/go/")[-1]
    def gen(self, tid, size=2):
        t = self.P.types[tid]; k = t["k"]; self.n += 1
        if self.name(tid) == "ct/st.Code": return ("code", bytes([0x60, 1 + self.n % 100, 0x01, 0x5b]) + bytes(0x01 for _ in range(30)))
        if t["s"] in ("sync.Mutex", "sync.RWMutex"): return ("skip",)
        if k == "basic":
            if self.P.isbool(tid): return ("v", True)
            if self.P.isstr(tid): return ("v", b"s%04d" % self.n)
            if self.P.ity(tid): return ("v", self.n % 120 + 1 if t.get("size") == 1 else self.n % 5 + 1 if t.get("named") else self.n + 3)
            raise Und("type " + t["s"])
        if k == "struct": return ("agg", "struct", [self.gen(f["t"]) for f in t["f"]])
        if k == "array": return ("agg", "array", [self.gen(t["e"]) for _ in range(t["len"])])
        if k == "ptr": return ("ptr", self.gen(t["e"]))
        if k == "slice": return ("sl", [self.gen(t["e"]) for _ in range(size if self.P.types[t["e"]].get("size") != 1 else 32)])
        if k == "map":
            r = []
            while len(r) < size:
                kk, v = self.gen(t["key"] if "key" in t else t["kt"]), self.gen(t["e"]); r.append((kk, v))
            return ("map", r)
        raise Und("type " + t["s"])
    def build(self, st, n, tid):
        t = self.P.types[tid]; E = self.E; k = n[0]
        if k == "v": return n[1]
        if k in ("nil",): return None
        if k == "skip": return E.zero(tid)
        if k == "agg":
            c = self.bc.get(id(n))
            if c and c[0] is n: return c[1]
            v = Agg(n[1], [self.build(st, x, f["t"]) for x, f in zip(n[2], t["f"])] if t["k"] == "struct" else [self.build(st, x, t["e"]) for x in n[2]], tid)
            if self.E.known(v): self.bc[id(n)] = (n, v)
            return v
        if k == "ptr":
            if n[1][0] == "code":
                o = E.alloc(st, "codebytes", None); st.mem[o.o] = {(j,): b for j, b in enumerate(n[1][1])}
                r = self.run(st, expand(PK + ".NewCode"), [SliceV(o.o, (), 0, len(n[1][1]), len(n[1][1]))])
                return r[0]
            o = E.alloc(st, "obj", t["e"]); v = self.build(st, n[1], t["e"])
            E.store(st, o, v, t["e"]); self.split(st, o, t["e"]); return o
        if k == "sl":
            o = E.alloc(st, "sl", None); st.mem[o.o] = {(j,): self.build(st, x, t["e"]) for j, x in enumerate(n[1])}
            return SliceV(o.o, (), 0, len(n[1]), len(n[1]) + 2)
        if k == "map":
            o = E.alloc(st, "map", None); m = {("#complete",): True, ("#ver",): 0}
            for a, b in n[1]: m[("#m", self.build(st, a, t.get("key", t.get("kt"))))] = self.build(st, b, t["e"])
            st.mem[o.o] = m; return o
        raise Und(k)
    def split(self, st, o, tid):
        """one cell per field"""
        v = st.mem[o.o].get(())
        if isinstance(v, Agg) and self.P.types[tid]["k"] == "struct": st.mem[o.o] = {(j,): x for j, x in enumerate(v.e)}
    def read(self, st, v, tid, objs=None, path="", expo=True):
        """tree of a value; objs collects (object, path, reachable through exported fields)"""
        t = self.P.types[tid]; k = t["k"]; E = self.E
        if t["s"] in ("sync.Mutex", "sync.RWMutex"): return ("skip",)
        if k == "basic":
            if not isinstance(v, (int, bool, bytes)): raise Und("value %r" % (v,))
            return ("v", v)
        if k in ("struct", "array"):
            if isinstance(v, T) and v.op == "zero": v = E.zero(tid)
            if not isinstance(v, Agg): raise Und("value %r" % (v,))
            if k == "array": return ("agg", "array", [self.read(st, x, t["e"], objs, path + "[]", expo) for x in v.e])
            return ("agg", "struct", [self.read(st, x, f["t"], objs, path + "." + f["n"], expo and f["n"][0].isupper() and self.name(tid) != "ct/common.ImmutableHashArray") for x, f in zip(v.e, t["f"])])
        if v is None: return ("nil",)
        if k == "ptr":
            if not isinstance(v, Ptr): raise Und("value %r" % (v,))
            if self.name(t["e"]) == "ct/st.Code":
                f = self.P.types[t["e"]]["f"]; j = [x for x in range(len(f)) if f[x]["n"] == "code"]
                if not j: raise Und("Code")
                s = E.load(st, Ptr(v.o, v.p + (j[0],)), f[j[0]]["t"]); return ("ptr", ("code", E.policy.seq(E, st, s)))
            if objs is not None and self.P.types[t["e"]]["k"] != "struct" or objs is not None: objs.append((v.o, path, expo))
            return ("ptr", self.read(st, E.load(st, v, t["e"]), t["e"], objs, path, expo))
        if k == "slice":
            if not isinstance(v, SliceV) or not isinstance(v.len, int): raise Und("value %r" % (v,))
            if objs is not None and v.cap: objs.append((v.o, path, expo))
            return ("sl", [self.read(st, E.load(st, Ptr(v.o, v.p + (v.off + j,)), t["e"]), t["e"], objs, path + "[]", expo) for j in range(v.len)])
        if k == "map":
            m = st.mem.get(v.o)
            if m is None or ("#complete",) not in m: raise Und("unknown map")
            if objs is not None: objs.append((v.o, path, expo))
            kt = t.get("key", t.get("kt"))
            return ("map", sorted([(self.read(st, q[1], kt), self.read(st, x, t["e"], objs, path + "{}", expo)) for q, x in m.items() if q[0] == "#m"], key=repr))
        raise Und("type " + t["s"])
    def run(self, st, fn, args):
        """the only path of a call on known values; st becomes the state after it"""
        if not self.P.has(fn): raise Und("no function " + fn)
        self.E.steps = 0; rs = self.E.run(fn, args, st)
        if len(rs) != 1: raise Und("%s has %d outcomes" % (fn.split("/")[-1], len(rs)))
        r = rs[0]
        if r.kind != "ret": raise Panic(fn.split("/")[-1])
        st.mem = r.st.mem; st.nalloc = r.st.nalloc
        self.rep.count("evaluations"); return r.vals
class Panic(Exception): pass

INTERNAL = {"Pc", "Stack", "Memory", "LastCallReturnData"}; RESULT = {"ReturnData"}
NAMES = ("Status", "Revision", "ReadOnly", "Pc", "Gas", "GasRefund", "Code", "Stack", "Memory", "Storage", "TransientStorage", "Accounts", "Logs", "CallContext", "CallJournal", "BlockContext", "CallData", "LastCallReturnData", "ReturnData", "HasSelfDestructed", "SelfDestructedJournal", "RecentBlockHashes", "TransactionContext")
def bump(v):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + 1
    return v[:-1] + bytes([v[-1] ^ 1]) if v else b"x"
def vary(w, n, tid, path=""):
    """(path, tree with one difference)"""
    t = w.P.types[tid]; k = n[0]
    if k == "v":
        yield path, ("v", bump(n[1]))
        if isinstance(n[1], bytes): yield path, ("v", n[1] + b"\0"); yield path, ("v", b"")
        elif not isinstance(n[1], bool) and t.get("size", 0) > 1 and not t.get("named"): yield path, ("v", n[1] ^ (1 << (8 * t["size"] - 2)))
    elif k == "code":
        yield path, ("code", n[1][:-1] + b"\x02"); yield path, ("code", n[1] + b"\0"); yield path, ("code", n[1][:1] + b"\xee" + n[1][2:])
    elif k == "agg":
        l = len(n[2]); idx = range(l) if n[1] == "struct" else sorted({0, l - 1, l // 2} if l > 4 else set(range(l)))
        for j in idx:
            ft = t["f"][j]["t"] if n[1] == "struct" else t["e"]
            for p, x in vary(w, n[2][j], ft, path + ("." + t["f"][j]["n"] if n[1] == "struct" else "")): yield p, ("agg", n[1], n[2][:j] + [x] + n[2][j + 1:])
    elif k == "ptr":
        for p, x in vary(w, n[1], t["e"], path): yield p, ("ptr", x)
    elif k == "sl":
        l = n[1]
        for j in sorted({0, len(l) - 1, len(l) // 2}):
            if j < len(l):
                for p, x in vary(w, l[j], t["e"], path + "[]"): yield p, ("sl", l[:j] + [x] + l[j + 1:])
        yield path, ("sl", l[:-1]); yield path, ("sl", l[1:]); yield path, ("sl", l + [w.gen(t["e"])]); yield path, ("sl", [])
        if len(l) > 1: yield path, ("sl", [l[1], l[0]] + l[2:])
    elif k == "map":
        l = n[1]
        for j, (a, b) in enumerate(l):
            if b[0] == "v" and b[1] is True: continue
            for p, x in vary(w, b, t["e"], path + "{}"): yield p, ("map", l[:j] + [(a, x)] + l[j + 1:])
        yield path, ("map", l[1:]); yield path, ("map", l[:-1]); yield path, ("map", [])
        kt = t.get("key", t.get("kt")); fresh_ = w.gen(kt)
        yield path, ("map", l + [(fresh_, w.gen(t["e"]))])
        yield path, ("map", [(fresh_, l[0][1])] + l[1:])
class Chk:
    def __init__(self, rep):
        self.w = W(rep); self.rep = rep; P = self.w.P; self.P = P
        self.pt = P.typ(expand("*" + PK + ".State")); self.base = self.w.gen(self.w.tid)
        self.ix = {n: j for j, n in enumerate(self.w.fields)}
        self.status = {n.rsplit(".", 1)[1]: int(c["v"]) for n, c in P.consts.items() if n.rsplit(".", 1)[0] == expand(PK) and n.rsplit(".", 1)[1] in ("Running", "Stopped", "Reverted", "Failed")}
        if len(self.status) != 4 or "Status" not in self.ix: raise Und("states of execution")
        self.unknown = [n for n in self.w.fields if n not in NAMES]
    def m(self, s): return "(*%s.State).%s" % (expand(PK), s)
    def where(self, f): return "go/ct/st/state.go State." + f
    def with_(self, tree, **kw):
        l = list(tree[2])
        for k, v in kw.items(): l[self.ix[k]] = v
        return ("agg", "struct", l)
    def st(self, s): return ("v", self.status[s])
    def pair(self, a, b):
        st = State(); return st, self.w.build(st, ("ptr", a), self.pt), self.w.build(st, ("ptr", b), self.pt)
    def eq(self, a, b):
        st, x, y = self.pair(a, b); r = self.w.run(st, self.m("Eq"), [x, y])[0]
        if not isinstance(r, bool): raise Und("Eq gives %r" % (r,))
        return r
    def diff(self, a, b):
        st, x, y = self.pair(a, b); r = self.w.run(st, self.m("Diff"), [x, y])[0]
        if r is None: return []
        if not isinstance(r, SliceV) or not isinstance(r.len, int): raise Und("Diff gives %r" % (r,))
        out = [self.w.E.load(st, Ptr(r.o, r.p + (r.off + j,)), self.P.tindex["string"]) for j in range(r.len)]
        return [x if isinstance(x, bytes) else b"?" for x in out]
    def variants(self):
        for j, n in enumerate(self.w.fields):
            if n in self.unknown: continue
            for p, x in vary(self.w, self.base[2][j], self.P.types[self.w.tid]["f"][j]["t"], n): yield n, p, ("agg", "struct", self.base[2][:j] + [x] + self.base[2][j + 1:])
    def compare(self):
        rep = self.rep; texts = {}
        run, stop, rev, fail = (self.st(s) for s in ("Running", "Stopped", "Reverted", "Failed"))
        seen = set()
        for n, p, t in self.variants():
            if n == "Status": continue
            first = p not in seen; seen.add(p)
            for s, S in (("running", run), ("stopped", stop), ("reverted", rev), ("failed", fail)):
                if s in ("reverted", "failed") and not first: continue
                a, b = self.with_(self.base, Status=S), self.with_(t, Status=S)
                want = s == "failed" or (n in RESULT if s == "running" else n in INTERNAL)
                try: r = (self.eq(a, b), self.eq(b, a))
                except Panic as e: rep.violation("eq:%s:%s" % (n, s), "comparing two %s states that differ in %s panics" % (s, p), self.where("Eq")); continue
                for g in r:
                    rep.check(g == want, "eq:%s:%s" % (p, s), "two %s states that differ in %s only are %s" % (s, p, "equal" if g else "unequal") if g != want else "%s states differing in %s are %s" % (s, p, "equal" if want else "unequal"), self.where("Eq"))
                if want or s != "running" and n not in RESULT: continue
                for x, y in ((a, b), (b, a)):
                    try: d = self.diff(x, y)
                    except Panic: rep.violation("diff:%s:%s" % (p, s), "the differences of two %s states that differ in %s cannot be listed: Diff panics" % (s, p), self.where("Diff")); continue
                    if not d: rep.violation("diff:%s:%s" % (p, s), "no difference is reported for two %s states that differ in %s" % (s, p), self.where("Diff"))
                    else: rep.ok("a difference in %s is reported" % p)
                    for z in d: texts.setdefault(z, set()).add(".".join(p.replace("{}", "").replace("[]", "").split(".")[:2 if n in ("CallContext", "BlockContext") else 1]))
        for z, c in sorted(texts.items()):
            rep.check(len(c) == 1 or z == b"?", "name:" + "/".join(sorted(c)), "the same text %r is reported for differences in %s" % (z.decode("latin1").strip(), " and in ".join(sorted(c))) if len(c) > 1 else "text names one component", self.where("Diff"))
        ss = [("running", run), ("stopped", stop), ("reverted", rev), ("failed", fail)]
        for a, x in ss:
            for b, y in ss:
                g = self.eq(self.with_(self.base, Status=x), self.with_(self.base, Status=y))
                rep.check(g == (a == b), "status:%s:%s" % (a, b), "a %s and a %s state that agree otherwise are %s" % (a, b, "equal" if g else "unequal"), self.where("Eq"))
        # empty states, zero slots
        e = self.empty(self.w.tid)
        for s, S in ss:
            x = self.with_(e, Status=S)
            try:
                rep.check(self.eq(x, x) is True, "empty", "two empty %s states are unequal" % s, self.where("Eq"))
                d = self.diff(x, x); rep.check(not d, "emptydiff", "differences are reported between two empty %s states: %r" % (s, d), self.where("Diff"))
                if s != "failed": rep.check(self.eq(x, self.with_(self.base, Status=S)) is False, "emptyfull", "an empty %s state equals a filled one" % s, self.where("Eq"))
            except Panic as ex: rep.violation("emptypanic", "comparing empty states panics in " + str(ex), self.where("Eq"))
        for f, g in (("Storage", "current"), ("Storage", "original"), ("TransientStorage", None)):
            if f not in self.ix: continue
            j = self.ix[f]; ft = self.P.types[self.P.types[self.w.tid]["f"][j]["t"]]["e"]; fs = self.P.types[ft]["f"]
            ks = [i for i, q in enumerate(fs) if self.P.types[q["t"]]["k"] == "map" and (g is None or q["n"] == g)]
            if len(ks) != 1: continue
            m = self.base[2][j][1][2][ks[0]]; mt = self.P.types[fs[ks[0]]["t"]]
            z = ("map", m[1] + [(self.w.gen(mt["key"]), self.zero(m[1][0][1]))]); l = list(self.base[2][j][1][2]); l[ks[0]] = z
            b = self.with_(self.base, **{f: ("ptr", ("agg", "struct", l))})
            for x, y in ((self.base, b), (b, self.base)):
                x, y = self.with_(x, Status=run), self.with_(y, Status=run)
                n = f + ("." + g if g else ""); r = self.eq(x, y); d = self.diff(x, y)
                rep.check(r is True, "zero:" + n, "a zero slot of %s makes a state unequal to one without the slot" % n, self.where("Eq"))
                rep.check(not d, "zerodiff:" + n, "a zero slot of %s is reported as a difference to a state without the slot" % n, self.where("Diff"))
        # any position past the end of the code stands for STOP
        if {"Pc", "Code"} <= set(self.ix):
            n = len(self.base[2][self.ix["Code"]][1][1])
            for p, q in ((n, n + 5), (n, 65535), (n - 1, n), (0, 65535), (n - 2, n - 1), (n + 1, n + 1)):
                g = self.eq(self.with_(self.base, Status=run, Pc=("v", p)), self.with_(self.base, Status=run, Pc=("v", q)))
                rep.check(g == (p == q or p >= n and q >= n), "pc", "running states at positions %d and %d of a code of length %d are %s" % (p, q, n, "equal" if g else "unequal"), self.where("Eq"))
    def zero(self, n):
        if n[0] == "v": return ("v", False if isinstance(n[1], bool) else 0 if isinstance(n[1], int) else b"")
        return (n[0], n[1], [self.zero(x) for x in n[2]]) if n[0] == "agg" else ("nil",)
    def empty(self, tid):
        """everything of size zero"""
        t = self.P.types[tid]; k = t["k"]
        if self.w.name(tid) == "ct/st.Code": return ("code", b"")
        if t["s"] in ("sync.Mutex", "sync.RWMutex"): return ("skip",)
        if k == "basic": return ("v", False if self.P.isbool(tid) else b"" if self.P.isstr(tid) else 0)
        if k == "struct": return ("agg", "struct", [self.empty(f["t"]) for f in t["f"]])
        if k == "array": return ("agg", "array", [self.empty(t["e"])] * t["len"])
        if k == "ptr" and self.P.types[t["e"]]["k"] == "struct": return ("ptr", self.empty(t["e"]))
        return ("nil",)
    # -- clones
    def norm(self, n):
        if n[0] == "nil": return ("none",)
        if n[0] in ("sl", "map") and not n[1]: return ("none",)
        if n[0] == "ptr": return ("ptr", self.norm(n[1]))
        if n[0] == "agg": return ("agg", n[1], [self.norm(x) for x in n[2]])
        if n[0] == "sl": return ("sl", [self.norm(x) for x in n[1]])
        if n[0] == "map": return ("map", sorted([(a, self.norm(b)) for a, b in n[1]], key=repr))
        return n
    def delta(self, a, b, tid, path=""):
        t = self.P.types[tid]
        if a == b: return None
        if a[0] != b[0] or a[0] not in ("ptr", "agg") : return path
        if a[0] == "ptr": return self.delta(a[1], b[1], t["e"], path)
        for j, (x, y) in enumerate(zip(a[2], b[2])):
            d = self.delta(x, y, t["f"][j]["t"] if t["k"] == "struct" else t["e"], path + "." + t["f"][j]["n"] if t["k"] == "struct" else path)
            if d: return d
        return path
    def clone(self, tree, what):
        rep = self.rep; st = State(); x = self.w.build(st, ("ptr", tree), self.pt)
        before = self.norm(self.w.read(st, x, self.pt))
        try: y = self.w.run(st, self.m("Clone"), [x])[0]
        except Panic as e: rep.violation("clone:panic", "cloning %s panics in %s" % (what, e), self.where("Clone")); return
        after = self.norm(self.w.read(st, x, self.pt)); c = self.norm(self.w.read(st, y, self.pt))
        rep.check(before == after, "clone:source", "cloning %s changes %s of the original" % (what, self.delta(before, after, self.pt)), self.where("Clone"))
        rep.check(c == before, "clone:copy", "the clone of %s differs from the original in %s" % (what, self.delta(before, c, self.pt)), self.where("Clone"))
        oa, ob = [], []
        self.w.read(st, x, self.pt, oa); self.w.read(st, y, self.pt, ob)
        byo = {}
        for o, p, e in oa: byo.setdefault(o, (p, e))
        for o, p, e in ob:
            if o in byo and e and byo[o][1] and p.split(".")[1] not in ("RecentBlockHashes", "Code") : rep.violation("clone:shared:" + p, "the clone of %s shares %s with the original" % (what, p[1:]), self.where("Clone"))
            else: rep.ok("clone has %s of its own" % p)
        return st, x, y
    def mutators(self):
        """exported methods of the state's components that may change them"""
        P = self.P
        for j, f in enumerate(P.types[self.w.tid]["f"]):
            t = P.types[f["t"]]
            if t["k"] != "ptr" or not P.types[t["e"]].get("named") or self.w.name(t["e"]) == "ct/st.Code": continue
            pre = "(*%s)." % P.types[t["e"]]["s"]
            for n, fn in P.fns.items():
                m = n[len(pre):]
                if not n.startswith(pre) or not m[:1].isupper() or "$" in m or m in ("Clone", "Eq", "Equal", "Diff", "String", "Release", "MarshalJSON", "UnmarshalJSON"): continue
                yield j, f["n"], n, m, fn
    def args(self, st, fn, j, tree):
        """some combinations of arguments: known and unknown keys, small numbers"""
        P = self.P; keys = {}
        def collect(n, tid):
            t = P.types[tid]
            if n[0] == "map":
                for a, _ in n[1]: keys.setdefault(t["key"], []).append(a)
            elif n[0] == "ptr": collect(n[1], t["e"])
            elif n[0] == "agg" and t["k"] == "struct":
                for x, f in zip(n[2], t["f"]): collect(x, f["t"])
        collect(tree[2][j], P.types[self.w.tid]["f"][j]["t"])
        first = keys.get(fn["params"][1]["t"], []) if len(fn["params"]) > 1 else []
        for mode in range(max(2, len(first)) + 1):
            out = []
            for k, p in enumerate(fn["params"][1:]):
                tid = p["t"]; t = P.types[tid]
                if k == 0 and mode < len(first): out.append(self.w.build(st, first[mode], tid))
                elif t["k"] == "basic" and P.ity(tid) and t["s"] in ("int", "uint64"): out.append((0, 1, 33)[min(mode, 2)])
                elif t["k"] in ("func", "iface", "chan"): return
                else:
                    try: out.append(self.w.build(st, self.w.gen(tid), tid))
                    except Und: return
            yield out
    def independence(self, tree):
        rep = self.rep; n = 0
        for j, fname, name, m, fn in list(self.mutators()):
            ft = self.P.types[self.w.tid]["f"][j]["t"]
            for k in range(12):
                st = State(); x = self.w.build(st, ("ptr", tree), self.pt)
                try: y = self.w.run(st, self.m("Clone"), [x])[0]
                except Panic: return
                al = list(self.args(st, fn, j, tree))
                if k >= len(al): break
                for first, second, wh in ((y, x, "clone"), (x, y, "original")):
                    before = self.norm(self.w.read(st, second, self.pt))
                    recv = self.w.E.load(st, Ptr(first.o, first.p + (j,)), ft)
                    try: self.w.run(st, name, [recv] + al[k])
                    except Panic: continue
                    except (Und, Undecided) as e: rep.notes.append("%s: %s" % (m, str(e)[:100])); continue
                    after = self.norm(self.w.read(st, second, self.pt)); n += 1
                    rep.check(before == after, "indep:%s.%s" % (fname, m), "calling %s of the %s's %s changes %s of the %s" % (m, wh, fname, self.delta(before, after, self.pt), "original" if wh == "clone" else "clone"), "go/ct/st " + name.split("/")[-1])
        rep.count("mutations", n)
    # -- export and import
    def files(self):
        rep = self.rep; cod = self.w.coding; seen = set(); first = {}
        todo = [("a filled state", self.base), ("an empty state", self.with_(self.empty(self.w.tid), RecentBlockHashes=self.base[2][self.ix["RecentBlockHashes"]]) if 0 else self.empty(self.w.tid))]
        todo += [("a %s state" % s.lower(), self.with_(self.base, Status=("v", c))) for s, c in self.status.items()]
        for n, p, t in self.variants():
            if n != "Status" and seen.add((p, 0)) is None and first.setdefault(p, 0) < 3: first[p] += 1; todo.append(("a state (variation of %s)" % p, t))
        cod.on = True
        try:
            for n, c in sorted(self.P.consts.items()):
                if "t" not in c or not cod.meth(c["t"], "UnmarshalJSON") or not self.P.ity(c["t"]) or n.rsplit(".", 1)[-1].lower().startswith("num"): continue
                st = State(); v = int(c["v"]); t = self.w.name(c["t"])
                try: g = cod.fromjson(st, cod.tojson(st, v, c["t"]), c["t"], 0, True)
                except JErr: g = "an error"
                rep.check(g == v, "value:%s" % t, "%s %d is encoded as a text that decodes to %s" % (t, v, g), "go/" + t.split("/")[0] + " " + t + " MarshalJSON, UnmarshalJSON")
            for what, tree in todo:
                st = State(); x = self.w.build(st, ("ptr", tree), self.pt); before = self.norm(self.w.read(st, x, self.pt))
                try:
                    r = self.w.run(st, expand(PK + ".ExportStateJSON"), [x, b"file"])
                    if r[0] is not None: rep.violation("export:error", "exporting %s fails" % what, "go/ct/st/serialization.go ExportStateJSON"); continue
                    r = self.w.run(st, expand(PK + ".ImportStateJSON"), [b"file"])
                    if r[1] is not None: rep.violation("import:error", "importing what was exported of %s fails" % what, "go/ct/st/serialization.go ImportStateJSON"); continue
                except Panic as e: rep.violation("export:panic", "exporting and importing %s panics in %s" % (what, e), "go/ct/st/serialization.go"); continue
                after = self.norm(self.w.read(st, x, self.pt))
                rep.check(before == after, "export:source", "exporting %s changes %s of it" % (what, self.delta(before, after, self.pt)), "go/ct/st/serialization.go ExportStateJSON")
                got = self.norm(self.w.read(st, r[0], self.pt)); d = self.delta(before, got, self.pt)
                back = self.w.read(st, r[0], self.pt)[1]; j = self.ix["Status"]
                same = tree[2][j] == back[2][j]
                for s in ("Running", "Stopped"):
                    if same and not self.eq(self.with_(tree, Status=self.st(s)), self.with_(back, Status=self.st(s))): same = False
                rep.check(same, "roundtrip", "%s that is exported and imported again comes back different in %s" % (what, d), "go/ct/st/serialization.go")
        finally: cod.on = False
    def hashes(self):
        rep = self.rep; fn = "(*%s.Accounts).GetCodeHash" % expand(PK); j = self.ix["Accounts"]
        def codes(n, tid, out):
            t = self.P.types[tid]
            if n[0] == "map":
                for a, b in n[1]:
                    if b[0] == "agg":
                        for x, f in zip(b[2], self.P.types[t["e"]]["f"]):
                            if self.w.name(f["t"]) == "ct/common.Bytes": out.append((t["key"], a, x[2][0][1]))
            elif n[0] == "ptr": codes(n[1], t["e"], out)
            elif n[0] == "agg" and t["k"] == "struct":
                for x, f in zip(n[2], t["f"]): codes(x, f["t"], out)
        l = []; codes(self.base[2][j], self.P.types[self.w.tid]["f"][j]["t"], l)
        l.append((l[0][0], self.w.gen(l[0][0]), b""))
        for tid, a, c in l:
            st = State(); x = self.w.build(st, ("ptr", self.base), self.pt)
            r = self.w.run(st, fn, [self.w.E.load(st, Ptr(x.o, x.p + (j,)), self.P.types[self.w.tid]["f"][j]["t"]), self.w.build(st, a, tid)])[0]
            if isinstance(r, T) and r.op == "zero": g = bytes(32)
            elif isinstance(r, Agg) and all(isinstance(z, int) for z in r.e): g = bytes(r.e)
            else: raise Und("hash %r" % (r,))
            rep.check(g == keccak(c), "codehash:zero" if g == bytes(32) else "codehash", "the hash reported for an account's code is %s" % ("zero" if g == bytes(32) else "not that of the code"), "go/ct/st/accounts.go Accounts.GetCodeHash")
        st = State(); x = self.w.build(st, ("ptr", self.base), self.pt); j = self.ix["Code"]
        r = self.w.run(st, "(*%s.Code).Hash" % expand(PK), [self.w.E.load(st, Ptr(x.o, x.p + (j,)), self.P.types[self.w.tid]["f"][j]["t"])])[0]
        if not isinstance(r, Agg) or not all(isinstance(z, int) for z in r.e): raise Und("hash %r" % (r,))
        rep.check(bytes(r.e) == keccak(self.base[2][j][1][1]), "hash", "the hash of the state's code is not that of its bytes", "go/ct/st/code.go Code.Hash")
    def pooled(self):
        """stacks of every size, whatever was released before"""
        for k in (0, 1, 3, 1024):
            self.w.E.policy.pool = k
            for n in (0, 1, 2, 17, 1024):
                st = State(); vt = self.P.types[self.P.types[self.P.typ(expand(PK + ".Stack"))]["f"][0]["t"]]["e"]; vs = [self.w.gen(vt) for _ in range(min(n, 3))] + [("agg", "struct", [("agg", "array", [("v", 7)] * 4)])] * (n - min(n, 3))
                a = self.w.build(st, ("sl", vs), self.P.types[self.P.typ(expand(PK + ".Stack"))]["f"][0]["t"])
                try: r = self.w.run(st, expand(PK + ".NewStack"), [a])[0]
                except Panic: self.rep.violation("pool:%s" % ("small" if k < n else "large"), "a stack of %d values cannot be created after a stack of capacity %d was released: panic" % (n, k), "go/ct/st/stack.go NewStack"); continue
                g = self.w.read(st, r, self.P.typ(expand("*" + PK + ".Stack")))
                self.rep.check(self.norm(g[1][2][0]) == self.norm(("sl", vs)), "pool:content", "a new stack of %d values does not hold them if a stack of capacity %d was released before" % (n, k), "go/ct/st/stack.go NewStack")
def main(rep):
    rep.assumptions.append("states are compared field by field for containers of up to 32 elements; JSON coding of the exported fields of leaves restores them")
    try: C = Chk(rep)
    except (Und, AnchorMissing, KeyError) as e: rep.undec("go/ct/st", e); C = None
    if C:
        for n in C.unknown: rep.undec("State." + n, "a component this check does not know")
        parts = [("Clone", lambda: [C.clone(C.base, "a filled state"), C.clone(C.empty(C.w.tid), "an empty state")]), ("independence", lambda: C.independence(C.base)), ("comparison", C.compare), ("export", C.files), ("code hashes", C.hashes), ("stack pool", C.pooled)]
        for n, f in parts:
            for k in ((3, 0, 1024) if n == "Clone" else (3,)):
                C.w.E.policy.pool = k
                try: f()
                except (Und, Undecided, AnchorMissing, KeyError, Panic) as e:
                    rep.undec("go/ct/st " + n, "%s %s" % (type(e).__name__, e))
    return ("States are built from the declared types with a value of its own in every component; the clone, comparison and difference functions are interpreted on them and on states that differ in a single place.",
            "a clone reads the same, shares nothing a caller can write and is not changed by any operation on the other; states are equal exactly if they agree in everything that counts in their status; every difference is reported under a name of its own")
