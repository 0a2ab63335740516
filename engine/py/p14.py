"""P14: textual encodings of enumerations round-trip (constant propagation of every value through String,
MarshalJSON and UnmarshalJSON; path analysis with a symbolic text and symbolic values for the rest)."""
import re, common, goprog
from gosem import *
def pos(p): return (p or "").replace(common.REPO + "/", "")
ENUMS = [("~tosca.Revision", ["./go/tosca"], "R"), ("~tosca.CallKind", ["./go/tosca"], ""), ("~tosca.StorageStatus", ["./go/tosca"], ""), ("~ct/st.StatusCode", ["./go/ct/st"], "")]
TEXT = sym("$text")

class Pol(Policy):
    """text: constant content of the JSON string, or TEXT"""
    text = TEXT
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if name == "encoding/json.Marshal":
            a = args[0]
            v = a.v if isinstance(a, Iface) else a
            meths = E.P.methods.get(E.P.types[a.t]["s"], {}) if isinstance(a, Iface) else {}
            if "MarshalJSON" in meths or "MarshalText" in meths: raise Undecided("json.Marshal of a value with its own encoding")
            put(st, Agg("tuple", [T("json", v), None], None)); return "cont"
        if name == "encoding/json.Unmarshal":
            p = args[1]; p = p.v if isinstance(p, Iface) else p
            p = E.to_ptr(p)
            if self.text is TEXT:
                s2 = st.copy(); s2.tags["jsonerr"] = True
                if dst and dst != "#defer": s2.frames[-1].regs[dst] = T("nonnil", fresh("jsonerr"))
                work.append(s2)
            E.store(st, p, self.text, E.P.tindex["string"]); put(st, None); return "cont"
        if name == "regexp.MustCompile":
            put(st, T("regexp", args[0]) if isinstance(args[0], bytes) else fresh("regexp")); return "cont"
        if name.startswith("(*regexp.Regexp).") and isinstance(args[0], T) and args[0].op == "regexp" and name.endswith(("MatchString", "Match")):
            if isinstance(args[1], bytes): put(st, re.search(args[0].args[0].decode("latin1"), args[1].decode("latin1")) is not None)
            else: put(st, T("rematch", args[0].args[0], args[1]))
            return "cont"
        if name == "regexp.MatchString" and all(isinstance(a, bytes) for a in args):
            put(st, Agg("tuple", [re.search(args[0].decode("latin1"), args[1].decode("latin1")) is not None, None], None)); return "cont"
        if name.startswith("(*regexp.Regexp).Find"):
            if isinstance(args[0], T) and args[0].op == "regexp" and isinstance(args[1], bytes) and not re.search(args[0].args[0].decode("latin1"), args[1].decode("latin1")):
                put(st, None); return "cont"
            put(st, fresh("match")); return "cont"
        return None

def main(rep):
    for tn, pk, _ in ENUMS:
        try: one(rep, tn, pk)
        except (Undecided, AnchorMissing) as e: rep.undec(tn, e)
    return ("Every declared value of each enumeration is propagated through its textual encoding and back; a symbolic value and a symbolic text are followed through all paths of the same functions.",
            "distinct names, decode(encode(v)) = v, nothing else encodes as or decodes to a declared value")

def one(rep, tn, pk):
    P = goprog.load(pk, inits=(), rep=rep)
    full = expand(tn); sh = tn.split(".")[-1]; where = pos(pk[0][2:])
    vals = {}
    for n, c in P.consts.items():
        t = c.get("t"); t = P.types[t]["s"] if isinstance(t, int) else t
        if t == full and n.rsplit(".", 1)[-1][0].isupper() and "Num" not in n.rsplit(".", 1)[-1][:3]:
            vals[n.rsplit(".", 1)[-1]] = int(c["v"])
    if not vals: rep.undec(sh, "no declared values found"); return
    byval = {}
    for n, v in vals.items(): byval.setdefault(v, n)
    for n, v in vals.items():
        rep.check(byval[v] == n, "%s:alias:%s" % (sh, n), "%s.%s and %s denote different values" % (sh, n, byval[v]), where)
    strf = "(%s).String" % full; mj = "(%s).MarshalJSON" % full; uj = "(*%s).UnmarshalJSON" % full
    names = {}
    if P.has(strf):
        for n, v in vals.items():
            try: rs = Engine(P, Pol()).run(strf, [v])
            except Undecided as e: rep.undec("%s.String(%s)" % (sh, n), e); continue
            s = set(r.vals[0] for r in rs if r.kind == "ret")
            if len(s) != 1 or not isinstance(list(s)[0], bytes): rep.undec("%s.String(%s)" % (sh, n), repr(s)[:100]); continue
            names[n] = list(s)[0]
        for n, s in names.items():
            others = [m for m in names if m != n and names[m] == s and vals[m] != vals[n]]
            rep.check(not others, "%s:name:%s" % (sh, n), "%s.%s prints a name of its own (%s%s)" % (sh, n, s.decode(), ", shared with " + others[0] if others else ""), where)
            rep.check(b"(" not in s and s.lower() != b"unknown", "%s:named:%s" % (sh, n), "%s.%s has a name" % (sh, n), where)
        # values outside
        v = sym("$v", ty=(8, False)); st = State()
        try:
            E = Engine(P, Pol()); st.facts = Facts()
            for x in vals.values(): st.facts.assume(mk_eq(v, x), False)
            for r in E.run(strf, [v], st):
                if r.kind != "ret": continue
                rep.check(not (isinstance(r.vals[0], bytes) and r.vals[0] in names.values()), "%s:other-name" % sh, "no value outside %s prints the name of a declared one (%r)" % (sh, r.vals[0]), pos(r.st.tags.get("retpos")))
        except Undecided as e: rep.undec(sh + ".String of other values", e)
    else: rep.undec(sh + ".String", "function not found")
    enc = {}
    if P.has(mj):
        for n, v in vals.items():
            try: rs = Engine(P, Pol()).run(mj, [v])
            except Undecided as e: rep.undec("%s.MarshalJSON(%s)" % (sh, n), e); continue
            out = set()
            for r in rs:
                if r.kind != "ret": out.add(("panic",)); continue
                a, e = r.vals
                if e is not None and not isinstance(e, T) or isinstance(e, (T,)) : out.add(("err",))
                elif isinstance(a, T) and a.op == "json": out.add(("ok", a.args[0]))
                else: out.add(("?", repr(a)))
            if len(out) != 1 or list(out)[0][0] == "?": rep.undec("%s.MarshalJSON(%s)" % (sh, n), repr(out)[:200]); continue
            o = list(out)[0]
            if not rep.check(o[0] == "ok", "%s:encode:%s" % (sh, n), "%s.%s can be encoded" % (sh, n), where): continue
            if isinstance(o[1], bytes): enc[n] = o[1]
            else: rep.undec("%s.MarshalJSON(%s)" % (sh, n), repr(o[1]))
        for n, s in enc.items():
            others = [m for m in enc if enc[m] == s and vals[m] != vals[n]]
            rep.check(not others, "%s:enc:%s" % (sh, n), "%s.%s has an encoding of its own (%s)" % (sh, n, s.decode()), where)
        v = sym("$v", ty=(8, False)); st = State()
        for x in vals.values(): st.facts.assume(mk_eq(v, x), False)
        try:
            for r in Engine(P, Pol()).run(mj, [v], st):
                if r.kind != "ret": continue
                a, e = r.vals
                if isinstance(a, T) and a.op == "json" and e is None:
                    rep.check(not (isinstance(a.args[0], bytes) and a.args[0] in enc.values()), "%s:enc-other" % sh, "no value outside %s is encoded like a declared one" % sh, pos(r.st.tags.get("retpos")))
                else: rep.ok("values outside %s are refused" % sh, pos(r.st.tags.get("retpos")))
        except Undecided as e: rep.undec(sh + ".MarshalJSON of other values", e)
    elif sh != "StorageStatus": rep.undec(sh + ".MarshalJSON", "function not found")
    if P.has(uj):
        def decode(text):
            pol = Pol(); pol.text = text; E = Engine(P, pol); st = State()
            p = Ptr(("target",), ()); old = fresh("old", ty=(8, False)); st.mem[("target",)] = {(): old}
            out = []
            for r in E.run(uj, [p, sym("$data")], st):
                if r.kind != "ret": out.append(("panic", None, r)); continue
                v = r.st.mem[("target",)].get(())
                out.append(("err" if r.vals[0] is not None else "ok", v if v is not old else None, r))
            return out
        for n, s in enc.items():
            try: o = decode(s)
            except Undecided as e: rep.undec("decoding %s" % s, e); continue
            if len(o) != 1 or (o[0][0] == "ok" and not isinstance(o[0][1], int)): rep.undec("decoding %s" % s.decode(), repr([x[:2] for x in o])[:200]); continue
            k, v, r = o[0]
            rep.check(k == "ok" and v == vals[n], "%s:decode:%s" % (sh, n), "decoding %r yields %s.%s (%s)" % (s.decode(), sh, n, v if k == "ok" else "an error"), pos(r.st.tags.get("retpos")) or where)
        # arbitrary texts
        try:
            for k, v, r in decode(TEXT):
                if k == "panic": rep.violation("%s:decode-panic" % sh, "decoding some text panics (%r)" % (r.vals,), pos(r.st.tags.get("panicpos"))); continue
                if k == "err":
                    rep.check(v is None or True, "%s:decode-err" % sh, "refusals leave nothing behind"); continue
                if r.st.tags.get("jsonerr"): rep.violation("%s:json-error" % sh, "accepts data that is no JSON string", pos(r.st.tags.get("retpos"))); continue
                pins = [a for a, b in r.st.facts.atoms.items() if b is True and isinstance(a, T) and a.op == "==" and any(isinstance(x, bytes) for x in a.args)]
                pin = None
                for a in pins:
                    c = [x for x in a.args if isinstance(x, bytes)][0]; o = [x for x in a.args if not isinstance(x, bytes)]
                    if o and (o[0] is TEXT or (isinstance(o[0], T) and o[0].op in ("lower", "upper") and o[0].args[0] is TEXT)): pin = c
                if pin is not None and isinstance(v, int):
                    dn = [n for n, s in (enc or names).items() if s.lower() == pin.lower()]
                    if not dn and v not in vals.values(): rep.ok("%r decodes to a value outside the enumeration" % pin); continue
                    if dn: rep.check(vals[dn[0]] == v, "%s:decode-as:%s" % (sh, pin.decode()), "%r decodes to the value that prints so" % pin.decode(), pos(r.st.tags.get("retpos")))
                    else: rep.violation("%s:decode-as:%s" % (sh, pin.decode()), "%r, which no value prints, decodes to %s" % (pin.decode(), byval.get(v, v)), pos(r.st.tags.get("retpos")))
                elif isinstance(v, int):
                    if pins or any(isinstance(a, T) and a.op == "==" and b for a, b in r.st.facts.atoms.items()): rep.undec("decoding of %s" % sh, "path condition not followed")
                    else: rep.violation("%s:decode-unknown" % sh, "an unknown text decodes to %s" % byval.get(v, v), pos(r.st.tags.get("retpos")))
                elif v is None: rep.violation("%s:decode-nothing" % sh, "a text is accepted without setting the value", pos(r.st.tags.get("retpos")))
                else: rep.ok("%s: other texts decode to a number they contain" % sh, pos(r.st.tags.get("retpos")))
        except Undecided as e: rep.undec(sh + ".UnmarshalJSON of other texts", e)
    elif sh != "StorageStatus": rep.undec(sh + ".UnmarshalJSON", "function not found")
    # the enumeration functions
    for fn in ("GetAllStorageStatuses", "GetAllKnownRevisions"):
        if (fn.endswith("Statuses")) != (sh == "StorageStatus") or sh not in ("StorageStatus", "Revision"): continue
        q = full.rsplit(".", 1)[0] + "." + fn
        if not P.has(q): rep.undec(fn, "function not found"); continue
        try:
            E = Engine(P); rs = E.run(q, [])
            s = rs[0].vals[0]
            if len(rs) != 1 or not isinstance(s, SliceV) or not isinstance(s.len, int): raise Undecided(repr(s))
            l = [E.load(rs[0].st, Ptr(s.o, s.p + (s.off + j,)), P.tindex[full]) for j in range(s.len)]
            if not all(isinstance(x, int) for x in l): raise Undecided(repr(l))
            rep.check(sorted(l) == sorted(set(vals.values())), fn, "%s lists every declared value once" % fn, where)
        except Undecided as e: rep.undec(fn, e)
