"""P32: frames are set up and their outcomes reported as specified."""
import flo
from flo import *
from p19 import quick_ok
ORDER = ("Call", "CallCode", "DelegateCall", "StaticCall", "Create", "Create2")
GAS = 10**6
class Pol(flo.WorldPolicy):
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        if name.endswith("crypto.CreateAddress") or name.endswith("crypto.CreateAddress2"):
            self.log(st, "mkaddr", [name.rsplit(".", 1)[1]] + [E.slterm(st, a) if isinstance(a, SliceV) else a for a in args], i)
            put(st, S("created")); return "cont"
        return flo.WorldPolicy.ext(self, E, st, fr, i, name, args, dst, work, put)
def walk(t, f, seen=None):
    """any sub-term satisfying f"""
    seen = set() if seen is None else seen
    if id(t) in seen: return False
    seen.add(id(t))
    if f(t): return True
    if isinstance(t, T): return any(walk(x, f, seen) for x in t.args)
    if isinstance(t, Agg): return any(walk(x, f, seen) for x in t.e)
    if isinstance(t, SliceV): return any(walk(x, f, seen) for x in (t.o, t.p, t.off, t.len))
    if isinstance(t, (tuple, list, frozenset)): return any(walk(x, f, seen) for x in t)
    return False
def agree(r, got, want):
    s = same(got, want)
    if s is True: return True
    if isinstance(got, SliceV) and isinstance(want, SliceV):
        if got == want: return True
        if got.off == want.off == 0 and got.p == want.p == ():
            o, p = got.o, want.o
            while isinstance(o, tuple) and o[0] == "sl" and isinstance(o[1], T) and o[1].op == "fn:bytes.Clone": return None
            if o == p: return same(got.len, want.len)
            if o[0] in ("h", "sl") and p[0] in ("h", "sl"): return False
        return None
    if isinstance(want, Agg) and isinstance(got, Agg) and len(got.e) == len(want.e):
        l = [agree(r, a, b) for a, b in zip(got.e, want.e)]
        return False if False in l else None if None in l else True
    if isinstance(got, (Agg, bool, int)) and isinstance(want, T) and want.op == "sym": return constvsname(got)
    if isinstance(want, Agg) and isinstance(got, Agg): return None
    try:
        n = 0
        for m in finmod.models(r.st.facts, 8):
            n += 1
            if m.ev(got) != m.ev(want): return False
        return True if n else None
    except Unk: return None
def constvsname(v):
    """a constant handed over instead of a named unknown"""
    return False if not isinstance(v, Agg) or all(isinstance(x, (int, bool)) or isinstance(x, Agg) and constvsname(x) is False for x in v.e) else None
def initcodehash(v):
    """is v the hash of the init code"""
    if walk(v, lambda t: isinstance(t, T) and t.op == "keccak256" and walk(t, lambda x: isinstance(x, tuple) and x == ("h", "input"))): return True
    if isinstance(v, T) and v.op in ("codehash", "sym") or isinstance(v, Agg) and all(isinstance(x, int) for x in v.e): return False
    return None
def main(rep):
    flo.install()
    try: F = flo.Flo(rep)
    except Missing as e:
        rep.undec("native processor", e); return "anchors not found", "-"
    for kind in ORDER:
        if kind not in F.kinds: rep.undec(kind, "no such call kind"); continue
        for rn in sorted(F.revs): one(rep, F, kind, rn)
    rep.assumptions += ["code addresses are distinct from sender and recipient and none is the state contract's (P33)", "addresses of creations are computed by go-ethereum", "go-ethereum's tables of precompiled contracts are those of their revision (London to Shanghai use Berlin's)"]
    return ("Path analysis (Go SSA abstract interpretation) of the processor's nested call from an opaque frame; what the interpreter or precompiled contract is given, what is written and what is returned is compared for valuations of depth, value, balance, nonces, gas, existence, and the outcome of the execution around every boundary of the rules.",
            "the interpreter receives exactly the call's kind, gas, addresses, input, value, the code and hash of the code address and the block and transaction parameters; precompiled contracts are selected by code address and revision; creations obey address, collision, nonce, size, prefix and deposit rules; unused gas, refund, output and success are returned as the rules demand")
def points(create):
    base = dict(depth=0, static=False, value=0, bal=100, rbal=7, exists=True, pgas=700, pok=True, has=False, err=False, ok=True, left=90000, nonce=3, cnonce=0, chash=0, outlen=10, first=0x60)
    out = [base]
    def alt(**k): out.append(dict(base, **k))
    for d in (1, 1023, 1024, 1025, 4000): alt(depth=d)
    for v, b in ((5, 100), (5, 5), (5, 4), (1, 0), (100, 99)): alt(value=v, bal=b); alt(value=v, bal=b, depth=1024)
    alt(static=True)
    for ok in (True, False):
        for l in (0, 1, GAS // 2, GAS): alt(ok=ok, left=l)
        alt(ok=ok, left=GAS, outlen=0); alt(ok=ok, left=GAS, outlen=40000); alt(ok=ok, left=GAS, value=5)
    alt(err=True)
    if not create:
        alt(exists=False); alt(exists=False, value=5); alt(exists=False, ok=False)
        for g in (0, 1, GAS - 1, GAS, GAS + 1, 2**31, 2**32 + 5, 2**63 - 1, 2**63, 2**64 - 700, 2**64 - 1): alt(has=True, pgas=g); alt(has=True, pgas=g, pok=False)
        alt(has=True, value=5); alt(has=True, value=5, bal=4); alt(has=True, exists=False); alt(has=True, pok=False, value=5)
    else:
        for n in (0, 1, 2**32, 2**64 - 2, 2**64 - 1): alt(nonce=n)
        for n in (1, 2): alt(cnonce=n)
        for h in ("empty", "other"): alt(chash=h)
        alt(cnonce=1, chash="empty")
        for n in (0, 1, 24575, 24576, 24577, 50000):
            for f in (0x60, 0xEF, 0xEE, 0xF0, 0xFE): alt(outlen=n, first=f, left=GAS * 10)
            for d in (-1, 0, 1): alt(outlen=n, left=max(0, 200 * n + d))
        alt(outlen=24577, ok=False); alt(outlen=5, first=0xEF, ok=False); alt(ok=False, left=3)
    return out
def one(rep, F, kind, rn):
    what = "%s frame (%s)" % (kind, rn); C = F.C; create = kind.startswith("Create")
    pol = Pol()
    D, ST = S("depth", I8), S("static")
    st = State(); flo.errglobals(F.P, st); E = Engine(F.P)
    for g, v in F.P.globals.items():
        if F.P.types[F.P.types[v["t"]].get("e", v["t"])]["s"] == expand("~tosca.Hash") and "empty" in g.lower(): st.mem[("g", g)] = {(): S("emptyhash")}
    addr = [S("sender"), S("created")] if create else [S("sender"), S("recipient"), S("codeaddress")]
    try:
        for i, a in enumerate(addr):
            for b in addr[i + 1:]: st.facts.assume(E.eq(st, a, b, None), False)
        for b in ("d100ec0000000000000000000000000000000000",):
            z = Agg("array", list(bytes.fromhex(b)), None)
            for a in addr: st.facts.assume(E.eq(st, a, z, None), False)
        rs, d = F.frame(kind, F.revs[rn], depth=D, static=ST, st=st, pol=pol)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    codeaddr = S("created") if create else d["Recipient"] if kind in ("Call", "StaticCall") else d["CodeAddress"]
    target = S("created") if create else d["Recipient"]
    berlin, london = F.revs[rn] >= F.revs["R09_Berlin"], F.revs[rn] >= F.revs["R10_London"]
    table = "PrecompiledContracts" + ("Cancun" if F.revs[rn] >= F.revs["R13_Cancun"] else "Berlin" if berlin else "Istanbul")
    rfl = C.fields("~tosca.CallResult"); pf = C.fields("~tosca.Parameters")
    und = None; bad = [False]; hits = {}
    def viol(key, text, r): rep.violation("%s:%s" % (key, kind), "%s: %s" % (what, text), where(F, r)); bad[0] = True
    pts = points(create); sv, rv, cv, nv = 5 << 96, 9 << 96, 11 << 96, 13 << 96; EMPTY = 0xE0 << 200
    for r in rs:
        rep.count("paths")
        if bad[0]: break
        if r.kind != "ret": und = "a path panics"; continue
        log = r.st.tags.get("log", ()); w = r.st.tags.get("w", ()); acts = [x[0] for x in log]
        # precompiled contracts: table and address
        has = [(t, v) for t, v in r.st.facts.order if isinstance(t, T) and t.op == "has"]
        other = any(isinstance(t, T) and t.op != "has" and "PrecompiledContracts" in repr(t) for t, v in r.st.facts.order)
        if other: und = "selection of precompiled contracts"; continue
        ran, pre = "run" in acts, "pgas" in acts or "prun" in acts
        for t, v in has:
            if "PrecompiledContracts" not in repr(t.args[0]): continue
            if not repr(t.args[0]).split("PrecompiledContracts")[1].startswith(table[len("PrecompiledContracts"):] + "'"): viol("table", "precompiled contracts are selected from %s" % repr(t.args[0])[-60:], r)
            elif not create and agree(r, t.args[2], codeaddr) is False: viol("selected", "precompiled contracts are selected by %r instead of the code address" % (t.args[2],), r)
        if bad[0]: break
        if ran and not create and not has: viol("unselected", "the interpreter runs although the code address may be a precompiled contract", r); break
        # hand-over to interpreter or precompiled contract
        if ran:
            ws = r.st.tags["runs"][0]; p = ws[0]
            code = d["Input"] if create else None
            if not isinstance(p, Agg): und = "parameters"; continue
            exp = dict(Kind=F.kinds[kind], Gas=d["Gas"], Recipient=target, Sender=d["Sender"], Value=d["Value"], BlockParameters=F.bp, TransactionParameters=F.tp)
            for f, x in exp.items():
                if f not in pf: continue
                a = agree(r, p.e[pf.index(f)], x)
                if a is False: viol("field:" + f, "the interpreter is given %s %r instead of %r" % (f, p.e[pf.index(f)], x), r); break
                if a is None: und = "%s handed over: %r" % (f, p.e[pf.index(f)])
            if bad[0]: break
            inp = p.e[pf.index("Input")]
            if create:
                z = inp is None or isinstance(inp, SliceV) and inp.len == 0
                if not z:
                    if isinstance(inp, SliceV): viol("field:Input", "the init code runs with call data %r" % (inp,), r); break
                    und = "call data %r" % (inp,)
            else:
                a = agree(r, inp, d["Input"])
                if a is False: viol("field:Input", "the interpreter is given the input %r" % (inp,), r); break
                if a is None: und = "input %r" % (inp,)
            cd = p.e[pf.index("Code")]
            if create: a = agree(r, cd, d["Input"])
            elif isinstance(cd, SliceV) and isinstance(cd.o, tuple) and cd.o[0] == "sl" and isinstance(cd.o[1], T) and cd.o[1].op == "code":
                a = agree(r, cd.o[1].args[1], codeaddr)
            else: a = None if not (isinstance(cd, SliceV) and cd.o[0] == "h") else False
            if a is False: viol("field:Code", "the interpreter is given the code %r" % (cd,), r); break
            if a is None: und = "code %r" % (cd,)
            ch = p.e[pf.index("CodeHash")]
            if isinstance(ch, Ptr):
                try: h = Engine(F.P).load(r.st, ch, F.P.typ(expand("~tosca.Hash")))
                except Exception: h = ch
                if create: a = initcodehash(h)
                elif isinstance(h, T) and h.op == "codehash": a = agree(r, h.args[1], codeaddr)
                else: a = initcodehash(h) and False
                if a is False: viol("field:CodeHash", "the interpreter is given the code hash %r" % (h,), r); break
                if a is None: und = "code hash %r" % (h,)
            if create:
                mk = [x for x in log if x[0] == "mkaddr"]
                if len(mk) != 1: und = "address of the creation"; continue
                a = mk[0][1]; bads = None
                if a[0] != ("CreateAddress2" if kind == "Create2" else "CreateAddress"): bads = "is computed by %s" % a[0]
                elif agree(r, a[1], d["Sender"]) is False: bads = "is derived from %r" % (a[1],)
                elif kind == "Create" and agree(r, a[2], T("nonce", 0, S("sender"), ty=U8)) is False: bads = "is derived from nonce %r" % (a[2],)
                elif kind == "Create2" and agree(r, a[2], d["Salt"]) is False: bads = "is derived from salt %r" % (a[2],)
                elif kind == "Create2" and initcodehash(a[3]) is False: bads = "is derived from code hash %r" % (a[3],)
                if bads: viol("address", "the address of the creation %s" % bads, r); break
                if kind == "Create2" and initcodehash(a[3]) is None: und = "code hash %r" % (a[3],)
                acc = [x for x in r.st.tags.get("acc", ()) if x[0] == "AccessAccount"]
                if berlin and not any(same(x[1], S("created")) is True for x in acc): viol("warm", "the created address does not become warm", r); break
                if not berlin and acc: viol("warm", "addresses become warm before Berlin", r); break
        for x in log:
            if x[0] in ("pgas", "prun"):
                if agree(r, x[1][1], d["Input"]) is False: viol("input", "the precompiled contract is given %r" % (x[1][1],), r); break
                if not walk(x[1][0], lambda t: isinstance(t, T) and t.op in ("lookup", "sym") or isinstance(t, tuple) and t[:1] == ("d",)): und = "precompiled contract %r" % (x[1][0],)
        if bad[0]: break
        # outcome
        v = r.vals[0]
        for p in pts:
            pt = {("sym", "'$sender'"): sv, ("sym", "'$recipient'"): rv, ("sym", "'$codeaddress'"): cv, ("sym", "'$created'"): nv, ("sym", "'$depth'"): p["depth"], ("sym", "'$static'"): p["static"], ("sym", "'$value'"): p["value"] << 0,
                  ("bal", "0", sv): p["bal"], ("bal", "0", rv): p["rbal"], ("bal", "0", nv): p["rbal"], ("sym", "'$gas'"): GAS, ("sym", "'$precompiled.gas'"): p["pgas"], ("sym", "'$precompiled.ok'"): p["pok"], ("sym", "'$run.err'"): p["err"], ("sym", "'$run.success'"): p["ok"],
                  ("sym", "'$run.gasleft'"): p["left"], ("sym", "'$run.refund'"): 33, ("sym", "'$len.out0'"): p["outlen"], ("sym", "'$len.pout'"): 9, ("nonce", "0", sv): p["nonce"], ("nonce", "0", nv): p["cnonce"], ("sym", "'$emptyhash'"): EMPTY,
                  ("codehash", "0", nv): {0: 0, "empty": EMPTY, "other": 77 << 100}[p["chash"]], ("init", repr(("h", "out0")), (0,)): p["first"]}
            m0 = flo_model(r.st.facts, pt)
            for t, b in r.st.facts.order:
                if isinstance(t, T) and t.op == "has": m0.v[akey(m0, t)] = p["has"]
                for x in exterms(t): m0.v[akey(m0, x)] = p["exists"] if agree(r, x.args[1], target) is not False else False if p["exists"] else True
            if finmod.holds(m0, r.st.facts.order, ()) is not None: continue
            want = expected(p, kind, create, berlin, london)
            args = show(p, create)
            hits[want[0]] = hits.get(want[0], 0) + 1; rep.count("valuations")
            try: msg = compare(m0, r, v, want, rfl, p, create, w, sv, nv, log)
            except Unk as e: und = "term %s" % e; continue
            if msg: viol("outcome:" + want[0], "%s: %s (%s)" % (want[0], msg, args), r); break
    if bad[0]: return
    need = {"depth", "executed", "failed execution", "interpreter error"} | ({"collision", "nonce exhausted", "too large", "no deposit", "balance"} | ({"0xEF"} if london else set()) if create else {"precompiled", "precompiled out of gas", "precompiled failed"} | ({"no account"} if kind == "Call" else set()) | ({"balance"} if kind in ("Call", "CallCode") else set()))
    if need - set(hits): und = und or "no path for %s" % ", ".join(sorted(need - set(hits)))
    if und: rep.undec(what, und)
    else: rep.ok("%s: hand-over and %d kinds of outcome" % (what, len(hits)), F.call)
def exterms(t):
    out = []
    walk(t, lambda x: out.append(x) is not None if isinstance(x, T) and x.op == "exists" else False)
    return out
def akey(m, t): return (t.op,) + tuple(repr(x) if not isinstance(x, (T, Agg)) else m.ev(x) for x in t.args)
class OM(flo.FM):
    def leaf(self, key, t):
        if key not in self.v: raise Unk("leaf %r" % (key[:2],))
        return self.v[key]
def flo_model(facts, pt):
    m = OM(None, facts); m.v = dict(pt); return m
def expected(p, kind, create, berlin, london):
    """(category, success, gas left, refund or None, output)"""
    if p["depth"] > 1024: return ("depth", False, GAS, None, None)
    pays = kind not in ("StaticCall", "DelegateCall")
    if create and p["nonce"] == 2**64 - 1: return ("nonce exhausted", False, GAS, None, None)
    if create and (p["cnonce"] or p["chash"] == "other"): return ("collision", False, 0, None, None)
    if pays and p["value"] > p["bal"]: return ("balance", False, GAS, None, None)
    if not create and p["has"]:
        if p["pgas"] > GAS: return ("precompiled out of gas", False, 0, None, None)
        if not p["pok"]: return ("precompiled failed", False, 0, None, None)
        return ("precompiled", True, GAS - p["pgas"], None, "pout")
    if kind == "Call" and not p["exists"]: return ("no account", True, GAS, None, None)
    if p["err"]: return ("interpreter error", None, None, None, None)
    if not p["ok"]: return ("failed execution", False, p["left"], None, "out0")
    if create:
        if p["outlen"] > 24576: return ("too large", False, 0, 0, None)
        if london and p["outlen"] > 0 and p["first"] == 0xEF: return ("0xEF", False, 0, 0, None)
        if p["left"] < 200 * p["outlen"]: return ("no deposit", False, 0, 0, None)
        return ("executed", True, p["left"] - 200 * p["outlen"], 33, "out0")
    return ("executed", True, p["left"], 33, "out0")
def show(p, create):
    s = "depth %d, value %d of %d" % (p["depth"], p["value"], p["bal"])
    if create: s += ", nonces %d and %d, %d bytes of code, %d gas left" % (p["nonce"], p["cnonce"], p["outlen"], p["left"])
    return s
def compare(m, r, v, want, rfl, p, create, w, sv, nv, log):
    cat, ok, left, refund, out = want
    e = same(r.vals[1], None)
    if cat == "interpreter error":
        return None if e is False else "the error is swallowed" if e is True else None
    if e is False: return "an error is reported"
    g = lambda n: v.e[rfl.index(n)]
    s = m.ev(g("Success"))
    if bool(s) != ok: return "reported as %s" % ("success" if s else "failure")
    gl = m.ev(g("GasLeft"))
    if gl != left: return "%d gas of %d is returned instead of %d" % (gl, GAS, left)
    rf = m.ev(g("GasRefund"))
    if refund is not None and rf != refund: return "a refund of %d is reported instead of %d" % (rf, refund)
    if refund is None and rf not in (0, 33): return "a refund of %d is reported" % rf
    o = g("Output")
    if out == "pout" or out == "out0":
        if o is None or isinstance(o, SliceV) and o.o[0] == "h" and o.o[1] != out: return "the output is %r" % (o,)
        if isinstance(o, SliceV) and (o.off != 0 or not isinstance(o.len, T) or o.len is not S("len." + out, I8)): return "only part of the output is returned: %r" % (o,)
    ran = "run" in [x[0] for x in log]
    if ran != (cat in ("executed", "failed execution", "too large", "0xEF", "no deposit")): return "the interpreter is %scalled" % ("" if ran else "not ")
    if create:
        nn = [x for x in w if x[0] == "nonce"]; mine = [x for x in nn if m.ev(x[1]) == sv]; theirs = [x for x in nn if m.ev(x[1]) == nv]
        if cat in ("nonce exhausted", "depth"):
            if nn: return "nonces are changed"
        elif cat != "balance":
            if not mine or m.ev(mine[-1][2]) != p["nonce"] + 1: return "the creator's nonce becomes %s" % (m.ev(mine[-1][2]) if mine else "unchanged")
        if ok:
            if not theirs or m.ev(theirs[-1][2]) != 1: return "the nonce of the created account is not set to 1"
            cs = [x for x in w if x[0] == "code"]
            if len(cs) != 1 or m.ev(cs[0][1]) != nv: return "the code is stored %d times" % len(cs)
            c = cs[0][2]
            if isinstance(c, SliceV) and (c.o != ("h", "out0") or c.off != 0 or c.len is not S("len.out0", I8)): return "the code stored is %r" % (c,)
            if m.ev(g("CreatedAddress")) != nv: return "the address reported is %r" % (g("CreatedAddress"),)
            k = [x[0] for x in w].index("run")
            if not any(x is theirs[0] for x in w[:k]) or not any(x is mine[0] for x in w[:k]): return "a nonce is set after the execution only"
    return None
