"""P33: the state contract changes exactly what its driver asks for, and nothing for anyone else."""
import json
import flo, gomodels
from flo import *
SC = bytes.fromhex("d100ec0000000000000000000000000000000000"); DRV = bytes.fromhex("d100a01e00000000000000000000000000000000")
SELS = {"setBalance": "e30443bc", "copyCode": "d6a0c7af", "swapCode": "07690b2a", "setStorage": "39e503ab", "incNonce": "79bead38"}
ARGS = {"setBalance": 64, "copyCode": 64, "swapCode": 64, "setStorage": 96, "incNonce": 64}
BASE = {"setBalance": 9000, "copyCode": 32000, "swapCode": 64000, "setStorage": 20000, "incNonce": 9000}
def arr(b): return Agg("array", list(b), None)
def top20(b): return int.from_bytes(b, "big") << 96
# --- Keccak-256, for the method identifiers -----------------------------------------
def keccak(data):
    rc = []; r = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1: v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        rc.append(v)
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & (2**64 - 1) if n else x
    s = [0] * 25; d = bytearray(data) + b"\x01"; d += bytes(-len(d) % 136); d[-1] |= 0x80
    for o in range(0, len(d), 136):
        for i in range(17): s[i] ^= int.from_bytes(d[o + 8 * i:o + 8 * i + 8], "little")
        for k in range(24):
            c = [s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20] for x in range(5)]
            t = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
            s = [s[i] ^ t[i % 5] for i in range(25)]
            x, y, cur = 1, 0, s[1]
            for q in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                s[x + 5 * y], cur = rol(cur, (q + 1) * (q + 2) // 2 % 64), s[x + 5 * y]
            s = [s[i] ^ (~s[i - i % 5 + (i + 1) % 5] & s[i - i % 5 + (i + 2) % 5]) for i in range(25)]
            s[0] ^= rc[k]
    return b"".join(x.to_bytes(8, "little") for x in s[:4])
class Pol(flo.WorldPolicy):
    strict = True  # slices and indices out of known bounds panic
    def __init__(self, C): self.C = C
    def seq(self, E, st, s):
        """the bytes of a slice whose position and length are known"""
        if not isinstance(s, SliceV) or not isinstance(s.len, int) or not isinstance(s.off, int): return None
        bt = E.P.tindex.get("byte", E.P.tindex.get("uint8"))
        return [E.load(st, Ptr(s.o, s.p + (s.off + k,)), bt) for k in range(s.len)]
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        m = name.rsplit(".", 1)[-1]
        if name.endswith("accounts/abi.JSON"): return self.abi(E, st, i, args, put)
        if name.endswith("common.BytesToAddress") or name.endswith("common.BytesToHash"):
            n = 20 if name.endswith("Address") else 32; b = self.seq(E, st, args[0])
            if b is not None: put(st, Agg("array", ([0] * n + b)[-n:], None)); return "cont"
        if name.startswith("(*math/big.Int).") or name == "math/big.NewInt":
            r = self.big(E, st, i, m, args, put)
            if r: return r
        if "core/vm.StateDB" in name: return self.db(E, st, fr, i, m, args, dst, work, put)
        return flo.WorldPolicy.ext(self, E, st, fr, i, name, args, dst, work, put)
    def call(self, E, st, fr, i, name, args, dst, work, put):
        if "accounts/abi.JSON" in name: return self.abi(E, st, i, args, put)
        return flo.WorldPolicy.call(self, E, st, fr, i, name, args, dst, work, put)
    def abi(self, E, st, i, args, put):
        txt = [x for a in args for x in deep(a) if isinstance(x, bytes)]
        if len(txt) != 1: return None
        P = E.P; tt = P.types[i["t"]]["ts"] if P.types[i["t"]]["k"] == "tuple" else [i["t"]]
        at = tt[0]; f = P.types[at]["f"]; k = [j for j, x in enumerate(f) if x["n"] == "Methods"][0]
        mt = P.types[f[k]["t"]]["e"]; o = ("h", "abi.methods"); cells = {("#complete",): True}
        for d in json.loads(txt[0].decode()):
            if d.get("type") != "function": continue
            sel = keccak(("%s(%s)" % (d["name"], ",".join(x["type"] for x in d["inputs"]))).encode())[:4]
            bo = ("h", "abi.id." + d["name"]); st.mem[bo] = {(j,): b for j, b in enumerate(sel)}
            cells[("#m", d["name"].encode())] = Agg("s", [SliceV(bo, (), 0, 4, 4) if x["n"] == "ID" else d["name"].encode() if x["n"] == "Name" else fresh("abi") for x in P.types[mt]["f"]], mt)
        st.mem[o] = cells
        v = Agg("s", [Ptr(o, ()) if j == k else fresh("abi") for j in range(len(f))], at)
        put(st, Agg("tuple", [v, None], None) if len(tt) > 1 else v); return "cont"
    def bigval(self, E, st, a):
        if isinstance(a, T) and "Big256" in repr(a): return 256
        if not isinstance(a, Ptr): return None
        if isinstance(a.o, tuple) and a.o[0] == "g" and "Big256" in str(a.o[1]): return 256
        return (st.mem.get(a.o) or {}).get(a.p + ("bigint",))
    def big(self, E, st, i, m, args, put):
        if m == "NewInt":
            p = E.alloc(st, "bigint", None); st.mem[p.o] = {("bigint",): args[0]}; put(st, p); return "cont"
        if m == "SetBytes" and isinstance(args[0], Ptr):
            b = self.seq(E, st, args[1])
            if b is None: return None
            st.mem[args[0].o] = {args[0].p + ("bigint",): T("u.frombytes", *b)}; put(st, args[0]); return "cont"
        v = [self.bigval(E, st, a) for a in args]
        if any(x is None for x in v): return None
        if m == "Cmp": t = T("bigcmp", *v, ty=I8); st.facts._narrow(t, -1, 1); put(st, t); return "cont"
        if m == "Sign": t = T("bigcmp", v[0], 0, ty=I8); st.facts._narrow(t, -1, 1); put(st, t); return "cont"
        if m == "IsUint64": put(st, T("bigfits", v[0], 64)); return "cont"
        if m == "IsInt64": put(st, T("bigfits", v[0], 63)); return "cont"
        if m == "Uint64": put(st, T("biglow", v[0], ty=U8)); return "cont"
        if m == "Int64": put(st, T("biglow", v[0], ty=I8)); return "cont"
        if m == "BitLen": put(st, T("bigbits", v[0], ty=I8)); return "cont"
        return None
    def db(self, E, st, fr, i, m, args, dst, work, put):
        w = st.tags.get("w", ()); a = args[1:]
        if m in ("AddBalance", "SubBalance"):
            st.tags["w"] = w + ((m, a[0], gomodels.uval(E, st, a[1])),); put(st, E.freshres(i, m)); return "cont"
        if m == "GetBalance":
            if any(x[0] in ("bal", "AddBalance", "SubBalance") for x in w): return None
            p = E.alloc(st, "bal", None); gomodels.uset(E, st, p, T("bal", 0, self.val(E, st, a[0]))); put(st, p); return "cont"
        if m == "SetState":
            st.tags["w"] = w + (("stor",) + tuple(a),); put(st, E.freshres(i, m)); return "cont"
        return self.world(E, st, fr, i, m, args, dst, work, put)
def deep(x):
    if isinstance(x, T): return [z for y in x.args for z in deep(y)]
    if isinstance(x, (tuple, list)): return [z for y in x for z in deep(y)]
    if isinstance(x, Agg): return [z for y in x.e for z in deep(y)]
    if isinstance(x, Iface): return deep(x.v)
    return [x]
class Mo(flo.FM):
    def leaf(self, key, t):
        if key[0] == "isnil" and isinstance(key[1], T) and key[1].op == "code": return self.ev(T("codelen", *key[1].args, ty=I8)) == 0
        return flo.FM.leaf(self, key, t)
def install():
    flo.install(); X = finmod.EXTRA
    X["bigcmp"] = lambda m, t: (lambda a, b: (a > b) - (a < b))(m.ev(t.args[0]), m.ev(t.args[1]))
    X["bigfits"] = lambda m, t: m.ev(t.args[0]) < 1 << t.args[1]
    X["biglow"] = lambda m, t: m.wr(m.ev(t.args[0]) & (2**64 - 1), t)
    X["bigbits"] = lambda m, t: m.ev(t.args[0]).bit_length()
# --- what the contract must do -------------------------------------------------------
A, B, O, OTHER = bytes([5] + [1] * 19), bytes([9] + [2] * 19), bytes([7] * 20), bytes([11] * 20)
def w32(n): return n.to_bytes(32, "big")
def pad(a): return bytes(12) + a
def expected(meth, data, sender, origin, gas, world):
    """(success, gas left, writes)"""
    if sender != DRV or meth is None or len(data) != ARGS[meth]: return False, 0, {}
    g = gas - BASE[meth]
    if g < 0: return False, 0, {}
    a, b = data[12:32], data[44:64]; v = int.from_bytes(data[32:64], "big")
    if meth == "setBalance":
        return (False, 0, {}) if a == origin else (True, g, {("bal", a): v})
    if meth == "incNonce":
        return (False, 0, {}) if a == origin or not 0 < v < 256 else (True, g, {("nonce", a): (world["nonce"] + v) % 2**64})
    if meth == "setStorage": return True, g, {("stor", a, data[32:64]): data[64:96]}
    la, lb = (world["code"][x] for x in (a, b))
    if meth == "copyCode":
        g -= lb * 203; wr = {("code", a): b}
    else: g -= (la * 203 + lb * 203) // 2; wr = {("code", a): b, ("code", b): a}
    if g < 0: return False, 0, {}
    return True, g, wr if a != b else {}
def points(meth, n, thorough):
    """(sender, origin, data, gas, world)"""
    out = []
    def add(data, sender=DRV, origin=O, bal=7, nonce=3, la=10, lb=33, gases=None):
        world = dict(bal=bal, nonce=nonce, code={})
        a, b = data[12:32], data[44:64]
        for x, l in ((b, lb), (a, la)): world["code"][x] = l
        ca, cb = world["code"].get(a, 0), world["code"].get(b, 0)
        if meth is None: bs = [0, 100000]
        else:
            bs = [0, BASE[meth], BASE[meth] + cb * 203, BASE[meth] + (ca * 203 + cb * 203) // 2, BASE[meth] + ca * 203, 10**9]
        for g in sorted({max(0, x + d) for x in bs for d in (-1, 0, 1)}): out.append((sender, origin, data, g, world))
    z = bytes(max(0, n))
    full = pad(A) + pad(B) + w32(77)
    d = (full + bytes(n))[:n]
    add(d); add(d, sender=OTHER); add(d, sender=SC); add(d, sender=SC, origin=SC); add(d, sender=A, origin=A); add(d, sender=OTHER, origin=OTHER)
    if meth is None or n != ARGS[meth]: return out
    if meth in ("copyCode", "swapCode"):
        for la, lb in ((0, 0), (0, 5), (5, 0), (1, 1), (1, 2), (24576, 3), (3, 24576), (100000, 100001)): add(d, la=la, lb=lb)
        add(pad(A) + pad(A), la=9, lb=9); add(pad(A) + pad(A), la=0, lb=0); add(d, origin=A); add(d, origin=B); add(pad(DRV) + pad(A))
        add(b"\xff" * 12 + A + b"\xee" * 12 + B)
    elif meth == "setStorage":
        for k, v in ((0, 0), (1, 2**256 - 1), (2**255, 1), (2**256 - 1, 0)): add(pad(A) + w32(k) + w32(v))
        add(d, origin=A); add(b"\xff" * 12 + A + w32(3) + w32(4))
    else:
        vals = [0, 1, 2, 5, 7, 254, 255, 256, 257, 2**32, 2**32 + 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**64 + 255, 2**128 + 9, 2**255, 2**256 - 1]
        for v in vals:
            for bal in (0, 7, v): add(pad(A) + w32(v), bal=bal)
            add(pad(A) + w32(v), origin=A); add(pad(DRV) + w32(v), origin=DRV); add(pad(A) + w32(v), sender=OTHER)
        add(b"\xff" * 12 + A + w32(9)); add(pad(A) + w32(9), nonce=2**63)
    return out
def main(rep):
    install(); assert keccak(b"setBalance(address,uint256)")[:4].hex() == SELS["setBalance"]
    rep.assumptions += ["the ABI parser derives method identifiers from the text of the interface", "amount and integer libraries are exact (P16)"]
    for pkg in ("floria", "opera"):
        try: U = (Floria if pkg == "floria" else Opera)(rep)
        except (Missing, AnchorMissing, Undecided, KeyError, IndexError) as e: rep.undec("state contract of " + pkg, repr(e)[:300]); continue
        for meth in list(SELS) + [None]:
            n0 = ARGS.get(meth, 64); lens = [n0, 0, n0 - 32, n0 - 1, n0 + 1, n0 + 32]
            if rep.tier == "thorough": lens += [1, 12, 31, 32, n0 - 33, n0 + 31, n0 + 64]
            for n in sorted(set(lens)): one(rep, U, pkg, meth, bytes.fromhex(SELS[meth]) if meth else b"\x12\x34\x56\x78", n)
            if meth is None:
                for k in range(4): one(rep, U, pkg, None, bytes.fromhex("e30443bc")[:k], 0)
        U.extra()
    return ("Path analysis (Go SSA abstract interpretation) of the state contract of both processors with opaque arguments, gas, balances, nonces and codes; the method identifiers are taken from the package initialiser. "
            "Outcome, gas left and state changes of every path are compared with the contract's specification for valuations around every boundary.",
            "only the driver may call it; each of the five methods charges its gas, checks the length of its arguments and changes exactly the named balance, code, storage slot or nonce; the origin's balance and nonce stay; every other call fails, costs all gas and changes nothing, as does any call in static mode")
class Floria:
    pkg = "floria"
    def __init__(self, rep):
        self.rep = rep; self.F = F = flo.Flo(rep); self.P = F.P; self.C = F.C; self.base = initstate(self.P, "~processor/floria", self.C)
        f = self.C.fields("~tosca.CallResult"); self.si, self.gi, self.oi = (f.index(x) for x in ("Success", "GasLeft", "Output")); self.ri = f.index("GasRefund") if "GasRefund" in f else None
        self.where = "go/processor/floria/state_contract.go"
    def run(self, sel, n, static=False, kind="Call", sender=None):
        st = self.base.copy(); E = Engine(self.P); data, st = inputs(self.P, st, sel, n)
        z = E.zero(self.P.typ(expand("~tosca.Value")))
        rs, d = self.F.frame(kind, self.F.revs["R10_London"], depth=3, static=static, st=st, pol=Pol(self.C), Recipient=arr(SC), CodeAddress=arr(SC), Value=z, Input=data, **({"Sender": sender} if sender else {}))
        return rs
    def leaves(self, sender, origin, gas): return {("sym", "'$sender'"): top20(sender), ("sym", "'$gas'"): gas}
    def outcome(self, r, m):
        v = r.vals[0]
        ok = m.ev(v.e[self.si]); err = same(r.vals[1], None)
        if err is not True: return None
        return bool(ok), m.ev(v.e[self.gi]), v.e[self.oi]
    def pos(self, r): return self.F.show(r.st.tags.get("retpos") or "") or self.where
    def extra(self):
        """static mode"""
        for meth in SELS:
            for kind, static in (("StaticCall", False), ("StaticCall", True), ("Call", True)):
                what = "floria %s (%s%s)" % (meth, kind, " in static mode" if static else "")
                try: rs = self.run(bytes.fromhex(SELS[meth]), ARGS[meth], static, kind, sender=arr(DRV))
                except (Undecided, AnchorMissing) as e: self.rep.undec(what, e); continue
                bad = und = None
                for r in rs:
                    if r.kind != "ret": und = "a path panics"; continue
                    w = [x for x in r.st.tags.get("w", ())]
                    if w: bad = ("changes the state (%s)" % flo.ops(w), self.pos(r)); break
                    if any(x is not False for _, x in succ(self, r)): bad = ("reports success", self.pos(r)); break
                if bad: self.rep.violation("static:%s" % kind, "%s %s" % (what, bad[0]), bad[1])
                elif und: self.rep.undec(what, und)
                else: self.rep.ok(what, self.where)
def succ(U, r):
    flo.SUCC[0] = U.si; return success(r)
class Opera:
    pkg = "opera"
    def __init__(self, rep):
        self.rep = rep; self.P = goprog.load(["./go/processor/opera"], inits=("tosca",), rep=rep); self.C = Chk(rep, self.P)
        P = self.P; self.where = "go/processor/opera/processor.go"
        self.base = initstate(P, "~processor/opera", self.C)
        c = [n for n in P.fns if n.endswith(".Run") and expand("~processor/opera") in n and any(P.types[p["t"]]["s"].endswith("vm.StateDB") for p in P.fns[n]["params"]) and P.fns[n]["blocks"] and not n.startswith("(*")]
        c = c or [n for n in P.fns if n.endswith(".Run") and expand("~processor/opera") in n and any(P.types[p["t"]]["s"].endswith("vm.StateDB") for p in P.fns[n]["params"]) and P.fns[n]["blocks"]]
        if len(c) != 1: raise Missing("state contract of opera: %r" % (c,))
        self.fn = c[0]
    def run(self, sel, n):
        P = self.P; st = self.base.copy(); data, st = inputs(P, st, sel, n); E = Engine(P, Pol(self.C), max_paths=4000, max_seconds=60); args = []
        g = S("gas", U8); st.facts._narrow(g, 0, 1 << 62); nb = [0]
        for k, p in enumerate(P.fns[self.fn]["params"]):
            t = P.types[p["t"]]; s = t["s"]
            if s.endswith("vm.StateDB"): args.append(T("uniq", "db"))
            elif s.endswith("vm.TxContext"): args.append(Agg("s", [S("origin") if f["n"] == "Origin" else fresh("txctx") for f in t["f"]], p["t"]))
            elif s.endswith("common.Address"): args.append(S("sender"))
            elif s == "[]byte": args.append(data)
            elif s == "uint64": args.append(g)
            else: args.append(E.zero(p["t"]))
        return E.run(self.fn, args, st)
    def leaves(self, sender, origin, gas): return {("sym", "'$sender'"): top20(sender), ("sym", "'$origin'"): top20(origin), ("sym", "'$gas'"): gas}
    def outcome(self, r, m):
        err = same(r.vals[2], None)
        if err is None: return None
        return err is True, m.ev(r.vals[1]), r.vals[0]
    def pos(self, r): return (r.st.tags.get("retpos") or self.where).replace(common.REPO + "/", "")
    def extra(self): pass
def initstate(P, pkg, C):
    """the package level variables after initialisation"""
    nm = expand(pkg) + ".init"
    if nm not in P.fns: raise Missing("initialiser of " + pkg)
    class IP(Pol):
        def call(self, E, st, fr, i, name, args, dst, work, put):
            if name.endswith(".init") and name != nm: put(st, None); return "cont"
            return Pol.call(self, E, st, fr, i, name, args, dst, work, put)
    st = State(); st.mem[("g", expand(pkg) + ".init$guard")] = {(): False}
    rs = Engine(P, IP(C), max_paths=50, max_seconds=60).run(nm, [], st)
    ok = [r for r in rs if r.kind == "ret"]
    if len(ok) != 1: raise Missing("initialisation of %s has %d outcomes" % (pkg, len(ok)))
    n = State(); n.mem = ok[0].st.mem
    flo.errglobals(P, n)
    return n
def inputs(P, st, sel, n):
    bt = P.tindex.get("byte", P.tindex.get("uint8")); E = Engine(P); N = len(sel) + n
    for k, b in enumerate(sel): E.store(st, Ptr(("h", "input"), (k,)), b, bt)
    for k in range(n): E.store(st, Ptr(("h", "input"), (len(sel) + k,)), S("in%d" % k, (1, True)), bt)
    return SliceV(("h", "input"), (), 0, N, N), st
def evcode(m, v):
    """(address whose initial code this is, or None for empty code)"""
    if v is None: return None, 0
    if not isinstance(v, SliceV): raise Unk("code %r" % (v,))
    n = m.ev(v.len)
    if n == 0: return None, 0
    if isinstance(v.o, tuple) and v.o[0] == "sl" and isinstance(v.o[1], T):
        t = v.o[1]
        while t.op == "fn:bytes.Clone" and False: pass
        if t.op == "code" and v.off == 0: return m.ev(t.args[1]), n
    raise Unk("code %r" % (v,))
def effects(m, w, world):
    bal = {}; out = {}
    def ad(x): return (m.ev(x) >> 96).to_bytes(20, "big")
    for x in w:
        a = ad(x[1])
        if x[0] == "bal": out[("bal", a)] = m.ev(x[2])
        elif x[0] in ("AddBalance", "SubBalance"):
            cur = out.get(("bal", a), world["bal"]); d = m.ev(x[2])
            out[("bal", a)] = (cur + d if x[0] == "AddBalance" else cur - d) % 2**256
        elif x[0] == "nonce": out[("nonce", a)] = m.ev(x[2])
        elif x[0] == "stor": out[("stor", a, w32(m.ev(x[2])))] = w32(m.ev(x[3]))
        elif x[0] == "code":
            src, n = evcode(m, x[2]); out[("code", a)] = None if n == 0 else ((src >> 96).to_bytes(20, "big"), n)
        else: out[x[0]] = True
    for k in list(out):
        if k[0] == "bal" and out[k] == world["bal"] or k[0] == "nonce" and out[k] == world["nonce"]: del out[k]
        elif k[0] == "code" and (out[k] is None and world["code"].get(k[1]) == 0 or out[k] == (k[1], world["code"].get(k[1]))): del out[k]
    return out
def norm(wr, world):
    out = {}
    for k, v in wr.items():
        if k[0] == "code":
            n = world["code"][v]
            if n == 0 and world["code"][k[1]] == 0: continue
            out[k] = None if n == 0 else (v, n)
        elif k[0] == "bal" and v == world["bal"]: continue
        else: out[k] = v
    return out
def one(rep, U, pkg, meth, sel, n):
    name = meth or ("short input" if len(sel) < 4 else "unknown method"); what = "%s %s with %d bytes of arguments" % (pkg, name, n)
    try: rs = U.run(sel, n)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    import random
    rnd = random.Random(5); und = None; bad = {}; hit = 0; miss = 0
    for sender, origin, data, gas, world in points(meth, n, rep.tier == "thorough"):
        full = {("sym", "'$in%d'" % k): b for k, b in enumerate(data)}
        full.update(U.leaves(sender, origin, gas))
        accs = set(world["code"]) | {data[12:32], data[44:64], sender, origin}
        for a in accs:
            if len(a) != 20: continue
            t = top20(a); full[("bal", "0", t)] = world["bal"]; full[("nonce", "0", t)] = world["nonce"]; full[("codelen", "0", t)] = world["code"].get(a, 0)
            full[("bal", 0, t)] = world["bal"]; full[("nonce", 0, t)] = world["nonce"]; full[("codelen", 0, t)] = world["code"].get(a, 0)
        got = 0
        for r in rs:
            m = Mo(rnd, r.st.facts); m.v.update(full)
            finmod.seedleaves(m, r.st.facts.order)
            m.v.update(full); m.memo.clear()
            try:
                if not all(bool(m.ev(a)) == bool(v) for a, v in r.st.facts.order): continue
            except Unk as e: und = "condition %s" % e; continue
            got += 1
            rep.count("comparisons")
            if r.kind != "ret":
                key = "panic"; bad.setdefault(key, ("panics", U.pos(r) if not r.st.tags.get("panicpos") else r.st.tags["panicpos"].replace(common.REPO + "/", ""), what)); continue
            try:
                o = U.outcome(r, m)
                if o is None: und = "outcome"; continue
                eff = effects(m, r.st.tags.get("w", ()), world)
            except Unk as e: und = "term %s" % e; continue
            ok, left, wr = expected(meth, data, sender, origin, gas, world); wr = norm(wr, world)
            a = data[12:32]
            desc = "sender %s, origin %s, arguments %s, gas %d, code lengths %s, balance %d, nonce %d" % (nm(sender), nm(origin), data.hex()[:200], gas, {nm(k): v for k, v in world["code"].items()}, world["bal"], world["nonce"])
            special = meth in ("setBalance", "incNonce") and len(data) == ARGS[meth] and (a == origin or a == sender) and sender == DRV
            c = None
            if o[0] != ok: c = "outcome", "%s where the specification demands %s" % (("fails", "succeeds")[o[0]], ("failure", "success")[ok])
            elif o[1] != left: c = "gas", "leaves %d gas, the specification says %d" % (o[1], left)
            elif eff != wr: c = "state", "changes %s where the specification says %s" % (show(eff), show(wr))
            elif ok and not (o[2] is None or isinstance(o[2], SliceV) and m.ev(o[2].len) == 0): c = "output", "returns data"
            if c is None: continue
            if special and pkg == "floria" and c[0] in ("outcome", "gas", "state"):
                # the protected account: origin in the specification
                if a == sender and a != origin and not o[0] and not eff: bad.setdefault("origin", ("%s: protects its sender in place of the transaction's origin (%s)" % (name, desc), U.pos(r), what)); continue
                if a == origin and a != sender and o[0]: bad.setdefault("origin", ("%s: protects its sender in place of the transaction's origin (%s)" % (name, desc), U.pos(r), what)); continue
            bad.setdefault(c[0], ("%s: %s (%s)" % (what, c[1], desc), U.pos(r), what))
        hit += got > 0; miss += got == 0
    if bad:
        for k, (txt, pos, w_) in sorted(bad.items()): rep.violation("%s:%s:%s" % (pkg, name.replace(" ", "-"), k), txt, pos)
    elif und: rep.undec(what, und)
    elif not hit or miss > hit: rep.undec(what, "%d valuations follow no path" % miss)
    else: rep.ok(what, U.where)
def nm(a): return {A: "A", B: "B", O: "O", OTHER: "X", DRV: "the driver", SC: "the state contract"}.get(a, a.hex())
def show(d):
    def s(x): return nm(x) if isinstance(x, bytes) and len(x) == 20 else "0x" + x.hex() if isinstance(x, bytes) else str(x) if not isinstance(x, tuple) else "code of %s" % nm(x[0])
    return ", ".join("%s of %s to %s" % (k[0], "/".join(s(x) for x in k[1:]), s(v)) if isinstance(k, tuple) else str(k) for k, v in d.items()) or "nothing"
