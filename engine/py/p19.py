"""P19: value transfers neither create nor destroy balance."""
import flo
from flo import *
STATE = bytes.fromhex("d100ec0000000000000000000000000000000000")
X = [0, 1, 2, 99, 100, 101, 1 << 64, (1 << 64) - 1, 1 << 128, 1 << 255, (1 << 255) - 1, M - 1, M]
def points():
    """(value, balance of the sender, balance of the recipient, same account)"""
    out = []
    for v in (0, 1, 100, 1 << 64, 1 << 255, M):
        for b in sorted({v, max(v - 1, 0), min(v + 1, M), 0, M, 1 << 200}):
            for c in sorted({0, M - v, min(M, M - v + 1), max(0, M - v - 1), 7, M, v}):
                out.append((v, b, c, False))
            out.append((v, b, b, True))
    return out
def main(rep):
    flo.install()
    try: F = Flo(rep)
    except Missing as e:
        rep.undec("native processor", e); return "anchors not found", "-"
    flo.SUCC[0] = F.C.fields("~tosca.CallResult").index("Success")
    revs = ["R10_London"] if rep.tier != "thorough" else sorted(F.revs)
    for kind in sorted(F.kinds):
        for rn in revs: one(rep, F, kind, rn)
    rep.assumptions += ["amount addition, subtraction and comparison are exact (P16)"]
    return ("Path analysis (Go SSA abstract interpretation) of the processor's nested call: on every path the balances written are evaluated as terms over the balances read, for valuations of value and balances around every boundary (equal, one off, overflowing) that satisfy the path condition.",
            "the balances written are those of an exact transfer from sender to recipient if the sender's balance suffices and the recipient's does not overflow, else nothing is executed and the outcome is a failure; DELEGATECALL and STATICCALL move nothing; no other account's balance is written")
def one(rep, F, kind, rn):
    what = "%s (%s)" % (kind, rn); create = kind.startswith("Create")
    try:
        st = State(); flo.errglobals(F.P, st)
        for n in ("recipient",):
            st.facts.assume(T("==", S(n), T("aggv", Agg("array", list(STATE), None))), False)
        rs, d = F.frame(kind, F.revs[rn], depth=3, st=st)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    moves = kind in ("Call", "CallCode", "Create", "Create2")
    und = None; bad = False; hit = 0; cover = {"done": 0, "rejected": 0, "overflow": 0, "self": 0}
    for r in rs:
        rep.count("paths")
        if r.kind != "ret": und = "a path panics"; continue
        log = r.st.tags.get("log", ()); bw = [x for x in log if x[0] == "SetBalance"]
        if not moves:
            if bw: rep.violation("moves:" + kind, "%s: writes a balance" % what, F.show(bw[0][2])); bad = True
            continue
        acts = [x for x in log if x[0] in ("run", "prun", "pgas")]
        if not bw and not acts and not any(x[0] == "GetBalance" for x in log):
            # rejected before the transfer is considered: no business of this property
            if all(s is False for _, s in success(r)): continue
        rcp = d["Recipient"]
        if create:
            cr = [t for x in log if x[0] in ("SetNonce",) for t in x[1] if isinstance(t, T) and t.op == "created"]
            if cr: rcp = cr[0]
        try:
            pts = []
            for v, b, c, s_ in points():
                sa, ra = (5 << 96), (5 << 96 if s_ else 9 << 96)
                pt = {("sym", "'$value'"): v, ("sym", "'$sender'"): sa}
                pt[("bal", "0", sa)] = b
                if create:
                    if s_: continue
                    pt[("bal", "0", "R")] = c
                else: pt[("sym", "'$recipient'")] = ra; pt[("bal", "0", ra)] = c if not s_ else b
                pts.append((pt, (v, b, c, s_)))
            for pt, (v, b, c, s_) in pts:
                pt = dict(pt)
                if ("bal", "0", "R") in pt:
                    c_ = pt.pop(("bal", "0", "R")); ra = 77 << 96
                    pt[_crkey(rcp)] = ra; pt[("bal", "0", ra)] = c_
                if not quick_ok(r.st.facts, pt): continue
                for _, m in flo.grid(r.st.facts, [pt], tries=4):
                    hit += 1
                    S0, R0 = m.ev(S("sender")), m.ev(rcp)
                    bal = {S0: m.leaf(("bal", "0", S0), None), R0: m.leaf(("bal", "0", R0), None)}
                    b0 = dict(bal)
                    okay = b >= v and (S0 == R0 or v == 0 or b0[R0] + v <= M)
                    want = dict(b0)
                    if okay and S0 != R0: want[S0] -= v; want[R0] += v
                    other = None
                    for x in bw:
                        a = m.ev(x[1][0])
                        if a not in bal: other = x; break
                        bal[a] = m.ev(x[1][1])
                    if other is not None:
                        rep.violation("third:" + kind, "%s: writes the balance of %r" % (what, other[1][0]), F.show(other[2])); bad = True; break
                    sc = [s for _, s in success(r)]
                    if okay:
                        cover["self" if S0 == R0 else "done"] += 1
                        if bal != want and (bw or acts or any(s is not False for s in sc)):
                            rep.violation("amount:" + kind, "%s: transferring %d from balance %d to balance %d%s leaves %s" % (what, v, b0[S0], b0[R0], " (same account)" if S0 == R0 else "", sorted(bal.values())), F.show(bw[0][2]) if bw else where(F, r)); bad = True; break
                        if not bw and not acts and all(s is False for s in sc) and v != 0 and S0 != R0:
                            rep.violation("refused:" + kind, "%s: transferring %d from balance %d to balance %d is refused" % (what, v, b0[S0], b0[R0]), where(F, r)); bad = True; break
                    else:
                        cover["overflow" if b >= v else "rejected"] += 1
                        if bal != b0:
                            rep.violation("partial:" + kind, "%s: an impossible transfer of %d from balance %d to balance %d changes balances" % (what, v, b0[S0], b0[R0]), F.show(bw[0][2])); bad = True; break
                        if acts or any(s is not False for s in sc):
                            rep.violation("impossible:" + kind, "%s: an impossible transfer of %d from balance %d to balance %d is not refused" % (what, v, b0[S0], b0[R0]), where(F, r)); bad = True; break
                if bad: break
        except Unk as e: und = "term %s" % e
        if bad: break
    rep.count("valuations", hit)
    if bad: return
    if moves and not (cover["done"] and cover["rejected"] and cover["overflow"] and (create or cover["self"])): und = und or "no path for some of the cases %r" % cover
    if und: rep.undec(what, und)
    else: rep.ok("%s: %s" % (what, "transfers exactly the value or refuses" if moves else "moves no balance"), F.call)
def _crkey(t): return ("createdaddr", t)
class PM(FM):
    """only the leaves of the point are known"""
    def leaf(self, key, t):
        if key not in self.v: raise Unk("leaf")
        return self.v[key]
def quick_ok(facts, pt):
    m = PM(None, facts); m.v = pt
    return finmod.holds(m, facts.order, ()) is None
