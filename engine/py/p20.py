"""P20: refund and gas-charge rules of the transaction processors."""
import flo, flotx
from flo import *
from p19 import quick_ok
def points(london, intr, small):
    out = []
    div = 5 if london else 2
    for zero in (False, True):
        for limit in (intr, intr + 1, intr + 10, intr + 999, 100007, 10**9 + 3):
            if limit < intr: continue
            av = limit - intr
            for gl in sorted({0, 1, 9, 10, 11, 19, av // 2, max(av - 1, 0), av}):
                if gl > av: continue
                rem = gl - (0 if zero else gl // 10); used = limit - rem; cap = used // div
                for rf in sorted({0, 1, max(cap - 1, 0), cap, cap + 1, used // 2, used // 2 + 1, used // 5 + 1, used + 5, limit}):
                    for ok in (True, False): out.append((zero, limit, gl, rf, ok))
    return out[::11] if small else out
def main(rep):
    flo.install()
    for pkg in ("floria", "opera"):
        try: X = flotx.Tx(rep, pkg)
        except (Missing, AnchorMissing, KeyError) as e: rep.undec("processor " + pkg, e); continue
        if pkg == "floria" and X.call is None: rep.undec("processor floria", "nested call entry"); continue
        for rn in sorted(X.revs):
            for create in (False, True): one(rep, X, pkg, rn, create)
    rep.assumptions += ["amount arithmetic is exact (P16)", "an execution returns no more gas than it was given", "the credited sum does not exceed 256 bits"]
    return ("Path analysis (Go SSA abstract interpretation) of the processors' Run with the nested call abstracted to an arbitrary outcome; receipt and credited amount of every path are evaluated as terms for valuations of gas limit, gas left, refund counter, outcome and sender around every boundary of the rules that satisfy the path condition.",
            "gas used is the limit less the remaining gas; remaining is the unused gas, less a tenth unless the sender is the zero address, plus on success the refund capped at half (before London) or a fifth (from London) of the gas used; the sender is credited price times remaining on top of the balance after the execution")
def one(rep, X, pkg, rn, create):
    what = "%s %s (%s)" % (pkg, "creation" if create else "call", rn); C = X.C
    try: rs, d = X.paths(rn, create, 0, None)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    rf = C.fields("~tosca.Receipt"); gi, si = rf.index("GasUsed"), rf.index("Success")
    london = X.revs[rn] >= X.revs["R10_London"]; intr = 53000 if create else 21000
    und = None; hits = {}; bad = False
    pts = points(london, intr, rep.tier != 'thorough' and X.revs[rn] not in (0, X.revs['R10_London'], max(X.revs.values())))
    for r in rs:
        rep.count("paths")
        if r.kind != "ret": und = "a path panics"; continue
        log = r.st.tags.get("log", ())
        if not any(x[0] == "call" for x in log): continue
        err = same(r.vals[1], None)
        if err is False: continue        # an error of the interpreter, not an outcome of the transaction
        v = r.vals[0]; w = r.st.tags.get("w", ()); after = w[[k for k, x in enumerate(w) if x[0] == "run"][-1] + 1:] if any(x[0] == "run" for x in w) else None
        if after is None or not isinstance(v, Agg): und = "effects of the call"; continue
        others = [x for x in after if x[0] != "bal"]
        credits = [x for x in after if x[0] == "bal"]
        pos = X.show(r.st.tags.get("retpos") or "") or X.run
        for zero, limit, gl, rfc, ok in pts:
            sv = 0 if zero else 5 << 96
            pt = {("sym", "'$sender'"): sv, ("sym", "'$limit'"): limit, ("sym", "'$run.gasleft'"): gl, ("sym", "'$run.refund'"): rfc, ("sym", "'$run.success'"): ok, ("sym", "'$price'"): 1000003, ("bal", "1", sv): 10**30 + 7, ("bal", "0", sv): 10**31,
                  ("nonce", "0", sv): 7, ("sym", "'$txnonce'"): 7, ("codehash", "0", sv): 0}
            if not quick_ok(r.st.facts, pt): continue
            try:
                for _, m in flo.grid(r.st.facts, [pt], tries=3):
                    hits[(ok, zero)] = hits.get((ok, zero), 0) + 1
                    rem = gl - (0 if zero else gl // 10)
                    if ok: rem += min(rfc, (limit - rem) // (5 if london else 2))
                    gu = m.ev(v.e[gi]); sc = m.ev(v.e[si]); bal = 10**30 + 7
                    args = "limit %d, %d gas left, refund counter %d, %s%s" % (limit, gl, rfc, "success" if ok else "failure", ", internal" if zero else "")
                    if gu != limit - rem: rep.violation("used:%s" % pkg, "%s: %s is billed %d gas instead of %d" % (what, args, gu, limit - rem), pos); bad = True; break
                    if bool(sc) != ok: rep.violation("success:%s" % pkg, "%s: %s is reported as %s" % (what, args, "success" if sc else "failure"), pos); bad = True; break
                    for x in credits:
                        if m.ev(x[1]) != sv: rep.violation("whom:%s" % pkg, "%s: %s credits %r" % (what, args, x[1]), pos); bad = True; break
                        bal = m.ev(x[2])
                    if bad: break
                    if bal != 10**30 + 7 + rem * 1000003: rep.violation("credit:%s" % pkg, "%s: %s credits the sender %d gas instead of %d" % (what, args, (bal - 10**30 - 7) // 1000003, rem), pos); bad = True; break
                if bad: break
            except Unk as e: und = "term %s" % e; break
            rep.count("valuations")
        if bad: break
    if bad: return
    missing = [k for k in ((True, True), (True, False), (False, True), (False, False)) if not hits.get(k)]
    if missing: und = und or "no valuation for %r" % (missing,)
    if und: rep.undec(what, und)
    else: rep.ok("%s: charge, refund and receipt follow the rules" % what, X.run)
