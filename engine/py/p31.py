"""P31: transactions are admitted, charged and set up as specified before they are executed."""
import flo, flotx
from flo import *
from p19 import quick_ok
from p32 import constvsname
EMPTY = 0xE0 << 200
def intrinsic(create, inp, al):
    g = 53000 if create else 21000
    g += sum(16 if b else 4 for b in inp)
    if al is not None: g += 2400 * len(al) + 1900 * sum(al)
    return g
def points(intr, maxnonce):
    base = dict(tn=7, sn=7, ch=0, price=1000, limit=intr + 5, dbal=0)
    out = [base]
    def alt(**kw): out.append(dict(base, **kw))
    for tn, sn in ((6, 7), (8, 7), (0, 7), (0, 0), (2**64 - 2, 2**64 - 2)): alt(tn=tn, sn=sn)
    if maxnonce: alt(tn=2**64 - 1, sn=2**64 - 1)
    for ch in (EMPTY, 3 << 100, 1): alt(ch=ch)
    for p in (0, 1, 1 << 100, 1 << 250, (1 << 256) - 1): alt(price=p); alt(price=p, limit=intr - 1)
    for p, l in ((1 << 255, (intr + 6) & ~1), ((1 << 256) // (intr + 9) + 1, intr + 9), (1 << 248, (intr + 511) & ~255)): alt(price=p, limit=l)
    for l in (0, intr - 1, intr, intr + 1, intr + 10**6): alt(limit=l); alt(limit=l, price=0)
    for d in (-1, 1, 10**18): alt(dbal=d); alt(dbal=d, ch=EMPTY)
    alt(dbal=-1, limit=intr - 1); alt(tn=6, limit=intr - 1); alt(ch=9, tn=6)
    return out
def main(rep):
    flo.install()
    for pkg in ("floria", "opera"):
        try: X = flotx.Tx(rep, pkg)
        except (Missing, AnchorMissing, KeyError) as e: rep.undec("processor " + pkg, e); continue
        if pkg == "floria" and X.call is None: rep.undec("processor floria", "nested call entry"); continue
        newest = max(X.revs, key=X.revs.get)
        jobs = [("R10_London", c, i, a) for c in (False, True) for i, a in (((), None), ((0,), None), ((1, 0), []), ((), [1, 0, 2]), ((5,), [0]))]
        jobs += [(rn, c, (), a) for rn in sorted(X.revs) for c in (False, True) for a in (None, [1])]
        for rn, c, i, a in jobs: one(rep, X, pkg, rn, c, i, a)
        if pkg == "floria":
            for rn in sorted(X.revs): initcode(rep, X, rn)
    rep.assumptions += ["amount arithmetic is exact (P16)", "go-ethereum's EVM increments the sender's nonce for creations"]
    return ("Path analysis (Go SSA abstract interpretation) of the processors' Run with the nested call abstracted to an arbitrary outcome; which paths are taken, what is written before the nested call and what it is given is evaluated for valuations of nonces, code hash, balance, price and gas limit around every boundary of the rules.",
            "a transaction is executed only if the nonce matches, the sender has no code, the balance covers limit times price and the limit covers the intrinsic gas; a rejected one changes nothing; an executed one is charged limit times price once, its nonce is increased once and its call receives the limit less the intrinsic gas and the transaction's fields")
def writes(w): return [x for x in w if x[0] != "run"]
def one(rep, X, pkg, rn, create, inp, al):
    what = "%s %s (%s%s%s)" % (pkg, "creation" if create else "call", rn, ", %d input bytes" % len(inp) if inp else "", ", %d access list entries" % len(al) if al is not None else "")
    C = X.C
    try: rs, d = X.paths(rn, create, len(inp), al)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    rfl = C.fields("~tosca.Receipt"); pf = C.fields("~tosca.CallParameters"); gi, si = rfl.index("GasUsed"), rfl.index("Success")
    und = None; hits = {"run": 0, "rejected": 0, "unpaid": 0}; bad = False; others = 0; ran = 0
    intr = intrinsic(create, inp, al); sv = 5 << 96
    def viol(key, text, pos):
        nonlocal bad
        rep.violation("%s:%s" % (key, pkg), "%s: %s" % (what, text), pos); bad = True
    for r in rs:
        rep.count("paths")
        if r.kind != "ret": und = "a path panics"; continue
        log = r.st.tags.get("log", ()); v = r.vals[0]; w = r.st.tags.get("w", ())
        calls = [x for x in log if x[0] == "call"]; pos = X.show(r.st.tags.get("retpos") or "") or X.run
        for p in points(intr, pkg == "floria"):
            cost = p["limit"] * p["price"]
            if p["limit"] < 0: continue
            bal = min(max(0, cost + p["dbal"]), M) if cost <= M else 10**20
            pt = {("sym", "'$sender'"): sv, ("sym", "'$limit'"): p["limit"], ("sym", "'$price'"): p["price"], ("sym", "'$txnonce'"): p["tn"], ("nonce", "0", sv): p["sn"], ("codehash", "0", sv): p["ch"],
                  ("bal", "0", sv): bal, ("sym", "'$emptyhash'"): EMPTY}
            for k, b in enumerate(inp): pt[("sym", "'$in%d'" % k)] = b
            if not quick_ok(r.st.facts, pt): continue
            valid = p["tn"] == p["sn"] and p["sn"] != 2**64 - 1 and p["ch"] in (0, EMPTY) and cost <= M and bal >= cost
            args = "nonce %d (account: %d), code hash %s, price %d, limit %d, balance %s" % (p["tn"], p["sn"], "none" if p["ch"] == 0 else "of empty code" if p["ch"] == EMPTY else "of code", p["price"], p["limit"], bal if cost <= M else "below the cost")
            try:
                m = None
                for _, m in flo.grid(r.st.facts, [pt], tries=3): break
                else: continue
                rep.count("valuations")
                if not valid:
                    hits["rejected"] += 1
                    if calls: viol("invalid", "a transaction that must be rejected is executed (%s)" % args, pos); break
                    if writes(w): viol("rejected-writes", "a rejected transaction changes the state: %s (%s)" % (ops(w), args), pos); break
                    if m.ev(v.e[gi]) != 0 or m.ev(v.e[si]): viol("rejected-receipt", "a rejected transaction yields a receipt with %d gas used (%s)" % (m.ev(v.e[gi]), args), pos); break
                    continue
                fw = r.st.tags.get("callw") if calls else w
                b = [x for x in fw if x[0] == "bal"]; paid = bal
                if len(b) > 1 or (cost and not b): viol("charge", "the sender is charged %d times (%s)" % (len(b), args), pos); break
                if b:
                    if m.ev(b[0][1]) != sv: viol("charge", "%r is charged" % (b[0][1],), pos); break
                    paid = m.ev(b[0][2])
                if paid != bal - cost: viol("charge", "the sender is charged %d instead of %d (%s)" % (bal - paid, cost, args), pos); break
                if p["limit"] < intr:
                    hits["unpaid"] += 1
                    if calls: viol("intrinsic", "a transaction whose limit is below its intrinsic gas %d is executed (%s)" % (intr, args), pos); break
                    if len(writes(w)) > len(b): viol("intrinsic", "a transaction below its intrinsic gas changes the state: %s" % ops(w), pos); break
                    if m.ev(v.e[gi]) != p["limit"] or m.ev(v.e[si]): viol("intrinsic-receipt", "a transaction below its intrinsic gas is billed %d of %d gas" % (m.ev(v.e[gi]), p["limit"]), pos); break
                    continue
                hits["run"] += 1
                if not calls: viol("refused", "a valid transaction is not executed (%s)" % args, pos); break
                if len(calls) != 1: viol("twice", "a transaction is executed %d times" % len(calls), pos); break
                nn = [x for x in fw if x[0] == "nonce"]
                if create and nn and pkg == "floria" or not create and len(nn) != 1: viol("nonce", "the sender's nonce is increased %d times before the execution" % len(nn), pos); break
                if nn and (m.ev(nn[0][1]) != sv or m.ev(nn[0][2]) != p["sn"] + 1): viol("nonce", "the nonce of %r becomes %r" % (nn[0][1], nn[0][2]), pos); break
                if [x for x in fw if x[0] not in ("bal", "nonce")]: viol("extra", "the state is changed before the execution: %s" % ops(fw), pos); break
                a = calls[0][1]
                if a[0] == "native":
                    kind, cp = a[2], a[3]; g = m.ev(cp.e[pf.index("Gas")])
                    want = C.enum(expand("~tosca.CallKind"))["Create" if create else "Call"]
                    if kind != want: viol("kind", "it is executed as call kind %r" % (kind,), pos); break
                    exp = dict(Sender=d["sender"], Value=S("value"), Input=d["data"])
                    if not create: exp["Recipient"] = S("recipient")
                    for f, x in exp.items():
                        sm = same(cp.e[pf.index(f)], x)
                        if sm is None and isinstance(x, T): sm = constvsname(cp.e[pf.index(f)]) if isinstance(cp.e[pf.index(f)], Agg) else sm
                        if sm is False: viol("field", "the %s of the call is %r" % (f.lower(), cp.e[pf.index(f)]), pos); break
                        if sm is None: und = "field %s: %r" % (f, cp.e[pf.index(f)])
                    if bad: break
                else:
                    if (a[0] == "Create") != create: viol("kind", "it is executed by %s" % a[0], pos); break
                    g = m.ev(a[-2])
                if g != p["limit"] - intr: viol("intrinsic", "the execution receives %d gas of a limit of %d, the intrinsic gas is %d" % (g, p["limit"], intr), pos); break
            except Unk as e: und = "term %s" % e; break
        if bad: break
        if calls:
            acc = r.st.tags.get("acc", ()); berlin = X.revs[rn] >= X.revs["R09_Berlin"]; ran += 1
            if pkg == "floria":
                need = [("AccessAccount", d["sender"])] + ([] if create else [("AccessAccount", S("recipient"))])
                for k, n in enumerate(al or []):
                    need.append(("AccessAccount", S("acladdr%d" % k)))
                    need += [("AccessStorage", S("acladdr%d" % k), S("key%d.%d" % (k, j))) for j in range(n)]
                known = [x[1] for x in need]
                others += any(x[0] == "AccessAccount" and not any(x[1] is y for y in known) for x in acc)
                if not berlin:
                    if acc: viol("access-early", "the access list is filled before Berlin", pos); break
                    others = 1
                else:
                    miss = [x for x in need if not any(x[0] == y[0] and all(p_ is q_ for p_, q_ in zip(x[1:], y[1:])) for y in acc)]
                    if miss:
                        if al is None and len(miss) == len(need): rep.violation("access:none", "%s: without an access list neither sender nor recipient nor precompiled contracts become warm" % what, pos); others = 1; continue
                        viol("access", "not in the access list: %s" % ", ".join(repr(x[1:]) for x in miss), pos); break
            else:
                pr = [x for x in log if x[0] == "prepare"]
                others = 1
                if berlin != bool(pr): viol("access", "the access list is %sprepared" % ("not " if berlin else ""), pos); break
                if pr and same(pr[0][1][0], d["sender"]) is False: viol("access", "sender of the access list is %r" % (pr[0][1][0],), pos); break
    if bad: return
    if ran and not others: viol("access-precompiled", "no precompiled contract is put on the access list", X.run); return
    miss = [k for k, n in hits.items() if not n]
    if miss: und = und or "no valuation for the case %r" % miss
    if und: rep.undec(what, und)
    else: rep.ok("%s: admission, charge, intrinsic gas and set-up" % what, X.run)
def initcode(rep, X, rn):
    what = "floria creation (%s): init code limit" % rn; n = S("len.input", I8)
    try: rs, d = X.paths(rn, True, n, None)
    except (Undecided, AnchorMissing) as e: rep.undec(what, e); return
    shanghai = X.revs[rn] >= X.revs["R12_Shanghai"]; sv = 5 << 96; und = None; seen = set()
    for r in rs:
        if r.kind != "ret": und = "a path panics"; continue
        w = r.st.tags.get("w", ()); calls = [x for x in r.st.tags.get("log", ()) if x[0] == "call"]; pos = X.show(r.st.tags.get("retpos") or "") or X.run
        for ln in (49151, 49152, 49153, 49154, 100000):
            lim = 10**7; pt = {("sym", "'$sender'"): sv, ("sym", "'$limit'"): lim, ("sym", "'$price'"): 3, ("sym", "'$txnonce'"): 7, ("nonce", "0", sv): 7, ("codehash", "0", sv): 0, ("bal", "0", sv): 10**30, ("sym", "'$emptyhash'"): EMPTY, ("sym", "'$len.input'"): ln}
            if not quick_ok(r.st.facts, pt): continue
            big = shanghai and ln > 49152; seen.add(big)
            if big and (calls or writes(w)): rep.violation("initcode:large", "%s: init code of %d bytes is %s" % (what, ln, "executed" if calls else "rejected after changing the state"), pos); return
            if not big and not writes(w): rep.violation("initcode:small", "%s: init code of %d bytes is rejected" % (what, ln), pos); return
    if seen != ({True, False} if shanghai else {False}): und = und or "cases %r" % seen
    if und: rep.undec(what, und)
    else: rep.ok(what, X.run)
