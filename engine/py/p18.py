"""P18: failed calls leave no trace in the transaction state."""
import flo
from flo import *
def main(rep):
    flo.install()
    try: F = Flo(rep)
    except Missing as e:
        rep.undec("native processor", e); return "anchors not found", "-"
    flo.SUCC[0] = F.C.fields("~tosca.CallResult").index("Success")
    revs = F.revs if rep.tier == "thorough" else {n: v for n, v in F.revs.items() if n in ("R07_Istanbul", "R10_London", max(F.revs, key=F.revs.get))}
    for kind in sorted(F.kinds):
        for rn, rv in sorted(revs.items()):
            what = "%s frame (%s)" % (kind, rn)
            try:
                st = State(); flo.errglobals(F.P, st)
                rs, d = F.frame(kind, rv, st=st)
            except (Undecided, AnchorMissing) as e: rep.undec(what, e); continue
            create = kind.startswith("Create"); und = None; bad = False
            for r in rs:
                rep.count("paths")
                if r.kind != "ret": und = "a path panics"; continue
                w = r.st.tags.get("w", ()); log = r.st.tags.get("log", ())
                if "badrestore" in r.st.tags:
                    rep.violation("foreign:%s" % kind, "%s: restores %s, which is not a snapshot this frame created" % (what, r.st.tags["badrestore"]), last(F, log, "RestoreSnapshot")); bad = True; continue
                for facts, s in success(r):
                    if s is None: und = "success of a path"; continue
                    if s is False:
                        rest = [x for x in w if not (create and x[0] == "nonce" and same(x[1], d["Sender"]) is True)]
                        if rest:
                            rep.violation("kept:%s:%s" % (kind, ops(rest)), "%s: an unsuccessful outcome keeps changes of the state (%s)" % (what, ops(rest)), where(F, r)); bad = True
                    else:
                        gone = [x for s_, ws in r.st.tags.get("restored", ()) for x in ws]
                        if r.st.tags.get("restored"):
                            rep.violation("undone:%s:%s" % (kind, ops(gone)), "%s: a successful outcome has restored the snapshot" % what, where(F, r)); bad = True
                        elif any(x[0] == "run" for x in log) and not any(x[0] == "run" for x in w): und = "effects of the execution"
            if bad: continue
            if und: rep.undec(what, und)
            else: rep.ok("%s: the snapshot is restored on every unsuccessful path that changed the state, and on no successful one" % what, F.call)
    rep.assumptions += ["the transaction context implements snapshots: restoring one drops every later change", "interpreters change the state only through the context they are given"]
    return ("Path analysis (Go SSA abstract interpretation) of the processor's nested call from an opaque frame, with the transaction context modelled as a log of operations and snapshots as positions in it; interpreters, precompiled contracts and addresses are opaque, equality of addresses is forked.",
            "on every path reporting failure the log is back at its state on entry (creations: except for the sender's nonce); on every path reporting success nothing was dropped; only the frame's own snapshot is restored")
def last(F, log, k):
    ps = [x[2] for x in log if x[0] == k]
    return F.show(ps[-1]) if ps else F.call
