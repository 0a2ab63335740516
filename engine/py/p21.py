"""P21: call depth and static mode are inherited by nested calls."""
import flo
from flo import *
from absdom import aff_add
LIMIT = 1024
def main(rep):
    flo.install()
    try: F = Flo(rep)
    except Missing as e:
        rep.undec("native processor", e); return "anchors not found", "-"
    flo.SUCC[0] = F.C.fields("~tosca.CallResult").index("Success")
    pf = F.C.fields("~tosca.Parameters"); cf = {f["n"]: k for k, f in enumerate(F.fl)}
    rv = F.revs["R10_London"]
    def ctxframe(ctx):
        """the frame handed to the interpreter: (depth, static)"""
        if not isinstance(ctx, Iface): return None
        v = ctx.v
        if isinstance(v, tuple) and v and v[0] == "deref": v = v[2]
        if not isinstance(v, Agg) or len(v.e) != len(F.fl): return None
        return v.e[F.di], v.e[F.si]
    for kind in sorted(F.kinds):
        D = S("depth", I8); ST = S("static")
        try:
            st = State(); rs, d = F.frame(kind, rv, depth=D, static=ST, st=st)
        except (Undecided, AnchorMissing) as e: rep.undec("%s frame" % kind, e); continue
        def passed(r):
            if r.kind != "ret": return None, "panics"
            for p, ctx, w in r.st.tags.get("runs", ()):
                if not isinstance(p, Agg): return None, "parameters"
                dp, sp = p.e[pf.index("Depth")], p.e[pf.index("Static")]
                x = exact(r, dp, D)
                if x is not True: return x, "the interpreter is told depth %r for a frame at depth %r" % (dp, D)
                x = mode(r, sp, ST, kind)
                if x is not True: return x, "the interpreter is told static mode %r" % (sp,)
                c = ctxframe(ctx)
                if c is None: return None, "context %r" % (ctx,)
                x = exact(r, c[0], aff_add(D, 1, I8))
                if x is not True: return x, "nested calls run at depth %r" % (c[0],)
                x = mode(r, c[1], ST, kind)
                if x is not True: return x, "nested calls run in static mode %r" % (c[1],)
            return True
        C = F.C
        runs = [r for r in rs if r.st.tags.get("runs")]
        C.expect("inherit:" + kind, "%s: the frame runs at its depth, its nested calls one deeper, and static mode is inherited%s" % (kind, " and set" if kind == "StaticCall" else ""), runs, passed, F.call)
        if F.ptr:
            def kept(r):
                v = Engine(F.P).load(r.st, Ptr(("h", "frame"), (F.di,)), F.fl[F.di]["t"]); s = Engine(F.P).load(r.st, Ptr(("h", "frame"), (F.si,)), F.fl[F.si]["t"])
                a, b = exact(r, v, D), mode(r, s, ST, "Call")
                if a is False or b is False: return False, "the frame is left at depth %r in mode %r" % (v, s)
                return True if a and b else None
            C.expect("caller:" + kind, "%s: depth and mode of the caller are unchanged afterwards" % kind, [r for r in rs if r.kind == "ret"], kept, F.call)
        else: rep.ok("%s: the frame is passed by value, so the caller's depth and mode cannot change" % kind, F.call)
        for dv in (0, 1, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 5000):
            try: st = State(); rs, d = F.frame(kind, rv, depth=dv, st=st)
            except (Undecided, AnchorMissing) as e: rep.undec("%s at depth %d" % (kind, dv), e); continue
            if dv > LIMIT:
                def rejected(r):
                    if r.kind != "ret": return None, "panics"
                    log = r.st.tags.get("log", ())
                    act = [x[0] for x in log if not x[0].startswith("Get") and x[0] not in ("AccountExists", "CreateSnapshot", "RestoreSnapshot")]
                    if act: return False, "requests %s" % ", ".join(act)
                    if same(r.vals[1], None) is not True: return None, "reports an error"
                    return (all(s is False for _, s in success(r))), "reports success"
                C.expect("limit:%s" % kind, "%s at depth %d: rejected without effect" % (kind, dv), rs, rejected, F.call)
            else:
                ok = any(r.st.tags.get("runs") for r in rs)
                rep.check(ok, "eager:%s" % kind, "%s at depth %d is executed" % (kind, dv), F.call)
    outer(rep, F, pf)
    rep.assumptions += ["interpreters issue nested calls through the context they are given"]
    return ("Path analysis (Go SSA abstract interpretation) of the processor's nested call with opaque depth and mode; the frame handed to the interpreter is compared with the caller's.",
            "parameters carry the frame's depth and mode, the context handed on is one deeper and static if the caller is or the call is a STATICCALL, calls beyond depth 1024 fail without any request that changes the state")
def exact(r, a, b):
    a, b = base(a), base(b)
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return True
    n = 0
    try:
        for m in finmod.models(r.st.facts, 12):
            n += 1
            if m.ev(a) != m.ev(b): return False
    except Unk: return None
    return True if n else None
def mode(r, v, st0, kind):
    """v == st0 or STATICCALL, under the facts of the path"""
    v = base(v)
    if kind == "StaticCall": 
        if v is True or isinstance(v, T) and r.st.facts.known(v) is True: return True
        return False if v is False or v is st0 else None
    k0 = r.st.facts.known(st0)
    if v is st0: return True
    if isinstance(v, bool): return v is k0 if k0 is not None else False
    kv = r.st.facts.known(v) if isinstance(v, T) else None
    if kv is not None and k0 is not None: return kv == k0
    if isinstance(v, T):
        try:
            for m in finmod.models(r.st.facts, 12):
                if bool(m.ev(v)) != bool(m.ev(st0)): return False
            return True
        except Unk: return None
    return None
def outer(rep, F, pf):
    """the transaction's own frame"""
    class Pol(flo.WorldPolicy):
        def call(self, E, st, fr, i, name, args, dst, work, put):
            if name.replace("(*", "(") == F.call.replace("(*", "("):
                v = args[0]
                if isinstance(v, Ptr): v = E.load(st, v, F.rct)
                st.tags["outer"] = st.tags.get("outer", ()) + (v,)
                put(st, Agg("tuple", [F.C.agg("~tosca.CallResult"), None], None)); return "cont"
            return flo.WorldPolicy.call(self, E, st, fr, i, name, args, dst, work, put)
    pol = Pol(); pol.C = F.C
    try:
        for rcp in (None, Ptr(("h", "rcpt"), ())):
            st = State(); tx = F.C.agg("~tosca.Transaction", Sender=S("sender"), Recipient=rcp, Nonce=S("txnonce", U8), Value=S("value"), GasLimit=S("limit", I8), GasPrice=S("price"))
            rs = Engine(F.P, pol, max_paths=4000, max_seconds=60).run(F.run, [Ptr(("h", "proc"), ()), F.C.agg("~tosca.BlockParameters", Revision=F.revs["R10_London"]), tx, T("uniq", "world")], st)
            def top(r):
                for v in r.st.tags["outer"]:
                    if not isinstance(v, Agg): return None, "frame %r" % (v,)
                    a, b = same(v.e[F.di], 0), same(v.e[F.si], False)
                    if a is False or b is False: return False, "it starts at depth %r in static mode %r" % (v.e[F.di], v.e[F.si])
                    if a is None or b is None: return None
                return True
            F.C.expect("outer", "the transaction's own %s starts at depth 0 and is not static" % ("call" if rcp else "creation"), [r for r in rs if r.st.tags.get("outer")], top, F.run)
    except (Undecided, AnchorMissing) as e: rep.undec("outermost frame", e)
