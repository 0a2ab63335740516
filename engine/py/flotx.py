"""Transactions of the native and the go-ethereum based processor with the nested call abstracted to an arbitrary outcome."""
import flo
from flo import *
from flo import FM
ZA = 0
class TxPolicy(flo.WorldPolicy):
    def __init__(self, T_): self.T = T_; self.C = T_.C
    def outcome(self, E, st, i, what, args, work, mk):
        """the nested call: an arbitrary change of the state and an arbitrary outcome"""
        self.log(st, "call", [what] + list(args), i)
        n = len([x for x in st.tags.get("w", ()) if x[0] == "run"]); st.tags["callw"] = st.tags.get("w", ())
        st.tags["w"] = st.tags.get("w", ()) + (("run", n),)
        return mk()
    def call(self, E, st, fr, i, name, args, dst, work, put):
        T_ = self.T
        if T_.call and name.replace("(*", "(") == T_.call.replace("(*", "("):
            g, rf = S("run.gasleft", I8), S("run.refund", I8); st.facts._narrow(g, 0, 1 << 40); st.facts._narrow(rf, 0, 1 << 40)
            ln = S("len.out", I8); st.facts._narrow(ln, 0, 1 << 40)
            res = T_.C.agg("~tosca.CallResult", Success=S("run.success"), Output=SliceV(("h", "out"), (), 0, ln, ln), GasLeft=g, GasRefund=rf, CreatedAddress=S("run.created"))
            return self.outcome(E, st, i, "native", args, work, lambda: E.cond_fork(st, S("run.err"), work, lambda s: put(s, Agg("tuple", [res, T("nonnil", "callerr")], None)), lambda s: put(s, Agg("tuple", [res, None], None))))
        if name.endswith(").GetRefund"):
            rf = S("run.refund", U8); st.facts._narrow(rf, 0, 1 << 40); put(st, rf); return "cont"
        if "interpreter/geth." in name and name.endswith(").SetNonce"):
            return self.world(E, st, fr, i, "SetNonce", args, dst, work, put)
        if "interpreter/geth." in name and name.endswith(").GetNonce"):
            return self.world(E, st, fr, i, "GetNonce", args, dst, work, put)
        if "interpreter/geth." in name and name.endswith(").GetLogs"): put(st, None); return "cont"
        if "interpreter/geth." in name and name.endswith(").PrepareAccessList"):
            self.log(st, "prepare", args[1:], i); put(st, None); return "cont"
        return flo.WorldPolicy.call(self, E, st, fr, i, name, args, dst, work, put)
    def ext(self, E, st, fr, i, name, args, dst, work, put):
        if name.endswith("vm.EVM).Call") or name.endswith("vm.EVM).Create"):
            g = S("run.gasleft", U8); st.facts._narrow(g, 0, 1 << 40); ln = S("len.out", I8); st.facts._narrow(ln, 0, 1 << 40)
            out = SliceV(("h", "out"), (), 0, ln, ln)
            def res(e): return Agg("tuple", ([out] if name.endswith("Call") else [out, S("run.created")]) + [g, e], None)
            return self.outcome(E, st, i, name.rsplit(".", 1)[1], args[1:], work, lambda: E.cond_fork(st, S("run.success"), work, lambda s: put(s, res(None)), lambda s: put(s, res(T("nonnil", "vmerr")))))
        if name.endswith("Keccak256") or "NewLegacyKeccak256" in name or name.endswith("vm.NewEVM"):
            r = flo.WorldPolicy.ext(self, E, st, fr, i, name, args, dst, work, put)
            if r is not None: return r
            put(st, E.freshres(i, "ext")); return "cont"
        return flo.WorldPolicy.ext(self, E, st, fr, i, name, args, dst, work, put)

class Tx:
    """a processor: package, Run method, entry of its nested calls (None: go-ethereum)"""
    def __init__(self, rep, pkg):
        self.rep, self.pkg = rep, pkg
        self.P = goprog.load(["./go/processor/" + pkg], inits=("tosca",), rep=rep); self.C = Chk(rep, self.P); P = self.P
        runs = [n for n in P.fns if n.endswith(".Run") and expand("~processor/" + pkg + ".") in n and any(P.types[p["t"]]["s"] == expand("~tosca.TransactionContext") for p in P.fns[n]["params"])]
        if len(runs) != 1: raise Missing("Run method of the processor: %r" % (runs,))
        self.run = runs[0]; self.call = None
        calls = {n.replace("(*", "(") for n in P.fns if n.endswith(".Call") and expand("~processor/" + pkg + ".") in n and [P.types[p["t"]]["s"] for p in P.fns[n]["params"][1:]] == [expand("~tosca.CallKind"), expand("~tosca.CallParameters")]}
        if len(calls) == 1: self.call = calls.pop()
        self.revs = {n: v for n, v in self.C.enum(expand("~tosca.Revision")).items() if re.match(r"R\d\d_", n) and not n.startswith("R99")}
    def show(self, p): return (p or "").replace(common.REPO + "/", "")
    def paths(self, rev, create, inp=0, al=None, zero_sender=False):
        """al: None, or a list of key counts per access list entry"""
        st = State(); C = self.C; P = self.P; E = Engine(P)
        flo.errglobals(P, st)
        for g, v in P.globals.items():
            if P.types[P.types[v["t"]].get("e", v["t"])]["s"] == expand("~tosca.Hash") and "empty" in g.lower(): st.mem[("g", g)] = {(): S("emptyhash")}
        if isinstance(inp, int):
            for k in range(inp): E.store(st, Ptr(("h", "input"), (k,)), S("in%d" % k, (1, True)), P.tindex.get("byte", P.tindex.get("uint8")))
            data = SliceV(("h", "input"), (), 0, inp, inp)
        else:
            data = SliceV(("h", "input"), (), 0, inp, inp)
        acl = None
        if al is not None:
            tt = P.types[P.typ(expand("~tosca.Transaction"))]; at = [f["t"] for f in tt["f"] if f["n"] == "AccessList"][0]; et = P.types[at]["e"]
            for k, n in enumerate(al):
                kt = [f["t"] for f in P.types[et]["f"] if f["n"] == "Keys"][0]
                for j in range(n): E.store(st, Ptr(("h", "keys%d" % k), (j,)), S("key%d.%d" % (k, j)), P.types[kt]["e"])
                v = Agg("s", [S("acladdr%d" % k) if f["n"] == "Address" else SliceV(("h", "keys%d" % k), (), 0, n, n) for f in P.types[et]["f"]], et)
                E.store(st, Ptr(("h", "al"), (k,)), v, et)
            acl = SliceV(("h", "al"), (), 0, len(al), len(al))
        rcp = None
        if not create:
            E.store(st, Ptr(("h", "rcpt"), ()), S("recipient"), P.typ(expand("~tosca.Address"))); rcp = Ptr(("h", "rcpt"), ())
        lim = S("limit", I8); st.facts._narrow(lim, 0, 1 << 41)
        sender = Engine(P).zero(P.typ(expand("~tosca.Address"))) if zero_sender else S("sender")
        tx = C.agg("~tosca.Transaction", Sender=sender, Recipient=rcp, Nonce=S("txnonce", U8), Input=data, Value=S("value"), GasLimit=lim, GasPrice=S("price"), AccessList=acl)
        pr = Ptr(("h", "proc"), ())
        proct = P.types[P.fns[self.run]["params"][0]["t"]]
        if proct["k"] != "ptr": pr = fresh("proc")
        pol = TxPolicy(self)
        eng = Engine(P, pol, max_paths=6000, max_seconds=90); eng.sym_unroll = 6
        return eng.run(self.run, [pr, C.agg("~tosca.BlockParameters", Revision=self.revs[rev]), tx, T("uniq", "world")], st), dict(sender=sender, data=data, rcp=rcp)
