"""Abstract execution of single instructions of the long-form interpreter: shared by P08-P11 and P29."""
import common, goprog, evmspec
from gosem import *
PK = "~interpreter/lfvm"
def pos(p): return (p or "").replace(common.REPO + "/", "")

class Missing(Exception): pass

class Lf:
    def __init__(self, rep, pats=("./go/interpreter/lfvm",)):
        self.P = P = goprog.load(list(pats), inits=("tosca", "tosca/vm", "interpreter/lfvm"), rep=rep)
        self.rep = rep
        try:
            self.ct = P.typ(expand(PK + ".context")); self.st = P.typ(expand(PK + ".stack"))
            self.mt = P.typ(expand(PK + ".Memory")); self.it = P.typ(expand(PK + ".Instruction")); self.pt = P.typ(expand("~tosca.Parameters"))
        except (KeyError, AnchorMissing) as e: raise Missing(str(e))
        try: self.bt = P.typ(expand("~tosca.BlockParameters"))
        except (KeyError, AnchorMissing): self.bt = None
        F = lambda t: {f["n"]: (k, f["t"]) for k, f in enumerate(P.types[t]["f"])}
        self.cf, self.sf, self.mf, self.inf, self.pf = F(self.ct), F(self.st), F(self.mt), F(self.it), F(self.pt)
        for need, d in (("params context code pc gas refund stack memory returnData", self.cf), ("data stackPointer", self.sf), ("opcode arg", self.inf), ("Revision Static", None)):
            for n in need.split():
                if d is not None and n not in d: raise Missing("field " + n)
        self.steps = PK + ".steps"
        if not P.has(self.steps): raise Missing("function steps")
        self.rev = self.findrev()
    def findrev(self):
        r = {}
        for n, c in self.P.consts.items():
            m = n.rsplit(".", 1)
            if m[0] == expand("~tosca") and m[1].startswith("R") and "_" in m[1] and m[1][1:3].isdigit():
                r[m[1].split("_", 1)[1]] = self.cv(c)
        return r
    def cv(self, c): return int(c["v"]) if isinstance(c, dict) else int(c)
    def opcodes(self):
        """name -> number of the declared op codes of the interpreter"""
        out = {}
        for n, c in self.P.consts.items():
            a, b = n.rsplit(".", 1)
            if a == expand(PK) and isinstance(c, dict) and self.P.types[c["t"]]["s"] == expand(PK + ".OpCode"): out[b] = self.cv(c)
        return out
    def parampath(self, name):
        """index path within context of a parameter field, looking through embedded structs"""
        P = self.P
        def look(tid):
            for k, f in enumerate(P.types[tid]["f"]):
                if f["n"] == name: return (k,), f["t"]
            for k, f in enumerate(P.types[tid]["f"]):
                if P.types[f["t"]]["k"] == "struct" and f["n"] in ("BlockParameters", "TransactionParameters"):
                    r = look(f["t"])
                    if r: return (k,) + r[0], r[1]
            return None
        r = look(self.pt)
        if not r: raise Missing("parameter " + name)
        return (self.cf["params"][0],) + r[0], r[1]
    def setup(self, op=None, static=None, rev=None, sp=None, pc=None):
        """state with a context whose pc, stack, gas, memory, revision and mode are opaque"""
        P = self.P; st = State(); E = Engine(P)
        C, S, M, D = ("h", "ctx"), ("h", "stk"), ("h", "mem"), ("h", "code")
        self.C, self.S, self.M, self.D = C, S, M, D
        self.SP = sym("$sp", ty=(8, False)) if sp is None else sp
        self.PC = sym("$pc", ty=(4, False)) if pc is None else pc
        self.GAS = sym("$gas", ty=(8, False)); self.REF = sym("$refund", ty=(8, False))
        self.REV = sym("$rev", ty=self.P.ity(self.parampath("Revision")[1])) if rev is None else rev
        self.CL = sym("$codelen", ty=(8, False)); self.ML = sym("$memlen", ty=(8, False)); self.MC = sym("$memcost", ty=(8, False))
        f = st.facts
        if isinstance(self.SP, T): f._narrow(self.SP, 0, 1024)
        if isinstance(self.PC, T): f._narrow(self.PC, 0, (1 << 30))
        f._narrow(self.GAS, 0, (1 << 63) - 1); f._narrow(self.CL, 0, (1 << 31) - 1); f._narrow(self.ML, 0, 1 << 40); f._narrow(self.MC, 0, 1 << 58)
        if isinstance(self.REV, T):
            vs = list(self.rev.values()); f._narrow(self.REV, min(vs), max(vs))
        def put(o, path, v, t=None): st.mem.setdefault(o, {})[path] = v
        cf = self.cf
        put(C, (cf["stack"][0],), Ptr(S, ())); put(C, (cf["memory"][0],), Ptr(M, ()))
        put(C, (cf["code"][0],), SliceV(D, (), 0, self.CL, self.CL)); put(C, (cf["pc"][0],), self.PC); put(C, (cf["gas"][0],), self.GAS); put(C, (cf["refund"][0],), self.REF)
        put(C, (cf["returnData"][0],), SliceV(("h", "retdata"), (), 0, T("len", T("retdata"), ty=(8, False)), T("cap", T("retdata"), ty=(8, False))))
        put(C, (cf["context"][0],), T("nonnil", T("runctx")))
        put(S, (self.sf["stackPointer"][0],), self.SP)
        if "store" in self.mf: put(M, (self.mf["store"][0],), SliceV(("h", "memdata"), (), 0, self.ML, fresh("cap", ty=(8, False))))
        if "currentMemoryCost" in self.mf: put(M, (self.mf["currentMemoryCost"][0],), self.MC)
        pp = self.parampath("Static")[0]; self.STATIC = sym("$static") if static is None else static
        put(C, pp, self.STATIC)
        put(C, self.parampath("Revision")[0], self.REV)
        for nm in ("Input", "Code"):
            q, _ = self.parampath(nm); put(C, q, SliceV(("h", nm), (), 0, T("len", T(nm), ty=(8, False)), T("cap", T(nm), ty=(8, False))))
        if op is not None: put(D, (self.PC, self.inf["opcode"][0]), op)
        return st
    def field(self, st, name): 
        k, t = self.cf[name]
        return Engine(self.P).load(st, Ptr(self.C, (k,)), t)
    def sp(self, st): return Engine(self.P).load(st, Ptr(self.S, (self.sf["stackPointer"][0],)), self.sf["stackPointer"][1])
    def slot(self, st, idx):
        """term of the stack element at an index relative to the initial stack pointer"""
        import gomodels
        E = Engine(self.P); at = self.P.types[self.sf["data"][1]]["e"]
        return gomodels.norm_u(E.load(st, Ptr(self.S, (self.sf["data"][0], aff_add(self.SP, idx, (8, False)))), at))
    def argof(self, st, d=0):
        E = Engine(self.P)
        return E.load(st, Ptr(self.D, (aff_add(self.PC, d, (4, False)), self.inf["arg"][0])), self.inf["arg"][1])
    def run(self, st, pol=None, fn=None, maxsec=60, **kw):
        E = Engine(self.P, pol, max_seconds=maxsec, **kw)
        rs = E.run(fn or self.steps, [Ptr(self.C, ()), True], st)
        self.E = E
        return rs
