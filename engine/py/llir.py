"""Parser for textual LLVM IR (the subset clang and rustc emit for the analysed units)."""
import re

class Ty:
    __slots__ = ("k", "n", "e", "packed")
    def __init__(self, k, n=0, e=None, packed=False): self.k, self.n, self.e, self.packed = k, n, e, packed
    def __repr__(self): return {"int": "i%d" % self.n}.get(self.k, self.k + (str(self.n) if self.k == "array" else ""))
I = {}
def ity(n):
    if n not in I: I[n] = Ty("int", n)
    return I[n]
VOID, PTR, LABEL, META, FLT, DBL = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata"), Ty("float", 32), Ty("double", 64)

TOK = re.compile(r'''\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(\#\d+|![-a-zA-Z$._0-9]*)|(-?\d+\.\d+e[+-]\d+|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|(\.\.\.)|([a-zA-Z_][-a-zA-Z0-9_.$]*)|(.))''')

def tokenize(s):
    out = []
    pos = 0
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m or m.end() == pos: break
        t = m.group(0).strip()
        if t == ";": break
        if t: out.append(t)
        pos = m.end()
    return out

def unq(n):
    """%"foo" / %foo -> foo"""
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}
        self.parse(text)

    # ---- types
    def ptype(self, t, i):
        x = t[i]
        if x.startswith("i") and x[1:].isdigit(): ty = ity(int(x[1:])); i += 1
        elif x == "void": ty = VOID; i += 1
        elif x == "ptr":
            ty = PTR; i += 1
            if i < len(t) and t[i] == "addrspace": i += 4
        elif x == "float": ty = FLT; i += 1
        elif x in ("double", "half", "x86_fp80", "fp128"): ty = DBL; i += 1
        elif x == "label": ty = LABEL; i += 1
        elif x == "metadata": ty = META; i += 1
        elif x == "token": ty = META; i += 1
        elif x == "[":
            n = int(t[i + 1]); assert t[i + 2] == "x"
            e, j = self.ptype(t, i + 3); assert t[j] == "]"; ty = Ty("array", n, e); i = j + 1
        elif x == "<" and t[i + 1] == "{":
            ty, i = self.pstruct(t, i + 1, True); assert t[i] == ">"; i += 1
        elif x == "<":
            n = int(t[i + 1]); e, j = self.ptype(t, i + 3); assert t[j] == ">"; ty = Ty("vec", n, e); i = j + 1
        elif x == "{":
            ty, i = self.pstruct(t, i, False)
        elif x.startswith("%"):
            ty = Ty("named", unq(x)); i += 1
        elif x == "opaque": ty = Ty("opaque"); i += 1
        else: raise ValueError("type %r at %r" % (x, t[max(0, i - 5):i + 8]))
        if i < len(t) and t[i] == "(" and ty.k != "label":
            # function type
            d = 0
            while True:
                if t[i] == "(": d += 1
                if t[i] == ")":
                    d -= 1
                    if d == 0: break
                i += 1
            i += 1
        return ty, i
    def pstruct(self, t, i, packed):
        es = []; i += 1
        while t[i] != "}":
            if t[i] == ",": i += 1; continue
            e, i = self.ptype(t, i); es.append(e)
        return Ty("struct", len(es), es, packed), i + 1
    def res(self, ty):
        while ty.k == "named": ty = self.types.get(ty.n, Ty("opaque"))
        return ty
    def align(self, ty):
        ty = self.res(ty)
        if ty.k == "int": 
            b = (ty.n + 7) // 8
            a = 1
            while a < b: a *= 2
            return min(a, 16)
        if ty.k == "ptr": return 8
        if ty.k == "float": return 4
        if ty.k == "double": return 8
        if ty.k in ("array",): return self.align(ty.e)
        if ty.k == "vec": return min(16, self.size(ty))
        if ty.k == "struct": return 1 if ty.packed else max([self.align(e) for e in ty.e] or [1])
        return 1
    def size(self, ty):
        ty = self.res(ty)
        if ty.k == "int":
            b = (ty.n + 7) // 8; a = self.align(ty); return (b + a - 1) // a * a
        if ty.k == "ptr": return 8
        if ty.k == "float": return 4
        if ty.k == "double": return 8
        if ty.k in ("array", "vec"): return ty.n * self.size(ty.e)
        if ty.k == "struct":
            o = 0
            for e in ty.e:
                a = 1 if ty.packed else self.align(e); o = (o + a - 1) // a * a + self.size(e)
            a = self.align(ty); return (o + a - 1) // a * a
        return 0
    def fieldoff(self, ty, idx):
        ty = self.res(ty); o = 0
        for j, e in enumerate(ty.e):
            a = 1 if ty.packed else self.align(e); o = (o + a - 1) // a * a
            if j == idx: return o
            o += self.size(e)
        raise IndexError

    # ---- module
    def parse(self, text):
        lines = text.split("\n"); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, r = l.split(" = type ", 1); t = tokenize(r)
                self.types[unq(n.strip())] = self.ptype(t, 0)[0]
            elif l.startswith("@"):
                self.pglobal(l)
            elif l.startswith("define "):
                body = [l]; i += 1
                while lines[i] != "}":
                    body.append(lines[i]); i += 1
                f = Function(self, body); self.funcs[f.name] = f
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m: self.decls[unq("@" + m.group(1))] = l
            i += 1
    def pglobal(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        if not m: return
        name = unq(m.group(1)); r = m.group(2)
        if re.match(r'(.*?)\balias\b', r) and " alias " in " " + r.split("=")[0]:
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*(,.*)?$', r)
            if mm: self.aliases[name] = unq("@" + mm.group(1))
            return
        t = tokenize(r)
        const = "constant" in t; ext = "external" in t[:4] or "extern_weak" in t[:4]
        tl = "thread_local" in t
        k = None
        for j, x in enumerate(t):
            if x in ("global", "constant"): k = j; break
        if k is None: return
        try:
            ty, j = self.ptype(t, k + 1)
            init = None
            if not ext and j < len(t) and t[j] != ",": init, j = self.pconst(t, j, ty)
        except Exception as e:
            ty, init = Ty("opaque"), None
        self.globals[name] = {"ty": ty, "init": init, "const": const, "tl": tl}

    # ---- operands: ('c',int) ('r',name) ('g',name) ('null',) ('undef',) ('agg',[..]) ('str',bytes) ('zero',) ('expr',op,...)
    def pconst(self, t, i, ty):
        x = t[i]
        if x.startswith("%"): return ("r", unq(x)), i + 1
        if x.startswith("@"): return ("g", unq(x)), i + 1
        if re.match(r"-?\d+$", x):
            v = int(x)
            if ty.k == "int": v &= (1 << ty.n) - 1
            return ("c", v), i + 1
        if x == "true": return ("c", 1), i + 1
        if x == "false": return ("c", 0), i + 1
        if x == "null": return ("c", 0), i + 1
        if x in ("undef", "poison"): return ("undef",), i + 1
        if x == "zeroinitializer": return ("zero",), i + 1
        if x == "none": return ("undef",), i + 1
        if x.startswith('c"'):
            b = bytearray(); s = x[2:-1]; j = 0
            while j < len(s):
                if s[j] == "\\":
                    if s[j + 1] == "\\": b.append(92); j += 2
                    else: b.append(int(s[j + 1:j + 3], 16)); j += 3
                else: b += s[j].encode("latin1", "replace"); j += 1
            return ("str", bytes(b)), i + 1
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and t[i + 1] == "{":
                v, j = self.pconst(t, i + 1, ty); return v, j + 1
            es = []; i += 1
            while t[i] != close:
                if t[i] == ",": i += 1; continue
                ety, i = self.ptype(t, i); e, i = self.pconst(t, i, ety); es.append((ety, e))
            return ("agg", es), i + 1
        if x in ("getelementptr", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "sub", "add", "trunc", "icmp", "select", "xor", "and", "or", "shl", "lshr", "mul", "zext", "sext"):
            j = i + 1
            while t[j] != "(": j += 1
            flags = t[i + 1:j]
            j += 1; args = []
            if x == "getelementptr":
                bty, j = self.ptype(t, j)
            else: bty = None
            while t[j] != ")":
                if t[j] == ",": j += 1; continue
                if t[j] == "to":
                    to, j = self.ptype(t, j + 1); args.append((to, None)); continue
                if t[j] == "inrange": 
                    j += 1
                    if t[j] == "(":
                        while t[j] != ")": j += 1
                        j += 1
                    continue
                aty, j = self.ptype(t, j); a, j = self.pconst(t, j, aty); args.append((aty, a))
            return ("expr", x, bty, args), j + 1
        if x == "blockaddress" and t[i + 1] == "(" and t[i + 2].startswith("@") and t[i + 4].startswith("%"):
            return ("ba", unq(t[i + 2]), unq(t[i + 4])), i + 6
        if x in ("blockaddress", "dso_local_equivalent", "no_cfi"):
            while t[i] != ")": i += 1
            return ("undef",), i + 1
        if x == "asm":
            while not t[i].startswith('"'): i += 1
            return ("asm", t[i]), i + 3
        if re.match(r"0x|-?\d+\.", x): return ("flt", x), i + 1
        if x.startswith("!"): return ("undef",), i + 1
        raise ValueError("const %r in %r" % (x, t[max(0, i - 6):i + 6]))
    def pval(self, t, i):
        ty, i = self.ptype(t, i)
        i = self.skipattrs(t, i)
        if ty.k == "metadata":
            # skip to matching , or )
            d = 0
            while i < len(t) and not (d == 0 and t[i] in (",", ")")):
                if t[i] == "(": d += 1
                elif t[i] == ")": d -= 1
                i += 1
            return (ty, ("undef",)), i
        v, i = self.pconst(t, i, ty); return (ty, v), i
    ATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "inreg", "noalias", "nofree", "nest", "returned", "immarg", "swiftself", "inalloca", "allocptr", "allocalign", "writable", "nsw", "nuw", "exact", "inbounds", "dead_on_unwind", "nusw", "disjoint", "nneg", "samesign", "noext", "dead_on_return"}
    ATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "elementtype", "byref", "preallocated", "nofpclass", "memory"}
    def skipattrs(self, t, i):
        while i < len(t):
            if t[i] in self.ATTR: i += 1
            elif t[i] in self.ATTRP:
                if t[i] == "align" and t[i + 1] != "(": i += 2; continue
                i += 1
                if i < len(t) and t[i] == "(":
                    d = 0
                    while True:
                        if t[i] == "(": d += 1
                        if t[i] == ")":
                            d -= 1
                            if d == 0: break
                        i += 1
                    i += 1
            else: break
        return i

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "addrspacecast", "ptrtoaddr"}

class Function:
    def __init__(self, M, lines):
        self.M = M
        h = lines[0]
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', h)
        self.name = unq("@" + m.group(1)); self.header = h
        t = tokenize(h[m.end():])
        self.params = []; i = 0
        n = 0
        while t[i] != ")":
            if t[i] == ",": i += 1; continue
            if t[i] == "...": i += 1; continue
            sret = None; st = i
            ty, i = M.ptype(t, i); j = M.skipattrs(t, i)
            attrs = t[i:j]; i = j
            if t[i].startswith("%"): nm = unq(t[i]); i += 1
            else: nm = str(n)
            n += 1
            self.params.append((nm, ty, "sret" in attrs))
        pre = tokenize(h[:m.start()])
        # return type: last type before the name
        self.ret = None
        for s in range(1, len(pre)):
            try:
                ty, e = M.ptype(pre, s)
                if e == len(pre): self.ret = ty; break
            except Exception: continue
        self.blocks = {}; self.order = []
        # an unnamed entry block takes the next number
        cur = None; unnamed = sum(1 for p in self.params if p[0].isdigit())
        i = 1
        buf = []
        body = []
        k = 1
        while k < len(lines):
            l = lines[k]
            # join multi-line instructions (switch, landingpad, invoke)
            if l.strip().startswith("switch ") and "]" not in l:
                while "]" not in lines[k]:
                    k += 1; l += " " + lines[k].strip()
            elif re.search(r'(^|\s)(invoke|landingpad|callbr)\s', l):
                while k + 1 < len(lines) and re.match(r'^\s{5,}\S', lines[k + 1]):
                    k += 1; l += " " + lines[k].strip()
            body.append(l); k += 1
        for l in body:
            s = l.strip()
            if not s or s.startswith(";"): continue
            if s.startswith("#dbg_"): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = m.group(1); cur = nm[1:-1] if nm.startswith('"') else nm
                self.blocks[cur] = []; self.order.append(cur); continue
            if cur is None:
                cur = str(unnamed); self.blocks[cur] = []; self.order.append(cur)
            try: ins = self.pinst(s)
            except Exception as e: ins = {"op": "unparsed", "text": s, "err": repr(e)}
            self.blocks[cur].append(ins)
        self.entry = self.order[0] if self.order else None
        self._hdr = None
    def succs(self, b):
        x = self.blocks[b][-1]
        if x["op"] == "br": return [x["t"]] + ([x["f"]] if x.get("f") else [])
        if x["op"] == "switch": return [x["dflt"]] + [c[1] for c in x["cases"]]
        if x["op"] == "invoke": return [x["ok"], x["bad"]]
        if x["op"] == "indirectbr": return x["to"]
        return []
    def headers(self):
        if self._hdr is None:
            h = set(); seen = {self.entry}; on = {self.entry}; st = [(self.entry, iter(self.succs(self.entry)))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s in on: h.add(s)
                    elif s not in seen:
                        seen.add(s); on.add(s); st.append((s, iter(self.succs(s)))); break
                else: st.pop(); on.discard(b)
            self._hdr = h
        return self._hdr
    def pinst(self, s):
        M = self.M
        # strip metadata attachments
        s = re.sub(r',\s*!(dbg|tbaa|srcloc|noalias|alias\.scope|range|noundef|nonnull|prof|llvm\.loop|invariant\.load|align|llvm\.access\.group|nosanitize|heapallocsite|unpredictable|callees|dereferenceable|tbaa\.struct|mmra|annotation|kcfi_type|type|associated|exclude|vcall_visibility|preserve\.access\.index|unroll|captures)\b\s*!(\d+|\{[^}]*\})', '', s)
        t = tokenize(s); i = 0; dst = None
        if len(t) > 1 and t[0].startswith("%") and t[1] == "=": dst = unq(t[0]); i = 2
        r = {"d": dst, "text": s}
        while t[i] in ("tail", "musttail", "notail"): i += 1
        op = t[i]; i += 1; r["op"] = op
        if op in BIN:
            r["flags"] = set()
            while t[i] in ("nsw", "nuw", "exact", "fast", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): r["flags"].add(t[i]); i += 1
            ty, i = M.ptype(t, i); r["ty"] = ty
            r["a"], i = M.pconst(t, i, ty); assert t[i] == ","; r["b"], i = M.pconst(t, i + 1, ty)
        elif op in ("icmp", "fcmp"):
            while t[i] in ("samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): i += 1
            r["p"] = t[i]; ty, i = M.ptype(t, i + 1); r["ty"] = ty
            r["a"], i = M.pconst(t, i, ty); r["b"], i = M.pconst(t, i + 1, ty)
        elif op in CAST:
            while t[i] in M.ATTR or t[i] in ("fast",): i += 1
            (r["fty"], r["a"]), i = M.pval(t, i); assert t[i] == "to"; r["ty"], i = M.ptype(t, i + 1)
        elif op == "alloca":
            if t[i] == "inalloca": i += 1
            r["ty"], i = M.ptype(t, i); r["n"] = ("c", 1)
            if i < len(t) and t[i] == "," and t[i + 1] not in ("align", "addrspace"): (_, r["n"]), i = M.pval(t, i + 1)
        elif op == "load":
            r["atomic"] = False
            while t[i] in ("atomic", "volatile"): r["atomic"] |= t[i] == "atomic"; i += 1
            r["ty"], i = M.ptype(t, i); (_, r["p"]), i = M.pval(t, i + 1)
        elif op == "store":
            r["atomic"] = False
            while t[i] in ("atomic", "volatile"): r["atomic"] |= t[i] == "atomic"; i += 1
            (r["ty"], r["v"]), i = M.pval(t, i); (_, r["p"]), i = M.pval(t, i + 1)
        elif op == "getelementptr":
            while t[i] in ("inbounds", "nuw", "nusw"): i += 1
            r["bty"], i = M.ptype(t, i); (_, r["p"]), i = M.pval(t, i + 1); r["idx"] = []
            while i < len(t) and t[i] == ",":
                x, i = M.pval(t, i + 1); r["idx"].append(x)
        elif op == "phi":
            while t[i] in ("fast", "nnan"): i += 1
            r["ty"], i = M.ptype(t, i); r["in"] = []
            while i < len(t) and t[i] in ("[", ","):
                if t[i] == ",": i += 1; continue
                v, i = M.pconst(t, i + 1, r["ty"]); assert t[i] == ","; r["in"].append((unq(t[i + 1]), v)); i += 3
        elif op == "select":
            while t[i] in ("fast", "nnan", "ninf", "nsz"): i += 1
            (_, r["c"]), i = M.pval(t, i); (r["ty"], r["a"]), i = M.pval(t, i + 1); (_, r["b"]), i = M.pval(t, i + 1)
        elif op == "br":
            if t[i] == "label": r["t"] = unq(t[i + 1])
            else:
                (_, r["c"]), i = M.pval(t, i); r["t"] = unq(t[i + 2]); r["f"] = unq(t[i + 5])
        elif op == "switch":
            (r["ty"], r["v"]), i = M.pval(t, i); r["dflt"] = unq(t[i + 2]); r["cases"] = []; i += 4
            while t[i] != "]":
                (_, v), i = M.pval(t, i); r["cases"].append((v[1], unq(t[i + 2]))); i += 3
        elif op == "indirectbr":
            (_, r["p"]), i = M.pval(t, i); r["to"] = []
            while i < len(t) and t[i] != "]":
                if t[i] == "label": r["to"].append(unq(t[i + 1])); i += 1
                i += 1
        elif op == "ret":
            if t[i] != "void": r["v"] = M.pval(t, i)[0]
        elif op in ("call", "invoke"):
            while t[i] in ("fast", "nnan", "fastcc", "coldcc", "ccc", "cc", "tailcc", "preserve_mostcc", "nsz", "ninf") or re.match(r"\d+$", t[i]): i += 1
            i = M.skipattrs(t, i)
            r["ty"], i = M.ptype(t, i)
            r["fn"], i = M.pconst(t, i, PTR); assert t[i] == "(", t[i:i + 4]
            i += 1; r["args"] = []
            while t[i] != ")":
                if t[i] == ",": i += 1; continue
                x, i = M.pval(t, i); r["args"].append(x)
            if op == "invoke":
                while t[i] != "to": i += 1
                r["ok"] = unq(t[i + 2]); assert t[i + 3] == "unwind"; r["bad"] = unq(t[i + 5])
        elif op in ("extractvalue",):
            (r["aty"], r["a"]), i = M.pval(t, i); r["idx"] = []
            while i < len(t) and t[i] == ",": r["idx"].append(int(t[i + 1])); i += 2
        elif op == "insertvalue":
            (r["aty"], r["a"]), i = M.pval(t, i); (r["vty"], r["v"]), i = M.pval(t, i + 1); r["idx"] = []
            while i < len(t) and t[i] == ",": r["idx"].append(int(t[i + 1])); i += 2
        elif op in ("freeze", "fneg"):
            (r["ty"], r["a"]), i = M.pval(t, i)
        elif op == "resume":
            (r["ty"], r["a"]), i = M.pval(t, i)
        elif op in ("unreachable", "fence"): pass
        elif op == "landingpad":
            r["ty"], i = M.ptype(t, i); r["rest"] = t[i:]
        elif op == "atomicrmw":
            while t[i] == "volatile": i += 1
            r["o"] = t[i]; (_, r["p"]), i = M.pval(t, i + 1); (r["ty"], r["v"]), i = M.pval(t, i + 1)
        elif op == "cmpxchg":
            while t[i] in ("weak", "volatile"): i += 1
            (_, r["p"]), i = M.pval(t, i); (r["ty"], r["a"]), i = M.pval(t, i + 1); (_, r["b"]), i = M.pval(t, i + 1)
        elif op in ("extractelement", "insertelement", "shufflevector"):
            r["ops"] = []
            while i < len(t):
                if t[i] == ",": i += 1; continue
                x, i = M.pval(t, i); r["ops"].append(x)
        else: raise ValueError("op " + op)
        return r
