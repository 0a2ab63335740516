"""Models of external (standard library / dependency) functions for gosem."""
from absdom import *
import gosem
from gosem import Agg, Ptr, SliceV, Iface, Func, Event, Undecided

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

@model("math/bits.Add64", "math/bits.Sub64", "math/bits.Add", "math/bits.Sub")
def m_bits(E, st, fr, i, name, args, dst, work, put):
    op = "add" if "Add" in name else "sub"
    x, y, c = args
    if all(isinstance(a, int) for a in args):
        s = x + y + c if op == "add" else x - y - c
        put(st, Agg("tuple", [s & (2**64 - 1), 1 if (s >> 64) & 1 else 0], None)); return "cont"
    if op == "add" and gosem._k(x) > gosem._k(y): x, y = y, x
    co = T(op + "carry", x, y, c, ty=(8, True)); st.facts._narrow(co, 0, 1)
    put(st, Agg("tuple", [T(op + "64", x, y, c, ty=(8, True)), co], None)); return "cont"

@model("math/bits.Mul64")
def m_mul64(E, st, fr, i, name, args, dst, work, put):
    x, y = sorted(args, key=gosem._k)
    put(st, Agg("tuple", [T("mulhi", x, y, ty=(8, True)), T("mullo", x, y, ty=(8, True))], None)); return "cont"

def lockm(kind):
    def f(E, st, fr, i, name, args, dst, work, put):
        st.events.append(Event(kind, name, [args[0]], i.get("p"), fn=fr.fn["name"]))
        if kind in ("trylock",):
            put(st, fresh("trylock"))
        return "cont"
    return f
for t in ("Mutex", "RWMutex"):
    MODELS["(*sync.%s).Lock" % t] = lockm("lock")
    MODELS["(*sync.%s).Unlock" % t] = lockm("unlock")
    MODELS["(*sync.%s).TryLock" % t] = lockm("trylock")
MODELS["(*sync.RWMutex).RLock"] = lockm("rlock")
MODELS["(*sync.RWMutex).RUnlock"] = lockm("runlock")
MODELS["sync.Locker.Lock"] = lockm("lock")
MODELS["sync.Locker.Unlock"] = lockm("unlock")

@model("errors.New", "fmt.Errorf")
def m_err(E, st, fr, i, name, args, dst, work, put):
    a = []
    if name == "fmt.Errorf" and len(args) > 1 and args[1] is not None:
        # remember wrapped values
        s = args[1]
        if isinstance(s, SliceV) and isinstance(s.len, int) and isinstance(s.off, int):
            for j in range(s.len): a.append(E.load(st, Ptr(s.o, s.p + (s.off + j,)), E.P.tindex.get("any", E.P.tindex.get("interface{}"))))
    put(st, T("errorf", "%s" % i.get("p"), *[x for x in a if not isinstance(x, (Ptr,))])); return "cont"

@model("errors.Is")
def m_is(E, st, fr, i, name, args, dst, work, put):
    e, t = args
    if e is None: put(st, t is None); return "cont"
    r = E.eq(st, e, t, None)
    if r is True: put(st, True); return "cont"
    if isinstance(e, T) and e.op == "uniq" and isinstance(t, T) and t.op == "uniq": put(st, False); return "cont"
    if isinstance(e, T) and e.op == "errorf":
        put(st, any(E.eq(st, a, t, None) is True for a in e.args[1:]))
        return "cont"
    put(st, E.decide(st, r)); return "cont"

@model("fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln")
def m_sprintf(E, st, fr, i, name, args, dst, work, put):
    a = [args[0]] if isinstance(args[0], bytes) else []
    s = args[-1]
    if isinstance(s, SliceV) and isinstance(s.len, int):
        for j in range(s.len):
            x = E.load(st, Ptr(s.o, s.p + (s.off + j,)), E.P.tindex.get("any", E.P.tindex.get("interface{}")))
            a.append(x)
    # constant folding of the simple verbs on constants
    if name == "fmt.Sprintf" and a and isinstance(a[0], bytes):
        r = fold_sprintf(E, a[0].decode("latin1"), a[1:])
        if r is not None: put(st, r.encode("latin1")); return "cont"
    put(st, T("sprintf", *a)); return "cont"

def fold_sprintf(E, f, a):
    out = []; j = 0; k = 0
    import re
    while j < len(f):
        c = f[j]
        if c != "%": out.append(c); j += 1; continue
        m = re.match(r"%(0?)(\d*)([dxXsvq%])", f[j:])
        if not m: return None
        j += m.end()
        if m.group(3) == "%": out.append("%"); continue
        if k >= len(a): return None
        x = a[k]; k += 1
        if not isinstance(x, Iface): return None
        v = x.v; ts = E.P.types[x.t]["s"]
        if isinstance(v, bool): return None
        if isinstance(v, int):
            meths = E.P.methods.get(ts, {})
            if m.group(3) in "vs" and ("String" in meths or "Error" in meths): return None
            if m.group(3) in "dv": s = str(v)
            elif m.group(3) == "x": s = "%x" % v
            elif m.group(3) == "X": s = "%X" % v
            else: return None
        elif isinstance(v, bytes) and m.group(3) in "sv": s = v.decode("latin1")
        else: return None
        w = int(m.group(2) or 0)
        s = s.rjust(w, "0" if m.group(1) else " ")
        out.append(s)
    return "".join(out)

@model("fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint")
def m_print(E, st, fr, i, name, args, dst, work, put):
    put(st, E.freshres(i, "print")); return "cont"

@model("strings.ToLower", "strings.ToUpper")
def m_lower(E, st, fr, i, name, args, dst, work, put):
    x = args[0]
    if isinstance(x, bytes): put(st, x.lower() if "Lower" in name else x.upper())
    else:
        op = "lower" if "Lower" in name else "upper"
        put(st, x if isinstance(x, T) and x.op == op else T(op, x))
    return "cont"
@model("strings.EqualFold")
def m_fold(E, st, fr, i, name, args, dst, work, put):
    a, b = args
    if isinstance(a, bytes) and isinstance(b, bytes): put(st, a.lower() == b.lower())
    else: put(st, E.decide(st, mk_eq(T("lower", a) if not isinstance(a, bytes) else a.lower(), T("lower", b) if not isinstance(b, bytes) else b.lower())))
    return "cont"
@model("strings.HasPrefix", "strings.HasSuffix", "strings.Contains")
def m_pre(E, st, fr, i, name, args, dst, work, put):
    a, b = args
    if isinstance(a, bytes) and isinstance(b, bytes):
        put(st, a.startswith(b) if "Prefix" in name else a.endswith(b) if "Suffix" in name else b in a)
    else: put(st, T(name, a, b))
    return "cont"
@model("strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim")
def m_trim(E, st, fr, i, name, args, dst, work, put):
    if all(isinstance(a, bytes) for a in args):
        a = args[0]
        if "Space" in name: r = a.strip()
        elif "Prefix" in name: r = a[len(args[1]):] if a.startswith(args[1]) else a
        elif "Suffix" in name: r = a[:-len(args[1])] if args[1] and a.endswith(args[1]) else a
        else: r = a.strip(args[1])
        put(st, r)
    else: put(st, T(name, *args))
    return "cont"

@model("bytes.Equal")
def m_beq(E, st, fr, i, name, args, dst, work, put):
    a, b = E.bytesterm(st, args[0]), E.bytesterm(st, args[1])
    if a is b: put(st, True)
    elif a.op == "bytes" and b.op == "bytes":
        put(st, E.eq(st, Agg("array", a.args, None), Agg("array", b.args, None), None))
    else: put(st, E.decide(st, mk_eq(a, b)))
    return "cont"
@model("bytes.Compare")
def m_bcmp(E, st, fr, i, name, args, dst, work, put):
    a, b = E.bytesterm(st, args[0]), E.bytesterm(st, args[1])
    r = T("bytescmp", a, b, ty=(8, False)); st.facts._narrow(r, -1, 1)
    put(st, r); return "cont"

# --- encoding/binary big endian ------------------------------------------
def _be(size, put_):
    def f(E, st, fr, i, name, args, dst, work, putv):
        s = E.as_slice(st, args[1]); le = "littleEndian" in name
        bt = E.P.tindex.get("byte", E.P.tindex.get("uint8"))
        order = range(size) if not le else range(size - 1, -1, -1)
        if put_:
            v = args[2]
            for pos, j in enumerate(order):
                sh = 8 * (size - 1 - pos)
                b = (v >> sh) & 255 if isinstance(v, int) else T("byteof", v, sh, ty=(1, True))
                E.store(st, Ptr(s.o, s.p + (aff_add(s.off, j, (8, False)),)), b, bt)
            return "cont"
        bs = [E.load(st, Ptr(s.o, s.p + (aff_add(s.off, j, (8, False)),)), bt) for j in order]
        putv(st, join_bytes(bs)); return "cont"
    return f
def join_bytes(bs):
    n = len(bs)
    if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), "big")
    if all(isinstance(b, T) and b.op == "byteof" and b.args[0] is bs[0].args[0] and b.args[1] == 8 * (n - 1 - k) for k, b in enumerate(bs)):
        v = bs[0].args[0]
        if v.ty and v.ty[0] == n: return v
    return T("join", *bs, ty=(n, True))
for sz in (2, 4, 8):
    for en in ("bigEndian", "littleEndian"):
        MODELS["(encoding/binary.%s).PutUint%d" % (en, sz * 8)] = _be(sz, True)
        MODELS["(encoding/binary.%s).Uint%d" % (en, sz * 8)] = _be(sz, False)

# --- holiman/uint256 ------------------------------------------------------
U = "(*github.com/holiman/uint256.Int)."
def uval(E, st, p):
    p = E.to_ptr(p)
    if p is None: return T("nilu256")
    v = E.load(st, p, E.P.tindex["github.com/holiman/uint256.Int"])
    return norm_u(v)
def norm_u(v):
    if isinstance(v, Agg):
        if all(isinstance(x, int) for x in v.e): return T("u256", v.e[0] | v.e[1] << 64 | v.e[2] << 128 | v.e[3] << 192)
        # words of one opaque value
        if all(isinstance(x, T) and x.op == "fld" and x.args[1] == k and x.args[0] is v.e[0].args[0] for k, x in enumerate(v.e)): return v.e[0].args[0]
        if all(isinstance(x, T) and x.op == "init" for x in v.e):
            o, p = v.e[0].args[0], v.e[0].args[1]
            if all(x.args[0] == o and x.args[1] == p[:-1] + (k,) for k, x in enumerate(v.e)): return T("init", o, p[:-1])
        if len(v.e) == 4 and all(isinstance(x, int) and x == 0 for x in v.e[1:]) and isinstance(v.e[0], T): return T("u.from64", v.e[0])
        return T("u256w", *v.e)
    if isinstance(v, T) and v.op == "zero": return T("u256", 0)
    return v
def uset(E, st, p, v):
    p = E.to_ptr(p)
    E.store(st, p, v, E.P.tindex["github.com/holiman/uint256.Int"])
COMM = {"Add", "Mul", "And", "Or", "Xor"}
M256 = (1 << 256) - 1
def ubin(op):
    def f(E, st, fr, i, name, args, dst, work, put):
        z = args[0]; vs = [uval(E, st, a) for a in args[1:]]
        if op in COMM: vs.sort(key=gosem._k)
        r = None
        if all(v.op == "u256" for v in vs):
            a = [v.args[0] for v in vs]
            if op == "Add": r = a[0] + a[1]
            elif op == "Sub": r = a[0] - a[1]
            elif op == "Mul": r = a[0] * a[1]
            elif op == "And": r = a[0] & a[1]
            elif op == "Or": r = a[0] | a[1]
            elif op == "Xor": r = a[0] ^ a[1]
            elif op == "Not": r = ~a[0]
        uset(E, st, z, T("u256", r & M256) if r is not None else T("u." + op, *vs))
        put(st, z); return "cont"
    return f
for op in ("Add Sub Mul Div Mod SDiv SMod And Or Xor Exp AddMod MulMod Not Neg Abs Sqrt ExtendSign".split()): MODELS[U + op] = ubin(op)
def ubinscalar(op):
    def f(E, st, fr, i, name, args, dst, work, put):
        uset(E, st, args[0], T("u." + op, uval(E, st, args[1]), args[2])); put(st, args[0]); return "cont"
    return f
for op in "Lsh Rsh SRsh AddUint64 SubUint64".split(): MODELS[U + op] = ubinscalar(op)
def uovf(op):
    def f(E, st, fr, i, name, args, dst, work, put):
        vs = [uval(E, st, a) for a in args[1:]]
        if op in COMM: vs.sort(key=gosem._k)
        uset(E, st, args[0], T("u." + op, *vs)); put(st, Agg("tuple", [args[0], T("u." + op + "ovf", *vs)], None)); return "cont"
    return f
for op in "Add Sub Mul".split(): MODELS[U + op + "Overflow"] = uovf(op)
@model(U + "Byte")
def u_byte(E, st, fr, i, name, args, dst, work, put):
    z, n = args; uset(E, st, z, T("u.Byte", uval(E, st, z), uval(E, st, n))); put(st, z); return "cont"
@model(U + "Set")
def u_set(E, st, fr, i, name, args, dst, work, put):
    uset(E, st, args[0], uval(E, st, args[1])); put(st, args[0]); return "cont"
@model(U + "Clone")
def u_clone(E, st, fr, i, name, args, dst, work, put):
    p = E.alloc(st, "clone", None); uset(E, st, p, uval(E, st, args[0])); put(st, p); return "cont"
@model(U + "Clear", U + "SetOne", U + "SetAllOne")
def u_const(E, st, fr, i, name, args, dst, work, put):
    uset(E, st, args[0], T("u256", {"Clear": 0, "SetOne": 1, "SetAllOne": M256}[name.split(".")[-1]])); put(st, args[0]); return "cont"
@model(U + "SetUint64")
def u_setu(E, st, fr, i, name, args, dst, work, put):
    v = args[1]; uset(E, st, args[0], T("u256", v) if isinstance(v, int) else T("u.from64", v)); put(st, args[0]); return "cont"
@model("github.com/holiman/uint256.NewInt")
def u_new(E, st, fr, i, name, args, dst, work, put):
    p = E.alloc(st, "newint", None); v = args[0]
    uset(E, st, p, T("u256", v) if isinstance(v, int) else T("u.from64", v)); put(st, p); return "cont"
def u_setbytes(E, st, fr, i, name, args, dst, work, put):
    b = E.bytesterm(st, args[1])
    if b.op == "bytes":
        bs = list(b.args)
        if name.endswith(tuple("SetBytes%d" % k for k in range(1, 33))):
            n = int(name.split("SetBytes")[-1]); bs = bs[:n]
        while bs and isinstance(bs[0], int) and bs[0] == 0: bs = bs[1:]
        if all(isinstance(x, int) for x in bs): v = T("u256", int.from_bytes(bytes(bs), "big"))
        else:
            # bytes of one opaque array value
            v = T("u.frombytes", *bs)
            x0 = bs[0]
            if isinstance(x0, T) and x0.op == "fld" and all(isinstance(x, T) and x.op == "fld" and x.args[0] is x0.args[0] and x.args[1] == k for k, x in enumerate(bs)):
                v = T("u.fromarr", x0.args[0], len(bs))
                if isinstance(x0.args[0], T) and x0.args[0].op == "u.b32" and len(bs) == 32: v = x0.args[0].args[0]
    else: v = T("u.frombytesv", b)
    uset(E, st, args[0], v); put(st, args[0]); return "cont"
MODELS[U + "SetBytes"] = u_setbytes
for k in range(1, 33): MODELS[U + "SetBytes%d" % k] = u_setbytes
@model(U + "Bytes32")
def u_b32(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0]); put(st, const_b(v, 32, i) or T("u.b32", v)); return "cont"
@model(U + "Bytes20")
def u_b20(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0]); put(st, const_b(v, 20, i) or T("u.b20", v)); return "cont"
def const_b(v, n, i):
    if v.op == "u256": return Agg("array", list((v.args[0] & ((1 << (8 * n)) - 1)).to_bytes(n, "big")), i["t"])
    return None
@model(U + "Bytes")
def u_bytes(E, st, fr, i, name, args, dst, work, put):
    put(st, T("u.bytes", uval(E, st, args[0]))); return "cont"
@model(U + "Uint64")
def u_u64(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0])
    if v.op == "u256": put(st, v.args[0] & (2**64 - 1))
    elif v.op == "u.from64": put(st, v.args[0])
    else: put(st, T("u.u64", v, ty=(8, True)))
    return "cont"
@model(U + "Uint64WithOverflow")
def u_u64o(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0])
    if v.op == "u256": put(st, Agg("tuple", [v.args[0] & (2**64 - 1), v.args[0] >> 64 != 0], None))
    elif v.op == "u.from64": put(st, Agg("tuple", [v.args[0], False], None))
    else: put(st, Agg("tuple", [T("u.u64", v, ty=(8, True)), mk_not(E.decide(st, T("u.is64", v)))], None))
    return "cont"
@model(U + "IsUint64")
def u_is64(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0])
    if v.op == "u256": put(st, v.args[0] < 2**64)
    elif v.op == "u.from64": put(st, True)
    else: put(st, E.decide(st, T("u.is64", v)))
    return "cont"
@model(U + "IsZero")
def u_isz(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0])
    if v.op == "u256": put(st, v.args[0] == 0)
    elif v.op == "u.from64": put(st, E.decide(st, mk_eq(v.args[0], 0)))
    else: put(st, E.decide(st, mk_eq(v, T("u256", 0))))
    return "cont"
@model(U + "Eq")
def u_eq(E, st, fr, i, name, args, dst, work, put):
    a, b = uval(E, st, args[0]), uval(E, st, args[1])
    if a.op == "u256" and b.op == "u256": put(st, a.args[0] == b.args[0])
    else: put(st, E.decide(st, mk_eq(a, b)))
    return "cont"
def ucmp(op):
    def f(E, st, fr, i, name, args, dst, work, put):
        a = uval(E, st, args[0])
        b = uval(E, st, args[1]) if not op.endswith("Uint64") else (T("u256", args[1]) if isinstance(args[1], int) else T("u.from64", args[1]))
        o = op.replace("Uint64", "")
        if o in ("Gt", "Sgt"): a, b = b, a
        nm = "ult" if o in ("Lt", "Gt") else "slt"
        if a.op == "u256" and b.op == "u256":
            x, y = a.args[0], b.args[0]
            if nm == "slt":
                x = x - (1 << 256) if x >> 255 else x; y = y - (1 << 256) if y >> 255 else y
            put(st, x < y)
        elif a is b: put(st, False)
        elif all(v.op == "u.from64" or v.op == "u256" and v.args[0] < (1 << 63) for v in (a, b)): put(st, E.decide(st, mk_lt(a.args[0], b.args[0])))
        else: put(st, E.decide(st, T(nm, a, b)))
        return "cont"
    return f
for op in "Lt Gt Slt Sgt LtUint64 GtUint64".split(): MODELS[U + op] = ucmp(op)
@model(U + "Cmp", U + "CmpUint64", U + "Sign", U + "BitLen", U + "ByteLen")
def u_cmp(E, st, fr, i, name, args, dst, work, put):
    op = name.split(".")[-1]
    a = uval(E, st, args[0]); rest = []
    for x in args[1:]:
        rest.append(uval(E, st, x) if op == "Cmp" else x)
    if op == "Cmp" and a.op == "u256" and rest[0].op == "u256":
        put(st, (a.args[0] > rest[0].args[0]) - (a.args[0] < rest[0].args[0])); return "cont"
    r = T("u." + op, a, *rest, ty=(8, False))
    if op == "Cmp": st.facts._narrow(r, -1, 1)
    if op == "BitLen": st.facts._narrow(r, 0, 256)
    if op == "ByteLen": st.facts._narrow(r, 0, 32)
    put(st, r); return "cont"
@model(U + "ToBig")
def u_tobig(E, st, fr, i, name, args, dst, work, put):
    put(st, T("nonnil", T("big", uval(E, st, args[0])))); return "cont"
@model(U + "WriteToSlice", U + "WriteToArray32", U + "WriteToArray20", U + "PutUint256")
def u_write(E, st, fr, i, name, args, dst, work, put):
    v = uval(E, st, args[0]); d = args[1]
    if isinstance(d, Ptr): E.store(st, d, T("u.b32" if "32" in name else "u.b20", v), None)
    else:
        s = E.as_slice(st, d)
        st.mem[s.o] = {(): T("uwritten", v, s.p, s.off, s.len, fresh("mem"))}; st.wlog.append((s.o, (), None))
    return "cont"
@model(U + "DivMod")
def u_dm(E, st, fr, i, name, args, dst, work, put):
    a, b = uval(E, st, args[1]), uval(E, st, args[2])
    uset(E, st, args[0], T("u.Div", a, b)); uset(E, st, args[3], T("u.Mod", a, b)); put(st, Agg("tuple", [args[0], args[3]], None)); return "cont"

PURE_PREFIX = ("(*math/big.Int).", "math/big.", "math/bits.", "math.", "unicode", "strconv.", "(github.com/ethereum/go-ethereum/common.",
               "github.com/ethereum/go-ethereum/common.", "github.com/ethereum/go-ethereum/crypto.", "strings.", "bytes.", "hash.", "(hash.", "encoding/hex.", "reflect.", "(*strings.Builder).", "(strings.Builder).")
def generic(E, st, fr, i, name, args, dst, work, put):
    if name.startswith(PURE_PREFIX):
        if name.startswith("(*math/big.Int)."):
            meth = name.split(".")[-1]
            recv = args[0]
            ins = []
            for a in args:
                if isinstance(a, Ptr): ins.append(T("bigval", a.o, a.p, frozenset((st.mem.get(a.o) or {}).items())))
                elif isinstance(a, SliceV): ins.append(E.bytesterm(st, a))
                else: ins.append(a)
            put(st, E.resterm(i, "big." + meth, *ins) if i.get("t") is not None and E.P.types[i["t"]]["k"] != "ptr" else recv)
            if isinstance(recv, Ptr) and i.get("t") is not None and E.P.types[i["t"]]["k"] == "ptr":
                st.mem[recv.o] = {recv.p: T("big." + meth, *ins)}; st.wlog.append((recv.o, recv.p, None))
            return "cont"
        if name.startswith(("(*strings.Builder).", "(strings.Builder).")):
            put(st, E.freshres(i, "sb")); return "cont"
        a = []
        for x in args:
            if isinstance(x, SliceV): a.append(E.slterm(st, x))
            elif isinstance(x, (T, int, bytes, Agg, Iface, Func)) or x is None: a.append(x)
            else: a.append(T("w", repr(x)))
        if i.get("t") is not None and not (E.P.types[i["t"]]["k"] == "tuple" and not E.P.types[i["t"]]["ts"]): put(st, E.resterm(i, "fn:" + name, *a))
        return "cont"
    return None

@model("(*sync.Pool).Get")
def pool_get(E, st, fr, i, name, args, dst, work, put):
    r = T("nonnil", fresh("pooled")); st.events.append(Event("poolget", name, [args[0]], i.get("p"), r, fn=fr.fn["name"])); put(st, r); return "cont"
@model("(*sync.Pool).Put")
def pool_put(E, st, fr, i, name, args, dst, work, put):
    st.events.append(Event("poolput", name, args, i.get("p"), fn=fr.fn["name"])); return "cont"
@model("(*sync.Once).Do")
def once_do(E, st, fr, i, name, args, dst, work, put):
    st.events.append(Event("once", name, [args[0]], i.get("p")))
    f = args[1]
    if isinstance(f, Func) and f.n in E.P.fns:
        E.push(st, E.P.fns[f.n], [], "#defer", f.b); return "cont"
    return "cont"
