"""Abstract values shared by the analyses: hash-consed uninterpreted terms, affine
integer terms and the fact base (a conjunction of atoms plus integer intervals)."""

class T:
    """A hash-consed uninterpreted term. `op` is a string, `args` a tuple."""
    __slots__ = ("op", "args", "ty", "id", "_h", "depth")
    table = {}
    def __new__(cls, op, *args, ty=None):
        key = (op, args, ty)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, args, ty
            t.id = len(cls.table)
            t._h = hash((op, t.id))
            t.depth = 1 + max([a.depth for a in args if isinstance(a, T)] or [0])
            cls.table[key] = t
        return t
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __repr__(self):
        if self.depth > 12: return "%s(…#%d)" % (self.op, self.id)
        if self.op == "sym": return str(self.args[0])
        if self.op == "aff":
            c, ts = self.args
            s = "+".join(("%s" % (t,) if k == 1 else "%d*%s" % (k, t)) for t, k in ts)
            return "(%s%+d)" % (s, c) if c else "(%s)" % s
        return "%s(%s)" % (self.op, ",".join(repr(a) for a in self.args))

_fresh = [0]
def fresh(hint="v", ty=None):
    _fresh[0] += 1
    return T("sym", "%s#%d" % (hint, _fresh[0]), ty=ty)
def sym(name, ty=None):
    return T("sym", name, ty=ty)

def wrap(v, size, uns):
    bits = size * 8
    v &= (1 << bits) - 1
    if not uns and v >> (bits - 1): v -= 1 << bits
    return v

def is_const(v): return isinstance(v, (int, bool, bytes)) or v is None

# --- affine integers -----------------------------------------------------

def aff_parts(v):
    """Returns (const, {term: coef})"""
    if isinstance(v, bool): return int(v), {}
    if isinstance(v, int): return v, {}
    if isinstance(v, T) and v.op == "aff":
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}

def aff_make(c, d, ity):
    size, uns = ity
    d = {t: k for t, k in d.items() if k % (1 << (8 * size)) != 0}
    c = wrap(c, size, False if d else uns)
    if not d: return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    items = tuple(sorted(d.items(), key=lambda e: e[0].id))
    return T("aff", c, items, ty=ity)

def aff_add(x, y, ity, sign=1):
    c1, d1 = aff_parts(x); c2, d2 = aff_parts(y)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + sign * k
    return aff_make(c1 + sign * c2, d, ity)

def aff_mulc(x, c, ity):
    c1, d1 = aff_parts(x)
    return aff_make(c1 * c, {t: k * c for t, k in d1.items()}, ity)

def aff_diff(x, y):
    """x - y as python int when it is a known constant, else None (no wrap)."""
    c1, d1 = aff_parts(x); c2, d2 = aff_parts(y)
    if d1 == d2: return c1 - c2
    return None

# --- facts ---------------------------------------------------------------

class Facts:
    """Conjunction of boolean atoms with integer intervals for terms."""
    __slots__ = ("atoms", "iv", "order")
    def __init__(self, atoms=None, iv=None, order=None):
        self.atoms = atoms if atoms is not None else {}
        self.iv = iv if iv is not None else {}
        self.order = order if order is not None else []
    def copy(self): return Facts(dict(self.atoms), dict(self.iv), list(self.order))

    def interval(self, v):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return (v, v)
        lo, hi = None, None
        if isinstance(v, T):
            if v in self.iv: lo, hi = self.iv[v]
            tlo, thi = type_range(v)
            if lo is None or (tlo is not None and tlo > lo): lo = tlo
            if hi is None or (thi is not None and thi < hi): hi = thi
            if v.op == "aff":
                c, d = aff_parts(v)
                alo, ahi = c, c
                for t, k in d.items():
                    l, h = self.interval(t)
                    a = (l if k > 0 else h); b = (h if k > 0 else l)
                    alo = None if alo is None or a is None else alo + k * a
                    ahi = None if ahi is None or b is None else ahi + k * b
                # affine arithmetic wraps: only usable if the range fits the type
                if v.ty and alo is not None and ahi is not None and tlo is not None and alo >= tlo and ahi <= thi:
                    lo = alo if lo is None else max(lo, alo)
                    hi = ahi if hi is None else min(hi, ahi)
        return (lo, hi)

    def _narrow(self, t, lo=None, hi=None):
        """returns False on contradiction"""
        if not isinstance(t, T): return True
        l, h = self.iv.get(t, (None, None))
        if lo is not None: l = lo if l is None else max(l, lo)
        if hi is not None: h = hi if h is None else min(h, hi)
        self.iv[t] = (l, h)
        il, ih = self.interval(t)
        if il is not None and ih is not None and il > ih: return False
        if t.op == "aff" and len(t.args[1]) == 1 and t.args[1][0][1] == 1:
            # t = u + c without wrap only if u's known interval shows it
            u = t.args[1][0][0]; c = t.args[0]
            ul, uh = self.interval(u); tl, th = type_range(t)
            if ul is not None and uh is not None and tl is not None and ul + c >= tl and uh + c <= th:
                if not self._narrow(u, None if l is None else l - c, None if h is None else h - c): return False
        return True

    def known(self, atom):
        """atom: canonical T boolean. Returns True/False/None"""
        if isinstance(atom, bool): return atom
        if atom.op == "not":
            r = self.known(atom.args[0]); return None if r is None else not r
        r = self.atoms.get(atom)
        if r is not None: return r
        if atom.op == "<":
            x, y = atom.args
            xl, xh = self.interval(x); yl, yh = self.interval(y)
            if xh is not None and yl is not None and xh < yl: return True
            if xl is not None and yh is not None and xl >= yh: return False
            if self.atoms.get(T("<", y, x)) is True: return False
            if self.atoms.get(mk_eq(x, y)) is True: return False
            # same-base affine with small constants and no possible wrap
            d = aff_diff(x, y)
            if d is not None and isinstance(x, T) and isinstance(y, T):
                if self._nowrap(x) and self._nowrap(y): return d < 0
            return self._trans(x, y)
        if atom.op == "==":
            x, y = atom.args
            xl, xh = self.interval(x); yl, yh = self.interval(y)
            if None not in (xl, xh, yl, yh):
                if xl == xh == yl == yh: return True
            if xh is not None and yl is not None and xh < yl: return False
            if xl is not None and yh is not None and xl > yh: return False
            if self.atoms.get(T("<", x, y)) is True or self.atoms.get(T("<", y, x)) is True: return False
            # equality classes against distinct constants
            for a, b in ((x, y), (y, x)):
                if is_const(b):
                    for at, v in self.atoms.items():
                        if v is True and at.op == "==":
                            if at.args[0] is a and is_const(at.args[1]) and at.args[1] != b: return False
                            if at.args[1] is a and is_const(at.args[0]) and at.args[0] != b: return False
        return None

    def _nowrap(self, t):
        if not isinstance(t, T) or t.op != "aff": return True
        if t.ty is None: return False
        c, d = aff_parts(t)
        lo = hi = c
        for u, k in d.items():
            l, h = self.interval(u)
            if l is None or h is None: return False
            lo += k * (l if k > 0 else h); hi += k * (h if k > 0 else l)
        tl, th = type_range(t)
        return tl is not None and lo >= tl and hi <= th

    def _trans(self, x, y):
        # x <= a < b <= y by constant offsets
        for at, v in self.atoms.items():
            if at.op != "<": continue
            a, b = at.args
            if v is True:
                d1, d2 = aff_diff(a, x), aff_diff(y, b)
                if d1 is not None and d2 is not None and d1 >= 0 and d2 >= 0 and (d1 or d2) and all(self._nowrap(z) for z in (a, b, x, y)): return True
            else:
                d1, d2 = aff_diff(x, a), aff_diff(b, y)
                if d1 is not None and d2 is not None and d1 >= 0 and d2 >= 0 and (d1 or d2) and all(self._nowrap(z) for z in (a, b, x, y)): return False
        # one-step transitivity: x<m and m<=y
        for at, v in self.atoms.items():
            if at.op != "<": continue
            a, b = at.args
            if v is True and a is x:
                # x < b ; is b <= y ?
                if self.atoms.get(T("<", y, b)) is False: return True
            if v is False and b is x:
                # x <= a ; is a <= y → not (y < x)... only proves not y<x
                pass
        return None

    def _assume256(self, atom, val):
        """relations between a 256-bit value and its 64-bit view"""
        if atom.op == "u.is64":
            if not val: return True
            x = atom.args[0]
            if self.atoms.get(mk_eq(x, T("u256", 0))) is False: return self._narrow(T("u.u64", x, ty=(8, True)), lo=1)
            return True
        x, c = atom.args
        if isinstance(x, T) and x.op == "u256": x, c = c, x
        if not (isinstance(x, T) and isinstance(c, T) and c.op == "u256") or x.op == "u256": return True
        k = c.args[0]; s = T("u.is64", x); v = T("u.u64", x, ty=(8, True))
        if val:
            if self.atoms.get(s) is (k >= 1 << 64): return False
            if s not in self.atoms: self.atoms[s] = k < 1 << 64
            return self._narrow(v, k & (2**64 - 1), k & (2**64 - 1))
        if k == 0 and self.atoms.get(s) is True: return self._narrow(v, lo=1)
        return True

    def assume(self, atom, val):
        """Adds atom==val; returns False if contradictory."""
        if isinstance(atom, bool): return atom == val
        if atom.op == "not": return self.assume(atom.args[0], not val)
        k = self.known(atom)
        if k is not None:
            if k != val: return False
        if atom not in self.atoms:
            self.atoms[atom] = val; self.order.append((atom, val))
        if (atom.op == "==" or atom.op == "u.is64") and not self._assume256(atom, val): return False
        if atom.op == "and" and val:
            return all(self.assume(a, True) for a in atom.args)
        if atom.op == "or" and not val:
            return all(self.assume(a, False) for a in atom.args)
        if atom.op == "<":
            x, y = atom.args
            xl, xh = self.interval(x); yl, yh = self.interval(y)
            if val:
                if yh is not None and not self._narrow(x, hi=yh - 1): return False
                if xl is not None and not self._narrow(y, lo=xl + 1): return False
            else:
                if yl is not None and not self._narrow(x, lo=yl): return False
                if xh is not None and not self._narrow(y, hi=xh): return False
        elif atom.op == "==":
            x, y = atom.args
            if isinstance(x, int) and not isinstance(x, bool): x, y = y, x
            if isinstance(y, int) and not isinstance(y, bool) and isinstance(x, T):
                if val:
                    if not self._narrow(x, lo=y, hi=y): return False
                else:
                    l, h = self.interval(x)
                    if l == y and not self._narrow(x, lo=y + 1): return False
                    if h == y and not self._narrow(x, hi=y - 1): return False
        return True

def type_range(t):
    ty = t.ty if isinstance(t, T) else None
    if isinstance(t, T) and t.op in ("len", "cap"): return (0, (1 << 63) - 1)
    if isinstance(ty, tuple) and len(ty) == 2 and isinstance(ty[0], int):
        size, uns = ty
        return (0, (1 << (8 * size)) - 1) if uns else (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
    return (None, None)

def _key(v):
    if isinstance(v, T): return (1, v.id)
    return (0, repr(v))

def mk_eq(x, y):
    if x is y: return True
    if is_const(x) and is_const(y): return x == y
    # x+c == y+d  with same base
    if isinstance(x, T) and isinstance(y, (T, int)) or isinstance(y, T) and isinstance(x, int):
        d = aff_diff(x, y)
        if d is not None and not isinstance(x, bool) and not isinstance(y, bool): return d == 0
        # move constants to one side for x = u+c
        for a, b in ((x, y), (y, x)):
            if isinstance(a, T) and a.op == "aff" and isinstance(b, int) and len(a.args[1]) == 1 and a.args[1][0][1] == 1:
                u = a.args[1][0][0]; c = a.args[0]
                if a.ty:
                    v = wrap(b - c, *a.ty)
                    return mk_eq(u, v)
    for a, b in ((x, y), (y, x)):
        if isinstance(a, T) and a.op == "u.Cmp" and isinstance(b, int):
            u, v = a.args
            return mk_eq(u, v) if b == 0 else T("ult", u, v) if b == -1 else T("ult", v, u) if b == 1 else False
    if isinstance(x, bool): return y if x else mk_not(y)
    if isinstance(y, bool): return x if y else mk_not(x)
    if _key(y) < _key(x): x, y = y, x
    return T("==", x, y)

def mk_not(x):
    if isinstance(x, bool): return not x
    if isinstance(x, T) and x.op == "not": return x.args[0]
    return T("not", x)

def mk_lt(x, y):
    if x is y: return False
    if isinstance(x, int) and isinstance(y, int): return x < y
    if isinstance(x, T) and x.op == "u.Cmp" and isinstance(y, int) and y in (0, 1):
        a, b = x.args
        return T("ult", a, b) if y == 0 else mk_not(T("ult", b, a))
    if isinstance(y, T) and y.op == "u.Cmp" and isinstance(x, int) and x in (0, -1):
        a, b = y.args
        return T("ult", b, a) if x == 0 else mk_not(T("ult", a, b))
    return T("<", x, y)
