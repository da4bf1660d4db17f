"""Values: constants are Python ints (unsigned), symbolic integers are z3 bit-vectors, i1 are Bools,
pointers are Ptr(object, offset).  Offsets are ints or Lin (constant plus a sum of coefficient*term)."""
import z3

M64 = (1 << 64) - 1


class ToolLimit(Exception):
    """The verifier cannot handle this construct: undecided, never a violation."""


def is_int(v):
    return type(v) is int


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


_bvcache = {}


def bv(v, w=64):
    if type(v) is int:
        k = (v & ((1 << w) - 1), w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(k[0], w)
        return r
    if isinstance(v, Lin):
        return v.z3()
    if z3.is_bool(v):
        return z3.If(v, bv(1, w), bv(0, w))
    return v


def boolv(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    if v is True or v is False:
        return z3.BoolVal(v)
    return v


class Lin:
    """c + sum(coef*term), 64-bit wrap-around."""
    __slots__ = ("c", "t", "_z")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # dict id -> (term, coef)
        self._z = None

    def z3(self):
        if self._z is None:
            parts = []
            for term, k in self.t.values():
                parts.append(term if k == 1 else term * bv(k & M64, 64))
            e = parts[0]
            for p in parts[1:]:
                e = e + p
            if self.c:
                e = e + bv(self.c & M64, 64)
            self._z = e
        return self._z

    def __repr__(self):
        return f"Lin({self.c}+{[(str(t), k) for t, k in self.t.values()]})"


def _norm(c, t):
    t = {i: (a, k) for i, (a, k) in t.items() if k & M64}
    c = sgn(c & M64, 64)
    return Lin(c, t) if t else c


_lincache = {}


def lin(e):
    """Decompose a 64-bit int/z3 term into int or Lin."""
    if type(e) is int:
        return sgn(e & M64, 64)
    if isinstance(e, Lin):
        return e
    i = e.get_id()
    r = _lincache.get(i)
    if r is not None:
        return r[0]
    r = _lin(e)
    _lincache[i] = (r, e)
    return r


def _lin(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return sgn(e.as_long(), 64)
    if k == z3.Z3_OP_BADD:
        r = 0
        for a in e.children():
            r = ladd(r, lin(a))
        return r
    if k == z3.Z3_OP_BSUB:
        ch = e.children()
        r = lin(ch[0])
        for a in ch[1:]:
            r = ladd(r, lmul(lin(a), -1))
        return r
    if k == z3.Z3_OP_BNEG:
        return lmul(lin(e.arg(0)), -1)
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a, b = e.children()
        if z3.is_bv_value(a):
            return lmul(lin(b), sgn(a.as_long(), 64))
        if z3.is_bv_value(b):
            return lmul(lin(a), sgn(b.as_long(), 64))
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        n = e.arg(1).as_long()
        if n < 64:
            return lmul(lin(e.arg(0)), 1 << n)
    return Lin(0, {e.get_id(): (e, 1)})


def ladd(a, b):
    if type(a) is int:
        if type(b) is int:
            return sgn((a + b) & M64, 64)
        return Lin(sgn((a + b.c) & M64, 64), b.t)
    if type(b) is int:
        return Lin(sgn((a.c + b) & M64, 64), a.t)
    t = dict(a.t)
    for i, (x, k) in b.t.items():
        o = t.get(i)
        t[i] = (x, sgn(((o[1] if o else 0) + k) & M64, 64))
    return _norm(a.c + b.c, t)


def lmul(a, k):
    if type(a) is int:
        return sgn((a * k) & M64, 64)
    return _norm(a.c * k, {i: (x, sgn((c * k) & M64, 64)) for i, (x, c) in a.t.items()})


def lsub(a, b):
    return ladd(a, lmul(b, -1))


def lz(a):
    """int or Lin -> int (unsigned) or z3 term"""
    if type(a) is int:
        return a & M64
    return a.z3()


def ldiv(a, k):
    """exact division of a linear form by k>0, or None"""
    if type(a) is int:
        return a // k if a % k == 0 else None
    if a.c % k:
        return None
    for x, c in a.t.values():
        if c % k:
            return None
    return Lin(a.c // k, {i: (x, c // k) for i, (x, c) in a.t.items()})


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def add(self, o):
        return Ptr(self.obj, ladd(self.off, o))

    def __repr__(self):
        return f"Ptr({self.obj},{self.off})"


NULL = Ptr(0, 0)

# ---------------------------------------------------------------- arrays of bytes (or other scalars)


def same(i, j):
    """True/False/None: are two indices equal"""
    d = lsub(lin(i), lin(j))
    if type(d) is int:
        return d == 0
    return None


class Arr:
    w = 8

    def sel(self, i):
        raise NotImplementedError

    def store(self, i, v):
        return AStore(self, i, v)


class ABase(Arr):
    __slots__ = ("a", "w")

    def __init__(self, a, w=8):
        self.a = a
        self.w = w

    def sel(self, i):
        return z3.Select(self.a, bv(i, 64))


class AFn(Arr):
    __slots__ = ("f", "w")

    def __init__(self, f, w=8):
        self.f = f
        self.w = w

    def sel(self, i):
        return self.f(i)


class AConst(Arr):
    __slots__ = ("v", "w")

    def __init__(self, v, w=8):
        self.v = v
        self.w = w

    def sel(self, i):
        return self.v


class ALit(Arr):
    """fixed list of values at indices 0..n-1"""
    __slots__ = ("vals", "w", "cache")

    def __init__(self, vals, w=8):
        self.vals = vals
        self.w = w
        self.cache = {}

    def sel(self, i):
        d = lin(i)
        if type(d) is int:
            return self.vals[d] if 0 <= d < len(self.vals) else 0
        z = lz(d)
        key = z.get_id()
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        e = bv(self.vals[-1], self.w) if self.vals else bv(0, self.w)
        if len(self.vals) > 4096:
            raise ToolLimit("symbolic index into a large literal table")
        for k in range(len(self.vals) - 2, -1, -1):
            e = z3.If(z == bv(k, 64), bv(self.vals[k], self.w), e)
        self.cache[key] = (e, z)
        return e


class AStore(Arr):
    __slots__ = ("p", "i", "v", "w")

    def __init__(self, p, i, v):
        self.p, self.i, self.v, self.w = p, i, v, p.w

    def sel(self, i):
        # walk the chain of stores
        pend = []
        a = self
        while type(a) is AStore:
            s = same(i, a.i)
            if s is True:
                r = a.v
                break
            if s is None:
                pend.append((a.i, a.v))
            a = a.p
        else:
            r = a.sel(i)
        for j, v in reversed(pend):
            r = ite(bv(i, 64) == bv(j, 64), v, r, self.w)
        return r


class ACopy(Arr):
    """p with [dst, dst+n) replaced by src[soff..]"""
    __slots__ = ("p", "dst", "n", "src", "soff", "w")

    def __init__(self, p, dst, n, src, soff):
        self.p, self.dst, self.n, self.src, self.soff, self.w = p, dst, n, src, soff, p.w

    def sel(self, i):
        d = lsub(lin(i), lin(self.dst))
        n = lin(self.n)
        if type(d) is int and type(n) is int:
            if 0 <= d < n:
                return self.src.sel(lz(ladd(d, lin(self.soff))))
            return self.p.sel(i)
        inside = z3.ULT(bv(lz(d), 64), bv(lz(n), 64))
        return ite(inside, self.src.sel(lz(ladd(d, lin(self.soff)))), self.p.sel(i), self.w)


class AShift(Arr):
    __slots__ = ("p", "k", "w")

    def __init__(self, p, k):
        self.p, self.k, self.w = p, k, p.w

    def sel(self, i):
        return self.p.sel(lz(ladd(lin(i), lin(self.k))))


class AIte(Arr):
    __slots__ = ("c", "a", "b", "w")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.w = c, a, b, a.w

    def sel(self, i):
        return ite(self.c, self.a.sel(i), self.b.sel(i), self.w)


def shift(a, k):
    if type(k) is int and k == 0:
        return a
    if type(a) is AShift:
        return AShift(a.p, lz(ladd(lin(a.k), lin(k))))
    return AShift(a, k)


def ite(c, a, b, w):
    if c is True or c is False:
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    if type(c) is int:
        return a if c else b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, lin(z3.If(c, bv(lz(a.off)), bv(lz(b.off)))))
        raise ToolLimit("conditional pointer value")
    if w == 1:
        return z3.If(c, boolv(a), boolv(b))
    A, B = bv(a, w), bv(b, w)
    if A.eq(B):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, A, B)


class StrVal:
    """contents of a std::string (or any byte sequence)"""
    __slots__ = ("len", "arr")

    def __init__(self, n, arr):
        self.len = n
        self.arr = arr

    def at(self, i):
        return self.arr.sel(i)


def lit(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return StrVal(len(b), ALit(list(b)))


def add64(a, b):
    return lz(ladd(lin(a), lin(b)))


def sub64(a, b):
    return lz(lsub(lin(a), lin(b)))


def concat(a, b):
    if type(b.len) is int and b.len <= 64:
        arr = a.arr
        for k in range(b.len):
            arr = arr.store(add64(a.len, k), b.at(k))
        return StrVal(add64(a.len, b.len), arr)
    return StrVal(add64(a.len, b.len), ACopy(a.arr, a.len, b.len, b.arr, 0))


def substr(a, off, n):
    return StrVal(n, shift(a.arr, off))
