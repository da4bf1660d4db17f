"""the wire format of weblink messages: specification of the encoding of parameters, written from the documentation of CodedType"""
from common import *
from irv.engine import FPS, Seg, Obj
from irv.val import *

NUM = {"bool": (1, None), "u8": (8, False), "i8": (8, True), "i16": (16, True), "i32": (32, True), "u32": (32, False), "i64": (64, True), "u64": (64, False)}
# leaf types: keys of NUM, 'flt', 'dbl', 'str'; a tuple is a list of (type, offset in the object)
TIS = [("i32", 32), ("str", 0)]
TSD = [("str", 8), ("dbl", 0)]
TBT = [("bool", 16), ([("u8", 8), ("dbl", 0)], 0)]
T_UNDEF, T_TRUE, T_FALSE, T_NUMBER, T_SMALL, T_STRING, T_EXC, T_TUPLE = 0, 1, 2, 3, 4, 5, 6, 18
F64 = z3.Float64()


def le(s, off, n):
    """n little-endian bytes at off"""
    return z3.Concat(*[bv(s.at(z3.simplify(bv(off) + k)), 8) for k in reversed(range(n))])


def is_num(t):
    return t in NUM or t in ("flt", "dbl")


def number_fits(t, v):
    """the double v converts to type t: its integral part is representable"""
    if t in ("bool", "flt", "dbl"):
        return z3.BoolVal(True)
    w, signed = NUM[t]
    r = z3.fpRoundToIntegral(z3.RTZ(), v)
    lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
    return z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(r, z3.FPVal(lo, F64)), z3.fpLT(r, z3.FPVal(hi, F64)))


def number_value(t, v, bits):
    """bits of the value of type t the double v converts to"""
    if t == "dbl":
        return bits
    if t == "flt":
        return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), v, z3.Float32()))
    if t == "bool":
        return z3.If(z3.fpEQ(v, z3.FPVal(0, F64)), z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
    w, signed = NUM[t]
    return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))


def bool_value(t, b):
    if t == "dbl":
        return z3.BitVecVal(0x3FF0000000000000 if b else 0, 64)
    if t == "flt":
        return z3.BitVecVal(0x3F800000 if b else 0, 32)
    return z3.BitVecVal(b, 8 if t == "bool" else NUM[t][0])


def decodings(t, s, n, off, at=0):
    """the cases in which bytes s[off..n) start with a parameter of type t: (condition, consumed, [(place, kind, value)])"""
    have = lambda k: z3.UGE(bv(n) - bv(off), bv(k))
    b = lambda k: bv(s.at(z3.simplify(bv(off) + k)), 8)
    zero = lambda t, at: sum((zero(u, at + o) for u, o in t), []) if type(t) is list else [(at, t, lit("") if t == "str" else z3.BitVecVal(0, {"flt": 32, "dbl": 64, "bool": 8}.get(t) or NUM[t][0]))]
    out = [(z3.And(have(1), b(0) == T_UNDEF), bv(1), zero(t, at))]
    if type(t) is list:
        partial = [(z3.And(have(2), b(0) == T_TUPLE, b(1) == len(t)), bv(2), [])]
        for u, o in t:
            nxt = []
            for c, used, vals in partial:
                for c2, used2, vals2 in decodings(u, s, n, z3.simplify(bv(off) + used), at + o):
                    nxt.append((z3.And(c, c2), z3.simplify(used + used2), vals + vals2))
            partial = nxt
        out += partial
    elif t == "str":
        n1 = z3.ZeroExt(56, b(1))
        out.append((z3.And(have(2), b(0) == T_SMALL, have(2), z3.UGE(bv(n) - bv(off) - 2, n1)), n1 + 2, [(at, t, substr(s, z3.simplify(bv(off) + 2), n1))]))
        n2 = z3.ZeroExt(48, le(s, z3.simplify(bv(off) + 1), 2))
        out.append((z3.And(have(3), z3.Or(b(0) == T_STRING, b(0) == T_EXC), z3.UGE(bv(n) - bv(off) - 3, n2)), n2 + 3, [(at, t, substr(s, z3.simplify(bv(off) + 3), n2))]))
    else:
        out.append((z3.And(have(1), b(0) == T_TRUE), bv(1), [(at, t, bool_value(t, 1))]))
        out.append((z3.And(have(1), b(0) == T_FALSE), bv(1), [(at, t, bool_value(t, 0))]))
        bits = le(s, z3.simplify(bv(off) + 1), 8)
        v = z3.fpBVToFP(bits, F64)
        out.append((z3.And(have(9), b(0) == T_NUMBER, number_fits(t, v)), bv(9), [(at, t, number_value(t, v, bits))]))
    return out


def leaves(t, at=0):
    return sum((leaves(u, at + o) for u, o in t), []) if type(t) is list else [(at, t)]


def tsize(t):
    return 48 if type(t) is list else 32 if t == "str" else 8 if t == "dbl" else 4 if t == "flt" else 1 if t == "bool" else NUM[t][0] // 8


def get_leaf(e, st, obj, at, t):
    if t == "str":
        return e.get_str(st, Ptr(obj, at))
    return e.load(st, Ptr(obj, at), tsize(t))


def runtime_error(e, st):
    return e.models.is_subclass(e, st.exc[1], "_ZTISt13runtime_error")


def put_span(e, st, oid, off, ptr, n):
    o = st.w(oid)
    o.cells[off] = (8, ptr)
    o.cells[off + 8] = (8, n)


def get_span(e, st, oid, off=0):
    return e.load(st, Ptr(oid, off), 8, True), e.load(st, Ptr(oid, off + 8), 8)


def ptr_at(e, st, p, obj, off):
    p = e.to_ptr(st, p)
    return bv(p.off) == off if p.obj == obj else z3.BoolVal(False)


def same_value(e, st, t, got, val):
    """equality of a decoded leaf and its specification, as a goal"""
    if t == "str":
        k = e.fresh('k', 64)
        return z3.And(bv(got.len) == bv(val.len), z3.Implies(z3.ULT(k, bv(got.len)), bv(got.at(k), 8) == bv(val.at(k), 8)))
    got = bv(got, val.size())
    if t == "flt":
        f = lambda x: z3.fpBVToFP(x, z3.Float32())
        return z3.Or(got == val, z3.And(z3.fpIsNaN(f(got)), z3.fpIsNaN(f(val))))
    return got == val
