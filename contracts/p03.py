"""P03: base64 encoding is RFC 4648 for every length.
Contract of base64::detail::encode(p, n):  ensures result.len == 4 * ceil(n / 3)  and  forall K < result.len. result[K] == symbol(K)
with symbol(K) the symbol of the six bits 6K .. 6K+5 of the input (missing bits are 0) or '=' when 6K is beyond the last input bit.
base64::encode(container) and encodeInNetworkOrder are verified against the same specification of their bytes."""
from common import *
from irv.engine import div_const

HARNESS = "enc.cpp"
NATIVE = dict(src="p03.cpp")


def symbol(v):
    """the RFC 4648 character of a 6-bit value (8-bit term)"""
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))


def spec(at, n, m, p):
    """character K = 4 m + p of the encoding of the n bytes at(0..n-1)"""
    g = m * 3
    byte = lambda k: z3.If(z3.ULT(g + k, n), at(g + k), z3.BitVecVal(0, 8))
    b0, b1, b2 = byte(0), byte(1), byte(2)
    v = z3.If(p == 0, z3.LShR(b0, 2), z3.If(p == 1, ((b0 & 3) << 4) | z3.LShR(b1, 4), z3.If(p == 2, ((b1 & 15) << 2) | z3.LShR(b2, 6), b2 & 63)))
    pad = z3.Or(z3.And(p == 2, z3.UGE(g + 1, n)), z3.And(p == 3, z3.UGE(g + 2, n)))
    return z3.If(pad, z3.BitVecVal(61, 8), symbol(v))


def length(e, st, n):
    return 4 * div_const(e, st, z3.simplify(bv(n) + 2), 3)


def cand(e, cut, S):
    K, sp = e.ctx.K, e.ctx.spec
    for sl in strs(cut):
        yield 'all', lambda v, sl=sl: z3.Implies(z3.ULT(K, bv(v.val(sl).len)), bv(v.val(sl).at(K), 8) == sp)
        for l in ints(cut):
            yield 'upto', lambda v, l=l, sl=sl: z3.Implies(z3.ULT(K, bv(v.int(l))), bv(v.val(sl).at(K), 8) == sp)
    for l, i in cut.infos.items():
        if i.kind == 'sdata' or i.kind == 'arr':
            for l2 in ints(cut):
                yield 'upto', lambda v, l=l, l2=l2: z3.Implies(z3.ULT(K, bv(v.int(l2))), bv(v.val(l).sel(K), 8) == sp)


def post(e, st, kind, rv):
    if kind != 'return':
        e.oblige(st, False, 'encode returns')
        return
    r = e.get_str(st, Ptr(e.ctx.out))
    K = e.ctx.K
    e.oblige(st, bv(r.len) == length(e, st, e.ctx.n), 'ensures: 4*ceil(n/3) characters')
    for p in range(4):
        goal = z3.Implies(z3.And(e.ctx.p == p, z3.ULT(K, bv(r.len))), bv(r.at(K), 8) == e.ctx.spec)
        e.oblige(st, goal, f'ensures: every character 4m+{p} is the RFC 4648 symbol or padding')


def common_setup(e, st, s, n):
    m, p = z3.BitVecs('m p', 64)
    e.ctx.s, e.ctx.n, e.ctx.K, e.ctx.p = s, n, 4 * m + p, p
    st.assume(z3.And(z3.ULT(m, bv(1 << 50)), z3.ULT(p, 4)))
    e.ctx.spec = spec(lambda i: bv(s.at(i), 8), bv(n), m, p)
    e.ctx.out = out_obj(e, st, 'result', 32)


def setup(args):
    def f(e, st):
        oid, n, s = in_bytes(e, st, 'input')
        common_setup(e, st, s, n)
        return args(Ptr(e.ctx.out), n, Ptr(oid))
    return f


def setup_words(e, st):
    oid, n, s = in_bytes(e, st, 'words', 20)
    swapped = StrVal(20, AFn(lambda i: s.at(i ^ 3) if type(i) is int else bv(s.at(z3.simplify(bv(i) ^ 3)), 8)))
    common_setup(e, st, swapped, 20)
    return [Ptr(e.ctx.out), Ptr(oid)]


def witness(mode):
    def w(e, st, m):
        b = model_bytes(m, e.ctx.s)
        return None if b is None else bytes([mode]) + b
    return w


def proofs(m):
    return [Proof('base64::detail::encode', 'h_b64', setup(lambda o, n, p: [o, p, n]), post, [cand], witness=witness(0)),
            Proof('base64::encode(string_view)', 'h_b64v', setup(lambda o, n, p: [o, n, p]), post, [cand], witness=witness(0)),
            Proof('base64::encodeInNetworkOrder(array of 5 words)', 'h_b64n', setup_words, post, [cand])]
