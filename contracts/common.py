"""helpers shared by the contracts"""
import z3
from irv.val import *
from irv.run import *
from irv.engine import Ptr


def ints(cut):
    return [l for l, i in cut.infos.items() if i.kind in ('int', 'ptr') and (i.kind == 'ptr' or i.w == 64)]


def strs(cut):
    return [l for l, i in cut.infos.items() if i.kind == 'str']


def input_witness(e, st, m):
    return model_bytes(m, e.ctx.s)


# ---- suffix specifications: L(i) and W(i, k) are the length and the bytes of what the input's suffix at i denotes.
# e.ctx.unfold(i, k) gives their defining equations at i; e.ctx.K is an arbitrary but fixed output index.
def suffix_defs(e, cut, v):
    out = []
    for l in ints(cut):
        i = v.int(l)
        if i is None:
            continue
        for sl in strs(cut):
            s = v.val(sl)
            if s is not None:
                out += e.ctx.unfold(bv(i), e.ctx.K - bv(s.len))
    return out


def suffix_cand(e, cut, S):
    K, L, W = e.ctx.K, e.ctx.L, e.ctx.V
    for l in ints(cut):
        for sl in strs(cut):
            yield 'len', lambda v, l=l, sl=sl: bv(v.val(sl).len) + L(bv(v.int(l))) == L(bv(0))
            yield 'pre', lambda v, l=l, sl=sl: z3.Implies(z3.ULT(K, bv(v.val(sl).len)), bv(v.val(sl).at(K), 8) == W(bv(0), K))
            yield 'suf', lambda v, l=l, sl=sl: z3.Implies(z3.UGE(K, bv(v.val(sl).len)), W(bv(0), K) == W(bv(v.int(l)), K - bv(v.val(sl).len)))


def suffix_post(what):
    def post(e, st, kind, rv):
        if kind != 'return':
            e.oblige(st, False, what + ' returns')
            return
        K, L, W = e.ctx.K, e.ctx.L, e.ctx.V
        r = e.get_str(st, Ptr(e.ctx.out))
        e.oblige(st, bv(r.len) == L(bv(0)), 'ensures: length of the result')
        e.oblige(st, z3.Implies(z3.ULT(K, bv(r.len)), bv(r.at(K), 8) == W(bv(0), K)), 'ensures: every byte of the result')
    return post


def suffix_setup(arg, L, W, unfold, call):
    """input string `arg`, output string, ghost suffix functions"""
    def setup(e, st):
        oid, n, s = in_bytes(e, st, arg)
        e.ctx.s, e.ctx.n, e.ctx.K, e.ctx.L, e.ctx.V = s, n, z3.BitVec('K', 64), L, W
        e.ctx.unfold = lambda i, k: unfold(s, n, i, k)
        e.ctx.out = out_obj(e, st, 'result', 32)
        for f in e.ctx.unfold(bv(0), e.ctx.K):
            st.assume(f)
        return call(Ptr(e.ctx.out), n, Ptr(oid))
    return setup


def view_at(e, st, p):
    """contents of the std::string_view object at p"""
    n = e.load(st, p, 8)
    d = e.load(st, Ptr(p.obj, ladd(p.off, 8)), 8, isptr=True)
    if type(n) is int and n == 0:
        return lit("")
    return e.region(st, d, n)


def text_is(s, t):
    t = t.encode() if isinstance(t, str) else t
    if type(s.len) is int and s.len != len(t):
        return z3.BoolVal(False)
    return z3.And(bv(s.len) == len(t), *[bv(s.at(k), 8) == c for k, c in enumerate(t)])


def layout(e, rec, *names):
    """offsets of the named members of a record; a renamed member leaves the proof undecided"""
    ms = e.m.members(rec)
    d = {n: off for n, off, _, _ in ms or []}
    for n in names:
        if n not in d:
            raise ToolLimit(f"record {rec} has no member {n}")
    return d


def record_size(e, rec):
    ms = e.m.members(rec)
    if not ms:
        raise ToolLimit("unknown record " + rec)
    return (max(o + s for _, o, s, _ in ms) + 7) // 8 * 8
