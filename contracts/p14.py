"""P14: header lookup is case-insensitive and complete.
fold(c) is the ASCII upper case of a character.  For header i: E(i) := its name has the length of the requested one and the same characters up to fold;
C(i) := its value contains the requested text up to fold, at position P(i).  For a list of H headers (any number, any contents):
getHeaderValue(n)     ensures  a value exactly if some E(i) holds, namely that of the first such header.
getHeadersValues(n)   ensures  the list of the values of exactly the headers with E(i), in order: the value of header i is pushed as element number CNT(i) = |{k < i: E(k)}| if and only
                               if E(i), and CNT(H) values are pushed.
headersContain(n, t)  (t not empty) ensures  true exactly if E(i) and C(i) for some i; getHeadersValues enters through its contract.
isUpgradeRequest(p)   ensures  headersContain("Connection", "upgrade") and headersContain("Upgrade", p).
std::equal and std::search are assumed contracts, their predicate is verified (equality up to fold); comparisons written as loops are verified with the definition of E at the cursor."""
from common import *
from irv.vectors import *
from irv.algo import *
from irv.loops import read
from p17 import header_table, name_of, value_of, HEADERS, STRIDE, NAME, VALUE, iterators

HARNESS = "http.cpp"
NATIVE = dict(src="p14.cpp")
SECONDS = 200
B64, BOOL = z3.BitVecSort(64), z3.BoolSort()
E_, C_ = z3.Function('E', B64, BOOL), z3.Function('C', B64, BOOL)
DIFF, CNT = z3.Function('DIFF', B64, B64), z3.Function('CNT', B64, B64)
SEL = z3.Function('SEL', B64, B64)


def index_in(v, table):
    """the index i when the string is entry i of a table of header texts"""
    n = v.len
    if z3.is_expr(n) and z3.is_app(n) and n.num_args() == 1 and n.decl().eq(table(bv(0)).decl()):
        return n.arg(0)
    return None


def is_name(c, s):
    return index_in(s, c.tabs[(NAME, STRIDE)].base_len)


def is_value(c, s):
    return index_in(s, c.tabs[(VALUE, STRIDE)].base_len)


def facts(c, i, ks=()):
    """definition of E at header i (characters ks), and of CNT"""
    i = bv(i)
    n = name_of(c, i)
    d = DIFF(i)
    out = [z3.Implies(E_(i), bv(n.len) == bv(c.name.len)), z3.ULT(bv(n.len), bv(1 << 46)),
           z3.Implies(z3.And(z3.Not(E_(i)), bv(n.len) == bv(c.name.len)), z3.And(z3.ULT(d, bv(n.len)), fold(n.at(d)) != fold(c.name.at(d))))]
    out += [z3.Implies(z3.And(E_(i), z3.ULT(bv(k), bv(n.len))), fold(n.at(bv(k))) == fold(c.name.at(bv(k)))) for k in ks]
    if c.what == "values":
        out += [CNT(bv(0)) == 0, z3.Implies(z3.ULT(i, c.H), CNT(i + 1) == CNT(i) + z3.If(E_(i), bv(1), bv(0))), z3.ULE(CNT(i), i)]
    if c.what == "value":
        out += [z3.Implies(c.has, z3.And(z3.ULT(c.R, c.H), E_(c.R))), z3.Implies(z3.And(c.has, z3.ULT(i, c.R)), z3.Not(E_(i))), z3.Implies(z3.And(z3.Not(c.has), z3.ULT(i, c.H)), z3.Not(E_(i)))]
    if c.what == "contain":
        out += [z3.Implies(c.any, z3.And(z3.ULT(c.Wn, c.H), E_(c.Wn), C_(c.Wn))), z3.Implies(z3.And(z3.Not(c.any), z3.ULT(i, c.H)), z3.Not(z3.And(E_(i), C_(i))))]
    return out


def equal(e, st, a, name, ins):
    """std::equal(first1, last1, first2[, last2], predicate)"""
    c = e.ctx
    dem = e.m.demangled(name)
    predicate(e, st, dem, "std::equal", a[-1] if a else None)
    p, q, r = (e.to_ptr(st, x) for x in a[:3])
    n = ptr_diff(e, st, q, p)
    e.range_bounds(st, p, n, "read") if not isinstance(p.obj, tuple) else None
    x, y = e.region(st, p, n), e.region(st, r, n)
    for u, v, pu, pv in ((x, y, p, r), (y, x, r, p)):
        t = owner_text(e, st, pu)
        i = is_name(c, t) if t is not None else None
        if i is not None and pv.obj == c.nameobj and e.must(st, z3.And(bv(lz(pv.off)) == 0, bv(n) == bv(t.len), bv(n) == bv(c.name.len))):
            for f in facts(c, i):
                st.assume(f)
            return E_(i)
    raise ToolLimit("std::equal on other texts")


equal.accept = lambda e, name, qual, params, targs: params is not None and len(params) in (4, 5)


def search(e, st, a, name, ins):
    """std::search(first1, last1, first2, last2, predicate) for a text that is not empty"""
    c = e.ctx
    dem = e.m.demangled(name)
    predicate(e, st, dem, "std::search", a[4] if len(a) > 4 else None)
    p, q, r, s = (e.to_ptr(st, x) for x in a[:4])
    n, k = ptr_diff(e, st, q, p), ptr_diff(e, st, s, r)
    t = owner_text(e, st, p)
    i = is_value(c, t) if t is not None else None
    if i is None or r.obj != c.textobj or not e.must(st, z3.And(bv(n) == bv(t.len), bv(lz(r.off)) == 0, bv(k) == bv(c.text.len))):
        raise ToolLimit("std::search on other texts")
    for f in facts(c, i):
        st.assume(f)
    pos = e.fresh("found", 64)
    st.assume(z3.If(C_(i), z3.And(z3.ULT(pos, bv(n)), z3.ULE(pos + bv(k), bv(n))), pos == bv(n)))
    return p.add(lin(pos))


search.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 5


def push(e, st, a, name, ins):
    """the list of results is a ghost sequence"""
    c = e.ctx
    _, _, _ = e.models.info(e, name)
    s = S(e, st, a[1])
    i = is_value(c, s)
    e.oblige(st, i is not None, 'ensures: the value of a header is listed')
    n = bv(st.ghost["count"])
    for f in facts(c, i):
        st.assume(f)
    e.oblige(st, z3.And(z3.ULT(i, c.H), E_(i)), 'ensures: only headers of that name are listed')
    e.oblige(st, n == CNT(i), 'ensures: values are listed in order, each once')
    st.ghost["count"] = z3.simplify(n + 1)
    return None


def values_call(e, st, a, name, ins):
    """contract of getHeadersValues"""
    c = e.ctx
    e.oblige(st, e.to_ptr(st, a[1]).obj == c.hs, 'ensures: the headers of this message')
    p = e.to_ptr(st, a[3])
    e.oblige(st, z3.And(z3.BoolVal(p.obj == c.nameobj), bv(lz(p.off)) == 0, bv(a[2]) == bv(c.name.len)), 'ensures: the requested name is looked up')
    c.N = CNT(c.H)
    st.assume(z3.ULE(c.N, c.H))
    V = c.tabs[(VALUE, STRIDE)]
    c.list = list_table(e, st, e.to_ptr(st, a[0]), StrTab(lambda j: V.base_len(SEL(j)), lambda j, k: V.base_at(SEL(j), k)), c.N)
    return None


def listed(c, j):
    """contract of getHeadersValues at element j"""
    j = bv(j)
    return [z3.Implies(z3.ULT(j, CNT(c.H)), z3.And(z3.ULT(SEL(j), c.H), E_(SEL(j)), CNT(SEL(j)) == j)),
            z3.Implies(c.any, z3.And(SEL(CNT(c.Wn)) == c.Wn, z3.ULT(CNT(c.Wn), CNT(c.H)))), z3.ULE(CNT(c.H), c.H)] + facts(c, SEL(j))


def common_setup(e, st, what):
    c = e.ctx
    c.what = what
    c.hs = out_obj(e, st, 'headers object', 24)
    header_table(e, st, Ptr(c.hs))
    c.nameobj, n, c.name = in_bytes(e, st, 'name', lim=1 << 46)
    c.K = z3.BitVec('K', 64)
    c.list = None
    return [Ptr(c.hs), c.name.len, Ptr(c.nameobj)]


def value_setup(e, st):
    c = e.ctx
    a = common_setup(e, st, "value")
    c.has, c.R = z3.Bool('HAS'), z3.BitVec('R', 64)
    c.out = out_obj(e, st, 'optional', 40)
    for f in facts(c, c.R):
        st.assume(f)
    return a + [Ptr(c.out)]


def value_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    if kind != 'return':
        return
    got = e.load(st, Ptr(c.out, 32), 1)
    got = z3.BoolVal(bool(got)) if isinstance(got, int) else got if z3.is_bool(got) else bv(got, 8) & 1 == 1
    for x in (True, False):
        s = st.clone()
        cond = got if x else z3.Not(got)
        if not e.feasible(s, cond):
            continue
        s.assume(cond)
        e.oblige(s, c.has if x else z3.Not(c.has), 'ensures: a value exactly if some header has the name')
        if x:
            s.assume(c.has)
            v, w = e.get_str(s, Ptr(c.out)), value_of(c, c.R)
            e.oblige(s, bv(v.len) == bv(w.len), 'ensures: the value of the first header of that name')
            e.oblige(s, z3.Implies(z3.ULT(c.K, bv(w.len)), bv(v.at(c.K), 8) == bv(w.at(c.K), 8)), 'ensures: the value of the first header of that name')


def values_setup(e, st):
    c = e.ctx
    a = common_setup(e, st, "values")
    c.out = out_obj(e, st, 'list', 24)
    st.ghost["count"] = bv(0)
    for f in facts(c, bv(0)) + facts(c, c.H):
        st.assume(f)
    return a + [Ptr(c.out)]


def values_post(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        e.oblige(st, bv(st.ghost["count"]) == CNT(e.ctx.H), 'ensures: every header of that name is listed')


def contain_setup(e, st):
    c = e.ctx
    a = common_setup(e, st, "contain")
    c.textobj, n, c.text = in_bytes(e, st, 'text', lim=1 << 46)
    st.assume(bv(n) != 0)
    c.any, c.Wn = z3.Bool('ANY'), z3.BitVec('WITNESS', 64)
    for f in facts(c, c.Wn) + listed(c, bv(0)) + listed(c, CNT(c.Wn)):
        st.assume(f)
    return a + [c.text.len, Ptr(c.textobj)]


def contain_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        r = z3.BoolVal(bool(rv)) if isinstance(rv, int) else rv if z3.is_bool(rv) else rv != 0
        for j in iterators(e, st, c.list, NODE) if c.list else []:
            for f in listed(c, j):
                st.assume(f)
        e.oblige(st, r == c.any, 'ensures: true exactly if some header of that name contains the text')


def cursors(e, cut):
    """(formula of the index, kind) of locations that walk over headers, list elements or characters of names"""
    c = e.ctx
    out = []
    for l, i in cut.infos.items():
        if l[0] == "ghost":
            continue
        if i.kind == 'ptr' and i.obj == c.store:
            out.append((l, "header", STRIDE))
        elif i.kind == 'ptr' and c.list is not None and i.obj == c.list:
            out.append((l, "list", NODE))
        elif i.kind == 'ptr':
            out.append((l, "char", 1))
        elif i.kind == 'int' and i.w == 64:
            out.append((l, "any", 1))
    return out


def compared(e, st, fi):
    """indices of the headers whose texts the function of the loop works on"""
    out = {}
    for p in st.frames[fi].loc.values():
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "str":
            p = e.str_owner(p)
            if p.obj == e.ctx.store:
                o = lin(p.off)
                k = ldiv(ladd(o, -((o if type(o) is int else o.c) % STRIDE)), STRIDE)
                if k is not None:
                    k = lz(k)
                    out[k if type(k) is int else k.get_id()] = k
    return list(out.values())


def value_at(v, l, scale):
    x = v.int(l)
    if x is None or scale == 1:
        return x
    k = ldiv(lin(x), scale)
    return z3.UDiv(bv(x), bv(scale)) if k is None else lz(k)


def cand(e, cut, S):
    c = e.ctx
    cs = cursors(e, cut)
    for l, kind, scale in cs:
        if kind in ("header", "any"):
            yield 'in', lambda v, l=l, s=scale: z3.ULE(bv(value_at(v, l, s)), c.H)
            if c.what == "value":
                yield 'first', lambda v, l=l, s=scale: z3.Implies(c.has, z3.ULE(bv(value_at(v, l, s)), c.R))
            if c.what == "values":
                yield 'count', lambda v, l=l, s=scale: bv(v.st.ghost["count"]) == CNT(bv(value_at(v, l, s)))
            if c.what == "contain":
                yield 'none yet', lambda v, l=l, s=scale: z3.Implies(c.any, z3.ULE(bv(value_at(v, l, s)), c.Wn))
        if kind in ("list", "any") and c.what == "contain":
            yield 'in', lambda v, l=l, s=scale: z3.ULE(bv(value_at(v, l, s)), CNT(c.H))
            yield 'none yet', lambda v, l=l, s=scale: z3.Implies(c.any, z3.ULE(bv(value_at(v, l, s)), CNT(c.Wn)))
        if kind in ("char", "any"):
            for l2, kind2, s2 in cs:
                if kind2 in ("header", "any") and l2 != l:
                    def same_so_far(v, l=l, l2=l2, s2=s2):
                        i, p = bv(value_at(v, l2, s2)), bv(v.int(l))
                        d = DIFF(i)
                        return z3.Implies(z3.ULT(d, p), fold(name_of(c, i).at(d)) == fold(c.name.at(d)))
                    yield 'prefix', same_so_far
            for n in range(1, 3):
                def nth_same_so_far(v, l=l, n=n):
                    w = compared(e, v.st, cut.fi)
                    d = DIFF(bv(w[-n])) if len(w) >= n else None
                    return z3.BoolVal(True) if d is None else z3.Implies(z3.ULT(d, bv(v.int(l))), fold(name_of(c, bv(w[-n])).at(d)) == fold(c.name.at(d)))
                yield 'prefix', nth_same_so_far


def defs(e, cut, v):
    c = e.ctx
    out = []
    cs = cursors(e, cut)
    chars = [bv(v.int(l)) for l, kind, s in cs if kind in ("char", "any") and v.int(l) is not None]
    its = iterators(e, v.st, c.store, STRIDE)
    for l, kind, s in cs:
        x = value_at(v, l, s)
        if x is None:
            continue
        if kind in ("header", "any"):
            its.append(x)
        if kind in ("list", "any") and c.what == "contain":
            out += listed(c, x)
    for i in its:
        out += facts(c, i, chars)
    return out


def upgrade_setup(e, st):
    c = e.ctx
    c.q = out_obj(e, st, 'request', record_size(e, "webfront::http::Request"))
    oid, n, c.p = in_bytes(e, st, 'protocol', lim=1 << 46)
    c.calls = [z3.Bool('connection says upgrade'), z3.Bool('upgrade names the protocol')]
    return [Ptr(c.q), n, Ptr(oid)]


def contain_call(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, e.to_ptr(st, a[0]).obj == c.q, 'ensures: the headers of this request')
    h, t = e.region(st, e.to_ptr(st, a[2]), a[1]), e.region(st, e.to_ptr(st, a[4]), a[3])
    def is_folded(s, t):
        return z3.And(bv(s.len) == len(t), *[fold(s.at(k)) == fold(x) for k, x in enumerate(t.encode())])
    up = e.must(st, is_folded(h, "Connection")) and e.must(st, is_folded(t, "upgrade"))
    pr = e.must(st, is_folded(h, "Upgrade")) and e.to_ptr(st, a[4]).obj != 0 and e.must(st, z3.And(bv(t.len) == bv(c.p.len), z3.Implies(z3.ULT(z3.BitVec('K', 64), bv(t.len)), bv(t.at(z3.BitVec('K', 64)), 8) == bv(c.p.at(z3.BitVec('K', 64)), 8))))
    e.oblige(st, up or pr, 'ensures: the Connection and Upgrade headers decide')
    return c.calls[0] if up else c.calls[1]


def upgrade_post(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        r = z3.BoolVal(bool(rv)) if isinstance(rv, int) else rv if z3.is_bool(rv) else rv != 0
        e.oblige(st, r == z3.And(e.ctx.calls), 'ensures: an upgrade needs both headers')


LISTED = dict(STRING_LIST)
for _k in ("push_back", "emplace_back"):
    LISTED["std::list::" + _k] = guarded(push, "std::list")
TEXT = {"std::equal": equal, "std::search": search}


def proofs(m):
    o = dict(unroll_limit=0)
    return [Proof('Headers::getHeaderValue', 'l_value', value_setup, value_post, cand=[cand], defs=[defs], models=merge(HEADERS, TEXT), opts=o),
            Proof('Headers::getHeadersValues', 'l_values', values_setup, values_post, cand=[cand], defs=[defs], models=merge(HEADERS, LISTED, TEXT), opts=o),
            Proof('Headers::headersContain', 'l_contain', contain_setup, contain_post, cand=[cand], defs=[defs], models=merge(HEADERS, STRING_LIST, TEXT, {"webfront::http::Headers::getHeadersValues": values_call}), opts=o),
            Proof('Request::isUpgradeRequest', 'q_upgrade', upgrade_setup, upgrade_post, models={"webfront::http::Headers::headersContain": contain_call})]
