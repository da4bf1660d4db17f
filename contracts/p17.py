"""P17: responses are serialised as valid HTTP/1.1 messages.
SPEC is the byte stream denoted by a response: "HTTP/1.1 <code> <reason>" CRLF, for each header i: name ": " value CRLF, CRLF, content.
OFF(i) is the position of header i in it (prefix sums of the header sizes), SPEC(y) the byte at position y; both are defined by their equations at header i.
Contract of Response::toBuffers(), for every status, any number of headers and any content:
 ensures  the buffers, one after the other, are SPEC (each appended buffer equals SPEC at the bytes appended so far, and all of it was appended at the end); every buffer lies
          in the response's own strings or in static constants, and those are unchanged when toBuffers returns; no static state is written.
Contract of Response::getStatusResponse(code): the status, a content naming it, and the headers Content-Length = size of the content, Content-Type = text/html."""
from common import *
from irv.vectors import *
from irv.models import dec_len
from irv.loops import read

HARNESS = "http.cpp"
NATIVE = dict(src="p17.cpp")
SECONDS = 300
RESP, HDR = "webfront::http::Response", "webfront::http::Headers::Header"
CB = "webfront::networking::buffers::ConstBuffer"
CODES = {101: "Switching Protocols", 200: "OK", 400: "Bad Request", 404: "Not Found", 501: "Not Implemented", 506: "Variant Also Negotiates"}
B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
OFF, SPEC = z3.Function('OFF', B64, B64), z3.Function('SPEC', B64, B8)
STRIDE, NAME, VALUE = 64, 0, 32
HEADERS = record_models(HDR, [NAME, VALUE], STRIDE)


def header_table(e, st, at, name='headers'):
    """an arbitrary list of headers in the vector at `at`"""
    c = e.ctx
    c.store = storage(e, st, name, [NAME, VALUE], STRIDE)
    c.H = z3.BitVec(name + '.count', 64)
    st.assume(z3.ULT(c.H, 1 << 32))
    make_vector(e, st, at, c.store, c.H, STRIDE)
    c.tabs = dict(st.objs[c.store].sarr)


def name_of(c, i):
    t = c.tabs[(NAME, STRIDE)]
    return StrVal(t.base_len(bv(i)), AFn(lambda k: t.base_at(bv(i), bv(k))))


def value_of(c, i):
    t = c.tabs[(VALUE, STRIDE)]
    return StrVal(t.base_len(bv(i)), AFn(lambda k: t.base_at(bv(i), bv(k))))


def iterators(e, st, oid, stride):
    """indices of the elements which live local values point into: the element or the characters of one of its texts"""
    out = []

    def into(p):
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "str":
            p = e.str_owner(p)
        if isinstance(p, Ptr) and p.obj == oid:
            o = lin(p.off)
            i = ldiv(ladd(o, -((o if type(o) is int else o.c) % stride)), stride)
            if i is not None:
                out.append(lz(i))

    for o in st.objs.values():
        if o.kind == "alloca" and o.alive:
            for v in o.cells.values():
                into(v[1])
    for f in st.frames:
        for v in f.loc.values():
            into(v)
    seen, res = set(), []
    for i in out:
        k = i if type(i) is int else i.get_id()
        if k not in seen:
            seen.add(k)
            res.append(i)
    return res


def sizes(c, i):
    """definition of OFF at header i (prefix sums without overflow grow)"""
    i = bv(i)
    ln, lv = bv(name_of(c, i).len), bv(value_of(c, i).len)
    inside = z3.ULT(i, c.H)
    return [OFF(bv(0)) == c.start, z3.ULT(OFF(c.H), bv(1 << 60)), z3.ULE(c.start, OFF(c.H)),
            z3.Implies(z3.ULE(i, c.H), z3.And(z3.ULE(c.start, OFF(i)), z3.ULE(OFF(i), OFF(c.H)))),
            z3.Implies(inside, z3.And(z3.ULT(ln, 1 << 47), z3.ULT(lv, 1 << 47), OFF(i + 1) == OFF(i) + ln + lv + 4, z3.ULE(OFF(i + 1), OFF(c.H))))]


def chars(c, i, k):
    """definition of SPEC at byte k of the parts of header i"""
    i = bv(i)
    n, v = name_of(c, i), value_of(c, i)
    ln, lv = bv(n.len), bv(v.len)
    o = OFF(i)
    return [z3.Implies(z3.ULT(i, c.H), z3.And(z3.Implies(z3.ULT(k, ln), SPEC(o + k) == bv(n.at(k), 8)), SPEC(o + ln) == 0x3a, SPEC(o + ln + 1) == 0x20,
                                              z3.Implies(z3.ULT(k, lv), SPEC(o + ln + 2 + k) == bv(v.at(k), 8)), SPEC(o + ln + 2 + lv) == 13, SPEC(o + ln + 3 + lv) == 10))]


def ends(c, k):
    """definition of SPEC in the status line, the empty line and the content"""
    end = OFF(c.H)
    return [SPEC(bv(j)) == b for j, b in enumerate(c.status_text.encode())] + [z3.Implies(z3.ULT(k, c.start), SPEC(k) == bv(c.status.at(k), 8)), SPEC(end) == 13, SPEC(end + 1) == 10,
            z3.Implies(z3.ULT(k, bv(c.content.len)), SPEC(end + 2 + k) == bv(c.content.at(k), 8))]


def general(c, i, y):
    """definition of SPEC at byte y, if it belongs to header i or to the parts around the headers"""
    d = y - OFF(bv(i))
    ln = bv(name_of(c, i).len)
    end = OFF(c.H)
    return chars(c, i, d) + chars(c, i, d - ln - 2) + ends(c, y - end - 2) + [z3.Implies(z3.ULT(y, c.start), SPEC(y) == bv(c.status.at(y), 8))]


def total(c):
    return OFF(c.H) + 2 + bv(c.content.len)


def append(e, st, p, n):
    c = e.ctx
    pos = bv(st.ghost["pos"])
    if type(n) is int and n == 0:
        return
    if p.obj == 0:
        e.oblige(st, bv(n) == 0, 'ensures: buffers point to memory')
        return
    s = e.region(st, p, n)
    y = pos + c.K
    its = iterators(e, st, c.store, STRIDE)
    for i in its:
        for f in sizes(c, i) + chars(c, i, c.K):
            st.assume(f)
    goal = z3.Implies(z3.ULT(c.K, bv(n)), bv(s.at(c.K), 8) == SPEC(y))
    if not e.must(st, goal):
        for i in its or [0]:
            for f in general(c, i, y):
                st.assume(f)
    e.oblige(st, goal, 'ensures: the next bytes of the message')
    own = e.str_owner(p) if isinstance(p.obj, tuple) and p.obj[0] == "str" else None
    const = own is None and not isinstance(p.obj, tuple) and st.objs[p.obj].kind == "global"
    stable = const or (own is not None and own.obj in (c.r, c.store))
    e.oblige(st, stable, 'ensures: buffers lie in the response itself or in constants')
    if own is not None and own.obj == c.r:
        st.ghost["held"] = st.ghost["held"] + ((own.off, e.get_str(st, own)),)
    st.ghost["pos"] = z3.simplify(pos + bv(n))


def cb_push(e, st, a, name, ins):
    if len(a) == 2:
        p = e.to_ptr(st, a[1])
        append(e, st, e.load(st, p, 8, True), e.load(st, p.add(8), 8))
    elif len(a) == 3:
        append(e, st, e.load(st, a[1], 8, True), e.load(st, a[2], 8))
    else:
        raise ToolLimit("buffer built from " + str(len(a) - 1) + " arguments")
    return a[0]


def cb_ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    ps = [p for p in ps if not p.startswith("std::allocator")]
    if ps and not (len(ps) == 1 and ps[0].endswith("&&")):
        raise ToolLimit("vector of buffers built from " + str(ps))
    return None


def cb_nothing(e, st, a, name, ins):
    return None


def only(fn):
    def h(e, st, a, name, ins):
        return fn(e, st, a, name, ins)
    h.accept = lambda e, name, qual, params, targs: elem_of(e, name) == CB
    return h


def refuse(e, st, a, name, ins):
    raise ToolLimit("operation on the vector of buffers")


BUFFERS = {"std::vector::" + k: only(f) for k, f in dict({k: refuse for k in ("insert", "resize", "assign", "operator=", "clear", "pop_back", "swap", "erase")}, vector=cb_ctor, push_back=cb_push, emplace_back=cb_push,
           reserve=cb_nothing, shrink_to_fit=cb_nothing, **{"~vector": cb_nothing}).items()}
MODELS = merge(HEADERS, BUFFERS)


def response(e, st):
    c = e.ctx
    c.r = out_obj(e, st, 'response', record_size(e, RESP))
    c.L = layout(e, RESP, "headers", "statusCode", "content")
    c.content = e.fresh_str(st, 'content')
    header_table(e, st, Ptr(c.r, c.L["headers"]))
    e.set_str(st, Ptr(c.r, c.L["content"]), c.content)
    for n, off, size, t in e.m.members(RESP):
        if n not in ("headers", "statusCode", "content"):
            if "basic_string" not in t:
                raise ToolLimit("unknown member " + n)
            e.set_str(st, Ptr(c.r, off), e.fresh_str(st, n))     # left by earlier calls
    c.K = z3.BitVec('K', 64)


def setup(code):
    def f(e, st):
        c = e.ctx
        response(e, st)
        c.status_text = f"HTTP/1.1 {code} {CODES[code]}\r\n"
        c.status = lit(c.status_text)
        c.start = bv(c.status.len)
        st.w(c.r).cells[c.L["statusCode"]] = (2, code)
        c.out = out_obj(e, st, 'buffers', 24)
        st.ghost["pos"] = bv(0)
        st.ghost["held"] = ()
        for g in sizes(c, 0) + sizes(c, c.H) + ends(c, c.K):
            st.assume(g)
        st.assume(z3.ULT(bv(c.content.len), 1 << 46))
        return [Ptr(c.r), Ptr(c.out)]
    return f


def cand(e, cut, S):
    c = e.ctx
    for l, i in cut.infos.items():
        if i.kind == 'ptr' and i.obj == c.store:
            def idx(v, l=l):
                k = ldiv(lin(v.int(l)), STRIDE)
                return z3.UDiv(bv(v.int(l)), bv(STRIDE)) if k is None else bv(lz(k))
            yield 'pos', lambda v, idx=idx: bv(v.st.ghost["pos"]) == OFF(idx(v))
            yield 'in', lambda v, idx=idx: z3.ULE(idx(v), c.H)
        if i.kind == 'int' and i.w == 64:
            yield 'pos', lambda v, l=l: bv(v.st.ghost["pos"]) == OFF(bv(v.int(l)))
            yield 'in', lambda v, l=l: z3.ULE(bv(v.int(l)), c.H)


def defs(e, cut, v):
    c = e.ctx
    out = []
    for l, i in cut.infos.items():
        x = None
        if i.kind == 'ptr' and i.obj == c.store:
            k = ldiv(lin(v.int(l)), STRIDE)
            x = lz(k) if k is not None else None
        elif i.kind == 'int' and i.w == 64 and l[0] != "ghost":
            x = v.int(l)
        if x is not None:
            out += sizes(c, x) + sizes(c, bv(x) + 1)
    return out


def post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'toBuffers returns')
    if kind != 'return':
        return
    e.oblige(st, bv(st.ghost["pos"]) == total(c), 'ensures: the whole message and nothing else')
    for off, s in st.ghost["held"]:
        now = e.get_str(st, Ptr(c.r, off))
        e.oblige(st, bv(now.len) == bv(s.len), 'ensures: buffers keep their contents')
        e.oblige(st, z3.Implies(z3.ULT(c.K, bv(s.len)), bv(now.at(c.K), 8) == bv(s.at(c.K), 8)), 'ensures: buffers keep their contents')
    e.oblige(st, all(st.objs[c.store].sarr[k] is t for k, t in c.tabs.items()) and st.objs[c.store].alive, 'frame: the headers are unchanged')


# ---------------------------------------------------------------- status responses
def status_setup(code):
    def f(e, st):
        c = e.ctx
        c.r = out_obj(e, st, 'response', record_size(e, RESP))
        c.L = layout(e, RESP, "headers", "statusCode", "content")
        return [Ptr(c.r), code]
    return f


def status_post(code):
    def f(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'returns')
        if kind != 'return':
            return
        text = f"<html><head><title>{CODES[code]}</title></head><body><h1>{code} {CODES[code]}</h1></body></html>"
        e.oblige(st, bv(e.load(st, Ptr(c.r, c.L["statusCode"]), 2), 16) == code, 'ensures: the status')
        e.oblige(st, text_is(e.get_str(st, Ptr(c.r, c.L["content"])), text), 'ensures: the content names the status')
        hs = headers_of(e, st, Ptr(c.r, c.L["headers"]))
        want = [("Content-Length", str(len(text))), ("Content-Type", "text/html")]
        e.oblige(st, len(hs) == len(want), 'ensures: two headers')
        for (n, v), (wn, wv) in zip(hs, want):
            e.oblige(st, z3.And(text_is(n, wn), text_is(v, wv)), f'ensures: header {wn}')
    return f


def headers_of(e, st, at):
    """a list of headers of concrete count"""
    a, b = e.load(st, at, 8, True), e.load(st, at.add(8), 8, True)
    n = lz(lsub(b.off, a.off)) if a.obj == b.obj else None
    if type(n) is not int:
        raise ToolLimit("number of headers")
    return [(e.get_str(st, a.add(k + NAME)), e.get_str(st, a.add(k + VALUE))) for k in range(0, n, STRIDE)]


def proofs(m):
    return [Proof(f'Response::toBuffers, {k}', 'r_buffers', setup(k), post, cand=[cand], defs=[defs], models=MODELS, opts=dict(unroll_limit=0)) for k in CODES] + \
           [Proof(f'Response::getStatusResponse, {k}', 'r_status', status_setup(k), status_post(k), models=HEADERS) for k in CODES]
