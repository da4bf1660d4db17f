"""P12: HTTP requests are parsed per the RFC 1945 grammar under every chunking.
SPEC is the automaton of the request grammar below (states STATES, step function `step`); it denotes, for the bytes read so far, the method text M, the URI U, the version numbers
(exact, or "too big" from 10^8 on) and the list of H headers.  For each of its states the contract of parsing one byte c on a Request that represents the state:
 ensures  the request represents the state SPEC goes to: same method, URI, version and headers; the result is true exactly when the terminating empty line is complete;
          BadRequestException exactly when SPEC has no step for c; completed() exactly in the final state.
What a Request's private members look like in a state of SPEC is learnt by running the code on a sample of the state (the public members and the collected text are fixed by the contract).
Contract of parseSomeData(b, e): completeRequest is called with the bytes of [b, e) in order, each exactly once, until one call returns true or throws; the result is that of the last call.
So the outcome of any sequence of reads is the fold of the one-byte step over the stream, whatever the cuts."""
from common import *
from irv.vectors import *
from irv.engine import Engine, State, Seg, tinfo_name
from irv.models import Models
from p17 import header_table, name_of, value_of, HEADERS, STRIDE, NAME, VALUE

HARNESS = "http.cpp"
NATIVE = dict(src="p12.cpp")
SECONDS = 120
REQ = "webfront::http::Request"
BAD = "BadRequestException"
METHODS = ["CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"]
BIG = 10**8
SPECIAL = b'()<>@,;:\\"/[]?={} \t'
# state -> (sample of the bytes that lead to it, headers so far: 0, "+" at least one)
A = "GET /u HTTP/1.0\r\n"
STATES = {
    "START": ("", 0), "METHOD": ("GE", 0), "URI": ("GET /", 0), "V0": ("GET / ", 0), "V1": ("GET / H", 0), "V2": ("GET / HT", 0), "V3": ("GET / HTT", 0), "V4": ("GET / HTTP", 0),
    "MAJOR0": ("GET / HTTP/", 0), "MAJOR": ("GET / HTTP/1", 0), "MINOR0": ("GET / HTTP/1.", 0), "MINOR": ("GET / HTTP/1.0", 0), "EOL0": ("GET / HTTP/1.0\r", 0),
    "FIRST": (A, 0), "NAME": (A + "A", "+"), "SPACE": (A + "A:", "+"), "VALUE": (A + "A: b", "+"), "EOL": (A + "A: b\r", "+"), "LINE": (A + "A: b\r\n", "+"), "FOLD": (A + "A: b\r\n ", "+"),
    "END0": (A + "\r", 0), "END": (A + "A: b\r\n\r", "+"), "DONE0": (A + "\r\n", 0), "DONE": (A + "A: b\r\n\r\n", "+")}
BEFORE_URI = ("START", "METHOD")
NO_VERSION = BEFORE_URI + ("URI", "V0", "V1", "V2", "V3", "V4")


def anyof(c, s):
    return z3.Or([c == b for b in s])


def ctl(c):
    return z3.Or(z3.ULT(c, 32), c == 127)


def token(c):
    return z3.And(z3.ULT(c, 128), z3.Not(ctl(c)), z3.Not(anyof(c, SPECIAL)))


def digit(c):
    return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))


def step(s, c):
    """[(condition, next state, action)]; no condition holds: the request is malformed"""
    sp, cr, lf = c == 32, c == 13, c == 10
    lws = z3.Or(sp, c == 9)
    text = z3.Not(ctl(c))
    end = "" if s in ("FIRST", "END0", "DONE0") else ""
    T = {
        "START": [(token(c), "METHOD", "method")],
        "METHOD": [(sp, "URI", "setmethod"), (token(c), "METHOD", "method")],
        "URI": [(sp, "V0", ""), (z3.And(text, z3.Not(sp)), "URI", "uri")],
        "V0": [(c == ord("H"), "V1", "")], "V1": [(c == ord("T"), "V2", "")], "V2": [(c == ord("T"), "V3", "")], "V3": [(c == ord("P"), "V4", "")],
        "V4": [(c == ord("/"), "MAJOR0", "noversion")],
        "MAJOR0": [(digit(c), "MAJOR", "major")], "MAJOR": [(c == ord("."), "MINOR0", ""), (digit(c), "MAJOR", "major")],
        "MINOR0": [(digit(c), "MINOR", "minor")], "MINOR": [(cr, "EOL0", ""), (digit(c), "MINOR", "minor")],
        "EOL0": [(lf, "FIRST", "")],
        "FIRST": [(cr, "END0", ""), (token(c), "NAME", "header")],
        "LINE": [(cr, "END", ""), (lws, "FOLD", ""), (token(c), "NAME", "header")],
        "NAME": [(c == ord(":"), "SPACE", ""), (token(c), "NAME", "name")],
        "SPACE": [(sp, "VALUE", "")],
        "VALUE": [(cr, "EOL", ""), (text, "VALUE", "value")],
        "FOLD": [(cr, "EOL", ""), (lws, "FOLD", ""), (z3.And(text, z3.Not(sp)), "VALUE", "value")],
        "EOL": [(lf, "LINE", "")],
        "END0": [(lf, "DONE0", "")], "END": [(lf, "DONE", "")],
        "DONE0": [(z3.BoolVal(True), "DONE0", "")], "DONE": [(z3.BoolVal(True), "DONE", "")]}
    return T[s]


def members(m):
    """offsets and widths of the integer members that are not part of the observable outcome, and of the text collected so far"""
    ms = {n: (off, size, t) for n, off, size, t in m.members(REQ) or []}
    known = ("headers", "method", "uri", "httpVersionMajor", "httpVersionMinor", "Headers", "webfront::http::Headers")
    L = {}
    for n in ("method", "uri", "httpVersionMajor", "httpVersionMinor"):
        if n not in ms:
            raise ToolLimit("no member " + n)
        L[n] = ms[n][0]
    L["headers"] = 0
    L["private"] = [(off, size) for n, (off, size, t) in ms.items() if n not in known and "string" not in t and size in (1, 2, 4, 8)]
    L["texts"] = [off for n, (off, size, t) in ms.items() if n not in known and "string" in t]
    rest = [n for n, (off, size, t) in ms.items() if n not in known and "string" not in t and size not in (1, 2, 4, 8)]
    if rest or len(L["texts"]) > 1 or not L["private"]:
        raise ToolLimit("members of Request: " + ", ".join(ms))
    return L


def run_on(mod, text):
    """private members of a Request after the code has read the text"""
    e = Engine(mod, Models(MODELS))
    e.ctx = Ctx(e)
    st = State()
    L = members(mod)
    q = out_obj(e, st, 'request', record_size(e, REQ))
    out = []

    def keep(s, kind, rv):
        out.append((s, kind))
    e.on_path_end = keep
    e.call(st, 'q_ctor', [Ptr(q)])
    e.explore(st)
    for ch in [text] if text else []:
        st, kind = out.pop()
        b = ch.encode()
        oid = e.new_obj(st, 'sample', 'input', len(b))
        o = st.w(oid)
        o.segs.append(Seg(0, len(b), lit(ch).arr))
        st.frames, st.exc = [], None
        e.call(st, 'q_parse', [Ptr(q), Ptr(oid), Ptr(oid, len(b))])
        e.explore(st)
    if len(out) != 1 or out[0][1] != 'return':
        raise ToolLimit(f"the sample {text!r} is not accepted")
    st = out[0][0]
    vals = []
    for off, size in L["private"]:
        v = e.load(st, Ptr(q, off), size)
        if type(v) is bool:
            v = int(v)
        if type(v) is not int:
            v = z3.simplify(v)
            if not z3.is_bv_value(v):
                raise ToolLimit("private member is not determined by the sample")
            v = v.as_long()
        vals.append(v)
    return tuple(vals)


LEARNT = {}


def learnt(e, s):
    if s not in LEARNT:
        LEARNT[s] = run_on(e.m, STATES[s][0])
    return LEARNT[s]


MODELS = HEADERS


def request(e, st, s):
    """a request that represents the state s"""
    c = e.ctx
    c.L = members(e.m)
    c.q = out_obj(e, st, 'request', record_size(e, REQ))
    c.key = learnt(e, s)
    o = st.w(c.q)
    for (off, size), v in zip(c.L["private"], c.key):
        o.cells[off] = (size, v)
    c.method = z3.BitVec('method', 32)
    st.assume(z3.ULE(c.method, 9))
    c.ver = {}
    for k in ("Major", "Minor"):
        v = z3.BitVec('version' + k, 32)
        big = z3.Bool('big' + k)
        st.assume(z3.If(big, v >= BIG, z3.And(v >= 0, v < BIG)))
        c.ver[k] = (v, big)
        o.cells[c.L["httpVersion" + k]] = (4, v)
    if s in ("MAJOR0",):
        for k in ("Major", "Minor"):
            st.assume(z3.And(c.ver[k][0] == 0, z3.Not(c.ver[k][1])))
    if s in ("MAJOR", "MINOR0"):
        st.assume(z3.And(c.ver["Minor"][0] == 0, z3.Not(c.ver["Minor"][1])))
    o.cells[c.L["method"]] = (4, c.method)
    c.U, c.M = e.fresh_str(st, 'uri') if s not in BEFORE_URI else lit(""), e.fresh_str(st, 'collected')
    if s == "METHOD":
        st.assume(bv(c.M.len) != 0)
    e.set_str(st, Ptr(c.q, c.L["uri"]), c.U)
    for off in c.L["texts"]:
        e.set_str(st, Ptr(c.q, off), c.M)
    header_table(e, st, Ptr(c.q, c.L["headers"]))
    st.assume(c.H != 0 if STATES[s][1] == "+" else c.H == 0)
    c.K, c.I = z3.BitVec('K', 64), z3.BitVec('I', 64)
    return Ptr(c.q)


def step_setup(s):
    def f(e, st):
        c = e.ctx
        q = request(e, st, s)
        oid, n, c.b = in_bytes(e, st, 'byte', n=1)
        c.c = bv(c.b.at(0), 8)
        return [q, Ptr(oid), Ptr(oid, 1)]
    return f


def same_text(e, st, got, want, what, cond=None):
    cond = z3.BoolVal(True) if cond is None else cond
    k = e.ctx.K
    e.oblige(st, z3.Implies(cond, bv(got.len) == bv(want.len)), what + ' (length)')
    e.oblige(st, z3.Implies(z3.And(cond, z3.ULT(k, bv(want.len))), bv(got.at(k), 8) == bv(want.at(k), 8)), what)


def plus(s, ch):
    return concat(s, StrVal(1, ALit([ch])))


def index_of(M):
    r = bv(9, 32)
    for i, t in enumerate(METHODS):
        r = z3.If(text_is(M, t), bv(i, 32), r)
    return r


def truth(rv):
    if isinstance(rv, (bool, int)):
        return z3.BoolVal(bool(rv))
    return rv if z3.is_bool(rv) else bv(rv, rv.size()) != 0


def step_post(s):
    def f(e, st, kind, rv):
        c = e.ctx
        moves = step(s, c.c)
        ok = z3.Or([m[0] for m in moves])
        if kind == 'throw':
            e.oblige(st, z3.Not(ok), 'ensures: a byte of the grammar is accepted')
            e.oblige(st, BAD in str(st.exc[1]), 'ensures: malformed requests are reported by BadRequestException')
            return
        e.oblige(st, ok, 'ensures: a byte outside the grammar is rejected')
        left = []
        for cond, nxt, act in moves:       # conditions are evaluated in order
            left.append((z3.And([cond] + [z3.Not(m[0]) for m in moves[:len(left)]]), nxt, act))
        for cond, nxt, act in left:
            if not e.feasible(st, cond):
                continue
            s2 = st.clone()
            s2.assume(cond)
            check_state(e, s2, s, nxt, act, rv)
    return f


def check_state(e, st, s, nxt, act, rv):
    c = e.ctx
    e.oblige(st, truth(rv) == z3.BoolVal(nxt.startswith("DONE")), f'ensures: completion is reported exactly at the empty line ({s} -> {nxt})')
    want = learnt(e, nxt)
    for (off, size), v in zip(c.L["private"], want):
        e.oblige(st, bv(e.load(st, Ptr(c.q, off), size), 8 * size) == v, f'ensures: the next state ({s} -> {nxt})')
    if nxt == "METHOD":
        now = lit("") if s == "START" else c.M
        for off in c.L["texts"]:
            same_text(e, st, e.get_str(st, Ptr(c.q, off)), plus(now, c.c), 'ensures: the method text')
    if nxt not in BEFORE_URI:
        m = index_of(c.M) if act == "setmethod" else c.method
        e.oblige(st, bv(e.load(st, Ptr(c.q, c.L["method"]), 4), 32) == m, 'ensures: the method')
    same_text(e, st, e.get_str(st, Ptr(c.q, c.L["uri"])), plus(c.U, c.c) if act == "uri" else c.U, 'ensures: the URI')
    if nxt not in NO_VERSION:
        for k in ("Major", "Minor"):
            v, big = c.ver[k]
            got = bv(e.load(st, Ptr(c.q, c.L["httpVersion" + k]), 4), 32)
            if act == "noversion":
                v, big = bv(0, 32), z3.BoolVal(False)
            elif act == k.lower():
                v, big = v * 10 + z3.ZeroExt(24, c.c) - 48, z3.Or(big, v * 10 + z3.ZeroExt(24, c.c) - 48 >= BIG)
            e.oblige(st, z3.If(big, got >= BIG, got == v), f'ensures: the {k.lower()} version number')
    a, b = e.load(st, Ptr(c.q, c.L["headers"]), 8, True), e.load(st, Ptr(c.q, c.L["headers"] + 8), 8, True)
    if a.obj != b.obj or a.obj == 0:
        raise ToolLimit("header list")
    n = z3.simplify(bv(lz(lsub(b.off, a.off))))
    H2 = c.H + 1 if act == "header" else c.H
    e.oblige(st, n == H2 * STRIDE, 'ensures: the number of headers')
    if s in NO_VERSION + ("MAJOR0", "MAJOR", "MINOR0", "MINOR", "EOL0") or (s in ("FIRST", "END0", "DONE0") and act != "header"):
        return
    s3 = st.clone()
    s3.assume(z3.ULT(c.I, H2))
    gn, gv = (e.get_str(s3, a.add(lmul(lin(c.I), STRIDE)).add(f)) for f in (NAME, VALUE))
    last = c.I == H2 - 1
    wn, wv = name_of(c, c.I), value_of(c, c.I)
    if act == "header":
        same_text(e, s3, gn, lit_of(c.c), 'ensures: the new header', last)
        same_text(e, s3, gv, lit(""), 'ensures: the new header', last)
    else:
        same_text(e, s3, gn, plus(wn, c.c) if act == "name" else wn, 'ensures: header names', last)
        same_text(e, s3, gv, plus(wv, c.c) if act == "value" else wv, 'ensures: header values', last)
    same_text(e, s3, gn, wn, 'ensures: earlier headers', z3.Not(last))
    same_text(e, s3, gv, wv, 'ensures: earlier headers', z3.Not(last))


def lit_of(ch):
    return StrVal(1, ALit([ch]))


# ---------------------------------------------------------------- the fold
RES = z3.Function('result', z3.BitVecSort(64), z3.BoolSort())


def one(e, st, a, name, ins):
    """contract of completeRequest in the fold: any result, may throw"""
    c = e.ctx
    t = bv(st.ghost["t"])
    e.oblige(st, same(e.to_ptr(st, a[0]).off, 0) is True and e.to_ptr(st, a[0]).obj == c.q, 'ensures: the bytes go to this request')
    e.oblige(st, z3.ULT(t, bv(c.n)), 'ensures: no byte is invented')
    e.oblige(st, bv(a[1], 8) == bv(c.D.at(t), 8), 'ensures: bytes are read in order, each once')
    e.oblige(st, bv(st.ghost["done"], 8) == 0, 'ensures: nothing is read after completion')
    r = RES(t)
    st.ghost["t"] = z3.simplify(t + 1)
    st.ghost["done"] = z3.If(r, bv(1, 8), bv(0, 8))
    return r


def fold_setup(e, st):
    c = e.ctx
    if not any("::Request::completeRequest(" in e.m.demangled(f) for f in e.m.raw):
        raise ToolLimit("no function completeRequest")
    c.q = out_obj(e, st, 'request', record_size(e, REQ))
    oid, c.n, c.D = in_bytes(e, st, 'data')
    c.src = oid
    st.ghost["t"], st.ghost["done"] = bv(0), bv(0, 8)
    return [Ptr(c.q), Ptr(oid), Ptr(oid, lin(c.n))]


def fold_cand(e, cut, S):
    c = e.ctx
    yield 'open', lambda v: bv(v.st.ghost["done"], 8) == 0
    yield 'in', lambda v: z3.ULE(bv(v.st.ghost["t"]), bv(c.n))
    for l, i in cut.infos.items():
        if l[0] != "ghost" and (i.kind == 'ptr' and i.obj == c.src or i.kind == 'int' and i.w == 64):
            yield 'pos', lambda v, l=l: bv(v.st.ghost["t"]) == bv(v.int(l))
        if l[0] != "ghost" and i.kind == 'int' and i.w <= 8:
            yield 'flag', lambda v, l=l, w=i.w: (bv(v.st.ghost["done"], 8) != 0) == truth(v.int(l))
            yield 'flag', lambda v, l=l, w=i.w: (bv(v.st.ghost["done"], 8) == 0) == truth(v.int(l))


def fold_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'parseSomeData returns')
    if kind == 'return':
        done = bv(st.ghost["done"], 8) != 0
        e.oblige(st, truth(rv) == done, 'ensures: the result is that of the last byte')
        e.oblige(st, z3.Or(done, bv(st.ghost["t"]) == bv(c.n)), 'ensures: every byte is read until completion')


def done_post(s):
    def f(e, st, kind, rv):
        e.oblige(st, kind == 'return', 'completed returns')
        if kind == 'return':
            e.oblige(st, truth(rv) == z3.BoolVal(s.startswith("DONE")), f'ensures: completed() in state {s}')
    return f


def start_setup(e, st):
    e.ctx.q = out_obj(e, st, 'request', record_size(e, REQ))
    e.ctx.L = members(e.m)
    return [Ptr(e.ctx.q)]


def start_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'the constructor returns')
    a, b = e.load(st, Ptr(c.q, c.L["headers"]), 8, True), e.load(st, Ptr(c.q, c.L["headers"] + 8), 8, True)
    e.oblige(st, same(a.off, b.off) is True and a.obj == b.obj, 'ensures: no headers')
    e.oblige(st, text_is(e.get_str(st, Ptr(c.q, c.L["uri"])), ""), 'ensures: no URI')


def witness(s):
    def f(e, st, m):
        b = m.eval(e.ctx.c, model_completion=True).as_long()
        return bytes([0, 0]) + STATES[s][0].encode("latin1") + bytes([b]) + b"\r\n\r\n"
    return f


def proofs(m):
    ps = [Proof('Request()', 'q_ctor', start_setup, start_post, models=MODELS),
          Proof('parseSomeData is a fold', 'q_parse', fold_setup, fold_post, cand=[fold_cand], models={"webfront::http::Request::completeRequest": one}, opts=dict(unroll_limit=0))]
    ps += [Proof(f'one byte in {s}', 'q_parse', step_setup(s), step_post(s), models=MODELS, witness=witness(s), covers=['return'] if s not in () else []) for s in STATES]
    ps += [Proof(f'completed() in {s}', 'q_completed', lambda e, st, s=s: [request(e, st, s)], done_post(s), models=MODELS) for s in STATES]
    return ps
