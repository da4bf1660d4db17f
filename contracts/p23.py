"""P23: log level filtering and sink delivery.
State: enabled(l) for the levels, and the list of sinks; S(i) is the function held by sink slot i, 0 when the slot is empty.
Contract of log::set(t, b), t <= Debug:          enabled(t) = b, every other enabled(l) unchanged.      log::is(t) = enabled(t), nothing changed.
Contract of log::setLogLevel(l):                 enabled(t) <=> t <= l for the levels Error .. Debug.
Contract of addSinks(f1 .. fk):                  the slots that were in use are unchanged, k empty or new slots hold f1 .. fk, one each; the result is the slot of fk.
Contract of removeSinks(i1 .. ik), each a slot:  these slots are empty, every other slot is unchanged.
Contract of Sinks::operator()(text):             for every slot i: its function is called exactly once if it is not empty, never otherwise; slots are called in order, with that text.
Contract of error, warn, info, debug, infoHex:   Sinks::operator() is called exactly once if the level is enabled (infoHex: once with the text, once with the dump) and not at all otherwise.
So a message of an enabled level reaches every sink that was added and not removed, once.  Sinks that change the list of sinks while it is walked are outside; text formatting is an assumed contract."""
from common import *
from irv.vectors import *
from irv.models import ptr_diff

HARNESS = "log.cpp"
NATIVE = dict(src="p23.cpp")
SECONDS = 120
N = "webfront::log::"
STRIDE = 32
B64 = z3.BitVecSort(64)
S0 = z3.Function('SINK', B64, B64)
LEVELS = dict(error=1, warn=2, info=3, debug=4)
MAXLEVEL = 4
never = lambda e, st, a, name, ins: None
never.accept = lambda *a: False


def find_global(e, text):
    for n, g in e.m.globs.items():
        if g["dem"] == text:
            return n
    raise ToolLimit("no global " + text)


# ---------------------------------------------------------------- the list of sinks
def slot(c, p):
    if p.obj != c.slots:
        return None
    return z3.simplify(z3.LShR(bv(lz(p.off)), 5))


def held(st, i):
    """the function in slot i"""
    v = S0(bv(i))
    for k, f in st.ghost["upd"]:
        v = z3.If(bv(i) == k, f, v)
    return v


def sinks_setup(e, st):
    c = e.ctx
    c.K = z3.BitVec('K', 64)
    c.J = z3.BitVec('J', 64)
    c.n = z3.BitVec('slots', 64)
    st.assume(z3.ULT(c.n, 1 << 38))
    g = e.global_ptr(st, find_global(e, "webfront::log::Sinks::sinks"))
    e.allow_global_writes.add(g.obj)
    c.vec = g
    c.slots = storage(e, st, "sinks", (), STRIDE)
    make_vector(e, st, g, c.slots, c.n, STRIDE)
    st.ghost["upd"] = ()


def function_of(e, st, p):
    c = e.ctx
    p = e.to_ptr(st, p)
    k = slot(c, p)
    return held(st, k) if k is not None else bv(e.load(st, p, 8))


def f_ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    v = bv(0)
    if ps and (ps[0].startswith("std::function<") ):
        v = function_of(e, st, a[1])
    elif ps and not ps[0].startswith("std::nullptr_t") and not ps[0].startswith("decltype(nullptr)"):
        raise ToolLimit("function made from " + ps[0])
    p = e.to_ptr(st, a[0])
    k = slot(e.ctx, p)
    if k is not None:
        st.ghost["upd"] += ((k, v),)
    else:
        e.store(st, p, 8, v)
    if ps and ps[0].endswith("&&"):
        put(e, st, a[1], bv(0))
    return None


def put(e, st, p, v):
    p = e.to_ptr(st, p)
    k = slot(e.ctx, p)
    if k is not None:
        e.oblige(st, z3.ULT(bv(lz(p.off)), bv(count(e, st)) * STRIDE), 'precondition: a slot of the list')
        st.ghost["upd"] += ((k, v),)
    else:
        e.store(st, p, 8, v)


def f_assign(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    if ps[0] in ("std::nullptr_t", "decltype(nullptr)"):
        v = bv(0)
    elif ps[0].startswith("std::function<"):
        v = function_of(e, st, a[1])
        if ps[0].endswith("&&"):
            put(e, st, a[1], bv(0))
    else:
        raise ToolLimit("function assigned from " + ps[0])
    put(e, st, a[0], v)
    return a[0]


def f_bool(e, st, a, name, ins):
    return norm(function_of(e, st, a[0]) != 0)


def norm(b):
    b = z3.simplify(b)
    return 1 if z3.is_true(b) else 0 if z3.is_false(b) else b


def f_call(e, st, a, name, ins):
    """a sink is called: counted for the arbitrary slot K"""
    c = e.ctx
    p = e.to_ptr(st, a[0])
    k = slot(c, p)
    f = function_of(e, st, p)
    if k is None:
        raise ToolLimit("a function outside the list is called")
    e.oblige(st, f != 0, 'precondition: no empty function is called')
    e.oblige(st, z3.ULE(bv(st.ghost["next"]), k), 'ensures: sinks are called in order')
    st.ghost["next"] = z3.simplify(k + 1)
    st.ghost["calls"] = z3.simplify(z3.If(k == c.K, bv(st.ghost["calls"]) + 1, bv(st.ghost["calls"])))
    e.oblige(st, z3.And(bv(a[1]) == bv(c.len), bv(lz(e.to_ptr(st, a[2]).off)) == 0, z3.BoolVal(e.to_ptr(st, a[2]).obj == c.text)), 'ensures: sinks are given the text')
    return None


def push(e, st, a, name, ins):
    c = e.ctx
    v = e.to_ptr(st, a[0])
    if v.obj != c.vec.obj:
        raise ToolLimit("another vector of functions")
    _, ps, _ = e.models.info(e, name)
    if len(a) != 2:
        raise ToolLimit("a sink made in place")
    n = count(e, st)
    f = function_of(e, st, a[1])
    if ps[0].endswith("&&") and "const" not in ps[0]:
        put(e, st, a[1], bv(0))
    st.ghost["upd"] += ((z3.simplify(bv(n)), f),)
    e.store(st, v.add(8), 8, Ptr(c.slots, lin(z3.simplify((bv(n) + 1) * STRIDE))))
    return Ptr(c.slots, lin(z3.simplify(bv(n) * STRIDE)))


def count(e, st):
    c = e.ctx
    first, last = e.load(st, c.vec, 8, True), e.load(st, c.vec.add(8), 8, True)
    if first.obj != c.slots or last.obj != c.slots:
        raise ToolLimit("the list of sinks was moved")
    return z3.simplify(z3.LShR(bv(ptr_diff(e, st, last, first)), 5))


def nothing(e, st, a, name, ins):
    return None


FUN = {"std::function::function": f_ctor, "std::function::~function": nothing, "std::function::operator=": f_assign, "std::function::operator bool": f_bool, "std::function::operator()": f_call,
       "std::vector::push_back": push, "std::vector::emplace_back": push}
REAL = {N + x: never for x in ("debug::debug", "info", "warn", "error", "infoHex")}


def out_setup(e, st):
    c = e.ctx
    sinks_setup(e, st)
    c.text, c.len, c.s = in_bytes(e, st, 'text')
    st.ghost.update(calls=bv(0), next=bv(0))
    return [Ptr(c.text), c.len]


def out_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: delivery returns')
    if kind == 'return':
        e.oblige(st, bv(st.ghost["calls"]) == z3.If(z3.And(z3.ULT(c.K, c.n), S0(c.K) != 0), bv(1), bv(0)), 'ensures: every sink is called exactly once')
        e.oblige(st, z3.And(bv(count(e, st)) == c.n, held(st, c.K) == S0(c.K)), 'ensures: the list of sinks is unchanged')


def out_cand(e, cut, S):
    c = e.ctx

    def done(i):
        return lambda v: bv(v.st.ghost["calls"]) == z3.If(z3.And(z3.ULT(c.K, i(v)), S0(c.K) != 0), bv(1), bv(0))
    for l, i in cut.infos.items():
        if i.kind == 'ptr' and i.obj == c.slots:
            def at(v, l=l):
                return z3.LShR(bv(v.int(l)), 5)
            yield 'done', done(at)
            yield 'next', lambda v, at=at: z3.ULE(bv(v.st.ghost["next"]), at(v))
            yield 'whole', lambda v, l=l: bv(v.int(l)) & 31 == 0
            yield 'within', lambda v, l=l: z3.ULE(bv(v.int(l)), c.n * STRIDE)
        if i.kind == 'int' and i.w == 64 and l[0] != "ghost":
            yield 'done', done(lambda v, l=l: bv(v.int(l)))
            yield 'next', lambda v, l=l: z3.ULE(bv(v.st.ghost["next"]), bv(v.int(l)))
            yield 'within', lambda v, l=l: z3.ULE(bv(v.int(l)), c.n)


def add_setup(k):
    def f(e, st):
        c = e.ctx
        sinks_setup(e, st)
        c.fs = [z3.BitVec(f'f{i}', 64) for i in range(min(k, 2))]
        out = []
        for x in c.fs:
            o = out_obj(e, st, 'function', 32)
            e.store(st, Ptr(o), 8, x)
            st.assume(x != 0)
            out.append(Ptr(o))
        return out
    return f


def add_post(k):
    def f(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'ensures: addSinks returns')
        if kind != 'return':
            return
        n = bv(count(e, st))
        e.oblige(st, z3.UGE(n, c.n), 'ensures: no slot disappears')
        e.oblige(st, z3.Implies(z3.And(z3.ULT(c.K, c.n), S0(c.K) != 0), held(st, c.K) == S0(c.K)), 'ensures: registered sinks stay')
        e.oblige(st, z3.And(z3.ULT(bv(rv), n), z3.Or(z3.UGE(bv(rv), c.n), S0(bv(rv)) == 0)), 'ensures: the result is a new slot')
        e.oblige(st, held(st, bv(rv)) == c.fs[-1 if k == 2 else 0] if k < 3 else z3.BoolVal(True), 'ensures: the result is the slot of the last sink')
        # each new sink in a slot of its own: the slots written are as many as the sinks, and hold them
        upd = [(i, held(st, i)) for i, _ in st.ghost["upd"]]
        fresh = [z3.And(z3.ULT(i, n), z3.Or(z3.UGE(i, c.n), S0(i) == 0)) for i, _ in upd]
        want = c.fs[:k] if k < 3 else []
        for x in want:
            e.oblige(st, z3.Or([z3.And(h == x, fr) for (i, h), fr in zip(upd, fresh)]), 'ensures: every added sink has a slot')
        if k == 2 and len(upd) == 2:
            e.oblige(st, upd[0][0] != upd[1][0], 'ensures: every added sink has a slot of its own')
        e.oblige(st, z3.Implies(z3.And(held(st, c.K) != 0, z3.ULT(c.K, n), z3.Or(z3.UGE(c.K, c.n), S0(c.K) == 0)), z3.Or([c.K == i for i, _ in upd])), 'ensures: no other slot is filled')
        e.oblige(st, len(upd) <= k, 'ensures: every sink is added once')
    return f


def remove_setup(k):
    def f(e, st):
        c = e.ctx
        sinks_setup(e, st)
        c.ids = [z3.BitVec(f'id{i}', 64) for i in range(k)]
        for i in c.ids:
            st.assume(z3.ULT(i, c.n))
        return list(c.ids)
    return f


def remove_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: removeSinks returns')
    if kind != 'return':
        return
    n = bv(count(e, st))
    gone = z3.Or([c.K == i for i in c.ids])
    e.oblige(st, z3.Implies(z3.And(z3.ULT(c.K, n), gone), held(st, c.K) == 0), 'ensures: a removed sink is gone')
    e.oblige(st, z3.Implies(z3.And(z3.ULT(c.K, c.n), z3.Not(gone), S0(c.K) != 0), z3.And(z3.ULT(c.K, n), held(st, c.K) == S0(c.K))), 'ensures: the other sinks stay, under their numbers')


# ---------------------------------------------------------------- levels
def level_setup(e, st, *args):
    c = e.ctx
    g = e.global_ptr(st, find_global(e, "webfront::log::logTypeEnabled"))
    e.allow_global_writes.add(g.obj)
    c.lv = g
    c.en = [z3.BitVec(f'enabled{i}', 8) for i in range(MAXLEVEL + 1)]
    for i, x in enumerate(c.en):
        st.assume(z3.ULE(x, 1))
        e.store(st, g.add(i), 1, x)
    st.ghost["outs"] = bv(0)


def enabled(e, st, i):
    return bv(e.load(st, e.ctx.lv.add(i), 1), 8) != 0


def set_setup(e, st):
    c = e.ctx
    level_setup(e, st)
    c.t, c.b = z3.BitVec('type', 8), z3.Bool('on')
    st.assume(z3.ULE(c.t, MAXLEVEL))
    return [c.t, c.b]


def set_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: set returns')
    if kind == 'return':
        for i in range(MAXLEVEL + 1):
            e.oblige(st, enabled(e, st, i) == z3.If(c.t == i, c.b, c.en[i] != 0), 'ensures: one level is set, the others are unchanged')


def is_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: is returns')
    if kind == 'return':
        r = bv(rv, 8) != 0 if not z3.is_bool(rv) else rv
        for i in range(MAXLEVEL + 1):
            e.oblige(st, z3.And(z3.Implies(c.t == i, r == (c.en[i] != 0)), enabled(e, st, i) == (c.en[i] != 0)), 'ensures: is tells whether the level is enabled')


def setlevel_setup(e, st):
    c = e.ctx
    level_setup(e, st)
    c.t = z3.BitVec('level', 8)
    return [c.t]


def setlevel_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: setLogLevel returns')
    if kind == 'return':
        for n, i in LEVELS.items():
            e.oblige(st, enabled(e, st, i) == z3.ULE(i, c.t), f'ensures: {n} is enabled exactly from its level on')


def out_call(e, st, a, name, ins):
    """the contract of Sinks::operator(): the text handed over is the message, or made from it"""
    c = e.ctx
    st.ghost["outs"] = z3.simplify(bv(st.ghost["outs"]) + 1)
    s = e.region(st, a[2], a[1])
    st.ghost["sent"] = st.ghost.get("sent", ()) + tuple(w for w, v in st.ghost["made"] if same(v.len, s.len) is True)
    return None


def known(st, s):
    return frozenset(x for w, v in st.ghost["made"] if same(v.len, s.len) is True for x in w)


def text(e, st, a, name, ins):
    """std::format, std::vformat, hexDump: some text, made from the text arguments"""
    c = e.ctx
    q, ps, _ = e.models.info(e, name)
    w = frozenset()
    n = 1
    if q == "std::format":
        n += 2                  # the format string
        for t in ps[1:]:
            if t.startswith("std::string_view"):
                w |= known(st, view_at(e, st, e.to_ptr(st, a[n])))
            elif t.startswith("std::string"):
                w |= known(st, e.get_str(st, a[n]))
            n += 1
    elif q == "std::vformat":
        w |= known(st, e.region(st, a[2], a[1]))
    elif q.endswith("hexDump"):
        w |= {"dump"}
    v = e.fresh_str(st, 'text')
    e.set_str(st, a[0], v)
    st.ghost["made"] += ((w, v),)
    return None


def fmt_args(e, st, a, name, ins):
    return tuple(e.fresh('arg', 64) for _ in range(4))


def value(e, st, a, name, ins):
    return e.fresh('now', 64)


def file_name(e, st, a, name, ins):
    return None


FORMAT = {"std::format": text, "std::vformat": text, "std::make_format_args": fmt_args, "std::chrono::_V2::system_clock::now": value, "std::chrono::system_clock::now": value,
          "std::basic_format_args::basic_format_args": nothing, "webfront::utils::hexDump": text,
          "std::filesystem::path::path": nothing, "std::filesystem::path::~path": nothing, "std::filesystem::path::filename": nothing, "std::filesystem::path::string": text}


def msg_setup(e, st):
    c = e.ctx
    level_setup(e, st)
    c.text, c.len, c.s = in_bytes(e, st, 'text')
    st.ghost["made"] = ((frozenset(["message"]), c.s),)
    return [Ptr(c.text), c.len, z3.BitVec('x', 32)]


def hex_setup(e, st):
    r = msg_setup(e, st)[:2]
    o = out_obj(e, st, 'container', 32)
    e.set_str(st, Ptr(o), e.fresh_str(st, 'container'))
    return r + [Ptr(o)]


def msg_post(level, times=1):
    def f(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'ensures: logging returns')
        if kind == 'return':
            e.oblige(st, bv(st.ghost["outs"]) == z3.If(c.en[level] != 0, bv(times), bv(0)), 'ensures: a message is handed to the sinks exactly when its level is enabled')
            if e.feasible(st, c.en[level] != 0):
                on = st.clone()
                on.assume(c.en[level] != 0)
                said = [w for ws in st.ghost.get("sent", ()) for w in ws]
                e.oblige(on, sorted(said) == ["dump", "message"][2 - times:], 'ensures: what is handed to the sinks is made from the message')
            for i in range(MAXLEVEL + 1):
                e.oblige(st, enabled(e, st, i) == (c.en[i] != 0), 'ensures: the levels are unchanged')
    return f


def proofs(m):
    M = dict(REAL, **FORMAT, **{"webfront::log::Sinks::operator()": out_call})
    ps = [Proof('Sinks::operator()', 'l_out', out_setup, out_post, cand=[out_cand], models=dict(REAL, **FUN)),
          Proof('set', 'l_set', set_setup, set_post), Proof('is', 'l_is', lambda e, st: set_setup(e, st)[:1], is_post),
          Proof('setLogLevel', 'l_level', setlevel_setup, setlevel_post)]
    ps += [Proof(f'addSinks, {k} sink{"s" * (k > 1)}', f'l_add{k}', add_setup(k), add_post(k), models=dict(REAL, **FUN)) for k in (1, 2)]
    ps += [Proof(f'removeSinks, {k} sink{"s" * (k > 1)}', f'l_remove{k}', remove_setup(k), remove_post, models=dict(REAL, **FUN)) for k in (1, 2)]
    for n, i in LEVELS.items():
        ps.append(Proof(f'{n}(text, value)', f'l_{n}', msg_setup, msg_post(i), models=M))
        ps.append(Proof(f'{n}(text)', f'l_{n}0', lambda e, st: msg_setup(e, st)[:2], msg_post(i), models=M))
    ps.append(Proof('infoHex', 'l_hex', hex_setup, msg_post(3, 2), models=M))
    return ps
