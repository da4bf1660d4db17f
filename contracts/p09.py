"""P09: interpreting any received bytes succeeds or throws a runtime_error, without reading outside them or undefined conversions.
Contract of decodeParameter<T>(param, data), for every supported T: when the bytes start with an encoding of a T, param is its value and data
advances by exactly the encoding; otherwise a runtime_error is thrown.  Contracts of castFromRawData and getFunctionName likewise.
Memory safety (every read inside the received bytes) and the absence of undefined conversions are obligations at each access."""
from msgspec import *

HARNESS = "msg.cpp"
NATIVE = dict(src="p09.cpp")


def setup(t):
    def f(e, st):
        oid, n, s = in_bytes(e, st, 'received')
        e.ctx.s, e.ctx.n, e.ctx.src = s, n, oid
        e.ctx.out = out_obj(e, st, 'param', tsize(t))
        for at, u in leaves(t):
            if u == "str":
                e.set_str(st, Ptr(e.ctx.out, at), e.fresh_str(st, 'old'))
        e.ctx.span = out_obj(e, st, 'data', 16)
        put_span(e, st, e.ctx.span, 0, Ptr(oid), n)
        return [Ptr(e.ctx.out), Ptr(e.ctx.span)]
    return f


def post(t):
    def f(e, st, kind, rv):
        s, n = e.ctx.s, e.ctx.n
        cases = decodings(t, s, n, 0)
        valid = z3.Or(*[c for c, _, _ in cases])
        if kind != 'return':
            e.oblige(st, runtime_error(e, st), 'ensures: failures are runtime errors', 'throws ' + st.exc[1])
            e.oblige(st, z3.Not(valid), 'ensures: a well formed parameter is accepted')
            return
        e.oblige(st, valid, 'ensures: only well formed parameters are accepted')
        p, m = get_span(e, st, e.ctx.span)
        for c, used, vals in cases:
            if not e.feasible(st, c):
                continue
            e.oblige(st, z3.Implies(c, z3.And(bv(m) == bv(n) - used, ptr_at(e, st, p, e.ctx.src, used))), 'ensures: consumes exactly the parameter')
            for at, u, val in vals:
                got = get_leaf(e, st, e.ctx.out, at, u)
                e.oblige(st, z3.Implies(c, same_value(e, st, u, got, val)), 'ensures: yields the encoded value')
    return f


HEADER = {"m_hand": 2, "m_call": 8, "m_text": None, "m_name": 8}


def setup_cast(fn):
    def f(e, st):
        oid, n, s = in_bytes(e, st, 'received')
        e.ctx.s, e.ctx.n, e.ctx.src = s, n, oid
        e.ctx.span = out_obj(e, st, 'data', 16)
        put_span(e, st, e.ctx.span, 0, Ptr(oid), n)
        e.ctx.out = out_obj(e, st, 'result', 8)
        if fn == "m_name":
            e.ctx.name = out_obj(e, st, 'name', 32)
            e.set_str(st, Ptr(e.ctx.name), lit(""))
            e.ctx.rest = out_obj(e, st, 'rest', 16)
            put_span(e, st, e.ctx.rest, 0, Ptr(0), 0)
            return [Ptr(e.ctx.span), Ptr(e.ctx.name), Ptr(e.ctx.rest)]
        return [Ptr(e.ctx.out), Ptr(e.ctx.span)]
    return f


def complete(fn, s, n):
    """the bytes hold a complete message of the kind"""
    if fn == "m_hand":
        return z3.UGE(bv(n), 2), None
    if fn == "m_text":
        size = z3.ZeroExt(48, z3.Concat(bv(s.at(2), 8), bv(s.at(3), 8)))
        return z3.And(z3.UGE(bv(n), 4), z3.UGE(bv(n) - 4, size)), size
    size = z3.ZeroExt(32, le(s, 4, 4))
    return z3.And(z3.UGE(bv(n), 8), z3.UGE(bv(n) - 8, size)), size


def post_cast(fn):
    def f(e, st, kind, rv):
        s, n = e.ctx.s, e.ctx.n
        ok, size = complete(fn, s, n)
        if kind != 'return':
            e.oblige(st, runtime_error(e, st), 'ensures: failures are runtime errors', 'throws ' + st.exc[1])
            if fn == "m_name":
                ok = z3.And(ok, z3.Or(*[c for c, _, _ in decodings("str", s, z3.simplify(size + 8), 8)]))
            e.oblige(st, z3.Not(ok), 'ensures: a complete message is accepted')
            return
        if fn != "m_name":
            e.oblige(st, ok, 'ensures: an incomplete message is refused')
            p = e.load(st, Ptr(e.ctx.out), 8, True)
            e.oblige(st, ptr_at(e, st, p, e.ctx.src, bv(0)), 'ensures: the message is the received bytes')
            return
        cases = decodings("str", s, z3.simplify(size + 8), 8)
        e.oblige(st, z3.And(ok, z3.Or(*[c for c, _, _ in cases])), 'ensures: an incomplete message is refused')
        name, (p, m) = e.get_str(st, Ptr(e.ctx.name)), get_span(e, st, e.ctx.rest)
        for c, used, vals in cases:
            if not e.feasible(st, c):
                continue
            e.oblige(st, z3.Implies(c, same_value(e, st, "str", name, vals[0][2])), 'ensures: the function name')
            e.oblige(st, z3.Implies(c, z3.And(bv(m) == size - used, ptr_at(e, st, p, e.ctx.src, 8 + used))), 'ensures: the parameters are the rest of the payload')
    return f


def witness(code):
    def w(e, st, m):
        b = model_bytes(m, e.ctx.s)
        return None if b is None else bytes([code]) + b
    return w


TYPES = [("d_bool", "bool", "bool"), ("d_u8", "u8", "uint8_t"), ("d_i8", "i8", "int8_t"), ("d_i16", "i16", "int16_t"), ("d_i32", "i32", "int"), ("d_u32", "u32", "uint32_t"),
         ("d_i64", "i64", "int64_t"), ("d_u64", "u64", "uint64_t"), ("d_flt", "flt", "float"), ("d_dbl", "dbl", "double"), ("d_str", "str", "std::string"),
         ("d_tis", TIS, "std::tuple<int, std::string>"), ("d_tsd", TSD, "std::tuple<std::string, double>"), ("d_tbt", TBT, "std::tuple<bool, std::tuple<uint8_t, double>>")]


def proofs(m):
    out = [Proof(f'FunctionCall::decodeParameter<{name}>', fn, setup(t), post(t), covers=['return', 'throw'], witness=witness(k)) for k, (fn, t, name) in enumerate(TYPES)]
    for k, (fn, name) in enumerate([("m_hand", "Handshake::castFromRawData"), ("m_call", "FunctionCall::castFromRawData"), ("m_text", "TextCommand::castFromRawData"), ("m_name", "FunctionCall::getFunctionName")]):
        out.append(Proof(name, fn, setup_cast(fn), post_cast(fn), covers=['return', 'throw'], witness=witness(20 + k)))
    return out
