"""P10: parameters survive an encode/decode round trip.
Contract of FunctionCall::encodeParameter<T>(v, frame), for any state of the message and of the frame:
 ensures  the buffers appended to the frame, one after the other, are exactly ENC(v); they lie in v or in the part of the message's buffer that
          was free; the used part is unchanged; the used part, the count of parameters, the payload size and the frame's length grow accordingly;
 throws   length_error only when the message's buffer or counter is exhausted.
Contract of decodeParameter<T>: see P09 (its text is decodings(T)).
Lemma: for every v and every continuation r, decodings(T) of ENC(v) r is v and consumes |ENC(v)|."""
from msgspec import *

HARNESS = "msg.cpp"
NATIVE = dict(src="p10.cpp")
SLOW = dict(timeout=150000)
CALL, FRAME = "webfront::msg::FunctionCall", "webfront::websocket::Frame<PNet>"


def text_pieces(v, code=None):
    """ENC of a string shorter than 65536: list of (condition, byte string)"""
    n = bv(v.len)
    short = concat(StrVal(2, ALit([T_SMALL, z3.Extract(7, 0, n)])), v)
    long = concat(StrVal(3, ALit([code or T_STRING, z3.Extract(7, 0, n), z3.Extract(15, 8, n)])), v)
    if code:
        return [(z3.BoolVal(True), long)]
    return [(z3.ULT(n, 256), short), (z3.UGE(n, 256), long)]


def as_double(t, x):
    """bits of the double a number of type t is sent as"""
    if t == "dbl":
        return x
    if t == "flt":
        return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(x, z3.Float32()), F64))
    w, signed = NUM[t]
    return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), x, F64) if signed else z3.fpUnsignedToFP(z3.RNE(), x, F64))


def enc(t, val):
    """ENC(v): cases (condition, bytes); val is a leaf value or the list of the values of a tuple"""
    if type(t) is list:
        out = [(z3.BoolVal(True), StrVal(2, ALit([T_TUPLE, len(t)])))]
        for (u, _), x in zip(t, val):
            out = [(z3.And(c, c2), concat(s, s2)) for c, s in out for c2, s2 in enc(u, x)]
        return out
    if t == "str":
        return text_pieces(val)
    if t == "exc":
        return text_pieces(val, T_EXC)
    if t == "bool":
        return [(z3.BoolVal(True), StrVal(1, ALit([z3.If(val == 0, z3.BitVecVal(T_FALSE, 8), z3.BitVecVal(T_TRUE, 8))])))]
    d = as_double(t, val)
    return [(z3.BoolVal(True), StrVal(9, ALit([T_NUMBER] + [z3.Extract(8 * k + 7, 8 * k, d) for k in range(8)])))]


def count(t):
    return 1 + sum(count(u) for u, _ in t) if type(t) is list else 1


# ---------------------------------------------------------------- encodeParameter
def appended(e, st, a, name, ins):
    """contract of vector<ConstBuffer>::emplace_back / push_back: one element more at the end"""
    _, ps, _ = e.models.info(e, name)
    if len(a) == 3:
        ptr, n = e.load(st, e.to_ptr(st, a[1]), 8, True), e.load(st, e.to_ptr(st, a[2]), 8)
    else:
        ptr, n = load_sv2(e, st, a[1])
    st.ghost["appended"] = st.ghost.get("appended", ()) + ((ptr, n),)
    oid = e.new_obj(st, "buffer element", "heap", 16)
    put_span(e, st, oid, 0, ptr, n)
    return Ptr(oid)


def load_sv2(e, st, p):
    p = e.to_ptr(st, p)
    return e.load(st, p, 8, True), e.load(st, p.add(8), 8)


def any_text(e, st, a, name, ins):
    """contract of utils::hexDump used here: some text (its exact text is P24's contract)"""
    e.set_str(st, a[0], e.fresh_str(st, 'dump'))
    return None


MODELS = {"std::vector::emplace_back": appended, "std::vector::push_back": appended, "webfront::utils::hexDump": any_text}


def leaf_value(e, st, t, name):
    if t in ("str", "exc"):
        s = e.fresh_str(st, name)
        st.assume(z3.ULT(bv(s.len), 65536))
        return s
    w = {"flt": 32, "dbl": 64, "bool": 8}.get(t) or NUM[t][0]
    x = z3.BitVec(name, w)
    if t == "bool":
        st.assume(z3.ULT(x, 2))
    return x


def put_value(e, st, oid, at, t, v):
    if t == "str":
        e.set_str(st, Ptr(oid, at), v)
    else:
        st.w(oid).cells[at] = (tsize(t), v)


def message_setup(e, st):
    c = e.ctx
    L = layout(e, CALL, "head", "buffer", "encodeBufferIndex")
    c.BUF, c.INDEX = L["buffer"], L["encodeBufferIndex"]
    if L["head"] != 0 or layout(e, FRAME, "raw")["raw"] != 0:
        raise ToolLimit("the message header is not the first member")
    c.msg = out_obj(e, st, 'message', record_size(e, CALL))
    o = st.w(c.msg)
    c.cmd, c.count, c.size, c.index = z3.BitVec('command', 8), z3.BitVec('count', 8), z3.BitVec('payloadSize', 32), z3.BitVec('used', 64)
    o.cells[0], o.cells[1], o.cells[2], o.cells[3], o.cells[4] = (1, c.cmd), (1, c.count), (1, z3.BitVec('pad0', 8)), (1, z3.BitVec('pad1', 8)), (4, c.size)
    c.old = ABase(z3.Array('buffered', z3.BitVecSort(64), z3.BitVecSort(8)))
    o.segs.append(Seg(c.BUF, 1024, c.old))
    o.cells[c.INDEX] = (8, c.index)
    st.assume(z3.ULE(c.index, 1024))
    c.frame = out_obj(e, st, 'frame', record_size(e, FRAME))
    o = st.w(c.frame)
    c.raw = [z3.BitVec(f'raw{k}', 8) for k in range(14)]
    for k in range(14):
        o.cells[k] = (1, c.raw[k])
    st.assume(z3.ULT(frame_payload(c.raw), bv(1 << 62)))


def frame_payload(raw):
    f = raw[1] & 127
    x = lambda ks: z3.Concat(*[raw[k] for k in ks])
    return z3.If(z3.ULT(f, 126), z3.ZeroExt(56, f), z3.If(f == 126, z3.ZeroExt(48, x([2, 3])), x(range(2, 10))))


def setup(t, how):
    def f(e, st):
        message_setup(e, st)
        c = e.ctx
        if how == "tuple":
            c.val = [leaf_value(e, st, u, f'v{k}') for k, (u, _) in enumerate(t)]
            c.arg = out_obj(e, st, 'parameter', tsize(t))
            for (u, at), v in zip(t, c.val):
                put_value(e, st, c.arg, at, u, v)
            return [Ptr(c.msg), Ptr(c.frame), Ptr(c.arg)]
        if how == "sv":
            oid, n, s = in_bytes(e, st, 'text', lim=65536)
            c.val = s
            return [Ptr(c.msg), Ptr(c.frame), n, Ptr(oid)]
        if how == "cs" or how == "lit":
            s = e.fresh_str(st, 'text')
            n = 5 if how == "lit" else s.len
            s = StrVal(n, s.arr)
            if how == "cs":
                st.assume(z3.ULT(n, 65536))
            c.val = s
            oid = e.new_obj(st, 'text', 'input', add64(n, 1))
            o = st.w(oid)
            o.segs.append(Seg(0, add64(n, 1), s.arr.store(n, 0)))
            o.meta["zero_at"] = n
            o.ro = True
            return [Ptr(c.msg), Ptr(c.frame), Ptr(oid)]
        c.val = leaf_value(e, st, t, 'v')
        c.arg = out_obj(e, st, 'parameter', 32)
        if t == "exc":
            o = st.w(c.arg)
            o.cells[0] = (8, Ptr(("vt", "St12out_of_range"), 16))
            o.meta["what"] = c.val
        else:
            put_value(e, st, c.arg, 0, t, c.val)
        return [Ptr(c.msg), Ptr(c.frame), Ptr(c.arg)]
    return f


def post(t):
    def f(e, st, kind, rv):
        c = e.ctx
        room = z3.And(z3.ULE(c.index + 9, 1024), c.count != 255)
        if kind != 'return':
            e.oblige(st, e.models.is_subclass(e, st.exc[1], "_ZTISt12length_error"), 'ensures: only an exhausted message is refused')
            if type(t) is not list:
                e.oblige(st, z3.Not(room), 'ensures: only an exhausted message is refused')
            return
        index = bv(e.load(st, Ptr(c.msg, c.INDEX), 8))
        e.oblige(st, z3.And(z3.UGE(index, c.index), z3.ULE(index, 1024)), 'ensures: the used part of the buffer grows within the buffer')
        got = lit("")
        for p, n in st.ghost.get("appended", ()):
            p = e.to_ptr(st, p)
            if p.obj == c.msg:
                e.oblige(st, z3.And(z3.UGE(bv(p.off), c.BUF + c.index), z3.ULE(bv(n), 1024), z3.ULE(bv(p.off) + bv(n), c.BUF + index)), 'ensures: sent bytes lie in the part newly used')
            got = concat(got, e.region(st, p, n))
        K = z3.BitVec('K', 64)
        total = None
        for cond, want in enc(t, c.val):
            if not e.feasible(st, cond):
                continue
            e.oblige(st, z3.Implies(cond, bv(got.len) == bv(want.len)), 'ensures: size of the encoding')
            e.oblige(st, z3.Implies(z3.And(cond, z3.ULT(K, bv(want.len))), bv(got.at(K), 8) == bv(want.at(K), 8)), 'ensures: bytes of the encoding')
            size = bv(e.load(st, Ptr(c.msg, 4), 4), 32)
            e.oblige(st, z3.Implies(cond, size == c.size + z3.Extract(31, 0, bv(want.len))), 'ensures: announced payload size')
            raw = [bv(e.load(st, Ptr(c.frame, k), 1), 8) for k in range(14)]
            e.oblige(st, z3.Implies(cond, frame_payload(raw) == frame_payload(c.raw) + bv(want.len)), 'ensures: length field of the frame')
            e.oblige(st, z3.And(raw[0] == c.raw[0], raw[1] & 128 == c.raw[1] & 128), 'ensures: frame: opcode and mask bits are kept')
        cnt = bv(e.load(st, Ptr(c.msg, 1), 1), 8)
        e.oblige(st, cnt == c.count + count(t), 'ensures: count of parameters')
        e.oblige(st, bv(e.load(st, Ptr(c.msg, 0), 1), 8) == c.cmd, 'ensures: the command is kept')
        b = bv(e.region(st, Ptr(c.msg, c.BUF), 1024).at(K), 8)
        e.oblige(st, z3.Implies(z3.ULT(K, c.index), b == c.old.sel(K)), 'ensures: bytes of earlier parameters are kept')
    return f


# ---------------------------------------------------------------- lemma
def roundtrip(t, part=None):
    def post(e, st, kind, rv):
        if type(t) is list:
            val = [leaf_value(e, st, u, f'v{k}') for k, (u, _) in enumerate(t)]
            flat = [(u, v) for (u, _), v in zip(t, val)]
        else:
            val = leaf_value(e, st, t, 'v')
            flat = [(t, val)]
        for u, v in flat:
            if u in ("i64", "u64"):      # numbers a double represents exactly
                st.assume(z3.ULE(v + bv(1 << 53), bv(1 << 54)) if u == "i64" else z3.ULE(v, bv(1 << 53)))
                if part is not None:
                    st.assume(z3.Extract(63, 63, v) == part)
        dt = "str" if t == "exc" else t
        rest = e.fresh_str(st, 'rest')
        places = leaves(dt)
        ok = []
        for cond, text in enc(t, val):
            s = concat(text, rest)
            sub = st.clone()
            sub.assume(cond)
            dec = decodings(dt, s, s.len, 0)
            e.oblige(sub, z3.Or(*[c for c, _, _ in dec]), 'lemma: the encoding is well formed')
            for c, used, vals in dec:
                if not e.feasible(sub, c):
                    continue
                e.oblige(sub, z3.Implies(c, used == bv(text.len)), 'lemma: decoding consumes exactly the encoding')
                e.oblige(sub, z3.Implies(c, z3.BoolVal(len(vals) == len(flat))), 'lemma: all elements are decoded')
                for (at, u, x), (u2, v) in zip(vals, flat):
                    if u == "str":
                        e.oblige(sub, z3.Implies(c, same_value(e, sub, u, x, v)), 'lemma: decoding yields the original')
                    else:
                        e.oblige(sub, z3.Implies(c, same_value(e, sub, u, x, v)), 'lemma: decoding yields the original')
    return post


def proofs(m):
    from p09 import TYPES, setup as dsetup, post as dpost
    E = [("e_bool", "bool", "", "bool"), ("e_u8", "u8", "", "uint8_t"), ("e_i32", "i32", "", "int"), ("e_i64", "i64", "", "int64_t"), ("e_flt", "flt", "", "float"), ("e_dbl", "dbl", "", "double"),
         ("e_str", "str", "", "std::string"), ("e_sv", "str", "sv", "std::string_view"), ("e_cs", "str", "cs", "const char*"), ("e_lit", "str", "lit", "const char[6]"), ("e_exc", "exc", "", "std::out_of_range"),
         ("e_tis", TIS, "tuple", "std::tuple<int, std::string>")]
    out = [Proof(f'FunctionCall::encodeParameter<{name}>', fn, setup(t, how), post(t), models=MODELS, covers=['return', 'throw']) for fn, t, how, name in E]
    out += [Proof(f'FunctionCall::decodeParameter<{name}>', fn, dsetup(t), dpost(t), covers=['return', 'throw']) for fn, t, name in TYPES if t is not TBT]
    out += [Proof(f'lemma: round trip of {n}', None, lambda e, st: [], roundtrip(t), opts=SLOW) for t, n in
            [("bool", "bool"), ("u8", "uint8_t"), ("i8", "int8_t"), ("i16", "int16_t"), ("i32", "int"), ("u32", "uint32_t"), ("u64", "uint64_t up to 2^53"), ("flt", "float"), ("dbl", "double"),
             ("str", "string"), ("exc", "exception text"), (TIS, "tuple<int, string>"), (TSD, "tuple<string, double>")]]
    out += [Proof(f'lemma: round trip of int64_t up to 2^53, {w}', None, lambda e, st: [], roundtrip("i64", k), opts=SLOW) for k, w in enumerate(["positive", "negative"])]
    return out
