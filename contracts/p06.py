"""P06: outgoing websocket frames are well formed for every payload.
HDR(first, n) is the RFC 6455 header of a final unmasked frame: first byte (FIN + opcode), then the minimal encoding of n in 7 bits, 126 + 16 bits or 127 + 64 bits.
Contracts:
 Header::setPayloadSize(n), any state: bytes 1.. hold the minimal encoding of n, the mask bit, byte 0 and bytes 10..13 are kept.
 Header getters: the denotation of the raw bytes.
 Frame constructors: raw = HDR(0x81 | 0x82, |payload|), buffers = (header, the parts of the payload).
 Frame::addBuffer(d), any frame with raw = HDR(f, n): raw = HDR(f, n + |d|) and d is appended to the buffers.
 WebSocket::write(...): exactly one AsyncWrite on the socket of the object, of HDR(...) followed by the payload, with buffers that are still alive and unchanged
 when the call has returned; for frames of any number of buffers (class invariant of Frame: the sizes of the buffers after the header sum up to the payload size)."""
from common import *
from irv.vectors import dispatch, BYTEVEC, copy_records
from irv.models import load_sv
from irv.loops import read
import p10

HARNESS = "ws.cpp"
NATIVE = dict(src="p06.cpp")
FRAME, WS = "webfront::websocket::Frame<GNet>", "webfront::websocket::WebSocket<GNet>"
CB = "webfront::networking::buffers::ConstBuffer"
MAXN = 1 << 46


def raw_vars(e, st, oid, at=0, name='raw'):
    raw = [z3.BitVec(f'{name}{k}', 8) for k in range(14)]
    o = st.w(oid)
    for k in range(14):
        o.cells[at + k] = (1, raw[k])
    return raw


def raw_of(e, st, p):
    return [bv(e.load(st, p.add(k), 1), 8) for k in range(14)]


def is_length(raw, n):
    """raw[1..9] is the minimal encoding of n"""
    f = raw[1] & 127
    be = lambda k: z3.Concat(*raw[2:2 + k])
    n = bv(n)
    return z3.If(z3.ULT(n, 126), z3.ZeroExt(56, f) == n, z3.If(z3.ULT(n, 65536), z3.And(f == 126, z3.ZeroExt(48, be(2)) == n), z3.And(f == 127, be(8) == n)))


def hdr_cases(first, n):
    n = bv(n)
    b = lambda k: z3.Extract(8 * k + 7, 8 * k, n)
    return [(z3.ULT(n, 126), StrVal(2, ALit([first, b(0)]))), (z3.And(z3.UGE(n, 126), z3.ULT(n, 65536)), StrVal(4, ALit([first, 126, b(1), b(0)]))),
            (z3.UGE(n, 65536), StrVal(10, ALit([first, 127] + [b(k) for k in range(7, -1, -1)])))]


def header(e, st):
    e.ctx.h = out_obj(e, st, 'header', 14)
    e.ctx.raw = raw_vars(e, st, e.ctx.h)
    return Ptr(e.ctx.h)


def set_setup(e, st):
    e.ctx.n = z3.BitVec('n', 64)
    return [header(e, st), e.ctx.n]


def set_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    r = raw_of(e, st, Ptr(c.h))
    e.oblige(st, is_length(r, c.n), 'ensures: minimal encoding of the size')
    e.oblige(st, z3.And(r[0] == c.raw[0], r[1] & 128 == c.raw[1] & 128, *[r[k] == c.raw[k] for k in range(10, 14)]), 'frame: other header fields')


def spec_payload(raw):
    return p10.frame_payload(raw)


def spec_hsize(raw):
    f, m = raw[1] & 127, raw[1] & 128 != 0
    return z3.If(z3.ULT(f, 126), bv(2), z3.If(f == 126, bv(4), bv(10))) + z3.If(m, bv(4), bv(0))


def spec_key(raw, k):
    """k-th byte of the masking key, 0 without mask"""
    f, m = raw[1] & 127, raw[1] & 128 != 0
    return z3.If(m, z3.If(z3.ULT(f, 126), raw[2 + k], z3.If(f == 126, raw[4 + k], raw[10 + k])), bv(0, 8))


def getter(fn, spec, w, name):
    return Proof('Header::' + name, fn, lambda e, st: [header(e, st)], lambda e, st, kind, rv: e.oblige(st, bv(rv, w) == spec(e.ctx.raw), 'ensures: denotation of the header'))


def key_setup(e, st):
    e.ctx.k = out_obj(e, st, 'key', 4)
    return [header(e, st), Ptr(e.ctx.k)]


def key_post(e, st, kind, rv):
    for k in range(4):
        e.oblige(st, bv(e.load(st, Ptr(e.ctx.k, k), 1), 8) == spec_key(e.ctx.raw, k), 'ensures: masking key')


def complete_setup(e, st):
    e.ctx.n = z3.BitVec('n', 64)
    return [header(e, st), e.ctx.n]


def complete_post(e, st, kind, rv):
    n = e.ctx.n
    e.oblige(st, (bv(rv, 32) != 0) == z3.And(z3.UGE(n, 2), z3.UGE(n, spec_hsize(e.ctx.raw))), 'ensures: complete exactly when every header byte is there')


# ---------------------------------------------------------------- frames
def span_arg(e, st, name):
    oid, n, s = in_bytes(e, st, name, lim=MAXN)
    p = e.new_obj(st, name + ' span', 'heap', 16)
    o = st.w(p)
    o.cells[0], o.cells[8] = (8, Ptr(oid)), (8, n)
    return Ptr(p), s


def ctor_setup(how):
    def f(e, st):
        c = e.ctx
        c.f = out_obj(e, st, 'frame', record_size(e, FRAME))
        c.first = 0x81 if how == 'text' else 0x82
        if how == 'text':
            oid, n, c.payload = in_bytes(e, st, 'text', lim=MAXN)
            return [Ptr(c.f), n, Ptr(oid)]
        a, s = span_arg(e, st, 'head')
        c.payload = s
        if how == 'data':
            return [Ptr(c.f), a]
        b, t = span_arg(e, st, 'next')
        c.payload = concat(s, t)
        return [Ptr(c.f), a, b]
    return f


def buffers_of(e, st, f):
    """the elements of the frame's buffers (concrete count)"""
    at = layout(e, FRAME, "buffers")["buffers"]
    a, b = e.load(st, f.add(at), 8, True), e.load(st, f.add(at + 8), 8, True)
    n = lz(lsub(b.off, a.off)) if a.obj == b.obj else None
    if type(n) is not int:
        raise ToolLimit("number of buffers")
    return [(e.load(st, a.add(k), 8, True), e.load(st, a.add(k + 8), 8)) for k in range(0, n, 16)]


def is_frame(e, st, f, first, payload):
    c = e.ctx
    raw = raw_of(e, st, f)
    e.oblige(st, raw[0] == first, 'ensures: final frame with its opcode')
    e.oblige(st, z3.And(raw[1] & 128 == 0, is_length(raw, payload.len)), 'ensures: unmasked, minimal length field')
    bs = buffers_of(e, st, f)
    e.oblige(st, len(bs) >= 1, 'ensures: the first buffer is the header')
    got = lit("")
    for p, n in bs[1:]:
        got = concat(got, e.region(st, p, n))
    K = z3.BitVec('K', 64)
    e.oblige(st, bv(got.len) == bv(payload.len), 'ensures: size of the payload')
    e.oblige(st, z3.Implies(z3.ULT(K, bv(payload.len)), bv(got.at(K), 8) == bv(payload.at(K), 8)), 'ensures: bytes of the payload')


def ctor_post(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        is_frame(e, st, Ptr(e.ctx.f), e.ctx.first, e.ctx.payload)


def frame_setup(e, st):
    c = e.ctx
    c.f = out_obj(e, st, 'frame', record_size(e, FRAME))
    c.raw = raw_vars(e, st, c.f)
    c.n = z3.BitVec('payload', 64)
    st.assume(z3.And(c.raw[1] & 128 == 0, is_length(c.raw, c.n), z3.ULT(c.n, MAXN)))


def add_setup(e, st):
    frame_setup(e, st)
    p, e.ctx.s = span_arg(e, st, 'data')
    return [Ptr(e.ctx.f), p]


def add_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    if kind != 'return':
        return
    raw = raw_of(e, st, Ptr(c.f))
    e.oblige(st, bv(rv) == bv(c.s.len), 'ensures: size of the added buffer')
    e.oblige(st, z3.And(raw[0] == c.raw[0], raw[1] & 128 == 0, is_length(raw, c.n + bv(c.s.len))), 'ensures: length field of the grown frame')
    ap = st.ghost.get("appended", ())
    got = lit("")
    for p, n in ap:
        got = concat(got, e.region(st, p, n))
    K = z3.BitVec('K', 64)
    e.oblige(st, z3.And(bv(got.len) == bv(c.s.len), z3.Implies(z3.ULT(K, bv(c.s.len)), bv(got.at(K), 8) == bv(c.s.at(K), 8))), 'ensures: the data is appended')


# ---------------------------------------------------------------- WebSocket::write
def g_write(e, st, a, name, ins):
    sock, bufs, count, handler = a[:4]
    if type(count) is not int:
        k = e.concretize(st, count)
        if k is None:
            raise ToolLimit("number of buffers written")
        count = k
    els = []
    for k in range(count):
        els.append((e.load(st, bufs.add(16 * k), 8, True), e.load(st, bufs.add(16 * k + 8), 8)))
    at_call = lit("")
    for p, n in els:
        at_call = concat(at_call, e.region(st, p, n))
    st.ghost["writes"] = st.ghost.get("writes", ()) + ((sock, tuple(els), at_call),)
    return None


MODELS = dict(dispatch({"std::byte": BYTEVEC}), g_write=g_write)
MODELS["webfront::utils::hexDump"] = p10.any_text
ADD = dict(p10.MODELS, **{"g_write": g_write})


def socket(e, st):
    c = e.ctx
    c.ws = out_obj(e, st, 'websocket', record_size(e, WS))
    c.sock = layout(e, WS, "socket")["socket"]
    return Ptr(c.ws)


def write_setup(how):
    def f(e, st):
        c = e.ctx
        w = socket(e, st)
        a = ctor_setup(how)(e, st)
        return [w] + a[1:]
    return f


def one_write(e, st, kind):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    ws = st.ghost.get("writes", ())
    e.oblige(st, len(ws) == 1, 'ensures: exactly one write')
    if len(ws) != 1 or kind != 'return':
        return None
    sock, els, at_call = ws[0]
    e.oblige(st, sock.obj == c.ws and sock.off == c.sock, 'ensures: written to the socket of the object')
    later = lit("")
    for p, n in els:
        later = concat(later, e.region(st, p, n))      # the buffers must still be alive
    return at_call, later


def write_post(e, st, kind, rv):
    c = e.ctx
    r = one_write(e, st, kind)
    if r is None:
        return
    K = z3.BitVec('K', 64)
    for cond, h in hdr_cases(c.first, c.payload.len):
        if not e.feasible(st, cond):
            continue
        want = concat(h, c.payload)
        sub = st.clone()
        sub.assume(cond)
        for got, when in zip(r, ('when written', 'after the call')):
            e.oblige(sub, bv(got.len) == bv(want.len), f'ensures: header and payload {when}: size')
            e.oblige(sub, z3.Implies(z3.ULT(K, bv(want.len)), bv(got.at(K), 8) == bv(want.at(K), 8)), f'ensures: header and payload {when}: bytes')


# frames of any number of buffers: buffer i >= 1 is SZ(i) bytes of ghost memory at POS(i); OFF(i) is the sum of the sizes before it
B64 = z3.BitVecSort(64)
SZ, POS, OFF = z3.Function('SZ', B64, B64), z3.Function('POS', B64, B64), z3.Function('OFF', B64, B64)
J, M = z3.BitVec('J', 64), z3.BitVec('M', 64)


def unfold(c, i):
    """definition of the sizes at buffer i, and what follows from it by induction (prefix sums of non-negative sizes grow)"""
    i = bv(i)
    inside = z3.And(z3.UGE(i, 1), z3.ULT(i, c.count))
    return [OFF(bv(1)) == 0, z3.Implies(inside, z3.And(OFF(i + 1) == OFF(i) + SZ(i), z3.ULE(OFF(i), OFF(i + 1)), z3.ULE(OFF(i + 1), OFF(c.count)), z3.ULE(SZ(i), OFF(c.count)))),
            z3.Implies(inside, z3.And(z3.ULE(POS(i), bv(MAXN)), z3.ULE(POS(i) + SZ(i), c.memsize))),
            z3.Implies(z3.And(inside, z3.ULT(J, i)), z3.ULE(OFF(J) + SZ(J), OFF(i))), z3.Implies(z3.And(inside, z3.ULE(i, J)), z3.ULE(OFF(i), OFF(J))),
            z3.ULE(OFF(J), OFF(J) + SZ(J)), z3.ULE(OFF(J) + SZ(J), OFF(c.count)), z3.ULE(OFF(J), OFF(c.count))]


def element(e, st, i, field, size, isptr):
    c = e.ctx
    if type(i) is int and i == 0:
        return Ptr(("undef", 0), 0) if field == 0 else e.fresh("size", 64)   # the header buffer of a moved frame is stale
    for f in unfold(c, i):
        st.assume(f)
    return Ptr(c.mem, lin(POS(bv(i)))) if field == 0 else SZ(bv(i))


def wframe_setup(e, st):
    c = e.ctx
    w = socket(e, st)
    frame_setup(e, st)
    c.memsize = z3.BitVec('memsize', 64)
    st.assume(z3.ULT(c.memsize, MAXN))
    c.mem, _, c.bytes = in_bytes(e, st, 'pieces', c.memsize)
    c.count = z3.BitVec('buffers', 64)
    st.assume(z3.And(z3.UGE(c.count, 1), z3.ULT(c.count, 1 << 40)))
    st.assume(OFF(c.count) == c.n)
    st.assume(z3.And(z3.UGE(J, 1), z3.ULT(J, c.count), z3.ULT(M, SZ(J))) if True else True)
    for f in unfold(c, J) + unfold(c, bv(1)):
        st.assume(f)
    els = e.new_obj(st, 'buffers', 'heap', c.count * 16)
    st.w(els).meta["elem"] = (16, element)
    at = layout(e, FRAME, "buffers")["buffers"]
    o = st.w(c.f)
    end = Ptr(els, lin(c.count * 16))
    o.cells[at], o.cells[at + 8], o.cells[at + 16] = (8, Ptr(els)), (8, end), (8, end)
    return [w, Ptr(c.f)]


def wframe_setup0(e, st):
    """a frame without payload buffer"""
    r = wframe_setup(e, st)
    return r


def cursors(cut):
    """loop variables which point into the frame's buffers"""
    for l, i in cut.infos.items():
        p = read(cut.E, l, cut.fi) if i.kind == 'ptr' else None
        if isinstance(p, Ptr) and p.obj in cut.E.objs and "elem" in cut.E.objs[p.obj].meta:
            yield l
        elif i.kind == 'int' and i.w == 64 and l[0] != "ghost":
            yield l                             # possibly an index of the loop


def index_of(v, l):
    if not isinstance(v.val(l), Ptr):
        return bv(v.int(l))
    i = ldiv(lin(v.int(l)), 16)
    return z3.LShR(bv(v.int(l)), 4) if i is None else bv(lz(i))


def wframe_cand(e, cut, S):
    c = e.ctx
    for pl in cursors(cut):
        for sl in strs(cut):
            def idx(v, pl=pl):
                return index_of(v, pl)
            yield 'len', lambda v, sl=sl, idx=idx: bv(v.val(sl).len) == spec_hsize(c.raw) + OFF(idx(v))
            yield 'len', lambda v, sl=sl, idx=idx: z3.If(idx(v) == 0, bv(v.val(sl).len) == 0, bv(v.val(sl).len) == spec_hsize(c.raw) + OFF(idx(v)))
            yield 'piece', lambda v, sl=sl, idx=idx: z3.Implies(z3.UGT(idx(v), J), bv(v.val(sl).at(spec_hsize(c.raw) + OFF(J) + M), 8) == bv(c.bytes.at(POS(J) + M), 8))
            for k in range(10):
                yield 'hdr', lambda v, sl=sl, idx=idx, k=k: z3.Implies(z3.And(idx(v) != 0, z3.ULT(bv(k), spec_hsize(c.raw))), bv(v.val(sl).at(k), 8) == c.raw[k])


def wframe_defs(e, cut, v):
    c = e.ctx
    out = []
    for pl in cursors(cut):
        i = index_of(v, pl)
        out += unfold(c, i) + unfold(c, i + 1)
    return out


def wframe_post(e, st, kind, rv):
    c = e.ctx
    r = one_write(e, st, kind)
    if r is None:
        return
    h = spec_hsize(c.raw)
    for got, when in zip(r, ('when written', 'after the call')):
        e.oblige(st, bv(got.len) == h + c.n, f'ensures: header and payload {when}: size')
        for k in range(10):
            e.oblige(st, z3.Implies(z3.ULT(bv(k), h), bv(got.at(k), 8) == c.raw[k]), f'ensures: header {when}')
        e.oblige(st, bv(got.at(h + OFF(J) + M), 8) == bv(c.bytes.at(POS(J) + M), 8), f'ensures: every byte of every buffer {when}, in order')


def move_setup(e, st):
    c = e.ctx
    wframe_setup(e, st)
    c.g = out_obj(e, st, 'moved frame', record_size(e, FRAME))
    return [Ptr(c.g), Ptr(c.f)]


def move_post(e, st, kind, rv):
    c = e.ctx
    at = layout(e, FRAME, "buffers")["buffers"]
    e.oblige(st, z3.And(*[x == y for x, y in zip(raw_of(e, st, Ptr(c.g)), c.raw)]), 'ensures: the header moves along')
    a, b = e.load(st, Ptr(c.g, at), 8, True), e.load(st, Ptr(c.g, at + 8), 8, True)
    e.oblige(st, a.obj == b.obj and "elem" in st.objs[a.obj].meta and st.objs[a.obj].alive, 'ensures: the buffers move along')
    e.oblige(st, bv(lz(lsub(b.off, a.off))) == c.count * 16, 'ensures: the buffers move along')


def proofs(m):
    S = dict(timeout=60000)
    wm = dict(MODELS)
    wm["std::vector::vector"] = both(MODELS["std::vector::vector"], copy_records)
    return [Proof('Header::setPayloadSize', 'h_set', set_setup, set_post),
            getter('h_payload', spec_payload, 64, 'payloadSize'), getter('h_size', spec_hsize, 64, 'headerSize'),
            getter('h_frame', lambda r: spec_payload(r) + spec_hsize(r), 64, 'getFrameSize'),
            getter('h_opcode', lambda r: z3.ZeroExt(24, r[0] & 15), 32, 'opcode'), getter('h_mask', lambda r: z3.If(r[1] & 128 != 0, bv(1, 32), bv(0, 32)), 32, 'MASK'),
            getter('h_fin', lambda r: z3.If(r[0] & 128 != 0, bv(1, 32), bv(0, 32)), 32, 'FIN'),
            Proof('Header::maskingKey', 'h_key', key_setup, key_post), Proof('Header::isComplete', 'h_complete', complete_setup, complete_post),
            Proof('Frame(string_view)', 'f_text', ctor_setup('text'), ctor_post, models=MODELS), Proof('Frame(span)', 'f_data', ctor_setup('data'), ctor_post, models=MODELS),
            Proof('Frame(span, span)', 'f_data2', ctor_setup('data2'), ctor_post, models=MODELS),
            Proof('Frame::addBuffer', 'f_add', add_setup, add_post, models=ADD),
            Proof('Frame(Frame&&)', 'f_move', move_setup, move_post, models=wm),
            Proof('WebSocket::write(string_view)', 'w_text', write_setup('text'), write_post, models=MODELS),
            Proof('WebSocket::write(span)', 'w_data', write_setup('data'), write_post, models=MODELS),
            Proof('WebSocket::write(span, span)', 'w_data2', write_setup('data2'), write_post, models=MODELS),
            Proof('WebSocket::write(Frame)', 'w_frame', wframe_setup, wframe_post, cand=[wframe_cand], defs=[wframe_defs], models=wm)]


def both(bytes_h, records_h):
    """vector constructors: byte vectors, and copies of vectors of buffers"""
    def h(e, st, a, name, ins):
        if bytes_h.accept(e, name, *e.models.info(e, name)):
            return bytes_h(e, st, a, name, ins)
        return records_h(e, st, a, name, ins)
    h.accept = lambda e, name, *i: bytes_h.accept(e, name, *i) or (CB in e.m.demangled(name) and records_h.accept(e, name, *i))
    return h
