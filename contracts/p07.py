"""P07: incoming frames decode identically under every chunking.
F is the (unbounded) byte stream from the first byte of a frame on; HS, PS, KEY(k), OP are the RFC 6455 denotation of its header (header size, payload size < 2^63, masking key
or zero, opcode), rest(c) = HS + PS - c.
Class invariant INV(c) of a FrameDecoder which has been given the first c bytes of the frame (c <= HS + PS):
 c < HS  : collecting the header; the first c raw bytes are F[0..c), no payload byte is stored.
 c >= HS : collecting the payload; payload size PS, opcode OP, mask KEY, payload byte k = F[HS + k] ^ KEY(k mod 4) for k < c - HS, mask index = c - HS (mod 4).
Contract of parse(chunk), from any state with INV(c), the frame not complete, chunk[i] = F[c + i]:
 ensures  result = (|chunk| >= rest(c)), consumed() = min(|chunk|, rest(c)), INV(c + consumed()).
Contracts of the constructor and of reset() in any state: INV(0).  payload() is the payload bytes, for a complete frame.
As INV only speaks of the stream, not of how it was cut, the result of decoding depends on the bytes alone, and complete frames leave nothing behind."""
from common import *
from irv.vectors import dispatch, BYTEVEC
from p06 import spec_hsize, spec_payload, spec_key, MAXN
import p10

HARNESS = "ws.cpp"
NATIVE = dict(src="p07.cpp")
SECONDS = 200
DEC = "webfront::websocket::FrameDecoder"
MODELS = dispatch({"std::byte": BYTEVEC})
MODELS["webfront::utils::hexDump"] = p10.any_text
HEADER_STATE, PAYLOAD_STATE = 0, 1
W = dict(state=4, headerBufferParser=8, payloadSize=8, headerSize=8, consumedBytes=8, maskIndex=1, frameType=4)


def decoder(e, st, given):
    """a decoder object; members not given are arbitrary"""
    c = e.ctx
    c.d = out_obj(e, st, 'decoder', record_size(e, DEC))
    c.L = layout(e, DEC, "state", "payloadBuffer", "headerBuffer", "headerBufferParser", "payloadSize", "headerSize", "consumedBytes", "mask", "maskIndex", "frameType")
    o = st.w(c.d)
    for n, w in W.items():
        o.cells[c.L[n]] = (w, given.get(n, e.fresh(n, 8 * w)))
    for k in range(14):
        o.cells[c.L["headerBuffer"] + k] = (1, given["raw"][k] if k < len(given.get("raw", ())) else e.fresh("stale", 8))
    for k in range(4):
        o.cells[c.L["mask"] + k] = (1, given["mask"][k] if "mask" in given else e.fresh("stale", 8))
    at = Ptr(c.d, c.L["payloadBuffer"])
    e.set_str(st, at, given["payload"])
    st.w(c.d).meta["vec"] = frozenset([c.L["payloadBuffer"]])
    return Ptr(c.d)


def got(e, st, n):
    return bv(e.load(st, Ptr(e.ctx.d, e.ctx.L[n]), W[n]), 8 * W[n])


def chunk(e, st):
    c = e.ctx
    oid, c.n, c.D = in_bytes(e, st, 'chunk', lim=MAXN)
    p = e.new_obj(st, 'chunk span', 'heap', 16)
    o = st.w(p)
    o.cells[0], o.cells[8] = (8, Ptr(oid)), (8, c.n)
    c.src = oid
    c.K = z3.BitVec('K', 64)
    return Ptr(p)


def key_at(key, k):
    k = z3.Extract(1, 0, bv(k))
    return z3.If(k == 0, key[0], z3.If(k == 1, key[1], z3.If(k == 2, key[2], key[3])))


def stale_payload(e, st):
    s = e.fresh_str(st, 'earlier payload')
    return s


# ---------------------------------------------------------------- c header bytes received, c < HS
def header_setup(c0):
    def setup(e, st):
        c = e.ctx
        raw = [z3.BitVec(f'raw{k}', 8) for k in range(c0)]
        d = decoder(e, st, dict(state=HEADER_STATE, headerBufferParser=c0, maskIndex=0, raw=raw, payload=lit("")))
        b = chunk(e, st)
        c.c0 = c0
        c.H = [raw[k] if k < c0 else bv(c.D.at(k - c0), 8) for k in range(14)]
        c.HS, c.PS, c.KEY = spec_hsize(c.H), spec_payload(c.H), [spec_key(c.H, k) for k in range(4)]
        c.OP = z3.ZeroExt(24, c.H[0] & 15)
        st.assume(z3.UGT(c.HS, c0))
        st.assume(z3.ULT(c.PS, bv(1 << 63)))
        c.rest = c.HS + c.PS - c0
        c.p0 = bv(0)
        c.at = lambda k: bv(c.D.at(c.HS - c0 + bv(k)), 8) ^ key_at(c.KEY, k)
        return [d, b]
    return setup


def payload_setup(e, st):
    c = e.ctx
    c.c0 = None
    c.PS, c.p0 = z3.BitVec('PS', 64), z3.BitVec('p0', 64)
    c.KEY = [z3.BitVec(f'KEY{k}', 8) for k in range(4)]
    c.OP = z3.BitVec('OP', 32)
    st.assume(z3.And(z3.ULT(c.PS, bv(1 << 63)), z3.ULT(c.p0, c.PS), z3.ULT(c.p0, bv(MAXN))))
    mi = z3.BitVec('maskIndex', 8)
    st.assume(mi & 3 == z3.Extract(7, 0, c.p0) & 3)
    c.P = ABase(z3.Array('decoded', z3.BitVecSort(64), z3.BitVecSort(8)))
    d = decoder(e, st, dict(state=PAYLOAD_STATE, payloadSize=c.PS, maskIndex=mi, mask=c.KEY, frameType=c.OP, payload=StrVal(c.p0, c.P)))
    b = chunk(e, st)
    c.rest = c.PS - c.p0
    c.at = lambda k: z3.If(z3.ULT(bv(k), c.p0), bv(c.P.sel(bv(k)), 8), bv(c.D.at(bv(k) - c.p0), 8) ^ key_at(c.KEY, k))
    return [d, b]


def inv_payload(e, st, cond, count):
    """INV(HS + count) on the condition cond"""
    c = e.ctx
    s = e.get_str(st, Ptr(c.d, c.L["payloadBuffer"]))
    cond = z3.And(cond) if isinstance(cond, list) else cond

    def ob(f, what):
        e.oblige(st, z3.Implies(cond, f), 'ensures: ' + what)
    ob(got(e, st, "state") == PAYLOAD_STATE, 'collecting the payload')
    ob(got(e, st, "payloadSize") == c.PS, 'size of the payload')
    ob(got(e, st, "frameType") == c.OP, 'opcode of the frame')
    for k in range(4):
        ob(bv(e.load(st, Ptr(c.d, c.L["mask"] + k), 1), 8) == c.KEY[k], 'masking key')
    ob(bv(s.len) == count, 'number of payload bytes decoded so far')
    ob(z3.Implies(z3.ULT(c.K, count), bv(s.at(c.K), 8) == c.at(c.K)), 'every payload byte unmasked, in order')
    ob(got(e, st, "maskIndex") & 3 == z3.Extract(7, 0, count) & 3, 'position in the masking key')


def inv_header(e, st, cond, count):
    c = e.ctx
    s = e.get_str(st, Ptr(c.d, c.L["payloadBuffer"]))

    def ob(f, what):
        e.oblige(st, z3.Implies(cond, f), 'ensures: ' + what)
    ob(got(e, st, "state") == HEADER_STATE, 'collecting the header')
    ob(got(e, st, "headerBufferParser") == count, 'number of header bytes received')
    for k in range(14):
        ob(z3.Implies(z3.ULT(bv(k), count), bv(e.load(st, Ptr(c.d, c.L["headerBuffer"] + k), 1), 8) == c.H[k]), 'header bytes received')
    ob(bv(s.len) == 0, 'no payload byte')
    ob(got(e, st, "maskIndex") & 3 == 0, 'start of the masking key')


def parse_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'parse returns')
    if kind != 'return':
        return
    done = z3.UGE(c.n, c.rest)
    used = z3.If(done, c.rest, c.n)
    e.oblige(st, (bv(rv, 32) != 0) == done, 'ensures: complete exactly at the last byte of the frame')
    e.oblige(st, got(e, st, "consumedBytes") == used, 'ensures: exactly the bytes of the frame are consumed')
    if c.c0 is None:
        inv_payload(e, st, z3.BoolVal(True), c.p0 + used)
        return
    now = bv(c.c0) + used
    inv_header(e, st, z3.ULT(now, c.HS), now)
    inv_payload(e, st, z3.UGE(now, c.HS), now - c.HS)


def loop_cand(e, cut, S):
    c = e.ctx
    cell = ('cell', c.d, c.L["maskIndex"])
    for sl in strs(cut):
        def done(v, sl=sl):
            return bv(v.val(sl).len) - c.p0
        yield 'bytes', lambda v, sl=sl: z3.Implies(z3.ULT(c.K, bv(v.val(sl).len)), bv(v.val(sl).at(c.K), 8) == c.at(c.K))
        yield 'grow', lambda v, sl=sl: z3.And(z3.ULE(c.p0, bv(v.val(sl).len)), z3.ULE(done(v), c.n), z3.ULE(done(v), c.rest))
        yield 'mask', lambda v, sl=sl: z3.Extract(1, 0, got(e, v.st, "maskIndex")) == z3.Extract(1, 0, bv(v.val(sl).len))
        for l, i in cut.infos.items():
            if i.kind == 'int' and i.w == 8:
                yield 'mask', lambda v, l=l, sl=sl: z3.Extract(1, 0, bv(v.int(l), 8)) == z3.Extract(1, 0, bv(v.val(sl).len))
        start = bv(0) if c.c0 is None else c.HS - c.c0
        yield 'grow', lambda v, sl=sl, start=start, done=done: z3.And(z3.ULE(bv(v.val(sl).len), c.PS), z3.ULE(start + done(v), c.n), z3.ULE(start, c.n))
        for l in ints(cut):
            start = bv(0) if c.c0 is None else c.HS - c.c0
            yield 'pos', lambda v, l=l, sl=sl, start=start, done=done: bv(v.int(l)) == start + done(v)
            yield 'pos', lambda v, l=l, sl=sl, done=done: bv(v.int(l)) == done(v)


# ---------------------------------------------------------------- constructor, reset, accessors
def fresh_setup(built):
    def setup(e, st):
        c = e.ctx
        c.K = z3.BitVec('K', 64)
        if built:
            return [decoder(e, st, dict(payload=stale_payload(e, st)))]
        c.d = out_obj(e, st, 'decoder', record_size(e, DEC))
        c.L = layout(e, DEC, "state", "payloadBuffer", "headerBuffer", "headerBufferParser", "payloadSize", "headerSize", "consumedBytes", "mask", "maskIndex", "frameType")
        return [Ptr(c.d)]
    return setup


def fresh_post(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        e.ctx.H = []
        c = e.ctx
        c.H = [bv(0, 8)] * 14
        inv_header(e, st, z3.BoolVal(True), bv(0))


def complete_setup(e, st):
    c = e.ctx
    c.K = z3.BitVec('K', 64)
    c.s = e.fresh_str(st, 'payload')
    d = decoder(e, st, dict(state=PAYLOAD_STATE, payloadSize=c.s.len, payload=c.s))
    c.out = out_obj(e, st, 'span', 16)
    return [d, Ptr(c.out)]


def complete_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    n, p = e.load(st, Ptr(c.out, 8), 8), e.load(st, Ptr(c.out), 8, True)
    v = e.region(st, p, n)
    e.oblige(st, bv(v.len) == bv(c.s.len), 'ensures: size of the payload')
    e.oblige(st, z3.Implies(z3.ULT(c.K, bv(c.s.len)), bv(v.at(c.K), 8) == bv(c.s.at(c.K), 8)), 'ensures: bytes of the payload')


def consumed_post(e, st, kind, rv):
    e.oblige(st, bv(rv) == got(e, st, "consumedBytes"), 'ensures: bytes consumed by the last parse')


def proofs(m):
    S = dict(unroll_limit=20)
    out = [Proof('FrameDecoder()', 'd_ctor', fresh_setup(False), fresh_post, models=MODELS), Proof('FrameDecoder::reset', 'd_reset', fresh_setup(True), fresh_post, models=MODELS),
           Proof('FrameDecoder::payload', 'd_payload', complete_setup, complete_post, models=MODELS),
           Proof('FrameDecoder::consumed', 'd_consumed', fresh_setup(True), consumed_post, models=MODELS),
           Proof('FrameDecoder::parse, in the payload', 'd_parse', payload_setup, parse_post, cand=[loop_cand], models=MODELS, opts=S)]
    for c0 in range(14):
        out.append(Proof(f'FrameDecoder::parse, {c0} header bytes received', 'd_parse', header_setup(c0), parse_post, cand=[loop_cand], models=MODELS, opts=S))
    return out
