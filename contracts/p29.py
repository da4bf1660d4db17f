"""P29: contracts of the constructors and accessors of Ack, Handshake, TextCommand and FunctionReturn messages."""
from msgspec import *
import p10

HARNESS = "msg.cpp"
NATIVE = dict(src="p29.cpp")


def span_bytes(e, st, oid):
    p, n = get_span(e, st, oid)
    return e.region(st, p, n)


def setup_ack(e, st):
    c = e.ctx
    c.h, c.p = out_obj(e, st, 'header', 16), out_obj(e, st, 'payload', 16)
    c.m = out_obj(e, st, 'message', 2)
    return [Ptr(c.h), Ptr(c.p), Ptr(c.m)]


def post_ack(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        e.oblige(st, text_is(span_bytes(e, st, e.ctx.h), b"\x01\x00"), "ensures: two bytes, acknowledge and the server's (little) endianness")
        e.oblige(st, bv(get_span(e, st, e.ctx.p)[1]) == 0, 'ensures: no payload')


def setup_text(e, st):
    c = e.ctx
    c.h, c.p = out_obj(e, st, 'header', 16), out_obj(e, st, 'payload', 16)
    c.m = out_obj(e, st, 'message', 32)
    c.oid, n, c.s = in_bytes(e, st, 'text', lim=65536)
    c.op = z3.BitVec('opcode', 8)
    return [Ptr(c.h), Ptr(c.p), Ptr(c.m), c.op, n, Ptr(c.oid)]


def post_text(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind != 'return':
        return
    c = e.ctx
    h = span_bytes(e, st, c.h)
    n = bv(c.s.len)
    e.oblige(st, bv(h.len) == 4, 'ensures: a header of 4 bytes')
    for k, want in enumerate([z3.BitVecVal(2, 8), c.op, z3.Extract(15, 8, n), z3.Extract(7, 0, n)]):
        e.oblige(st, bv(h.at(k), 8) == want, f'ensures: header byte {k}: command, opcode, length')
    p, m = get_span(e, st, c.p)
    e.oblige(st, z3.And(bv(m) == n, z3.Or(n == 0, ptr_at(e, st, p, c.oid, bv(0)))), 'ensures: the payload is the text')


def setup_endian(e, st):
    oid, n, s = in_bytes(e, st, 'received', 2)
    e.ctx.s = s
    return [Ptr(oid)]


def post_endian(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        e.oblige(st, bv(rv, 32) == z3.ZeroExt(24, bv(e.ctx.s.at(1), 8)), "ensures: the client's endianness")


def setup_size(e, st):
    oid, n, s = in_bytes(e, st, 'received')
    st.assume(z3.UGE(bv(n), 4))
    e.ctx.s = s
    return [Ptr(oid)]


def post_size(e, st, kind, rv):
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return':
        e.oblige(st, bv(rv) == z3.ZeroExt(48, z3.Concat(bv(e.ctx.s.at(2), 8), bv(e.ctx.s.at(3), 8))), 'ensures: the received length')


def setup_new(e, st):
    layout(e, p10.CALL, "head", "encodeBufferIndex")
    e.ctx.m = out_obj(e, st, 'message', record_size(e, p10.CALL))
    return [Ptr(e.ctx.m)]


def post_new(cmd):
    def f(e, st, kind, rv):
        e.oblige(st, kind == 'return', 'returns')
        if kind == 'return':
            at = layout(e, p10.CALL, "head")["head"]
            e.oblige(st, text_is(e.region(st, Ptr(e.ctx.m, at), 8), bytes([cmd] + [0] * 7)), 'ensures: header of an empty message')
    return f


def proofs(m):
    from p09 import setup_cast, post_cast, witness
    return [Proof('Ack', 'm_ack', setup_ack, post_ack), Proof('TextCommand', 'm_txt', setup_text, post_text), Proof('Handshake::getEndian', 'm_endian', setup_endian, post_endian),
            Proof('TextCommand::getPayloadSize', 'm_tsize', setup_size, post_size),
            Proof('Handshake::castFromRawData', 'm_hand', setup_cast('m_hand'), post_cast('m_hand'), covers=['return', 'throw'], witness=witness(20)),
            Proof('TextCommand::castFromRawData', 'm_text', setup_cast('m_text'), post_cast('m_text'), covers=['return', 'throw'], witness=witness(22)),
            Proof('FunctionCall::FunctionCall', 'c_ctor', setup_new, post_new(3)), Proof('FunctionReturn::FunctionReturn', 'r_ctor', setup_new, post_new(4))]
