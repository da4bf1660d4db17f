"""P13: connections do not disturb each other.
For the operations of a connection - Request(), parsing a byte in any state, any number of bytes, handleRequest, toBuffers of any response, FrameDecoder(), reset, parse of any chunk in any
state - the frame condition:
 assigns   only the objects which the operation is given (the connection's own) and memory it allocates;  no static storage, of whatever lifetime or thread, is written, except that a static
           local may be initialised from values which do not depend on the caller;  the request handler, which connections share, is left unchanged.
As everything else that an operation reads is constant, what it does is a function of its own connection's state and input, for every interleaving.
The operations are those of P12, P16, P17 and P07, run here from arbitrary states with only the frame obligations checked (the rest is proved there)."""
from common import *
from irv.vectors import *
import p07, p12, p17, handler
from handler import REQ, RESP

HARNESS = "conn.cpp"
NATIVE = dict(src="p13.cpp")
SECONDS = 300
FRAME = ("frame:",)


def nothing(e, st, kind, rv):
    return None


def arbitrary(e, st, oid, rec, texts=()):
    """a record in an arbitrary state: integers and strings have any value"""
    for n, off, size, t in e.m.members(rec) or []:
        if "basic_string" in t and "view" not in t:
            e.set_str(st, Ptr(oid, off), e.fresh_str(st, n))
        elif "vector<std::byte" in t:
            e.set_str(st, Ptr(oid, off), e.fresh_str(st, n))
            st.w(oid).meta["vec"] = frozenset([off])
        elif n in texts or t.endswith("Headers"):
            pass
        elif size in (1, 2, 4, 8):
            e.store(st, Ptr(oid, off), size, e.fresh(n, 8 * size))
        elif size <= 64:
            for k in range(size):
                e.store(st, Ptr(oid, off + k), 1, e.fresh(n, 8))
        else:
            raise ToolLimit(f"member {n} of {rec}")


def parse_setup(e, st):
    c = e.ctx
    c.q = out_obj(e, st, 'request', record_size(e, REQ))
    arbitrary(e, st, c.q, REQ, ("headers",))
    p17.header_table(e, st, Ptr(c.q))
    oid, n, c.b = in_bytes(e, st, 'byte', n=1)
    return [Ptr(c.q), Ptr(oid), Ptr(oid, 1)]


def decoder_setup(with_chunk):
    def f(e, st):
        c = e.ctx
        c.d = out_obj(e, st, 'decoder', record_size(e, p07.DEC))
        arbitrary(e, st, c.d, p07.DEC)
        return [Ptr(c.d)] + ([p07.chunk(e, st)] if with_chunk else [])
    return f


def shared_setup(m):
    def f(e, st):
        args = handler.setup(m)(e, st)
        e.store(st, Ptr(e.ctx.h), 8, z3.BitVec('provider', 64))
        return args
    return f


def shared_post(e, st, kind, rv):
    e.oblige(st, bv(e.load(st, Ptr(e.ctx.h), 8)) == z3.BitVec('provider', 64), 'frame: the request handler is shared and not changed')


def framed(p, post=nothing, **kw):
    o = dict(p.opts)
    o["only"] = FRAME
    return Proof(p.name, p.fn, kw.get("setup", p.setup), post, cand=p.cand, defs=p.defs, models=p.models, opts=o)


def proofs(m):
    o = dict(only=FRAME, unroll_limit=0)
    ps = [Proof('Request()', 'q_ctor', p12.start_setup, nothing, models=p12.MODELS, opts=dict(only=FRAME)),
          Proof('Request::parseSomeData, a byte in any state', 'q_parse', parse_setup, nothing, models=p12.MODELS, opts=dict(only=FRAME)),
          Proof('FrameDecoder()', 'd_ctor', decoder_setup(False), nothing, models=p07.MODELS, opts=o),
          Proof('FrameDecoder::reset', 'd_reset', decoder_setup(False), nothing, models=p07.MODELS, opts=o),
          Proof('FrameDecoder::parse, in any state', 'd_parse', decoder_setup(True), nothing, models=p07.MODELS, opts=o)]
    ps += [framed(p) for p in p12.proofs(m) if 'fold' in p.name]
    ps += [framed(p) for p in p17.proofs(m) if '200' in p.name or '404' in p.name]
    ps += [framed(p, shared_post, setup=shared_setup(k)) for k in ("Get", "Head", "Post") for p in handler.handler_proofs([k])]
    return ps
