"""P08: each received message is delivered exactly once and in order.
The FrameDecoder is used through its contract (proved by P07): parse(chunk) completes a frame or takes the whole chunk; consumed() counts its bytes; payload() and frameType
denote the completed frame until reset().
Contract of the read completion handler, from every state a history of reads can leave (decoder inside a frame, any handlers, started), for n received bytes:
 requires (parse)  the chunk is exactly the unconsumed part of the received bytes and every completed frame has been handled and reset
 ensures  each completed text / binary frame was given to its handler (if one is set) exactly once with its exact payload, before the next frame is parsed; a close frame
          called the close handler once and closed the socket; other frames called nothing; all received bytes were consumed and one read of the receive buffer is pending,
          or the websocket was stopped and none is.
 on error the close handler is called once with the error, nothing is delivered, the socket is closed and no read is pending.
Contract of the write completion handler: an error calls the close handler once, and closes the socket unless the operation was aborted.
Contract of the constructor: one read of the receive buffer is pending."""
from common import *
from irv.loops import read
import p06, p10

HARNESS = "ws.cpp"
NATIVE = dict(src="p08.cpp")
WS, DEC = p06.WS, "webfront::websocket::FrameDecoder"
TEXT, BINARY, CLOSE = 1, 2, 8
BUFFER = 8192
COUNTERS = ("texts", "binaries", "closes", "sockets")


def g(st, n):
    return st.ghost[n]


def bump(st, n):
    v = st.ghost[n]
    st.ghost[n] = v + 1 if type(v) is int else z3.simplify(v + 1)


def handled(c, s, op, counts):
    """the completed frame has been given to the right handler"""
    t, b, k, x = [bv(v) for v in counts]
    op = bv(op, 32)
    stopped = bv(s) != 0
    return z3.If(op == TEXT, z3.And(t == z3.If(c.text, bv(1), bv(0)), b == 0, k == 0),
                 z3.If(op == BINARY, z3.And(t == 0, b == z3.If(c.binary, bv(1), bv(0)), k == 0),
                       z3.If(op == CLOSE, z3.And(t == 0, b == 0, k == z3.If(c.close, bv(1), bv(0)), x != 0, stopped), z3.And(t == 0, b == 0, k == 0, x == 0))))


def counts(st):
    return [g(st, n) for n in COUNTERS]


# ---------------------------------------------------------------- contract of the decoder (P07)
def span_at(e, st, p):
    return e.load(st, p, 8, True), e.load(st, p.add(8), 8)


def parse(e, st, a, name, ins):
    c = e.ctx
    p, n = a[1], a[2]
    e.oblige(st, bv(g(st, "open")) == 0, 'requires: the completed frame was reset before more bytes are parsed')
    e.oblige(st, handled(c, g(st, "stopped"), g(st, "op"), counts(st)), 'ensures: the frame was given to the right handler, once')
    pos = g(st, "pos")
    e.oblige(st, z3.And(bv(n) == c.n - bv(pos), z3.Implies(bv(n) != 0, bv(lz(p.off)) == bv(c.rb) + bv(pos)) if p.obj == c.ws else bv(n) == 0), 'requires: exactly the bytes which were not consumed yet')
    done = e.fresh('done', 8) & 1
    used = e.fresh('used', 64)
    fin = bv(done, 8) != 0
    st.assume(z3.If(fin, z3.And(z3.UGE(used, 1), z3.ULE(used, bv(n))), used == bv(n)))
    st.ghost["pos"] = z3.simplify(bv(pos) + used)
    st.ghost["used"] = used
    op = e.fresh('op', 32)
    st.assume(z3.ULT(op, 16))
    # not complete: opcode 16 stands for "no frame", which needs no handling
    st.ghost["op"] = z3.simplify(z3.If(fin, op, bv(16, 32)))
    st.ghost["open"] = z3.simplify(z3.If(fin, bv(1), bv(0)))
    for k in COUNTERS:
        st.ghost[k] = 0
    e.store(st, Ptr(c.ws, c.at + c.D["frameType"]), 4, op)
    s = e.fresh_str(st, 'payload')
    st.ghost["payload"] = s
    e.set_str(st, Ptr(c.ws, c.at + c.D["payloadBuffer"]), s)
    return fin


def consumed(e, st, a, name, ins):
    return g(st, "used")


def payload(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, bv(g(st, "open")) == 1, 'requires: the payload of a completed frame')
    at = Ptr(c.ws, c.at + c.D["payloadBuffer"])
    return (e.strdata(at), e.get_str(st, at).len)


def reset(e, st, a, name, ins):
    c = e.ctx
    st.ghost["open"] = 0
    e.set_str(st, Ptr(c.ws, c.at + c.D["payloadBuffer"]), lit(""))
    return None


# ---------------------------------------------------------------- the handlers of the user
def delivery(kind):
    def f(e, st, a, name, ins):
        c = e.ctx
        p, n = a
        s = g(st, "payload")
        e.oblige(st, bv(g(st, "op"), 32) == (TEXT if kind == "texts" else BINARY), 'ensures: only frames of its kind reach a handler')
        got = e.region(st, p, n)
        e.oblige(st, z3.And(bv(n) == bv(s.len), z3.Implies(z3.ULT(c.K, bv(n)), bv(got.at(c.K), 8) == bv(s.at(c.K), 8))), 'ensures: the exact payload')
        bump(st, kind)
        # the handler may stop the websocket
        stop = e.fresh('stops', 8) & 1
        st.ghost["stopped"] = z3.simplify(bv(g(st, "stopped")) | z3.ZeroExt(56, stop))
        at = Ptr(c.ws, c.W["started"])
        e.store(st, at, 1, z3.simplify(bv(e.load(st, at, 1), 8) & (bv(1, 8) - stop)))
        return None
    return f


def closed(e, st, a, name, ins):
    bump(st, "closes")
    st.ghost["status"] = a[0]
    return None


def g_close(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, a[0].obj == c.ws and a[0].off == c.W["socket"], 'ensures: its own socket is closed')
    bump(st, "sockets")
    st.ghost["stopped"] = 1
    return None


def g_read(e, st, a, name, ins):
    c = e.ctx
    sock, p, n, h, f = a
    e.oblige(st, st.ghost.get("reader") is None, 'ensures: at most one read is pending')
    e.oblige(st, sock.obj == c.ws and sock.off == c.W["socket"], 'ensures: it reads from its own socket')
    e.oblige(st, p.obj == c.ws and type(p.off) is int and p.off == c.rb and type(n) is int and n == c.rbsize, 'ensures: reads fill the receive buffer')
    st.ghost["reader"] = (h, f)
    return None


def g_write(e, st, a, name, ins):
    p06.g_write(e, st, a, name, ins)
    st.ghost["writer"] = (a[3], a[4])
    return None


def message(e, st, a, name, ins):
    e.set_str(st, a[0], e.fresh_str(st, 'message'))
    return None


def resume(which):
    def f(e, st, a, name, ins):
        c = e.ctx
        r = st.ghost.get(which)
        e.oblige(st, r is not None, 'ensures: the operation is pending')
        if r is None:
            raise PathEnd()
        st.ghost[which] = None
        e.store(st, a[0], 8, r[0])
        e.store(st, a[1], 8, r[1])
        if which == "reader":
            o = st.w(c.ws)
            for k in [k for k in o.cells if c.rb <= k < c.rb + c.rbsize]:
                del o.cells[k]
            o.segs[:] = [s for s in o.segs if not c.rb <= s.start < c.rb + c.rbsize]
            o.segs.append(Seg(c.rb, c.rbsize, ABase(z3.Array('received', z3.BitVecSort(64), z3.BitVecSort(8)))))
        return None
    return f


def common_setup(e, st, given=None):
    c = e.ctx
    c.W = layout(e, WS, "socket", "readBuffer", "decoder", "started", "textHandler")
    c.D = layout(e, DEC, "payloadBuffer", "frameType")
    c.at = c.W["decoder"]
    c.rb = c.W["readBuffer"]
    c.rbsize = {n: s for n, _, s, _ in e.m.members(WS)}["readBuffer"]
    c.ws = out_obj(e, st, 'websocket', record_size(e, WS))
    c.K = z3.BitVec('K', 64)
    s = out_obj(e, st, 'socket', 8)
    st.w(s).cells[0] = (4, z3.BitVec('socket id', 32))
    c.ec = z3.BitVec('error', 32)
    ec = out_obj(e, st, 'error code', 16)
    st.w(ec).cells[0] = (4, c.ec)
    cat = e.new_obj(st, 'category', 'heap', 8)
    st.w(ec).cells[8] = (8, Ptr(cat))
    c.n = z3.BitVec('n', 64)
    st.assume(z3.ULE(c.n, c.rbsize))
    flags = [z3.Bool(x) for x in ('text', 'binary', 'close')] if given is None else given
    c.text, c.binary, c.close = [f if z3.is_expr(f) else z3.BoolVal(bool(f)) for f in flags]
    st.ghost.update(pos=0, open=0, op=bv(16, 32), used=0, stopped=0, payload=lit(""), reader=None, writer=None, status=bv(0, 32))
    for k in COUNTERS:
        st.ghost[k] = 0
    return [Ptr(c.ws), Ptr(s)] + list(flags) + [Ptr(ec), c.n]


def event_setup(err, given=None):
    def f(e, st):
        r = common_setup(e, st, given)
        st.assume(e.ctx.ec != 0 if err else e.ctx.ec == 0)
        return r
    return f


def event_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'the handler returns')
    if kind != 'return':
        return
    e.oblige(st, handled(c, g(st, "stopped"), g(st, "op"), counts(st)), 'ensures: the frame was given to the right handler, once')
    stopped = bv(g(st, "stopped")) != 0
    pending = st.ghost["reader"] is not None
    e.oblige(st, stopped != z3.BoolVal(pending), 'ensures: the next read is pending exactly while the websocket is open')
    e.oblige(st, z3.Or(stopped, z3.And(bv(g(st, "open")) == 0, bv(g(st, "pos")) == c.n)), 'ensures: every received byte was decoded and every completed frame handled')
    e.oblige(st, (bv(e.load(st, Ptr(c.ws, c.W["started"]), 1), 8) == 0) == stopped, 'invariant: started until stopped')


def error_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'the handler returns')
    if kind != 'return':
        return
    t, b, k, x = [bv(v) for v in counts(st)]
    e.oblige(st, z3.And(t == 0, b == 0), 'ensures: an error delivers nothing')
    e.oblige(st, k == z3.If(c.close, bv(1), bv(0)), 'ensures: an error calls the close handler once')
    e.oblige(st, z3.Implies(c.close, z3.Extract(15, 0, bv(g(st, "status"), 32)) == z3.Extract(15, 0, c.ec)), 'ensures: the close handler is given the error')
    return x


def read_error_post(e, st, kind, rv):
    x = error_post(e, st, kind, rv)
    if x is not None:
        e.oblige(st, x != 0, 'ensures: the socket is closed')
        e.oblige(st, st.ghost["reader"] is None, 'ensures: no read is pending')


def written_setup(e, st):
    c = e.ctx
    r = common_setup(e, st)
    p, c.data = p06.span_arg(e, st, 'data')
    return r + [p]


def written_post(e, st, kind, rv):
    c = e.ctx
    if kind == 'return':
        t, b, k, x = [bv(v) for v in counts(st)]
        ok = st.clone()
        ok.assume(c.ec == 0)
        e.oblige(ok, z3.And(t == 0, b == 0, k == 0, x == 0), 'ensures: a completed write has no other effect')
        st = st.clone()
        st.assume(c.ec != 0)
    x = error_post(e, st, kind, rv)
    if x is not None:
        e.oblige(st, (x != 0) == (c.ec != 125), 'ensures: the socket is closed unless the operation was aborted')


def ctor_setup(e, st):
    return common_setup(e, st)[:2]


def ctor_post(e, st, kind, rv):
    e.oblige(st, kind == 'return' and st.ghost["reader"] is not None, 'ensures: a read is pending')


def cand(e, cut, S):
    c = e.ctx
    pos = ("ghost", "pos")
    for l, i in cut.infos.items():
        if i.kind == 'ptr' and isinstance(read(cut.E, l, cut.fi), Ptr) and i.obj == c.ws:
            yield 'at', lambda v, l=l: bv(v.int(l)) == bv(c.rb) + bv(v.st.ghost["pos"])
        if i.kind == 'int' and i.w == 64 and l != pos:
            yield 'left', lambda v, l=l: bv(v.int(l)) == c.n - bv(v.st.ghost["pos"])
    yield 'pos', lambda v: z3.ULE(bv(v.st.ghost["pos"]), c.n)
    yield 'open', lambda v: bv(v.st.ghost["open"]) == 0
    yield 'handled', lambda v: handled(c, v.st.ghost["stopped"], v.st.ghost["op"], counts(v.st))
    yield 'started', lambda v: (bv(e.load(v.st, Ptr(c.ws, c.W["started"]), 1), 8) == 0) == (bv(v.st.ghost["stopped"]) != 0)
    yield 'started', lambda v: z3.ULE(bv(e.load(v.st, Ptr(c.ws, c.W["started"]), 1), 8), 1)


def named(k):
    return ", " + ("+".join(n for i, n in enumerate(("text", "binary", "close")) if k >> i & 1) or "no") + " handler"


def proofs(m):
    F = "webfront::websocket::FrameDecoder::"
    M = dict(p06.MODELS)
    M.update({"g_text": delivery("texts"), "g_binary": delivery("binaries"), "g_closed": closed, "g_close": g_close, "g_read": g_read, "g_write": g_write,
              "std::error_code::message": message})
    R = dict(M, **{F + "parse": parse, F + "consumed": consumed, F + "payload": payload, F + "reset": reset, "g_resume": resume("reader")})
    return [Proof('WebSocket()', 'w_ctor', ctor_setup, ctor_post, models=M),
            Proof('WebSocket::read handler, error', 'w_event', event_setup(True), read_error_post, models=R, cand=[cand]),
            Proof('WebSocket::write handler', 'w_written', written_setup, written_post, models=dict(M, g_resume=resume("writer")))] + [
            Proof('WebSocket::read handler, received bytes' + named(k), 'w_event', event_setup(False, [k & 1, k >> 1 & 1, k >> 2]), event_post, models=R, cand=[cand]) for k in range(8)]
