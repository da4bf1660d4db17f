"""P21: JavaScript calls reach the registered C++ function with its arguments.
Contracts, for all contents of a message, all names and all functions:
 binary message m received by a link (its websocket decodes frames by P07's contract)
    m = callFunction, announced size s <= |m| - 8, and m[8..] up to s starts with a string N (CodedType, P09) of k bytes:
        the link's events handler is called exactly once, with cppFunctionCalled, the link's id, N and the s - k bytes that follow
        it throws out_of_range(w)   exactly one binary frame is sent: functionReturn, one value, |3 + w|, exception w (for |w| < 65536)
        otherwise                   nothing is sent
    m = handshake (2 bytes)         the acknowledge is sent and the handler is called once with linked and the link's id
    anything else                   no call, nothing sent
    always                          the read handler returns and the next read is pending
 onEvent(cppFunctionCalled, N, d)   N registered: the function registered first under N is called once with d;  otherwise out_of_range
 cppFunction<R, Args...>(N, f)      registers a function which decodes Args in order, each from where the one before ended, from the beginning of d, and then calls f once with the
                                    values; a failing decoding is passed on and f is not called.  decodeParameter enters through P09's contract."""
from wfspec import *
from msgspec import *
from irv.models import throw_std
import p06, p08, p10
from irv.vectors import dispatch, BYTEVEC

HARNESS = "wf.cpp"
NATIVE = dict(src="p21.cpp", flags=[IRCFLAGS[0], "-fno-access-control"])
ASSUMPTIONS = ["std::map's tree is an assumed contract (contracts/trees.py); the code of std::map above it is executed",
               "registered functions and event handlers throw std::exception classes only", "sinks of the log are added and removed by P23's contract",
               "an exception text of 65536 bytes and more does not fit the message (P10)"]
HANDSHAKE, CALL, RETURN = 0, 3, 4


# ---------------------------------------------------------------- the link's message handler
def link_setup(e, st):
    c = e.ctx
    c.W = layout(e, p08.WS, "socket", "readBuffer", "decoder", "started")
    c.D = layout(e, p08.DEC, "payloadBuffer", "frameType")
    L = layout(e, LINK, "ws", "id")
    c.link = out_obj(e, st, 'link', record_size(e, LINK))
    c.at, c.sock = L["ws"] + c.W["decoder"], L["ws"] + c.W["socket"]
    c.ec = bv(0, 32)
    ec = out_obj(e, st, 'error code', 16)
    st.w(ec).cells[0] = (4, 0)
    st.w(ec).cells[8] = (8, Ptr(e.new_obj(st, 'category', 'heap', 8)))
    s = out_obj(e, st, 'socket', 8)
    st.w(s).cells[0] = (4, z3.BitVec('socket id', 32))
    c.n, c.id = z3.BitVec('n', 64), z3.BitVec('link id', 16)
    st.assume(z3.And(z3.UGE(c.n, 1), z3.ULE(c.n, 8192)))
    c.s = e.fresh_str(st, 'message')
    st.ghost.update(parsed=0, reader=None, events=(), writes=())
    return [Ptr(c.link), Ptr(s), c.id, Ptr(ec), c.n]


def parse(e, st, a, name, ins):
    """one frame, then no more"""
    c = e.ctx
    k = st.ghost["parsed"]
    if k:
        e.oblige(st, bv(a[2]) == 0, 'requires: every frame is parsed once')
        return z3.BoolVal(False)
    st.ghost["parsed"] = 1
    e.store(st, Ptr(c.link, c.at + c.D["frameType"]), 4, 2)
    e.set_str(st, Ptr(c.link, c.at + c.D["payloadBuffer"]), c.s)
    return z3.BoolVal(True)


def consumed(e, st, a, name, ins):
    return e.ctx.n


def payload(e, st, a, name, ins):
    at = Ptr(e.ctx.link, e.ctx.at + e.ctx.D["payloadBuffer"])
    return (e.strdata(at), e.get_str(st, at).len)


def reset(e, st, a, name, ins):
    e.set_str(st, Ptr(e.ctx.link, e.ctx.at + e.ctx.D["payloadBuffer"]), lit(""))
    return None


def g_read(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, st.ghost["reader"] is None and a[0].obj == c.link and a[0].off == c.sock, 'ensures: one read of its own socket is pending')
    st.ghost["reader"] = (a[3], a[4])
    return None


def g_resume(e, st, a, name, ins):
    r = st.ghost["reader"]
    if r is None:
        e.oblige(st, False, 'ensures: a read is pending')
        raise PathEnd()
    st.ghost["reader"] = None
    e.store(st, a[0], 8, r[0])
    e.store(st, a[1], 8, r[1])
    return None


from irv.engine import PathEnd


def event(e, st, a, name, ins):
    """the owner's events handler"""
    L = layout(e, EVENT, "code", "webLinkId", "text", "data")
    p = e.to_ptr(st, a[0])
    k = len(st.ghost["events"])
    how = st.ghost.get(f"throws {k}")
    if how is None:
        h = z3.BitVec(f'throws {k}', 2)
        e.fork_conds_ghost = None
        for v in (0, 1, 2):
            if e.must(st, h == v):
                how = v
                break
        else:
            st.assume(z3.ULT(h, 3))
            e.fork_conds(st, [h == v for v in (0, 1, 2)])
    code = bv(e.load(st, p.add(L["code"]), 4), 32)
    q, n = e.load(st, p.add(L["data"]), 8, True), e.load(st, p.add(L["data"] + 8), 8)
    w = e.fresh_str(st, 'what')
    # what() is a C string
    st.ghost["events"] += ((code, bv(e.load(st, p.add(L["webLinkId"]), 2), 16), e.get_str(st, p.add(L["text"])), q, n, how, w, len(st.ghost["writes"])),)
    if how:
        throw_std(e, st, ["", "St12out_of_range", "St13runtime_error"][how], w)
        return NORET
    return None


def frame_is(e, st, w, first, message, text):
    """the written bytes are one final unmasked frame with this message"""
    K = z3.BitVec('K', 64)
    for cond, hdr in p06.hdr_cases(first, message.len):
        want = concat(hdr, message)
        e.oblige(st, z3.Implies(cond, z3.And(bv(w[2].len) == bv(want.len), z3.Implies(z3.ULT(K, bv(want.len)), bv(w[2].at(K), 8) == bv(want.at(K), 8)))), text)
    e.oblige(st, w[0].obj == e.ctx.link and w[0].off == e.ctx.sock, 'ensures: sent on its own socket')


def message_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: the server keeps running')
    if kind != 'return':
        return
    e.oblige(st, st.ghost["reader"] is not None, 'ensures: the next read is pending')
    s, ev, ws = c.s, st.ghost["events"], st.ghost["writes"]
    n = bv(s.len)
    size = z3.ZeroExt(32, le(s, 4, 4))
    call = z3.And(z3.UGE(n, 8), bv(s.at(0), 8) == CALL, z3.ULE(size, n - 8))
    shake = z3.And(z3.UGE(n, 2), bv(s.at(0), 8) == HANDSHAKE)
    names = [(z3.And(call, cond), used, vals[0][2]) for cond, used, vals in decodings("str", s, size + 8, 8)]
    known = z3.Or(*[f for f, _, _ in names])
    e.oblige(st, (z3.Or(known, shake)) == z3.BoolVal(len(ev) == 1), 'ensures: one event for each well-formed message, none for others')
    e.oblige(st, len(ev) <= 1, 'ensures: at most one event')
    if not ev:
        e.oblige(st, len(ws) == 0, 'ensures: nothing is sent for a malformed message')
        return
    code, id, text, q, m, how, what, before = ev[0]
    e.oblige(st, id == c.id, 'ensures: the event carries the id of the link')
    e.oblige(st, code == z3.If(shake, bv(LINKED, 32), bv(CALLED, 32)), 'ensures: the kind of the event')
    base = e.strdata(Ptr(c.link, c.at + c.D["payloadBuffer"]))
    for f, used, v in names:
        if not e.feasible(st, f):
            continue
        e.oblige(st, z3.Implies(f, same_value(e, st, "str", text, v)), 'ensures: the name of the function')
        e.oblige(st, z3.Implies(f, bv(m) == size - used), 'ensures: the remaining parameters')
        at = isinstance(q, Ptr) and q.obj == base.obj
        e.oblige(st, z3.Implies(z3.And(f, bv(m) != 0), bv(lz(q.off)) == bv(lz(base.off)) + 8 + used) if at else z3.Implies(f, bv(m) == 0), 'ensures: the remaining parameters start after the name')
    if e.must(st, shake):
        e.oblige(st, len(ws) == 1 and before == 1, 'ensures: a handshake is acknowledged once, first')
        if len(ws) == 1:
            frame_is(e, st, ws[0], 0x82, StrVal(2, ALit([1, 0])), 'ensures: the acknowledge of a little-endian server')
        return
    e.oblige(st, z3.Not(shake), 'the kind of the message is decided')
    e.oblige(st, len(ws) == (1 if how == 1 else 0), 'ensures: an unknown name, and nothing else, is reported')
    if how == 1 and len(ws) == 1:
        k = bv(what.len)
        b = lambda v, j: z3.Extract(8 * j + 7, 8 * j, v)
        head = StrVal(11, ALit([RETURN, 1, 0, 0] + [b(k + 3, j) for j in range(4)] + [T_EXC, b(k, 0), b(k, 1)]))
        st = st.clone()
        st.assume(z3.ULT(k, 65536))
        frame_is(e, st, ws[0], 0x82, concat(head, what), 'ensures: the report: functionReturn with one exception, the text')


def sinks(e, st, a, name, ins):
    return e.fresh('sink', 64)


# ---------------------------------------------------------------- registered functions
TYPE = {"int": ("i32", 32), "double": ("dbl", 64), "bool": ("bool", 8)}


def decode(e, st, a, name, ins):
    """contract of decodeParameter (P09): a value of the type and the rest of the data, or an exception"""
    q, ps, ta = e.models.info(e, name)
    t = (ps or ["?"])[0].rstrip("& ")
    p, n = e.load(st, a[1], 8, True), bv(e.load(st, a[1].add(8), 8))
    k = len(st.ghost["decoded"])
    if maybe_throw(e, st, z3.Bool(f'malformed {k}'), "St13runtime_error"):
        return NORET
    used = z3.BitVec(f'used{k}', 64)
    st.assume(z3.And(z3.UGE(used, 1), z3.ULE(used, n)))
    if "string" in t:
        v = e.fresh_str(st, f'value{k}')
        e.set_str(st, a[0], v)
        t = "str"
    elif t in TYPE:
        t, w = TYPE[t]
        v = z3.BitVec(f'value{k}', w)
        if t == "bool":
            st.assume(z3.ULT(v, 2))
        e.store(st, a[0], w // 8, v)
    else:
        raise ToolLimit("parameter of type " + t)
    st.ghost["decoded"] += ((t, v, p, n, used),)
    e.store(st, a[1], 8, p.add(lin(used)))
    e.store(st, a[1].add(8), 8, z3.simplify(n - used))
    return None


def g_called(e, st, a, name, ins):
    vals = []
    for k, t in enumerate(KINDS[a[0]]):
        p = e.load(st, a[1].add(8 * k), 8, True)
        vals.append(e.get_str(st, p) if t == "str" else e.load(st, p, {"i32": 4, "dbl": 8, "bool": 1}[t]))
    st.ghost["calls"] += ((a[0], tuple(vals)),)
    if maybe_throw(e, st, z3.Bool('the function throws'), "St13runtime_error"):
        return NORET
    return None


KINDS = {0: [], 1: ["i32", "str"], 2: ["dbl", "bool", "str"], 3: ["i32"], 4: ["str"]}


def name_arg(e, st, what):
    s = e.fresh_str(st, what)
    o = out_obj(e, st, what, 32)
    e.set_str(st, Ptr(o), s)
    return Ptr(o), s


def called_setup(kinds):
    def f(e, st):
        c = e.ctx
        w = wf_setup(e, st)
        c.kinds = kinds
        out, c.names = [w], []
        for k, _ in enumerate(kinds):
            p, s = name_arg(e, st, f'registered {k}')
            out.append(p)
            c.names.append(s)
        p = event_setup(e, st)
        st.assume(e.ctx.code == CALLED)
        return out + [p]
    return f


def called_post(e, st, kind, rv):
    c = e.ctx
    g = st.ghost
    calls, anys, dec = g["calls"], g["anys"], g["decoded"]
    e.oblige(st, not g["erased"] and not g["uis"] and not g["sent"], "ensures: no link is touched")
    # whom the name of the event denotes, among those registered here and before
    target = None
    for k, s in enumerate(c.names):
        r = relation(e, st, s, c.text)
        if r is None:
            raise ToolLimit("the name of the event was not compared")
        if r:
            target = k
            break
    there = None
    for t, x, b in g["texts"]:
        if relation(e, st, x, c.text):
            there = b
    before = there is not None and e.must(st, there)
    if target is not None and not before:
        T = KINDS[c.kinds[target]]
        e.oblige(st, not anys, "ensures: no other function is called")
        e.oblige(st, len(dec) == len(T) or (len(dec) < len(T) and kind == 'throw'), "ensures: every parameter is decoded once")
        e.oblige(st, len(calls) == (1 if len(dec) == len(T) else 0), "ensures: the function is called once, when its parameters were decoded")
        p, n = Ptr(c.doid), bv(c.dn)
        for (t, v, q, m, used), u in zip(dec, T):
            e.oblige(st, t == u and q.obj == p.obj and m is not None, "ensures: parameters are decoded in order")
            e.oblige(st, z3.And(bv(lz(q.off)) == bv(lz(p.off)), m == n), "ensures: each parameter is decoded from where the one before ended")
            p, n = q.add(lin(used)), m - used
        if len(calls) == 1:
            e.oblige(st, calls[0][0] == c.kinds[target], "ensures: the function registered under the name")
            if calls[0][0] == c.kinds[target]:
                for (t, v, *_), x in zip(dec, calls[0][1]):
                    e.oblige(st, same_value(e, st, t, x, v), "ensures: called with the decoded parameters in order")
        if kind == 'throw':
            e.oblige(st, st.exc[1] == "_ZTISt13runtime_error", "ensures: the exception of the function or of the decoding")
    elif before or there is not None and e.feasible(st, there):
        e.oblige(st, there if there is not None else False, "ensures: calls a registered function")
        e.oblige(st, not calls and not dec and len(anys) == 1, "ensures: the function registered first is called once")
        if len(anys) == 1:
            p, n = anys[0]
            e.oblige(st, z3.And(bv(n) == bv(c.dn), z3.Implies(bv(n) != 0, bv(lz(p.off)) == 0) if isinstance(p, Ptr) and p.obj == c.doid else bv(n) == 0), "ensures: with the data of the event")
    else:
        e.oblige(st, kind == 'throw' and st.exc[1] == "_ZTISt12out_of_range", "ensures: out_of_range for a name that is not registered")
        e.oblige(st, not calls and not anys and not dec, "ensures: no function is called")


def any_setup(e, st):
    w = wf_setup(e, st)
    p = event_setup(e, st)
    st.assume(e.ctx.code == CALLED)
    e.ctx.names, e.ctx.kinds = [], []
    return [w, p]


def proofs(m):
    F = "webfront::websocket::FrameDecoder::"
    both = ['return', 'throw']
    X = {**PATH, **dispatch({"std::byte": BYTEVEC}), F + "parse": parse, F + "consumed": consumed, F + "payload": payload, F + "reset": reset, "g_resume": g_resume, "g_read": g_read, "g_event": event,
         "g_write": p06.g_write, "webfront::utils::hexDump": p10.any_text, "webfront::log::addSinks": sinks, "webfront::log::removeSinks": nop}
    M = dict(BASE, g_called=g_called, **{"webfront::msg::FunctionCall::decodeParameter": decode})
    out = [Proof('WebLink: a received binary message', 'l_message', link_setup, message_post, models=X),
           Proof('onEvent, function called', 'w_event', any_setup, called_post, models=M, covers=both)]
    for fn, what, kinds in [("c_none", "()", [0]), ("c_is", "(int, std::string)", [1]), ("c_dbs", "(double, bool, std::string)", [2]), ("c_twice", "two functions", [3, 4])]:
        out.append(Proof('cppFunction ' + what, fn, called_setup(kinds), called_post, models=M, covers=both))
    return out
