"""P28: each HTTP connection is answered once and then closed or upgraded.
Contracts of a connection (start, the completion handlers of its reads and of its write), for all results of the network operations:
 Connections::start(c)        ensures  c is kept and exactly one operation, a read of its receive buffer, is pending, which holds the one reference to c that is not in the set
 read handler, n bytes        requires one read was pending;  ensures  exactly the n received bytes are parsed, once; then
    incomplete request        exactly one read of the receive buffer is pending, nothing is written, closed or handed over, and apart from the request the connection is as before (so any
                              number of reads may follow: this is the invariant that a pending read stands for)
    complete request          exactly one write of handleRequest's response to this request is pending
    BadRequestException       exactly one write of the status response 400 is pending
    error                     nothing is read, written or handed over; the connection is released and its socket closed unless the operation was aborted
 write handler                success of a 101 response: the upgrade handler, if any, is called once with the socket, which is neither shut down nor closed, and the connection is released
    success of another one    the socket is shut down, then closed, and the connection is released
    error                     the socket is not handed over; the connection is released and its socket closed unless the operation was aborted
    always                    no operation is pending afterwards
Each handler consumes the pending operation and leaves one or none, so the sequence of events of a connection is: reads, at most one write, end.
Request::parseSomeData (P12), RequestHandler::handleRequest (P15, P16, P05), Response::getStatusResponse and toBuffers (P17) enter through their contracts."""
from common import *
from irv.engine import NORET, Seg
from irv.models import maybe_throw
from irv.loops import eqv
from irv.paths import PATH

HARNESS = "connection.cpp"
NATIVE = dict(src="p28.cpp")
ASSUMPTIONS = ["std::set<shared_ptr> insert and erase, reference counting of std::shared_ptr and shared_from_this are assumed contracts (the set holds one reference, each copy one)",
               "the network gives each started operation's handler one call, and a receiver of an upgraded socket moves from it"]
HT = "webfront::http::"
CONN = HT + "Connection<GNet, GFS>"
REQ, RESP = HT + "Request", HT + "Response"
SWITCHING, BAD = 101, 400


def tags(st):
    return st.ghost["tag"]


def tag(st, p, t):
    d = dict(tags(st))
    d[(p.obj, p.off)] = t
    st.ghost["tag"] = d


def tag_of(st, p):
    t = tags(st).get((p.obj, p.off))
    if t is None:
        raise ToolLimit("an object of unknown content")
    return t


def event(st, *x):
    st.ghost["ev"] += (x,)


def mine(c, p, member):
    return isinstance(p, Ptr) and p.obj == c.conn and p.off == c.L[member]


# ---------------------------------------------------------------- request and response
def new_request(e, st, a, name, ins):
    q, ps, _ = e.models.info(e, name)
    if ps:
        tag(st, a[0], tag_of(st, a[1]))
    else:
        tag(st, a[0], ("empty",))
    return None


def parse(e, st, a, name, ins):
    c = e.ctx
    k = st.ghost["parsed"]
    e.oblige(st, mine(c, a[0], "request"), "requires: the bytes are parsed into the connection's request")
    r = st.ghost["received"]
    e.oblige(st, r is not None and a[1].obj == c.conn and a[2].obj == c.conn and bv(lz(a[1].off)) == bv(c.L["buffer"]), "requires: parsing starts with the first received byte")
    if r is None or a[2].obj != c.conn:
        raise PathEnd()
    e.oblige(st, bv(lz(a[2].off)) - bv(c.L["buffer"]) == r, "requires: exactly the received bytes are parsed")
    if maybe_throw(e, st, c.bad[k], "N8webfront4http19BadRequestExceptionE"):
        return NORET
    st.ghost["parsed"] = k + 1
    st.ghost["received"] = None
    st.ghost["done"] = c.done[k]
    tag(st, a[0], ("request", k))
    return c.done[k]


def completed(e, st, a, name, ins):
    t = tag_of(st, a[0])
    return e.ctx.done[t[1]] if t[0] == "request" else 0


def method_name(e, st, a, name, ins):
    return (e.strdata(e.ctx.text), e.get_str(st, e.ctx.text).len)


def status(e, st, p, v):
    st_off = e.ctx.RL["statusCode"]
    e.store(st, p.add(st_off), 2, v)


def handle(e, st, a, name, ins):
    c = e.ctx
    t = tag_of(st, a[2])
    e.oblige(st, t[0] == "request" and c.done[t[1]], "requires: a complete request of this connection")
    e.oblige(st, a[1].obj == c.handler, "requires: the handler of the server")
    tag(st, a[0], ("answer", t))
    status(e, st, a[0], c.code)
    return None


def status_response(e, st, a, name, ins):
    v = a[1]
    tag(st, a[0], ("status", v))
    status(e, st, a[0], v)
    return None


def new_response(e, st, a, name, ins):
    q, ps, _ = e.models.info(e, name)
    if ps:
        tag(st, a[0], tag_of(st, a[1]))
        status(e, st, a[0], e.load(st, a[1].add(e.ctx.RL["statusCode"]), 2))
    else:
        tag(st, a[0], ("empty",))
        status(e, st, a[0], 200)
    return None


def assign_response(e, st, a, name, ins):
    new_response(e, st, a, name, ins)
    return a[0]


def to_buffers(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, mine(c, a[1], "response"), "requires: the response written is kept by the connection")
    o = e.new_obj(st, "buffers", "heap", 16)
    st.ghost["buffers"] = (o, tag_of(st, a[1]))
    e.store(st, a[0], 8, Ptr(o))
    e.store(st, a[0].add(8), 8, Ptr(o, 16))
    e.store(st, a[0].add(16), 8, Ptr(o, 16))
    return None


# ---------------------------------------------------------------- ownership
def shared_from_this(e, st, a, name, ins):
    c = e.ctx
    if a[1].obj != c.conn:
        raise ToolLimit("shared_from_this of another object")
    e.store(st, a[0], 8, Ptr(c.conn, 0))
    e.store(st, a[0].add(8), 8, Ptr(c.control, 0))
    st.ghost["refs"] += 1
    return None


def counted(e, st, p):
    v = e.load(st, p, 8, True)
    return isinstance(v, Ptr) and v.obj == e.ctx.control


def count_copy(e, st, a, name, ins):
    e.store(st, a[0], 8, e.load(st, a[1], 8, True))
    if counted(e, st, a[1]):
        st.ghost["refs"] += 1
    return None


def count_drop(e, st, a, name, ins):
    if counted(e, st, a[0]):
        st.ghost["refs"] -= 1
    return None


def count_assign(e, st, a, name, ins):
    if counted(e, st, a[1]):
        st.ghost["refs"] += 1
    if counted(e, st, a[0]):
        st.ghost["refs"] -= 1
    e.store(st, a[0], 8, e.load(st, a[1], 8, True))
    return a[0]


def in_set(what):
    def f(e, st, a, name, ins):
        c = e.ctx
        if a[0].obj != c.all:
            raise ToolLimit("another set of connections")
        v = e.load(st, a[1], 8, True)
        if not isinstance(v, Ptr) or v.obj != c.conn or v.off != 0:
            raise ToolLimit("another connection")
        had = st.ghost["kept"]
        st.ghost["kept"] = 1 if what == "insert" else 0
        if what == "insert":
            event(st, "kept")
            return (Ptr(c.node, 0), 0 if had else 1)
        event(st, "released")
        return had
    return f


# ---------------------------------------------------------------- network
def g_read(e, st, a, name, ins):
    c = e.ctx
    sock, p, n, h, f = a
    e.oblige(st, mine(c, sock, "socket") and st.ghost["owned"], "ensures: the connection reads from its own socket")
    e.oblige(st, p.obj == c.conn and p.off == c.L["buffer"] and type(n) is int and 0 < n <= c.size, "ensures: reads fill the receive buffer")
    e.oblige(st, st.ghost["reader"] is None and st.ghost["writer"] is None, "ensures: at most one operation is pending")
    st.ghost["reader"] = (h, f)
    st.ghost["capacity"] = n
    event(st, "read")
    return None


def g_write(e, st, a, name, ins):
    c = e.ctx
    sock, b, n, h, f = a
    e.oblige(st, mine(c, sock, "socket") and st.ghost["owned"], "ensures: the connection writes to its own socket")
    w = st.ghost["buffers"]
    e.oblige(st, w is not None and isinstance(b, Ptr) and b.obj == w[0] and b.off == 0, "ensures: exactly the buffers of the response are written")
    e.oblige(st, st.ghost["reader"] is None and st.ghost["writer"] is None, "ensures: at most one operation is pending")
    st.ghost["writer"] = (h, f)
    st.ghost["written"] += (w[1] if w else None,)
    event(st, "write")
    return None


def g_shutdown(e, st, a, name, ins):
    e.oblige(st, mine(e.ctx, a[0], "socket") and st.ghost["owned"], "ensures: only the connection's own socket is shut down")
    event(st, "shutdown", a[1])
    return None


def g_close(e, st, a, name, ins):
    # closing a socket which was moved from has no effect
    if st.ghost["owned"]:
        e.oblige(st, mine(e.ctx, a[0], "socket"), "ensures: only the connection's own socket is closed")
        event(st, "close")
    return None


def g_upgrade(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, mine(c, a[0], "socket") and st.ghost["owned"], "ensures: the connection's own socket is handed over, once")
    e.oblige(st, bv(a[1], 32) == 2, "ensures: handed over for the websocket protocol")
    st.ghost["owned"] = 0
    event(st, "handed over")
    return None


def g_pending(e, st, a, name, ins):
    return 0 if st.ghost["reader" if a[0] == 0 else "writer"] is None else 1


def g_resume(e, st, a, name, ins):
    c = e.ctx
    w = "reader" if st.ghost["reader"] is not None else "writer"
    r = st.ghost[w]
    e.oblige(st, r is not None, "ensures: an operation is pending")
    if r is None:
        raise PathEnd()
    st.ghost[w] = None
    e.store(st, a[0], 8, r[0])
    e.store(st, a[1], 8, r[1])
    st.ghost["resumed"] += 1
    if w == "reader":
        k = st.ghost["reads"]
        st.ghost["reads"] = k + 1
        o = st.w(c.conn)
        b = c.L["buffer"]
        for x in [x for x in o.cells if b <= x < b + c.size]:
            del o.cells[x]
        o.segs[:] = [s for s in o.segs if not b <= s.start < b + c.size]
        o.segs.append(Seg(b, c.size, ABase(z3.Array(f'received{k}', z3.BitVecSort(64), z3.BitVecSort(8)))))
        st.assume(z3.ULE(c.n[k], st.ghost["capacity"]))
        st.ghost["received"] = c.n[k]
    else:
        st.ghost["completed"] = 1
    st.ghost["mark"] = len(st.ghost["ev"])
    return None


# ---------------------------------------------------------------- what must hold
def cells(e, st):
    c = e.ctx
    skip = [(c.L[n], c.L[n] + c.S[n]) for n in ("request", "response", "buffer")]
    return {k: v for k, v in st.objs[c.conn].cells.items() if not any(a <= k < b for a, b in skip)}


def g_started(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, tuple(x[0] for x in st.ghost["ev"]) in (("kept", "read"), ("read", "kept")), "ensures: start keeps the connection and reads once")
    e.oblige(st, st.ghost["reader"] is not None and st.ghost["kept"], "ensures: a read is pending")
    e.oblige(st, st.ghost["refs"] == 1, "ensures: the pending operation holds a reference to the connection")
    st.ghost["snap"] = cells(e, st)
    return None


def last(st):
    return tuple(st.ghost["ev"][st.ghost["mark"]:])


def names(st):
    return [x[0] for x in last(st)]


def ended(e, st, cond, ec, text):
    """released, closed unless aborted"""
    n = names(st)
    e.oblige(st, z3.Implies(z3.And(cond, ec != 125), z3.BoolVal("released" in n and st.ghost["kept"] == 0)), f"ensures: {text}: the connection is released")
    e.oblige(st, z3.Implies(z3.And(cond, ec != 125), z3.BoolVal("close" in n or not st.ghost["owned"])), f"ensures: {text}: the socket is closed")


def g_read_done(e, st, a, name, ins):
    c = e.ctx
    k = a[1] - 1
    if st.ghost["mark"] is None or st.ghost["reads"] != k + 1:
        raise ToolLimit("unexpected order of operations")
    n = names(st)
    ec, bad, done = c.ec[k], c.bad[k], c.done[k]
    ok = ec == 0
    more = z3.And(ok, z3.Not(bad), z3.Not(done))
    answer = z3.And(ok, z3.Not(bad), done)
    malformed = z3.And(ok, bad)
    pend = lambda r, w: z3.BoolVal((st.ghost["reader"] is not None) == r and (st.ghost["writer"] is not None) == w)
    e.oblige(st, z3.Implies(more, z3.And(pend(True, False), z3.BoolVal(n == ["read"]))), "ensures: an incomplete request is read further, nothing else happens")
    e.oblige(st, z3.Implies(z3.Or(answer, malformed), z3.And(pend(False, True), z3.BoolVal(n == ["write"]))), "ensures: exactly one response is written")
    w = st.ghost["written"]
    e.oblige(st, z3.Implies(answer, z3.BoolVal(len(w) == 1 and w[0] == ("answer", ("request", k)))), "ensures: the response written is the one to the request")
    e.oblige(st, z3.Implies(malformed, z3.BoolVal(len(w) == 1 and w[0] is not None and w[0][0] == "status") if not (w and w[0] and w[0][0] == "status") else bv(w[0][1], 16) == BAD), "ensures: a malformed request is answered 400")
    e.oblige(st, z3.Implies(z3.Not(ok), z3.And(pend(False, False), z3.BoolVal(not {"read", "write", "handed over"} & set(n)))), "ensures: after an error nothing is read, written or handed over")
    ended(e, st, z3.Not(ok), ec, "error of a read")
    e.oblige(st, z3.Implies(ok, z3.BoolVal(st.ghost["kept"] == 1 and st.ghost["owned"] == 1 and not {"close", "shutdown"} & set(n))), "ensures: the connection is kept until its end")
    # the handlers which have run are destroyed by the network: their references are counted as held
    p = (st.ghost["reader"] is not None) + (st.ghost["writer"] is not None)
    e.oblige(st, st.ghost["refs"] == st.ghost["resumed"] + p, "ensures: exactly the pending operation holds a reference to the connection")
    if st.ghost["reader"] is not None:
        s = cells(e, st)
        t = st.ghost["snap"]
        if s.keys() != t.keys() or any(s[x][0] != t[x][0] or not eqv(s[x][1], t[x][1]) for x in s):
            raise ToolLimit("a read leaves the connection in another state than it was started in")
    return None


def setup(upgrades):
    def f(e, st):
        c = e.ctx
        ms = {n: (o, s) for n, o, s, _ in e.m.members(CONN) or []}
        layout(e, CONN, "socket", "buffer", "request", "response")
        c.L, c.S = {n: v[0] for n, v in ms.items()}, {n: v[1] for n, v in ms.items()}
        c.RL = layout(e, RESP, "statusCode")
        c.size = c.S["buffer"]
        c.conn = out_obj(e, st, 'connection', record_size(e, CONN))
        c.control = out_obj(e, st, 'control block', 16)
        c.node = out_obj(e, st, 'node', 48)
        c.all = out_obj(e, st, 'connections', record_size(e, HT + "Connections<" + CONN + " >") if e.m.members(HT + "Connections<" + CONN + " >") else 48)
        c.handler = out_obj(e, st, 'request handler', 8)
        t = out_obj(e, st, 'method name', 32)
        c.text = Ptr(t, 0)
        e.set_str(st, c.text, e.fresh_str(st, 'method name'))
        s = out_obj(e, st, 'socket', 8)
        st.w(s).cells[0] = (4, z3.BitVec('socket id', 32))
        c.ec = [z3.BitVec(f'error{k}', 32) for k in range(3)]
        ecs = out_obj(e, st, 'error codes', 48)
        cat = e.new_obj(st, 'category', 'heap', 8)
        for k in range(3):
            st.w(ecs).cells[16 * k] = (4, c.ec[k])
            st.w(ecs).cells[16 * k + 8] = (8, Ptr(cat))
        c.n = [z3.BitVec(f'n{k}', 64) for k in range(3)]
        c.bad = [z3.Bool(f'malformed{k}') for k in range(2)]
        c.done = [z3.Bool(f'complete{k}') for k in range(2)]
        c.code = z3.BitVec('status of the answer', 16)
        c.upgrades = upgrades
        st.ghost.update(tag={}, ev=(), parsed=0, received=None, done=None, buffers=None, refs=0, kept=0, owned=1, reader=None, writer=None, capacity=0, resumed=0, reads=0, completed=0,
                        mark=None, written=(), snap=None)
        return [Ptr(c.conn), Ptr(s), Ptr(c.all), Ptr(c.handler), upgrades, Ptr(ecs)] + c.n
    return f


def post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', "the handlers return")
    if kind != 'return':
        return
    if not st.ghost["completed"]:
        return      # ended by an error, or waiting for more: see the read handler
    n = names(st)
    k = st.ghost["reads"] - 1
    ec = c.ec[2]
    ok = ec == 0
    w = st.ghost["written"][0]
    up = z3.BoolVal(False) if w[0] == "status" else c.code == SWITCHING
    e.oblige(st, z3.BoolVal(st.ghost["reader"] is None and st.ghost["writer"] is None and "write" not in n and "read" not in n), "ensures: nothing is pending after the response")
    e.oblige(st, z3.Implies(z3.And(ok, up), z3.BoolVal(n.count("handed over") == c.upgrades)), "ensures: the socket is handed over once after a 101 response")
    e.oblige(st, z3.Implies(z3.Not(z3.And(ok, up)), z3.BoolVal("handed over" not in n)), "ensures: the socket is handed over only after a 101 response was sent")
    if "handed over" in n:
        e.oblige(st, z3.BoolVal(not {"shutdown", "close"} & set(n)), "ensures: a socket which is handed over is not closed")
    order = n.index("shutdown") < n.index("close") if "shutdown" in n and "close" in n else False
    e.oblige(st, z3.Implies(z3.And(ok, z3.Not(up)), z3.BoolVal(order and n.count("shutdown") == 1)), "ensures: the socket is shut down, then closed, after the response")
    for x in last(st):
        if x[0] == "shutdown":
            e.oblige(st, bv(x[1], 32) == 2, "ensures: both directions are shut down")
    ended(e, st, z3.BoolVal(True), ec, "after the response")
    e.oblige(st, st.ghost["refs"] == st.ghost["resumed"], "ensures: no reference to the connection is left")


# ---------------------------------------------------------------- accepting connections
def g_accept(e, st, a, name, ins):
    e.oblige(st, st.ghost["acceptor"] is None, "ensures: at most one accept is pending")
    e.oblige(st, a[0].obj == e.ctx.server, "ensures: connections are accepted by the server's own acceptor")
    st.ghost["acceptor"] = (a[1], a[2])
    return None


def g_open(e, st, a, name, ins):
    return e.ctx.open


def g_accepting(e, st, a, name, ins):
    r = st.ghost["acceptor"]
    e.oblige(st, r is not None, "ensures: a server accepts connections")
    if r is None:
        raise PathEnd()
    st.ghost["acceptor"] = None
    e.store(st, a[0], 8, r[0])
    e.store(st, a[1], 8, r[1])
    return None


def started(e, st, a, name, ins):
    c = e.ctx
    p = e.load(st, a[1], 8, True)
    event(st, "started", p)
    n = e.load(st, a[1].add(8), 8, True).add(8)
    e.store(st, n, 4, e.load(st, n, 4) + 1)      # the set keeps a reference
    e.oblige(st, a[0].obj == c.server, "ensures: the connection belongs to this server")
    i = e.load(st, p.add(layout(e, CONN, "socket")["socket"]), 4)
    e.oblige(st, bv(i, 32) == c.sid, "ensures: the connection is given the accepted socket")
    return None


def g_accepted(e, st, a, name, ins):
    s = [x for x in st.ghost["ev"] if x[0] == "started"]
    return s[0][1] if s else Ptr(0, 0)


def accept_setup(upgrades):
    def f(e, st):
        c = e.ctx
        SRV = HT + "Server<GNet, GFS>"
        c.server = out_obj(e, st, 'server', record_size(e, SRV))
        c.RL = layout(e, RESP, "statusCode")
        c.open = z3.Bool('open')
        c.upgrades = upgrades
        c.ec = z3.BitVec('error', 32)
        c.sid = z3.BitVec('socket id', 32)
        ec = out_obj(e, st, 'error code', 16)
        st.w(ec).cells[0] = (4, c.ec)
        st.w(ec).cells[8] = (8, Ptr(e.new_obj(st, 'category', 'heap', 8)))
        s, k = out_obj(e, st, 'accepted socket', 8), out_obj(e, st, 'upgraded socket', 8)
        st.w(s).cells[0] = (4, c.sid)
        st.w(k).cells[0] = (4, z3.BitVec('id', 32))
        c.k = k
        st.ghost.update(acceptor=None, ev=(), tag={})
        return [Ptr(c.server), upgrades, Ptr(ec), Ptr(s), Ptr(k)]
    return f


def upgraded(e, st, a, name, ins):
    i = e.load(st, a[0], 4)
    e.oblige(st, z3.And(bv(i, 32) == z3.BitVec('id', 32), bv(a[1], 32) == 2), "ensures: the upgrade handler is given the socket")
    event(st, "upgraded")
    return None


def accept_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', "the handler returns")
    if kind != 'return':
        return
    n = [x[0] for x in st.ghost["ev"]]
    ok = z3.And(c.open, c.ec == 0)
    e.oblige(st, z3.If(ok, z3.BoolVal(n.count("started") == 1), z3.BoolVal("started" not in n)), "ensures: exactly one connection is started for an accepted socket")
    e.oblige(st, z3.Implies(c.open, z3.BoolVal(st.ghost["acceptor"] is not None)), "ensures: the server goes on accepting")
    e.oblige(st, z3.Implies(ok, z3.BoolVal(n.count("upgraded") == c.upgrades)), "ensures: the connection has the upgrade handler of the server")


def proofs(m):
    R = HT + "Request::"
    P = HT + "Response::"
    SET = "std::set::"
    CNT = "std::__shared_count::"
    nop = lambda e, st, a, name, ins: None
    M = {R + "Request": new_request, R + "~Request": nop, R + "parseSomeData": parse, R + "completed": completed, R + "getMethodName": method_name,
         P + "Response": new_response, P + "~Response": nop, P + "operator=": assign_response, P + "getStatusResponse": status_response, P + "toBuffers": to_buffers,
         HT + "RequestHandler::handleRequest": handle,
         "std::enable_shared_from_this::shared_from_this": shared_from_this, CNT + "~__shared_count": count_drop, CNT + "operator=": count_assign,
         SET + "insert": in_set("insert"), SET + "erase": in_set("erase"),
         "g_read": g_read, "g_write": g_write, "g_shutdown": g_shutdown, "g_close": g_close, "g_upgrade": g_upgrade, "g_pending": g_pending, "g_resume": g_resume, "g_started": g_started,
         "g_read_done": g_read_done}

    def shared_count(e, st, a, name, ins):
        q, ps, _ = e.models.info(e, name)
        if not ps:
            e.store(st, a[0], 8, Ptr(0, 0))
            return None
        if len(ps) == 1 and ps[0].startswith("std::__shared_count"):
            return count_copy(e, st, a, name, ins)
        raise ToolLimit("shared_ptr of another origin")
    M[CNT + "__shared_count"] = shared_count
    A = {**PATH, "g_accept": g_accept, "g_open": g_open, "g_accepting": g_accepting, "g_accepted": g_accepted, "g_upgrade": upgraded, HT + "Connections::start": started,
         R + "Request": new_request, P + "Response": new_response, R + "~Request": nop, P + "~Response": nop}
    return [Proof('a connection, ' + ('with' if u else 'without') + ' an upgrade handler', 'c_life', setup(u), post, models=M) for u in (1, 0)] + \
           [Proof('accept handler, ' + ('with' if u else 'without') + ' an upgrade handler', 'v_accept', accept_setup(u), accept_post, models=A) for u in (1, 0)]
