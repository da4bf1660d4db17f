"""P22: links are identified uniquely and managed per client.
Contracts of the top-level object, for any set of live links and any value of its counter:
 upgrade handler(socket)  WebSocket: exactly one link is added, under an identifier no live link has; it owns this socket, knows this identifier, reads, and sends its events to this object
                          other protocols: none is added
 onEvent(linked, id)      the handler of started user interfaces is called once, with an interface of this object's link id; no link is removed
 onEvent(closed, id)      exactly the link id is removed, nothing is called
 getLink(id)              the link under id; out_of_range if there is none
 UI::addScript(text)      one injectScript command with this text is sent by the link under the interface's id, and by no other; ConnectionError if there is none
A link's own events carry its id (P21, message handler), and a JsFunction sends through the link under its id (P11)."""
from wfspec import *

HARNESS = "wf.cpp"
NATIVE = dict(src="p22.cpp", flags=[IRCFLAGS[0], "-fno-access-control"])
ASSUMPTIONS = ["std::map's tree is an assumed contract (contracts/trees.py); the code of std::map above it is executed",
               "a link is closed by a closed event; WebLink emits none on the current tree (DESIGN, known limits)",
               "the search for a free identifier is proved partially correct: it does not end when all 65536 are live"]


def socket_obj(e, st, name, v):
    o = out_obj(e, st, name, 8)
    st.w(o).cells[0] = (4, v)
    return Ptr(o)


def g_read(e, st, a, name, ins):
    st.ghost["reader"] = a[0]
    return None


def g_link(e, st, a, name, ins):
    c = e.ctx
    ins_ = st.ghost["inserted"]
    web = c.protocol == 2
    e.oblige(st, z3.If(web, z3.BoolVal(len(ins_) == 1), z3.BoolVal(not ins_)), "ensures: one link is added for a websocket, none for another protocol")
    e.oblige(st, not st.ghost["erased"], "ensures: an upgrade removes no link")
    if len(ins_) != 1:
        return Ptr(0, 0)
    tree, node = ins_[0]
    e.oblige(st, tree == links(c), "ensures: the link is kept by this object")
    k = bv(e.load(st, Ptr(node, VALUE), 2), 16)
    e.oblige(st, z3.Not(z3.Select(c.live, k)), "ensures: no live link has the identifier")
    L = layout(e, LINK, "ws", "id")
    at = Ptr(node, VALUE + 8)
    e.oblige(st, bv(e.load(st, at.add(L["id"]), 2), 16) == k, "ensures: the link knows its identifier")
    S = layout(e, "webfront::websocket::WebSocket<GNet>", "socket")
    s = at.add(L["ws"] + S["socket"])
    e.oblige(st, bv(e.load(st, s, 4), 32) == c.sock, "ensures: the link owns the socket that was handed over")
    r = st.ghost["reader"]
    e.oblige(st, isinstance(r, Ptr) and r.obj == node and r.off == s.off, "ensures: the link reads from its socket")
    return at


def upgrade_setup(e, st):
    c = e.ctx
    w = wf_setup(e, st)
    c.ec = bv(0, 32)
    c.sid, c.sock, c.protocol = z3.BitVec('socket id', 32), z3.BitVec('id', 32), z3.BitVec('protocol', 32)
    st.assume(z3.Or(c.protocol == 0, c.protocol == 2))     # a connection hands its socket over for the websocket protocol (P28)
    ec = out_obj(e, st, 'error code', 16)
    st.w(ec).cells[0] = (4, 0)
    st.w(ec).cells[8] = (8, Ptr(e.new_obj(st, 'category', 'heap', 8)))
    return [w, Ptr(ec), socket_obj(e, st, 'accepted socket', c.sid), socket_obj(e, st, 'upgraded socket', c.sock), c.protocol]


def upgrade_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    if kind == 'return' and st.ghost["inserted"]:
        u = st.ghost["uis"]
        e.oblige(st, len(u) == 1 and u[0][0], "ensures: the link's events reach this object")
        if len(u) == 1:
            e.oblige(st, bv(u[0][1], 16) == 7, "ensures: with the identifier they carry")


def event_setup22(e, st):
    w = wf_setup(e, st)
    p = event_setup(e, st)
    st.assume(e.ctx.code != CALLED)
    return [w, p]


def event_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'returns')
    if kind != 'return':
        return
    u, x = st.ghost["uis"], st.ghost["erased"]
    e.oblige(st, z3.If(c.code == LINKED, z3.BoolVal(len(u) == 1 and u[0][0] and not x), z3.BoolVal(not u and len(x) == 1 and x[0][0] == links(c))),
             "ensures: linked starts one user interface of this object and removes nothing, closed removes one link")
    e.oblige(st, not st.ghost["anys"] and not st.ghost["inserted"], "ensures: no function is called, no link added")
    if len(u) == 1:
        e.oblige(st, bv(u[0][1], 16) == c.id, "ensures: the user interface refers to the link of the event")
    if len(x) == 1:
        e.oblige(st, bv(x[0][1], 16) == c.id, "ensures: exactly the link of the event is removed")


def link_setup(e, st):
    w = wf_setup(e, st)
    e.ctx.id = z3.BitVec('link id', 16)
    return [w, e.ctx.id]


def at_link(e, st, p):
    """the pointer denotes the live link with the requested identifier"""
    c = e.ctx
    if not isinstance(p, Ptr) or p.obj not in st.objs or not st.objs[p.obj].meta.get("base") or p.off != VALUE + 8:
        return z3.BoolVal(False)
    return z3.And(bv(e.load(st, Ptr(p.obj, VALUE), 2), 16) == c.id, z3.Select(c.live, c.id))


def unchanged(e, st):
    e.oblige(st, not st.ghost["inserted"] and not st.ghost["erased"], "ensures: no link is added or removed")


def link_post(e, st, kind, rv):
    c = e.ctx
    unchanged(e, st)
    if kind == 'return':
        e.oblige(st, at_link(e, st, rv), "ensures: the link under the identifier")
    else:
        e.oblige(st, z3.And(z3.Not(z3.Select(c.live, c.id)), z3.BoolVal(st.exc[1] == "_ZTISt12out_of_range")), "ensures: out_of_range exactly if there is no such link")


def send(e, st, a, name, ins):
    st.ghost["sent"] += ((a[0], a[1], bv(e.load(st, a[1].add(1), 1), 8), bv(e.load(st, a[1], 1), 8)),)
    p, n = e.load(st, a[1].add(e.ctx.T["payloadSpan"]), 8, True), e.load(st, a[1].add(e.ctx.T["payloadSpan"] + 8), 8)
    c = e.ctx
    e.oblige(st, z3.And(bv(n) == c.n, z3.Implies(bv(n) != 0, z3.BoolVal(p.obj == c.script) if isinstance(p, Ptr) else False)), "ensures: the command carries the text")
    e.oblige(st, z3.Implies(bv(n) != 0, bv(lz(p.off)) == 0), "ensures: the command carries the text from its start")
    return None


def script_setup(e, st):
    c = e.ctx
    w = wf_setup(e, st)
    c.id = z3.BitVec('link id', 16)
    c.T = layout(e, "webfront::msg::TextCommand", "payloadSpan")
    c.script, n, c.s = in_bytes(e, st, 'script')
    c.n = bv(n)
    return [w, c.id, n, Ptr(c.script)]


def script_post(e, st, kind, rv):
    c = e.ctx
    unchanged(e, st)
    s = st.ghost["sent"]
    if kind == 'return':
        e.oblige(st, len(s) == 1, "ensures: one command is sent")
        if len(s) == 1:
            e.oblige(st, at_link(e, st, s[0][0]), "ensures: by the link under the identifier")
            e.oblige(st, z3.And(s[0][2] == 1, s[0][3] == 2), "ensures: an injectScript text command")
    else:
        e.oblige(st, z3.And(z3.Not(z3.Select(c.live, c.id)), z3.BoolVal(st.exc[1] == "_ZTISt13runtime_error" and not s)), "ensures: ConnectionError, and nothing is sent, exactly if there is no such link")


def proofs(m):
    M = dict(BASE, g_read=g_read, g_link=g_link)
    both = ['return', 'throw']
    return [Proof('upgrade handler', 'w_upgrade', upgrade_setup, upgrade_post, models=M, opts=dict(unroll_limit=2, deep_forks=True, peel=('inserted',))),
            Proof('onEvent, linked and closed', 'w_event', event_setup22, event_post, models=M),
            Proof('getLink', 'w_link', link_setup, link_post, models=M, covers=both),
            Proof('UI::addScript', 'w_script', script_setup, script_post, models=dict(M, **{"webfront::WebLink::sendCommand": send}), covers=both)]
