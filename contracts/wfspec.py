"""contracts shared by P21 and P22: the top-level object in any state that a history can leave, its events and its maps"""
from common import *
from trees import *
from irv.paths import PATH
from irv.streams import *
from irv.models import maybe_throw, load_sv
import p28

IRCFLAGS = ["-I" + __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))) + "/native/stub", "-fno-access-control"]
WF = "webfront::BasicWF<GNet, GFS>"
LINK = "webfront::WebLink<GNet>"
EVENT = "webfront::WebLinkEvent"
LINKED, CLOSED, CALLED = 0, 1, 2
nop = lambda e, st, a, name, ins: None


def members(e, rec):
    ms = e.m.members(rec)
    if not ms:
        raise ToolLimit("unknown record " + rec)
    return ms


def wf_setup(e, st):
    c = e.ctx
    ms = members(e, WF)
    c.W = layout(e, WF, "webLinks")
    c.wf = c.server = out_obj(e, st, 'top-level object', record_size(e, WF))
    c.free = [(o, s) for n, o, s, t in ms if s in (1, 2, 4, 8) and ("short" in t or "int" in t or "long" in t or "WebLinkId" in t)]
    if not c.free and not any("Id" in t or "uint" in t for _, _, _, t in ms):
        c.free = [(o, s) for n, o, s, t in ms if n == "idsCounter"]
    c.live = z3.Array('live', z3.BitVecSort(16), z3.BoolSort())
    c.mapped = {True: 64, False: 8 + record_size(e, LINK)}
    c.RL = layout(e, p28.RESP, "statusCode")
    c.open = z3.BoolVal(True)
    st.ghost.update(GHOSTS)
    st.ghost.update(ev=(), acceptor=None, tag={}, reader=None, uis=(), anys=(), sent=(), calls=(), decoded=())
    return Ptr(c.wf)


def g_registered(e, st, a, name, ins):
    """the object is made; from here on its counters have any value and its maps any content"""
    c = e.ctx
    st.ghost["any"] = a[0]
    for k, (o, s) in enumerate(c.free):
        st.w(c.wf).cells[o] = (s, z3.BitVec(f'counter{k}', 8 * s))
    return None


def g_ui(e, st, a, name, ins):
    st.ghost["uis"] += ((a[0].obj == e.ctx.wf, a[1]),)
    return None


def g_any(e, st, a, name, ins):
    st.ghost["anys"] += ((a[0], a[1]),)
    if maybe_throw(e, st, z3.Bool(f'function throws {len(st.ghost["anys"])}'), "St13runtime_error"):
        return NORET
    return None


from irv.engine import NORET


def event_setup(e, st, text=None):
    """an event with any content"""
    c = e.ctx
    L = layout(e, EVENT, "code", "webLinkId", "text", "data")
    c.e = out_obj(e, st, 'event', record_size(e, EVENT))
    c.code, c.id = z3.BitVec('code', 32), z3.BitVec('link id', 16)
    st.assume(z3.ULT(c.code, 3))
    st.w(c.e).cells[L["code"]] = (4, c.code)
    st.w(c.e).cells[L["webLinkId"]] = (2, c.id)
    c.text = text or e.fresh_str(st, 'name')
    e.set_str(st, Ptr(c.e, L["text"]), c.text)
    c.doid, c.dn, c.data = in_bytes(e, st, 'data')
    st.w(c.e).cells[L["data"]] = (8, Ptr(c.doid))
    st.w(c.e).cells[L["data"] + 8] = (8, c.dn)
    return Ptr(c.e)


def links(c):
    return (c.wf, c.W["webLinks"])


BASE = {**PATH, **TREES, "g_accept": p28.g_accept, "g_open": p28.g_open, "g_accepting": p28.g_accepting, "g_accepted": p28.g_accepted, p28.HT + "Connections::start": p28.started,
        p28.REQ + "::Request": p28.new_request, p28.REQ + "::~Request": nop, p28.RESP + "::Response": p28.new_response, p28.RESP + "::~Response": nop,
        "g_registered": g_registered, "g_ui": g_ui, "g_any": g_any}
