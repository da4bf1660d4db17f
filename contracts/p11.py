"""P11: each invocation of a JavaScript function object sends one self-consistent message.
Contract of JsFunction::operator()(args...), for any state an earlier history of invocations can leave in the object (any counts, sizes, buffered
bytes, used part of the buffer):
 ensures  exactly one frame is sent, on the link of the object; its payload is the header (command callFunction, count of parameters, number of
          payload bytes) followed by ENC(name) ENC(arg 1) ... and nothing else; the frame's length is the number of these bytes.
The class invariant (the command byte is callFunction) is established by the constructor and kept."""
from msgspec import *
import p10

HARNESS = "js.cpp"
NATIVE = dict(src="p11.cpp")
JS = "webfront::JsFunction<WF>"
CALLFUNCTION = 3
TID = [("i32", 8), ("dbl", 0)]


def sent(e, st, a, name, ins):
    """ghost: what the frame handed to the link holds at that moment"""
    frame, id = a
    msg = lit("")
    parts = st.ghost.get("appended", ())
    if not parts:
        e.oblige(st, False, 'ensures: a frame with a header is sent')
    for p, n in parts[1:]:          # the first buffer is the websocket header
        msg = concat(msg, e.region(st, p, n))
    raw = [bv(e.load(st, e.to_ptr(st, frame).add(k), 1), 8) for k in range(14)]
    st.ghost["sent"] = st.ghost.get("sent", ()) + ((msg, raw, id),)
    st.ghost["appended"] = ()
    return None


MODELS = dict(p10.MODELS, sent=sent)


def object_setup(e, st):
    c = e.ctx
    L = layout(e, JS, "name", "webFront", "webLinkId", "command")
    C = layout(e, p10.CALL, "head", "buffer", "encodeBufferIndex")
    c.js = out_obj(e, st, 'function', record_size(e, JS))
    c.link = out_obj(e, st, 'webfront', 16)
    c.name = e.fresh_str(st, 'name')
    st.assume(z3.ULT(bv(c.name.len), 65536))
    e.set_str(st, Ptr(c.js, L["name"]), c.name)
    o = st.w(c.js)
    o.cells[L["webFront"]] = (8, Ptr(c.link))
    c.id = z3.BitVec('link', 16)
    o.cells[L["webLinkId"]] = (2, c.id)
    at = L["command"]
    c.cmd = at + C["head"]
    for k, w, v in [(0, 1, CALLFUNCTION), (1, 1, z3.BitVec('count', 8)), (2, 1, 0), (3, 1, 0), (4, 4, z3.BitVec('payloadSize', 32))]:
        o.cells[c.cmd + k] = (w, v)
    o.segs.append(Seg(at + C["buffer"], 1024, ABase(z3.Array('buffered', z3.BitVecSort(64), z3.BitVecSort(8)))))
    used = z3.BitVec('used', 64)
    st.assume(z3.ULE(used, 1024))
    o.cells[at + C["encodeBufferIndex"]] = (8, used)


def setup(params):
    def f(e, st):
        object_setup(e, st)
        c = e.ctx
        c.args, out = [], [Ptr(c.js)]
        for k, (t, how) in enumerate(params):
            if how == "sv":
                oid, n, s = in_bytes(e, st, f'text{k}', lim=65536)
                c.args.append((t, s))
                out += [n, Ptr(oid)]
            elif how == "val":
                v = p10.leaf_value(e, st, t, f'v{k}')
                c.args.append((t, v))
                out.append(v if t != "bool" else z3.Extract(0, 0, v) == 1)
            else:
                arg = out_obj(e, st, f'arg{k}', tsize(t))
                if type(t) is list:
                    val = [p10.leaf_value(e, st, u, f'v{k}_{j}') for j, (u, _) in enumerate(t)]
                    for (u, at), x in zip(t, val):
                        p10.put_value(e, st, arg, at, u, x)
                else:
                    val = p10.leaf_value(e, st, t, f'v{k}')
                    p10.put_value(e, st, arg, 0, t, val)
                c.args.append((t, val))
                out.append(Ptr(arg))
        return out
    return f


def payloads(c, args):
    out = [(z3.BoolVal(True), lit(""))]
    for t, v in [("str", c.name)] + args:
        out = [(z3.simplify(z3.And(a, b)), concat(s, x)) for a, s in out for b, x in p10.enc(t, v)]
    return out


def check_message(e, st, message, args):
    c = e.ctx
    got, raw, id = message
    K = z3.BitVec('K', 64)
    e.oblige(st, bv(id, 16) == c.id, 'ensures: sent on the link of the object')
    e.oblige(st, z3.And(bv(got.at(0), 8) == CALLFUNCTION, bv(got.at(1), 8) == 1 + sum(p10.count(t) for t, _ in args)), 'ensures: the header announces the command and the number of parameters')
    for cond, want in payloads(c, args):
        if not e.feasible(st, cond):
            continue
        n = bv(want.len)
        e.oblige(st, z3.Implies(cond, z3.And(bv(got.len) == n + 8, z3.ZeroExt(32, le(got, 4, 4)) == n)), 'ensures: the header announces the number of payload bytes')
        e.oblige(st, z3.Implies(z3.And(cond, z3.ULT(K, n)), bv(got.at(z3.simplify(K + 8)), 8) == bv(want.at(K), 8)), 'ensures: the payload is the encoding of name and arguments')
        e.oblige(st, z3.Implies(cond, p10.frame_payload(raw) == n + 8), 'ensures: the frame length is the size of the message')
    e.oblige(st, raw[0] == 0x82, 'ensures: one final binary frame')


def post(calls):
    def f(e, st, kind, rv):
        c = e.ctx
        if kind != 'return':
            e.oblige(st, False, 'the invocation returns')
            return
        s = st.ghost.get("sent", ())
        e.oblige(st, len(s) == len(calls), 'ensures: one message per invocation')
        if len(s) == len(calls):
            for m, idx in zip(s, calls):
                check_message(e, st, m, [c.args[k] for k in idx])
        e.oblige(st, bv(e.load(st, Ptr(c.js, c.cmd), 1), 8) == CALLFUNCTION, 'invariant: the command of the object')
    return f


def ctor_setup(e, st):
    L = layout(e, JS, "command", "name", "webLinkId")
    C = layout(e, p10.CALL, "head", "encodeBufferIndex")
    e.ctx.js, e.ctx.L, e.ctx.C = out_obj(e, st, 'function', record_size(e, JS)), L, C
    oid, n, s = in_bytes(e, st, 'name')
    e.ctx.s = s
    return [Ptr(e.ctx.js), n, Ptr(oid), Ptr(out_obj(e, st, 'webfront', 16)), z3.BitVec('link', 16)]


def ctor_post(e, st, kind, rv):
    c = e.ctx
    at = c.L["command"]
    e.oblige(st, kind == 'return', 'the constructor returns')
    if kind == 'return':
        e.oblige(st, bv(e.load(st, Ptr(c.js, at + c.C["head"]), 1), 8) == CALLFUNCTION, 'invariant: the command of the object')
        e.oblige(st, z3.ULE(bv(e.load(st, Ptr(c.js, at + c.C["encodeBufferIndex"]), 8)), 1024), 'invariant: the used part lies in the buffer')
        e.oblige(st, bv(e.load(st, Ptr(c.js, c.L["webLinkId"]), 2), 16) == z3.BitVec('link', 16), 'invariant: the link of the object')
        e.oblige(st, same_value(e, st, "str", e.get_str(st, Ptr(c.js, c.L["name"])), c.s), 'invariant: the name of the function')


def proofs(m):
    V, R = "val", "ref"
    out = [Proof('JsFunction::JsFunction', 'j_ctor', ctor_setup, ctor_post, models=MODELS)]
    for fn, what, params in [("j_none", "()", []), ("j_i", "(int)", [("i32", V)]), ("j_bd", "(bool, double)", [("bool", V), ("dbl", V)]), ("j_s", "(std::string)", [("str", R)]),
                             ("j_vb", "(std::string_view, bool)", [("str", "sv"), ("bool", V)]), ("j_t", "(std::tuple<int, double>)", [(TID, R)])]:
        out.append(Proof('JsFunction::operator()' + what, fn, setup(params), post([range(len(params))]), models=MODELS))
    out.append(Proof('JsFunction: two invocations', 'j_ii', setup([("i32", V), ("i32", V)]), post([[0], [1]]), models=MODELS))
    return out
