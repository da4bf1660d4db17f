"""shared by P20 and P32: an optional<File> as a result"""
from common import *
from irv.vectors import merge
from irv.paths import PATH

FILE = "webfront::fs::File"
IF = "std::basic_ifstream::"


def nothing(e, st, a, name, ins):
    return None


def stream_ctor(e, st, a, name, ins):
    """a stream is a handle: kept by moves, absent after default construction"""
    _, ps, _ = e.models.info(e, name)
    if not ps or not ps[0].startswith("std::"):
        if ps:
            raise ToolLimit("a stream is opened")
        e.store(st, a[0], 8, 0)
        return None
    e.store(st, a[0], 8, e.load(st, a[1], 8))
    e.store(st, a[1], 8, 0)
    return None


STREAM = {IF + "basic_ifstream": stream_ctor, IF + "~basic_ifstream": nothing, "std::basic_ios::~basic_ios": nothing}


def result(e, st):
    c = e.ctx
    c.LF = layout(e, FILE, "fileType", "data", "readIndex", "size", "eofBit", "encoding", "fstream")
    c.engaged = record_size(e, FILE)
    c.out = out_obj(e, st, 'result', c.engaged + 8)


def engaged(e, st):
    got = e.load(st, Ptr(e.ctx.out, e.ctx.engaged), 1)
    g = z3.BoolVal(bool(got)) if isinstance(got, int) else got if z3.is_bool(got) else bv(got, 8) & 1 == 1
    return g


def member(e, st, n, w=8, isptr=False, p=None):
    return e.load(st, (p or Ptr(e.ctx.out)).add(e.ctx.LF[n]), w, isptr=isptr)
