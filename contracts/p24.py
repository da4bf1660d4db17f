"""P24: hexadecimal dumps render every byte exactly once.
Output grammar: for line l = 0 .. ceil(n / 16) - 1: the address start + 16 l (hexadecimal, at least 8 digits, zero filled), then 67 positions T(l, 1) .. : a space, eight groups of " hh", a space, eight
groups of " hh" (a group beyond the end of the buffer is blank), a space, and for each byte of the line the byte itself if it is printable ASCII and a dot otherwise; lines are separated by newlines.
The stream is a ghost automaton: (line, col) is the next position; every character written has to be the one the grammar gives at that position, so the text is determined and complete.
Contract of operator<<(os, HexDump(buffer, start)), for every buffer, start address and stream state (flags, fill character):
 ensures  the text of the grammar is written and nothing else; the stream's flags and fill character are as before; nothing outside the buffer is read.
Contract of hexDump(buffer, start) and hexDump(buffer1, buffer2):  the text of the grammar for the bytes of the buffer (of the first buffer, then the second), start (0).
The stream operations of libstdc++ (formatting of integers, characters, flags) are assumed contracts; no exceptions mask, C locale."""
from common import *
from irv.vectors import *
from irv.engine import NORET

HARNESS = "dump.cpp"
NATIVE = dict(src="p24.cpp")
SECONDS = 300
LEFT, RIGHT, INTERNAL, DEC, HEX, OCT, SHOWBASE, UPPER = 1 << 5, 1 << 7, 1 << 4, 1 << 1, 1 << 3, 1 << 6, 1 << 9, 1 << 14
BASE, ADJUST = DEC | HEX | OCT, LEFT | RIGHT | INTERNAL
DEFAULT = DEC | (1 << 12)
def digit(n):
    return z3.If(z3.ULT(n, 10), n + ord("0"), n + (ord("a") - 10))


def lower(c):
    return z3.If(z3.And(z3.UGE(c, ord("A")), z3.ULE(c, ord("F"))), c | 32, c)


ADDRESS, GROUP, HALF, HIGH, LOW, SHOWN = range(6)


def known(e, st, x, values):
    """the value of a ghost that the path determines"""
    x = z3.simplify(bv(x))
    if z3.is_bv_value(x):
        return x.as_long()
    for v in values:
        if e.must(st, x == v):
            return v
    e.fork_conds(st, [x == v for v in values])


def remaining(c, line):
    left = c.n - (line << 4)
    return z3.If(z3.ULT(left, 16), left, bv(16))


def emit(e, st, *chars):
    """characters are written: ph is what comes next, for byte k of the line"""
    c = e.ctx
    line, k, ph = bv(st.ghost["line"]), bv(st.ghost["k"]), known(e, st, st.ghost["ph"], range(6))
    for ch in chars:
        ch = z3.simplify(bv(ch, 8))
        count = remaining(c, line)
        b = c.byte((line << 4) + k)
        if ph == ADDRESS:
            e.oblige(st, False, 'ensures: nothing but the dump is written')
            raise PathEnd()
        if z3.is_bv_value(ch) and ch.as_long() == 10:
            e.oblige(st, z3.And(z3.BoolVal(ph == SHOWN), k == count, z3.UGT(c.n - (line << 4), 16)), 'ensures: a newline separates two lines')
            line, k, ph = z3.simplify(line + 1), bv(0), ADDRESS
            continue
        if ph in (GROUP, HALF):
            e.oblige(st, ch == 32, 'ensures: a space separates the groups')
            if ph == HALF:
                ph = HIGH
                continue
            opts = [k == 16, z3.Or(k == 0, k == 8), z3.Not(z3.Or(k == 16, k == 0, k == 8))]
            i = [i for i, f in enumerate(opts) if e.must(st, f)]
            if not i:
                e.fork_conds(st, opts)
            ph = (SHOWN, HALF, HIGH)[i[0]]
            if ph == SHOWN:
                k = bv(0)
        elif ph in (HIGH, LOW):
            want = digit(z3.LShR(b, 4) if ph == HIGH else b & 15)
            e.oblige(st, z3.If(z3.ULT(k, count), lower(ch) == want, ch == 32), 'ensures: the digits of the byte')
            if ph == LOW:
                k = z3.simplify(k + 1)
            ph = LOW if ph == HIGH else GROUP
        else:
            e.oblige(st, z3.ULT(k, count), 'ensures: nothing but the dump is written')
            e.oblige(st, ch == z3.If(z3.And(z3.UGE(b, 32), z3.ULT(b, 127)), b, bv(46, 8)), 'ensures: the byte itself or a dot')
            k = z3.simplify(k + 1)
    st.ghost["line"], st.ghost["k"], st.ghost["ph"] = line, k, bv(ph)


def width(st):
    w = st.ghost["width"]
    st.ghost["width"] = bv(0)
    w = z3.simplify(bv(w))
    if not z3.is_bv_value(w):
        raise ToolLimit("symbolic width")
    return w.as_long()


def decide(e, st, f, text):
    if e.must(st, f):
        return True
    if e.must(st, z3.Not(f)):
        return False
    e.oblige(st, f, text)
    raise PathEnd()


def number(e, st, v, w):
    """v of w bits, as an unsigned number (only hexadecimal output has a contract)"""
    c = e.ctx
    fl = bv(st.ghost["flags"], 32)
    wd = width_peek(st)
    if not decide(e, st, fl & BASE == HEX, 'ensures: numbers are hexadecimal'):
        raise ToolLimit("decimal output")
    decide(e, st, fl & SHOWBASE == 0, 'ensures: digits only') or e.oblige(st, False, 'ensures: digits only')
    v = bv(v, w)
    if w == 64:
        # an address: only at the start of a line
        line = bv(st.ghost["line"])
        e.oblige(st, z3.And(bv(st.ghost["ph"]) == ADDRESS, z3.ULT(line << 4, c.n)), 'ensures: a line starts with its address')
        e.oblige(st, v == c.start + (line << 4), 'ensures: the address of the line')
        e.oblige(st, z3.And(z3.BoolVal(wd == 8), bv(st.ghost["fill"], 8) == ord("0")), 'ensures: addresses have at least 8 digits')
        decide(e, st, fl & ADJUST != LEFT, 'ensures: addresses are filled on the left') or e.oblige(st, False, 'ensures: addresses are filled on the left')
        width(st)
        st.ghost["ph"], st.ghost["k"] = bv(GROUP), bv(0)
        return
    if not e.must(st, z3.ULT(v, 256)):
        raise ToolLimit("a number that is not a byte")
    small = z3.ULT(v, 16)
    v8 = z3.Extract(7, 0, v)
    hi, lo, fill = digit(z3.LShR(v8, 4)), digit(v8 & 15), bv(st.ghost["fill"], 8)
    if wd == 2 and e.must(st, fl & ADJUST != LEFT):
        emit(e, st, z3.If(small, fill, hi), lo)
        width(st)
        return
    if not e.must(st, small) and not e.must(st, z3.Not(small)):
        e.fork_conds(st, [small, z3.Not(small)])
    left = False
    if e.must(st, small) and wd > 1:
        left = not decide(e, st, fl & ADJUST != LEFT, 'ensures: digits are filled on the left')
    ds = [lo] if e.must(st, small) else [hi, lo]
    pad = [fill] * max(0, wd - len(ds))
    emit(e, st, *(ds + pad if left else pad + ds))
    width(st)


def width_peek(st):
    w = z3.simplify(bv(st.ghost["width"]))
    if not z3.is_bv_value(w):
        raise ToolLimit("symbolic width")
    return w.as_long()


def text_out(e, st, s):
    n = s.len if type(s.len) is int else z3.simplify(s.len)
    n = n if type(n) is int else n.as_long() if z3.is_bv_value(n) else None
    if n is None:
        raise ToolLimit("text of unknown length")
    fl = bv(st.ghost["flags"], 32)
    wd = width_peek(st)
    left = wd > n and not decide(e, st, fl & ADJUST != LEFT, 'ensures: padding') if wd > n else False
    chars = [s.at(k) for k in range(n)]
    pad = [bv(st.ghost["fill"], 8)] * max(0, wd - n)
    emit(e, st, *(chars + pad if left else pad + chars))
    width(st)


def mine(e, st, p):
    if e.to_ptr(st, p).obj != st.ghost["os"]:
        raise ToolLimit("another stream")


def op_member(e, st, a, name, ins):
    """std::ostream::operator<<(number or manipulator)"""
    _, ps, _ = e.models.info(e, name)
    mine(e, st, a[0])
    t = ps[0]
    if t in ("int", "unsigned int"):
        number(e, st, a[1], 32)
    elif t in ("unsigned long", "long"):
        number(e, st, a[1], 64)
    elif "ios_base&" in t or "basic_ios<" in t or "ostream" in t:
        f = e.to_ptr(st, a[1]).obj
        if not isinstance(f, tuple) or f[0] != "fn":
            raise ToolLimit("unknown manipulator")
        d = e.m.demangled(f[1])
        return manipulate(e, st, d.split("(")[0], a[0])
    else:
        raise ToolLimit("output of " + t)
    return a[0]


MANIP = {"hex": (BASE, HEX), "dec": (BASE, DEC), "oct": (BASE, OCT), "left": (ADJUST, LEFT), "right": (ADJUST, RIGHT), "internal": (ADJUST, INTERNAL), "showbase": (SHOWBASE, SHOWBASE),
         "noshowbase": (SHOWBASE, 0), "uppercase": (UPPER, UPPER), "nouppercase": (UPPER, 0), "showpos": (1 << 11, 1 << 11), "noshowpos": (1 << 11, 0), "unitbuf": (1 << 13, 1 << 13), "nounitbuf": (1 << 13, 0)}


def manipulate(e, st, d, os):
    n = d.split("::")[-1].split("<")[0]
    if n in MANIP:
        mask, v = MANIP[n]
        st.ghost["flags"] = z3.simplify((bv(st.ghost["flags"], 32) & ~bv(mask, 32)) | v)
    elif n == "endl":
        emit(e, st, 10)
    elif n != "flush":
        raise ToolLimit("manipulator " + d)
    return os


def op_free(e, st, a, name, ins):
    """std::operator<<(ostream, character, text or manipulator)"""
    _, ps, _ = e.models.info(e, name)
    mine(e, st, a[0])
    t = ps[1]
    if t == "std::_Setw":
        st.ghost["width"] = z3.simplify(z3.SignExt(32, bv(a[1], 32)))
    elif t.startswith("std::_Setfill"):
        st.ghost["fill"] = bv(a[1], 8)
    elif t.startswith("std::_Setbase"):
        raise ToolLimit("setbase")
    elif t in ("char", "unsigned char", "signed char"):
        text_out(e, st, StrVal(1, ALit([bv(a[1], 8)])))
    elif t == "char const*":
        from irv.models import cstr
        text_out(e, st, cstr(e, st, a[1]))
    elif t.startswith("std::string_view"):
        text_out(e, st, e.region(st, a[2], a[1]))
    elif t.startswith("std::string"):
        text_out(e, st, e.get_str(st, a[1]))
    else:
        raise ToolLimit("output of " + t)
    return a[0]


op_free.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 2 and ("ostream" in params[0]) and "HexDump" not in params[1]


def put(e, st, a, name, ins):
    mine(e, st, a[0])
    emit(e, st, a[1])
    return a[0]


def write(e, st, a, name, ins):
    mine(e, st, a[0])
    s = e.region(st, a[1], a[2])
    n = z3.simplify(bv(s.len))
    if not z3.is_bv_value(n):
        raise ToolLimit("text of unknown length")
    emit(e, st, *[s.at(k) for k in range(n.as_long())])
    return a[0]


def swap(key, w):
    def h(e, st, a, name, ins):
        old = bv(st.ghost[key], w)
        if len(a) > 1:
            st.ghost[key] = z3.simplify(bv(a[1], w))
        return old
    return h


def setf(e, st, a, name, ins):
    old = bv(st.ghost["flags"], 32)
    mask = bv(a[2], 32) if len(a) > 2 else bv(0xffffffff, 32)
    keep = old & ~mask if len(a) > 2 else old
    st.ghost["flags"] = z3.simplify(keep | (bv(a[1], 32) & mask))
    return old


def unsetf(e, st, a, name, ins):
    st.ghost["flags"] = z3.simplify(bv(st.ghost["flags"], 32) & ~bv(a[1], 32))
    return None


def vptr(e, st, p):
    t = e.new_obj(st, "vtable", "heap", 64)
    e.store(st, Ptr(t, 0), 8, 64)
    e.store(st, p, 8, Ptr(t, 24))


def stream_ctor(e, st, a, name, ins):
    c = e.ctx
    _, ps, _ = e.models.info(e, name)
    if ps and not (len(ps) == 1 and "Openmode" in ps[0]):
        raise ToolLimit("stream made from " + str(ps))
    p = e.to_ptr(st, a[0])
    if st.ghost["os"] is not None:
        raise ToolLimit("two streams")
    st.ghost["os"] = p.obj
    vptr(e, st, p)
    if "ostringstream" not in name and "basic_stringstream" in e.m.demangled(name):
        vptr(e, st, p.add(16))
    st.ghost.update(line=bv(0), k=bv(0), ph=bv(0), width=bv(0), flags=bv(DEFAULT, 32), fill=bv(32, 8))
    return None


def stream_str(e, st, a, name, ins):
    c = e.ctx
    mine(e, st, a[1])
    complete(e, st)
    st.ghost["result"] = e.fresh_str(st, 'dump')
    e.set_str(st, a[0], st.ghost["result"])
    st.ghost["taken"] = 1
    return None


def nothing(e, st, a, name, ins):
    return None


IOS = "std::ios_base::"
SS = {x + y: f for x in ("std::basic_stringstream::", "std::basic_ostringstream::") for y, f in (("basic_stringstream", stream_ctor), ("basic_ostringstream", stream_ctor), ("~basic_stringstream", nothing),
      ("~basic_ostringstream", nothing), ("str", stream_str))}
MODELS = merge({"std::basic_ostream::operator<<": op_member, "std::ostream::operator<<": op_member, "std::operator<<": op_free, "std::basic_ostream::put": put, "std::ostream::put": put, "std::ostream::write": write,
               "std::basic_ostream::write": write, IOS + "flags": swap("flags", 32), IOS + "width": swap("width", 64), IOS + "setf": setf, IOS + "unsetf": unsetf, "std::basic_ios::fill": swap("fill", 8),
               **SS})


def common_setup(e, st):
    c = e.ctx
    st.ghost["os"] = None
    c.start = bv(0)
    st.ghost["taken"] = 0


def source(e, st, name, elem):
    oid, n, s = in_bytes(e, st, name, z3.BitVec(name + '.elements', 64) * elem)
    k = z3.BitVec(name + '.elements', 64)
    st.assume(z3.ULT(k, 1 << 36))
    return Ptr(oid), k, s


def stream_setup(elem):
    def f(e, st):
        c = e.ctx
        common_setup(e, st)
        p, k, s = source(e, st, 'buffer', elem)
        c.n, c.byte = k * elem, lambda i: bv(s.at(i), 8)
        c.start = z3.BitVec('start', 64)
        st.assume(z3.ULT(c.start, 1 << 62))
        c.os = st.ghost["os"] = out_obj(e, st, 'stream', 256)
        vptr(e, st, Ptr(c.os))
        c.flags, c.fill = z3.BitVec('flags', 32), z3.BitVec('fill', 8)
        st.ghost.update(line=bv(0), k=bv(0), ph=bv(0), width=bv(0), flags=c.flags, fill=c.fill)
        return [Ptr(c.os), p, k, c.start]
    return f


def finished(c, line, k, ph):
    return z3.If(c.n == 0, z3.And(line == 0, ph == ADDRESS), z3.And(z3.ULT(line << 4, c.n), z3.ULE(c.n - (line << 4), 16), ph == SHOWN, k == c.n - (line << 4)))


def complete(e, st):
    g = st.ghost
    e.oblige(st, finished(e.ctx, bv(g["line"]), bv(g["k"]), bv(g["ph"])), 'ensures: the whole dump is written')


def stream_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: the dump returns')
    if kind == 'return':
        complete(e, st)
        e.oblige(st, bv(st.ghost["flags"], 32) == c.flags, 'ensures: the flags of the stream are restored')
        e.oblige(st, bv(st.ghost["fill"], 8) == c.fill, 'ensures: the fill character of the stream is restored')


def text_setup(e, st):
    c = e.ctx
    common_setup(e, st)
    p, k, s = source(e, st, 'buffer', 1)
    c.n, c.byte = k, lambda i: bv(s.at(i), 8)
    c.start = z3.BitVec('start', 64)
    st.assume(z3.ULT(c.start, 1 << 62))
    c.out = out_obj(e, st, 'result', 32)
    return [p, k, c.start, Ptr(c.out)]


def both_setup(elem):
    def f(e, st):
        c = e.ctx
        common_setup(e, st)
        p, k, s = source(e, st, 'buffer1', elem)
        q, l, t = source(e, st, 'buffer2', elem)
        n1 = k * elem
        c.n, c.byte = n1 + l * elem, lambda i: z3.If(z3.ULT(bv(i), n1), bv(s.at(i), 8), bv(t.at(bv(i) - n1), 8))
        c.out = out_obj(e, st, 'result', 32)
        return [p, k, q, l, Ptr(c.out)]
    return f


def text_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: the dump returns')
    if kind == 'return':
        e.oblige(st, st.ghost["taken"] == 1, 'ensures: the text of the stream is returned')
        if st.ghost["taken"] == 1:
            r = e.get_str(st, Ptr(c.out))
            e.oblige(st, same(r.len, st.ghost["result"].len) is True, 'ensures: the text of the stream is returned')


def cand(e, cut, S):
    c = e.ctx

    def g(n):
        return lambda v: bv(v.st.ghost[n])
    line, k, ph = g("line"), g("k"), g("ph")
    for l, i in cut.infos.items():
        if i.kind == 'int' and i.w == 64 and l[0] != 'ghost':
            def a(v, l=l):
                return bv(v.int(l))
            # between two lines: the newline was written exactly if there is more to come
            yield 'lines', lambda v, a=a: z3.And(a(v) & 15 == 0, z3.If(z3.ULT(a(v), c.n), z3.And(ph(v) == ADDRESS, line(v) << 4 == a(v)),
                                                                       z3.And(finished(c, line(v), k(v), ph(v)), a(v) == z3.If(c.n == 0, bv(0), (line(v) << 4) + 16))))
            yield 'here', lambda v, a=a: a(v) == line(v) << 4
            for of in ((lambda v, a=a: a(v) - (line(v) << 4)), a, (lambda v, a=a: 16 - a(v))):
                yield 'hex', lambda v, of=of: z3.And(ph(v) == GROUP, k(v) == of(v), z3.ULE(k(v), 16))
                yield 'text', lambda v, of=of: z3.And(ph(v) == SHOWN, k(v) == z3.If(z3.ULT(of(v), remaining(c, line(v))), of(v), remaining(c, line(v))), z3.ULE(of(v), 16))
    yield 'more', lambda v: z3.ULT(line(v) << 4, c.n)
    yield 'flags', lambda v: z3.And(bv(v.st.ghost["flags"], 32) & (BASE | SHOWBASE) == HEX, bv(v.st.ghost["flags"], 32) & ADJUST != LEFT)
    yield 'fill', lambda v: bv(v.st.ghost["fill"], 8) == ord("0")
    yield 'width', lambda v: bv(v.st.ghost["width"]) == 0


RECORD = "webfront::utils::HexDump<std::vector<std::byte, std::allocator<std::byte> > >"


def dump_call(e, st, a, name, ins):
    """the contract of operator<<(stream, HexDump of a vector of bytes), proved by itself, at its call in hexDump(buffer1, buffer2)"""
    c = e.ctx
    g = st.ghost
    mine(e, st, a[0])
    m = layout(e, RECORD, "buffer", "startAddress")
    h = e.to_ptr(st, a[1])
    s = e.get_str(st, e.load(st, h.add(m["buffer"]), 8, True))
    e.oblige(st, bv(s.len) == c.n, 'ensures: every byte of the buffers is dumped')
    i = e.fresh('byte', 64)
    e.oblige(st, z3.Implies(z3.ULT(i, c.n), bv(s.at(i), 8) == c.byte(i)), 'ensures: the bytes of the first buffer, then those of the second')
    e.oblige(st, bv(e.load(st, h.add(m["startAddress"]), 8)) == c.start, 'ensures: addresses start at 0')
    e.oblige(st, z3.And(bv(g["line"]) == 0, bv(g["k"]) == 0, bv(g["ph"]) == ADDRESS), 'ensures: nothing else is written')
    e.oblige(st, bv(g["width"]) == 0, 'precondition: no width is pending')
    last = z3.If(c.n == 0, bv(0), z3.LShR(c.n - 1, 4))
    g["line"], g["ph"], g["k"] = last, z3.If(c.n == 0, bv(ADDRESS), bv(SHOWN)), z3.If(c.n == 0, bv(0), c.n - (last << 4))
    return a[0]


dump_call.accept = lambda e, name, qual, params, targs: bool(params) and len(params) == 2 and params[1].startswith("webfront::utils::HexDump<std::vector<std::byte") and bool(e.m.members(RECORD))


def vector_setup(e, st):
    c = e.ctx
    args = stream_setup(1)(e, st)
    s = e.fresh_str(st, 'content')
    st.assume(bv(s.len) == c.n)
    st.assume(z3.ULT(c.n, 1 << 36))
    v = out_obj(e, st, 'vector', 24)
    e.set_str(st, Ptr(v), s)
    c.byte = lambda i: bv(s.at(i), 8)
    return [args[0], Ptr(v), args[3]]


def proofs(m):
    o = dict(unroll_limit=0)
    V = merge(MODELS, dispatch({t: BYTEVEC for t in BYTES}))
    W = {**V, "webfront::utils::operator<<": dump_call}
    return [Proof('operator<<(stream, HexDump of a vector)', 'd_vector', vector_setup, stream_post, cand=[cand], models=V, opts=o),
            Proof('operator<<(stream, HexDump of bytes)', 'd_bytes', stream_setup(1), stream_post, cand=[cand], models=MODELS, opts=o),
            Proof('operator<<(stream, HexDump of 4-byte words)', 'd_words', stream_setup(4), stream_post, cand=[cand], models=MODELS, opts=o),
            Proof('hexDump(buffer, start)', 'd_text', text_setup, text_post, cand=[cand], models=MODELS, opts=o),
            Proof('hexDump(buffer1, buffer2)', 'd_both', both_setup(1), text_post, models=W),
            Proof('hexDump(words1, words2)', 'd_bothwords', both_setup(4), text_post, models=W)]
