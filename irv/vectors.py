"""Assumed contracts of std::vector<std::byte> and std::vector<char>: the vector's contents are one byte string kept at the vector's address
(like std::string, without a readable terminator).  Also: unbounded vectors of plain records, read-only (Obj.meta["elem"])."""
import re
import z3
from .val import *
from .engine import NORET, StrTab
from .models import S, maybe_throw, ptr_diff, norm_bool, umin

BYTES = ("std::byte", "char", "unsigned char")


def element(dem):
    """element type of the vector a demangled member function belongs to"""
    k = dem.find("std::vector<")
    if k < 0:
        return None
    i = k + 12
    depth, j = 0, i
    while j < len(dem):
        c = dem[j]
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if depth < 0 or (c == "," and depth == 0):
            return dem[i:j]
        j += 1
    return None


def elem_of(e, name):
    return element(e.m.demangled(name).replace("std::__cxx11::", "std::"))


def mark(st, p):
    o = st.w(p.obj)
    o.meta["vec"] = o.meta.get("vec", frozenset()) | {p.off if type(p.off) is int else -1}


def span_of(e, st, first, last):
    return e.region(st, first, ptr_diff(e, st, last, first))


def ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    this = e.to_ptr(st, a[0])
    ps = [p for p in ps if not p.startswith("std::allocator")]
    if not ps:
        v = lit("")
    elif ps[0] == "unsigned long":
        if maybe_throw(e, st, z3.UGT(bv(a[1]), bv(1 << 62)), "St12length_error"):
            return NORET
        v = StrVal(a[1], AConst(e.load(st, a[2], 1) if len(ps) > 1 else 0))
    elif ps[0].endswith("const&"):
        v = S(e, st, a[1])
    elif ps[0].endswith("&&"):
        v = S(e, st, a[1])
        e.set_str(st, this, v)
        e.set_str(st, a[1], lit(""))
        mark(st, this)
        return None
    elif ps[0].startswith("std::initializer_list"):
        v = e.region(st, a[1], a[2])
    elif len(ps) == 2:
        v = span_of(e, st, a[1], a[2])
    else:
        raise ToolLimit("vector constructor " + str(ps))
    e.set_str(st, this, v)
    mark(st, this)
    return None


def dtor(e, st, a, name, ins):
    e.kill_str(st, a[0])
    return None


def push(e, st, a, name, ins):
    b = a[1]
    if isinstance(b, Ptr):
        b = e.load(st, b, 1)
    s = S(e, st, a[0])
    e.set_str(st, a[0], concat(s, StrVal(1, ALit([b]))))
    return e.strdata(e.to_ptr(st, a[0]), lin(s.len))


def size(e, st, a, name, ins):
    return S(e, st, a[0]).len


def empty(e, st, a, name, ins):
    n = S(e, st, a[0]).len
    return int(n == 0) if type(n) is int else norm_bool(n == 0)


def clear(e, st, a, name, ins):
    S(e, st, a[0])
    e.set_str(st, a[0], lit(""))
    return None


def data(e, st, a, name, ins):
    S(e, st, a[0])
    return e.strdata(e.to_ptr(st, a[0]))


def end(e, st, a, name, ins):
    return e.strdata(e.to_ptr(st, a[0]), lin(S(e, st, a[0]).len))


def index(e, st, a, name, ins):
    s = S(e, st, a[0])
    c = z3.ULT(bv(a[1]), bv(s.len))
    if "::at(" in e.m.demangled(name):
        if maybe_throw(e, st, z3.Not(c), "St12out_of_range"):
            return NORET
    else:
        e.oblige(st, norm_bool(z3.simplify(c)), "precondition: vector index within size")
    return e.strdata(e.to_ptr(st, a[0]), lin(a[1]))


def front(e, st, a, name, ins):
    s = S(e, st, a[0])
    e.oblige(st, norm_bool(z3.simplify(bv(s.len) != 0)), "precondition: vector not empty")
    return e.strdata(e.to_ptr(st, a[0]))


def back(e, st, a, name, ins):
    s = S(e, st, a[0])
    e.oblige(st, norm_bool(z3.simplify(bv(s.len) != 0)), "precondition: vector not empty")
    return e.strdata(e.to_ptr(st, a[0]), lin(sub64(s.len, 1)))


def resize(e, st, a, name, ins):
    s, n = S(e, st, a[0]), a[1]
    if maybe_throw(e, st, z3.UGT(bv(n), bv(1 << 62)), "St12length_error"):
        return NORET
    fill = e.load(st, a[2], 1) if len(a) > 2 else 0
    grow = ite(norm_bool(z3.simplify(z3.UGT(bv(n), bv(s.len)))), sub64(n, s.len), 0, 64)
    e.set_str(st, a[0], StrVal(n, ACopy(s.arr, s.len, grow, AConst(fill), 0)))
    return None


def insert(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    s = S(e, st, a[0])
    own = e.strdata(e.to_ptr(st, a[0]))
    p = e.to_ptr(st, a[1])
    if p.obj != own.obj:
        e.oblige(st, False, "precondition: insert position belongs to the vector")
    pos = lz(p.off)
    e.oblige(st, norm_bool(z3.simplify(z3.ULE(bv(pos), bv(s.len)))), "precondition: insert position within the vector")
    if len(ps) == 3 and ps[1] == "unsigned long":
        v = StrVal(a[2], AConst(e.load(st, a[3], 1)))
    elif len(ps) == 3:
        v = span_of(e, st, a[2], a[3])
    elif len(ps) == 2 and "initializer_list" in ps[1]:
        v = e.region(st, a[2], a[3])
    elif len(ps) == 2:
        v = StrVal(1, ALit([e.load(st, a[2], 1)]))
    else:
        raise ToolLimit("vector insert " + str(ps))
    head = StrVal(pos, s.arr)
    if same(pos, s.len) is True:
        e.set_str(st, a[0], concat(s, v))
    else:
        tail = StrVal(sub64(s.len, pos), shift(s.arr, pos))
        e.set_str(st, a[0], concat(concat(head, v), tail))
    return p


def assign(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    if len(ps) == 1 and ps[0].endswith("const&"):
        v = S(e, st, a[1])
    elif len(ps) == 1 and ps[0].endswith("&&"):
        v = S(e, st, a[1])
        e.set_str(st, a[0], v)
        e.set_str(st, a[1], lit(""))
        return a[0]
    elif ps[0] == "unsigned long":
        v = StrVal(a[1], AConst(e.load(st, a[2], 1)))
    elif len(ps) == 2:
        v = span_of(e, st, a[1], a[2])
    elif "initializer_list" in ps[0]:
        v = e.region(st, a[1], a[2])
    else:
        raise ToolLimit("vector assign " + str(ps))
    e.set_str(st, a[0], v)
    return a[0]


def swap(e, st, a, name, ins):
    x, y = S(e, st, a[0]), S(e, st, a[1])
    e.set_str(st, a[0], y)
    e.set_str(st, a[1], x)
    return None


def nop(e, st, a, name, ins):
    S(e, st, a[0])
    return None


def capacity(e, st, a, name, ins):
    c = e.fresh("capacity", 64)
    st.assume(z3.UGE(c, bv(S(e, st, a[0]).len)))
    st.assume(z3.ULT(c, bv(1 << 62)))
    return c


def reserve(e, st, a, name, ins):
    S(e, st, a[0])
    if maybe_throw(e, st, z3.UGT(bv(a[1]), bv(1 << 62)), "St12length_error"):
        return NORET
    return None


BYTEVEC = {"vector": ctor, "~vector": dtor, "push_back": push, "emplace_back": push, "size": size, "empty": empty, "clear": clear, "data": data, "begin": data, "cbegin": data, "end": end, "cend": end,
           "operator[]": index, "at": index, "front": front, "back": back, "resize": resize, "insert": insert, "assign": assign, "operator=": assign, "swap": swap, "shrink_to_fit": nop,
           "reserve": reserve, "capacity": capacity}


def dispatch(tables):
    """models for the members of std::vector, chosen by element type; other element types run the library's own code"""
    out = {}
    for m in {m for t in tables.values() for m in t}:
        def h(e, st, a, name, ins, m=m):
            return tables[elem_of(e, name)][m](e, st, a, name, ins)
        h.accept = lambda e, name, qual, params, targs, m=m: m in tables.get(elem_of(e, name), {})
        out["std::vector::" + m] = h
    return out


def copy_records(e, st, a, name, ins):
    """copy constructor of a vector of plain records of unbounded count"""
    this, src = e.to_ptr(st, a[0]), e.to_ptr(st, a[1])
    first, last = e.load(st, src, 8, True), e.load(st, src.add(8), 8, True)
    n = ptr_diff(e, st, last, first)
    new = e.new_obj(st, "copied elements", "heap", n)
    o, w = st.objs[first.obj] if first.obj else None, st.w(new)
    if o is not None:
        if type(first.off) is not int or first.off != 0:
            raise ToolLimit("vector storage does not start at its object")
        e.range_bounds(st, first, n, "read")
        w.cells = dict(o.cells)
        w.meta = dict(o.meta)
    for k, v in ((0, Ptr(new)), (8, Ptr(new, lin(n))), (16, Ptr(new, lin(n)))):
        e.store(st, this.add(k), 8, v)
    return None


def _copy_accept(e, name, qual, params, targs):
    return params and params[0].startswith("std::vector<") and params[0].endswith("const&")


copy_records.accept = _copy_accept


# ---------------------------------------------------------------- vectors of records that hold strings
# The storage is one heap object with room to spare (capacity is never reached, so the library's own code never reallocates); the strings of element i are entries of StrTabs.
ROOM = 1 << 44


def storage(e, st, name, fields, stride):
    oid = e.new_obj(st, name, "heap", ROOM)
    o = st.w(oid)
    for f in fields:
        fl = z3.Function(f"{name}.{f}.len!{oid}", z3.BitVecSort(64), z3.BitVecSort(64))
        fa = z3.Function(f"{name}.{f}.at!{oid}", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        o.sarr[(f, stride)] = StrTab(fl, fa)
    o.meta["records"] = (tuple(fields), stride)
    return oid


def make_vector(e, st, at, oid, n, stride):
    """vector object at `at` whose elements are the first n records of the storage"""
    for k, v in ((0, Ptr(oid)), (8, Ptr(oid, lin(n * stride))), (16, Ptr(oid, ROOM))):
        e.store(st, at.add(k), 8, v)


def record_models(elem, fields, stride):
    """models of the members of std::vector<elem>: the rest is the library's own code"""
    def ctor(e, st, a, name, ins):
        this = e.to_ptr(st, a[0])
        _, ps, _ = e.models.info(e, name)
        ps = [p for p in ps if not p.startswith("std::allocator")]
        if not ps:
            make_vector(e, st, this, storage(e, st, "elements", fields, stride), 0, stride)
            return None
        if ps[0].endswith("&&") and len(ps) == 1:
            src = e.to_ptr(st, a[1])
            for k in (0, 8, 16):
                e.store(st, this.add(k), 8, e.load(st, src.add(k), 8, True))
            make_vector(e, st, src, storage(e, st, "elements", fields, stride), 0, stride)
            return None
        if ps[0].endswith("const&") and len(ps) == 1:
            copy(e, st, this, e.to_ptr(st, a[1]))
            return None
        raise ToolLimit("vector constructor " + str(ps))

    def copy(e, st, this, src):
        first, last = e.load(st, src, 8, True), e.load(st, src.add(8), 8, True)
        n = ptr_diff(e, st, last, first)
        new = storage(e, st, "copied elements", fields, stride)
        o, w = st.objs[first.obj], st.w(new)
        if type(first.off) is not int or first.off != 0:
            raise ToolLimit("vector storage does not start at its object")
        w.sarr = dict(o.sarr)
        for k, v in ((0, Ptr(new)), (8, Ptr(new, lin(n))), (16, Ptr(new, ROOM))):
            e.store(st, this.add(k), 8, v)

    def assign(e, st, a, name, ins):
        _, ps, _ = e.models.info(e, name)
        this, src = e.to_ptr(st, a[0]), e.to_ptr(st, a[1])
        if ps[0].endswith("const&"):
            copy(e, st, this, src)
        elif ps[0].endswith("&&"):
            for k in (0, 8, 16):
                e.store(st, this.add(k), 8, e.load(st, src.add(k), 8, True))
            make_vector(e, st, src, storage(e, st, "elements", fields, stride), 0, stride)
        else:
            raise ToolLimit("vector assignment " + str(ps))
        return this

    def nothing(e, st, a, name, ins):
        return None

    def clear(e, st, a, name, ins):
        this = e.to_ptr(st, a[0])
        e.store(st, this.add(8), 8, e.load(st, this, 8, True))
        return None
    table = {"vector": ctor, "~vector": nothing, "operator=": assign, "clear": clear, "reserve": nothing, "shrink_to_fit": nothing}
    out = {}
    for mname, fn in table.items():
        def h(e, st, a, name, ins, fn=fn):
            return fn(e, st, a, name, ins)
        h.accept = lambda e, name, qual, params, targs: elem_of(e, name) == elem
        out["std::vector::" + mname] = h
    return out


def merge(*tables):
    """models for the same function name: the first one that accepts the call"""
    out = {}
    for t in tables:
        for k, h in t.items():
            if k not in out:
                out[k] = h
                continue
            g = out[k]

            def both(e, st, a, name, ins, g=g, h=h):
                i = e.models.info(e, name)
                if not hasattr(g, "accept") or g.accept(e, name, *i):
                    return g(e, st, a, name, ins)
                return h(e, st, a, name, ins)
            both.accept = lambda e, name, *i, g=g, h=h: (not hasattr(g, "accept") or g.accept(e, name, *i)) or (not hasattr(h, "accept") or h.accept(e, name, *i))
            out[k] = both
    return out
