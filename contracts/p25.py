"""P25: buffer views never exceed the memory they were made from.
Contract of BasicNetworking::Buffer(source [, n]): the view starts at the source's first byte (any address when it is empty) and its size is the
size of the source in bytes, or min(source, n elements) when a prefix is asked for (n elements fit a size_t).
Contract of operator+=(n): data' = data + min(n, size), size' = size - min(n, size)."""
from common import *
import p10

HARNESS = "buf.cpp"
NATIVE = dict(src="p25.cpp")


def view_setup(e, st, name):
    oid, n, s = in_bytes(e, st, name + '.memory')
    off = z3.BitVec(name + '.start', 64)
    ln = z3.BitVec(name + '.size', 64)
    st.assume(z3.And(z3.ULE(off, n), z3.ULE(ln, n - off)))
    return Ptr(oid, lin(off)), ln


def holds(e, st, out, src, want, what):
    d, n = e.load(st, Ptr(out), 8, True), e.load(st, Ptr(out, 8), 8)
    e.oblige(st, bv(n) == bv(want), f'ensures: {what}: size of the view')
    d = e.to_ptr(st, d)
    if d.obj == src.obj and type(src.obj) is not tuple or d.obj == src.obj:
        e.oblige(st, z3.Or(bv(want) == 0, bv(lz(d.off)) == bv(lz(src.off))), f'ensures: {what}: first byte of the view')
    else:
        e.oblige(st, bv(want) == 0, f'ensures: {what}: the view lies in its source')


def umin_(a, b):
    return z3.If(z3.ULE(bv(a), bv(b)), bv(a), bv(b))


def adv():
    def setup(e, st):
        e.ctx.p, e.ctx.n = view_setup(e, st, 'view')
        e.ctx.v = out_obj(e, st, 'view', 16)
        o = st.w(e.ctx.v)
        o.cells[0], o.cells[8] = (8, e.ctx.p), (8, e.ctx.n)
        return [Ptr(e.ctx.v), z3.BitVec('amount', 64)]

    def post(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'returns')
        k = umin_(z3.BitVec('amount', 64), c.n)
        d, n = e.load(st, Ptr(c.v), 8, True), e.load(st, Ptr(c.v, 8), 8)
        e.oblige(st, bv(n) == c.n - k, 'ensures: what is left of the view')
        e.oblige(st, bv(lz(d.off)) == bv(lz(c.p.off)) + k if d.obj == c.p.obj else False, 'ensures: the view advances by the amount, at most to its end')
    return setup, post


def maker(kind, es=1, count=0, pre=False):
    """view of a source: kind arr (count elements of size es), vec, str, sv, ptr, view"""
    def setup(e, st):
        c = e.ctx
        c.out = out_obj(e, st, 'result', 16)
        args = [Ptr(c.out)]
        if kind == "arr":
            oid = out_obj(e, st, 'array', es * count)
            c.src, c.n = Ptr(oid), es * count
            args.append(Ptr(oid))
        elif kind == "vec":
            k = z3.BitVec('elements', 64)
            st.assume(z3.ULT(k, 1 << 40))
            oid, n, s = in_bytes(e, st, 'elements', k * es)
            v = out_obj(e, st, 'vector', 24)
            o = st.w(v)
            end = Ptr(oid, lin(k * es))
            o.cells[0], o.cells[8], o.cells[16] = (8, Ptr(oid)), (8, end), (8, end)
            c.src, c.n = Ptr(oid), k * es
            args.append(Ptr(v))
        elif kind == "str":
            s = e.fresh_str(st, 'text')
            v = out_obj(e, st, 'string', 32)
            e.set_str(st, Ptr(v), s)
            c.src, c.n = e.strdata(Ptr(v)), s.len
            args.append(Ptr(v))
        elif kind == "sv":
            c.src, c.n = view_setup(e, st, 'text')
            args += [c.n, c.src]
        elif kind == "ptr":
            c.src, c.n = view_setup(e, st, 'memory')
            args += [c.src, c.n]
        else:
            c.src, c.n = view_setup(e, st, 'view')
            v = out_obj(e, st, 'view', 16)
            o = st.w(v)
            o.cells[0], o.cells[8] = (8, c.src), (8, c.n)
            args.append(Ptr(v))
        c.want = c.n
        if pre:
            k = z3.BitVec('wanted', 64)
            st.assume(z3.ULT(k, (1 << 64) // es if es > 1 else (1 << 64) - 1))
            args.append(k)
            c.want = umin_(c.n, k * es)
        return args

    def post(e, st, k, rv):
        e.oblige(st, k == 'return', 'returns')
        if k == 'return':
            holds(e, st, e.ctx.out, e.ctx.src, e.ctx.want, kind)
    return setup, post


def proofs(m):
    out = [Proof('MutableBuffer::operator+=', 'm_adv', *adv()), Proof('ConstBuffer::operator+=', 'c_adv', *adv())]

    def add(what, fn, *a, **k):
        out.append(Proof(what, fn, *maker(*a, **k)))
    add('Buffer(void*, size)', 'm_ptr', 'ptr')
    add('Buffer(const void*, size)', 'c_ptr', 'ptr')
    add('Buffer(MutableBuffer)', 'm_view', 'view')
    add('Buffer(ConstBuffer)', 'c_view', 'view')
    add('ConstBuffer(MutableBuffer)', 'c_m', 'view')
    add('Buffer(MutableBuffer, n)', 'm_viewn', 'view', pre=True)
    add('Buffer(ConstBuffer, n)', 'c_viewn', 'view', pre=True)
    for fn, what, a in [('a8', 'char[7]', ('arr', 1, 7)), ('a8c', 'const char[7]', ('arr', 1, 7)), ('a32', 'uint32_t[5]', ('arr', 4, 5)), ('a32c', 'const uint32_t[5]', ('arr', 4, 5)),
                        ('r8', 'array<char, 9>', ('arr', 1, 9)), ('r64', 'array<uint64_t, 3>', ('arr', 8, 3)), ('rc', 'array<const uint16_t, 6>', ('arr', 2, 6)), ('v8', 'vector<byte>', ('vec', 1)),
                        ('v8c', 'const vector<byte>', ('vec', 1)), ('v32', 'vector<uint32_t>', ('vec', 4)), ('v32c', 'const vector<uint32_t>', ('vec', 4)), ('s8', 'string', ('str',)), ('s8c', 'const string', ('str',)),
                        ('sv', 'string_view', ('sv',))]:
        add(f'Buffer({what})', fn, *a)
        add(f'Buffer({what}, n)', fn + '_n', *a, pre=True)
    return out
