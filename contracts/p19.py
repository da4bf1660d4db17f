"""P19: embedded files are read back exactly, whatever the buffer sizes.
Class invariant of a File over static data of `size` bytes: readIndex <= size, eof <=> readIndex == size, size <= 8 * words.
Contract of File::read(buffer of n bytes), from any state satisfying the invariant (i.e. after any sequence of earlier reads):
 ensures  result r = min(n, size - readIndex); buffer[k] = byte readIndex + k of the file for k < r, the rest of the buffer is unchanged;
          readIndex' = readIndex + r; the invariant holds again.  Every word read lies in the stored data.
Byte b of the file is bits 63-8*(b%8) .. of word b/8 (big-endian words).
Contract of the constructor: the invariant holds with readIndex = 0, for every size <= 8 * words and every encoding name."""
from common import *

HARNESS = "file.cpp"
NATIVE = dict(src="p19.cpp")
FILE = "webfront::fs::File"


def nop(e, st, a, name, ins):
    return None


MODELS = {"std::basic_ifstream::basic_ifstream": nop, "std::basic_ifstream::~basic_ifstream": nop, "std::ifstream::basic_ifstream": nop, "std::ifstream::~basic_ifstream": nop}


def file_byte(mem, b):
    """byte b of the file stored in the words at mem"""
    b = bv(b)
    return bv(mem.at((b & ~bv(7)) + (bv(7) - (b & bv(7)))), 8)


def stored(e, st):
    c = e.ctx
    c.words = z3.BitVec('words', 64)
    st.assume(z3.ULT(c.words, 1 << 40))
    c.mem_id, _, c.mem = in_bytes(e, st, 'data', c.words * 8)
    c.size = z3.BitVec('size', 64)
    st.assume(z3.ULE(c.size, c.words * 8))
    c.L = layout(e, FILE, "fileType", "data", "readIndex", "size", "eofBit", "encoding")


def state(e, st):
    c = e.ctx
    stored(e, st)
    c.f = out_obj(e, st, 'file', record_size(e, FILE))
    o = st.w(c.f)
    L = c.L
    c.pos = z3.BitVec('delivered', 64)
    st.assume(z3.ULE(c.pos, c.size))
    o.cells[L["fileType"]] = (4, 1)
    o.cells[L["data"]] = (8, Ptr(c.mem_id))
    o.cells[L["data"] + 8] = (8, c.words)
    o.cells[L["readIndex"]], o.cells[L["size"]] = (8, c.pos), (8, c.size)
    o.cells[L["eofBit"]] = (1, z3.If(c.pos == c.size, bv(1, 8), bv(0, 8)))
    c.enc = e.fresh_str(st, 'encoding')
    e.set_str(st, Ptr(c.f, L["encoding"]), c.enc)


def invariant(e, st, pos):
    c, L = e.ctx, e.ctx.L

    def g(n, w=8):
        return bv(e.load(st, Ptr(c.f, L[n]), w), 8 * w)
    e.oblige(st, g("readIndex") == bv(pos), 'ensures: the read position counts the delivered bytes')
    e.oblige(st, g("size") == bv(c.size), 'invariant: the size of the file')
    e.oblige(st, (g("eofBit", 1) != 0) == (bv(pos) == bv(c.size)), 'invariant: the end is reported exactly when every byte was delivered')
    e.oblige(st, bv(e.load(st, Ptr(c.f, L["data"] + 8), 8)) == c.words, 'invariant: the stored words')
    d = e.load(st, Ptr(c.f, L["data"]), 8, True)
    e.oblige(st, bv(lz(d.off)) == 0 if isinstance(d, Ptr) and d.obj == c.mem_id else c.words == 0, 'invariant: the stored data')


def read_setup(e, st):
    c = e.ctx
    state(e, st)
    c.n = z3.BitVec('n', 64)
    st.assume(z3.ULT(c.n, 1 << 40))
    c.buf = out_obj(e, st, 'buffer', c.n)
    c.old = ABase(z3.Array('old', z3.BitVecSort(64), z3.BitVecSort(8)))
    st.w(c.buf).segs.append(Seg(0, c.n, c.old))
    c.K = z3.BitVec('K', 64)
    return [Ptr(c.f), Ptr(c.buf), c.n]


def word(c, r, swap):
    """the stored word which holds byte r of the file, as an integer whose bytes in memory are those of the file (swap) or as stored"""
    b = [bv(c.mem.at((r & ~bv(7)) + j), 8) for j in range(8)]
    return z3.Concat(*(b if swap else reversed(b)))


def cand(e, cut, S):
    c = e.ctx

    def pos(v):
        return bv(e.load(v.st, Ptr(c.f, c.L["readIndex"]), 8))
    for l, i in cut.infos.items():
        if i.kind == 'int' and l[0] == 'cell' and l[1:3] == (c.f, c.L["eofBit"]):
            yield 'eof', lambda v, l=l: (bv(v.val(l), 8) != 0) == (pos(v) == c.size)
    yield 'inside', lambda v: z3.ULE(pos(v), c.size)
    yield 'inside', lambda v: z3.ULT(pos(v), c.size)
    for l in ints(cut):
        yield 'pos', lambda v, l=l: bv(v.int(l)) + c.pos == pos(v)
        yield 'out', lambda v, l=l: z3.Implies(z3.ULT(c.K, bv(v.int(l))), buf(e, v.st, c.K) == file_byte(c.mem, c.pos + c.K))
        yield 'old', lambda v, l=l: z3.Implies(z3.UGE(c.K, bv(v.int(l))), buf(e, v.st, c.K) == bv(c.old.sel(c.K), 8))
        for swap in (True, False):
            yield 'chunk', lambda v, l=l, swap=swap: z3.Implies(z3.And(pos(v) != c.pos, pos(v) & 7 != 0), bv(v.int(l)) == word(c, pos(v), swap))
    yield 'out', lambda v: z3.Implies(z3.ULT(c.K, pos(v) - c.pos), buf(e, v.st, c.K) == file_byte(c.mem, c.pos + c.K))
    yield 'old', lambda v: z3.Implies(z3.UGE(c.K, pos(v) - c.pos), buf(e, v.st, c.K) == bv(c.old.sel(c.K), 8))


def buf(e, st, k):
    o = st.objs[e.ctx.buf]
    return bv(o.segs[0].arr.sel(k), 8)


def read_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'read returns')
    if kind != 'return':
        return
    r = z3.If(z3.ULE(c.n, c.size - c.pos), c.n, c.size - c.pos)
    e.oblige(st, bv(rv) == r, 'ensures: the read fills the buffer or reaches the end')
    e.oblige(st, z3.Implies(z3.ULT(c.K, r), buf(e, st, c.K) == file_byte(c.mem, c.pos + c.K)), 'ensures: the next bytes of the file, in order')
    e.oblige(st, z3.Implies(z3.And(z3.ULT(c.K, c.n), z3.UGE(c.K, r)), buf(e, st, c.K) == bv(c.old.sel(c.K), 8)), 'frame: the rest of the buffer')
    invariant(e, st, c.pos + r)


def ctor_setup(e, st):
    c = e.ctx
    stored(e, st)
    c.pos = 0
    c.f = out_obj(e, st, 'file', record_size(e, FILE))
    oid, n, c.enc = in_bytes(e, st, 'encoding')
    return [Ptr(c.f), Ptr(c.mem_id), c.words, c.size, n, Ptr(oid)]


def ctor_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'the constructor returns')
    if kind == 'return':
        invariant(e, st, bv(0))
        s = e.get_str(st, Ptr(c.f, c.L["encoding"]))
        K = z3.BitVec('K', 64)
        e.oblige(st, z3.And(bv(s.len) == bv(c.enc.len), z3.Implies(z3.ULT(K, bv(s.len)), bv(s.at(K), 8) == bv(c.enc.at(K), 8))), 'ensures: the encoding of the file')


def get_setup(e, st):
    state(e, st)
    return [Ptr(e.ctx.f)]


def eof_post(e, st, kind, rv):
    e.oblige(st, (bv(rv, 32) != 0) == (e.ctx.pos == e.ctx.size), 'ensures: eof exactly when every byte was delivered')


def isenc_post(e, st, kind, rv):
    e.oblige(st, (bv(rv, 32) != 0) == (bv(e.ctx.enc.len) != 0), 'ensures: encoded exactly when an encoding is named')


def enc_setup(e, st):
    state(e, st)
    e.ctx.o = out_obj(e, st, 'view', 16)
    return [Ptr(e.ctx.f), Ptr(e.ctx.o)]


def enc_post(e, st, kind, rv):
    s, t = view_at(e, st, Ptr(e.ctx.o)), e.ctx.enc
    K = z3.BitVec('K', 64)
    e.oblige(st, z3.And(bv(s.len) == bv(t.len), z3.Implies(z3.ULT(K, bv(s.len)), bv(s.at(K), 8) == bv(t.at(K), 8))), 'ensures: the encoding of the file')


def proofs(m):
    return [Proof('File::File', 'f_ctor', ctor_setup, ctor_post, models=MODELS),
            Proof('File::read', 'f_read', read_setup, read_post, cand=[cand]),
            Proof('File::eof', 'f_eof', get_setup, eof_post),
            Proof('File::isEncoded', 'f_isenc', get_setup, isenc_post),
            Proof('File::getEncoding', 'f_enc', enc_setup, enc_post)]
