"""P20: combined file systems are searched in declaration order.
Each provider is specified by: open(p) has any result (nothing, or any file); it may be called in any state.
Contract of Multi<F1 .. Fn>(root): every Fi is made from that root, once.
Contract of Multi<F1 .. Fn>::open(p):
 ensures  the providers are asked with the path p, F1, F2, .. in this order, each at most once, up to the first one that has a file and no later one;
          the result is that one's file - its kind, data, position, size, end mark, encoding and stream unchanged - and nothing exactly if all were asked and none has one.
Shown for one to four providers (the template is instantiated per list; the lists stand for all, each of the four providers answering arbitrarily)."""
from files import *

HARNESS = "embedded.cpp"
NATIVE = dict(src="p20.cpp")
SECONDS = 120
LISTS = {1: "A", 2: "AB", 3: "ABC", 4: "DBCA"}


def fields(k):
    return dict(kind=z3.BitVec(f'kind{k}', 32), words=z3.BitVec(f'words{k}', 64), at=z3.BitVec(f'at{k}', 64), size=z3.BitVec(f'size{k}', 64), eof=z3.BitVec(f'eof{k}', 8), stream=z3.BitVec(f'stream{k}', 64))


def opened(k):
    def h(e, st, a, name, ins):
        c = e.ctx
        has = z3.Bool('HAS_' + k)
        if not e.must(st, has) and not e.must(st, z3.Not(has)):
            e.fork_conds(st, [has, z3.Not(has)])
        asked = st.ghost["asked"]
        e.oblige(st, len(asked) < len(c.list) and c.list[len(asked)] == k, 'ensures: the providers are asked in their order')
        e.oblige(st, not any(e.must(st, z3.Bool('HAS_' + x)) for x in asked), 'ensures: no provider is asked after one that has the file')
        s = e.get_str(st, a[2])
        e.oblige(st, z3.And(bv(s.len) == bv(c.p.len), z3.Implies(z3.ULT(c.K, bv(s.len)), bv(s.at(c.K), 8) == bv(c.p.at(c.K), 8))), 'ensures: every provider is asked for the same path')
        st.ghost["asked"] = asked + (k,)
        out = e.to_ptr(st, a[0])
        if not e.must(st, has):
            e.store(st, out.add(c.engaged), 1, 0)
            return None
        f, L = fields(k), c.LF
        e.store(st, out.add(L["fileType"]), 4, f["kind"])
        e.store(st, out.add(L["data"]), 8, Ptr(c.data[k]))
        e.store(st, out.add(L["data"] + 8), 8, f["words"])
        e.store(st, out.add(L["readIndex"]), 8, f["at"])
        e.store(st, out.add(L["size"]), 8, f["size"])
        e.store(st, out.add(L["eofBit"]), 1, f["eof"] & 1)
        e.store(st, out.add(L["fstream"]), 8, f["stream"])
        e.set_str(st, out.add(L["encoding"]), c.enc[k])
        e.store(st, out.add(c.engaged), 1, 1)
        return None
    return h


def made(k):
    def h(e, st, a, name, ins):
        c = e.ctx
        s = e.get_str(st, a[1])
        e.oblige(st, z3.And(bv(s.len) == bv(c.p.len), z3.Implies(z3.ULT(c.K, bv(s.len)), bv(s.at(c.K), 8) == bv(c.p.at(c.K), 8))), 'ensures: every provider has the same root')
        st.ghost["asked"] = st.ghost["asked"] + (k,)
        return None
    return h


MODELS = merge(PATH, STREAM, {f"FS{k}::open": opened(k) for k in "ABCD"}, {f"FS{k}::FS{k}": made(k) for k in "ABCD"}, {f"FS{k}::~FS{k}": nothing for k in "ABCD"})


def setup(n):
    def f(e, st):
        c = e.ctx
        result(e, st)
        c.list = LISTS[n]
        c.K = z3.BitVec('K', 64)
        c.m = out_obj(e, st, 'combination', 16)
        c.p = e.fresh_str(st, 'path')
        c.arg = out_obj(e, st, 'argument', 64)
        e.set_str(st, Ptr(c.arg), c.p)
        c.enc = {k: e.fresh_str(st, 'encoding of ' + k) for k in c.list}
        c.data = {k: out_obj(e, st, 'data of ' + k, 64) for k in c.list}
        st.ghost["asked"] = ()
        return [Ptr(c.m), Ptr(c.arg), Ptr(c.out)]
    return f


def post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: open returns')
    if kind != 'return':
        return
    asked = st.ghost["asked"]
    got = engaged(e, st)
    if e.must(st, z3.Not(got)):
        e.oblige(st, "".join(asked) == c.list, 'ensures: nothing is found only after every provider was asked')
        e.oblige(st, z3.Not(z3.Or([z3.Bool('HAS_' + k) for k in c.list])), 'ensures: nothing is found only if no provider has the file')
        return
    if not e.must(st, got) or not asked:
        e.oblige(st, z3.Not(got), 'ensures: a file comes from a provider')
        return
    k = asked[-1]
    e.oblige(st, z3.Bool('HAS_' + k), 'ensures: the file is that of the first provider which has it')
    f = fields(k)
    e.oblige(st, bv(member(e, st, "fileType", 4), 32) == f["kind"], 'ensures: the file is returned unchanged (kind)')
    d = member(e, st, "data", isptr=True)
    d = e.to_ptr(st, d)
    e.oblige(st, d.obj == c.data[k] and z3.simplify(bv(d.off) == 0), 'ensures: the file is returned unchanged (data)')
    e.oblige(st, bv(e.load(st, Ptr(c.out, c.LF["data"] + 8), 8)) == f["words"], 'ensures: the file is returned unchanged (words)')
    e.oblige(st, bv(member(e, st, "readIndex")) == f["at"], 'ensures: the file is returned unchanged (position)')
    e.oblige(st, bv(member(e, st, "size")) == f["size"], 'ensures: the file is returned unchanged (size)')
    b = member(e, st, "eofBit", 1)
    e.oblige(st, bv(b, 8) & 1 == f["eof"] & 1, 'ensures: the file is returned unchanged (end mark)')
    e.oblige(st, bv(member(e, st, "fstream")) == f["stream"], 'ensures: the file is returned unchanged (stream)')
    s, w = e.get_str(st, Ptr(c.out, c.LF["encoding"])), c.enc[k]
    e.oblige(st, z3.And(bv(s.len) == bv(w.len), z3.Implies(z3.ULT(c.K, bv(w.len)), bv(s.at(c.K), 8) == bv(w.at(c.K), 8))), 'ensures: the file is returned unchanged (encoding)')


def ctor_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: the constructor returns')
    e.oblige(st, sorted(st.ghost["asked"]) == sorted(c.list), 'ensures: every provider is made once')


def proofs(m):
    return [Proof(f'Multi<{", ".join(LISTS[n])}>::open', f'm_open{n}', setup(n), post, models=MODELS) for n in LISTS] + [
        Proof(f'Multi<{", ".join(LISTS[n])}>(root)', f'm_ctor{n}', lambda e, st, n=n: setup(n)(e, st)[:2], ctor_post, models=MODELS) for n in (3, 4)]
