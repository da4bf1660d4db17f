"""P32: embedded file systems serve exactly the names they contain.
The published files of each embedded file system - name, encoding, size and content (as a digest of the stored bytes) - are listed in PUBLISHED.
Contract of FS::open(p) for every path p, where r is the relative path of p (its text without leading slashes; p has no run of slashes elsewhere):
 ensures  a file is returned exactly if r is a published name of the file system;  it is then the one published under that name: static data of the declared size and encoding, read from its
          start, not at its end (unless empty), over at least ceil(size / 8) words which all lie in the embedded array and hold the published bytes.
With P19, reading it delivers exactly these bytes."""
import hashlib
from files import *

HARNESS = "embedded.cpp"
NATIVE = dict(src="p32.cpp")
SECONDS = 120
PUBLISHED = {
    "index": {
        "index.html": ("br", 69, "e0deaa5926e892221f1749414a86d6a423b17023ccee6ac9783e730bef757eb2"),
        "favicon.ico": ("br", 528, "b970114bb2192267f94998b38c90593bedd66b7bb1825f8d87af17c27f4e8ae5"),
        "WebFront.js": ("gzip", 3501, "0be246cc67ce37c47da93ce050f86d5b8837bde1cdd943d62662245464084800"),
    },
    "react": {
        "react@18/umd/react.production.min.js": ("br", 3761, "0e37dfa9eb2f7a7a8f8e702c2bd8c7cff2f9c9c00b8e9f565d398d9163997a30"),
        "react-dom@18/umd/react-dom.production.min.js": ("br", 37235, "572e1f839854e99399f66890cb81f4c0e2890f50bd806f7f60bdb60199fa8db6"),
    },
    "babel": {
        "babel-standalone@7.22.5/babel.min.js": ("br", 398150, "f3a7a50743cdd2c99441640a689956333fa8d3bea6bfbd305de137dcc84f80e2"),
    },
    "jasmine": {
        "jasmine/4.6.0/jasmine_favicon.png": ("br", 1162, "d5d55d10471711b6169edd7d8b544633a7fa5b5a27885428213c5ba29a5caed3"),
        "jasmine/4.6.0/jasmine.css": ("br", 6409, "3dac17c85cedbd3ffb4ee0ed46259645e8c1bdb4b895a4a7afacb79db6d2c60b"),
        "jasmine/4.6.0/jasmine.js": ("br", 50056, "152521f271470758354cf13cc0ad581ccb992f72b36f0c837d11396edd09f5a0"),
        "jasmine/4.6.0/jasmine-html.js": ("br", 5166, "99d3a7ccd5acd1b88411b7e5162be68230f73b2121866eb4a89cb32016b398f8"),
        "jasmine/4.6.0/boot0.js": ("br", 990, "2ae64e1f0dc591ad89d227cbb9755c0e1f553681bde4aade3b1645235a4ce97e"),
        "jasmine/4.6.0/boot1.js": ("br", 1475, "0fce324f5ddf1ca4ff5a3441d908fb55136387e1d76a3aec41aa29964c7bc485"),
    },
}


def slashes(L):
    return StrVal(L, AConst(ord("/")))


def relative(e, st, a, name, ins):
    c = e.ctx
    s = e.get_str(st, a[1])
    if not e.must(st, z3.And(bv(s.len) == bv(c.p.len), z3.Implies(z3.ULT(c.K, bv(s.len)), bv(s.at(c.K), 8) == bv(c.p.at(c.K), 8)))):
        raise ToolLimit("relative path of another path")
    e.set_str(st, a[0], c.r)
    return None


MODELS = {**merge(PATH, STREAM), "std::filesystem::path::relative_path": relative}


def setup(e, st):
    c = e.ctx
    result(e, st)
    c.K = z3.BitVec('K', 64)
    c.lead = z3.BitVec('leading', 64)
    st.assume(z3.ULT(c.lead, 1 << 40))
    c.r = e.fresh_str(st, 'relative')
    st.assume(z3.ULT(bv(c.r.len), 1 << 40))
    st.assume(z3.Implies(bv(c.r.len) != 0, bv(c.r.at(0), 8) != ord("/")))
    c.p = concat(slashes(c.lead), c.r)
    c.arg = out_obj(e, st, 'argument', 64)
    e.set_str(st, Ptr(c.arg), c.p)
    return [Ptr(c.arg), Ptr(c.out)]


def post(names):
    def f(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'ensures: open returns')
        if kind != 'return':
            return
        got = engaged(e, st)
        if e.must(st, z3.Not(got)):
            for n in names:
                e.oblige(st, z3.Not(text_is(c.r, n)), f'ensures: {n} is served')
            return
        e.oblige(st, z3.Implies(got, z3.Or([text_is(c.r, n) for n in names])), 'ensures: no other name is served')
        here = [n for n in names if e.must(st, text_is(c.r, n))]
        e.oblige(st, len(here) == 1, 'ensures: a file is returned for its own name')
        if not here:
            return
        enc, size, digest = names[here[0]]
        what = f'ensures: {here[0]} '
        e.oblige(st, bv(member(e, st, "fileType", 4), 32) == 1, what + 'is embedded data')
        e.oblige(st, bv(member(e, st, "size")) == size, what + 'has its size')
        e.oblige(st, bv(member(e, st, "readIndex")) == 0, what + 'is read from its start')
        e.oblige(st, bv(member(e, st, "eofBit", 1), 8) & 1 == (size == 0), what + 'is not at its end')
        e.oblige(st, text_is(e.get_str(st, Ptr(c.out, c.LF["encoding"])), enc), what + 'has its encoding')
        d = e.to_ptr(st, member(e, st, "data", isptr=True))
        n = e.load(st, Ptr(c.out, c.LF["data"] + 8), 8)
        n = n if type(n) is int else int(str(z3.simplify(n)))
        e.oblige(st, n * 8 >= size, what + 'has enough stored words')
        raw = b"".join(int(e.load(st, d.add(8 * k), 8)).to_bytes(8, "big") for k in range(n))
        e.oblige(st, hashlib.sha256(raw[:size]).hexdigest() == digest, what + 'has the published bytes')
    return f


def proofs(m):
    return [Proof(f'{k.capitalize()}FS::open', 'e_' + k, setup, post(v), models=MODELS) for k, v in PUBLISHED.items()]
