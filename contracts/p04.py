"""P04: SHA-1 equals FIPS 180-4 for every message.
For a message of n bytes, T = 64 * ((n + 8) / 64 + 1) is the length of the padded message and P(k) its byte k (message, 0x80, zeros, bit length big-endian).
H_x(j) is word x of the hash value after the first j blocks of P: H(0) is the initial value of the standard and H(j + 1) = compress(H(j), P(64 j .. 64 j + 63)).
sha1's local function next(byte), called when c bytes have been hashed (INV(c)): index = c mod 64, block[k] = P(64 (c / 64) + k) for k < index, digest = H(c / 64), count = c
   requires  INV(c)  and  byte = P(c)        ensures  INV(c + 1)
sha1(message)        ensures  next was called for c = 0 .. T - 1, so the digest is H(T / 64)
sha1String(message)  ensures  40 characters, character 8 x + k is the hexadecimal digit of bits 31 - 4 k .. 28 - 4 k of word x
The compression is decided by merging: the terms which the code computes are matched with the W_t, A_t, rotl30(A_t) of the standard, and every match is a separate proof over the earlier ones."""
import random, time
from common import *

HARNESS = "enc.cpp"
NATIVE = dict(src="p04.cpp")
ASSUMPTIONS = ["the message is shorter than 2^47 bytes (FIPS 180-4 allows fewer than 2^61)"]
SHA = "webfront::crypto::sha1"
IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0)
B64 = z3.BitVecSort(64)
HX = [z3.Function(f'H{x}', B64, z3.BitVecSort(32)) for x in range(5)]
INV = z3.Function('INV', z3.ArraySort(B64, z3.BitVecSort(8)), B64, z3.BoolSort())


# ---------------------------------------------------------------- the shape of sha1: its byte consumer and what it captures
def find(m):
    """(sha1, the local function that consumes a byte, {role: (offset in the closure, size)})"""
    def of(qual):
        return [n for n in m.raw if qual(m.demangled(n))]
    top = of(lambda d: d.startswith(SHA + "("))
    top = [n for n in top if "lambda" not in m.demangled(n)]
    if len(top) != 1:
        raise ToolLimit("sha1 has another shape: no single function")
    f = m.fn(top[0])
    called = {i[4][1] for b in f.blocks for i in b if i[0] in ("call", "invoke") and isinstance(i[4], list) and i[4][0] == 'g' and "sha1" in i[4][1] and len(i[5]) == 2}
    if len(called) != 1:
        raise ToolLimit("sha1 has another shape: no single function that consumes a byte")
    size, field, stored, cmp56 = {}, {}, {}, set()
    loads = {}
    for b in f.blocks:
        for i in b:
            if i[0] == "alloca":
                size[i[1]] = m.size(i[4])
            if i[0] == "getelementptr" and isinstance(i[4], int) and isinstance(i[5], int) and not i[6]:
                field[i[1]] = (i[4], i[5])
            if i[0] == "store":
                stored[i[4] if isinstance(i[4], int) else None] = i[5]
            if i[0] == "load":
                loads[i[1]] = i[4]
            if i[0] == "icmp" and any(isinstance(x, list) and x[0] == 'i' and x[2] == "56" for x in i[4:]):
                cmp56 |= {loads[x] for x in i[5:] if isinstance(x, int) and x in loads}
    clo = {i[5][0] for b in f.blocks for i in b if i[0] in ("call", "invoke") and isinstance(i[4], list) and i[4][0] == 'g' and i[4][1] in called}
    if len(clo) != 1 or len(cmp56) != 1:
        raise ToolLimit("sha1 has another shape")
    clo = clo.pop()
    roles = {}
    for g, (base, off) in field.items():
        if base == clo and g in stored:
            v = stored[g]
            sz = 20 if v == f.sret or v == 0 else size.get(v)
            role = {20: "digest", 256: "block", 64: "block", 8: "index" if v in cmp56 else "count"}.get(sz)
            if role is None or role in roles:
                raise ToolLimit("sha1 has another shape: captures")
            roles[role] = (off, sz)
    if not {"digest", "block", "index"} <= set(roles):
        raise ToolLimit("sha1 has another shape: captures")
    return top[0], called.pop(), roles, {l.key for l in f.loops if any(i[0] == "load" and i[4] in cmp56 for k in l.blocks for i in f.blocks[k])}


def captured(e, st, closure):
    return {r: e.load(st, closure.add(off), 8, True) for r, (off, _) in e.ctx.roles.items()}


# ---------------------------------------------------------------- next(): one byte
K = (0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6)


def rotl(x, k):
    return z3.RotateLeft(x, k) if z3.is_expr(x) else (x << k | x >> (32 - k)) & 0xffffffff


def step_setup(last):
    def f(e, st):
        c = e.ctx
        _, _, c.roles, _ = find(e.m)
        c.es = c.roles["block"][1] // 64
        c.block, c.digest = out_obj(e, st, 'block', 64 * c.es), out_obj(e, st, 'digest', 20)
        c.index, c.count = out_obj(e, st, 'index', 8), out_obj(e, st, 'count', 8)
        clo = out_obj(e, st, 'closure', 8 * len(c.roles))
        objs = dict(block=c.block, digest=c.digest, index=c.index, count=c.count)
        for r, (off, _) in c.roles.items():
            st.w(clo).cells[off] = (8, Ptr(objs[r]))
        c.c = z3.BitVec('c', 64)
        c.j = z3.BitVec('j', 64)
        st.assume(z3.ULT(c.c, 1 << 60))
        c.byte = z3.BitVec('p63' if last else 'byte', 8)
        c.h = [z3.BitVec(f'h{x}', 32) for x in range(5)]
        for x in range(5):
            st.w(c.digest).cells[4 * x] = (4, c.h[x])
        if last:
            st.assume(c.c == 64 * c.j + 63)
            st.assume(z3.ULT(c.j, 1 << 54))
            c.p = [z3.BitVec(f'p{k}', 8) for k in range(64)]
            c.i = 63
            c.was = [c.p[k] if c.es == 1 else z3.ZeroExt(8 * c.es - 8, c.p[k]) for k in range(63)] + [z3.BitVec('stale', 8 * c.es)]
        else:
            c.i = z3.BitVec('i', 64)
            st.assume(z3.And(z3.ULT(c.i, 63), c.i == c.c & 63))
            c.was = [z3.BitVec(f'b{k}', 8 * c.es) for k in range(64)]
        for k in range(64):
            st.w(c.block).cells[k * c.es] = (c.es, c.was[k])
        st.w(c.index).cells[0] = (8, c.i)
        st.w(c.count).cells[0] = (8, c.c)
        return [Ptr(clo), c.byte]
    return f


def step_post(last):
    def f(e, st, kind, rv):
        c = e.ctx
        e.oblige(st, kind == 'return', 'next returns')
        if kind != 'return':
            return
        e.oblige(st, bv(e.load(st, Ptr(c.index), 8)) == (c.c + 1) & 63, 'ensures: the index is the number of bytes mod 64')
        if "count" in c.roles:
            e.oblige(st, bv(e.load(st, Ptr(c.count), 8)) == c.c + 1, 'ensures: the byte is counted')
        got = [bv(e.load(st, Ptr(c.digest, 4 * x), 4), 32) for x in range(5)]
        if last:
            compression(e, st, got)
            return
        for x in range(5):
            e.oblige(st, got[x] == c.h[x], 'ensures: the digest changes only with full blocks')
        for k in range(63):
            w = bv(e.load(st, Ptr(c.block, k * c.es), c.es), 8 * c.es)
            new = c.byte if c.es == 1 else z3.ZeroExt(8 * c.es - 8, c.byte)
            e.oblige(st, z3.And(z3.Implies(z3.ULT(bv(k), c.i), w == c.was[k]), z3.Implies(c.i == k, w == new)), 'ensures: the byte is appended to the block')
    return f


# ---------------------------------------------------------------- the compression function
def fips(h, words, op):
    """FIPS 180-4, 6.1.2: yields ('W' or 'A' or 'R', t, definition); the consumer sends back what later definitions use"""
    w = []
    for t in range(80):
        d = words[t] if t < 16 else op["rot"](w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1)
        w.append((yield 'W', t, d))
    a, b, c, d, e = h
    for t in range(80):
        f = (b & c) ^ (~b & d) if t < 20 else b ^ c ^ d if t < 40 else (b & c) ^ (b & d) ^ (c & d) if t < 60 else b ^ c ^ d
        x = op["mask"](op["rot"](a, 5) + f + e + K[t // 20] + w[t])
        n = yield 'A', t, x
        r = yield 'R', t, op["rot"](b, 30)
        a, b, c, d, e = n, a, r, c, d
    for x, (old, new) in enumerate(zip(h, (a, b, c, d, e))):
        yield 'H', x, op["mask"](old + new)


def run_fips(h, words, op, pick=None):
    g = fips(h, words, op)
    out = []
    try:
        k, t, d = next(g)
        while True:
            v = pick(k, t, d) if pick else d
            out.append((k, t, v))
            k, t, d = g.send(v)
    except StopIteration:
        return out


CONC = dict(rot=rotl, mask=lambda x: x & 0xffffffff)
SYMB = dict(rot=rotl, mask=lambda x: x)


def evaluate(terms, env):
    """values of all sub-terms under the assignment env (ast id of constant -> int)"""
    val = {}
    M = lambda w: (1 << w) - 1
    todo = list(terms)
    while todo:
        t = todo[-1]
        i = t.get_id()
        if i in val:
            todo.pop()
            continue
        ch = t.children()
        miss = [x for x in ch if x.get_id() not in val]
        if miss:
            todo += miss
            continue
        todo.pop()
        a = [val[x.get_id()] for x in ch]
        k = t.decl().kind()
        w = t.size() if z3.is_bv(t) else 1
        if z3.is_bv_value(t):
            v = t.as_long()
        elif z3.is_true(t) or z3.is_false(t):
            v = int(z3.is_true(t))
        elif not ch:
            v = env.get(i, 0)
        elif k == z3.Z3_OP_BADD:
            v = sum(a) & M(w)
        elif k == z3.Z3_OP_BSUB:
            v = (a[0] - sum(a[1:])) & M(w)
        elif k == z3.Z3_OP_BMUL:
            v = 1
            for x in a:
                v = v * x & M(w)
        elif k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND):
            v = a[0]
            for x in a[1:]:
                v = v ^ x if k == z3.Z3_OP_BXOR else v | x if k == z3.Z3_OP_BOR else v & x
        elif k == z3.Z3_OP_BNOT:
            v = ~a[0] & M(w)
        elif k == z3.Z3_OP_BNEG:
            v = -a[0] & M(w)
        elif k == z3.Z3_OP_BSHL:
            v = a[0] << a[1] & M(w) if a[1] < w else 0
        elif k == z3.Z3_OP_BLSHR:
            v = a[0] >> a[1] if a[1] < w else 0
        elif k == z3.Z3_OP_CONCAT:
            v = 0
            for x, y in zip(ch, a):
                v = v << x.size() | y
        elif k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            v = a[0] >> lo & M(hi - lo + 1)
        elif k == z3.Z3_OP_ZERO_EXT:
            v = a[0]
        elif k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT):
            s = t.params()[0] % w
            s = s if k == z3.Z3_OP_ROTATE_LEFT else (w - s) % w
            v = (a[0] << s | a[0] >> (w - s)) & M(w)
        else:
            x = z3.simplify(z3.substitute(t, *[(y, z3.BitVecVal(z, y.size()) if z3.is_bv(y) else z3.BoolVal(bool(z))) for y, z in zip(ch, a)]))
            v = x.as_long() if z3.is_bv_value(x) else int(z3.is_true(x)) if z3.is_true(x) or z3.is_false(x) else 0
        val[i] = v
    return val


def sample(e, st, leaves, named, env):
    """an assignment which satisfies the path condition: env if it does, otherwise a model"""
    pc, p = [], st.pc
    while p:
        pc.append(p[1])
        p = p[0]
    val = evaluate(pc, env)
    names = {x.get_id() for x, _ in named}
    used, todo, seen = [], list(pc), set()
    other = False
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in names:
            used.append(e.named[t.get_id()])
            todo.append(used[-1][1])
        todo += t.children()
    if all(val[t.get_id()] for t in pc if seen_leaf(t, env)):
        return env
    s = z3.Solver()
    s.set("timeout", 20000)
    for t in pc:
        s.add(t)
    for x, d in used:
        s.add(x == d)
    if s.check() != z3.sat:
        raise ToolLimit("no sample of this path")
    m = s.model()
    out = dict(env)
    for l in leaves:
        v = m.eval(l)
        if z3.is_bv_value(v):
            out[l.get_id()] = v.as_long()
    for x, d in named:
        out[x.get_id()] = evaluate([d], out)[d.get_id()]
    return out


def seen_leaf(t, env):
    """does the condition speak about sampled values?"""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.get_id() in env:
            return True
        todo += y.children()
    return False


def redo(spec, c, env):
    byte = [env[x.get_id()] for x in c.p]
    words = [byte[4 * k] << 24 | byte[4 * k + 1] << 16 | byte[4 * k + 2] << 8 | byte[4 * k + 3] for k in range(16)]
    for k, t, v in run_fips([env[x.get_id()] for x in c.h], words, CONC):
        spec.setdefault((k, t), []).append(v)


def compression(e, st, got):
    """every word of the digest after the block equals that of the standard"""
    c = e.ctx
    rnd = random.Random(4)
    leaves = c.p + c.h
    named = list(e.named.values())              # (name, definition) in the order of computation
    sig, spec = {}, {}
    for n in range(3):
        env = {x.get_id(): rnd.getrandbits(x.size()) for x in leaves}
        for x, d in named:
            env[x.get_id()] = evaluate([d], env)[d.get_id()]
        if n == 0:
            env = sample(e, st, leaves, named, env)     # one that takes this path
        redo(spec, c, env)
        for x, d in named:
            sig.setdefault(x.get_id(), []).append(env[x.get_id()])
        val = evaluate(got, env)
        for x in range(5):
            if n == 0 and val[got[x].get_id()] != spec[('H', x)][-1]:
                # a concrete block on which the code disagrees with the standard
                st2 = st.clone()
                for l in leaves + [y for y, _ in named]:
                    st2.assume(l == env[l.get_id()])
                if e.feasible(st2):
                    e.oblige(st2, got[x] == spec[('H', x)][-1], 'ensures: the digest after the block is that of FIPS 180-4')
                    return
                raise ToolLimit("no sample of this path")
    by = {}
    for x, d in named:
        by.setdefault(tuple(sig[x.get_id()]), []).append(x)
    merged, full = {}, {}

    def expand(t):
        """t over merged values and inputs"""
        subs, todo, seen = [], [t], set()
        while todo:
            y = todo.pop()
            i = y.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in merged:
                subs.append((y, merged[i]))
            elif i in e.named:
                if i not in full:
                    full[i] = expand(e.named[i][1])
                subs.append((y, full[i]))
            else:
                todo += y.children()
        return z3.substitute(t, *subs) if subs else t

    count = [0]
    equal = []

    def pick(k, t, d):
        hits = by.get(tuple(spec[(k, t)]), []) if k != 'H' else [got[t]]
        sym = z3.BitVec(f'{k}{t}', 32)
        ok = False
        for x in hits:
            full.clear()
            s = z3.Solver()
            s.set("timeout", 8000)
            s.add(expand(e.named[x.get_id()][1] if x.get_id() in e.named else x) != d)
            e.stats["queries"] = e.stats.get("queries", 0) + 1
            t0 = time.time()
            good = s.check() == z3.unsat
            e.stats["time"] = e.stats.get("time", 0) + time.time() - t0
            if good:
                e.stats["obl"] += 1
            if good and k != 'H':
                merged[x.get_id()] = sym
            ok = ok or good
        if k == 'H':
            equal.append(ok)
            return d
        count[0] += ok
        return sym if ok else d

    run_fips(list(c.h), [z3.Concat(*c.p[4 * k:4 * k + 4]) for k in range(16)], SYMB, pick)
    if e.verbose:
        print("merged", count[0], "of 240; digest words", equal)
    for x in range(5):
        if not equal[x]:
            raise ToolLimit("the values of the compression could not be matched with those of the standard")
        e.oblige(st, True, 'ensures: the digest after the block is that of FIPS 180-4')


# ---------------------------------------------------------------- sha1
def total(c):
    return (z3.LShR(bv(c.n) + 8, 6) + 1) << 6


def P(c, k):
    """byte k of the padded message"""
    n, T = bv(c.n), total(c)
    return z3.If(z3.ULT(k, n), bv(c.s.at(k), 8), z3.If(k == n, z3.BitVecVal(0x80, 8), z3.If(z3.ULT(k, T - 8), z3.BitVecVal(0, 8), z3.Extract(7, 0, z3.LShR(8 * n, 8 * (T - 1 - k))))))


def invariant(e, st, objs):
    """the parts of INV(c), c the number of bytes consumed so far"""
    c = e.ctx
    n = bv(st.ghost["c"])
    out = [bv(e.load(st, Ptr(objs["index"]), 8)) == n & 63]
    if "count" in objs:
        out.append(bv(e.load(st, Ptr(objs["count"]), 8)) == n)
    out += [bv(e.load(st, Ptr(objs["digest"], 4 * x), 4), 32) == HX[x](z3.LShR(n, 6)) for x in range(5)]
    b = e.region(st, Ptr(objs["block"]), c.roles["block"][1]).arr
    while isinstance(b, AShift_) and type(b.k) is int and b.k == 0:
        b = b.p
    out.append(z3.Or(n == 0, INV(b.a, n)) if isinstance(b, ABase) else n == 0)
    return [z3.simplify(x) for x in out]


from irv.val import AShift as AShift_
WHAT = ["the index", "the digest", "the block"]


def next_call(e, st, a, name, ins):
    """contract of next"""
    c = e.ctx
    cap = captured(e, st, e.to_ptr(st, a[0]))
    if any(type(p.off) is not int or p.off for p in cap.values()):
        raise ToolLimit("captures inside other objects")
    c.objs = objs = {r: p.obj for r, p in cap.items()}
    n = bv(st.ghost["c"])
    for f in invariant(e, st, objs):
        e.oblige(st, f, 'requires: the state after the bytes consumed so far')
    e.oblige(st, z3.ULT(n, total(c)), 'ensures: no byte after the padded message')
    e.oblige(st, bv(a[1], 8) == P(c, n), 'ensures: the bytes of the padded message in order')
    n1 = z3.simplify(n + 1)
    st.ghost["c"] = n1
    e.store(st, Ptr(objs["index"]), 8, z3.simplify(n1 & 63))
    if "count" in objs:
        e.store(st, Ptr(objs["count"]), 8, n1)
    for x in range(5):
        e.store(st, Ptr(objs["digest"], 4 * x), 4, HX[x](z3.LShR(n1, 6)))
    size = c.roles["block"][1]
    o = st.w(objs["block"])
    arr = e.fresh_arr("block")
    o.cells, o.segs = {}, [Seg_(0, size, arr)]
    st.assume(INV(arr.a, n1))
    return None


from irv.engine import Seg as Seg_


def sha_setup(e, st):
    c = e.ctx
    _, _, c.roles, _ = find(e.m)
    c.objs = None
    oid, c.n, c.s = in_bytes(e, st, 's', lim=1 << 47)
    c.out = out_obj(e, st, 'digest', 20)
    st.ghost["c"] = bv(0)
    for x in range(5):
        st.assume(HX[x](bv(0)) == IV[x])
    return [Ptr(c.out), c.n, Ptr(oid)]


def sha_cand(e, cut, S):
    c = e.ctx
    g = lambda v: bv(v.st.ghost["c"])
    n, T = bv(c.n), total(c)
    for k in range(8):
        def part(v, k=k):
            if c.objs is None:
                return z3.BoolVal(True)
            p = invariant(e, v.st, c.objs)
            return p[k] if k < len(p) else z3.BoolVal(True)
        yield 'inv', part
    for b in (n, n + 1, T - 64, T - 8, T):
        yield 'le', lambda v, b=b: z3.ULE(g(v), b)
        yield 'ge', lambda v, b=b: z3.UGE(g(v), b)
    yield 'blk', lambda v: z3.LShR(g(v), 6) == z3.LShR(n + 1, 6)
    for l in ints(cut):
        yield 'pos', lambda v, l=l: g(v) == bv(v.int(l))
        yield 'pos', lambda v, l=l: g(v) == T - 8 + bv(v.int(l))


def sha_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'sha1 returns')
    if kind != 'return':
        return
    e.oblige(st, bv(st.ghost["c"]) == total(c), 'ensures: the whole padded message is consumed')
    for x in range(5):
        e.oblige(st, bv(e.load(st, Ptr(c.out, 4 * x), 4), 32) == HX[x](z3.LShR(total(c), 6)), 'ensures: the digest is the hash value after the last block')


# ---------------------------------------------------------------- sha1String
def text_setup(e, st):
    c = e.ctx
    oid, c.n, c.s = in_bytes(e, st, 's', lim=1 << 47)
    c.src = oid
    c.d = [z3.BitVec(f'digest{x}', 32) for x in range(5)]
    c.out = out_obj(e, st, 'result', 32)
    return [Ptr(c.out), c.n, Ptr(oid)]


def sha_call(e, st, a, name, ins):
    c = e.ctx
    p = e.to_ptr(st, a[2])
    e.oblige(st, z3.And(z3.BoolVal(p.obj == c.src), bv(lz(p.off)) == 0, bv(a[1]) == bv(c.n)), 'ensures: the message is hashed')
    for x, d in enumerate(c.d):
        e.store(st, e.to_ptr(st, a[0]).add(4 * x), 4, d)
    return None


def text_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'sha1String returns')
    if kind != 'return':
        return
    r = e.get_str(st, Ptr(c.out))
    e.oblige(st, bv(r.len) == 40, 'ensures: 40 characters')
    for k in range(40):
        q = z3.Extract(31 - 4 * (k % 8), 28 - 4 * (k % 8), c.d[k // 8])
        q = z3.ZeroExt(4, q)
        e.oblige(st, bv(r.at(k), 8) == z3.If(z3.ULT(q, 10), q + 48, q + 87), 'ensures: the nibbles from most to least significant, in hexadecimal')


def input_of(e, st, m):
    return model_bytes(m, e.ctx.s)


def proofs(m):
    _, nxt, _, loops = find(m)
    from irv.names import parse
    q = parse(m.demangled(nxt))[0]
    return [Proof('sha1: next(byte), inside a block', nxt, step_setup(False), step_post(False)),
            Proof('sha1: next(byte), last byte of a block', nxt, step_setup(True), step_post(True), opts=dict(unroll_limit=200, name_width=32)),
            Proof('crypto::sha1', 'h_sha', sha_setup, sha_post, cand=[sha_cand], models={q: next_call}, witness=input_of, opts=dict(unroll_limit=0), cut=loops),
            Proof('crypto::sha1String', 'h_shas', text_setup, text_post, models={SHA: sha_call}, opts=dict(unroll_limit=60))]
