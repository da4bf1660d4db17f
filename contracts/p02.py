"""P02: uri::encode(s) == spec(s) for every byte string, and decode(spec(s)) == s.
Contract of uri::encode:  ensures result.len == EL(0)  and  forall K < EL(0). result[K] == EV(0, K)
with EL(i)/EV(i, k) the length and bytes of the encoding of the suffix of s at i (each byte: itself when unreserved, else '%' and two upper-case hexadecimal digits).
Round trip: lemmas by induction over the specifications of encode (EL, EV) and decode (P01: LS, VS)."""
from common import *
import p01

HARNESS = "enc.cpp"
NATIVE = dict(src="p02.cpp")
B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
EL = z3.Function('EL', B64, B64)
EV = z3.Function('EV', B64, B64, B8)


def unres(c):
    def r(a, b):
        return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.Or(r('a', 'z'), r('A', 'Z'), r('0', '9'), *[c == ord(x) for x in '-_.~'])


def digit(h):
    return z3.If(z3.ULT(h, 10), h + 48, h + 55)


def unfold(s, n, i, k):
    c = bv(s.at(i), 8)
    u = unres(c)
    w = z3.If(u, bv(1), bv(3))
    byte = z3.If(u, c, z3.If(k == 0, z3.BitVecVal(37, 8), z3.If(k == 1, digit(z3.LShR(c, 4)), digit(c & 15))))
    return [EL(i) == z3.If(z3.UGE(i, n), bv(0), w + EL(i + 1)), z3.Implies(z3.ULE(i, n), z3.ULE(EL(i), 3 * (n - i))),
            z3.Implies(z3.ULT(i, n), EV(i, k) == z3.If(z3.ULT(k, w), byte, EV(i + 1, k - w)))]


class Text:
    """the encoded text seen as a string: r[k] = EV(0, k)"""

    def __init__(self):
        self.len = EL(bv(0))

    def at(self, k):
        return EV(bv(0), bv(k))


def roundtrip(e, st, kind, rv):
    n, i, K, j = z3.BitVecs('n i K j', 64)
    s = StrVal(n, ABase(z3.Array('text', B64, B8)))
    pos = lambda x: EL(bv(0)) - EL(x)
    base = [z3.ULT(n, bv(1 << 40)), z3.ULE(EL(bv(0)), 3 * n)]
    E = lambda x, k: unfold(s, n, x, k)
    # 1. forall i <= n, K >= pos(i): EV(0, K) == EV(i, K - pos(i)), by induction on i
    q = lambda x, k: z3.Implies(z3.UGE(k, pos(x)), EV(bv(0), k) == EV(x, k - pos(x)))

    def lemma(name, hyps, goal):
        t = st.clone()
        for h in base + hyps:
            t.assume(h)
        e.oblige(t, goal, name, where="lemma")
    lemma("round trip: prefix of the encoding, base", [], q(bv(0), K))
    ord1 = [z3.ULE(EL(i), EL(bv(0)))]
    lemma("round trip: prefix of the encoding, step", [z3.ULT(i, n), q(i, K)] + E(i, K - pos(i)) + E(i + 1, K - pos(i + 1)) + ord1, z3.And(q(i + 1, K), z3.ULE(EL(i + 1), EL(bv(0)))))
    # 2. forall i <= n: decode's LS(pos(i)) == n - i and VS(pos(i), k) == s[i + k], by induction on n - i
    r = Text()
    D = lambda p, k: p01.unfold(r, r.len, p, k)
    dec = lambda x, k: z3.And(p01.LS(pos(x)) == n - x, z3.Implies(z3.ULT(k, n - x), p01.VS(pos(x), k) == bv(s.at(x + k), 8)))
    lemma("round trip: decoding at the end", E(n, bv(0)) + D(pos(n), j), dec(n, j))
    hy = [z3.ULT(i, n), dec(i + 1, j - 1)] + E(i, bv(0)) + E(i, bv(1)) + E(i, bv(2)) + E(i + 1, bv(0)) + ord1
    hy += [q(i, pos(i)), q(i, pos(i) + 1), q(i, pos(i) + 2)] + D(pos(i), j)
    lemma("round trip: decoding one encoded byte", hy, dec(i, j))


def proofs(m):
    return [Proof('uri::encode', 'h_enc', suffix_setup('uri', EL, EV, unfold, lambda o, n, p: [o, n, p]), suffix_post('encode'), [suffix_cand], [suffix_defs], witness=input_witness),
            Proof('uri::decode', 'h_dec', suffix_setup('uri', p01.LS, p01.VS, p01.unfold, lambda o, n, p: [o, n, p]), suffix_post('decode'), [suffix_cand], [suffix_defs]),
            Proof('decode(encode(s)) == s', None, lambda e, st: None, roundtrip)]
