"""P01: uri::decode(s) == spec(s) for every byte string s.
Contract of uri::decode:  requires true
  ensures result.len == LS(0)  and  forall K < LS(0). result[K] == VS(0, K)
where LS(i)/VS(i, k) (ghost) are the length and the bytes of the decoding of the suffix of s that starts at i:
  LS(n) = 0;  LS(i) = 1 + LS(i + step(i));  VS(i, 0) = byte(i);  VS(i, k) = VS(i + step(i), k - 1)
Loop invariants are selected among generated candidates relating every (offset, output string) pair: len(out) + LS(i) = LS(0), the bytes written, the bytes to come."""
import z3
from irv.val import *
from irv.run import *
from irv.engine import Ptr
from common import *

HARNESS = "enc.cpp"
NATIVE = dict(src="p01.cpp")
B64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
LS = z3.Function('LS', B64, B64)
VS = z3.Function('VS', B64, B64, B8)


def hexd(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))


def hv(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))


def unfold(s, n, i, k):
    c, c1, c2 = bv(s.at(i), 8), bv(s.at(add64(i, 1)), 8), bv(s.at(add64(i, 2)), 8)
    esc = z3.And(c == 37, z3.ULE(i + 3, n), hexd(c1), hexd(c2))
    step = z3.If(esc, bv(3), bv(1))
    byte = z3.If(esc, hv(c1) * 16 + hv(c2), z3.If(c == 43, z3.BitVecVal(32, 8), c))
    return [LS(i) == z3.If(z3.UGE(i, n), bv(0), 1 + LS(i + step)), z3.ULE(LS(i), n), z3.Implies(z3.ULT(i, n), VS(i, k) == z3.If(k == 0, byte, VS(i + step, k - 1)))]


def proofs(m):
    return [Proof('uri::decode', 'h_dec', suffix_setup('uri', LS, VS, unfold, lambda o, n, p: [o, n, p]), suffix_post('decode'), [suffix_cand], [suffix_defs], witness=input_witness)]
