"""P05: the opening handshake.  The obligations of RequestHandler::handleRequest on handshakes (see handler.py), where isUpgradeRequest is verified along and header lookup enters through P14.
Contract of getHashedSecKey(key):  ensures  the result is base64(SHA1(key GUID)) in network order, with sha1 (P04) and encodeInNetworkOrder (P03) entering through their contracts."""
from handler import *

NATIVE = dict(src="p05.cpp")
SECONDS = 120
GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


def key_setup(e, st):
    c = e.ctx
    c.K = z3.BitVec('K', 64)
    c.keyobj = out_obj(e, st, 'key', 32)
    c.key = e.fresh_str(st, 'key')
    st.assume(z3.ULT(bv(c.key.len), 1 << 46))
    e.set_str(st, Ptr(c.keyobj), c.key)
    c.out = out_obj(e, st, 'result', 32)
    c.text = e.fresh_str(st, 'base64')
    c.digest = [z3.BitVec(f'digest{i}', 32) for i in range(5)]
    return [Ptr(c.keyobj), Ptr(c.out)]


def sha1(e, st, a, name, ins):
    c = e.ctx
    s = e.region(st, e.to_ptr(st, a[2]), a[1])
    t = concat(c.key, lit(GUID))
    e.oblige(st, bv(s.len) == bv(t.len), 'ensures: the key and the GUID are hashed')
    e.oblige(st, z3.Implies(z3.ULT(c.K, bv(t.len)), bv(s.at(c.K), 8) == bv(t.at(c.K), 8)), 'ensures: the key and the GUID are hashed')
    for i, d in enumerate(c.digest):
        e.store(st, e.to_ptr(st, a[0]).add(4 * i), 4, d)
    return None


def network(e, st, a, name, ins):
    c = e.ctx
    p = e.to_ptr(st, a[1])
    for i, d in enumerate(c.digest):
        e.oblige(st, bv(e.load(st, p.add(4 * i), 4), 32) == d, 'ensures: the digest is encoded')
    e.set_str(st, a[0], c.text)
    return None


def other(e, st, a, name, ins):
    raise ToolLimit("encoded in another way")


def key_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: a hash for every key')
    if kind == 'return':
        e.oblige(st, same(c, e.get_str(st, Ptr(c.out)), c.text), 'ensures: the encoded digest is the result')


def proofs(m):
    return [Proof('websocket::getHashedSecKey', 'h_accept', key_setup, key_post, models={"webfront::crypto::sha1": sha1, "webfront::base64::encodeInNetworkOrder": network, "webfront::base64::encode": other, "webfront::base64::detail::encode": other})] + \
        handler_proofs(["Get", "Head", "Post"], only=("handshake:",))
