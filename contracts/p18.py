"""P18: the text of MimeType(ext) is the registered type of ext.
Contract of MimeType(ext).toString(): ensures result == table(ext without one leading dot), text/plain when it is not in the table."""
from common import *

HARNESS = "mime.cpp"
NATIVE = dict(src="p18.cpp")
TABLE = {"html": "text/html", "htm": "text/html", "css": "text/css", "js": "application/javascript", "mjs": "application/javascript", "jpg": "image/jpeg", "jpeg": "image/jpeg", "png": "image/png",
         "gif": "image/gif", "json": "application/json", "pdf": "application/pdf", "ttf": "font/ttf", "ico": "image/x-icon", "svg": "image/svg+xml", "webp": "image/webp", "csv": "text/csv"}


def is_text(s, n, off, t):
    return z3.And(n == len(t), *[bv(s.at(off + k), 8) == ord(c) for k, c in enumerate(t)])


def setup(e, st):
    oid, n, s = in_bytes(e, st, 'extension')
    e.ctx.s = s
    e.ctx.out = out_obj(e, st, 'result', 16)
    return [Ptr(e.ctx.out), n, Ptr(oid)]


def post(e, st, kind, rv):
    if kind != 'return':
        e.oblige(st, False, 'MimeType(extension).toString() returns')
        return
    got = view_at(e, st, Ptr(e.ctx.out))
    s, n = e.ctx.s, bv(e.ctx.s.len)
    dot = z3.And(z3.UGT(n, 0), bv(s.at(0), 8) == ord('.'))
    is_ = lambda t: z3.If(dot, is_text(s, n - 1, 1, t), is_text(s, n, 0, t))
    for mime in sorted(set(TABLE.values())):
        c = z3.Or(*[is_(k) for k, v in TABLE.items() if v == mime])
        e.oblige(st, z3.Implies(c, text_is(got, mime)), 'ensures: ' + mime)
    e.oblige(st, z3.Or(text_is(got, "text/plain"), *[is_(k) for k in TABLE]), 'ensures: text/plain for any other extension')


def proofs(m):
    return [Proof('MimeType(ext).toString()', 'h_mime', setup, post, witness=input_witness),
            Proof('MimeType::fromExtension(ext).toString()', 'h_ext', setup, post, witness=input_witness)]
