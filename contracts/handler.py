"""Contract of RequestHandler::handleRequest, shared by P05 (handshake), P15 (path) and P16 (answers).
D is the decoded URI, M the method, UPG = headersContain(Connection, upgrade) and headersContain(Upgrade, websocket), KEY the first Sec-WebSocket-Key (if any),
ENC the file's encoding, ACC = headersContain(Accept-Encoding, ENC), F the bytes of the file that the provider returns (if it returns one).
 ensures  D empty, not starting with '/' or containing "..": 400, nothing opened
          GET with UPG and KEY: 101 with Upgrade, Connection and Sec-WebSocket-Accept = getHashedSecKey(KEY)
          GET, HEAD otherwise: the file opened is relative_path(D) (followed by "index.html" where that has no file name): not empty, not starting with '/', without ".."
          not found: 404;  GET of an encoded file without ACC: 506
          GET: 200, content = F, Content-Length, Content-Type of the extension, Content-Encoding exactly for an encoded file;  HEAD: 200 without content
          other methods: 501.
uri::decode (P01), header lookup (P14), getStatusResponse (P17), File::read (P19), MimeType (P18) and getHashedSecKey enter through their contracts; std::filesystem::path through assumed ones."""
from common import *
from irv.vectors import *
from irv.models import inst, dec_len, add_forall
from irv.paths import PATH
from irv.streams import IFSTREAM
from irv.algo import fold
from p17 import header_table, headers_of, HEADERS, CODES, RESP

HARNESS = "handler.cpp"
REQ, FILE = "webfront::http::Request", "webfront::fs::File"
METHODS = ["Connect", "Delete", "Get", "Head", "Options", "Patch", "Post", "Put", "Trace", "Undefined"]


def folded(s, t):
    return z3.And(bv(s.len) == len(t), *[fold(s.at(k)) == fold(x) for k, x in enumerate(t.encode())])


def same(c, s, t):
    return z3.And(bv(s.len) == bv(t.len), z3.Implies(z3.ULT(c.K, bv(t.len)), bv(s.at(c.K), 8) == bv(t.at(c.K), 8)))


def known(e, st, p):
    """the headers looked at are those of the request (or a copy)"""
    c = e.ctx
    b = e.load(st, e.to_ptr(st, p), 8, True)
    o = st.objs.get(b.obj)
    if o is None or not o.sarr or any(o.sarr.get(k) is not t for k, t in c.tabs.items()):
        raise ToolLimit("lookup in other headers")


def decode(e, st, a, name, ins):
    c = e.ctx
    s = e.region(st, e.to_ptr(st, a[2]), a[1])
    if not e.must(st, same(c, s, c.uri)):
        raise ToolLimit("decoding another text than the URI")
    e.set_str(st, a[0], c.D)
    return None


def contain(e, st, a, name, ins):
    c = e.ctx
    known(e, st, a[0])
    h, t = e.region(st, e.to_ptr(st, a[2]), a[1]), e.region(st, e.to_ptr(st, a[4]), a[3])
    if e.must(st, z3.And(folded(h, "Connection"), folded(t, "upgrade"))):
        return c.U1
    if e.must(st, z3.And(folded(h, "Upgrade"), folded(t, "websocket"))):
        return c.U2
    if e.must(st, z3.And(folded(h, "Accept-Encoding"), same(c, t, c.enc))):
        return c.ACC
    raise ToolLimit("test of another header")


def value(e, st, a, name, ins):
    c = e.ctx
    known(e, st, a[1])
    h = e.region(st, e.to_ptr(st, a[3]), a[2])
    if not e.must(st, folded(h, "Sec-WebSocket-Key")):
        raise ToolLimit("value of another header")
    out = e.to_ptr(st, a[0])
    if not e.must(st, c.KEYED) and not e.must(st, z3.Not(c.KEYED)):
        e.fork_conds(st, [c.KEYED, z3.Not(c.KEYED)])
    keyed = e.must(st, c.KEYED)
    if keyed:
        e.set_str(st, out, c.key)
    e.store(st, out.add(32), 1, int(keyed))
    return None


def hashed(e, st, a, name, ins):
    c = e.ctx
    e.oblige(st, same(c, e.get_str(st, a[1]), c.key), 'handshake: the hash is that of the key')
    e.set_str(st, a[0], c.hash)
    return None


def copied(e, st, a, name, ins):
    return None


def opened(e, st, a, name, ins):
    """FS::open(path): the properties of the path, and an arbitrary result"""
    c = e.ctx
    if not e.must(st, c.EXISTS) and not e.must(st, z3.Not(c.EXISTS)):
        e.fork_conds(st, [c.EXISTS, z3.Not(c.EXISTS)])
    p = e.get_str(st, a[2])
    for i in (c.K, c.K + 1, bv(0), c.Wn):
        inst(e, st, i)
    for s, r, J in st.ghost.get("relative", ()):
        inst(e, st, J(c.K))
    e.oblige(st, z3.Not(c.bad), 'path: a malformed URI opens nothing')
    if st.ghost["opened"]:
        raise ToolLimit("a second file is opened")
    e.oblige(st, bv(p.len) != 0, 'path: not empty')
    e.oblige(st, bv(p.at(0), 8) != ord("/"), 'path: relative')
    two = z3.And(z3.ULT(c.K, bv(p.len)), z3.ULT(c.K + 1, bv(p.len)), bv(p.at(c.K), 8) == 46, bv(p.at(c.K + 1), 8) == 46)
    e.oblige(st, z3.Not(two), 'path: no ".."')
    if not e.only:
        rel = [r for s, r, J in st.ghost.get("relative", ()) if e.must(st, same(c, s, c.D))]
        if not rel:
            raise ToolLimit("relative path computed in another way")
        r = rel[0]
        n = bv(r.len)
        index = z3.Or(n == 0, bv(r.at(n - 1), 8) == ord("/"))
        full = concat(r, lit("index.html"))
        e.oblige(st, z3.Implies(z3.Not(index), same(c, p, r)), 'ensures: the file named by the URI is opened')
        e.oblige(st, z3.Implies(index, same(c, p, full)), 'ensures: a directory stands for its index.html')
    st.ghost["opened"] = 1
    out = e.to_ptr(st, a[0])
    there = e.must(st, c.EXISTS)
    if there:
        e.set_str(st, out.add(c.LF["encoding"]), c.enc)
    e.store(st, out.add(c.engaged), 1, int(there))
    st.ghost["path"] = (p,)
    return None


def file_gone(e, st, a, name, ins):
    return None


def file_read(e, st, a, name, ins):
    """contract of File::read (P19): the next min(size, remaining) bytes"""
    c = e.ctx
    pos, cap = bv(st.ghost["pos"]), bv(a[2])
    left = bv(c.file.len) - pos
    n = z3.simplify(z3.If(z3.ULE(cap, left), cap, left))
    buf = e.to_ptr(st, a[1])
    m = e.fresh("got", 64)
    st.assume(m == n)
    st.assume(z3.ULE(m, cap))
    e.write_region(st, buf, StrVal(m, AFn(lambda k: bv(c.file.at(pos + bv(k)), 8))))
    st.ghost["pos"] = z3.simplify(pos + m)
    return m


def mime(e, st, text):
    c = e.ctx
    xs = [s for s, x in st.ghost.get("extension", ()) if e.must(st, same(c, text, x))]
    if not xs or not st.ghost["opened"]:
        raise ToolLimit("extension computed in another way")
    e.oblige(st, z3.Or([same(c, s, st.ghost["path"][0]) for s in xs]), 'ensures: the type is that of the file which was opened')
    st.ghost["typed"] = 1
    return c.type


def mime_ctor(e, st, a, name, ins):
    e.store(st, a[0], 4, mime(e, st, e.region(st, e.to_ptr(st, a[2]), a[1])))
    return None


mime_ctor.accept = lambda e, name, qual, params, targs: params == ["std::string_view"]


def mime_from(e, st, a, name, ins):
    return mime(e, st, e.region(st, e.to_ptr(st, a[1]), a[0]))


def mime_text(e, st, a, name, ins):
    c = e.ctx
    t = e.load(st, a[0], 4)
    if not e.must(st, bv(t, 32) == c.type):
        raise ToolLimit("text of another type")
    return [c.typename.len, Ptr(c.typeobj)]


def silent(e, st, a, name, ins):
    return None


MODELS = merge(PATH, HEADERS, {
    "webfront::uri::decode": decode, "webfront::http::Headers::headersContain": contain, "webfront::http::Headers::getHeaderValue": value,
    "webfront::websocket::getHashedSecKey": hashed, "GFS::open": opened, FILE + "::~File": file_gone, FILE + "::read": file_read,
    "webfront::http::MimeType::MimeType": mime_ctor, "webfront::http::MimeType::fromExtension": mime_from, "webfront::http::MimeType::toString": mime_text,
    "webfront::log::debug": silent, "webfront::log::info": silent, "webfront::log::warn": silent, "webfront::log::error": silent})


def setup(method):
    def f(e, st):
        c = e.ctx
        c.K = z3.BitVec('K', 64)
        c.h = out_obj(e, st, 'handler', 8)
        c.q = out_obj(e, st, 'request', record_size(e, REQ))
        c.out = out_obj(e, st, 'response', record_size(e, RESP))
        L = layout(e, REQ, "method", "uri")
        c.L = layout(e, RESP, "headers", "statusCode", "content")
        c.LF = layout(e, FILE, "encoding")
        c.engaged = record_size(e, FILE)
        header_table(e, st, Ptr(c.q))
        c.uri, c.D = e.fresh_str(st, 'uri'), e.fresh_str(st, 'decoded')
        for n, off, size, t in e.m.members(REQ):
            if "basic_string" in t:
                e.set_str(st, Ptr(c.q, off), c.uri if n == "uri" else e.fresh_str(st, n))
            elif n == "method":
                e.store(st, Ptr(c.q, off), 4, METHODS.index(method))
            elif size in (1, 2, 4, 8):
                e.store(st, Ptr(c.q, off), size, e.fresh(n, 8 * size))
        c.is_get, c.is_head = z3.BoolVal(method == "Get"), z3.BoolVal(method == "Head")
        c.U1, c.U2, c.ACC, c.KEYED, c.EXISTS = z3.Bools('CONNECTION_UPGRADE UPGRADE_WEBSOCKET ACCEPTED KEYED EXISTS')
        c.key, c.hash, c.enc, c.file = (e.fresh_str(st, x) for x in ('key', 'hash', 'encoding', 'file'))
        c.type = z3.BitVec('TYPE', 32)
        c.typeobj, n, c.typename = in_bytes(e, st, 'typename', lim=64)
        st.assume(z3.ULT(bv(c.file.len), 1 << 46))
        st.ghost.update(opened=0, pos=bv(0), typed=0, path=())
        # definition of bad: W is a position of ".." if there is one
        n = bv(c.D.len)
        dots = lambda k: z3.And(z3.ULT(bv(k), n), z3.ULT(bv(k) + 1, n), bv(c.D.at(bv(k)), 8) == 46, bv(c.D.at(bv(k) + 1), 8) == 46)
        c.DOTS, c.Wn = z3.Bool('DOTS'), z3.BitVec('DOTS_AT', 64)
        st.assume(z3.Implies(c.DOTS, dots(c.Wn)))
        add_forall(st, lambda k: z3.Implies(z3.Not(c.DOTS), z3.Not(dots(k))))
        c.bad = z3.Or(n == 0, bv(c.D.at(0), 8) != ord("/"), c.DOTS)
        c.handshake = z3.And(z3.Not(c.bad), c.is_get, c.U1, c.U2, c.KEYED)
        return [Ptr(c.h), Ptr(c.q), Ptr(c.out)]
    return f


def cand(e, cut, S):
    c = e.ctx
    for l, i in cut.infos.items():
        if i.kind == 'str':
            yield 'read so far', lambda v, l=l: bv(v.val(l).len) == bv(v.st.ghost["pos"])
            yield 'content', lambda v, l=l: z3.Implies(z3.ULT(c.K, bv(v.val(l).len)), bv(v.val(l).at(c.K), 8) == bv(c.file.at(c.K), 8))
    yield 'in file', lambda v: z3.ULE(bv(v.st.ghost["pos"]), bv(c.file.len))


def status_page(e, st, c, hs, content, code, tag):
    text = f"<html><head><title>{CODES[code]}</title></head><body><h1>{code} {CODES[code]}</h1></body></html>"
    e.oblige(st, text_is(content, text), f'{tag} a {code} answer names its status')
    want = [("Content-Length", str(len(text))), ("Content-Type", "text/html")]
    e.oblige(st, len(hs) == len(want), f'{tag} headers of a {code} answer')
    for (n, v), (wn, wv) in zip(hs, want):
        e.oblige(st, z3.And(text_is(n, wn), text_is(v, wv)), f'{tag} headers of a {code} answer')


def lookup(e, st, hs, name):
    """values of the headers of that name"""
    out = []
    for n, v in hs:
        is_it = folded(n, name)
        if e.must(st, is_it):
            out.append(v)
        elif not e.must(st, z3.Not(is_it)):
            raise ToolLimit("name of a header")
    return out


def one(e, st, c, hs, name, want, kind):
    vs = lookup(e, st, hs, name)
    e.oblige(st, len(vs) == 1, f'{kind}: one {name} header')
    for v in vs:
        e.oblige(st, text_is(v, want) if isinstance(want, str) else same(c, v, want), f'{kind}: {name}')


def post(e, st, kind, rv):
    c = e.ctx
    for k in ("ensures", "handshake", "path"):
        e.oblige(st, kind == 'return', f'{k}: an answer for every request')
    if kind != 'return':
        return
    for i in (c.K, c.Wn, bv(0)):
        inst(e, st, i)
    cases = [("400", c.bad), ("101", c.handshake), ("other", z3.And(z3.Not(c.bad), z3.Not(c.handshake)))]
    for what, cond in cases:
        s = st.clone()
        if not e.feasible(s, cond):
            continue
        s.assume(cond)
        case(e, s, what)


def case(e, st, what):
    c = e.ctx
    code = e.load(st, Ptr(c.out, c.L["statusCode"]), 2)
    content = e.get_str(st, Ptr(c.out, c.L["content"]))
    hs = headers_of(e, st, Ptr(c.out, c.L["headers"]))
    is_code = lambda x: bv(code, 16) == x
    if what == "400":
        e.oblige(st, is_code(400), 'path: a malformed URI is answered 400')
        status_page(e, st, c, hs, content, 400, "ensures:")
        return
    if what == "101":
        e.oblige(st, is_code(101), 'handshake: answered 101')
        one(e, st, c, hs, "Upgrade", "websocket", "handshake")
        vs = lookup(e, st, hs, "Connection")
        e.oblige(st, len(vs) == 1 and e.must(st, folded(vs[0], "upgrade")), 'handshake: Connection')
        one(e, st, c, hs, "Sec-WebSocket-Accept", c.hash, "handshake")
        e.oblige(st, bv(content.len) == 0, 'handshake: no content')
        return
    e.oblige(st, z3.Not(is_code(101)), 'handshake: no 101 without a key and both headers')
    e.oblige(st, z3.Not(is_code(400)), 'ensures: a well formed URI is not answered 400')
    if e.must(st, z3.Not(z3.Or(c.is_get, c.is_head))):
        e.oblige(st, is_code(501), 'ensures: other methods are answered 501')
        status_page(e, st, c, hs, content, 501, "ensures:")
        return
    e.oblige(st, bool(st.ghost["opened"]), 'ensures: the file is looked for')
    if e.must(st, z3.Not(c.EXISTS)):
        e.oblige(st, is_code(404), 'ensures: a missing file is answered 404')
        status_page(e, st, c, hs, content, 404, "ensures:")
        return
    e.oblige(st, c.EXISTS, 'ensures: the file exists')
    encoded = bv(c.enc.len) != 0
    refused = z3.And(c.is_get, encoded, z3.Not(c.ACC))
    for cond, want in ((refused, 506), (z3.Not(refused), 200)):
        s = st.clone()
        if not e.feasible(s, cond):
            continue
        s.assume(cond)
        e.oblige(s, is_code(want), f'ensures: answered {want}')
        if want == 506:
            status_page(e, s, c, hs, content, 506, "ensures:")
            continue
        if e.must(s, c.is_get):
            e.oblige(s, bv(content.len) == bv(c.file.len), 'ensures: the whole file is sent')
            e.oblige(s, z3.Implies(z3.ULT(c.K, bv(content.len)), bv(content.at(c.K), 8) == bv(c.file.at(c.K), 8)), 'ensures: the bytes of the file are sent')
            vs = lookup(e, s, hs, "Content-Encoding")
            for x in (True, False):
                t = s.clone()
                cx = encoded if x else z3.Not(encoded)
                if not e.feasible(t, cx):
                    continue
                t.assume(cx)
                e.oblige(t, len(vs) == int(x), 'ensures: Content-Encoding exactly for an encoded file')
                for v in vs:
                    e.oblige(t, same(c, v, c.enc), 'ensures: Content-Encoding')
        else:
            e.oblige(s, bv(content.len) == 0, 'ensures: HEAD has no content')
        vs = lookup(e, s, hs, "Content-Length")
        e.oblige(s, len(vs) == 1, 'ensures: one Content-Length')
        for v in vs:
            t = dec_len(e, s, content.len, 64, False)
            e.oblige(s, z3.And(bv(v.len) == bv(t.len), z3.Implies(z3.ULT(c.K, bv(t.len)), bv(v.at(c.K), 8) == bv(t.at(c.K), 8))), 'ensures: Content-Length counts the content')
        one(e, s, c, hs, "Content-Type", c.typename, "ensures")


def handler_proofs(methods=METHODS, **opts):
    return [Proof(f'RequestHandler::handleRequest, {m}', 'h_handle', setup(m), post, cand=[cand], models=MODELS, opts=dict(unroll_limit=0, **opts)) for m in methods]


# ---------------------------------------------------------------- files of the document root
NFS = "webfront::fs::detail::NativeRawFS"


def is_directory(e, st, a, name, ins):
    return z3.Bool('IS_DIRECTORY')


def no_error(e, st, a, name, ins):
    e.store(st, a[0], 4, 0)
    return None


NATIVEFS = merge(PATH, IFSTREAM, {FILE + "::~File": file_gone, "std::error_code::error_code": no_error, "std::filesystem::is_directory": is_directory})


def native_setup(e, st):
    c = e.ctx
    c.K = z3.BitVec('K', 64)
    c.OPENED = z3.Bool('OPENED')
    L = layout(e, NFS, "rootPath")
    c.fs = out_obj(e, st, 'file system', 256)
    c.root, c.p = e.fresh_str(st, 'root'), e.fresh_str(st, 'path')
    e.set_str(st, Ptr(c.fs, L["rootPath"]), c.root)
    c.arg = out_obj(e, st, 'argument', 64)
    e.set_str(st, Ptr(c.arg), c.p)
    st.assume(bv(c.p.len) != 0)
    st.assume(bv(c.p.at(0), 8) != ord("/"))
    for s in (c.p, c.root):
        st.assume(z3.ULT(bv(s.len), 1 << 46))
    c.engaged = record_size(e, FILE)
    c.out = out_obj(e, st, 'result', c.engaged + 8)
    return [Ptr(c.fs), Ptr(c.arg), Ptr(c.out)]


def native_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: open returns')
    if kind != 'return':
        return
    n, k = bv(c.root.len), c.K
    sep = z3.And(n != 0, bv(c.root.at(n - 1), 8) != ord("/"))
    start = z3.If(sep, n + 1, n)
    for s in st.ghost.get("streams", ()):
        e.oblige(st, bv(s.len) == start + bv(c.p.len), 'ensures: only root / path is opened')
        want = z3.If(z3.ULT(k, n), bv(c.root.at(k), 8), z3.If(z3.ULT(k, start), bv(ord("/"), 8), bv(c.p.at(k - start), 8)))
        e.oblige(st, z3.Implies(z3.ULT(k, bv(s.len)), bv(s.at(k), 8) == want), 'ensures: only root / path is opened')
    got = e.load(st, Ptr(c.out, c.engaged), 1)
    got = z3.BoolVal(bool(got)) if isinstance(got, int) else got if z3.is_bool(got) else bv(got, 8) & 1 == 1
    e.oblige(st, z3.Implies(got, z3.And(c.OPENED, z3.BoolVal(bool(st.ghost.get("streams"))))), 'found: a file is returned only if it could be opened')
    e.oblige(st, z3.Implies(z3.And(c.OPENED, z3.Not(z3.Bool('IS_DIRECTORY'))), got), 'found: an existing file is returned')
