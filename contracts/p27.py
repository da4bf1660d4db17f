"""P27: URI splitting.
Contract of uri::URI(text), for every text of RFC 3986's form  scheme "://" [userinfo "@"] host [":" port] path ["?" query] ["#" fragment]  (path empty or starting with "/", host a name or an IP literal in
brackets, components of printable characters without the delimiters that end them, a superset of the RFC's character sets; any lengths):
 ensures  scheme, userinfo, host, port, authority, path, query, fragment are exactly these components, empty where absent; nothing else is read or written (no dependence on earlier calls or other threads)
 ensures  the same of a copy of the object, after the original is gone.
The text is one byte string with ghost positions; the character sets are quantified facts about the ranges between them, instantiated at the positions and at every search result."""
from common import *
from irv.engine import NORET
from irv.models import add_forall, inst, load_sv, cstr, S, maybe_throw
from irv.val import AShift, ALit

HARNESS = "uri.cpp"
NATIVE = dict(src="p27.cpp")
ASSUMPTIONS = ["std::string_view searches (find, find_first_of, ...) return the first (last) match, as the standard says"]
NPOS = (1 << 64) - 1


def text(delimiters):
    """printable characters other than these delimiters: every character set of RFC 3986 is among them"""
    return lambda c: z3.And(z3.UGT(c, 32), z3.ULT(c, 127), *[c != ord(x) for x in delimiters])


CLASS = dict(scheme=text(":/?#[]@"), userinfo=text("/?#[]@"), name=text(":/?#[]@"), literal=text("/?#[]@"), port=text(":/?#[]@"), path=text("?#[]"), query=text("#[]"), fragment=text("#[]"))


def base(s):
    """(text array, offset) of a part of the text"""
    a, k = s.arr, 0
    while type(a) is AShift:
        k, a = add64(k, a.k), a.p
    return a, k


def place(e, st, s, pos):
    """positions in the whole text: start of s, of its part from pos, and its end"""
    r = inside(e, st, s, pos)
    if not r:
        raise ToolLimit("position outside the text")
    return r


def inside(e, st, s, pos):
    k0 = z3.simplify(bv(base(s)[1]))
    lo, hi = z3.simplify(k0 + bv(pos)), z3.simplify(k0 + bv(s.len))
    return (k0, lo, hi) if e.must(st, z3.And(z3.ULE(k0, lo), z3.ULE(lo, hi))) else None


def substr(e, st, a, name, ins):
    """assumed contract of string_view::substr (positions compared in the whole text)"""
    p, n = load_sv(e, st, a[0])
    pos, count = a[1], a[2]
    if type(pos) is not int or pos:
        if not inside(e, st, e.region(st, p, n), pos) and maybe_throw(e, st, z3.simplify(z3.UGT(bv(pos), bv(n))), "St12out_of_range"):
            return NORET
    p = e.to_ptr(st, p)
    if type(count) is int and count == NPOS:
        return [z3.simplify(bv(n) - bv(pos)) if type(n) is not int or type(pos) is not int else n - pos, p.add(lin(pos))]
    k0, lo, hi = place(e, st, e.region(st, p, n), pos)
    end = z3.simplify(lo + bv(count))
    if e.must(st, z3.And(z3.ULE(lo, end), z3.ULE(end, hi))):
        return [count, p.add(lin(pos))]
    rest = z3.simplify(hi - lo)
    if e.must(st, z3.UGE(bv(count), rest)):
        return [rest, p.add(lin(pos))]
    return [z3.If(z3.ULT(bv(count), rest), bv(count), rest), p.add(lin(pos))]


def search(e, st, s, pos, match, last, what, n=1):
    """assumed contract of a search: first k >= pos (last k <= pos) with match(k), or npos.  Positions are compared in the whole text, where they are ghost positions."""
    c = e.ctx
    k0, lo, hi = place(e, st, s, 0 if last else pos)
    if last and not (type(pos) is int and pos == NPOS):
        raise ToolLimit("backward search from a position")
    hit = lambda K: z3.And(z3.ULE(lo, K), z3.ULT(z3.simplify(K + (n - 1)) if n > 1 else K, hi), match(z3.simplify(K - k0)))
    R = e.fresh(what, 64)
    t = st.clone()
    t.assume(hit(R))
    inst(e, t, R)
    for K in c.points:
        if e.must(st, hit(K)):
            # the first (last) match unless another one comes before (after)
            if not e.feasible(t, z3.UGT(R, K) if last else z3.ULT(R, K)):
                return z3.simplify(K - k0)
    if not e.feasible(t):
        return NPOS
    # neither: an unknown position, or none
    none = e.fresh('none', 1)
    st.assume(z3.Or(none, hit(R)))
    beyond = (lambda K: z3.UGT(K, R)) if last else (lambda K: z3.ULT(K, R))
    add_forall(st, lambda K: z3.Implies(z3.Or(none, beyond(bv(K))), z3.Not(hit(bv(K)))))
    st.ghost["found"] += (R,)
    inst(e, st, *c.points, *st.ghost["found"])
    return z3.If(none, bv(NPOS), R - k0)


def operands(e, st, a, name):
    """(searched text, searched-for text or bytes, position)"""
    qual, ps, _ = e.models.info(e, name)
    if qual.startswith("std::string_view"):
        p, n = load_sv(e, st, a[0])
        s = e.region(st, p, n)
    else:
        s = S(e, st, a[0])
    b, k = a[1:], 1
    if ps[0] == "char":
        t = StrVal(1, ALit([b[0]]))
    elif ps[0] == "char const*":
        t = e.region(st, b[0], b[2]) if len(ps) == 3 else cstr(e, st, b[0])
    elif ps[0] == "std::string_view":
        t, k = e.region(st, b[1], b[0]), 2
    elif ps[0] == "std::string const&":
        t = S(e, st, b[0])
    else:
        raise ToolLimit("search for " + str(ps))
    n = t.len if type(t.len) is int else e.concretize(st, t.len)
    if n is None or n > 32:
        raise ToolLimit("search for a symbolic text")
    return s, [bv(t.at(j), 8) for j in range(n)], b[k] if len(b) > k else None


def find(e, st, a, name, ins):
    qual, _, _ = e.models.info(e, name)
    s, t, pos = operands(e, st, a, name)
    last = "rfind" in qual
    pos = (NPOS if last else 0) if pos is None else pos
    n = len(t)

    def match(k):
        return z3.And(*[bv(s.at(z3.simplify(k + j)), 8) == x for j, x in enumerate(t)])
    if n == 0:
        raise ToolLimit('search for nothing')
    r = search(e, st, s, pos, match, last, 'find', n)
    return r != bv(NPOS) if "contains" in qual else r


def find_of(neg, last):
    def h(e, st, a, name, ins):
        s, t, pos = operands(e, st, a, name)
        pos = (NPOS if last else 0) if pos is None else pos

        def match(k):
            hit = z3.Or(*[bv(s.at(k), 8) == x for x in t])
            return z3.Not(hit) if neg else hit
        return search(e, st, s, pos, match, last, 'found')
    return h


FLAGS = ("userinfo", "literal", "port", "path", "query", "fragment")


def setup(has):
    """a well-formed URI with the given optional components"""
    def f(e, st):
        c = e.ctx
        oid, n, s = in_bytes(e, st, 'uri', z3.ZeroExt(32, z3.BitVec('uri.length', 32)))
        st.assume(z3.ULT(n, 0xfffffff0))
        byte = lambda k: bv(s.at(z3.simplify(k)), 8)
        at, L = {}, {}
        c.points = []

        def component(k, start, cls, ends=None):
            """the component k of this class from start; returns its end"""
            end = z3.ZeroExt(32, z3.BitVec(k + '.end', 32)) if ends is None else ends
            st.assume(z3.And(z3.ULE(start, end), z3.ULE(end, n)))
            at[k], L[k] = start, z3.simplify(end - start)
            c.points.extend([start, end])
            st.assume(z3.Implies(z3.ULT(start, end), CLASS[cls](byte(start))))
            add_forall(st, lambda K: z3.Implies(z3.And(z3.UGE(bv(K), start), z3.ULT(bv(K), end)), CLASS[cls](byte(bv(K)))))
            return end

        def mark(p, text):
            st.assume(z3.And(z3.ULT(p, n), z3.ULE(p + len(text), n), *[byte(p + j) == ord(x) for j, x in enumerate(text)]))
            c.points.extend([z3.simplify(p + j) for j in range(len(text))])
            return z3.simplify(p + len(text))
        p = component("scheme", bv(0), "scheme")
        st.assume(p != 0)
        a = p = mark(p, "://")
        absent = []
        if "userinfo" in has:
            p = mark(component("userinfo", p, "userinfo"), "@")
        else:
            absent.append("userinfo")
        last = [k for k in ("host", "port", "path", "query", "fragment") if k == "host" or k in has][-1]
        stop = lambda k: n if k == last else None
        if "literal" in has:
            h0 = p
            st.assume(z3.UGE(n, 1))
            p = component("host", mark(p, "["), "literal", z3.simplify(n - 1) if last == "host" else None)
            p = mark(p, "]")
            at["host"], L["host"] = h0, z3.simplify(p - h0)
            c.points.append(h0)
        else:
            p = component("host", p, "name", stop("host"))
        if "port" in has:
            p = component("port", mark(p, ":"), "port", stop("port"))
        else:
            absent.append("port")
        at["authority"], L["authority"] = a, z3.simplify(p - a)
        if "path" in has:
            q = p
            p = component("path", p, "path", stop("path"))
            st.assume(z3.And(z3.ULT(q, p), byte(q) == ord("/")))
        else:
            absent.append("path")
        for k, ch in (("query", "?"), ("fragment", "#")):
            if k in has:
                p = component(k, mark(p, ch), k, stop(k))
            else:
                absent.append(k)
        for k in absent:
            at[k], L[k] = bv(0), bv(0)
        c.at, c.L, c.s, c.n = at, L, s, n
        c.points = list({str(z3.simplify(x)): z3.simplify(x) for x in c.points}.values())
        st.ghost.update(found=(), shown=0)
        o = out_obj(e, st, 'text', 32)
        e.set_str(st, Ptr(o), s)
        return [Ptr(o)]
    return f


def report(e, st, a, name, ins):
    c = e.ctx
    st.ghost["shown"] += 1
    inst(e, st, *st.ghost["found"])
    for p, k in zip(a, ["scheme", "userinfo", "host", "port", "authority", "path", "query", "fragment"]):
        v = view_at(e, st, e.to_ptr(st, p))
        e.oblige(st, bv(v.len) == c.L[k], f'ensures: length of the {k}')
        i = e.fresh('position', 64)
        if type(v.len) is not int or v.len:
            e.oblige(st, z3.Implies(z3.ULT(i, c.L[k]), bv(v.at(i), 8) == bv(c.s.at(c.at[k] + i), 8)), f'ensures: text of the {k}')
    return None


def post(e, st, kind, rv):
    inst(e, st, *st.ghost["found"])
    e.oblige(st, kind == 'return', 'ensures: a well-formed URI is split')
    if kind == 'return':
        e.oblige(st, st.ghost["shown"] == 1, 'ensures: the components are available')


def proofs(m):
    M = {"report": report}
    for t in ("std::string::", "std::string_view::", "std::basic_string_view::"):
        for n in ("find", "rfind", "contains"):
            M[t + n] = find
        if "view" in t:
            M[t + "substr"] = substr
        for n, neg, last in (("find_first_of", 0, 0), ("find_first_not_of", 1, 0), ("find_last_of", 0, 1), ("find_last_not_of", 1, 1)):
            M[t + n] = find_of(neg, last)
    r = []
    for bits in range(1 << len(FLAGS)):
        has = [f for k, f in enumerate(FLAGS) if bits >> k & 1]
        t = "scheme://" + "".join(x for k, x in (("userinfo", "user@"), ("literal", "[literal]"), ("name", "host"), ("port", ":port"), ("path", "/path"), ("query", "?query"), ("fragment", "#fragment")) if k in has or k == "name" and "literal" not in has)
        r.append(Proof('URI ' + t, 'u_split', setup(has), post, models=M))
        if bits in (0, 63, 61):
            r.append(Proof('copy of URI ' + t, 'u_copy', setup(has), post, models=M))
    return r
