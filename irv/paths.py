"""Assumed contracts of std::filesystem::path (POSIX): a path is its text, kept at the object's address.
Facts about results hold for every index and are instantiated with models.inst."""
import z3
from .val import *
from .models import S, norm_bool, add_forall, cstr, load_sv

SLASH = ord("/")


def set_path(e, st, p, v):
    e.set_str(st, p, v)


def source(e, st, ps, a):
    """text of a constructor's source argument; a: the arguments after the object"""
    t = ps[0]
    if t.startswith("std::string_view"):
        if t == "std::string_view":
            return e.region(st, a[1], a[0])
        p, n = load_sv(e, st, a[0])
        return e.region(st, p, n)
    if t.startswith("std::string") or t.startswith("std::basic_string"):
        return S(e, st, a[0])
    if t.startswith("char const") or t.startswith("char*"):
        return cstr(e, st, a[0])
    if t.startswith("std::filesystem::path"):
        return S(e, st, a[0])
    raise ToolLimit("path from " + t)


def ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    this = e.to_ptr(st, a[0])
    if not ps:
        set_path(e, st, this, lit(""))
        return None
    v = source(e, st, ps, a[1:])
    set_path(e, st, this, v)
    if ps[0].endswith("&&") and ps[0].startswith("std::filesystem::path"):
        set_path(e, st, a[1], lit(""))
    return None


def dtor(e, st, a, name, ins):
    e.kill_str(st, a[0])
    return None


def assign(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    set_path(e, st, a[0], source(e, st, ps, a[1:]))
    return a[0]


def last_is(s, c):
    return z3.And(bv(s.len) != 0, bv(s.at(sub64(s.len, 1)), 8) == c)


def relative(e, st, s):
    """the text of path(s).relative_path(): without leading slashes; runs of slashes may be shortened"""
    r = e.fresh_str(st, "relative path")
    n = bv(r.len)
    J = z3.Function(f"source of dots!{e.fresh('x', 1).get_id()}", z3.BitVecSort(64), z3.BitVecSort(64))
    st.assume(z3.ULE(n, bv(s.len)))
    st.assume(z3.Implies(n != 0, bv(r.at(0), 8) != SLASH))
    ends = last_is(s, SLASH)
    st.assume(z3.Implies(bv(s.len) != 0, z3.If(ends, z3.Or(n == 0, last_is(r, SLASH)), z3.And(n != 0, z3.Not(last_is(r, SLASH))))))

    def dots(k):
        k = bv(k)
        j = J(k)
        two = z3.And(z3.ULT(k + 1, n), z3.ULT(k, n), bv(r.at(k), 8) == 46, bv(r.at(k + 1), 8) == 46)
        return z3.Implies(two, z3.And(z3.ULT(j, bv(s.len)), z3.ULT(j + 1, bv(s.len)), bv(s.at(j), 8) == 46, bv(s.at(j + 1), 8) == 46))
    add_forall(st, dots)
    st.ghost["relative"] = st.ghost.get("relative", ()) + ((s, r, J),)
    return r


def relative_path(e, st, a, name, ins):
    set_path(e, st, a[0], relative(e, st, S(e, st, a[1])))
    return None


def string(e, st, a, name, ins):
    e.set_str(st, a[0], S(e, st, a[1]))
    return None


def native(e, st, a, name, ins):
    return e.to_ptr(st, a[0])


def c_str(e, st, a, name, ins):
    return e.strdata(e.to_ptr(st, a[0]))


def empty(e, st, a, name, ins):
    n = S(e, st, a[0]).len
    return n == 0 if type(n) is int else norm_bool(n == 0)


def has_filename(e, st, a, name, ins):
    s = S(e, st, a[0])
    return norm_bool(z3.simplify(z3.And(bv(s.len) != 0, z3.Not(last_is(s, SLASH)))))


def join(e, st, p, q):
    """the text of p / q for a q of concrete length or known not to start with a slash"""
    absolute = z3.And(bv(q.len) != 0, bv(q.at(0), 8) == SLASH)
    if e.must(st, absolute):
        return q
    if not e.must(st, z3.Not(absolute)):
        e.fork_conds(st, [absolute, z3.Not(absolute)])
    sep = z3.And(bv(p.len) != 0, z3.Not(last_is(p, SLASH)))
    if e.must(st, sep):
        p = concat(p, lit("/"))
    elif not e.must(st, z3.Not(sep)):
        e.fork_conds(st, [sep, z3.Not(sep)])
    return concat(p, q)


def append(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    set_path(e, st, a[0], join(e, st, S(e, st, a[0]), source(e, st, ps, a[1:])))
    return a[0]


def slash(e, st, a, name, ins):
    set_path(e, st, a[0], join(e, st, S(e, st, a[1]), S(e, st, a[2])))
    return None


def extension(e, st, a, name, ins):
    s = S(e, st, a[1])
    x = e.fresh_str(st, "extension")
    set_path(e, st, a[0], x)
    st.ghost["extension"] = st.ghost.get("extension", ()) + ((s, x),)
    return None


def view_conv(e, st, a, name, ins):
    e.set_str(st, a[0], S(e, st, a[1]))
    return None


P = "std::filesystem::path::"
PATH = {P + "path": ctor, P + "~path": dtor, P + "operator=": assign, P + "assign": assign, P + "relative_path": relative_path, P + "string": string, P + "generic_string": string, P + "native": native, P + "c_str": c_str,
        P + "empty": empty, P + "has_filename": has_filename, P + "operator/=": append, P + "append": append, "std::filesystem::operator/": slash, P + "extension": extension,
        P + "operator std::string": view_conv}
slash.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 2
