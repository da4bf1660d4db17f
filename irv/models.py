"""Contracts assumed for the library functions the code calls (trusted base).

A handler h(e, st, args, name, ins) plays the part of the callee's contract at a call: it emits the precondition as an obligation and
produces the post-state.  Handlers are found by the qualified C++ name (template arguments stripped) or by the plain symbol."""
import z3
from .val import *
from .names import parse, norm
from .engine import NORET, PathEnd, Redo, load_typed, store_typed, simp, norm_bool, icmp, binop, do_call, Obj, Seg, StrTab

BY_QUAL = {}
BY_SYM = {}
PREFIX = []


def q(*names):
    def deco(f):
        for n in names:
            BY_QUAL[n] = f
        return f
    return deco


def sym(*names):
    def deco(f):
        for n in names:
            BY_SYM[n] = f
        return f
    return deco


def prefix(p):
    def deco(f):
        PREFIX.append((p, f))
        return f
    return deco


class Models:
    def __init__(self, extra=None):
        self.cache = {}
        self.parsed = {}
        self.extra = extra or {}      # qualified name or symbol -> handler: contracts of the code under verification

    def info(self, e, name):
        r = self.parsed.get(name)
        if r is None:
            r = self.parsed[name] = parse(e.m.demangled(name))
        return r

    def lookup(self, e, name):
        h = self.cache.get(name, 0)
        if h != 0:
            return h
        qual, params, targs = self.info(e, name)
        h = self.extra.get(name) or self.extra.get(qual) or BY_SYM.get(name)
        if h is None:
            h = BY_QUAL.get(qual)
        if h is None:
            for p, f in PREFIX:
                if name.startswith(p) or qual.startswith(p):
                    h = f
                    break
        if h is not None and getattr(h, "accept", None) and not h.accept(e, name, qual, params, targs):
            h = None
        if h is not None:
            e.modelled[name] = norm(e.m.demangled(name))
        self.cache[name] = h
        return h

    # ---- exceptions
    def extern_global(self, e, st, name, o):
        if name.startswith("_ZTV"):
            o.ro = True
            for k in range(2, 8):
                o.cells[8 * k] = (8, Ptr(("fn", f"!vt:{name}:{k - 2}")))
        elif name.startswith("_ZTI"):
            o.ro = True
        elif name in ("_ZSt4cout", "_ZSt4clog", "_ZSt4cerr"):
            pass
        else:
            o.init = "undef"

    def bases(self, e, ti):
        if ti in STD_BASE:
            b = STD_BASE[ti]
            return [b] if b else []
        g = e.m.globs.get(ti)
        if g is None or g["init"] is None or g["decl"]:
            return []
        out = []
        for x in g["init"][2][2:]:
            if type(x) is list and x[0] == "g" and x[1].startswith("_ZTI"):
                out.append(x[1])
        return out

    def is_subclass(self, e, ti, base):
        if ti == base:
            return True
        return any(self.is_subclass(e, b, base) for b in self.bases(e, ti))


_E = "_ZTISt9exception"
STD_BASE = {_E: None, "_ZTISt11logic_error": _E, "_ZTISt13runtime_error": _E, "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
            "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt11range_error": "_ZTISt13runtime_error",
            "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": _E, "_ZTISt8bad_cast": _E, "_ZTISt17bad_function_call": _E,
            "_ZTISt19bad_optional_access": _E, "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt12system_error": "_ZTISt13runtime_error",
            "_ZTISt12format_error": "_ZTISt13runtime_error", "_ZTINSt8ios_base7failureB5cxx11E": "_ZTISt12system_error",
            "_ZTINSt10filesystem7__cxx1116filesystem_errorE": "_ZTISt12system_error"}


def throw_std(e, st, cls, what=None):
    """throw a library exception of class cls (mangled suffix, e.g. 'St12out_of_range')"""
    oid = e.new_obj(st, "exception " + cls, "heap", 64)
    st.w(oid).cells[0] = (8, e.global_ptr(st, "_ZTV" + cls, 16) if ("_ZTV" + cls) in e.m.globs else Ptr(("vt", cls), 16))
    st.w(oid).meta["what"] = what if what is not None else e.fresh_str(st, "what")
    st.exc = (Ptr(oid), "_ZTI" + cls)
    e.unwind(st)
    return NORET


def catch_pending(st):
    pass


# ---------------------------------------------------------------- strings
def S(e, st, p):
    return e.get_str(st, p)


def cstr(e, st, p):
    """contents of a NUL-terminated array"""
    n = strlen(e, st, p)
    return e.region(st, p, n)


def strlen(e, st, p):
    if not isinstance(p, Ptr):
        p = e.to_ptr(st, p)
    if isinstance(p.obj, tuple) and p.obj[0] == "str":
        s = e.get_str(st, e.str_owner(p))
        off = lz(p.off)
        if type(s.len) is int and type(off) is int and s.len - off <= 256:
            for k in range(off, s.len):
                b = s.at(k)
                if type(b) is not int:
                    z = b == 0
                    if e.must(st, z3.Not(z)):
                        continue
                    break
                if b == 0:
                    return k - off
            else:
                return s.len - off
        n = e.fresh("strlen", 64)
        at = s.at
        st.assume(z3.And(z3.ULE(bv(off), bv(s.len)), z3.ULE(n, bv(s.len) - bv(off))))
        st.assume(z3.Or(n == bv(s.len) - bv(off), bv(s.at(add64(off, n)), 8) == 0))
        add_forall(st, lambda k, s=s, off=off, n=n: z3.Implies(z3.ULT(bv(k), n), bv(s.at(add64(off, k)), 8) != 0))
        return n
    e.getobj(st, p, "read", 1)
    o = st.objs[p.obj]
    if type(p.off) is int and type(o.size) is int:
        for k in range(p.off, o.size):
            b = e.load_cell(st, p.obj, k, 1)
            if type(b) is not int:
                break
            if b == 0:
                return k - p.off
        else:
            e.oblige(st, False, "memory access in bounds", "string without terminator")
    z = o.meta.get("zero_at")
    if z is not None:
        # a C string argument: terminator at index z, none before
        return sub64(z, lz(p.off))
    raise ToolLimit("length of a symbolic C string")


def add_forall(st, f):
    st.foralls = st.foralls + (f,)


def inst(e, st, *idx):
    """instantiate the quantified facts of this path at the given indices"""
    for f in st.foralls:
        for i in idx:
            c = f(i)
            if c is not None:
                st.assume(c)


def str_eq(e, st, a, b):
    """equality of two byte strings as int/z3 Bool"""
    la, lb = a.len, b.len
    if type(la) is int and type(lb) is int and la != lb:
        return 0
    n = la if type(la) is int else lb
    if type(n) is int and n <= 256:
        cs = [] if same(la, lb) is True else [bv(la) == bv(lb)]
        for k in range(n):
            x, y = a.at(k), b.at(k)
            if type(x) is int and type(y) is int:
                if x != y:
                    return 0
                continue
            cs.append(bv(x, 8) == bv(y, 8))
        return norm_bool(z3.And(*cs)) if cs else 1
    r = e.fresh("streq", 1)
    j = e.fresh("diff", 64)
    st.assume(z3.Implies(r, bv(la) == bv(lb)))
    st.assume(z3.Or(r, bv(la) != bv(lb), z3.And(z3.ULT(j, bv(la)), bv(a.at(j), 8) != bv(b.at(j), 8))))
    add_forall(st, lambda k, a=a, b=b, r=r: z3.Implies(z3.And(r, z3.ULT(bv(k), bv(a.len))), bv(a.at(k), 8) == bv(b.at(k), 8)))
    return r


def sv_args(e, st, n, p):
    return e.region(st, p, n)


def it_ptr(e, st, v):
    """an iterator argument passed directly as a pointer"""
    return v if isinstance(v, Ptr) else e.to_ptr(st, v)


@q("std::string::basic_string")
def m_str_ctor(e, st, a, name, ins):
    _, ps, targs = e.models.info(e, name)
    this = a[0]
    if not ps or ps == ["std::allocator<char> const&"]:
        v = lit("")
    elif ps[0] == "std::string const&":
        v = S(e, st, a[1])
        if len(ps) >= 2 and ps[1] == "unsigned long":
            n = a[3] if len(ps) > 2 and ps[2] == "unsigned long" else M64
            return str_assign_sub(e, st, this, v, a[2], n)
    elif ps[0] == "std::string&&":
        v = S(e, st, a[1])
        e.set_str(st, this, v)
        e.set_str(st, a[1], lit(""))
        return None
    elif ps[0] == "char const*":
        if len(ps) >= 2 and ps[1] == "unsigned long":
            if not (type(a[2]) is int and a[2] == 0):
                nonnull(e, st, a[1], a[2])
            v = e.region(st, a[1], a[2])
        elif len(ps) >= 2 and ps[1] == "char const*":
            v = e.region(st, a[1], ptr_diff(e, st, a[2], a[1]))
        else:
            nonnull(e, st, a[1])
            v = cstr(e, st, a[1])
    elif ps[0] == "unsigned long":
        n = a[1]
        if type(n) is int and n >= 1 << 62 or type(n) is not int and e.feasible(st, z3.UGE(bv(n), bv(1 << 62))):
            if type(n) is int or e.must(st, z3.UGE(bv(n), bv(1 << 62))):
                return throw_std(e, st, "St12length_error")
            s2 = st.clone()
            s2.assume(z3.UGE(bv(n), bv(1 << 62)))
            e.work.append(Raise(s2, "St12length_error"))
            st.assume(z3.ULT(bv(n), bv(1 << 62)))
        v = StrVal(n, AConst(a[2]))
    elif ps[0].startswith("std::string_view"):
        p, n = load_sv(e, st, a[1])
        v = e.region(st, p, n)
        if len(ps) >= 3 and ps[1] == "unsigned long":
            return str_assign_sub(e, st, this, v, a[2], a[3])
    elif ps[0] in ("char*", "std::initializer_list<char>"):
        if ps[0] == "char*":
            v = e.region(st, a[1], ptr_diff(e, st, a[2], a[1]))
        else:
            v = e.region(st, a[1], a[2])
    elif "__normal_iterator<char" in ps[0]:
        v = e.region(st, a[1], ptr_diff(e, st, a[2], a[1]))
    elif "filesystem" in ps[0]:
        raise ToolLimit("string constructor " + ps[0])
    else:
        raise ToolLimit("string constructor " + str(ps))
    e.set_str(st, this, v)
    return None


class Raise:
    """a forked state that continues by throwing a library exception"""
    __slots__ = ("st", "cls")

    def __init__(self, st, cls):
        self.st, self.cls = st, cls


def maybe_throw(e, st, cond, cls):
    """split off the path on which cond holds: it throws; the current path continues with not cond"""
    cond = norm_bool(cond)
    if type(cond) is int:
        if cond:
            throw_std(e, st, cls)
            return True
        return False
    ft = e.feasible(st, cond)
    if not ft:
        st.assume(z3.Not(cond))
        return False
    if not e.feasible(st, z3.Not(cond)):
        throw_std(e, st, cls)
        return True
    s2 = st.clone()
    s2.assume(cond)
    e.work.append(Raise(s2, cls))
    st.assume(z3.Not(cond))
    return False


def nonnull(e, st, p, n=None):
    if isinstance(p, Ptr) and p.obj == 0:
        e.oblige(st, False if n is None or type(n) is int else bv(n) == 0, "precondition: character pointer not null")


def ptr_diff(e, st, a, b):
    a, b = e.to_ptr(st, a), e.to_ptr(st, b)
    if a.obj != b.obj:
        if a.obj == 0 and b.obj == 0:
            return 0
        e.oblige(st, False, "precondition: iterators from one range")
    n = lz(lsub(a.off, b.off))
    if type(n) is int:
        if n >= 1 << 63:
            e.oblige(st, False, "precondition: iterators in order")
    else:
        e.oblige(st, z3.ULE(n, bv(BIGN)), "precondition: iterators in order")
    return n


BIGN = 1 << 62


def load_sv(e, st, p):
    """string_view / span object in memory: (ptr, len)"""
    p = e.to_ptr(st, p)
    n = e.load(st, p, 8)
    d = e.load(st, p.add(8), 8, True)
    return d, n


def str_assign_sub(e, st, this, v, pos, n):
    c = norm_bool(z3.UGT(bv(pos), bv(v.len)))
    if maybe_throw(e, st, c, "St12out_of_range"):
        return NORET
    e.set_str(st, this, substr_n(e, st, v, pos, n))
    return None


def substr_n(e, st, v, pos, n):
    rest = sub64(v.len, pos)
    return substr(v, pos, umin(e, st, n, rest))


def umin(e, st, a, b):
    if type(a) is int and type(b) is int:
        return min(a, b)
    if type(a) is int and a == M64:
        return b
    c = z3.ULT(bv(a), bv(b))
    if e.must(st, c):
        return a
    if e.must(st, z3.Not(c)):
        return b
    return z3.If(c, bv(a), bv(b))


@q("std::string::~basic_string")
def m_str_dtor(e, st, a, name, ins):
    e.kill_str(st, a[0])
    return None


def setv(e, st, p, v):
    e.set_str(st, p, v)
    return p


def arg_text(e, st, ps, a):
    """source text of append/assign/operator= style parameter lists"""
    if not ps:
        return None
    p0 = ps[0]
    if p0 in ("std::string const&", "std::string&&"):
        v = S(e, st, a[0])
        if len(ps) >= 2:
            if maybe_throw(e, st, z3.UGT(bv(a[1]), bv(v.len)), "St12out_of_range"):
                return NORET
            return substr_n(e, st, v, a[1], a[2] if len(ps) > 2 else M64)
        return v
    if p0 == "char const*" or p0 == "char*":
        if len(ps) == 1:
            nonnull(e, st, a[0])
            return cstr(e, st, a[0])
        if ps[1] == "unsigned long":
            return e.region(st, a[0], a[1])
        return e.region(st, a[0], ptr_diff(e, st, a[1], a[0]))
    if p0 == "char":
        return StrVal(1, ALit([a[0]]))
    if p0 == "unsigned long":
        n = a[0]
        if type(n) is not int:
            n = e.concretize(st, n) if e.concretize(st, n) is not None else n
        return StrVal(n, AConst(a[1]))
    if p0 == "std::string_view const&":
        p, n = load_sv(e, st, a[0])
        v = e.region(st, p, n)
        if len(ps) >= 2:
            if maybe_throw(e, st, z3.UGT(bv(a[1]), bv(v.len)), "St12out_of_range"):
                return NORET
            return substr_n(e, st, v, a[1], a[2])
        return v
    if p0 == "std::string_view":
        return e.region(st, a[1], a[0])
    if "__normal_iterator<char" in p0:
        return e.region(st, a[0], ptr_diff(e, st, a[1], a[0]))
    if p0 == "std::initializer_list<char>":
        return e.region(st, a[0], a[1])
    raise ToolLimit("string parameters " + str(ps))


@q("std::string::operator+=", "std::string::append", "std::string::push_back")
def m_str_append(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    t = arg_text(e, st, ps, a[1:])
    if t is NORET:
        return NORET
    e.set_str(st, a[0], concat(S(e, st, a[0]), t))
    return a[0]


@q("std::string::operator=", "std::string::assign")
def m_str_assign(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    t = arg_text(e, st, ps, a[1:])
    if t is NORET:
        return NORET
    if ps[0] == "std::string&&" and not (a[0].obj == a[1].obj and same(lz(a[0].off), lz(a[1].off))):
        e.set_str(st, a[0], t)
        e.set_str(st, a[1], lit(""))
        return a[0]
    e.set_str(st, a[0], t)
    return a[0]


@q("std::string::size", "std::string::length")
def m_str_size(e, st, a, name, ins):
    return S(e, st, a[0]).len


@q("std::string::empty")
def m_str_empty(e, st, a, name, ins):
    n = S(e, st, a[0]).len
    return int(n == 0) if type(n) is int else norm_bool(n == 0)


@q("std::string::clear")
def m_str_clear(e, st, a, name, ins):
    S(e, st, a[0])
    e.set_str(st, a[0], lit(""))
    return None


@q("std::string::capacity", "std::string::max_size")
def m_str_cap(e, st, a, name, ins):
    c = e.fresh("capacity", 64)
    st.assume(z3.UGE(c, bv(S(e, st, a[0]).len)))
    st.assume(z3.ULT(c, bv(1 << 62)))
    return c


@q("std::string::reserve", "std::string::shrink_to_fit")
def m_str_reserve(e, st, a, name, ins):
    S(e, st, a[0])
    if len(a) > 1 and maybe_throw(e, st, z3.UGT(bv(a[1]), bv((1 << 62))), "St12length_error"):
        return NORET
    return None


@q("std::string::data", "std::string::c_str", "std::string::begin", "std::string::cbegin")
def m_str_data(e, st, a, name, ins):
    S(e, st, a[0])
    return e.strdata(e.to_ptr(st, a[0]))


@q("std::string::end", "std::string::cend")
def m_str_end(e, st, a, name, ins):
    return e.strdata(e.to_ptr(st, a[0]), lin(S(e, st, a[0]).len))


@q("std::string::operator[]")
def m_str_idx(e, st, a, name, ins):
    s = S(e, st, a[0])
    i = a[1]
    e.oblige(st, norm_bool(z3.ULE(bv(i), bv(s.len))) if not (type(i) is int and type(s.len) is int) else i <= s.len, "precondition: string index within size")
    return e.strdata(e.to_ptr(st, a[0]), lin(i))


@q("std::string::at")
def m_str_at(e, st, a, name, ins):
    s = S(e, st, a[0])
    if maybe_throw(e, st, z3.UGE(bv(a[1]), bv(s.len)), "St12out_of_range"):
        return NORET
    return e.strdata(e.to_ptr(st, a[0]), lin(a[1]))


@q("std::string::front", "std::string::back", "std::string::pop_back")
def m_str_front(e, st, a, name, ins):
    s = S(e, st, a[0])
    e.oblige(st, norm_bool(bv(s.len) != 0) if type(s.len) is not int else s.len != 0, "precondition: string not empty")
    if "front" in name:
        return e.strdata(e.to_ptr(st, a[0]))
    if "pop_back" in name:
        e.set_str(st, a[0], StrVal(sub64(s.len, 1), s.arr))
        return None
    return e.strdata(e.to_ptr(st, a[0]), lin(sub64(s.len, 1)))


@q("std::string::resize")
def m_str_resize(e, st, a, name, ins):
    s = S(e, st, a[0])
    n = a[1]
    if maybe_throw(e, st, z3.UGT(bv(n), bv(1 << 62)), "St12length_error"):
        return NORET
    c = a[2] if len(a) > 2 else 0
    grow = ite(norm_bool(z3.UGT(bv(n), bv(s.len))) if not (type(n) is int and type(s.len) is int) else int(n > s.len), sub64(n, s.len), 0, 64)
    e.set_str(st, a[0], StrVal(n, ACopy(s.arr, s.len, grow, AConst(c), 0)))
    return None


@q("std::string::erase")
def m_str_erase(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    s = S(e, st, a[0])
    if not ps or ps[0] == "unsigned long":
        pos = a[1] if len(a) > 1 else 0
        n = a[2] if len(a) > 2 else M64
        if maybe_throw(e, st, z3.UGT(bv(pos), bv(s.len)), "St12out_of_range"):
            return NORET
        n = umin(e, st, n, sub64(s.len, pos))
        ret = a[0]
    else:
        p = e.to_ptr(st, a[1])
        own = e.strdata(e.to_ptr(st, a[0]))
        if p.obj != own.obj:
            e.oblige(st, False, "precondition: erase position belongs to the string")
        pos = lz(p.off)
        if len(ps) == 1:
            e.oblige(st, norm_bool(z3.ULT(bv(pos), bv(s.len))) if not (type(pos) is int and type(s.len) is int) else pos < s.len, "precondition: erase position within the string")
            n = 1
        else:
            n = ptr_diff(e, st, a[2], a[1])
            e.oblige(st, norm_bool(z3.And(z3.ULE(bv(pos), bv(s.len)), z3.ULE(bv(n), bv(s.len) - bv(pos)))), "precondition: erase range within the string")
        ret = p
    tail = StrVal(sub64(sub64(s.len, pos), n), shift(s.arr, add64(pos, n)))
    e.set_str(st, a[0], StrVal(sub64(s.len, n), ACopy(s.arr, pos, tail.len, tail.arr, 0)))
    return ret


@q("std::string::insert", "std::string::replace")
def m_str_insert(e, st, a, name, ins):
    raise ToolLimit("std::string::insert/replace")


@q("std::string::swap")
def m_str_swap(e, st, a, name, ins):
    x, y = S(e, st, a[0]), S(e, st, a[1])
    e.set_str(st, a[0], y)
    e.set_str(st, a[1], x)
    return None


@q("std::string::substr")
def m_str_substr(e, st, a, name, ins):
    v = S(e, st, a[1])
    return str_assign_sub(e, st, a[0], v, a[2] if len(a) > 2 else 0, a[3] if len(a) > 3 else M64)


@q("std::string::operator std::string_view")
def m_str_sv(e, st, a, name, ins):
    return [S(e, st, a[0]).len, e.strdata(e.to_ptr(st, a[0]))]


m_str_sv2 = m_str_sv
BY_QUAL["std::string::operator std::basic_string_view"] = m_str_sv


def find_text(e, st, s, t, pos, rev=False):
    """index of the first (last) occurrence of t in s from pos, as a value with its defining facts"""
    tl = t.len
    if type(tl) is not int or tl > 64:
        raise ToolLimit("search for a symbolic text")
    if type(s.len) is int and type(pos) is int and s.len <= 64:
        # concrete length: exact
        r = M64
        if rev:
            rng = range(0, min(pos, s.len - tl) + 1) if s.len >= tl else range(0)
        else:
            rng = range(s.len - tl, pos - 1, -1)
        for k in rng:
            m = str_eq(e, st, StrVal(tl, shift(s.arr, k)), t)
            if type(m) is int:
                r = k if m else r
            else:
                r = z3.If(m, bv(k), bv(r))
        return r if type(r) is int else simp(r)
    r = e.fresh("find", 64)
    npos = bv(M64)

    def match(k):
        return z3.And(*([z3.ULE(bv(k) + bv(tl), bv(s.len)), z3.ULE(bv(k), bv(s.len))] + [bv(s.at(add64(k, i)), 8) == bv(t.at(i), 8) for i in range(tl)]))
    if rev:
        st.assume(z3.Or(r == npos, z3.And(z3.ULE(r, bv(pos)), match(r))))
        add_forall(st, lambda k: z3.Implies(z3.And(z3.ULE(bv(k), bv(pos)), z3.Or(r == npos, z3.UGT(bv(k), r))), z3.Not(match(k))))
    else:
        st.assume(z3.Or(r == npos, z3.And(z3.UGE(r, bv(pos)), match(r))))
        add_forall(st, lambda k: z3.Implies(z3.And(z3.UGE(bv(k), bv(pos)), z3.Or(r == npos, z3.ULT(bv(k), r))), z3.Not(match(k))))
    inst(e, st, r)
    return r


@q("std::string::find", "std::string::rfind", "std::string::contains", "std::string_view::find", "std::string_view::rfind", "std::string_view::contains")
def m_find(e, st, a, name, ins):
    qual, ps, _ = e.models.info(e, name)
    if qual.startswith("std::string_view"):
        p, n = load_sv(e, st, a[0])
        s = e.region(st, p, n)
    else:
        s = S(e, st, a[0])
    rev = "rfind" in qual
    b = a[1:]
    if ps[0] == "char":
        t, k = StrVal(1, ALit([b[0]])), 1
    elif ps[0] == "char const*":
        if len(ps) == 3:
            t = e.region(st, b[0], b[2])
        else:
            t = cstr(e, st, b[0])
        k = 1
    elif ps[0] == "std::string const&":
        t, k = S(e, st, b[0]), 1
    elif ps[0] == "std::string_view const&":
        p, n = load_sv(e, st, b[0])
        t, k = e.region(st, p, n), 1
    elif ps[0] == "std::string_view":
        t, k = e.region(st, b[1], b[0]), 2
    else:
        raise ToolLimit("find " + str(ps))
    pos = b[k] if len(b) > k else (M64 if rev else 0)
    if type(t.len) is not int:
        c = e.concretize(st, t.len)
        if c is not None:
            t = StrVal(c, t.arr)
    r = find_text(e, st, s, t, pos, rev)
    if "contains" in qual:
        return norm_bool(bv(r) != bv(M64))
    return r


@q("std::string::compare")
def m_str_compare(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    x = S(e, st, a[0])
    if ps[0] in ("std::string const&",):
        y = S(e, st, a[1])
    elif ps[0] == "char const*":
        y = cstr(e, st, a[1])
    elif ps[0] == "std::string_view const&":
        p, n = load_sv(e, st, a[1])
        y = e.region(st, p, n)
    else:
        raise ToolLimit("string compare")
    c = str_eq(e, st, x, y)
    r = e.fresh("cmp", 32)
    st.assume((r == 0) == boolv(c))
    return r


@q("std::string::starts_with", "std::string::ends_with")
def m_str_starts(e, st, a, name, ins):
    qual, ps, _ = e.models.info(e, name)
    x = S(e, st, a[0])
    if ps[0] == "char":
        y = StrVal(1, ALit([a[1]]))
    elif ps[0] == "char const*":
        y = cstr(e, st, a[1])
    elif ps[0] == "std::string_view":
        y = e.region(st, a[2], a[1])
    else:
        raise ToolLimit("starts_with")
    if type(y.len) is not int:
        raise ToolLimit("starts_with symbolic")
    long_enough = z3.UGE(bv(x.len), bv(y.len))
    off = 0 if "starts" in qual else sub64(x.len, y.len)
    eq = str_eq(e, st, StrVal(y.len, shift(x.arr, off)), y)
    return norm_bool(z3.And(long_enough, boolv(eq)))


def free_op_text(e, st, p, a, i):
    """operand text of a free string operator: returns (StrVal, next arg index)"""
    if p in ("std::string const&", "std::string&&"):
        return S(e, st, a[i]), i + 1
    if p == "char const*":
        return cstr(e, st, a[i]), i + 1
    if p == "char":
        return StrVal(1, ALit([a[i]])), i + 1
    raise ToolLimit("string operand " + p)


@q("std::operator==", "std::operator!=")
def m_str_eq(e, st, a, name, ins):
    qual, ps, targs = e.models.info(e, name)
    x, i = free_op_text(e, st, tparam(ps[0]), a, 0)
    y, i = free_op_text(e, st, tparam(ps[1]), a, i)
    r = str_eq(e, st, x, y)
    if qual.endswith("!="):
        r = norm_bool(z3.Not(boolv(r)))
    return r


def tparam(p):
    return p


m_str_eq.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 2 and all(
    p in ("std::string const&", "char const*") for p in params) and "std::string const&" in params


@q("std::operator+")
def m_str_plus(e, st, a, name, ins):
    qual, ps, targs = e.models.info(e, name)
    x, i = free_op_text(e, st, ps[0], a, 1)
    y, i = free_op_text(e, st, ps[1], a, i)
    for k, p in enumerate(ps):
        if p == "std::string&&":
            e.set_str(st, a[1 + k], lit(""))
    e.set_str(st, a[0], concat(x, y))
    return None


m_str_plus.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 2 and any("std::string" in p for p in params)


def dec_len(e, st, v, w, signed):
    """decimal text of a value: contents left abstract unless concrete; known: denotes v"""
    if type(v) is int:
        return lit(str(sgn(v, w) if signed else v))
    X = z3.SignExt(64 - w, v) if signed and w < 64 else (z3.ZeroExt(64 - w, v) if w < 64 else v)
    # uninterpreted text function of the 64-bit value
    f = DECLEN(X)
    st.assume(z3.And(z3.UGE(f, bv(1)), z3.ULE(f, bv(20))))
    return StrVal(f, AFn(lambda k, X=X: DECAT(X, bv(k))))


DECLEN = z3.Function("dec_len", z3.BitVecSort(64), z3.BitVecSort(64))
DECAT = z3.Function("dec_at", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))


@q("std::to_string")
def m_to_string(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    p = ps[0]
    w = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}.get(p)
    if w is None:
        raise ToolLimit("to_string of " + p)
    e.set_str(st, a[0], dec_len(e, st, a[1], w, not p.startswith("unsigned")))
    return None


# ---------------------------------------------------------------- C library
@sym("strlen", "__builtin_strlen")
def m_strlen(e, st, a, name, ins):
    return strlen(e, st, a[0])


def mem_eq(e, st, p, r, n):
    x, y = e.region(st, p, n), e.region(st, r, n)
    return x, y


@sym("memcmp", "bcmp", "__builtin_memcmp")
def m_memcmp(e, st, a, name, ins):
    n = a[2]
    if type(n) is not int:
        k = e.concretize(st, n)
        if k is not None:
            n = k
    x, y = mem_eq(e, st, a[0], a[1], n)
    if type(n) is int and n <= 64:
        r = 0
        for i in range(n - 1, -1, -1):
            p, s = x.at(i), y.at(i)
            if type(p) is int and type(s) is int and type(r) is int:
                if p != s:
                    r = 1 if p > s else mask(-1, 32)
                continue
            r = z3.If(bv(p, 8) == bv(s, 8), bv(r, 32), z3.If(z3.ULT(bv(p, 8), bv(s, 8)), bv(-1, 32), bv(1, 32)))
        return r if type(r) is int else simp(r)
    c = str_eq(e, st, x, y)
    r = e.fresh("memcmp", 32)
    st.assume((r == 0) == boolv(c))
    return r


@q("std::char_traits::compare")
def m_ct_compare(e, st, a, name, ins):
    n = a[2]
    if type(n) is int and n == 0:
        return 0
    if type(n) is not int and e.must(st, bv(n) == 0):
        return 0
    return m_memcmp(e, st, a, name, ins)


@q("std::char_traits::length")
def m_ct_length(e, st, a, name, ins):
    return strlen(e, st, a[0])


@q("std::char_traits::copy", "std::char_traits::move")
def m_ct_copy(e, st, a, name, ins):
    if type(a[2]) is int and a[2] == 0:
        return a[0]
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@prefix("llvm.memcpy.")
def m_memcpy(e, st, a, name, ins):
    e.memcpy(st, a[0], a[1], a[2])
    return None


@prefix("llvm.memmove.")
def m_memmove(e, st, a, name, ins):
    e.memcpy(st, a[0], a[1], a[2])
    return None


@sym("memcpy", "memmove")
def m_memcpy2(e, st, a, name, ins):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@prefix("llvm.memset.")
def m_memset(e, st, a, name, ins):
    n = a[2]
    if type(n) is not int:
        k = e.concretize(st, n)
        n = k if k is not None else n
    p = e.to_ptr(st, a[0])
    if type(n) is int and type(p.off) is int and type(p.obj) is int and p.obj and n and type(a[1]) is int:
        e.getobj(st, p, "write", n, True)
        o = st.w(p.obj)
        if p.off == 0 and type(o.size) is int and n == o.size and a[1] == 0:
            o.cells, o.segs, o.init = {}, [], "zero"
            return None
        if n > 64 and not any(p.off <= k < p.off + n for k in o.cells) and e.seg_at(o, p.off, n) is None:
            f = e.array_field(o, p.off)
            if f and f[2] > 1 and n % f[2] == 0 and f[1] <= 1024:
                for k in range(0, n, f[2]):
                    o.cells[p.off + k] = (f[2], int.from_bytes(bytes([a[1]] * f[2]), "little"))
                return None
    e.write_region(st, p, StrVal(n, AConst(a[1])))
    return None


BY_SYM["memset"] = lambda e, st, a, name, ins: (m_memset(e, st, [a[0], cast8(a[1]), a[2]], name, ins), a[0])[1]


def cast8(v):
    return v & 255 if type(v) is int else simp(z3.Extract(7, 0, v))


def ctype(pred_int, pred_z):
    def h(e, st, a, name, ins):
        c = a[0]
        if type(c) is int:
            v = sgn(c, 32)
            e.oblige(st, -128 <= v <= 255, "precondition: character class argument in range", name)
            return 1 if v >= 0 and pred_int(v) else 0
        e.oblige(st, z3.And(c >= bv(-128, 32), c <= bv(255, 32)), "precondition: character class argument in range", name)
        return simp(z3.If(pred_z(c), bv(1, 32), bv(0, 32)))
    return h


def rng(c, lo, hi):
    return z3.And(c >= bv(ord(lo), 32), c <= bv(ord(hi), 32))


def zalpha(c):
    return z3.Or(rng(c, "a", "z"), rng(c, "A", "Z"))


BY_SYM["isalnum"] = ctype(lambda v: v < 128 and chr(v).isalnum(), lambda c: z3.Or(zalpha(c), rng(c, "0", "9")))
BY_SYM["isalpha"] = ctype(lambda v: v < 128 and chr(v).isalpha(), zalpha)
BY_SYM["isdigit"] = ctype(lambda v: 48 <= v <= 57, lambda c: rng(c, "0", "9"))
BY_SYM["isxdigit"] = ctype(lambda v: v < 128 and chr(v) in "0123456789abcdefABCDEF", lambda c: z3.Or(rng(c, "0", "9"), rng(c, "a", "f"), rng(c, "A", "F")))
BY_SYM["isprint"] = ctype(lambda v: 32 <= v < 127, lambda c: rng(c, " ", "~"))
BY_SYM["isspace"] = ctype(lambda v: v == 32 or 9 <= v <= 13, lambda c: z3.Or(c == 32, rng(c, "\t", "\r")))
BY_SYM["iscntrl"] = ctype(lambda v: v < 32 or v == 127, lambda c: z3.Or(rng(c, "\0", "\x1f"), c == 127))
BY_SYM["isupper"] = ctype(lambda v: 65 <= v <= 90, lambda c: rng(c, "A", "Z"))
BY_SYM["islower"] = ctype(lambda v: 97 <= v <= 122, lambda c: rng(c, "a", "z"))


@sym("toupper", "tolower")
def m_toupper(e, st, a, name, ins):
    c = a[0]
    if type(c) is int:
        v = sgn(c, 32)
        e.oblige(st, -128 <= v <= 255, "precondition: character class argument in range", name)
        if name == "toupper":
            return c - 32 if 97 <= v <= 122 else c
        return c + 32 if 65 <= v <= 90 else c
    e.oblige(st, z3.And(c >= bv(-128, 32), c <= bv(255, 32)), "precondition: character class argument in range", name)
    if name == "toupper":
        return simp(z3.If(rng(c, "a", "z"), c - 32, c))
    return simp(z3.If(rng(c, "A", "Z"), c + 32, c))


# ---------------------------------------------------------------- LLVM intrinsics
@prefix("llvm.lifetime.")
def m_life(e, st, a, name, ins):
    return None


@prefix("llvm.dbg.")
def m_dbg(e, st, a, name, ins):
    return None


@prefix("llvm.experimental.noalias")
def m_noalias(e, st, a, name, ins):
    return None


@prefix("llvm.assume")
def m_assume(e, st, a, name, ins):
    c = a[0]
    e.oblige(st, boolv(c) if type(c) is not int else bool(c), "assumption stated by the code holds")
    return None


@prefix("llvm.expect.")
def m_expect(e, st, a, name, ins):
    return a[0]


@prefix("llvm.is.constant")
def m_isconst(e, st, a, name, ins):
    return 0


@prefix("llvm.objectsize")
def m_objsize(e, st, a, name, ins):
    return M64


from .engine import UBSAN


@prefix("llvm.ubsantrap")
def m_ubsantrap(e, st, a, name, ins):
    k = a[0]
    e.oblige(st, False, "no undefined behaviour: " + UBSAN.get(k, f"kind {k}"))
    raise PathEnd()


@prefix("llvm.trap")
def m_trap(e, st, a, name, ins):
    e.oblige(st, False, "no trap reached")
    raise PathEnd()


def overflow(op, signed):
    def h(e, st, a, name, ins):
        w = int(name.rsplit("i", 1)[1])
        x, y = a
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise ToolLimit("overflow on pointer")
        r = binop(e, st, op, x, y, w)
        if type(x) is int and type(y) is int:
            if signed:
                X, Y = sgn(x, w), sgn(y, w)
                t = X + Y if op == "add" else X - Y if op == "sub" else X * Y
                o = int(not -(1 << (w - 1)) <= t < 1 << (w - 1))
            else:
                t = x + y if op == "add" else x - y if op == "sub" else x * y
                o = int(not 0 <= t < 1 << w)
            return [r, o]
        ext = (z3.SignExt if signed else z3.ZeroExt)
        k = w if op == "mul" else 1
        X, Y = ext(k, bv(x, w)), ext(k, bv(y, w))
        t = X + Y if op == "add" else X - Y if op == "sub" else X * Y
        o = norm_bool(t != ext(k, bv(r, w)))
        return [r, o]
    return h


PREFIX.append(("llvm.sadd.with.overflow.", overflow("add", True)))
PREFIX.append(("llvm.ssub.with.overflow.", overflow("sub", True)))
PREFIX.append(("llvm.smul.with.overflow.", overflow("mul", True)))
PREFIX.append(("llvm.uadd.with.overflow.", overflow("add", False)))
PREFIX.append(("llvm.usub.with.overflow.", overflow("sub", False)))
PREFIX.append(("llvm.umul.with.overflow.", overflow("mul", False)))


@prefix("llvm.bswap.")
def m_bswap(e, st, a, name, ins):
    w = int(name.rsplit("i", 1)[1])
    if type(a[0]) is int:
        return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
    x = a[0]
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))


def minmax(op):
    def h(e, st, a, name, ins):
        w = int(name.rsplit("i", 1)[1])
        x, y = a[0], a[1]
        if type(x) is int and type(y) is int:
            if op[0] == "s":
                f = min if op == "smin" else max
                return mask(f(sgn(x, w), sgn(y, w)), w)
            return min(x, y) if op == "umin" else max(x, y)
        X, Y = bv(x, w), bv(y, w)
        c = {"smin": X < Y, "smax": X > Y, "umin": z3.ULT(X, Y), "umax": z3.UGT(X, Y)}[op]
        return simp(z3.If(c, X, Y))
    return h


for _o in ("smin", "smax", "umin", "umax"):
    PREFIX.append((f"llvm.{_o}.", minmax(_o)))


@prefix("llvm.abs.")
def m_abs(e, st, a, name, ins):
    w = int(name.rsplit("i", 1)[1])
    if type(a[0]) is int:
        return mask(abs(sgn(a[0], w)), w)
    return simp(z3.If(a[0] < 0, -a[0], a[0]))


def funnel(left):
    def h(e, st, a, name, ins):
        w = int(name.rsplit("i", 1)[1])
        x, y, s = [bv(v, w) for v in a[:3]]
        s = z3.URem(s, bv(w, w))
        c = z3.Concat(x, y)
        if left:
            r = z3.Extract(2 * w - 1, w, c << z3.ZeroExt(w, s))
        else:
            r = z3.Extract(w - 1, 0, z3.LShR(c, z3.ZeroExt(w, s)))
        r = simp(r)
        return r.as_long() if z3.is_bv_value(r) else r
    return h


PREFIX.append(("llvm.fshl.", funnel(True)))
PREFIX.append(("llvm.fshr.", funnel(False)))


@prefix("llvm.eh.typeid.for")
def m_typeid(e, st, a, name, ins):
    from .engine import typeid, tinfo_name
    return typeid(e, tinfo_name(e, a[0]))


@prefix("llvm.umul_fix")
def m_unsup(e, st, a, name, ins):
    raise ToolLimit(name)


@prefix("llvm.threadlocal.address")
def m_tls(e, st, a, name, ins):
    return a[0]


@prefix("llvm.ptrmask")
def m_ptrmask(e, st, a, name, ins):
    raise ToolLimit(name)


@prefix("llvm.fabs.")
def m_fabs(e, st, a, name, ins):
    w = 32 if name.endswith("f32") else 64
    return binop(e, st, "and", a[0], (1 << (w - 1)) - 1, w)


# ---------------------------------------------------------------- runtime
@sym("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc")
def m_new(e, st, a, name, ins):
    n = a[0]
    if type(n) is not int:
        k = e.concretize(st, n)
        n = k if k is not None else n
    return Ptr(e.new_obj(st, "heap", "heap", n))


@sym("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t")
def m_delete(e, st, a, name, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == 0:
        return None
    p = e.to_ptr(st, p)
    if isinstance(p.obj, tuple):
        raise ToolLimit("delete of " + str(p.obj))
    o = st.w(p.obj)
    if not o.alive or o.kind != "heap" or not (type(p.off) is int and p.off == 0):
        e.oblige(st, False, "delete of a live heap object", o.name)
    o.alive = False
    return None


@sym("__cxa_guard_acquire")
def m_guard_acq(e, st, a, name, ins):
    p = a[0]
    g = st.ghost.get(("guard", p.obj))
    if g:
        return 0
    if not st.ghost.get("_guard"):
        st.ghost["_guard_pre"] = {k: o for k, o in st.objs.items() if o.kind != "global"}
    st.ghost["_guard"] = st.ghost.get("_guard", 0) + 1
    return 1


@sym("__cxa_guard_release")
def m_guard_rel(e, st, a, name, ins):
    st.ghost["_guard"] = st.ghost.get("_guard", 0) - 1
    st.ghost[("guard", a[0].obj)] = 1
    return None


@sym("__cxa_guard_abort")
def m_guard_abort(e, st, a, name, ins):
    st.ghost["_guard"] = st.ghost.get("_guard", 0) - 1
    return None


@sym("__cxa_atexit", "__cxa_thread_atexit")
def m_atexit(e, st, a, name, ins):
    return 0


@sym("__cxa_allocate_exception")
def m_alloc_exc(e, st, a, name, ins):
    return Ptr(e.new_obj(st, "exception", "heap", a[0]))


@sym("__cxa_free_exception")
def m_free_exc(e, st, a, name, ins):
    return None


@sym("__cxa_throw")
def m_throw(e, st, a, name, ins):
    from .engine import tinfo_name
    st.exc = (a[0], tinfo_name(e, a[1]))
    e.unwind(st)
    return NORET


@sym("__cxa_rethrow")
def m_rethrow(e, st, a, name, ins):
    if not st.caught:
        e.oblige(st, False, "rethrow without an active exception")
    st.exc = st.caught[-1]
    e.unwind(st)
    return NORET


@sym("__cxa_begin_catch")
def m_begin_catch(e, st, a, name, ins):
    st.caught = st.caught + (st.exc,)
    return a[0]


@sym("__cxa_get_exception_ptr")
def m_get_exc(e, st, a, name, ins):
    return a[0]


@sym("__cxa_end_catch")
def m_end_catch(e, st, a, name, ins):
    st.caught = st.caught[:-1]
    return None


@sym("__clang_call_terminate")
def m_cct(e, st, a, name, ins):
    e.oblige(st, False, "no exception escapes a noexcept function")
    raise PathEnd()


@q("std::terminate", "abort")
def m_terminate(e, st, a, name, ins):
    e.oblige(st, False, "std::terminate not reached")
    raise PathEnd()


@q("std::__glibcxx_assert_fail")
def m_assertfail(e, st, a, name, ins):
    try:
        t = cstr(e, st, a[3])
        txt = bytes(t.at(i) for i in range(t.len)).decode()
    except Exception:
        txt = ""
    e.oblige(st, False, "library precondition", txt)
    raise PathEnd()


@prefix("std::__throw_")
def m_throw_std(e, st, a, name, ins):
    qual = e.models.info(e, name)[0]
    k = qual[len("std::__throw_"):]
    cls = {"out_of_range": "St12out_of_range", "out_of_range_fmt": "St12out_of_range", "length_error": "St12length_error", "logic_error": "St11logic_error",
           "invalid_argument": "St16invalid_argument", "runtime_error": "St13runtime_error", "bad_alloc": "St9bad_alloc", "bad_function_call": "St17bad_function_call",
           "bad_optional_access": "St19bad_optional_access", "bad_array_new_length": "St20bad_array_new_length", "bad_cast": "St8bad_cast",
           "format_error": "St12format_error", "system_error": "St12system_error"}.get(k)
    if cls is None:
        raise ToolLimit("throws " + k)
    return throw_std(e, st, cls)


def exc_ctor(e, st, a, name, ins):
    qual, ps, _ = e.models.info(e, name)
    this = a[0]
    cls = qual.split("::")[-1]
    vt = f"_ZTVSt{len(cls)}{cls}"
    p = e.to_ptr(st, this)
    o = st.w(p.obj)
    o.cells[p.off] = (8, e.global_ptr(st, vt, 16) if vt in e.m.globs else Ptr(("vt", f"St{len(cls)}{cls}"), 16))
    if ps and ps[0] == "char const*":
        w = cstr(e, st, a[1])
    elif ps and ps[0] == "std::string const&":
        w = S(e, st, a[1])
    elif ps and ps[0].startswith("std::"):
        src = e.to_ptr(st, a[1])
        w = st.objs[src.obj].meta.get(("what", src.off)) or st.objs[src.obj].meta.get("what")
    else:
        w = None
    if w is None:
        w = e.fresh_str(st, "what")
    o.meta[("what", p.off)] = w
    o.meta["what"] = w
    return None


for _c in ("runtime_error", "logic_error", "out_of_range", "invalid_argument", "length_error", "domain_error", "range_error", "overflow_error"):
    BY_QUAL[f"std::{_c}::{_c}"] = exc_ctor


def exc_dtor(e, st, a, name, ins):
    return None


for _c in ("runtime_error", "logic_error", "out_of_range", "invalid_argument", "length_error", "exception", "bad_alloc", "bad_function_call", "bad_cast"):
    BY_QUAL[f"std::{_c}::~{_c}"] = exc_dtor


def what_text(e, st, p):
    o = st.objs[p.obj]
    return o.meta.get(("what", p.off)) or o.meta.get("what")


@q("std::runtime_error::what", "std::logic_error::what", "std::exception::what")
def m_what(e, st, a, name, ins):
    p = e.to_ptr(st, a[0])
    w = what_text(e, st, p)
    if w is None:
        w = e.fresh_str(st, "what")
        st.w(p.obj).meta["what"] = w
    o = st.w(p.obj)
    oid = o.meta.get("what_obj")
    if oid is None:
        # what() returns a NUL-terminated copy; the text itself may not contain NUL
        oid = e.new_obj(st, "what()", "heap", add64(w.len, 1))
        x = st.w(oid)
        x.segs.append(Seg(0, add64(w.len, 1), w.arr.store(w.len, 0)))
        x.meta["zero_at"] = w.len
        o.meta["what_obj"] = oid
        add_forall(st, lambda k, w=w: z3.Implies(z3.ULT(bv(k), bv(w.len)), bv(w.at(k), 8) != 0))
    return Ptr(oid)


@prefix("!vt:")
def m_vt(e, st, a, name, ins):
    _, vt, slot = name.split(":")
    if slot == "2":
        return m_what(e, st, a, name, ins)
    return None


# ---------------------------------------------------------------- streams and logging: no observable effect
@q("std::ostream::operator<<", "std::basic_ostream::operator<<", "std::ostream::put", "std::basic_ostream::put", "std::ostream::flush", "std::basic_ostream::write")
def m_ostream(e, st, a, name, ins):
    return a[0]


@q("std::operator<<")
def m_ostream2(e, st, a, name, ins):
    return a[0]


m_ostream2.accept = lambda e, name, qual, params, targs: params is not None and len(params) == 2 and "basic_ostream" in params[0]
BY_QUAL["std::endl"] = lambda e, st, a, name, ins: a[0]
BY_QUAL["std::ios_base::Init::Init"] = lambda e, st, a, name, ins: None
BY_QUAL["std::__is_constant_evaluated"] = lambda e, st, a, name, ins: 0
BY_QUAL["std::is_constant_evaluated"] = lambda e, st, a, name, ins: 0


def nop(e, st, a, name, ins):
    return None


def log_nop(e, st, a, name, ins):
    """log calls: arguments were evaluated by the caller; delivering the text to sinks is the subject of property P23"""
    return None


for _n in ("webfront::log::debug::debug", "webfront::log::info", "webfront::log::warn", "webfront::log::error", "webfront::log::infoHex"):
    BY_QUAL[_n] = log_nop


@q("std::exchange")
def m_never(e, st, a, name, ins):
    raise ToolLimit("std::exchange")


m_never.accept = lambda *a: False
