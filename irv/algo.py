"""Assumed contracts of std::equal and std::search over characters with a predicate of the program, and of std::list<std::string>.
The predicate is real code: it is executed on two arbitrary characters and must be equality ignoring ASCII case (or plain equality), which is an obligation of the caller."""
import z3
from .val import *
from .engine import NORET, StrTab, Engine, State
from .models import S, Models, ptr_diff, norm_bool
from .vectors import element


def targs_of(dem, head):
    k = dem.find(head + "<")
    if k < 0:
        return []
    i = j = k + len(head) + 1
    depth, out = 0, []
    while j < len(dem):
        c = dem[j]
        if c in "<({[":
            depth += 1
        elif c in ">)}]" and not (c == ">" and dem[j - 1] == "-"):
            if depth == 0:
                out.append(dem[i:j].strip())
                return out
            depth -= 1
        elif c == "," and depth == 0:
            out.append(dem[i:j].strip())
            i = j + 1
        j += 1
    return out


def fold(c):
    """ASCII upper case of an 8-bit character"""
    c = bv(c, 8)
    return z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c)


def predicate(e, st, dem, head, pred):
    """obligation: the predicate is equality of characters ignoring case; returns nothing"""
    if isinstance(pred, Ptr) and isinstance(pred.obj, tuple) and pred.obj[0] == "fn":
        fn, this = pred.obj[1], []
    else:
        t = targs_of(dem, head)
        want = t[-1] + "::operator()(" if t else None
        fns = [f for f in e.m.raw if want and e.m.demangled(f).startswith(want)]
        if len(fns) != 1:
            raise ToolLimit("predicate of " + head)
        fn, this = fns[0], [None]
    key = ("predicate", fn)
    F = e.cache.get(key) if hasattr(e, "cache") else None
    if F is None:
        x, y = z3.BitVec("pred.x", 8), z3.BitVec("pred.y", 8)
        sub = Engine(e.m, Models({}))
        s = State()
        sub.ctx = e.ctx
        args = ([Ptr(sub.new_obj(s, "function object", "alloca", 8))] if this else []) + [x, y]
        fs, ends = [], []

        def end(s2, kind, rv):
            p, pc = s2.pc, []
            while p:
                pc.append(p[1])
                p = p[0]
            r = rv if z3.is_bool(rv) else z3.BoolVal(bool(rv)) if isinstance(rv, (bool, int)) else rv != 0
            fs.append(z3.Implies(z3.And(pc) if pc else z3.BoolVal(True), (r == (fold(x) == fold(y))) if kind == "return" else z3.BoolVal(False)))
        sub.on_path_end = end
        sub.call(s, fn, args)
        sub.explore(s)
        F = z3.And(fs + [z3.BoolVal(not sub.failures and not sub.undecided)])
    e.oblige(st, F, "precondition: the predicate compares characters ignoring case")


def owner_text(e, st, p):
    """text of the string which p points to the start of; None for other pointers"""
    if isinstance(p.obj, tuple) and p.obj[0] == "str":
        if same(lz(p.off), 0) is not True and not e.must(st, bv(lz(p.off)) == 0):
            return None
        return e.get_str(st, e.str_owner(p))
    return None


# ---------------------------------------------------------------- std::list<std::string>
STR = "std::basic_string<char>"
ROOM = 1 << 44
NODE = 32


def list_table(e, st, at, table, n):
    """list object at `at` whose n elements are entries of the table"""
    oid = e.new_obj(st, "list elements", "heap", ROOM)
    st.w(oid).sarr[(0, NODE)] = table
    for k, v in ((0, Ptr(oid)), (8, Ptr(oid, lin(n * NODE))), (16, n)):
        e.store(st, at.add(k), 8, v)
    return oid


def empty_table(e):
    fl, fa = z3.Function("no.len", z3.BitVecSort(64), z3.BitVecSort(64)), z3.Function("no.at", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    return StrTab(lambda i: fl(i), lambda i, k: fa(i, k))


def l_ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    this = e.to_ptr(st, a[0])
    if ps and ps[0].endswith("&&"):
        src = e.to_ptr(st, a[1])
        for k in (0, 8, 16):
            e.store(st, this.add(k), 8, e.load(st, src.add(k), 8, k < 16))
        list_table(e, st, src, empty_table(e), 0)
        return None
    if ps and not ps[0].startswith("std::allocator"):
        raise ToolLimit("list constructor " + str(ps))
    list_table(e, st, this, empty_table(e), 0)
    return None


def l_size(e, st, a, name, ins):
    return e.load(st, e.to_ptr(st, a[0]).add(16), 8)


def l_empty(e, st, a, name, ins):
    n = l_size(e, st, a, name, ins)
    return n == 0 if type(n) is int else norm_bool(z3.simplify(n == 0))


def l_begin(e, st, a, name, ins):
    return e.load(st, a[0], 8, True)


def l_end(e, st, a, name, ins):
    return e.load(st, e.to_ptr(st, a[0]).add(8), 8, True)


def l_push(e, st, a, name, ins):
    this = e.to_ptr(st, a[0])
    end = e.load(st, this.add(8), 8, True)
    n = e.load(st, this.add(16), 8)
    e.set_str(st, end, S(e, st, a[1]), ctor=True)
    e.store(st, this.add(8), 8, end.add(NODE))
    e.store(st, this.add(16), 8, n + 1 if type(n) is int else z3.simplify(n + 1))
    return end


def l_clear(e, st, a, name, ins):
    list_table(e, st, e.to_ptr(st, a[0]), empty_table(e), 0)
    return None


def nothing(e, st, a, name, ins):
    return None


def it_next(e, st, a, name, ins):
    this = e.to_ptr(st, a[0])
    p = e.load(st, this, 8, True)
    e.store(st, this, 8, p.add(NODE))
    return p if len(a) > 1 else this


def it_deref(e, st, a, name, ins):
    return e.load(st, a[0], 8, True)


def of_strings(head):
    def accept(e, name, qual, params, targs):
        d = e.m.demangled(name)
        t = targs_of(d.replace("__cxx11::", ""), head)
        return bool(t) and t[0].startswith("std::basic_string<char")
    return accept


def guarded(fn, head):
    def h(e, st, a, name, ins):
        return fn(e, st, a, name, ins)
    h.accept = of_strings(head)
    return h


STRING_LIST = {"std::list::" + k: guarded(f, "std::list") for k, f in {"list": l_ctor, "~list": nothing, "size": l_size, "empty": l_empty, "begin": l_begin, "cbegin": l_begin, "end": l_end, "cend": l_end,
               "push_back": l_push, "emplace_back": l_push, "clear": l_clear}.items()}
STRING_LIST["std::_List_base::~_List_base"] = guarded(nothing, "std::_List_base")
for _h in ("std::_List_iterator", "std::_List_const_iterator"):
    STRING_LIST[_h + "::operator++"] = guarded(it_next, _h)
    STRING_LIST[_h + "::operator*"] = guarded(it_deref, _h)
    STRING_LIST[_h + "::operator->"] = guarded(it_deref, _h)
