"""P26: type-erased functions call their target only with matching types.
The wrapped functions are unknown (any result, any exception); every call of one is recorded.
Contract of operator()(args...) and call<R>(args...) for a function of type R0(Args0...), stated for a family of signatures and all argument values:
 types equal to the signature:  ensures  the wrapped function is called exactly once, with these arguments (or the bound ones), and its result is returned, its exception passed on
 other types:                   ensures  std::invalid_argument is thrown and the wrapped function is not called.
std::function, std::bind and std::unique_ptr are executed as they are; dynamic_cast follows the type information the compiler emitted."""
from common import *
from irv.engine import NORET
from irv.models import maybe_throw

HARNESS = "erased.cpp"
NATIVE = dict(src="p26.cpp")
ASSUMPTIONS = ["the contract is stated per signature (templates are verified as instantiated): int(int, long), void(), double(double), void(string, int) and a lambda with a captured value; all argument values",
               "std::cout output has no other effect; memory allocation succeeds"]
RESULT = {"t_sum": 32, "t_void": 0, "t_real": 64, "t_text": 0, "t_captured": 64}


def target(e, st, a, name, ins):
    """a wrapped function: records its call; any result, or any exception"""
    args = [e.get_str(st, x) if name == "t_text" and k == 0 else x for k, x in enumerate(a)]
    n = len(st.ghost["calls"])
    st.ghost["calls"] += ((name, tuple(args)),)
    w = RESULT[name]
    r = z3.BitVec(f'result{n}', w) if w else None
    st.ghost["results"] += (r,)
    if maybe_throw(e, st, z3.Bool(f'call {n} throws'), "St13runtime_error"):
        return NORET
    return r


def dynamic_cast(e, st, a, name, ins):
    p = e.to_ptr(st, a[0])
    want = e.to_ptr(st, a[2])
    vt = e.to_ptr(st, e.load(st, p, 8, True))
    ti = e.to_ptr(st, e.load(st, vt.add(-8), 8, True))
    top = e.load(st, vt.add(-16), 8, True)
    if not (top == 0 if type(top) is int else isinstance(top, Ptr) and top.obj == 0 and top.off == 0):
        raise ToolLimit("dynamic_cast of an inner base")
    for _ in range(8):
        if ti.obj == want.obj:
            return p
        kind = e.to_ptr(st, e.load(st, ti, 8, True))
        kn = str(e.gnames.get(kind.obj))
        if "si_class_type_info" in kn:
            ti = e.to_ptr(st, e.load(st, ti.add(16), 8, True))
        elif "vmi_class" in kn:
            raise ToolLimit("dynamic_cast over several bases")
        else:
            return NULL
    raise ToolLimit("dynamic_cast")


def equal(e, x, y):
    if isinstance(x, StrVal):
        i = e.fresh('position', 64)
        return z3.And(bv(x.len) == bv(y.len), z3.Implies(z3.ULT(i, bv(x.len)), bv(x.at(i), 8) == bv(y.at(i), 8)))
    return bv(x, y.size()) == y


def called(*want, result=None):
    """the wrapped functions called, with their arguments, in order; result: index of the call whose result is returned"""
    def f(e, st, kind, rv):
        c = e.ctx
        calls = st.ghost["calls"]
        if kind == 'throw':
            e.oblige(st, "runtime_error" in str(st.exc[1]) and 0 < len(calls) <= len(want), 'ensures: only an exception of the wrapped function is passed on', 'throws ' + str(st.exc[1]))
        else:
            e.oblige(st, len(calls) == len(want), 'ensures: the wrapped function is called exactly once per call')
        for (name, args), (wname, *wargs) in zip(calls, want):
            e.oblige(st, name == wname and len(args) == len(wargs), 'ensures: the wrapped function is the one called')
            if name == wname and len(args) == len(wargs):
                for k, (x, y) in enumerate(zip(args, wargs)):
                    e.oblige(st, equal(e, x, c.vals[y]), f'ensures: argument {k} is passed on')
        if kind == 'return' and result is not None:
            r = st.ghost["results"]
            e.oblige(st, result < len(r) and rv is not None and bv(rv, r[result].size()) == r[result], 'ensures: the result is passed on')
    return f


def refused(e, st, kind, rv):
    e.oblige(st, kind == 'throw', 'ensures: other types are refused')
    if kind == 'throw':
        e.oblige(st, e.models.is_subclass(e, st.exc[1], "_ZTISt16invalid_argument"), 'ensures: they are refused as an invalid argument', 'throws ' + str(st.exc[1]))
    e.oblige(st, len(st.ghost["calls"]) == 0, 'ensures: the wrapped function is not called')


def given(spec):
    """parameters: i 32 bits, l 64 bits, s text"""
    def f(e, st):
        c = e.ctx
        st.ghost.update(calls=(), results=())
        c.vals, args = {}, []
        for n, t in zip("abcd", spec):
            if t == 's':
                s = e.fresh_str(st, n)
                o = out_obj(e, st, n, 32)
                e.set_str(st, Ptr(o), s)
                c.vals[n] = s
                args.append(Ptr(o))
            else:
                c.vals[n] = z3.BitVec(n, 32 if t == 'i' else 64)
                args.append(c.vals[n])
        return args
    return f


def proofs(m):
    M = {**{k: target for k in RESULT}, "__dynamic_cast": dynamic_cast}
    S, T = ("t_sum", "a", "b"), ("t_sum", "c", "d")
    r = []

    def ok(text, fn, spec, *want, result=None):
        r.append(Proof(text, fn, given(spec), called(*want, result=result), models=M))

    def no(text, fn, spec):
        r.append(Proof(text, fn, given(spec), refused, models=M, covers=['throw']))
    ok('call<int>(int, long) of int(int, long)', 'e_call', 'il', S, result=0)
    ok('operator()(int, long) of int(int, long)', 'e_invoke', 'il', S)
    ok('two calls', 'e_twice', 'ilil', S, T)
    ok('operator()() of void()', 'e_none', '', ("t_void",))
    ok('call<void>() of void()', 'e_callnone', '', ("t_void",))
    ok('call<double>(double) of double(double)', 'e_real', 'l', ("t_real", "a"), result=0)
    ok('call<long>(int) of a lambda that captures a value', 'e_captured', 'li', ("t_captured", "a", "b"), result=0)
    ok('operator()(int) of a lambda that captures a value', 'e_captured_invoke', 'li', ("t_captured", "a", "b"))
    ok('a moved function', 'e_moved', 'il', S)
    ok('operator()(string, int) of void(string, int)', 'e_text', 'si', ("t_text", "a", "b"))
    ok('operator() with bound arguments', 'e_bound', 'ilil', S)
    ok('call with bound arguments', 'e_callbound', 'ilil', S, result=0)
    ok('operator() with a bound text', 'e_boundtext', 'sisi', ("t_text", "a", "b"))
    ok('call with a bound text', 'e_callboundtext', 'sisi', ("t_text", "a", "b"))
    no('fewer arguments', 'x_fewer', 'i')
    no('more arguments', 'x_more', 'il')
    no('no arguments', 'x_none', '')
    no('swapped arguments', 'x_swapped', 'il')
    no('another argument type', 'x_other', 'i')
    no('an unsigned argument', 'x_unsigned', 'il')
    no('another result type', 'x_result', 'il')
    no('no result type', 'x_noresult', 'il')
    no('call with fewer arguments', 'x_callfewer', 'i')
    no('float instead of double', 'x_float', 'i')
    no('a result of a function without one', 'x_void', '')
    no('arguments for a function without any', 'x_given', 'i')
    no('a literal instead of a string', 'x_literal', 'i')
    return r
