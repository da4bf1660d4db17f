"""Runs one contract proof: symbolic execution of the function under contract, restarted with a loop cut when a loop needs an invariant."""
import time, traceback
import z3
from .val import *
from .engine import Engine, State, NeedCut, PathEnd, Seg, Frame
from .models import Models


class Proof:
    """a function with its contract"""

    def __init__(self, name, fn, setup, post, cand=(), defs=(), models=None, opts=None, covers=(), cut=(), witness=None):
        self.name, self.fn, self.setup, self.post, self.witness = name, fn, setup, post, witness
        self.cand, self.defs, self.models, self.opts, self.covers, self.cut = list(cand), list(defs), dict(models or {}), dict(opts or {}), list(covers), cut


class Result:
    pass


def run_proof(mod, p, deadline, verbose=False):
    cut_loops = set(p.cut)
    t0 = time.time()
    restarts = 0
    r = Result()
    r.limit = None
    while True:
        e = Engine(mod, Models(p.models))
        e.verbose = e.verbose or verbose
        e.cut_loops = cut_loops
        e.deadline = deadline
        for k, v in p.opts.items():
            setattr(e, k, v)
        st = State()
        e.ctx = Ctx(e)
        try:
            args = p.setup(e, st)
            e.cand_gens = list(p.cand)
            e.defs = list(p.defs)

            def end(s, kind, rv, e=e):
                e.covers[kind] = e.covers.get(kind, 0) + 1
                s.frames.append(Frame(mod.fn(p.fn), [])) if not s.frames else None
                p.post(e, s, kind, rv)
            e.on_path_end = end
            if p.fn is None:
                s = State()
                p.post(e, st, "lemma", None)
                e.covers["return"] = 1
            else:
                e.call(st, p.fn, args)
                e.explore(st)
            break
        except NeedCut as n:
            restarts += 1
            if e.verbose:
                print("need cut", n.loop)
            if n.loop.key in cut_loops or restarts > 40:
                r.limit = f"loop {n.loop} cannot be cut"
                break
            cut_loops = cut_loops | {n.loop.key}
        except ToolLimit as x:
            r.limit = f"{x} at {getattr(x, 'where', '?')}"
            if e.verbose:
                print("LIMIT", r.limit, "\n    " + "\n    ".join(getattr(x, "stack", [])[-8:]))
                if not hasattr(x, "where"):
                    traceback.print_exc()
            break
        except (KeyError, AttributeError, TypeError, IndexError, AssertionError, z3.Z3Exception, RecursionError, ValueError) as x:
            r.limit = f"internal error {type(x).__name__}: {x}"
            if e.verbose:
                traceback.print_exc()
            break
    r.e = e
    r.wall = time.time() - t0
    r.failures, r.undecided, r.stats = e.failures, e.undecided, e.stats
    r.ok = not r.failures and not r.undecided and r.limit is None
    r.covers = e.covers
    if r.ok:
        for c in (p.covers or ["return"]):
            if not e.covers.get(c):
                r.ok = False
                r.limit = f"vacuous: no path reaches '{c}'"
    return r


class Ctx:
    """per run storage of the contract's ghost definitions"""

    def __init__(self, e):
        self.e = e


# ---------------------------------------------------------------- input builders
def in_bytes(e, st, name, n=None, lim=None):
    """a read-only byte array of symbolic contents; returns (object id, length, StrVal)"""
    if n is None:
        n = z3.BitVec(name + ".len", 64)
        st.assume(z3.ULT(n, bv(lim or (1 << 40))))
    oid = e.new_obj(st, name, "input", n)
    o = st.w(oid)
    o.ro = True
    from .val import ABase
    arr = ABase(z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8)))
    o.segs.append(Seg(0, n, arr))
    return oid, n, StrVal(n, arr)


def out_obj(e, st, name, size):
    return e.new_obj(st, name, "heap", size)


def model_bytes(m, s, limit=4096):
    n = m.eval(bv(s.len), model_completion=True).as_long()
    if n > limit:
        return None
    out = bytearray()
    for i in range(n):
        v = s.at(i)
        if type(v) is not int:
            v = m.eval(v, model_completion=True).as_long()
        out.append(v)
    return bytes(out)
