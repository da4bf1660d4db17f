"""Loop cuts: modified set, invariant inference over candidate formulas (Houdini), inductive check."""
import os
import math, time
import z3
from .val import *
from .engine import PathEnd, NeedCut, Seg, StrTab, simp, Resume

TMAX = 1 << 60   # assumption: no loop runs 2^60 iterations


class Ctx:
    def __init__(self, loop, mode, sink):
        self.loop, self.mode, self.sink = loop, mode, sink
        self.terms = []
        self.exited = False
        self.exit_states = 0

    def backedge(self, e, st):
        self.sink(st)


def read(st, loc, fi):
    k = loc[0]
    if k == "phi":
        return st.frames[fi].loc.get(loc[1])
    if k == "ghost":
        return st.ghost.get(loc[1])
    o = st.objs.get(loc[1])
    if o is None:
        return None
    if k == "cell":
        c = o.cells.get(loc[2])
        if c is None:
            return None
        if c[0] != loc[3]:
            raise ToolLimit("memory cell changes shape in a loop")
        return c[1]
    if k == "seg":
        for s in o.segs:
            if s.start == loc[2]:
                return s.arr
        return None
    if k == "str":
        return o.strs.get(loc[2])
    if k == "sarr":
        return o.sarr.get(loc[2])
    if k == "size":
        return o.size
    if k == "alive":
        return o.alive
    raise AssertionError(k)


def write(e, st, loc, fi, v):
    k = loc[0]
    if k == "phi":
        st.frames[fi].loc[loc[1]] = v
        return
    if k == "ghost":
        st.ghost[loc[1]] = v
        return
    o = st.w(loc[1])
    if k == "cell":
        o.cells[loc[2]] = (loc[3], v)
    elif k == "seg":
        for i, s in enumerate(o.segs):
            if s.start == loc[2]:
                o.segs[i] = Seg(s.start, s.n, v)
                return
        raise ToolLimit("segment vanished")
    elif k == "str":
        o.strs[loc[2]] = v
    elif k == "sarr":
        o.sarr[loc[2]] = v
    elif k == "size":
        o.size = v
    elif k == "alive":
        o.alive = v


def eqv(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if type(a) is int and type(b) is int:
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(lz(a.off), lz(b.off)) is True
    if isinstance(a, StrVal) and isinstance(b, StrVal):
        return a.arr is b.arr and (same(a.len, b.len) is True)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Lin) or isinstance(b, Lin):
        return same(lz(lin(a)), lz(lin(b))) is True
    if type(a) in (tuple, list, str, bool) or type(b) in (tuple, list, str, bool):
        return type(a) is type(b) and a == b
    return False


def diff(e, S, B, fi):
    out = []
    for oid, ob in B.objs.items():
        os_ = S.objs.get(oid)
        if os_ is ob:
            continue
        if os_ is None:
            if oid in e.gnames:
                out.append(("newglobal", oid))
            continue
        for off, (sz, v) in ob.cells.items():
            c = os_.cells.get(off)
            if c is None or c[0] != sz or not eqv(c[1], v):
                out.append(("cell", oid, off, sz))
        for off in os_.cells:
            if off not in ob.cells:
                # merged into a segment or replaced by a cell of another shape
                if any(s.start <= off for s in ob.segs):
                    out.append(("reseg", oid))
                else:
                    out.append(("reshape", oid, off))
        for s in ob.segs:
            m = [x for x in os_.segs if x.start == s.start]
            if not m:
                out.append(("reseg", oid))
            elif m[0].arr is not s.arr:
                out.append(("seg", oid, s.start))
        for off, v in ob.strs.items():
            x = os_.strs.get(off)
            if x is None:
                continue      # constructed inside the loop body and still there: dead at the header
            if not eqv(x, v):
                out.append(("str", oid, off))
        for off in os_.strs:
            if off not in ob.strs:
                raise ToolLimit("a string is destroyed inside a loop")
        for key, tab in ob.sarr.items():
            x = os_.sarr.get(key)
            if x is not tab:
                out.append(("sarr", oid, key))
        if not eqv(os_.size, ob.size):
            out.append(("size", oid))
        if os_.alive != ob.alive:
            # objects of the loop body itself (allocas) come and go
            if os_.kind != "alloca":
                out.append(("alive", oid))
    for g in set(S.ghost) | set(B.ghost):
        a, b = S.ghost.get(g), B.ghost.get(g)
        if not eqv(a, b):
            out.append(("ghost", g))
    return out


class Info:
    """how a modified location is represented at the loop header"""
    __slots__ = ("loc", "kind", "w", "cls", "d", "entry", "obj", "sym", "vals", "deltas", "arr")

    def __init__(self, loc):
        self.loc = loc
        self.kind = None    # int ptr str arr sarr
        self.cls = None     # affine stride fresh disc
        self.d = 0
        self.deltas = set()
        self.vals = set()
        self.sym = None


class View:
    def __init__(self, cut, st, kind, subst=None):
        self.cut, self.st, self.kind = cut, st, kind
        self.subst = subst or []

    def val(self, loc):
        v = read(self.st, loc, self.cut.fi)
        return v

    def int(self, loc):
        """64-bit (or natural width) term of an integer, pointer offset or string length"""
        v = self.val(loc)
        if isinstance(v, Ptr):
            return lz(v.off)
        if isinstance(v, StrVal):
            return v.len
        return v


def width_of(e, st, loc, v, fi):
    if isinstance(v, Ptr):
        return 64
    if z3.is_expr(v):
        return 1 if z3.is_bool(v) else v.size()
    if loc[0] == "phi":
        fn = st.frames[fi].fn
        for b in fn.blocks:
            for i in b:
                if i[1] == loc[1]:
                    return e.m.bits(i[2])
        return 64
    if loc[0] == "cell":
        return 8 * loc[3]
    return 64


class Cut:
    def __init__(self, e, st, loop):
        self.e, self.E, self.loop = e, st, loop
        self.fi = len(st.frames) - 1
        self.infos = {}
        self.t = None
        self.terms = {}
        self.n0 = 0
        self.tuples = None
        self.dead = set()     # pointers into varying objects which are unset on entry: unset at the header too

    # ------------------------------------------------------------------
    def run_body(self, S, mode, sink):
        e = self.e
        ctx = Ctx(self.loop, mode, sink)
        ctx.ghost = dict(S.ghost)
        S.frames[-1].cuts = S.frames[-1].cuts + (ctx,)
        e.infer += 1
        try:
            e.explore(S)
        finally:
            e.infer -= 1
        return ctx

    def discover(self):
        e, fi = self.e, self.fi
        fn = self.E.frames[-1].fn
        hdr = fn.blocks[self.loop.header]
        for i in range(fn.phis[self.loop.header]):
            loc = ("phi", hdr[i][1])
            self.infos[loc] = Info(loc)
        rounds = 0
        probe = True
        while True:
            rounds += 1
            if rounds > 14:
                raise ToolLimit(f"modified set of {self.loop} does not stabilise")
            changed = [False]
            self.terms = {}
            S = self.E.clone() if probe else self.header()
            if not probe:
                self.old = (self.t, {inf.loc: sym for sym, k, inf in self.syms.values()}, self.n0)
            ref = S.clone()
            seen = {}

            def sink(B):
                for loc in diff(e, ref, B, fi):
                    if loc[0] == "newglobal":
                        e.init_global(self.E, e.gnames[loc[1]], loc[1])
                        changed[0] = True
                        continue
                    if loc[0] == "reseg":
                        self.reseg(loc[1], B)
                        changed[0] = True
                        continue
                    if loc[0] == "reshape":
                        if any(l[0] == "cell" and l[1] == loc[1] for l in self.infos):
                            pass
                        self.reshape(loc[1], loc[2], B)
                        changed[0] = True
                        continue
                    if loc not in self.infos and loc not in self.dead:
                        self.infos[loc] = Info(loc)
                        changed[0] = True
                for loc, inf in self.infos.items():
                    seen.setdefault(loc, []).append((B, read(B, loc, fi)))
            ctx = self.run_body(S, "infer", sink)
            self.record_terms(ctx)
            for loc, inf in list(self.infos.items()):
                if loc[0] == "cell" and read(self.E, loc, fi) is None and \
                        len({v.obj for v in [x for _, x in seen.get(loc, [])] + [read(ref, loc, fi)] if isinstance(v, Ptr)}) > 1:
                    self.dead.add(loc)
                    del self.infos[loc]
                    changed[0] = True
                    continue
                if self.classify(inf, ref, seen.get(loc, []), probe):
                    changed[0] = True
            if probe:
                probe = False
                continue
            if not changed[0]:
                break
        # unmodified ones are dropped
        for loc in [l for l, i in self.infos.items() if i.cls == "same"]:
            del self.infos[loc]
        if not any(i.cls == "disc" for i in self.infos.values()):
            self.tuples = None

    def record_terms(self, ctx):
        for x, y in ctx.terms:
            kx = x if type(x) is int else x.get_id()
            ky = y if type(y) is int else y.get_id()
            self.terms[(kx, ky)] = (x, y)

    def reseg(self, oid, B):
        """the body turned part of an object into an array: do the same at the header"""
        for s in B.objs[oid].segs:
            if not any(x.start == s.start for x in self.E.objs[oid].segs):
                self.e.make_seg(self.E, oid, s.start, s.n)
        for loc in [l for l in self.infos if l[0] == "cell" and l[1] == oid]:
            o = self.E.objs[oid]
            if loc[2] not in o.cells:
                del self.infos[loc]

    def reshape(self, oid, off, B):
        raise ToolLimit("memory cell changes shape in a loop")

    def classify(self, inf, ref, seen, probe):
        """update the class of a location from the values seen at the back edges; True if it changed"""
        e, fi = self.e, self.fi
        loc = inf.loc
        old = (inf.kind, inf.cls, inf.d)
        ev = read(self.E, loc, fi)
        hv = read(ref, loc, fi)
        vals = [(B, v) for B, v in seen]
        nonnull = [v for v in [ev, hv] + [v for _, v in vals] if v is not None]
        if not nonnull:
            inf.cls = "same"
            return old != (inf.kind, inf.cls, inf.d)
        smp = nonnull[0]
        if isinstance(smp, Arr):
            inf.kind, inf.cls = "arr", "fresh"
        elif isinstance(smp, StrTab):
            inf.kind, inf.cls = "sarr", "fresh"
        elif isinstance(smp, StrVal):
            inf.kind = "str"
            if inf.cls is None or inf.cls == "affine" or inf.cls == "same":
                self.cls_num(inf, ref, hv.len if hv is not None else None, [(B, v.len if v is not None else None) for B, v in vals], 64, probe, ev.len if ev is not None else None)
                if inf.cls == "same":
                    inf.cls, inf.d = "affine", 0     # contents may change
            elif inf.cls == "disc":
                inf.cls = "fresh"
        elif isinstance(smp, Ptr):
            if not all(isinstance(v, Ptr) for v in nonnull):
                raise ToolLimit("pointer mixed with integer in a loop")
            objs = {v.obj for v in nonnull}
            inf.kind = "ptr"
            if len(objs) > 1:
                if all(eqv(v, hv) or eqv(v, ev) for _, v in vals) and not probe and inf.cls in ("disc", "fresh", "same"):
                    pass
                if all(type(v.off) is int for v in nonnull):
                    if any(isinstance(o, tuple) and o[0] == "undef" for o in objs):
                        raise ToolLimit("uninitialised pointer in a loop")
                    inf.cls = "disc"
                    inf.vals |= {(v.obj, v.off) for v in nonnull}
                else:
                    raise ToolLimit(f"pointer into different objects in a loop ({objs})")
            else:
                inf.obj = smp.obj
                if inf.cls != "disc":
                    self.cls_num(inf, ref, lz(hv.off) if hv is not None else None, [(B, lz(v.off) if v is not None else None) for B, v in vals], 64, probe, lz(ev.off) if ev is not None else None)
                    if inf.cls == "disc":
                        inf.cls = "fresh"
        elif type(smp) is int or z3.is_expr(smp):
            inf.kind = "int"
            inf.w = max(width_of(e, self.E, loc, v, fi) if z3.is_expr(v) else 0 for v in nonnull) or width_of(e, self.E, loc, smp, fi)
            if inf.cls != "disc":
                self.cls_num(inf, ref, hv, vals, inf.w, probe, ev)
            else:
                for _, v in vals:
                    if type(v) is int:
                        inf.vals.add(v)
                    elif not eqv(v, hv):
                        inf.cls = "fresh"
        elif smp is True or smp is False:
            raise ToolLimit("object lifetime changes in a loop")
        else:
            if all(eqv(v, nonnull[0]) for v in nonnull):
                inf.cls = "same"
            elif all(type(v) in (tuple, str) for v in nonnull) and loc[0] == "ghost":
                inf.kind, inf.cls = "obj", "disc"
                inf.vals |= set(nonnull)
                if len(inf.vals) > 24:
                    raise ToolLimit(f"ghost {loc[1]} takes too many values in a loop")
            else:
                raise ToolLimit(f"ghost state {loc} changes in a loop")
        return old != (inf.kind, inf.cls, inf.d)

    def cls_num(self, inf, ref, hv, vals, w, probe, ev):
        if inf.cls == "fresh" and inf.deltas is None:
            # look for a discrete set of values
            consts = set()
            for _, v in vals:
                if hv is not None and eqv(v, hv):
                    continue
                if type(v) is int:
                    consts.add(v)
                else:
                    return
            if type(ev) is int and len(consts) <= 40 and inf.kind == "int" and vals and inf.w <= 32:
                inf.cls = "disc"
                inf.vals = consts | {ev}
            return
        ds = set()
        ok = True
        if hv is None:
            ok = False
        else:
            for B, v in vals:
                if v is None:
                    ok = False
                    break
                d = self.delta(B, v, hv, w)
                if d is None:
                    ok = False
                    break
                ds.add(d)
        if not ok:
            inf.cls, inf.deltas = "fresh", None
            return
        if inf.deltas is None:
            return
        inf.deltas = inf.deltas | ds
        ds = inf.deltas
        if not ds or ds == {0}:
            # before the first symbolic round a location that did not change may still change later
            inf.cls = "same" if not (inf.cls in ("affine", "stride") and inf.d) else inf.cls
            if inf.cls == "same" and ev is None and hv is not None:
                inf.cls = "fresh"
            return
        if len(ds) == 1:
            inf.cls, inf.d = "affine", next(iter(ds))
            return
        g = 0
        for d in ds:
            g = math.gcd(g, abs(d))
        if w == 1 or inf.kind == "int" and probe and w <= 32:
            inf.cls, inf.deltas = "fresh", None
            return
        inf.cls, inf.d = "stride", g

    def delta(self, B, v, hv, w):
        if w == 1:
            return 0 if eqv(v, hv) else None
        if type(v) is int and type(hv) is int:
            return sgn((v - hv) & ((1 << w) - 1), w)
        if w == 64:
            d = lsub(lin(v), lin(hv))
            if type(d) is int:
                return d
            z = lz(d)
        else:
            z = z3.simplify(bv(v, w) - bv(hv, w))
            if z3.is_bv_value(z):
                return sgn(z.as_long(), w)
        k = self.e.concretize(B, z)
        return None if k is None else sgn(k, w)

    # ------------------------------------------------------------------ header state
    def header(self, tup=None):
        e, fi = self.e, self.fi
        S = self.E.clone()
        self.n0 = next(e.fresh_n)
        self.t = e.fresh("iter", 64)
        S.assume(z3.ULT(self.t, bv(TMAX)))
        self.syms = {}        # sym id -> (sym, kind, info)
        for loc, inf in self.infos.items():
            ev = read(self.E, loc, fi)
            if inf.cls == "same" or inf.cls is None:
                continue
            if inf.cls == "disc":
                if tup is not None:
                    v = tup[loc]
                    write(e, S, loc, fi, Ptr(*v) if inf.kind == "ptr" else v)
                elif inf.kind == "int":
                    x = e.fresh("h_" + str(loc[1]), inf.w)
                    S.assume(z3.Or(*[x == bv(v, inf.w) for v in sorted(inf.vals)]) if inf.w > 1 else True)
                    write(e, S, loc, fi, x)
                else:
                    # any one value; the tuple exploration covers all
                    v = sorted(inf.vals, key=str)[0]
                    write(e, S, loc, fi, Ptr(*v) if inf.kind == "ptr" else v)
                continue
            if inf.kind == "arr":
                write(e, S, loc, fi, e.fresh_arr("loop", ev.w if ev is not None else 8))
                continue
            if inf.kind == "sarr":
                n = next(e.fresh_n)
                B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
                fl = z3.Function(f"hl!{n}", B64, B64)
                fa = z3.Function(f"ha!{n}", B64, B64, B8)
                write(e, S, loc, fi, StrTab(lambda i, fl=fl: fl(i), lambda i, k, fa=fa: fa(i, k)))
                continue
            w = inf.w if inf.kind == "int" else 64
            en = None if ev is None else (lz(ev.off) if inf.kind == "ptr" else ev.len if inf.kind == "str" else ev)
            nv = self.num(S, inf, en, w)
            if inf.kind == "int":
                write(e, S, loc, fi, nv)
            elif inf.kind == "ptr":
                write(e, S, loc, fi, Ptr(inf.obj, lin(nv)))
            else:
                S.assume(z3.ULT(bv(nv), bv(BIGLEN))) if type(nv) is not int else None
                write(e, S, loc, fi, StrVal(nv, e.fresh_arr("loopstr")))
        return S

    def num(self, S, inf, en, w):
        e = self.e
        if inf.cls == "affine":
            if w == 64:
                v = add64(en, lz(lmul(lin(self.t), inf.d)))
            else:
                tt = z3.Extract(w - 1, 0, self.t)
                v = simp(bv(en, w) + tt * bv(inf.d & ((1 << w) - 1), w))
            return v
        if inf.cls == "stride" and w == 64:
            u = e.fresh("u", 64)
            inf.sym = u
            self.syms[u.get_id()] = (u, "stride", inf)
            return add64(en, lz(lmul(lin(u), inf.d)))
        x = e.fresh("h", w)
        inf.sym = x
        self.syms[x.get_id()] = (x, "fresh", inf)
        return x

    def view(self, st, kind):
        """substitution of the header symbols by the values in st"""
        fi = self.fi
        sub = []
        if kind == "entry":
            sub.append((self.t, bv(0)))
        elif kind == "back":
            sub.append((self.t, self.t + bv(1)))
        for sym, k, inf in self.syms.values():
            v = read(st, inf.loc, fi)
            w = inf.w if inf.kind == "int" else 64
            x = None if v is None else (lz(v.off) if inf.kind == "ptr" else v.len if inf.kind == "str" else v)
            if kind == "header":
                continue
            if x is None:
                continue
            if k == "fresh":
                if w == 1:
                    sub.append((sym, boolv(x)))
                else:
                    sub.append((sym, bv(x, w)))
            else:
                ev = read(self.E, inf.loc, fi)
                en = lz(ev.off) if inf.kind == "ptr" else ev.len if inf.kind == "str" else ev
                d = lsub(lin(x), lin(en))
                q = ldiv(d, inf.d)
                if q is None:
                    return None
                sub.append((sym, bv(lz(q))))
        return View(self, st, kind, sub)

    # ------------------------------------------------------------------ candidates
    def candidates(self, S):
        """list of (name, fn(view) -> z3 Bool)"""
        e = self.e
        out = []
        seen = set()
        hs = {self.t.get_id()} | set(self.syms)

        def add(name, f):
            if z3.is_true(f) or z3.is_false(f) or f.get_id() in seen:
                return
            seen.add(f.get_id())
            keep.append(f)

            def at(view, f=f):
                return z3.substitute(f, *view.subst) if view.subst else f
            out.append((name, at))
        keep = self.keep = []
        terms = list(self.terms.values())[:60]
        # the comparisons were recorded with the symbols of the last discovery header
        ot, osyms, self.first = self.old
        now = {inf.loc: sym for sym, k, inf in self.syms.values()}
        ren = [(ot, self.t)] + [(o, now[l]) for l, o in osyms.items() if l in now and now[l].sort() == o.sort()]
        for x, y in terms:
            x = x if type(x) is int or isinstance(x, Ptr) else z3.substitute(x, *ren)
            y = y if type(y) is int or isinstance(y, Ptr) else z3.substitute(y, *ren)
            if type(x) is int and type(y) is int:
                continue
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                continue
            w = x.size() if type(x) is not int else y.size()
            X, Y = bv(x, w), bv(y, w)
            if os.environ.get("IRV_TERMS"):
                print("TERM", X, Y)
            if not self.usable(X, hs) or not self.usable(Y, hs):
                continue
            if not (mentions(X, hs) or mentions(Y, hs)):
                continue
            if data_dependent(X) or data_dependent(Y):
                continue
            fs = [z3.ULE(X, Y), z3.ULT(X, Y), z3.ULE(Y, X), z3.ULT(Y, X), X == Y, X <= Y, Y <= X]
            if w < 64:
                fs += [X < Y, Y < X]
            if w == 64:
                for P, Q in ((X, Y), (Y, X)):
                    l = lin(P)
                    if type(l) is not int:
                        c = max([abs(k) for _, (t, k) in l.t.items() if t.get_id() in hs] or [0])
                        if 1 < c <= 64:
                            fs.append(z3.ULE(P, Q + bv(c - 1)))
                            fs.append(z3.And(z3.ULE(P, Q + bv(c - 1)), z3.ULE(Q, bv(1 << 62))))
                    fs.append(z3.ULE(P, Q + bv(1)))
            for f in fs:
                add(str(f)[:200], f)
        # monotonicity and range
        for loc, inf in self.infos.items():
            if inf.cls in ("fresh", "stride") and inf.kind in ("int", "ptr", "str") and inf.sym is not None:
                w = inf.w if inf.kind == "int" else 64
                if w == 1:
                    continue
                ev = read(self.E, loc, self.fi)
                if ev is None:
                    continue
                en = lz(ev.off) if inf.kind == "ptr" else ev.len if inf.kind == "str" else ev
                hv = read(S, loc, self.fi)
                x = lz(hv.off) if inf.kind == "ptr" else hv.len if inf.kind == "str" else hv
                X, N = bv(x, w), bv(en, w)
                add("mono", z3.UGE(X, N))
                add("mono-s", X >= N)
                add("le", z3.ULE(X, N))
                add("le-s", X <= N)
                if inf.kind == "str":
                    pass
                if inf.cls == "stride":
                    add("small", z3.ULE(inf.sym, bv(1 << 50)))
                # at most / at least one step per iteration
                if w == 64:
                    add("len-iter", z3.ULE(X, N + self.t))
                    add("len-iter3", z3.ULE(X, N + self.t * 3))
        for loc, inf in self.infos.items():
            for loc2, inf2 in self.infos.items():
                if loc is loc2 or inf.cls not in ("fresh", "stride") or inf2.cls not in ("fresh", "stride") or inf.sym is None or inf2.sym is None:
                    continue
                if inf.kind == "int" and inf.w != 64 or inf2.kind == "int" and inf2.w != 64:
                    continue
                e1, e2 = num_of(read(self.E, loc, self.fi)), num_of(read(self.E, loc2, self.fi))
                if e1 is None or e2 is None:
                    continue
                x1, x2 = num_of(read(S, loc, self.fi)), num_of(read(S, loc2, self.fi))
                f1, f2 = bv(x1) - bv(e1), bv(x2) - bv(e2)
                add("rel-eq", f1 == f2)
                add("rel-le", z3.ULE(f1, f2))
                add("rel-sum", f1 + f2 == 0)
        # invariants proposed by the contract
        for g in e.cand_gens:
            for name, fn in g(e, self, S):
                out.append((name, fn))
        return out

    def usable(self, x, hs):
        """only symbols that exist at the header"""
        for c in consts(x):
            if c.get_id() in hs:
                continue
            n = c.decl().name()
            i = n.rfind("!")
            if i > 0 and n[i + 1:].isdigit() and int(n[i + 1:]) >= self.first:
                return False
        return True

    # ------------------------------------------------------------------ driver
    def split(self):
        """tuples of values of the discrete locations: entry tuple first"""
        disc = {l: i for l, i in self.infos.items() if i.cls == "disc"}
        if not disc:
            return None, None
        t = {}
        for l, i in disc.items():
            v = read(self.E, l, self.fi)
            if i.kind == "ptr":
                v = (v.obj, v.off)
            t[l] = v
        return disc, t

    def tuple_of(self, B, disc):
        out = {}
        for l, i in disc.items():
            v = read(B, l, self.fi)
            if i.kind == "ptr":
                if type(v.off) is not int:
                    return None
                v = (v.obj, v.off)
            elif i.kind == "int" and type(v) is not int:
                k = self.e.concretize(B, v if not z3.is_bool(v) else bv(v, 1))
                if k is None:
                    return None
                v = k
            out[l] = v
        return out

    def go(self):
        e = self.e
        e.stats["loops_cut"] += 1
        t0 = time.time()
        self.discover()
        disc, t0p = self.split()
        self.disc = disc
        key = lambda t: None if t is None else tuple(sorted(((str(l), str(v)) for l, v in t.items())))
        tups = {key(t0p): t0p}
        # candidates are generated once from a generic header; their formulas use that header's symbols
        S0 = self.header(t0p)
        self.S0syms = (self.t, dict(self.syms), self.n0)
        cands = self.candidates(S0)
        e.stats["cands"] += len(cands)
        defs = e.defs
        vE = self.view(self.E, "entry")
        Ed = self.E.clone()
        for d in defs:
            for f in d(e, self, vE):
                Ed.assume(f)
        alive = []
        for name, fn in cands:
            c = safe(fn, vE)
            if c is None:
                continue
            alive.append((name, fn, c))
        alive = self.filter(Ed, alive)
        cand_of = {key(t0p): {n_i: (n, f) for n_i, (n, f, _) in enumerate(alive)}}
        allc = {n_i: (n, f) for n_i, (n, f, _) in enumerate(alive)}
        # candidates that fail at entry may still be invariants of other discrete states
        if disc:
            base = len(allc)
            extra = []
            names = {id(f) for _, f, _ in alive}
            for n, f in cands:
                if id(f) not in names:
                    extra.append((n, f))
            for j, (n, f) in enumerate(extra):
                allc[base + j] = (n, f)
        pending = [key(t0p)]
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 400:
                raise ToolLimit("invariant inference does not converge")
            k = pending.pop(0)
            S = self.start(tups[k], [cand_of[k][i] for i in sorted(cand_of[k])])
            dirty = set()

            def sink(B):
                kt = None
                tb = None
                if disc:
                    tb = self.tuple_of(B, disc)
                    if tb is None:
                        raise ToolLimit("discrete state becomes symbolic")
                    kt = key(tb)
                if kt not in tups:
                    tups[kt] = tb
                    if len(tups) > 80:
                        raise ToolLimit("too many discrete states")
                    cand_of[kt] = dict(allc)
                    dirty.add(kt)
                v = self.view(B, "back")
                if v is None:
                    raise ToolLimit("stride lost at a back edge")
                cs = []
                for i, (n, f) in list(cand_of[kt].items()):
                    c = safe(f, v)
                    if c is None:
                        del cand_of[kt][i]
                        dirty.add(kt)
                        continue
                    cs.append((i, None, c))
                if not cs:
                    return
                kept = self.filter(B, cs)
                if len(kept) != len(cs):
                    ks = {i for i, _, _ in kept}
                    for i, _, c in cs:
                        if i not in ks:
                            if e.trace:
                                print("      dropped", cand_of[kt][i][0], str(z3.simplify(c))[:200], "at", e.where(B))
                            del cand_of[kt][i]
                    dirty.add(kt)
            self.run_body(S, "infer", sink)
            for kt in dirty:
                if kt not in pending:
                    pending.append(kt)
        # a state whose own candidates shrank was put back into pending, so all are stable here
        e.stats["inv_checks"] += sum(len(c) for c in cand_of.values())
        if e.verbose:
            print(f"    cut {self.loop} in {e.where(self.E)}: {len(tups)} header state(s), {len(self.infos)} modified, invariants:",
                  [n for n, f in cand_of[key(t0p)].values()][:60], f"{time.time() - t0:.1f}s", {str(l): (i.cls, i.d) for l, i in self.infos.items()} if e.trace else "")
        # final pass: obligations are checked for real
        for k, tp in tups.items():
            invs = [cand_of[k][i] for i in sorted(cand_of[k])]
            S = self.start(tp, invs)

            def final_sink(B):
                kt = None
                if disc:
                    tb = self.tuple_of(B, disc)
                    kt = key(tb) if tb is not None else None
                    e.oblige(B, kt in tups, "loop invariant preserved", f"discrete state {self.loop}")
                v = self.view(B, "back")
                self.oblige_all(B, [f(v) for i, (n, f) in cand_of[kt].items()], "loop invariant preserved")
            ctx = Ctx(self.loop, "final", final_sink)
            ctx.ghost = dict(S.ghost)
            S.frames[-1].cuts = S.frames[-1].cuts + (ctx,)
            e.work.append(S)
        self.oblige_all(Ed, [f(vE) for i, (n, f) in cand_of[key(t0p)].items()], "loop invariant established")

    def oblige_all(self, st, fs, kind):
        e = self.e
        if e.infer or not fs:
            return
        if e.check(st, z3.Or(*[z3.Not(f) for f in fs])) == z3.unsat:
            name = f"{kind} @ {e.where(st)} [{self.loop}]"
            rec = e.obl_names.setdefault(name, [0, 0])
            rec[0] += len(fs)
            rec[1] += len(fs)
            e.stats["obl"] += len(fs)
            e.stats["obl_z3"] += len(fs)
            return
        for f in fs:
            e.oblige_cached(st, f, kind, str(self.loop))

    def start(self, tup, invs):
        """header state with the invariants assumed; symbols are those the candidates were generated with"""
        e = self.e
        S = self.E.clone()
        t, syms, n0 = self.S0syms
        S2 = self.header_with(S, tup, t, syms)
        v = View(self, S2, "header", [])
        for n, f in invs:
            S2.assume(f(v))
        for d in e.defs:
            for f in d(e, self, v):
                S2.assume(f)
        return S2

    def header_with(self, S, tup, t, syms):
        """same as header() but reusing the symbols"""
        e = self.e
        S2 = self.header_reuse(tup, t, {id(i): s for s, k, i in syms.values()})
        self.t, self.syms = t, syms
        return S2

    def header_reuse(self, tup, t, symof):
        e, fi = self.e, self.fi
        S = self.E.clone()
        S.assume(z3.ULT(t, bv(TMAX)))
        for loc, inf in self.infos.items():
            ev = read(self.E, loc, fi)
            if inf.cls == "disc":
                v = tup[loc]
                write(e, S, loc, fi, Ptr(*v) if inf.kind == "ptr" else v)
                continue
            if inf.kind == "arr":
                write(e, S, loc, fi, e.fresh_arr("loop", ev.w if ev is not None else 8))
                continue
            if inf.kind == "sarr":
                n = next(e.fresh_n)
                B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
                fl = z3.Function(f"hl!{n}", B64, B64)
                fa = z3.Function(f"ha!{n}", B64, B64, B8)
                write(e, S, loc, fi, StrTab(lambda i, fl=fl: fl(i), lambda i, k, fa=fa: fa(i, k)))
                continue
            w = inf.w if inf.kind == "int" else 64
            en = None if ev is None else (lz(ev.off) if inf.kind == "ptr" else ev.len if inf.kind == "str" else ev)
            if inf.cls == "affine":
                if w == 64:
                    nv = add64(en, lz(lmul(lin(t), inf.d)))
                else:
                    nv = simp(bv(en, w) + z3.Extract(w - 1, 0, t) * bv(inf.d & ((1 << w) - 1), w))
            elif inf.cls == "stride" and w == 64:
                nv = add64(en, lz(lmul(lin(symof[id(inf)]), inf.d)))
            else:
                nv = symof[id(inf)]
            if inf.kind == "int":
                write(e, S, loc, fi, nv)
            elif inf.kind == "ptr":
                write(e, S, loc, fi, Ptr(inf.obj, lin(nv)))
            else:
                if type(nv) is not int:
                    S.assume(z3.ULT(bv(nv), bv(BIGLEN)))
                write(e, S, loc, fi, StrVal(nv, e.fresh_arr("loopstr")))
        return S

    def filter(self, st, cs):
        """the candidates (i, fn, formula) that hold on this path"""
        e = self.e
        out = []
        todo = []
        for x in cs:
            f = z3.simplify(x[2])
            if z3.is_true(f):
                out.append(x)
            elif z3.is_false(f):
                if not e.feasible(st):
                    return cs
            else:
                todo.append((x, f))
        n = 0
        while todo:
            n += 1
            r = e.check(st, z3.Or(*[z3.Not(f) for _, f in todo]))
            if r == z3.unsat:
                out += [x for x, _ in todo]
                break
            if r == z3.sat and n <= 60 and e.last_model is not None:
                m = e.last_model
                keep = []
                for x, f in todo:
                    v = m.eval(f, model_completion=True)
                    if z3.is_false(v):
                        continue
                    keep.append((x, f))
                if len(keep) == len(todo):
                    keep = self.single(st, todo)
                    out += keep
                    break
                todo = keep
                continue
            out += self.single(st, todo)
            break
        return out

    def single(self, st, todo):
        e = self.e
        out = []
        for x, f in todo:
            if e.check(st, z3.Not(f)) == z3.unsat:
                out.append(x)
        return out


BIGLEN = 1 << 47


def num_of(v):
    if v is None:
        return None
    if isinstance(v, Ptr):
        return lz(v.off)
    if isinstance(v, StrVal):
        return v.len
    return v


def safe(fn, view):
    try:
        c = fn(view)
    except (ToolLimit, AttributeError, TypeError, z3.Z3Exception):
        return None
    if c is None:
        return None
    if c is True or c is False:
        return z3.BoolVal(c)
    return c


_consts = {}


def consts(x):
    """free constants of a term"""
    i = x.get_id()
    r = _consts.get(i)
    if r is not None:
        return r[0]
    seen, out, todo = set(), [], [x]
    while todo:
        a = todo.pop()
        k = a.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(a)
        else:
            todo += a.children()
    _consts[i] = (out, x)
    return out


def data_dependent(x):
    """comparisons on input bytes or on conditional values are not proposed as invariants"""
    todo, seen = [x], set()
    while todo:
        a = todo.pop()
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_ITE):
            return True
        todo += a.children()
    return False


def mentions(x, ids):
    return any(c.get_id() in ids for c in consts(x))


def cut(e, st, loop):
    Cut(e, st, loop).go()
