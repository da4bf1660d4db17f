"""Symbolic execution / verification-condition generation over the IR of the real code."""
import itertools, os, subprocess, tempfile, time
import z3
from .val import *
from . import ir

SOLVERS = [("z3-4.8.12", ["/usr/bin/z3", "-T:%s"]), ("z3-new", ["z3-new", "-T:%s"]), ("cvc5", ["cvc5", "--tlimit=%ms", "-q"])]
BIG = 1 << 47  # assumption: no object is larger than 2^47 bytes


class Seg:
    __slots__ = ("start", "n", "arr")

    def __init__(self, start, n, arr):
        self.start, self.n, self.arr = start, n, arr


class Obj:
    __slots__ = ("id", "name", "kind", "size", "alive", "ro", "cells", "segs", "strs", "owner", "ty", "init", "meta", "sarr")

    def __init__(self, id, name, kind, size, ty=None, init="undef"):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.alive, self.ro = True, False
        self.cells, self.segs, self.strs = {}, [], {}
        self.owner = None
        self.ty = ty
        self.init = init
        self.meta = {}
        self.sarr = {}   # (field offset, stride) -> StrTab: strings stored in the elements of an unbounded vector

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.name, o.kind, o.size, o.alive, o.ro = self.id, self.name, self.kind, self.size, self.alive, self.ro
        o.cells, o.segs, o.strs = dict(self.cells), list(self.segs), dict(self.strs)
        o.ty, o.init, o.meta, o.sarr = self.ty, self.init, dict(self.meta), dict(self.sarr)
        o.owner = owner
        return o


class StrTab:
    """contents of the strings at a fixed field of every element of an unbounded vector"""
    __slots__ = ("base_len", "base_at", "ups")

    def __init__(self, base_len, base_at, ups=()):
        self.base_len, self.base_at, self.ups = base_len, base_at, ups   # ups: ((idx, StrVal), ...)

    def get(self, idx, eng, st):
        # newest update first
        pend = []
        for (j, v) in reversed(self.ups):
            s = same(idx, j)
            if s is None:
                c = bv(idx) == bv(j)
                if eng.must(st, c):
                    s = True
                elif eng.must(st, z3.Not(c)):
                    s = False
            if s is True:
                r = v
                break
            if s is None:
                pend.append((j, v))
        else:
            i = bv(idx)
            r = StrVal(self.base_len(i), AFn(lambda k, i=i: self.base_at(i, bv(k))))
            st.assume(z3.ULT(bv(r.len), bv(1 << 46)))
        for (j, v) in reversed(pend):
            c = bv(idx) == bv(j)
            r = StrVal(ite(c, v.len, r.len, 64), AIte(c, v.arr, r.arr))
        return r

    def put(self, idx, v):
        return StrTab(self.base_len, self.base_at, self.ups + ((idx, v),))


class Frame:
    __slots__ = ("fn", "loc", "blk", "ip", "prev", "ret_id", "normal", "unwind", "allocas", "cuts", "iters", "on_ret", "args", "tag")

    def __init__(self, fn, args):
        self.fn = fn
        self.loc = dict(enumerate(args))
        self.blk, self.ip, self.prev = 0, 0, -1
        self.ret_id = -1
        self.normal = self.unwind = None
        self.allocas = []
        self.cuts = ()
        self.iters = {}
        self.on_ret = None
        self.args = args
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.loc, f.blk, f.ip, f.prev = self.fn, dict(self.loc), self.blk, self.ip, self.prev
        f.ret_id, f.normal, f.unwind = self.ret_id, self.normal, self.unwind
        f.allocas, f.cuts, f.iters, f.on_ret, f.args, f.tag = list(self.allocas), self.cuts, dict(self.iters), self.on_ret, self.args, self.tag
        return f


class State:
    __slots__ = ("objs", "frames", "pc", "ghost", "exc", "token", "caught", "foralls", "steps", "trail", "npc")
    _tok = itertools.count(1)

    def __init__(self):
        self.objs, self.frames, self.pc, self.ghost = {}, [], (), {}
        self.exc = None
        self.caught = ()
        self.foralls = ()
        self.token = next(State._tok)
        self.trail = ()
        self.steps = 0
        self.npc = 0

    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.exc, s.caught, s.foralls = self.exc, self.caught, self.foralls
        s.trail, s.steps, s.npc = self.trail, self.steps, self.npc
        s.token = next(State._tok)
        self.token = next(State._tok)
        return s

    def w(self, oid):
        o = self.objs[oid]
        if o.owner != self.token:
            o = self.objs[oid] = o.copy(self.token)
        return o

    def assume(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        if type(c) is int:
            c = z3.BoolVal(bool(c))
        if z3.is_true(c):
            return
        self.pc = (self.pc, c)
        self.npc += 1


class PathEnd(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, loop):
        self.loop = loop


class Failure:
    def __init__(self, name, where, kind, detail, model, stack):
        self.name, self.where, self.kind, self.detail, self.model, self.stack = name, where, kind, detail, model, stack


UBSAN = {0: "signed addition overflow", 1: "builtin-unreachable", 2: "cfi", 3: "divide by zero or overflow", 5: "float cast overflow", 7: "implicit conversion",
         10: "load of an invalid value", 11: "missing return", 12: "signed multiplication overflow", 13: "negation overflow", 15: "nullability", 17: "nonnull return",
         18: "out of bounds index", 19: "pointer overflow", 20: "shift out of bounds", 21: "signed subtraction overflow", 22: "type mismatch", 23: "alignment", 24: "vla bound"}


class Engine:
    def __init__(self, mod, models, timeout_ms=20000):
        self.m = mod
        self.models = models          # Models instance: name -> handler
        self.name_width, self.named = 0, {}   # results of this width get a name: ast id -> (name, definition)
        self.next_obj = itertools.count(1000)
        self.fresh_n = itertools.count()
        self.gids = {}                # global name -> object id
        self.gnames = {}
        self.z = z3.Solver()
        self.z.set("timeout", 500)
        self.soft_timeout = 6
        self.solver_wins = {}
        self.zstack = []
        self.timeout = timeout_ms
        self.stats = {"queries": 0, "time": 0.0, "obl": 0, "obl_trivial": 0, "obl_z3": 0, "obl_cvc5": 0, "insts": 0, "paths": 0, "loops_cut": 0, "cands": 0, "inv_checks": 0}
        self.obl_names = {}
        self.failures = []
        self.undecided = []
        self.cut_loops = set()
        self.work = None
        self.unroll_limit = 14
        self.peel = ()                # ghosts: a path that changed one of them in a loop is not joined at the loop's head
        self.deep_forks = False       # case splits inside calls count against the loops of the callers
        self.max_steps = 3_000_000
        self.sub = {}                 # contracts substituted at call boundaries: predicate -> handler
        self.contracts_used = {}
        self.inlined = set()
        self.modelled = {}
        self.hooks = {}
        self.addr = {}
        self.infer = 0
        self.cutcache = {}
        self.cand_gens = []           # functions(ctx, view) -> iterable of (name, fn)
        self.defs = []                # functions(view) -> list of assumed definitional axioms
        self.allow_global_writes = set()
        self.discrete = lambda loc: False
        self.on_path_end = None
        self.deadline = None
        self.trace = os.environ.get("IRV_TRACE")
        self.facts_global = []
        self.catch_pred = None
        self.entry_name = ""
        self.covers = {}
        self.rng_cache = {}
        self.verbose = bool(os.environ.get("IRV_VERBOSE"))

    # ------------------------------------------------------------ fresh symbols
    only = None   # kinds of obligations this proof is about; the others are proved elsewhere and assumed here
    skip = None   # kinds of obligations this proof is not about

    def fresh(self, name, w):
        n = f"{name}!{next(self.fresh_n)}"
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def fresh_arr(self, name, w=8):
        return ABase(z3.Array(f"{name}!{next(self.fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(w)), w)

    def fresh_str(self, st, name):
        n = self.fresh(name + ".len", 64)
        st.assume(z3.ULT(n, bv(BIG)))
        return StrVal(n, self.fresh_arr(name))

    # ------------------------------------------------------------ solver
    def sync(self, st):
        lst = []
        p = st.pc
        while p:
            lst.append(p)
            p = p[0]
        lst.reverse()
        z = self.z
        k = 0
        zs = self.zstack
        while k < len(zs) and k < len(lst) and zs[k] is lst[k]:
            k += 1
        if len(zs) > k:
            z.pop(len(zs) - k)
            del zs[k:]
        for n in lst[k:]:
            z.push()
            z.add(n[1])
            zs.append(n)

    def check(self, st, *extra):
        """sat/unsat/unknown of the path condition with extra conditions"""
        if self.deadline and time.time() > self.deadline:
            raise ToolLimit("time budget exhausted")
        t = time.time()
        self.sync(st)
        z = self.z
        if extra:
            z.push()
            for e in extra:
                z.add(e)
        r = z.check()
        self.last_model = z.model() if r == z3.sat else None
        if r == z3.unknown:
            r = self.portfolio(z.sexpr(), self.soft_timeout)
        if extra:
            z.pop()
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t
        return r

    def portfolio(self, body, limit):
        """race of separate solver processes on one query"""
        if "(lambda" in body:
            return z3.unknown
        self.stats["portfolio"] = self.stats.get("portfolio", 0) + 1
        fd, fn = tempfile.mkstemp(suffix=".smt2", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + body + "\n(check-sat)\n")
        ms = int(limit * 1000)
        procs = []
        for name, cmd in SOLVERS:
            c = [x.replace("%ms", str(ms)).replace("%s", str(int(limit) + 1)) for x in cmd] + [fn]
            procs.append((name, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)))
        end = time.time() + limit + 2
        res, who = z3.unknown, None
        live = list(procs)
        while live and res == z3.unknown and time.time() < end:
            time.sleep(0.01)
            for x in list(live):
                if x[1].poll() is not None:
                    live.remove(x)
                    o = x[1].stdout.read().decode().strip().splitlines()
                    o = o[-1] if o else ""
                    if o == "unsat":
                        res, who = z3.unsat, x[0]
                    elif o == "sat":
                        res, who = z3.sat, x[0]
                    if res != z3.unknown:
                        break
        for _, p in procs:
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        if os.environ.get("IRV_KEEPQ") and (res == z3.unknown):
            os.rename(fn, f"/tmp/t/unk{self.stats['portfolio']}.smt2")
        else:
            os.unlink(fn)
        if who:
            self.solver_wins[who] = self.solver_wins.get(who, 0) + 1
        return res

    def feasible(self, st, c=None):
        if c is not None:
            if c is True or type(c) is int and c:
                return True
            if c is False or type(c) is int:
                return False
            c = z3.simplify(c)
            if z3.is_false(c):
                return False
            r = self.check(st, c)
        else:
            r = self.check(st)
        return r != z3.unsat

    def must(self, st, c):
        if c is True or c is False:
            return c
        if type(c) is int:
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check(st) == z3.unsat
        return self.check(st, z3.Not(c)) == z3.unsat

    def concretize(self, st, v, w=64):
        """the single value of v on this path, or None"""
        if type(v) is int:
            return v
        if isinstance(v, Lin):
            v = v.z3()
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if self.check(st) != z3.sat or self.last_model is None:
            return None
        x = self.last_model.eval(v, model_completion=True)
        if not z3.is_bv_value(x):
            return None
        if self.check(st, v != x) == z3.unsat:
            return x.as_long()
        return None

    def oblige(self, st, cond, kind, detail="", where=None):
        """proof obligation: cond must hold on this path"""
        if self.infer or self.only and not kind.startswith(self.only) or self.skip and kind.startswith(self.skip):
            if cond is True or type(cond) is int and cond:
                return
            if cond is False or type(cond) is int:
                raise PathEnd()
            st.assume(cond)
            return
        where = where or self.where(st)
        name = f"{kind} @ {where}" + (f" [{detail}]" if detail else "")
        self.stats["obl"] += 1
        rec = self.obl_names.setdefault(name, [0, 0])
        rec[0] += 1
        if type(cond) is int:
            cond = bool(cond)
        if cond is not True and cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if cond is True:
            rec[1] += 1
            self.stats["obl_trivial"] += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.check(st, neg)
        if r == z3.unknown or r == z3.sat and self.last_model is None:
            r = self.hard_check(st, neg)
        if r == z3.unsat:
            rec[1] += 1
            self.stats["obl_z3"] += 1
            if cond is not False:
                st.assume(cond)
                return
            raise PathEnd()
        model = self.last_model if r == z3.sat else None
        f = Failure(name, where, kind, detail, model, [fr.fn.dem for fr in st.frames])
        f.state = st.clone()
        f.result = str(r)
        f.cond = cond
        if r == z3.sat:
            self.failures.append(f)
        else:
            self.undecided.append(f)
        if self.verbose:
            print("FAILED", r, name, "\n   ", "\n    ".join(f.stack[-6:]))
            if model is not None and self.verbose and os.environ.get("IRV_MODEL"):
                print(model)
        if len(self.failures) > 40:
            raise ToolLimit("too many failing obligations")
        if cond is False:
            raise PathEnd()
        st.assume(cond)
        if not self.feasible(st):
            raise PathEnd()

    def oblige_cached(self, st, cond, kind, detail):
        """obligation already established by the inference pass: re-checked only outside inference"""
        if self.infer or self.only and not kind.startswith(self.only) or self.skip and kind.startswith(self.skip):
            return
        self.oblige(st.clone(), cond, kind, detail)

    def hard_check(self, st, neg):
        """a longer race for an obligation the usual limit leaves open; a model is looked for when it is refuted"""
        t0 = time.time()
        s = z3.Solver()
        p = st.pc
        fs = []
        while p:
            fs.append(p[1])
            p = p[0]
        fs.reverse()
        for f in fs:
            s.add(f)
        s.add(neg)
        r = self.portfolio(s.sexpr(), self.timeout / 1000)
        self.last_model = None
        if r == z3.sat:
            s.set("timeout", 8000)
            if s.check() == z3.sat:
                self.last_model = s.model()
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t0
        return r

    def where(self, st):
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.blk]
            line = b[min(fr.ip, len(b) - 1)][3]
            if line and not self.is_lib(fr.fn):
                return f"{short(fr.fn.dem)} {line}"
        fr = st.frames[-1] if st.frames else None
        return fr.fn.dem if fr else "?"

    def is_lib(self, fn):
        d = fn.dem
        return "std::" in d.split("(")[0].split("<")[0] or d.startswith("__gnu") or fn.src.split(":")[0] in LIBFILES

    # ------------------------------------------------------------ objects and memory
    def new_obj(self, st, name, kind, size, ty=None, init="undef"):
        oid = next(self.next_obj)
        o = Obj(oid, name, kind, size, ty, init)
        o.owner = st.token
        st.objs[oid] = o
        return oid

    def global_ptr(self, st, name, off=0):
        if name in self.m.raw or name in self.m.decls:
            return Ptr(("fn", name), off)
        oid = self.gids.get(name)
        if oid is None:
            oid = self.gids[name] = 1 + len(self.gids)
            self.gnames[oid] = name
        if oid not in st.objs:
            self.init_global(st, name, oid)
        return Ptr(oid, off)

    def init_global(self, st, name, oid):
        g = self.m.globs[name]
        size = self.m.size(g["ty"])
        o = Obj(oid, g["dem"], "global", size, g["ty"], "zero")
        o.owner = st.token
        o.ro = bool(g["const"])
        st.objs[oid] = o
        if g["decl"]:
            o.init = "fresh"
            h = self.models.extern_global(self, st, name, o)
            return
        if not g["const"] and not self.hooks.get("global", lambda *a: False)(st, name, o):
            # mutable global: initial value (frame obligations forbid writes by the functions under contract)
            pass
        self.put_const(st, o, 0, g["init"], g["ty"])

    def put_const(self, st, o, off, c, ty):
        k = c[0]
        t = self.m.ty(ty)
        if k == "z":
            return
        if k == "a":
            if t["k"] == "st":
                for e, eo, v in zip(t["e"], t["o"], c[2]):
                    self.put_const(st, o, off + eo, v, e)
            else:
                es = self.m.size(t["e"])
                if self.m.ty(t["e"])["k"] == "int" and es == 1 and len(c[2]) > 64:
                    o.segs.append(Seg(off, len(c[2]), ALit([x[2] for x in c[2]])))
                    return
                for i, v in enumerate(c[2]):
                    self.put_const(st, o, off + i * es, v, t["e"])
            return
        if k == "u":
            return
        v = self.const(st, c, ty)
        o.cells[off] = (t["sz"] if t["k"] != "int" else (t["b"] + 7) // 8, v)

    def const(self, st, c, ty=None):
        k = c[0]
        if k == "i":
            return int(c[2])
        if k == "n":
            return NULL
        if k == "g":
            return self.global_ptr(st, c[1], c[2])
        if k == "f":
            return int(c[2])
        if k == "u":
            t = self.m.ty(c[1])
            return self.undef(t, c[1])
        if k == "z":
            return self.zero(c[1])
        if k == "a":
            t = self.m.ty(c[1])
            return [self.const(st, x) for x in c[2]]
        if k == "p2i":
            return self.const(st, c[1])
        if k == "i2p":
            return Ptr(0, self.const(st, c[1]))
        raise ToolLimit(f"constant expression {c[1]}")

    def undef(self, t, tid):
        if t["k"] == "int":
            return self.fresh("undef", t["b"])
        if t["k"] == "fp":
            return self.fresh("undef", t["b"])
        if t["k"] == "ptr":
            return Ptr(("undef", next(self.fresh_n)), 0)
        if t["k"] == "st":
            return [self.undef(self.m.ty(e), e) for e in t["e"]]
        if t["k"] == "arr":
            return [self.undef(self.m.ty(t["e"]), t["e"]) for _ in range(t["n"])]
        raise ToolLimit("undef of type " + t["k"])

    def zero(self, tid):
        t = self.m.ty(tid)
        if t["k"] in ("int", "fp"):
            return 0
        if t["k"] == "ptr":
            return NULL
        if t["k"] == "st":
            return [self.zero(e) for e in t["e"]]
        if t["k"] == "arr":
            return [self.zero(t["e"])] * t["n"]
        raise ToolLimit("zero of type " + t["k"])

    def getobj(self, st, p, what, size, write=False):
        if not isinstance(p, Ptr):
            p = self.to_ptr(st, p)
        if p.obj == 0:
            self.oblige(st, False, "null pointer dereference", what)
        if isinstance(p.obj, tuple):
            if p.obj[0] == "str":
                return p
            if p.obj[0] == "undef":
                self.oblige(st, False, "use of uninitialised pointer", what)
            raise ToolLimit(f"{what} through {p.obj}")
        o = st.objs.get(p.obj)
        if o is None:
            if p.obj in self.gnames:
                self.init_global(st, self.gnames[p.obj], p.obj)
                o = st.objs[p.obj]
            else:
                raise ToolLimit("unknown object")
        if not o.alive:
            self.oblige(st, False, "use after end of lifetime", f"{what} {o.name}")
        self.bounds(st, o, p, size, what)
        if write:
            if o.ro:
                self.oblige(st, False, "write to read-only memory", o.name)
            if o.kind == "global" and p.obj not in self.allow_global_writes and not st.ghost.get("_guard"):
                self.oblige(st, False, "frame: writes shared static state", o.name)
        return p

    def bounds(self, st, o, p, size, what):
        osz = o.size
        off = p.off
        if type(off) is int and type(osz) is int and type(size) is int:
            if off < 0 or off + size > osz:
                self.oblige(st, False, "memory access in bounds", f"{what} {o.name}")
            return
        if type(off) is int and type(size) is int:
            if off < 0:
                self.oblige(st, False, "memory access in bounds", f"{what} {o.name}")
            c = z3.UGE(bv(osz), bv(off + size))
        else:
            z = bv(lz(off))
            sz = bv(size)
            s = bv(osz)
            c = z3.And(z3.ULE(sz, s), z3.ULE(z, s - sz))
        self.oblige(st, c, "memory access in bounds", f"{what} {o.name}")

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if type(v) is int:
            return Ptr(0, v)
        l = lin(v)
        if not isinstance(l, int):
            for i, (t, k) in l.t.items():
                oid = self.addr_inv().get(t.get_id())
                if oid is not None and k == 1:
                    return Ptr(oid, lsub(l, lin(t)))
        raise ToolLimit("integer used as pointer")

    def addr_inv(self):
        return {t.get_id(): o for o, t in self.addr.items()}

    def to_int(self, st, v, w=64):
        if isinstance(v, Ptr):
            if v.obj == 0:
                return lz(v.off)
            a = self.addr.get(v.obj)
            if a is None:
                a = self.addr[v.obj] = z3.BitVec(f"addr!{len(self.addr)}", 64)
            return lz(ladd(lin(a), v.off))
        return v

    # --- cells
    def bytes_of(self, v, size):
        """little-endian list of byte values of a stored value"""
        if type(v) is int:
            return [(v >> (8 * i)) & 255 for i in range(size)]
        if z3.is_bool(v):
            v = bv(v, 8 * size)
        if isinstance(v, Ptr):
            return [("ptrbyte", v, i) for i in range(size)]
        if v.size() < 8 * size:
            v = z3.ZeroExt(8 * size - v.size(), v)
        if size == 1:
            return [v]
        return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(size)]

    def from_bytes(self, bs):
        if all(type(b) is int for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r
        if any(isinstance(b, tuple) for b in bs):
            if len(bs) == 8 and all(isinstance(b, tuple) for b in bs) and all(b[1] is bs[0][1] and b[2] == i for i, b in enumerate(bs)):
                return bs[0][1]
            raise ToolLimit("partial pointer bytes")
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def seg_at(self, o, off, size):
        for s in o.segs:
            if type(s.n) is int:
                if s.start <= off and off + size <= s.start + s.n:
                    return s
            elif s.start <= off:
                return s
        return None

    def init_byte(self, st, o, off):
        if o.init == "zero":
            return 0
        return self.fresh(f"uninit", 8)

    def load_cell(self, st, oid, off, size, isptr=False):
        o = st.objs[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        s = self.seg_at(o, off, size)
        if s is not None:
            bs = [s.arr.sel(off - s.start + i) for i in range(size)]
            if isptr and all(type(b) is int for b in bs):
                return self.from_bytes(bs)
            return self.from_bytes(bs)
        # overlapping cells?
        over = [(co, cs, cv) for co, (cs, cv) in self.near(o, off, size)]
        if not over:
            if o.init == "zero":
                v = 0
            else:
                if isptr:
                    v = Ptr(("undef", next(self.fresh_n)), 0)
                else:
                    v = self.fresh("uninit", 8 * size)
                o = st.w(oid)
                o.cells[off] = (size, v)
            return NULL if isptr and v == 0 else v
        bs = [None] * size
        for co, cs, cv in over:
            b = self.bytes_of(cv, cs)
            for i in range(cs):
                if 0 <= co + i - off < size:
                    bs[co + i - off] = b[i]
        w = None
        for i in range(size):
            if bs[i] is None:
                bs[i] = self.init_byte(st, o, off + i)
                if o.init != "zero":
                    w = w or st.w(oid)
                    w.cells[off + i] = (1, bs[i])
        return self.from_bytes(bs)

    def near(self, o, off, size):
        r = []
        for k in range(off - 15, off + size):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                r.append((k, c))
        return r

    def store_cell(self, st, oid, off, size, v):
        o = st.w(oid)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        s = self.seg_at(o, off, size)
        if s is not None:
            arr = s.arr
            for i, b in enumerate(self.bytes_of(v, size)):
                if isinstance(b, tuple):
                    raise ToolLimit("pointer stored in byte array")
                arr = arr.store(off - s.start + i, b)
            o.segs[o.segs.index(s)] = Seg(s.start, s.n, arr)
            return
        for co, (cs, cv) in self.near(o, off, size):
            del o.cells[co]
            if co < off or co + cs > off + size:
                b = self.bytes_of(cv, cs)
                for i in range(cs):
                    if not off <= co + i < off + size:
                        if isinstance(b[i], tuple):
                            continue
                        o.cells[co + i] = (1, b[i])
        o.cells[off] = (size, v)

    def array_field(self, o, off, acc=1):
        """innermost array containing byte offset off, from the object's type: (start, nbytes, elemsize)"""
        if o.ty is None:
            return None
        t = self.m.ty(o.ty)
        start = 0
        best = None
        while True:
            if t["k"] == "arr":
                es = self.m.size(t["e"])
                best = (start, t["n"] * es, es)
                if es == 0:
                    return best
                i = (off - start) // es
                if i >= t["n"]:
                    i = t["n"] - 1
                et = self.m.ty(t["e"])
                if et["k"] in ("arr", "st"):
                    start += i * es
                    t = et
                    continue
                return best
            if t["k"] == "st":
                nxt = None
                for e, eo in zip(t["e"], t["o"]):
                    es = self.m.size(e)
                    if eo <= off - start < eo + es or (off - start == eo and es):
                        nxt = (e, eo)
                if nxt is None:
                    return best
                start += nxt[1]
                t = self.m.ty(nxt[0])
                continue
            return best

    def make_seg(self, st, oid, start, n):
        """turn bytes [start, start+n) of an object into an array segment"""
        o = st.w(oid)
        if o.init == "zero":
            arr = AConst(0)
        else:
            arr = self.fresh_arr("mem")
        for co in sorted(o.cells):
            cs, cv = o.cells[co]
            if type(n) is int and co >= start + n:
                continue
            if co + cs <= start:
                continue
            for i, b in enumerate(self.bytes_of(cv, cs)):
                if isinstance(b, tuple):
                    raise ToolLimit("array segment over pointers")
                arr = arr.store(co + i - start, b)
            del o.cells[co]
        for s in list(o.segs):
            if type(s.n) is int and s.start >= start and (type(n) is not int or s.start + s.n <= start + n):
                arr = ACopy(arr, s.start - start, s.n, s.arr, 0)
                o.segs.remove(s)
        o.segs.append(Seg(start, n, arr))
        return o.segs[-1]

    def sym_seg(self, st, oid, off, size):
        """segment to use for a symbolic offset access; None means: use the if-then-else form over cells"""
        o = st.objs[oid]
        base = off.c
        for s in o.segs:
            if type(s.n) is not int:
                return s
        cand = [s for s in o.segs]
        if type(o.size) is not int:
            return self.make_seg(st, oid, 0, o.size)
        # choose by declared array type around the constant part
        f = self.array_field(o, max(0, min(base, o.size - 1))) if o.ty is not None else None
        if f is not None and f[1] > size and self.inrange(st, off, size, f):
            for s in o.segs:
                if s.start <= f[0] and f[0] + f[1] <= s.start + s.n:
                    return s
            if f[2] == 1 and f[1] > 48 or f[1] > 1024:
                return self.make_seg(st, oid, f[0], f[1])
            return (f[0], f[1], f[2])
        for s in cand:
            if self.inrange(st, off, size, (s.start, s.n, 1)):
                return s
        if f is not None:
            # constant part not inside the array that is indexed: search all arrays of the type
            for g in self.all_arrays(o.ty, 0):
                if self.inrange(st, off, size, g):
                    if g[2] == 1 and g[1] > 48:
                        return self.make_seg(st, oid, g[0], g[1])
                    return g
        if o.size <= 64:
            return (0, o.size, 1)
        for w in (4, 8, 16, 32, 64):
            g = (base, w, 1)
            if 0 <= base and base + w <= o.size and self.inrange(st, off, size, g):
                return g
        return self.make_seg(st, oid, 0, o.size)

    def all_arrays(self, tid, start):
        t = self.m.ty(tid)
        out = []
        if t["k"] == "arr":
            es = self.m.size(t["e"])
            out.append((start, t["n"] * es, es))
            if self.m.ty(t["e"])["k"] in ("arr", "st"):
                for i in range(min(t["n"], 4)):
                    out += self.all_arrays(t["e"], start + i * es)
        elif t["k"] == "st":
            for e, eo in zip(t["e"], t["o"]):
                if self.m.ty(e)["k"] in ("arr", "st"):
                    out += self.all_arrays(e, start + eo)
        return out

    def inrange(self, st, off, size, f):
        z = bv(lz(off))
        n = f[1]
        c = z3.And(z3.UGE(z, bv(f[0])), z3.ULE(z, bv(f[0]) + bv(n) - bv(size)))
        return self.must(st, c)

    def load(self, st, p, size, isptr=False, what="read"):
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "vt" and type(p.off) is int:
            return Ptr(("fn", f"!vt:_ZTV{p.obj[1]}:{p.off // 8 - 2 + 0}"))
        p = self.getobj(st, p, what, size) if not (isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "str") else p
        if isinstance(p.obj, tuple):
            return self.load_strdata(st, p, size)
        if st.ghost.get("_guard"):
            self.guard_read(st, p.obj, p.off, "cells")
        if "elem" in st.objs[p.obj].meta:
            r = self.load_elem(st, p, size, isptr)
            if r is not None:
                return r
        if type(p.off) is int:
            return self.load_cell(st, p.obj, p.off, size, isptr)
        v = self.concretize_off(st, p)
        if v is not None:
            return self.load_cell(st, p.obj, v, size, isptr)
        s = self.sym_seg(st, p.obj, p.off, size)
        o = st.objs[p.obj]
        if isinstance(s, Seg):
            bs = [s.arr.sel(lz(ladd(p.off, i - s.start))) for i in range(size)]
            return self.from_bytes(bs)
        start, n, es = s
        # if-then-else over the elements
        step = es if es % size == 0 and size <= es else 1
        inner = 0
        # alignment: offset = start + inner (mod es)
        vals = []
        z = bv(lz(p.off))
        inner = self.residue(st, p.off, start, es) if es > 1 else 0
        if inner is None:
            raise ToolLimit("unaligned symbolic access")
        ks = [k for k in range(start + inner, start + n - size + 1, es)]
        if isptr or any(isinstance(o.cells.get(k, (0, 0))[1], Ptr) for k in ks):
            # pointers: fork over the feasible elements
            self.fork_offsets(st, p, ks, size)
        e = None
        for k in reversed(ks):
            v = self.load_cell(st, p.obj, k, size, isptr)
            e = v if e is None else ite(z == bv(k), v, e, 8 * size)
        return e

    def guard_read(self, st, oid, off, table):
        """a static local must not be initialised from the arguments or the state of the call that happens to come first"""
        pre = st.ghost["_guard_pre"].get(oid)
        if pre is None:
            return
        now = st.objs[oid]
        old = getattr(pre, table)
        if type(off) is int and off not in old and (off in getattr(now, table) or pre.kind == "alloca"):
            return
        if type(off) is int and off in old and getattr(now, table).get(off) is not old[off]:
            return
        self.oblige(st, False, "frame: shared static state is initialised from one caller's data", pre.name)

    def load_elem(self, st, p, size, isptr):
        """an object holding unboundedly many records: meta["elem"] = (stride, fn(e, st, index, field, size, isptr)); cells override"""
        o = st.objs[p.obj]
        stride, fn = o.meta["elem"]
        if type(p.off) is int:
            if self.near(o, p.off, size):
                return None
            return fn(self, st, p.off // stride, p.off % stride, size, isptr)
        for field in range(0, stride, size):
            i = ldiv(lsub(p.off, field), stride)
            if i is not None:
                break
        else:
            raise ToolLimit("unaligned access to a record")
        z = bv(lz(i))
        for k in sorted({c // stride for c in o.cells}):
            if self.must(st, z == bv(k)):
                return self.load_cell(st, p.obj, k * stride + field, size, isptr)
            if not self.must(st, z != bv(k)):
                self.fork_conds(st, [c for c in (z == bv(k), z != bv(k)) if self.feasible(st, c)])
        return fn(self, st, z, field, size, isptr)

    def fork_offsets(self, st, p, ks, size):
        """continue this path once per possible element (the instruction is re-executed on each)"""
        z = bv(lz(p.off))
        alts = []
        for k in ks:
            if self.feasible(st, z == bv(k)):
                alts.append(z == bv(k))
        self.fork_conds(st, alts)

    def fork_conds(self, st, alts):
        """re-execute the current instruction under each condition"""
        for a in alts[1:]:
            s2 = st.clone()
            s2.assume(a)
            self.work.append(s2)
        if not alts:
            raise PathEnd()
        if self.deep_forks and len(alts) > 1:
            self.count_forks(st)
        st.assume(alts[0])
        raise Redo()

    def count_forks(self, st):
        """a case split inside calls counts against the loops around the calls (option deep_forks)"""
        for fr in st.frames:
            for h, (n, s) in list(fr.iters.items()):
                lp = fr.fn.headers[h]
                if fr.blk in lp.blocks and not any(c.loop is lp for c in fr.cuts):
                    fr.iters[h] = (n, s + 1)
                    if n > self.unroll_limit and s + 1 > self.unroll_limit:
                        raise NeedCut(lp)

    def residue(self, st, off, start, es):
        c = off.c
        if all(k % es == 0 for _, k in off.t.values()):
            return (c - start) % es
        z = bv(lz(off))
        for r in range(0, es, 1):
            if self.must(st, z3.URem(z - bv(start), bv(es)) == bv(r)):
                return r
        return None

    def concretize_off(self, st, p):
        key = None
        v = self.quick_value(st, p.off)
        return v

    def quick_value(self, st, l):
        """value of a linear form if every path has the same (cheap check)"""
        if type(l) is int:
            return l
        if len(l.t) > 3:
            return None
        o = self.concretize(st, l.z3())
        return None if o is None else sgn(o, 64)

    def store(self, st, p, size, v, what="write"):
        p = self.getobj(st, p, what, size, True) if not (isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "str") else p
        if isinstance(p.obj, tuple):
            return self.store_strdata(st, p, size, v)
        if type(p.off) is int:
            return self.store_cell(st, p.obj, p.off, size, v)
        k = self.concretize_off(st, p)
        if k is not None:
            return self.store_cell(st, p.obj, k, size, v)
        s = self.sym_seg(st, p.obj, p.off, size)
        if isinstance(s, Seg):
            o = st.w(p.obj)
            arr = s.arr
            for i, b in enumerate(self.bytes_of(v, size)):
                if isinstance(b, tuple):
                    raise ToolLimit("pointer stored at symbolic offset")
                arr = arr.store(lz(ladd(p.off, i - s.start)), b)
            o.segs[[x.start for x in o.segs].index(s.start)] = Seg(s.start, s.n, arr)
            return
        start, n, es = s
        inner = self.residue(st, p.off, start, es) if es > 1 else 0
        if inner is None:
            raise ToolLimit("unaligned symbolic access")
        z = bv(lz(p.off))
        ks = list(range(start + inner, start + n - size + 1, es))
        if isinstance(v, Ptr) or any(isinstance(st.objs[p.obj].cells.get(k, (0, 0))[1], Ptr) for k in ks):
            self.fork_offsets(st, p, ks, size)
        for k in ks:
            old = self.load_cell(st, p.obj, k, size)
            self.store_cell(st, p.obj, k, size, ite(z == bv(k), v, old, 8 * size))

    # --- strings
    def str_key(self, p):
        """key of the string object at p"""
        if type(p.off) is int:
            return p.obj, p.off
        return p.obj, p.off

    def get_str(self, st, p):
        p = self.to_ptr(st, p)
        if p.obj == 0:
            self.oblige(st, False, "null pointer dereference", "string")
        if isinstance(p.obj, tuple):
            self.oblige(st, False, "use of uninitialised pointer", "string") if p.obj[0] == "undef" else None
            raise ToolLimit(f"string at {p.obj}")
        o = st.objs.get(p.obj)
        if o is None and p.obj in self.gnames:
            self.init_global(st, self.gnames[p.obj], p.obj)
            o = st.objs[p.obj]
        if not o.alive:
            self.oblige(st, False, "use after end of lifetime", f"string in {o.name}")
        self.bounds(st, o, p, 24, "string")
        off = p.off
        if type(off) is not int and not o.sarr:
            k = self.concretize_off(st, p)
            if k is not None:
                off = k
        if st.ghost.get("_guard"):
            self.guard_read(st, p.obj, off, "strs")
        if type(off) is int and off in o.strs:
            return o.strs[off]
        for (fo, stride), tab in o.sarr.items():
            i = ldiv(lsub(off, fo), stride)
            if i is not None:
                return tab.get(lz(i), self, st)
        if type(off) is int:
            if o.kind == "global":
                v = self.const_str(st, p.obj, off) if o.ro else None
                if v is None:
                    v = self.fresh_str(st, "static")   # static string of unknown history
                st.w(p.obj).strs[off] = v
                return v
            self.oblige(st, False, "use of a string that was never constructed or already destroyed", o.name)
        raise ToolLimit("string at symbolic offset")

    def const_str(self, st, oid, off):
        """a constant-initialised std::string"""
        cells = st.objs[oid].cells
        d, n = cells.get(off, (0, None))[1], cells.get(off + 8, (0, None))[1]
        if not isinstance(d, Ptr) or type(n) is not int:
            return None
        if n == 0:
            return lit("")
        if d.obj == oid and type(d.off) is int:
            bs = [self.load_cell(st, oid, d.off + k, 1) for k in range(n)]
            return StrVal(n, ALit(bs))
        return self.region(st, d, n)

    def set_str(self, st, p, v, ctor=False):
        p = self.to_ptr(st, p)
        if p.obj == 0 or isinstance(p.obj, tuple):
            raise ToolLimit("string at bad pointer")
        o = st.objs.get(p.obj)
        if o is None and p.obj in self.gnames:
            self.init_global(st, self.gnames[p.obj], p.obj)
            o = st.objs[p.obj]
        if not o.alive:
            self.oblige(st, False, "use after end of lifetime", f"string in {o.name}")
        self.bounds(st, o, p, 24, "string")
        if o.kind == "global" and p.obj not in self.allow_global_writes and not st.ghost.get("_guard"):
            self.oblige(st, False, "frame: writes shared static state", o.name)
        if o.ro:
            self.oblige(st, False, "write to read-only memory", o.name)
        o = st.w(p.obj)
        off = p.off
        if type(off) is not int and not o.sarr:
            k = self.concretize_off(st, p)
            if k is not None:
                off = k
        for (fo, stride), tab in o.sarr.items():
            i = ldiv(lsub(off, fo), stride)
            if i is not None:
                o.sarr[(fo, stride)] = tab.put(lz(i), v)
                return
        if type(off) is not int:
            raise ToolLimit("string at symbolic offset")
        o.strs[off] = v

    def kill_str(self, st, p):
        p = self.to_ptr(st, p)
        o = st.objs.get(p.obj)
        if o is None or o.sarr:
            return
        if type(p.off) is int and p.off in o.strs:
            del st.w(p.obj).strs[p.off]

    def strdata(self, p, off=0):
        """pointer to the characters of the string object at p"""
        k = p.off if type(p.off) is int else (p.off.c, tuple(sorted((i, k) for i, (t, k) in p.off.t.items())))
        key = ("str", p.obj, k)
        if type(p.off) is not int:
            self.rng_cache[key] = p.off
        return Ptr(key, off)

    def str_owner(self, p):
        k = p.obj[2]
        return Ptr(p.obj[1], k if type(k) is int else self.rng_cache[p.obj])

    def is_vec(self, st, own):
        return (own.off if type(own.off) is int else -1) in st.objs[own.obj].meta.get("vec", ())

    def load_strdata(self, st, p, size):
        own = self.str_owner(p)
        s = self.get_str(st, own)
        off = lz(p.off)
        if self.is_vec(st, own):
            n = bv(s.len)
            self.oblige(st, norm_bool(z3.simplify(z3.And(z3.ULT(bv(off), n), z3.ULE(bv(size), n - bv(off))))), "memory access in bounds", "read of vector elements")
            return self.from_bytes([s.at(add64(off, i)) for i in range(size)])
        # characters and the terminating NUL are readable
        if type(off) is int and type(s.len) is int:
            ok = off + size <= s.len + 1
        else:
            ok = z3.And(z3.ULE(bv(off), bv(s.len)), z3.ULE(bv(off) + bv(size), bv(s.len) + bv(1)))
        self.oblige(st, ok, "memory access in bounds", "read of string characters")
        bs = []
        for i in range(size):
            k = add64(off, i)
            if type(k) is int and type(s.len) is int:
                bs.append(s.at(k) if k < s.len else 0)
            else:
                sm = same(k, s.len)
                if sm is True:
                    bs.append(0)
                elif self.must(st, z3.ULT(bv(k), bv(s.len))):
                    bs.append(s.at(k))
                else:
                    bs.append(ite(bv(k) == bv(s.len), 0, s.at(k), 8))
        return self.from_bytes(bs)

    def store_strdata(self, st, p, size, v):
        own = self.str_owner(p)
        s = self.get_str(st, own)
        off = lz(p.off)
        if type(off) is int and type(s.len) is int:
            ok = 0 <= off and off + size <= s.len
        else:
            ok = z3.And(z3.ULT(bv(off), bv(s.len)), z3.ULE(bv(off) + bv(size), bv(s.len)))
        self.oblige(st, ok, "memory access in bounds", "write of string characters")
        arr = s.arr
        for i, b in enumerate(self.bytes_of(v, size)):
            arr = arr.store(add64(off, i), b)
        self.set_str(st, own, StrVal(s.len, arr))

    def region(self, st, p, n, what="read"):
        """the n bytes at p as a StrVal snapshot (bounds obligation included)"""
        if type(n) is int and n == 0:
            return StrVal(0, AConst(0))
        p = self.to_ptr(st, p)
        if isinstance(p.obj, tuple) and p.obj[0] == "str":
            own = self.str_owner(p)
            s = self.get_str(st, own)
            off = lz(p.off)
            if self.is_vec(st, own):
                ok = norm_bool(z3.simplify(z3.Or(bv(n) == 0, z3.And(z3.ULE(bv(off), bv(s.len)), z3.ULE(bv(n), bv(s.len) - bv(off))))))
                self.oblige(st, ok, "memory access in bounds", "read of vector elements")
                return StrVal(n, shift(s.arr, off))
            if type(off) is int and type(s.len) is int and type(n) is int:
                ok = off + n <= s.len + 1
            else:
                ok = z3.Or(bv(n) == 0, z3.And(z3.ULE(bv(off), bv(s.len) + 1), z3.ULE(bv(n), bv(s.len) + 1 - bv(off))))
            self.oblige(st, ok, "memory access in bounds", "read of string characters")
            # the terminator is only visible when n covers it
            arr = s.arr
            if not self.must(st, z3.ULE(bv(off) + bv(n), bv(s.len))):
                arr = s.arr.store(s.len, 0)
            return StrVal(n, shift(arr, off))
        if p.obj == 0 or (isinstance(p.obj, tuple)):
            if type(n) is not int:
                self.oblige(st, bv(n) == 0, "null pointer dereference", what)
                return StrVal(0, AConst(0))
        if type(n) is not int:
            self.range_bounds(st, p, n, what)
        else:
            self.getobj(st, p, what, n)
        o = st.objs[p.obj]
        if type(p.off) is int:
            s = self.seg_at(o, p.off, n if type(n) is int else 1)
            if s is not None:
                return StrVal(n, shift(s.arr, p.off - s.start))
            if type(n) is int and (n <= 4096):
                bs = []
                for i in range(n):
                    bs.append(self.load_cell(st, p.obj, p.off + i, 1))
                return StrVal(n, ALit(bs))
            if type(n) is not int and type(o.size) is int and o.size <= 64:
                bs = []
                for i in range(o.size - p.off):
                    if any(isinstance(c[1], Ptr) for _, c in self.near(o, p.off + i, 1)):
                        if not self.must(st, z3.ULE(n, bv(i))):
                            raise ToolLimit("bytes of a pointer")
                        break
                    bs.append(self.load_cell(st, p.obj, p.off + i, 1))
                return StrVal(n, ALit(bs))
            f = self.array_field(o, p.off) if o.ty is not None else None
            s = self.make_seg(st, p.obj, f[0] if f else 0, f[1] if f else o.size)
            return StrVal(n, shift(s.arr, p.off - s.start))
        k = self.concretize_off(st, p)
        if k is not None:
            return self.region(st, Ptr(p.obj, k), n, what)
        s = self.sym_seg(st, p.obj, p.off, 1)
        if not isinstance(s, Seg):
            s = self.make_seg(st, p.obj, s[0], s[1])
        return StrVal(n, shift(s.arr, lz(ladd(p.off, -s.start))))

    def range_bounds(self, st, p, n, what, write=False):
        o = st.objs.get(p.obj)
        if o is None:
            raise ToolLimit("range in unknown object")
        if not o.alive:
            self.oblige(st, bv(n) == 0, "use after end of lifetime", f"{what} {o.name}")
        z = bv(lz(p.off))
        s = bv(o.size)
        c = z3.Or(bv(n) == 0, z3.And(z3.ULE(bv(n), s), z3.ULE(z, s - bv(n))))
        self.oblige(st, c, "memory access in bounds", f"{what} {o.name}")
        if write:
            if o.ro:
                self.oblige(st, bv(n) == 0, "write to read-only memory", o.name)
            if o.kind == "global" and p.obj not in self.allow_global_writes and not st.ghost.get("_guard"):
                self.oblige(st, bv(n) == 0, "frame: writes shared static state", o.name)

    def write_region(self, st, p, v):
        """store the bytes of StrVal v at p"""
        n = v.len
        if type(n) is int and n == 0:
            return
        p = self.to_ptr(st, p)
        if isinstance(p.obj, tuple) and p.obj[0] == "str":
            own = self.str_owner(p)
            s = self.get_str(st, own)
            off = lz(p.off)
            ok = z3.Or(bv(n) == 0, z3.And(z3.ULE(bv(off), bv(s.len)), z3.ULE(bv(n), bv(s.len) - bv(off))))
            self.oblige(st, ok, "memory access in bounds", "write of string characters")
            self.set_str(st, own, StrVal(s.len, ACopy(s.arr, off, n, v.arr, 0)))
            return
        if p.obj == 0 or isinstance(p.obj, tuple):
            self.oblige(st, bv(n) == 0 if type(n) is not int else False, "null pointer dereference", "write")
            return
        if type(n) is int:
            self.getobj(st, p, "write", n, True)
        else:
            self.range_bounds(st, p, n, "write", True)
        o = st.objs[p.obj]
        if type(p.off) is int and type(n) is int and self.seg_at(o, p.off, n) is None and n <= 4096:
            for i in range(n):
                self.store_cell(st, p.obj, p.off + i, 1, v.at(i))
            return
        if type(p.off) is int:
            s = self.seg_at(o, p.off, n if type(n) is int else 1)
            if s is None:
                f = self.array_field(o, p.off) if o.ty is not None else None
                s = self.make_seg(st, p.obj, f[0] if f else 0, f[1] if f else o.size)
        else:
            s = self.sym_seg(st, p.obj, p.off, 1)
            if not isinstance(s, Seg):
                s = self.make_seg(st, p.obj, s[0], s[1])
        o = st.w(p.obj)
        i = [x.start for x in o.segs].index(s.start)
        o.segs[i] = Seg(s.start, s.n, ACopy(s.arr, lz(ladd(p.off, -s.start)), n, v.arr, 0))

    def memcpy(self, st, d, s, n):
        if type(n) is not int:
            k = self.concretize(st, n)
            if k is not None:
                n = k
        if type(n) is int:
            if n == 0:
                return
            d, s = self.to_ptr(st, d), self.to_ptr(st, s)
            if type(d.off) is int and type(s.off) is int and type(d.obj) is int and type(s.obj) is int and d.obj and s.obj:
                self.getobj(st, s, "read", n)
                self.getobj(st, d, "write", n, True)
                so, do = st.objs[s.obj], st.objs[d.obj]
                if n <= 4096 and self.seg_at(so, s.off, n) is None and self.seg_at(do, d.off, n) is None and not any(
                        s.off <= x.start < s.off + n for x in so.segs) and not any(d.off <= x.start < d.off + n for x in do.segs):
                    items = []
                    k = s.off
                    end = s.off + n
                    while k < end:
                        c = so.cells.get(k)
                        if c is not None and k + c[0] <= end:
                            items.append((k - s.off, c[0], c[1]))
                            k += c[0]
                        else:
                            # 8 byte uninitialised chunks stay uninitialised
                            if not self.near(so, k, 1):
                                if so.init == "zero":
                                    items.append((k - s.off, 1, 0))
                                else:
                                    items.append((k - s.off, 1, None))
                                k += 1
                            else:
                                items.append((k - s.off, 1, self.load_cell(st, s.obj, k, 1)))
                                k += 1
                    w = st.w(d.obj)
                    for rel, sz, v in items:
                        if v is None:
                            for co, (cs, cv) in self.near(w, d.off + rel, sz):
                                b = self.bytes_of(cv, cs)
                                del w.cells[co]
                                for i in range(cs):
                                    if not (d.off + rel <= co + i < d.off + rel + sz) and not isinstance(b[i], tuple):
                                        w.cells[co + i] = (1, b[i])
                        else:
                            self.store_cell(st, d.obj, d.off + rel, sz, v)
                    return
        v = self.region(st, s, n)
        self.write_region(st, d, v)

    # ------------------------------------------------------------ driving
    def explore(self, st):
        """run st and everything it forks into; self.work is the worklist"""
        saved = self.work
        self.work = [st]
        try:
            while self.work:
                s = self.work.pop()
                try:
                    self.run(s)
                except PathEnd:
                    self.stats["paths"] += 1
        finally:
            self.work = saved

    def call(self, st, fname, args, on_ret=None):
        fn = self.m.fn(fname)
        if fn is None:
            raise ToolLimit(f"no body for {fname}")
        fr = Frame(fn, args)
        fr.on_ret = on_ret
        st.frames.append(fr)
        return fr

    def run(self, st):
        frames = st.frames
        steps = 0
        while True:
            fr = frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            steps += 1
            self.stats["insts"] += 1
            if steps & 1023 == 0:
                st.steps += 1024
                if st.steps > self.max_steps:
                    raise ToolLimit("path too long")
                if self.deadline and time.time() > self.deadline:
                    raise ToolLimit("time budget exhausted")
            h = DISPATCH.get(ins[0])
            if h is None:
                raise ToolLimit("instruction " + ins[0])
            try:
                h(self, st, fr, ins)
            except Redo:
                continue
            except ToolLimit as e:
                if not hasattr(e, "where"):
                    e.where = self.where(st)
                    e.stack = [f.fn.dem for f in st.frames]
                raise

    def v(self, st, fr, x):
        if type(x) is int:
            return fr.loc[x]
        k = x[0]
        if k == "i":
            return x[2] if type(x[2]) is int else int(x[2])
        return self.const(st, x)

    def goto(self, st, fr, target):
        prev = fr.blk
        fn = fr.fn
        # leaving loops that are cut in this frame
        if fr.cuts:
            cuts = list(fr.cuts)
            while cuts:
                ctx = cuts[-1]
                if target in ctx.loop.blocks:
                    break
                if ctx.mode == "infer":
                    ctx.exited = True
                    raise PathEnd()
                ctx.exit_states += 1
                cuts.pop()
            fr.cuts = tuple(cuts)
        n = fn.phis[target]
        if n:
            blk = fn.blocks[target]
            vals = []
            for i in range(n):
                ins = blk[i]
                for v, b in ins[4]:
                    if b == prev:
                        vals.append((ins[1], self.v(st, fr, v)))
                        break
                else:
                    raise ToolLimit("phi without incoming")
            for k, v in vals:
                fr.loc[k] = v
        fr.prev = prev
        fr.blk = target
        fr.ip = n
        lp = fn.headers.get(target)
        if lp is not None:
            if prev in lp.blocks:
                if fr.cuts and fr.cuts[-1].loop is lp:
                    ctx = fr.cuts[-1]
                    if all(st.ghost.get(g) is ctx.ghost.get(g) for g in self.peel):
                        ctx.backedge(self, st)
                        raise PathEnd()
                    # the path goes on without being joined at the loop's head: as if it had left the loop
                    if ctx.mode == "infer":
                        ctx.exited = True
                        raise PathEnd()
                    ctx.exit_states += 1
                    fr.cuts = fr.cuts[:-1]
                it = fr.iters.get(target, (0, 0))
                fr.iters[target] = (it[0] + 1, it[1])
                if it[0] > 20000:
                    raise NeedCut(lp)
            else:
                fr.iters[target] = (0, 0)
                if lp.key in self.cut_loops:
                    from .loops import cut
                    cut(self, st, lp)
                    raise PathEnd()
        if self.trace:
            print("  " * len(st.frames), short(fn.dem), target)

    def sym_branch(self, fr, succs):
        """a symbolic branch: count it against loops it can leave"""
        for h, (n, s) in list(fr.iters.items()):
            lp = fr.fn.headers[h]
            if fr.blk in lp.blocks and not any(c.loop is lp for c in fr.cuts):
                s += 1
                fr.iters[h] = (n, s)
                if n > self.unroll_limit and s > self.unroll_limit:
                    raise NeedCut(lp)

    def throw(self, st, p, tinfo):
        st.exc = (p, tinfo)
        self.unwind(st)

    def unwind(self, st):
        """transfer control to the innermost landing pad that catches or cleans up"""
        while st.frames:
            fr = st.frames[-1]
            if fr.unwind is not None and fr.tag == "pending":
                fr.tag = None
                t = fr.unwind
                fr.unwind = fr.normal = None
                self.goto(st, fr, t)
                return
            self.pop_frame(st, None, exc=True)
            if st.frames:
                pass
        self.finish(st, "throw")

    def pop_frame(self, st, rv, exc=False):
        fr = st.frames.pop()
        for ctx in fr.cuts:
            if ctx.mode == "infer":
                ctx.exited = True
                raise PathEnd()
            ctx.exit_states += 1
        for a in fr.allocas:
            o = st.w(a)
            o.alive = False
        return fr

    def finish(self, st, kind, rv=None):
        self.stats["paths"] += 1
        if self.on_path_end:
            self.on_path_end(st, kind, rv)
        raise PathEnd()


class Redo(Exception):
    pass


LIBFILES = set()


def simp(e):
    return z3.simplify(e)


def short(d):
    """readable name of a function"""
    s = d
    i = s.find("(")
    if s.startswith("(anonymous"):
        i = s.find("(", 10)
    r = s[:i] if i > 0 else s
    # drop template arguments
    out, depth = [], 0
    for ch in r:
        if ch == "<":
            depth += 1
        elif ch == ">" and depth:
            depth -= 1
        elif not depth:
            out.append(ch)
    return "".join(out).split(" ")[-1] if "lambda" not in r else r[:60]


# ---------------------------------------------------------------- instructions
def i_alloca(e, st, fr, ins):
    _, rid, _, _, ty, cnt = ins
    n = e.v(st, fr, cnt)
    if n != 1:
        raise ToolLimit("variable alloca")
    b = fr.fn
    oid = e.new_obj(st, f"local of {short(b.dem)}", "alloca", e.m.size(ty), ty)
    fr.allocas.append(oid)
    fr.loc[rid] = Ptr(oid, 0)
    fr.ip += 1


def i_load(e, st, fr, ins):
    _, rid, ty, _, p = ins
    t = e.m.ty(ty)
    ptr = e.v(st, fr, p)
    fr.loc[rid] = load_typed(e, st, ptr, ty)
    fr.ip += 1


def load_typed(e, st, ptr, ty):
    t = e.m.ty(ty)
    k = t["k"]
    if k == "int":
        sz = (t["b"] + 7) // 8
        v = e.load(st, ptr, sz)
        if isinstance(v, Ptr):
            if v.obj == 0:
                return lz(v.off)
            return v
        if t["b"] != 8 * sz:
            if type(v) is int:
                v = mask(v, t["b"])
            elif t["b"] == 1:
                v = simp(z3.Extract(0, 0, v) == bv(1, 1))
            else:
                v = simp(z3.Extract(t["b"] - 1, 0, v))
        return v
    if k == "ptr":
        v = e.load(st, ptr, 8, True)
        return v if isinstance(v, Ptr) else e.to_ptr(st, v)
    if k == "fp":
        return e.load(st, ptr, t["b"] // 8)
    if k == "st":
        p = e.to_ptr(st, ptr)
        return [load_typed(e, st, p.add(o), x) for x, o in zip(t["e"], t["o"])]
    if k in ("arr", "vec"):
        p = e.to_ptr(st, ptr)
        es = e.m.size(t["e"])
        return [load_typed(e, st, p.add(i * es), t["e"]) for i in range(t["n"])]
    raise ToolLimit("load of " + k)


def store_typed(e, st, ptr, v, ty):
    t = e.m.ty(ty)
    k = t["k"]
    if k == "int":
        sz = (t["b"] + 7) // 8
        if not isinstance(v, Ptr) and t["b"] != 8 * sz:
            v = v if type(v) is int else (bv(v, 8 * sz) if t["b"] == 1 else z3.ZeroExt(8 * sz - t["b"], v))
        e.store(st, ptr, sz, v)
    elif k == "ptr":
        e.store(st, ptr, 8, v)
    elif k == "fp":
        e.store(st, ptr, t["b"] // 8, v)
    elif k == "st":
        p = e.to_ptr(st, ptr)
        for x, o, val in zip(t["e"], t["o"], v):
            store_typed(e, st, p.add(o), val, x)
    elif k in ("arr", "vec"):
        p = e.to_ptr(st, ptr)
        es = e.m.size(t["e"])
        for i, val in enumerate(v):
            store_typed(e, st, p.add(i * es), val, t["e"])
    else:
        raise ToolLimit("store of " + k)


def i_store(e, st, fr, ins):
    _, _, _, _, p, v, ty = ins
    store_typed(e, st, e.v(st, fr, p), e.v(st, fr, v), ty)
    fr.ip += 1


def i_gep(e, st, fr, ins):
    if ins[4] == "unsupported":
        raise ToolLimit("vector gep")
    _, rid, _, _, base, off, vars_, _ = ins
    p = e.v(st, fr, base)
    if not isinstance(p, Ptr):
        p = e.to_ptr(st, p)
    o = ladd(p.off, off) if off else p.off
    for v, s, ty in vars_:
        x = e.v(st, fr, v)
        w = e.m.bits(ty)
        if isinstance(x, Ptr):
            x = e.to_int(st, x)
        if w < 64:
            x = sgn(x, w) if type(x) is int else z3.SignExt(64 - w, x)
        o = ladd(o, lmul(lin(x), s))
    fr.loc[rid] = Ptr(p.obj, o)
    fr.ip += 1


def i_br(e, st, fr, ins):
    if len(ins) == 5:
        e.goto(st, fr, ins[4])
        return
    c = e.v(st, fr, ins[4])
    branch(e, st, fr, c, ins[5], ins[6])


def norm_bool(c):
    if type(c) is int:
        return c
    if c is True or c is False:
        return int(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return c


def branch(e, st, fr, c, t, f):
    c = norm_bool(c)
    if type(c) is int:
        e.goto(st, fr, t if c else f)
        return
    ft = e.check(st, c)
    if ft == z3.unsat:
        # other side holds
        e.goto(st, fr, f)
        return
    ff = e.check(st, z3.Not(c))
    if ff == z3.unsat:
        e.goto(st, fr, t)
        return
    e.sym_branch(fr, (t, f))
    s2 = st.clone()
    s2.assume(z3.Not(c))
    st.assume(c)
    e.work.append(Resume(s2, f))
    e.goto(st, fr, t)


class Resume:
    """a forked state that still has to take a branch"""
    __slots__ = ("st", "target")

    def __init__(self, st, target):
        self.st, self.target = st, target


def _explore_run(self, s):
    if isinstance(s, Resume):
        st = s.st
        self.goto(st, st.frames[-1], s.target)
        s = st
    elif not isinstance(s, State):
        from .models import throw_std
        throw_std(self, s.st, s.cls)
        s = s.st
    return Engine._run(self, s)


Engine._run = Engine.run
Engine.run = _explore_run


def i_switch(e, st, fr, ins):
    _, _, _, _, v, dflt, cases = ins
    x = e.v(st, fr, v)
    if type(x) is int:
        for c, b in cases:
            if int(c[2]) == x:
                e.goto(st, fr, b)
                return
        e.goto(st, fr, dflt)
        return
    w = x.size()
    groups = {}
    for c, b in cases:
        groups.setdefault(b, []).append(int(c[2]))
    alts = []
    allc = []
    for b, vals in groups.items():
        conds = [x == bv(k, w) for k in vals]
        allc += conds
        if b == dflt:
            continue
        c = conds[0] if len(conds) == 1 else z3.Or(*conds)
        if e.feasible(st, c):
            alts.append((c, b))
    nd = [x != bv(k, w) for b, vals in groups.items() if b != dflt for k in vals]
    c = z3.And(*nd) if nd else z3.BoolVal(True)
    if e.feasible(st, c):
        alts.append((c, dflt))
    if not alts:
        raise PathEnd()
    if len(alts) > 1:
        e.sym_branch(fr, [b for _, b in alts])
    for c, b in alts[1:]:
        s2 = st.clone()
        s2.assume(c)
        e.work.append(Resume(s2, b))
    st.assume(alts[0][0])
    e.goto(st, fr, alts[0][1])


def i_ret(e, st, fr, ins):
    rv = e.v(st, fr, ins[4][0]) if ins[4] else None
    e.pop_frame(st, rv)
    if fr.on_ret is not None:
        rv = fr.on_ret(e, st, rv)
    if not st.frames:
        e.finish(st, "return", rv)
    ret_to(e, st, rv)


def ret_to(e, st, rv):
    """deliver the result of the pending call of the top frame"""
    caller = st.frames[-1]
    if caller.ret_id >= 0:
        caller.loc[caller.ret_id] = rv
    caller.tag = None
    if caller.normal is not None:
        n = caller.normal
        caller.normal = caller.unwind = None
        e.goto(st, caller, n)
    else:
        caller.ip += 1


def i_call(e, st, fr, ins):
    op = ins[0]
    callee = ins[4]
    args = [e.v(st, fr, a) if not (type(a) is list and a[0] == "x") else None for a in ins[5]]
    fr.ret_id = ins[1]
    if op == "invoke":
        fr.normal, fr.unwind = ins[8], ins[9]
    else:
        fr.normal = fr.unwind = None
    fr.tag = "pending"
    if type(callee) is list and callee[0] == "asm":
        raise ToolLimit("inline asm")
    if type(callee) is list and callee[0] == "g":
        name = callee[1]
    else:
        p = e.v(st, fr, callee)
        if not isinstance(p, Ptr):
            p = e.to_ptr(st, p)
        if p.obj == 0:
            e.oblige(st, False, "call through null function pointer")
        if not (isinstance(p.obj, tuple) and p.obj[0] == "fn"):
            raise ToolLimit(f"call through {p}")
        name = p.obj[1]
    for i, sz in ins[7]:
        # byval copy
        oid = e.new_obj(st, "byval", "heap", sz)
        e.memcpy(st, Ptr(oid), args[i], sz)
        args[i] = Ptr(oid)
    do_call(e, st, fr, name, args, ins)


def do_call(e, st, fr, name, args, ins=None):
    h = e.models.lookup(e, name)
    if h is not None:
        r = h(e, st, args, name, ins)
        if r is NORET:
            return
        ret_to(e, st, r)
        return
    fn = e.m.fn(name)
    if fn is None:
        raise ToolLimit(f"external function {e.m.demangled(name)}")
    if len(st.frames) > 200:
        raise ToolLimit("call depth")
    e.inlined.add(name)
    st.frames.append(Frame(fn, args))


NORET = object()


def i_unreachable(e, st, fr, ins):
    e.oblige(st, False, "unreachable code reached")
    raise PathEnd()


def i_landingpad(e, st, fr, ins):
    _, rid, _, _, cleanup, clauses = ins
    p, ti = st.exc
    sel = None
    for kind, c in clauses:
        if kind == "catch":
            t = e.v(st, fr, c)
            tn = None if t.obj == 0 else tinfo_name(e, t)
            if tn is None or e.models.is_subclass(e, ti, tn):
                sel = typeid(e, tn)
                break
        else:
            raise ToolLimit("exception filter")
    if sel is None:
        if cleanup:
            sel = 0
        else:
            e.pop_frame(st, None, exc=True)
            e.unwind(st)
            return
    fr.loc[rid] = [p, sel]
    fr.ip += 1


def tinfo_name(e, p):
    if isinstance(p.obj, tuple):
        return p.obj[1]
    return e.gnames[p.obj]


_typeids = {}


def typeid(e, name):
    return _typeids.setdefault(name, len(_typeids) + 1)


def i_resume(e, st, fr, ins):
    v = e.v(st, fr, ins[4][0])
    e.pop_frame(st, None, exc=True)
    e.unwind(st)


def i_extract(e, st, fr, ins):
    v = e.v(st, fr, ins[4])
    for i in ins[5]:
        v = v[i]
    fr.loc[ins[1]] = v
    fr.ip += 1


def i_insert(e, st, fr, ins):
    v = e.v(st, fr, ins[4])
    x = e.v(st, fr, ins[5])

    def put(a, idx):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = x
        else:
            a[idx[0]] = put(a[idx[0]], idx[1:])
        return a
    fr.loc[ins[1]] = put(v, ins[6])
    fr.ip += 1


def ptr_cmp(e, st, pred, a, b):
    a, b = e.to_ptr(st, a) if not isinstance(a, Ptr) else a, e.to_ptr(st, b) if not isinstance(b, Ptr) else b
    if a.obj == b.obj:
        d = lsub(a.off, b.off)
        if type(d) is int:
            if pred == "eq":
                return int(d == 0)
            if pred == "ne":
                return int(d != 0)
        x, y = bv(lz(a.off)), bv(lz(b.off))
        e.note_cmp(st, x, y)
        return cmp_bv(pred, x, y)
    if a.obj == 0 or b.obj == 0:
        # null against an object
        if pred == "eq":
            return 0
        if pred == "ne":
            return 1
    if pred == "eq":
        return 0
    if pred == "ne":
        return 1
    # ordering of unrelated objects: either way
    return e.fresh("ptrorder", 1)


def cmp_bv(pred, x, y):
    if pred == "eq":
        return x == y
    if pred == "ne":
        return x != y
    return {"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b,
            "sge": lambda a, b: a >= b}[pred](x, y)


def cmp_int(pred, a, b, w):
    if pred[0] == "s":
        a, b = sgn(a, w), sgn(b, w)
    p = pred[-2:]
    return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])


def i_icmp(e, st, fr, ins):
    _, rid, _, _, pred, ty, a, b = ins
    x, y = e.v(st, fr, a), e.v(st, fr, b)
    fr.loc[rid] = icmp(e, st, pred, x, y, ty)
    fr.ip += 1


def icmp(e, st, pred, x, y, ty):
    t = e.m.ty(ty)
    if t["k"] == "ptr" or isinstance(x, Ptr) or isinstance(y, Ptr):
        if t["k"] != "ptr" and not (isinstance(x, Ptr) and isinstance(y, Ptr)):
            x, y = e.to_int(st, x), e.to_int(st, y)
        else:
            return ptr_cmp(e, st, pred, x, y)
    w = t["b"]
    if type(x) is int and type(y) is int:
        return cmp_int(pred, x, y, w)
    if w == 1:
        X, Y = boolv(x), boolv(y)
        if pred == "eq":
            return X == Y
        if pred == "ne":
            return X != Y
        return norm_bool(cmp_bv(pred, bv(X, 1), bv(Y, 1)))
    if w == 64 and pred in ("eq", "ne"):
        s = same(x, y)
        if s is not None:
            return int(s == (pred == "eq"))
    r = cmp_bv(pred, bv(x, w), bv(y, w))
    e.note_cmp(st, x, y)
    return r


def note_cmp(self, st, x, y):
    fr = st.frames[-1]
    for f in reversed(st.frames):
        for c in f.cuts:
            c.terms.append((x, y))
        if f.cuts:
            break


Engine.note_cmp = note_cmp


def binop(e, st, op, x, y, w, flags=0):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            return lz(lsub(x.off, y.off))
        if op == "add":
            if isinstance(x, Ptr) and not isinstance(y, Ptr):
                return x.add(lin(y))
            if isinstance(y, Ptr) and not isinstance(x, Ptr):
                return y.add(lin(x))
        if op == "sub" and isinstance(x, Ptr) and not isinstance(y, Ptr):
            return x.add(lmul(lin(y), -1))
        x, y = e.to_int(st, x), e.to_int(st, y)
    if type(x) is int and type(y) is int:
        m = (1 << w) - 1
        if op == "add":
            return (x + y) & m
        if op == "sub":
            return (x - y) & m
        if op == "mul":
            return (x * y) & m
        if op == "and":
            return x & y
        if op == "or":
            return x | y
        if op == "xor":
            return x ^ y
        if op == "shl":
            return (x << y) & m if y < w else 0
        if op == "lshr":
            return x >> y if y < w else 0
        if op == "ashr":
            return (sgn(x, w) >> min(y, w - 1)) & m
        if op == "udiv" and y:
            return x // y
        if op == "urem" and y:
            return x % y
        if op == "sdiv" and y:
            a, b = sgn(x, w), sgn(y, w)
            q = abs(a) // abs(b)
            return (q if (a < 0) == (b < 0) else -q) & m
        if op == "srem" and y:
            a, b = sgn(x, w), sgn(y, w)
            r = abs(a) % abs(b)
            return (r if a >= 0 else -r) & m
    if w == 1:
        X, Y = boolv(x), boolv(y)
        if op == "and":
            return norm_bool(z3.And(X, Y))
        if op == "or":
            return norm_bool(z3.Or(X, Y))
        if op in ("xor", "add", "sub"):
            return norm_bool(z3.Xor(X, Y))
        raise ToolLimit("i1 " + op)
    if op in ("udiv", "urem", "sdiv", "srem"):
        e.oblige(st, bv(y, w) != bv(0, w), "division by zero")
        if op in ("sdiv", "udiv") and type(y) is int and w == 64:
            if flags & 4:
                d = ldiv(lin(x), y)
                if d is not None:
                    return lz(d)
            else:
                l = lin(x)
                d = ldiv(l, y) if op == "sdiv" or True else None
                if d is not None and type(d) is not int and e.must(st, z3.ULT(bv(lz(d)), bv(((1 << 63) - 1) // y))):
                    return lz(d)
    X, Y = bv(x, w), bv(y, w)
    if op in ("udiv", "urem") and w == 64 and type(y) is int and y & (y - 1):
        q = div_const(e, st, X, y)
        return q if op == "udiv" else lz(lsub(lin(x), lmul(lin(q), y)))
    if op == "add":
        if w == 64:
            return lz(ladd(lin(x), lin(y)))
        r = X + Y
    elif op == "sub":
        if w == 64:
            return lz(lsub(lin(x), lin(y)))
        r = X - Y
    elif op == "mul":
        r = X * Y
    elif op == "and":
        r = X & Y
    elif op == "or":
        r = X | Y
    elif op == "xor":
        r = X ^ Y
    elif op == "shl":
        r = X << Y
    elif op == "lshr":
        r = z3.LShR(X, Y)
    elif op == "ashr":
        r = X >> Y
    elif op == "udiv":
        r = z3.UDiv(X, Y)
    elif op == "urem":
        r = z3.URem(X, Y)
    elif op == "sdiv":
        r = X / Y
    elif op == "srem":
        r = z3.SRem(X, Y)
    else:
        raise ToolLimit("binop " + op)
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


def div_const(e, st, X, c):
    """quotient of a 64-bit value by a constant, introduced by its defining property"""
    f = z3.Function(f"udiv_{c}", z3.BitVecSort(64), z3.BitVecSort(64))
    q = f(X)
    st.assume(z3.And(z3.ULE(q, bv(((1 << 64) - 1) // c)), z3.ULE(q * c, X), z3.ULT(X - q * c, bv(c))))
    return q


def i_bin(e, st, fr, ins):
    op, rid, ty, _, ops, _, flags = ins
    x, y = e.v(st, fr, ops[0]), e.v(st, fr, ops[1])
    t = e.m.ty(ty)
    if t["k"] != "int":
        raise ToolLimit("binop on " + t["k"])
    r = binop(e, st, op, x, y, t["b"], flags)
    if e.name_width == t["b"] and z3.is_expr(r) and z3.is_bv(r) and r.num_args():
        s = e.fresh("v", t["b"])         # a name for the value: its definition is kept aside
        e.named[s.get_id()] = (s, r)
        r = s
    fr.loc[rid] = r
    fr.ip += 1


def cast(e, st, op, x, fw, tw):
    if op == "zext":
        if type(x) is int:
            return x
        if fw == 1:
            return z3.If(x, bv(1, tw), bv(0, tw))
        return simp(z3.ZeroExt(tw - fw, x))
    if op == "sext":
        if type(x) is int:
            return sgn(x, fw) & ((1 << tw) - 1)
        if fw == 1:
            return z3.If(x, bv((1 << tw) - 1, tw), bv(0, tw))
        return simp(z3.SignExt(tw - fw, x))
    if op == "trunc":
        if isinstance(x, Ptr):
            x = e.to_int(st, x)
        if type(x) is int:
            return x & ((1 << tw) - 1)
        if tw == 1:
            return norm_bool(z3.Extract(0, 0, x) == bv(1, 1))
        r = simp(z3.Extract(tw - 1, 0, x))
        return r.as_long() if z3.is_bv_value(r) else r
    raise ToolLimit("cast " + op)


FPS = {32: z3.Float32, 64: z3.Float64}


def fp(v, w):
    return z3.fpBVToFP(bv(v, w), FPS[w]())


def i_cast(e, st, fr, ins):
    op, rid, ty, _, ops, fty = ins[:6]
    x = e.v(st, fr, ops[0])
    ft, tt = e.m.ty(fty), e.m.ty(ty)
    if op in ("zext", "sext", "trunc"):
        if ft["k"] != "int":
            raise ToolLimit("vector cast")
        r = cast(e, st, op, x, ft["b"], tt["b"])
    elif op == "ptrtoint":
        r = x if tt["b"] == 64 else cast(e, st, "trunc", e.to_int(st, x), 64, tt["b"])
    elif op == "inttoptr":
        r = e.to_ptr(st, x)
    elif op in ("bitcast", "freeze", "addrspacecast"):
        r = x
    elif op in ("sitofp", "uitofp"):
        w = tt["b"]
        X = bv(x, ft["b"])
        f = z3.fpSignedToFP(z3.RNE(), X, FPS[w]()) if op == "sitofp" else z3.fpUnsignedToFP(z3.RNE(), X, FPS[w]())
        r = simp(z3.fpToIEEEBV(f))
        if z3.is_bv_value(r):
            r = r.as_long()
    elif op in ("fptosi", "fptoui"):
        w = ft["b"]
        f = fp(x, w)
        r = simp(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(tt["b"])) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(tt["b"])))
        if z3.is_bv_value(r):
            r = r.as_long()
    elif op in ("fpext", "fptrunc"):
        f = fp(x, ft["b"])
        r = simp(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), f, FPS[tt["b"]]())))
        if z3.is_bv_value(r):
            r = r.as_long()
    else:
        raise ToolLimit("cast " + op)
    fr.loc[rid] = r
    fr.ip += 1


def i_fcmp(e, st, fr, ins):
    _, rid, _, _, pred, ty, a, b = ins
    w = e.m.ty(ty)["b"]
    x, y = fp(e.v(st, fr, a), w), fp(e.v(st, fr, b), w)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    base = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}
    if pred in ("ord", "uno"):
        r = un if pred == "uno" else z3.Not(un)
    elif pred == "one":
        r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
    elif pred == "une":
        r = z3.Or(un, z3.Not(z3.fpEQ(x, y)))
    elif pred[0] == "o":
        r = base[pred[1:]](x, y)
    else:
        r = z3.Or(un, base[pred[1:]](x, y))
    fr.loc[rid] = norm_bool(r)
    fr.ip += 1


def i_select(e, st, fr, ins):
    _, rid, ty, _, ops = ins[:5]
    c = norm_bool(e.v(st, fr, ops[0]))
    if type(c) is int:
        fr.loc[rid] = e.v(st, fr, ops[1] if c else ops[2])
    else:
        a, b = e.v(st, fr, ops[1]), e.v(st, fr, ops[2])
        t = e.m.ty(ty)
        if t["k"] in ("int", "fp") and not isinstance(a, Ptr) and not isinstance(b, Ptr):
            fr.loc[rid] = ite(c, a, b, t["b"])
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and False:
            pass
        else:
            alts = [x for x in (c, z3.Not(c)) if e.feasible(st, x)]
            if len(alts) == 1:
                fr.loc[rid] = a if alts[0] is c else b
            else:
                # split the path
                s2 = st.clone()
                s2.assume(z3.Not(c))
                s2.frames[-1].loc[rid] = b
                s2.frames[-1].ip += 1
                e.work.append(s2)
                st.assume(c)
                fr.loc[rid] = a
    fr.ip += 1


def i_freeze(e, st, fr, ins):
    fr.loc[ins[1]] = e.v(st, fr, ins[4][0])
    fr.ip += 1


def i_rmw(e, st, fr, ins):
    _, rid, ty, _, op, p, v = ins
    ptr, x = e.v(st, fr, p), e.v(st, fr, v)
    old = load_typed(e, st, ptr, ty)
    w = e.m.bits(ty)
    new = x if op == "xchg" else binop(e, st, op, old, x, w)
    store_typed(e, st, ptr, new, ty)
    fr.loc[rid] = old
    fr.ip += 1


def i_fence(e, st, fr, ins):
    fr.ip += 1


def i_fneg(e, st, fr, ins):
    t = e.m.ty(ins[2])
    x = e.v(st, fr, ins[4][0])
    fr.loc[ins[1]] = binop(e, st, "xor", x, 1 << (t["b"] - 1), t["b"])
    fr.ip += 1


def i_fbin(e, st, fr, ins):
    op, rid, ty = ins[0], ins[1], ins[2]
    w = e.m.ty(ty)["b"]
    x, y = fp(e.v(st, fr, ins[4][0]), w), fp(e.v(st, fr, ins[4][1]), w)
    f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](z3.RNE(), x, y)
    r = simp(z3.fpToIEEEBV(f))
    fr.loc[rid] = r.as_long() if z3.is_bv_value(r) else r
    fr.ip += 1


DISPATCH = {"alloca": i_alloca, "load": i_load, "store": i_store, "getelementptr": i_gep, "br": i_br, "switch": i_switch, "ret": i_ret, "call": i_call,
            "invoke": i_call, "unreachable": i_unreachable, "landingpad": i_landingpad, "resume": i_resume, "extractvalue": i_extract, "insertvalue": i_insert,
            "icmp": i_icmp, "fcmp": i_fcmp, "select": i_select, "freeze": i_freeze, "atomicrmw": i_rmw, "fence": i_fence, "fneg": i_fneg}
for _o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
    DISPATCH[_o] = i_bin
for _o in ("fadd", "fsub", "fmul", "fdiv"):
    DISPATCH[_o] = i_fbin
for _o in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
    DISPATCH[_o] = i_cast
