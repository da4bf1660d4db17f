"""Loads the JSON-lines form of an LLVM module written by irdump."""
import json


class Fn:
    __slots__ = ("name", "dem", "ret", "args", "sret", "src", "blocks", "loops", "nounwind", "headers", "ninst", "phis")

    def __init__(self, d):
        self.name = d["fn"]
        self.dem = d["dem"]
        self.ret = d["ret"]
        self.args = d["args"]
        self.sret = d["sret"]
        self.src = d.get("src", "")
        self.blocks = d["blocks"]
        self.nounwind = d["nounwind"]
        self.loops = []
        self.headers = {}
        for l in d["loops"]:
            lp = Loop(self, l["h"], frozenset(l["b"]))
            self.loops.append(lp)
            self.headers[lp.header] = lp
        self.ninst = sum(len(b) for b in self.blocks)
        self.phis = {}
        for i, b in enumerate(self.blocks):
            k = 0
            while k < len(b) and b[k][0] == "phi":
                k += 1
            self.phis[i] = k


class Loop:
    __slots__ = ("fn", "header", "blocks", "line")

    def __init__(self, fn, h, b):
        self.fn, self.header, self.blocks = fn, h, b
        self.line = ""
        for i in fn.blocks[h]:
            if i[3]:
                self.line = i[3]

    @property
    def key(self):
        return (self.fn.name, self.header)

    def __repr__(self):
        return f"loop@{self.line or self.fn.src}"


class Module:
    def __init__(self, path):
        self.fns, self.globs, self.types, self.recs, self.decls = {}, {}, {}, {}, {}
        raw = {}
        with open(path) as f:
            for line in f:
                if line.startswith('{"fn"'):
                    name = line[7:line.index('"', 7)]
                    raw[name] = line
                    continue
                d = json.loads(line)
                if "t" in d:
                    self.types[d["t"]] = d
                elif "glob" in d:
                    self.globs[d["glob"]] = d
                elif "rec" in d:
                    self.recs.setdefault(d["rec"], d)
                elif "decl" in d:
                    self.decls[d["decl"]] = d["dem"]
        self.raw = raw
        self.demcache = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            line = self.raw.get(name)
            if line is None:
                return None
            f = self.fns[name] = Fn(json.loads(line))
        return f

    def demangled(self, name):
        d = self.demcache.get(name)
        if d is None:
            f = self.raw.get(name)
            if f is not None:
                i = f.index('"dem":"') + 6
                d = json.JSONDecoder().raw_decode(f, i)[0]
            else:
                d = self.decls.get(name, name)
            self.demcache[name] = d
        return d

    def ty(self, t):
        return self.types[t]

    def size(self, t):
        return self.types[t]["sz"]

    def bits(self, t):
        return self.types[t].get("b", 0)

    def members(self, rec):
        """All (name, offset, size, typename) of a record, bases flattened; None if unknown."""
        d = self.recs.get(rec)
        if d is None:
            return None
        out = []
        for n, off, sz, tn, inh in d["m"]:
            if inh:
                sub = self.members(tn)
                if sub:
                    out += [(a, off + b, c, t) for a, b, c, t in sub]
            else:
                out.append((n, off, sz, tn))
        return out
