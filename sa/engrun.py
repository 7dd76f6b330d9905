"""Methods of the generated engine class, explored with two cells and two pools; the document's code is an event that may fail."""
import ast
from .interp import Sym
from .lts import Client, Explorer, subterms

SELF = ("self",)
CELLS = [("cell", 0), ("cell", 1)]
POOLS = [("pool", 0), ("pool", 1)]
FAIL = ("new", ("global", "PFARuntimeException"), ())
KINDS = ("PFARuntimeException", "PFAUserException", "PFATimeoutException", "ZeroDivisionError")


def codeholes(v, parse):
    """identifier -> (block, statement number)"""
    out = {}
    for k, h in v.holes.items():
        for o in h.val:
            if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "code" and len(o.root) == 3:
                out[k] = (o.root[1], o.root[2])
    return out


class EngineClient(Client):
    track_dicts = True

    def __init__(self, proj, base, v, holes):
        self.proj, self.base, self.v, self.holes = proj, base, v, holes
        self.kinds = KINDS

    def load(self, name, ex, env, fid):
        if name in self.holes:
            b, k = self.holes[name]
            return [(("code", b, k, tuple(sorted(env.get(("bound",), ()), key=repr))), ("val", b, k), None)]
        return None

    def load_raises(self, name):
        if name in self.holes:
            b, k = self.holes[name]
            return [(("fails", b, k, x), ("new", ("global", x), ())) for x in self.kinds]
        return ()

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "attr" and callee[1] == SELF:
            for s in self.v.cls.body:
                if isinstance(s, ast.FunctionDef) and s.name == callee[2]:
                    return s, self.base.mod, SELF
            mm = self.proj.method(self.base, callee[2])
            if mm is not None:
                return mm[0], mm[1].mod, SELF
        return None

    def inline(self, fn, mod):
        return fn.name not in ("checkData",)

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr":
            if callee[2] in ("maybeSaveBackup", "maybeRestoreBackup"):
                return ("save" if "Save" in callee[2] else "restore", callee[1])
            if callee[2] == "let" and args:
                return ("let", callee[1], args[0])
        if callee == ("global", "ExecutionState"):
            return ("state", args)
        if callee == ("global", "checkData"):
            return ("check", args)
        return None

    def call_effect(self, callee, args, kws, env, ex):
        if callee[0] == "attr" and callee[2] == "let" and args and args[0][:2] == ("op", "dict"):
            t = args[0]
            old = dict(env.get(("bound",), ()))
            for i in range(2, len(t), 2):
                if t[i][0] == "const":
                    old[t[i][1]] = t[i + 1]
            env[("bound",)] = tuple(sorted(old.items(), key=repr))

    def raises(self, callee, args, ex):
        if callee == ("global", "checkData"):
            return ("new", ("global", "PFARuntimeException"), ())
        return False

    def setattr_event(self, obj, name, val, ex):
        if obj == SELF:
            return ("set", name, val)
        return None

    def ret_event(self, t, ex):
        return ("ret", t)

    def raise_event(self, t, ex):
        return ("raise", t)


def dictterm(items, tag):
    out = []
    for x in items:
        out += [("const", "%s%d" % (tag, x[1])), x]
    return ("op", "dict") + tuple(out)


def explore(proj, em, v, name, base):
    em.parse(v)
    fn = em.func(v, name)
    c = EngineClient(proj, base, v, codeholes(v, None))
    env = {("heap", SELF, "cells"): dictterm(CELLS, "c"), ("heap", SELF, "pools"): dictterm(POOLS, "p")}
    return Explorer(proj, c).explore(fn, base.mod, {}, SELF, env)


def paths(a, limit=4000):
    """Every sequence of events from the start to the end (the methods have no loops left)."""
    out, work = [], [(a.start, ())]
    while work and len(out) < limit:
        n, tr = work.pop()
        es = a.edges.get(n, ())
        if not es:
            out.append(tr)
            continue
        for l, b in es:
            if len(tr) < 80:
                work.append((b, tr + (l,) if l is not None else tr))
    return out
