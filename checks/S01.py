import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.interp import Const, Sym, Alloc, V, _Const
from sa.astmodel import AstModel
from sa.reading import DocInterp


def sym(*root, kind=None):
    return V(Sym(root, (), kind))


class Texts(DocInterp):
    def ext(self, node, qual, recv, args, kwargs, sym=None):
        if qual.split(".")[-1] == "dumps" and recv is None and args and len(args[0]) == 1 and isinstance(next(iter(args[0])), _Const):
            return V(Sym(("dumps", args[0]), (), None))
        return DocInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def slice_(self, e, val):
        sl = getattr(e, "slice", None)
        if isinstance(sl, ast.Slice) and sl.step is None and (sl.upper is not None or sl.lower is not None and not (isinstance(sl.lower, ast.Constant) and not sl.lower.value)):
            return V(Sym(("part of", val, ast.unparse(sl)), (), None))
        return DocInterp.slice_(self, e, val)


class Snapshots(object):
    def __init__(self, R):
        self.R = R
        self.p = Project()
        self.model = AstModel(self.p)
        self.it = Texts(self.p, self.model)
        self.it.opaque_mods = self.it.opaque_mods - {"titus.genpy"}
        self.cls = self.p.cls("titus.genpy", "PFAEngine")
        self.fn, self.owner = self.p.method(self.cls, "snapshot")
        self.where = self.p.where(self.fn, self.owner.mod)
        self.und = []

    def params(self, cls):
        return [a.arg for a in self.model.classes[cls].methods["__init__"].args.args[1:]]

    def field(self, o, name):
        return self.it.fields(o).get(("a", name))

    def case(self, cells, pools, items, flags=None, value=None):
        it, R = self.it, self.R
        pins = {"engine().config": V(Sym(("config",), (), ("inst", self.model.classes["EngineConfig"], "exact"))),
                "config().cells": dict((n, V(Sym(("cellconfig", n), (), ("inst", self.model.classes["Cell"], "exact")))) for n in cells),
                "config().pools": dict((n, V(Sym(("poolconfig", n), (), ("inst", self.model.classes["Pool"], "exact")))) for n in pools),
                "engine().cells": dict((n, sym("cell", n)) for n in cells), "engine().pools": dict((n, sym("pool", n)) for n in pools)}
        for n in pools:
            pins["pool(%s).value" % n] = dict((i, sym("item", n, i)) for i in items)
            pins["poolconfig(%s).init" % n] = {"first": sym("initial", n)}
        self.known = None
        if value is not None:
            self.known = it.sh(value)
            for n in cells:
                pins["cell(%s).value" % n] = value
            for n in pools:
                pins["pool(%s).value" % n] = dict((i, value) for i in items)
        if flags is not None:
            for f, b in zip(("shared", "rollback"), flags):
                for n in cells:
                    pins["cellconfig(%s).%s" % (n, f)] = pins["cell(%s).%s" % (n, f)] = V(Const(b))
                for n in pools:
                    pins["poolconfig(%s).%s" % (n, f)] = pins["pool(%s).%s" % (n, f)] = V(Const(b))
        label = "cells {%s}, pools {%s} of {%s}%s" % (", ".join(cells), ", ".join(pools), ", ".join(items), " with the value %s" % self.known if self.known else "")
        ends = it.call_in(self.fn, self.owner.mod, [], pins, None, sym("engine", kind=("inst", self.cls, "exact")), self.owner)
        if not ends:
            R.finding("whole", label, "snapshot cannot end normally", self.where)
        for v, s in ends:
            it.st = s
            for o in v:
                if not (isinstance(o, Alloc) and o.cls is not None and o.cls.name == "EngineConfig"):
                    self.und.append("%s: %s" % (label, it.sh(V(o))[:80]))
                    continue
                for p in self.params("EngineConfig"):
                    x = self.field(o, p)
                    if p in ("cells", "pools", "pos"):
                        continue
                    self.part("whole", label, "the document's " + p, x, "config()." + p)
                self.stored(label, "cell", self.field(o, "cells"), cells, items, flags)
                self.stored(label, "pool", self.field(o, "pools"), pools, items, flags)

    def part(self, rule, label, what, x, *want):
        it, R = self.it, self.R
        R.count(rule)
        if x is None or len(x) != 1:
            self.und.append("%s: %s is %s" % (label, what, x and it.sh(x)[:80]))
            return
        o = next(iter(x))
        if it.sh(x) in want:
            return
        if isinstance(o, (Sym, _Const)) or isinstance(o, Alloc) and (o.cls is not None or it.exactdict(x) == [] or it.exact(x) == []):
            R.finding(rule, label, "%s is %s, not %s" % (what, it.sh(x), want[0]), self.where)
        else:
            self.und.append("%s: %s is %s" % (label, what, it.sh(x)[:80]))

    def stored(self, label, kind, val, names, items, flags):
        it, R = self.it, self.R
        cls = kind.capitalize()
        x = it.exactdict(val) if val is not None else None
        if x is None:
            self.und.append("%s: %ss are %s" % (label, kind, val and it.sh(val)[:80]))
            return
        have = dict((next(iter(k)).v, v) for k, v in x)
        R.count("stored")
        for n in names:
            if n not in have:
                R.finding("stored", label, "%s %s is not in the snapshot" % (kind, n), self.where)
        for n, v in sorted(have.items()):
            if n not in names:
                R.finding("stored", label, "the snapshot has a %s %s" % (kind, n), self.where)
                continue
            for o in v:
                if not (isinstance(o, Alloc) and o.cls is not None):
                    self.und.append("%s: %s %s is %s" % (label, kind, n, it.sh(V(o))[:80]))
                    continue
                if o.cls.name != cls:
                    R.finding("stored", label, "%s %s is a %s" % (kind, n, o.cls.name), self.where)
                    continue
                con, run = "%sconfig(%s)" % (kind, n), "%s(%s)" % (kind, n)
                self.part("stored", label, "the type of %s %s" % (kind, n), self.field(o, "avroPlaceholder"), con + ".avroPlaceholder", con + ".avroType")
                for f in ("shared", "rollback", "source"):
                    want = (con + "." + f, run + "." + f)
                    if flags is not None and f != "source":
                        want = (it.sh(V(Const(flags[f == "rollback"]))),)
                    self.part("stored", label, "%s of %s %s" % (f, kind, n), self.field(o, f), *want)
                init = self.field(o, "init")
                if kind == "cell":
                    self.text(label, "the value of cell %s" % n, init, "cell(%s).value" % n)
                    continue
                y = it.exactdict(init) if init is not None else None
                if y is None:
                    self.und.append("%s: %s is %s" % (label, n, init and it.sh(init)[:80]))
                    continue
                got = dict((next(iter(k)).v, z) for k, z in y)
                for i in set(got) - set(items):
                    R.finding("value", label, "the snapshot of pool %s has an item %s" % (n, i), self.where)
                for i in set(items) - set(got):
                    R.finding("value", label, "item %s of pool %s is not in the snapshot" % (i, n), self.where)
                for i in set(got) & set(items):
                    self.text(label, "the value of item %s of pool %s" % (i, n), got[i], "item(%s,%s)" % (n, i))

    def text(self, label, what, v, want):
        """v is JSON text of the wanted value."""
        it, R = self.it, self.R
        R.count("value")
        want = self.known or want
        o = next(iter(v)) if v and len(v) == 1 else None
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "dumps" and not o.path:
            if it.sh(o.root[1]) != want:
                z = next(iter(o.root[1])) if len(o.root[1]) == 1 else None
                if isinstance(z, (Sym, _Const)):
                    R.finding("value", label, "%s is that of %s, not %s" % (what, it.sh(o.root[1]), want), self.where)
                else:
                    self.und.append("%s: %s is %s" % (label, what, it.sh(o.root[1])[:80]))
        elif isinstance(o, (Sym, _Const)):
            R.finding("value", label, "%s is %s, not the JSON text of %s" % (what, it.sh(v), want), self.where)
        else:
            self.und.append("%s: %s is %s" % (label, what, v and it.sh(v)[:80]))


def run(R):
    R.rule("whole", "everything but cells and pools is that of the document the engine was made from")
    R.rule("stored", "the snapshot has every cell and pool, with its type, sharing, rollback and source")
    R.rule("value", "the initial value in the snapshot is the JSON text of the current value")
    r = Snapshots(R)
    r.case([], [], [])
    r.case(["one"], [], [])
    r.case([], ["one"], [])
    r.case(["one", "two"], ["three", "four"], ["a", "b"])
    r.case(["one", "both"], ["both", "two"], ["a", "both"])
    for x in (None, False, 0, 0.0, "", 1, "a"):
        r.case(["one"], ["two"], ["a", "b"], None, V(Const(x)))
    for shared in (True, False):
        for rollback in (True, False):
            if not (shared and rollback):
                r.case(["one"], ["two"], ["a"], (shared, rollback))
    R.note("not judged", sorted(set(r.und)))
    R.floor("whole", 30)
    R.floor("stored", 8)
    R.floor("value", 1)


if __name__ == "__main__":
    report.main("S01", run)
