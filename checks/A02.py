import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
from sa.interp import Const, Alloc as A, Fn
from sa.reading import DocInterp
from R01 import Reader, FORMS, FCNDEF, CASE, CELL, POOL, TOP, undecided, shown
from sa.proj import Project
from sa.astmodel import *


class Walk(DocInterp):
    """The nodes a walk visits stand for what it makes of them."""

    def visit(self, name, o):
        o = o if isinstance(o, frozenset) else V(o)
        x = next(iter(o)) if len(o) == 1 else None
        if isinstance(x, Sym) and isinstance(x.root, tuple) and x.root[0] == "READ" and not x.path:
            if name == "replace":
                return self.READ(x.root[1], "replaced", *x.root[2:])
            if name == "collect":
                return self.mklist(self.top, "list", [V(Sym(("collected",) + x.root[1:], (), None))], ("collected", x.root))
        return None

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and o.self_ is not None and getattr(o.node, "name", None) in ("replace", "collect"):
            v = self.visit(o.node.name, o.self_)
            if v is not None:
                return v
        return DocInterp.on_call(self, node, o, args, kwargs)

    def child_call(self, node, name, o, args, kwargs):
        v = self.visit(name, o)
        return v if v is not None else DocInterp.child_call(self, node, name, o, args, kwargs)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if q == "isDefinedAt":
            return V(Const(False))
        if recv is not None and q in ("replace", "collect"):
            v = self.visit(q, recv)
            if v is not None:
                return v
        return DocInterp.ext(self, node, qual, recv, args, kwargs, sym)


def swapped(c):
    """The form with every node in it replaced."""
    if isinstance(c, tuple):
        if c[:1] == ("read",) and len(c) > 1 and c[1] != "type":
            return ("read", c[1], "replaced") + c[2:]
        return tuple(swapped(x) for x in c)
    return c


def nodes(c):
    if isinstance(c, tuple):
        if c[:1] == ("read",) and len(c) > 1:
            return [c[1:]] if c[1] != "type" else []
        return [y for x in c for y in nodes(x)]
    return []


class Exact(Reader):
    def __init__(self, R):
        Reader.__init__(self, R)
        self.it = Walk(self.p, self.model)
        self.pf = V(Sym("pf", (), None))

    def value(self, key, kind):
        """The names of a map are its own, so that nothing can be looked up in another."""
        out = Reader.value(self, key, kind)
        if kind in ("exprmap", "argmap", "fcns", "cells", "pools", "strmap", "jsonmap", "jsonmap2"):
            return [(dict((k if k == "@" else key + k, v) for k, v in d.items()), None) for d, w in out]
        return out

    def walk(self, entry, data, con):
        it, R = self.it, self.R
        ends, fn = self.read(entry, data, con)
        for v, s in ends:
            for o in v:
                if not (isinstance(o, A) and o.cls is not None):
                    continue
                it.st = s
                first = it.canon(V(o))
                m, owner = self.p.method(o.cls, "replace")
                where = self.p.where(m, owner.mod)
                want = dict(swapped(first)[1:])
                copies = it.call_on(m, owner.mod, [self.pf], s, V(o), owner)
                if not copies:
                    R.finding("exact", "%s.replace" % first[0], "no copy of %s is ever made" % con, where)
                for v2, s2 in copies:
                    it.st = s2
                    got = it.canon(v2)
                    if got[0] != first[0]:
                        self.und.append("%s: %s" % (con, str(got)[:80]))
                        continue
                    got = dict(got[1:])
                    for k in sorted(set(want) | set(got)):
                        x, y = want.get(k), got.get(k)
                        if x == y and not undecided(x):
                            R.count("exact")
                        elif x is None or y is None or undecided(x) or undecided(y):
                            self.und.append("%s: %s %s/%s" % (con, k, str(x)[:60], str(y)[:60]))
                        else:
                            R.finding("exact", "%s.replace" % first[0], "%s of the copy of %s is %s, not %s" % (k[6:-2], con, shown(y), shown(x)), where)
                m, owner = self.p.method(o.cls, "collect")
                where = self.p.where(m, owner.mod)
                for v2, s2 in it.call_on(m, owner.mod, [self.pf], s, V(o), owner):
                    it.st = s2
                    x = it.exact(v2)
                    if x is None or not all(len(y) == 1 and isinstance(next(iter(y)), Sym) and isinstance(next(iter(y)).root, tuple) and next(iter(y)).root[0] == "collected" for y in x):
                        self.und.append("%s: collects %s" % (con, str(it.canon(v2))[:100]))
                        continue
                    got = sorted(str(next(iter(y)).root[1:]) for y in x)
                    want2 = sorted(str(n) for n in nodes(first))
                    R.count("each")
                    for n in sorted(set(got) | set(want2)):
                        if got.count(n) != want2.count(n):
                            R.finding("each", "%s.collect" % first[0], "%s of %s is collected from %d times, not %d" % (n, con, got.count(n), want2.count(n)), where)

    def table(self, forms, entry):
        for cls, req, opt in forms:
            for n in range(len(opt) + 1) if len(opt) < 5 else (0, 1, len(opt)):
                for have in itertools.combinations(sorted(opt), n):
                    spec = dict((k, v[1]) for k, v in req.items())
                    spec.update((k, opt[k][1]) for k in have)
                    vals = dict((k, [x[0] for x in self.value(k, kind)]) for k, kind in spec.items())
                    base = dict((k, 0) for k in spec)
                    for combo in [base] + [dict(base, **{k: i}) for k in sorted(spec) for i in range(1, len(vals[k]))]:
                        data = dict((k, vals[k][combo[k]]) for k in spec)
                        self.walk(entry, data, "%s {%s}" % (cls, ", ".join(sorted(spec))))


def run(rep):
    rep.rule("collect", "collecting from a node reports the node itself and collects from every child")
    rep.rule("replace", "replacing in a node rebuilds the same kind of node with every child replaced, in its own slot")
    rep.rule("keep", "replacing keeps every part of a node that is not a child, including its source position")
    rep.rule("exact", "where the function is not defined at a node, its copy has the same parts with exactly their nodes replaced (forms read exactly)")
    rep.rule("each", "every node inside a form is collected from once, and nothing else (forms read exactly)")
    e = Exact(rep)
    e.table(FORMS, "_readArgument")
    e.table([FCNDEF], "_readFcnDef")
    e.table([CASE], "_readCastCase")
    e.table([CELL], "_readCell")
    e.table([POOL], "_readPool")
    e.table([(c, dict(r, name=("name", "str")), dict((k, v) for k, v in o.items() if k != "name")) for c, r, o in TOP], "_readEngineConfig")
    rep.note("not judged", sorted(set(e.und))[:40])
    p = Project()
    m = AstModel(p)
    it = AstInterp(p, m)
    for n, ci in sorted(m.classes.items()):
        if n == "Subs":
            continue
        kids = m.children(n)
        v = it.run_method(n, "collect", [V(Sym("pf", (), None))])
        where = p.where(p.method(ci, "collect")[0], m.mod)
        s = it.srcs(v or EMPTY)
        if not any(isinstance(o, Sym) and o.root == "pf" for o in s):
            rep.finding("collect", n, "the node itself is not reported", where)
        for f in kids:
            rep.count("collect")
            if not any(isinstance(o.root, tuple) and o.root[0] == "collect" and o.root[2][:1] == (f,) for o in s):
                rep.finding("collect", "%s.%s" % (n, f), "children in this field are not collected", where)
        v = it.run_method(n, "replace", [V(Sym("pf", (), None))])
        where = p.where(p.method(ci, "replace")[0], m.mod)
        if v is None:
            rep.finding("replace", n, "replace never returns", where)
            continue
        rebuilt = False
        for o in v:
            if isinstance(o, Sym) and o.root == "self" and not o.path:
                if kids:
                    rep.finding("replace", n, "the node is returned unchanged although it has children", where)
                rebuilt = True
            if not (isinstance(o, Alloc) and o.cls is not None):
                continue
            rebuilt = True
            if o.cls is not ci:
                rep.finding("replace", n, "rebuilt as a %s" % o.cls.name, where)
                continue
            d = it.fields(o)
            for q in m.params(n):
                x = d.get(("a", q)) or EMPTY
                if q in kids:
                    rep.count("replace")
                    src = it.srcs(x)
                    if not any(isinstance(y.root, tuple) and y.root[0] == "replace" and y.root[2][:1] == (q,) for y in src):
                        rep.finding("replace", "%s.%s" % (n, q), "the replaced children do not reach the new node", where)
                    for y in src:
                        if isinstance(y.root, tuple) and y.root[0] == "replace" and y.root[2][:1] != (q,):
                            rep.finding("replace", "%s.%s" % (n, q), "receives the replaced children of %s" % y.root[2][0], where)
                        elif y.root == "self" and y.path[:1] != (q,) and y.path and y.path[0] in m.params(n):
                            rep.finding("replace", "%s.%s" % (n, q), "receives %s" % symstr(y), where)
                        elif y.root == "self" and it.isast(y) and y.path:
                            rep.finding("replace", "%s.%s" % (n, q), "an unreplaced child (%s) reaches the new node" % symstr(y), where)
                else:
                    rep.count("keep")
                    bad = [y for y in x if not (isinstance(y, Sym) and y.root == "self" and y.path[:1] == (q,))]
                    src = it.srcs(x)
                    if not x or bad and not (src and all(y.root == "self" and y.path[:1] == (q,) for y in src)):
                        rep.finding("keep", "%s.%s" % (n, q), "becomes %s" % (", ".join(sorted(symstr(y) for y in x)) or "nothing"), where)
        if not rebuilt:
            rep.finding("replace", n, "no node is rebuilt", where)
    rep.note("classes", sorted(m.classes))
    rep.floor("collect", 50)
    rep.floor("replace", 50)
    rep.floor("keep", 50)
    rep.floor("exact", 1200)
    rep.floor("each", 120)


if __name__ == "__main__":
    report.main("A02", run)
