"""Model of the PFA syntax-tree classes (titus.pfaast) and an interpreter that treats child nodes as inputs."""
import ast, json, os
from .proj import AnalysisBroken, ClassInfo
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, Mod, V, EMPTY, NONE, Const, _Const, Unreach, symstr
from .report import VERIF

SPEC = os.path.join(VERIF, "spec", "ast_fields.json")


class AstModel(object):
    def __init__(self, proj):
        self.proj = proj
        self.base = proj.cls("titus.pfaast", "Ast")
        self.mod = self.base.mod
        self.classes = {}
        for c in proj.classes:
            if c.mod is self.mod and self.base in proj.mro(c) and "__init__" in c.methods:
                self.classes[c.name] = c
        self.shapes = {n: self.infer(c) for n, c in self.classes.items()}
        if os.path.exists(SPEC):
            with open(SPEC) as fh:
                spec = json.load(fh)
            for n, d in spec.items():
                if n in self.classes:
                    params = self.params(n)
                    for f, (shape, elem) in d.items():
                        if f in params and elem in self.classes or f in params and self.find(elem) is not None:
                            self.shapes[n][f] = (shape, elem)

    def find(self, name):
        for c in self.proj.classes:
            if c.mod is self.mod and c.name == name:
                return c
        return None

    def params(self, name):
        return [a.arg for a in self.classes[name].methods["__init__"].args.args][1:]

    def infer(self, ci):
        """field -> (shape, element class) for fields that hold syntax-tree nodes, read from the constructor's own type checks."""
        init = ci.methods["__init__"]
        out = {}
        params = [a.arg for a in init.args.args][1:]

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
                if isinstance(e, ast.Call):
                    if isinstance(e.func, ast.Name) and e.args:
                        e = e.args[0]
                    elif isinstance(e.func, ast.Attribute):
                        e = e.func.value
                    else:
                        return None
                elif isinstance(e, ast.Attribute):
                    if isinstance(e.value, ast.Name) and e.value.id == "self":
                        return e.attr
                    e = e.value
                else:
                    e = e.value
            return e.id if isinstance(e, ast.Name) else None

        def asts(t):
            names = [t] if not isinstance(t, ast.Tuple) else t.elts
            for n in names:
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                c = self.find(nm) if nm else None
                if c is not None and self.base in self.proj.mro(c):
                    return c.name
            return None

        def isin(n):
            return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2
        # inside comprehensions
        incomp = set()
        for n in ast.walk(init):
            if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
                g = n.generators[0]
                f = root(g.iter)
                dictlike = any(isinstance(x, ast.Attribute) and x.attr in ("values", "items") for x in ast.walk(g.iter))
                for x in ast.walk(n.elt):
                    if isin(x):
                        incomp.add(x)
                        e = asts(x.args[1])
                        if e and f in params:
                            if isinstance(x.args[0], ast.Subscript):
                                out[f] = ("pairs", e)
                            else:
                                out[f] = ("dict" if dictlike else "list", e)
            elif isinstance(n, ast.For):
                f = root(n.iter)
                dictlike = any(isinstance(x, ast.Attribute) and x.attr in ("values", "items") for x in ast.walk(n.iter))
                for x in ast.walk(n):
                    if isin(x):
                        e = asts(x.args[1])
                        if e and f in params and root(x.args[0]) != f:
                            incomp.add(x)
                            out[f] = ("dict" if dictlike else "list", e)
        for n in ast.walk(init):
            if isin(n) and n not in incomp:
                f = root(n.args[0])
                e = asts(n.args[1])
                if e and f in params and f not in out:
                    out[f] = ("one", e)
        return out

    def children(self, name):
        return self.shapes.get(name, {})

    def kind(self, name, field):
        for k in self.proj.mro(self.classes[name]) if name in self.classes else []:
            s = self.shapes.get(k.name, {}).get(field)
            if s is not None:
                e = ("inst", self.find(s[1]))
                return {"one": e, "list": ("array", e), "dict": ("map", e), "pairs": ("array", ("record", ((1, e),)))}[s[0]]
        return None


class AstInterp(Interp):
    """Runs methods of a syntax-tree class on a symbolic node; the same method of a child node is an input."""
    INTERCEPT = ("walk", "collect", "replace", "jsonNode", "walkForCalls")
    MAXDEPTH = 10

    def __init__(self, proj, model):
        Interp.__init__(self, proj)
        self.model = model
        self.cur = None

    def isast(self, o):
        return isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst" and o.kind[1] is not None and \
            self.model.base in self.proj.mro(o.kind[1])

    def field_kind(self, o, name):
        if self.isast(o):
            return self.model.kind(o.kind[1].name, name)
        return None

    def on_load_attr(self, node, o, name):
        if name in self.INTERCEPT and self.isast(o) and o.path:
            return V(Ext("child." + name, V(o)))
        return None

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual.startswith("child.") and recv is not None:
            out = EMPTY
            for o in recv:
                out = out | self.child_call(node, qual[6:], o, args, kwargs)
            return out
        return None

    def child_call(self, node, name, o, args, kwargs):
        return V(Sym((name, o.root, o.path), (), None))

    def selfval(self, name):
        return V(Sym("self", (), ("inst", self.model.classes[name], "exact")))

    def run_method(self, name, meth, args, kwargs=None):
        ci = self.model.classes[name]
        m = self.proj.method(ci, meth)
        if m is None:
            return None
        self.cur = name
        v = self.run(Fn(m[0], m[1].mod, m[1], None, self.selfval(name)), args, kwargs)
        if self.steps > self.maxsteps:
            raise AnalysisBroken("step limit reached in %s.%s" % (name, meth))
        return v


def childkey(path):
    """Field name a child path starts with."""
    return path[0] if path else None
