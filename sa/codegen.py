"""Code generated for each syntax-tree class, as a string template whose holes are the code of the children.

The walk method of the class is run abstractly on a symbolic node; the context it builds is handed to the code
generator (titus.genpy.GeneratePython.__call__), which is run abstractly over string templates."""
import ast, re
from .proj import AnalysisBroken
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, Mod, V, EMPTY, NONE, Const, _Const, Unreach, symstr, join
from .strings import StrInterp, Str, Hole
from .astmodel import AstModel, AstInterp

OPAQUE = frozenset(["titus.datatype", "titus.signature", "titus.fcn", "titus.P", "titus.errors", "titus.options", "titus.version"])
WALKARGS = ["task", "symbolTable", "functionTable", "engineOptions", "version"]


class WalkInterp(AstInterp, StrInterp):
    """walk() of one class: children's walks are inputs ("ctx", path) and ("res", path)."""
    opaque_mods = OPAQUE

    def __init__(self, proj, model, generate=True):
        AstInterp.__init__(self, proj, model)
        gen = proj.cls("titus.genpy", "GeneratePython")
        m = proj.method(gen, "__call__")
        if m is None:
            raise AnalysisBroken("GeneratePython.__call__ not found")
        self.gen = Fn(m[0], m[1].mod, m[1], None, V(Sym("gen", (), ("inst", gen))))
        self.generate = generate
        self.top = None
        self.rets = []

    def child_call(self, node, name, o, args, kwargs):
        if name != "walk":
            return AstInterp.child_call(self, node, name, o, args, kwargs)
        self.st.aux["walked"] = self.st.aux.get("walked", EMPTY) | V(o)
        self.on_walk(node, o, args, kwargs)
        t = self.alloc(node, "tuple", None, "ctx")
        self.hset(t, ("i", 0), V(Sym(("ctx", o.path), (), None)))
        self.hset(t, ("i", 1), V(Sym(("res", o.path), (), None)))
        return V(t)

    def on_walk(self, node, o, args, kwargs):
        pass

    def on_load_attr(self, node, o, name):
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "ctx" and len(o.path) == 0:
            return V(self.child(o, name))
        if isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst" and o.kind[1].name == "Context":
            init = o.kind[1].methods.get("__init__")
            if init is not None and name in [a.arg for a in init.args.args]:
                return V(self.child(o, name))
        return AstInterp.on_load_attr(self, node, o, name)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Sym) and o.root == "task" and not o.path and args:
            self.on_task(node, args[0])
            if self.generate:
                out = EMPTY
                for c in args[0]:
                    st = self.st.copy()
                    try:
                        out = out | self.call_fn(node, self.gen, [V(c)] + list(args[1:]), {})
                    except Unreach:
                        self.on_nogen(node, c)
                    self.st = st
                return out
            return V(Sym(("task",), (), None))
        if isinstance(o, Fn) and o.node is self.gen.node and self.fr.fn is not None and any(f.fn is self.gen.node for f in self.frames):
            return V(Hole("gen", args[0] if args else EMPTY)) if False else V(Sym(("gen", tuple(sorted(symstr(x) for x in (args[0] if args else EMPTY)))), (), None))
        return None

    def on_task(self, node, val):
        pass

    def on_nogen(self, node, ctx):
        pass

    def on_return(self, node, val):
        if self.fr.fn is self.top:
            self.rets.append((node, val, self.st.copy()))

    def walk(self, name):
        ci = self.model.classes[name]
        m = self.proj.method(ci, "walk")
        if m is None:
            raise AnalysisBroken("%s has no walk method" % name)
        self.top, self.rets = m[0], []
        self.run_method(name, "walk", [V(Sym(a, (), None)) for a in WALKARGS])
        out = []
        for node, val, st in self.rets:
            for o in val:
                if isinstance(o, Alloc) and o.typ == "tuple":
                    out.append((node, st, (st.heap.get(o) or {}).get(("i", 0), EMPTY), (st.heap.get(o) or {}).get(("i", 1), EMPTY)))
                else:
                    out.append((node, st, V(o), None))
        return out


class Rendered(object):
    """A template turned into parsable text; each hole is an identifier."""

    def __init__(self, text, holes):
        self.text, self.holes = text, holes     # identifier -> (kind, Hole)

    def parse(self, mode="eval"):
        return ast.parse(self.text, mode=mode)


def render_all(o, namer=None, limit=60):
    """All renderings of a template (joined elements contribute one rendering per alternative)."""
    outs = []

    def go(o, prefix_holes):
        """-> list of texts"""
        if isinstance(o, _Const):
            return [o.v if isinstance(o.v, str) else str(o.v)]
        if not isinstance(o, Str):
            return [hole(Hole("raw", V(o)), prefix_holes)]
        acc = [""]
        for p in o.parts:
            if isinstance(p, str):
                acc = [a + p for a in acc]
                continue
            if p.conv.startswith("join:") :
                alts = []
                plain = set()
                for e in p.val:
                    if isinstance(e, (Str, _Const)):
                        alts.extend(go(e, prefix_holes))
                    else:
                        plain.add(e)
                if plain:
                    alts.append(hole(Hole(p.conv, frozenset(plain)), prefix_holes))
                if not alts:
                    alts = [""]
            elif p.conv == "raw" and p.val and all(isinstance(e, Str) for e in p.val):
                alts = []
                for e in p.val:
                    alts.extend(go(e, prefix_holes))
            else:
                alts = [hole(p, prefix_holes)]
            acc = [a + b for a in acc for b in alts][:limit]
        return acc

    table = {}

    def hole(p, _):
        for k, v in table.items():
            if v == p:
                return k
        k = "HOLE_%d_" % len(table)
        table[k] = p
        return k
    for t in go(o, None):
        outs.append(Rendered(t, table))
    return outs
