"""Runs the abstract interpreter over every library function's __call__ with declared-kind inputs."""
import ast
from .proj import Project, AnalysisBroken
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, Mod, V, EMPTY, Const, _Const, Unreach, symstr


OUTSIDE = frozenset(["titus.datatype", "titus.errors", "titus.signature", "titus.prettypfa", "titus.pfaast",
                     "titus.genpy", "titus.reader", "titus.P", "titus.options", "titus.fcn"])
# helpers outside titus.lib that may hand back (part of) an argument
PASSTHROUGH = frozenset(["jsonEncoder", "jsonDecoder", "checkData", "untagUnion"])


class ParamMut(Interp):
    """Which parameters does a helper outside the library write to (directly or through its own callees)?"""
    MAXDEPTH = 5
    LOOPITER = 2

    def __init__(self, proj):
        Interp.__init__(self, proj)
        self.hit = set()
        self.maxsteps = 60000

    def on_mutate(self, node, val, how):
        for o in val:
            if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "param":
                self.hit.add((o.root[1], self.where(node), how))


class LibInterp(Interp):
    """Base for library analyses: models callfcn (user code) and the engine state object."""
    opaque_mods = OUTSIDE
    def __init__(self, proj, lib):
        Interp.__init__(self, proj)
        self.lib = lib
        self.cur = None
        self._pm = {}
        self.callfcn = proj.func("titus.util", "callfcn")

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and o.node is self.callfcn:
            self.on_user_call(node, args, kwargs)
            return V(Sym("result of user function", (), None))
        return None

    def on_user_call(self, node, args, kwargs):
        pass

    def param_mut(self, fo):
        key = fo.node
        if key not in self._pm:
            self._pm[key] = frozenset()
            pm = ParamMut(self.proj)
            n = len(fo.node.args.args)
            pm.run(Fn(fo.node, fo.mod, fo.cls, None, None), [V(Sym(("param", i), (), None)) for i in range(n)])
            self._pm[key] = frozenset(pm.hit)
        return self._pm[key]

    def summary_call(self, node, fo, args, kwargs, star, dstar):
        if not isinstance(fo.node, ast.Lambda):
            allargs = ([fo.self_] if fo.self_ is not None else []) + list(args)
            for i, where, how in self.param_mut(fo):
                if i < len(allargs) and not (i == 0 and fo.self_ is not None):
                    self.on_mutate(node, allargs[i], "%s at %s (called here)" % (how, where))
        out = Interp.summary_call(self, node, fo, args, kwargs, star, dstar)
        if getattr(fo.node, "name", "") in PASSTHROUGH:
            for a in args:
                out = out | a
        return out

    def run_lib(self, f):
        e = self.lib.call_entry(f)
        if e is None:
            return None
        self.cur = f
        fo, args = e
        n = self.steps
        v = self.run(fo, args)
        if self.steps > self.maxsteps:
            raise AnalysisBroken("step limit reached in %s" % f.key)
        return v
