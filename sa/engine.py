"""The engine class generated for a document, per feature combination (method, begin, end, merge present or not).

The generator's EngineConfig branch is run abstractly with lists of known length kept exact, so the result is one
template per combination; holes become identifiers and the text is parsed into a syntax tree."""
import ast, itertools
from .proj import AnalysisBroken
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, Mod, V, EMPTY, NONE, Const, _Const, Unreach, symstr, join, _single_const
from .strings import StrInterp, Str, Hole, mkstr
from .codegen import WalkInterp, render_all, OPAQUE


def istable(e, top=True):
    """A literal table: constants and names in displays."""
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(istable(x, False) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(k is not None and istable(k, False) for k in e.keys) and all(istable(x, False) for x in e.values)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "dict", "list", "tuple"):
        return not e.keywords and all(istable(a) for a in e.args)
    return not top and isinstance(e, (ast.Constant, ast.Name, ast.Attribute))


_MUT = {}


def mutated(tree, name):
    key = (id(tree), name)
    if key not in _MUT:
        out = 0
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                out += 1
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
                out += 2
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                    and n.func.attr not in ("get", "keys", "values", "items", "index", "count", "copy", "issubset", "issuperset", "union", "intersection", "difference", "__contains__"):
                out += 2
        _MUT[key] = (tree, out > 1)
    return _MUT[key][1]


class ExactInterp(WalkInterp):
    """Lists of known length stay exact: element k is field ("i", k) and the length is field "#n"."""
    maxunroll = 12
    unrollwhile = False

    def __init__(self, proj, model):
        WalkInterp.__init__(self, proj, model)
        self.unroll = ()

    def site(self, node, extra=None):
        return WalkInterp.site(self, node, (extra, self.unroll) if self.unroll else extra)

    def exact(self, val):
        """[values] when val is one list of known length, else None."""
        if len(val) != 1:
            return None
        o = next(iter(val))
        if isinstance(o, _Const) and isinstance(o.v, tuple):
            return [V(Const(x)) for x in o.v]
        if not isinstance(o, Alloc):
            return None
        d = self.fields(o)
        n = d.get("#n")
        if n is None or len(n) != 1 or d.get("[]"):
            return None
        return [d.get(("i", k), EMPTY) for k in range(next(iter(n)).v)]

    def mklist(self, node, typ, vals, extra=None):
        a = self.alloc(node, typ, None, extra)
        self.st.heap[a] = dict([(("i", k), v) for k, v in enumerate(vals)] + [("#n", V(Const(len(vals))))])
        return V(a)

    def seq(self, e, typ, elts):
        if typ in ("list", "tuple") and not any(isinstance(x, ast.Starred) for x in elts):
            return self.mklist(e, typ, [self.ev(x) for x in elts])
        if typ == "set" and all(isinstance(x, ast.Constant) for x in elts):
            vals = []
            for x in elts:
                v = self.ev(x)
                if v not in vals:
                    vals.append(v)
            return self.mklist(e, typ, vals)
        return WalkInterp.seq(self, e, typ, elts)

    def slice_(self, e, val):
        x = self.exact(val)
        if x is not None:
            def b(s):
                if s is None:
                    return None
                c = _single_const(self.ev(s))
                if c is None or not isinstance(c.v, int):
                    raise KeyError
                return c.v
            try:
                sl = e.slice
                return self.mklist(e, "list", x[slice(b(sl.lower), b(sl.upper), b(sl.step))], "slice")
            except KeyError:
                pass
        return WalkInterp.slice_(self, e, val)

    def ext_method(self, node, name, recv, args, kwargs):
        if name in ("append", "insert", "extend") and len(recv) == 1:
            x = self.exact(recv)
            o = next(iter(recv))
            if x is not None and isinstance(o, Alloc):
                y = None
                if name == "append" and len(args) == 1:
                    y = x + [args[0]]
                elif name == "extend" and self.exact(args[0]) is not None:
                    y = x + self.exact(args[0])
                elif name == "insert" and _single_const(args[0]) is not None:
                    y = list(x)
                    y.insert(_single_const(args[0]).v, args[1])
                if y is not None:
                    self.st.heap[o] = dict([(("i", k), v) for k, v in enumerate(y)] + [("#n", V(Const(len(y))))])
                    return NONE
        if name == "join" and args:
            x = self.exact(args[0])
            sep = _single_const(recv)
            if x is not None and sep is not None and isinstance(sep.v, str):
                seqs = []
                for k, v in enumerate(x):
                    if k:
                        seqs.append([(sep.v,)])
                    seqs.append(self.pieces(v))
                r = self.combine(node, seqs)
                if r is not None:
                    return r
        return WalkInterp.ext_method(self, node, name, recv, args, kwargs)

    def on_binop(self, node, op, l, r):
        if op == "Add":
            a, b = self.exact(l), self.exact(r)
            if a is not None and b is not None:
                return self.mklist(node, "list", a + b)
        return WalkInterp.on_binop(self, node, op, l, r)

    def ext_scalar(self, node, qual, args, kwargs):
        if qual == "len" and args:
            x = self.exact(args[0])
            if x is not None:
                return V(Const(len(x)))
        return WalkInterp.ext_scalar(self, node, qual, args, kwargs)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        if qual == "len" and len(args) == 1:
            x = self.exact(args[0])
            if x is not None:
                return V(Const(len(x)))
        if qual in ("list", "tuple") and len(args) == 1:
            x = self.exact(args[0])
            if x is not None:
                return self.mklist(node, qual, x)
        if qual == "enumerate" and len(args) == 1:
            x = self.exact(args[0])
            if x is not None:
                return self.mklist(node, "list", [self.mklist(node, "tuple", [V(Const(k)), v], ("en", k)) for k, v in enumerate(x)], "enum")
        return WalkInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def resolved(self, r, modname, name):
        v = WalkInterp.resolved(self, r, modname, name)
        if r is not None and r[0] == "var" and r[1] is not None and istable(r[1]) and v is not None \
                and all(isinstance(o, Sym) for o in v) and not mutated(r[3].tree, name):
            self.frames.append(self.module_frame(r[3]))
            try:
                return self.ev(r[1])
            finally:
                self.frames.pop()
        return v

    def truth(self, val):
        x = self.exact(val)
        if x is not None:
            return len(x) > 0
        return WalkInterp.truth(self, val)

    def comp(self, e, typ, gens, eltf):
        if typ in ("list", "iter"):
            saved = {}
            for g in gens:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        saved[n.id] = self.st.vars.get((self.fr.id, n.id))
            old, out = self.unroll, []

            def rec(i):
                """Whether it is known which elements there are."""
                if i == len(gens):
                    out.append(self.ev(e.elt))
                    return True
                x = self.exact(self.ev(gens[i].iter))
                if x is None or len(x) > self.maxunroll:
                    return False
                here = self.unroll
                for k, v in enumerate(x):
                    self.unroll = here + (k,)
                    self.assign(gens[i].target, v, e)
                    keep = True
                    for c in gens[i].ifs:
                        t = self.truth(self.ev(c))
                        if t is None:
                            return False
                        if t is False:
                            keep = False
                            break
                    if keep and not rec(i + 1):
                        return False
                self.unroll = here
                return True
            known = rec(0)
            self.unroll = old
            for k, v in saved.items():
                if v is None:
                    self.st.vars.pop((self.fr.id, k), None)
                else:
                    self.st.vars[(self.fr.id, k)] = v
            if known:
                return self.mklist(e, "list", out, "comp")
        return WalkInterp.comp(self, e, typ, gens, eltf)

    def s_For(self, s):
        it = self.ev(s.iter)
        x = self.exact(it)
        if x is None or len(x) > self.maxunroll:
            self.loop(s, it)
            return
        self.rounds(s, x)

    def rounds(self, s, x):
        """The body once for each element; x None: for as long as the test is known to hold."""
        old, out, k, g = self.unroll, None, 0, len(self.guards)
        lp = {"break": None, "cont": None}
        self.fr.loops.append(lp)
        alive, done = True, False
        try:
            while True:
                self.unroll = old + (k,)
                if x is not None:
                    if k == len(x):
                        break
                    self.assign(s.target, x[k], s)
                else:
                    base = self.st.copy()
                    t = self.truth(self.ev(s.test))
                    if t is False:
                        break
                    if t is None or k >= self.maxunroll:
                        self.st = base
                        self.fr.loops.pop()
                        try:
                            self.unroll, done = old, True
                            self.loop(s, None)
                        except Unreach:
                            alive = False
                        finally:
                            self.fr.loops.append(lp)
                        break
                k += 1
                lp["cont"] = None
                try:
                    self.block(s.body)
                except Unreach:
                    alive = False
                del self.guards[g:]
                st = join(self.st if alive else None, lp["cont"])
                if st is None:
                    break
                self.st, alive = st, True
        finally:
            self.unroll = old
            self.fr.loops.pop()
            del self.guards[g:]
        if alive and s.orelse and not done:
            try:
                self.block(s.orelse)
            except Unreach:
                alive = False
        st = join(self.st if alive else None, lp["break"])
        if st is None:
            raise Unreach()
        self.st = st

    def s_While(self, s):
        if not self.unrollwhile:
            return WalkInterp.s_While(self, s)
        self.rounds(s, None)

    def ext_iterlike(self, v):
        return v


class Variant(object):
    def __init__(self, method, begin, end, merge):
        self.method, self.begin, self.end, self.merge = method, begin, end, merge
        self.name = "%s%s%s%s" % (method.lower(), "+begin" if begin else "", "+end" if end else "", "+merge" if merge else "")
        self.text = self.tree = self.holes = self.cls = None

    def func(self, name):
        for s in self.cls.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return s
        return None


class EngineModel(object):
    METHODS = ("MAP", "EMIT", "FOLD")

    def __init__(self, proj, model):
        self.proj, self.model = proj, model
        self.it = ExactInterp(proj, model)
        self.ctxcls = None
        for c in proj.classes:
            if c.mod is model.mod and c.qual == "EngineConfig.Context":
                self.ctxcls = c
        if self.ctxcls is None:
            raise AnalysisBroken("EngineConfig.Context not found")
        self._variants = None

    def fcnctxcls(self):
        for c in self.proj.classes:
            if c.mod is self.model.mod and c.qual == "FcnDef.Context":
                return c
        raise AnalysisBroken("FcnDef.Context not found")

    def callgraph(self):
        """(entry, wanted calls, calls found, where) for every kind of entry of the generated call graph, all variants."""
        out = []
        where = self.proj.where(self.it.gen.node, self.it.gen.mod)
        for v in self.variants():
            self.parse(v)
            init = self.func(v, "__init__")
            vals = []
            for s in ast.walk(init):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "callGraph" for t in s.targets):
                    if isinstance(s.value, ast.Name) and s.value.id in v.holes:
                        vals.extend(v.holes[s.value.id].val)
            self.it.st.heap = v.heap
            for what in ("begin", "action", "end") + (("merge",) if v.merge else ()):
                got = set()
                for o in vals:
                    x = self.it.hget(o, ("k", "(%s)" % what)) if isinstance(o, Alloc) else None
                    got |= self.it.srcs(x or EMPTY)
                out.append(("(%s) of %s" % (what, v.name), set([Sym(("calls", what), (), None)]), got, where))
            got = set()
            for o in vals:
                if isinstance(o, Alloc):
                    ks = self.it.srcs(self.it.hget(o, "keys") or EMPTY)
                    if any(k.root == ("fcnname",) for k in ks):
                        got |= set((y.root, y.path) for y in self.it.srcs(self.it.hget(o, "[]") or EMPTY))
            out.append(("functions of %s" % v.name, set([(("fcnctx",), ("calls",))]), got, where))
        return out

    def func(self, v, name):
        f = self.parse(v).func(name)
        if f is None:
            raise AnalysisBroken("generated engine %s has no %s" % (v.name, name))
        return f

    def variants(self):
        if self._variants is None:
            self._variants = [self.make(Variant(*c)) for c in itertools.product(self.METHODS, (False, True), (False, True), (False, True))]
        return self._variants

    def make(self, v):
        it = self.it
        st = it.st = type(it.st)()
        it.frames = [it.module_frame(it.gen.mod)]
        n = ast.parse("x").body[0]
        ctx = Alloc(("ctx", v.name), "inst", self.ctxcls)

        def lst(key, vals, typ="list"):
            a = Alloc((key, v.name), typ, None)
            st.heap[a] = dict([(("i", k), V(x)) for k, x in enumerate(vals)] + [("#n", V(Const(len(vals))))])
            return a

        def block(name, present, nstm=2):
            codes = lst(name + "codes", [Sym(("code", name, k), (), None) for k in range(nstm if present else 0)])
            return lst(name + "tuple", [codes, Sym(("symbols", name), (), None), Sym(("calls", name), (), None)], "tuple")
        f = {}
        params = [a.arg for a in self.ctxcls.methods["__init__"].args.args][1:]
        for q in params:
            f[("a", q)] = V(Sym(("config", q), (), None))
        meth = self.proj.cls("titus.pfaast", "Method")
        mv = it.class_attr(n, meth, v.method, None)
        if not mv:
            raise AnalysisBroken("Method.%s not found" % v.method)
        fcn = lst("fcn0", [Sym(("fcnname",), (), ("scalar",)), Sym(("fcnctx",), (), ("inst", self.fcnctxcls(), "exact"))], "tuple")
        for q, x in (("method", mv), ("begin", V(block("begin", v.begin))), ("action", V(block("action", True))),
                     ("end", V(block("end", v.end))), ("merge", V(block("merge", True)) if v.merge else NONE),
                     ("fcns", V(lst("fcns", [fcn])))):
            if ("a", q) not in f:
                raise AnalysisBroken("EngineConfig.Context has no %s" % q)
            f[("a", q)] = x
        st.heap[ctx] = f
        it.top = None
        val = it.run(it.gen, [V(ctx), V(Sym("engineOptions", (), None))], None, st)
        texts = []
        for o in val or ():
            if isinstance(o, (Str, _Const)):
                texts.extend(render_all(o))
            else:
                raise AnalysisBroken("engine template for %s is %s" % (v.name, symstr(o)))
        # alternatives differ only in the choice of the class name
        good = []
        for r in texts:
            if r.text not in [g.text for g in good]:
                good.append(r)
        if not good:
            raise AnalysisBroken("no engine template for %s" % v.name)
        v.alts = good
        v.text, v.holes = good[0].text, good[0].holes
        v.heap = dict(it.st.heap)
        return v

    def parse(self, v):
        if v.tree is None:
            try:
                v.tree = ast.parse(v.text)
            except SyntaxError as err:
                raise AnalysisBroken("engine template for %s does not parse: %s" % (v.name, err))
            v.cls = [s for s in v.tree.body if isinstance(s, ast.ClassDef)][0]
        return v
