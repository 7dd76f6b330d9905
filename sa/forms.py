"""Special forms, instantiated: list- and dict-valued parts hold two children, optional parts are present or absent.
The walk of each instance and the code generator are run abstractly, which gives the exact text generated for it with
the children's code as holes."""
import ast, itertools
from .proj import AnalysisBroken
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, Mod, V, EMPTY, NONE, Const, _Const, Unreach, symstr, _single_const
from .strings import Str, Hole
from .codegen import render_all, WALKARGS
from .engine import ExactInterp

NCHILD = 2
ARGKINDS = ("Expression", "FcnDef", "FcnRef", "FcnRefFill")


def optional_fields(model, name):
    """Child fields the constructor allows to be None."""
    init = model.classes[name].methods["__init__"]
    out = set()
    for n in ast.walk(init):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = n.comparators[0]
            if isinstance(c, ast.Constant) and c.value is None:
                f = n.left.id if isinstance(n.left, ast.Name) else n.left.attr if isinstance(n.left, ast.Attribute) else None
                if f in model.children(name):
                    out.add(f)
    return out


DICTS = ("dict", "collections.OrderedDict", "builtins.dict")


class FormInterp(ExactInterp):
    nchild = NCHILD             # children in a list of them

    def __init__(self, proj, model):
        ExactInterp.__init__(self, proj, model)
        self.inst = {}
        self.maxsteps = 900000

    def on_load_attr(self, node, o, name):
        if isinstance(o, Sym) and self.isast(o) and o.root == "self" and (o, ("a", name)) not in self.inst:
            cn = o.kind[1].name
            sh = None
            for k in self.proj.mro(o.kind[1]):
                sh = self.model.shapes.get(k.name, {}).get(name)
                if sh is not None:
                    break
            if sh is not None:
                path = o.path + (name,)
                want = self.inst.get(path)
                if want is False:
                    return NONE
                cls = self.model.find(sh[1])
                if isinstance(want, str):
                    cls = self.model.find(want)
                kind = ("inst", cls)
                if isinstance(want, str) and want.startswith("Fcn"):
                    kind = ("inst", cls, "exact")
                if sh[0] == "list":
                    return self.mklist(node, "list", [V(Sym("self", path + ("[%d]" % k,), kind)) for k in range(self.nchild)], ("kids", path))
                if sh[0] == "pairs":
                    return self.mklist(node, "list", [self.mklist(node, "tuple", [V(Sym("self", path + ("<name%d>" % k,), ("scalar",))),
                                       V(Sym("self", path + ("[%d]" % k,), kind))], ("pair", path, k)) for k in range(self.nchild)], ("kids", path))
                if sh[0] == "dict":
                    a = self.alloc(node, "dict", None, ("kids", path))
                    d = {"keys": frozenset(Const("k%d" % k) for k in range(self.nchild)), "#n": V(Const(self.nchild))}
                    for k in range(self.nchild):
                        d[("k", "k%d" % k)] = V(Sym("self", path + ("[%d]" % k,), kind))
                    self.st.heap[a] = d
                    return V(a)
                return V(Sym("self", path, kind))
        return ExactInterp.on_load_attr(self, node, o, name)

    def child_call(self, node, name, o, args, kwargs):
        v = ExactInterp.child_call(self, node, name, o, args, kwargs)
        if name == "walk" and self.isast(o):
            ex = len(o.kind) > 2
            ctx = None
            for k in self.proj.mro(o.kind[1]):
                if "Context" in k.inner:
                    ctx = k.inner["Context"]
                    break
            if ctx is None and o.kind[1].name == "Expression":
                ctx = self.model.find("ExpressionContext")
            if ctx is not None:
                for a in v:
                    self.st.heap[a] = dict(self.st.heap[a])
                    self.st.heap[a][("i", 0)] = V(Sym(("ctx", o.path), (), ("inst", ctx, "exact") if ex else ("inst", ctx)))
        return v

    def exactdict(self, val):
        """[(key value, value)] for one dict with known constant keys, in insertion order."""
        if len(val) != 1:
            return None
        o = next(iter(val))
        if not isinstance(o, Alloc) or o.typ != "dict":
            return None
        d = self.fields(o)
        if d.get("[]") or d.get("#maybe"):
            return None
        ks = [f[1] for f in d if isinstance(f, tuple) and f[0] == "k"]
        if set(ks) != set(k.v for k in d.get("keys", EMPTY) if isinstance(k, _Const)) or any(not isinstance(k, _Const) for k in d.get("keys", EMPTY)):
            return None
        return [(V(Const(k)), d[("k", k)]) for k in ks]

    def ext_method(self, node, name, recv, args, kwargs):
        x = self.exactdict(recv)
        if x is not None:
            if name in ("items", "iteritems"):
                return self.mklist(node, "list", [self.mklist(node, "tuple", [k, v], ("it", i)) for i, (k, v) in enumerate(x)], "items")
            if name == "keys":
                return self.mklist(node, "list", [k for k, v in x], "keys")
            if name in ("values", "itervalues"):
                return self.mklist(node, "list", [v for k, v in x], "values")
            if name == "update" and len(args) <= 1:
                y = self.exactdict(args[0]) if args else []
                if y is not None:
                    d = dict(self.fields(next(iter(recv))))
                    for k, v in [(_single_const(k).v, v) for k, v in y] + sorted((kwargs or {}).items()):
                        d[("k", k)] = v
                        d["keys"] = d.get("keys", EMPTY) | V(Const(k))
                    if "#n" in d:
                        d["#n"] = V(Const(len(d["keys"])))
                    self.st.heap[next(iter(recv))] = d
                    return NONE
        return ExactInterp.ext_method(self, node, name, recv, args, kwargs)

    def exact(self, val):
        x = self.exactdict(val) if len(val) == 1 and isinstance(next(iter(val)), Alloc) and next(iter(val)).typ == "dict" else None
        if x is not None:
            return [k for k, v in x]
        return ExactInterp.exact(self, val)

    def comp(self, e, typ, gens, eltf):
        if typ == "dict" and len(gens) == 1:
            x = self.exact(self.ev(gens[0].iter))
            if x is not None and len(x) <= self.maxunroll:
                a = self.alloc(e, "dict")
                old, saved = self.unroll, {}
                for n in ast.walk(gens[0].target):
                    if isinstance(n, ast.Name):
                        saved[n.id] = self.st.vars.get((self.fr.id, n.id))
                for k, v in enumerate(x):
                    self.unroll = old + (k,)
                    self.assign(gens[0].target, v, e)
                    ts = [self.truth(self.ev(c)) for c in gens[0].ifs]
                    if any(t is False for t in ts):
                        continue
                    if any(t is None for t in ts):
                        self.hadd(a, "[]", EMPTY)
                    kv, vv = self.ev(e.key), self.ev(e.value)
                    self.hadd(a, "keys", kv)
                    c = _single_const(kv)
                    self.hadd(a, ("k", c.v) if c is not None and all(ts) else "[]", vv)
                self.unroll = old
                for k, v in saved.items():
                    if v is None:
                        self.st.vars.pop((self.fr.id, k), None)
                    else:
                        self.st.vars[(self.fr.id, k)] = v
                return V(a)
        return ExactInterp.comp(self, e, typ, gens, eltf)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        if qual == "zip" and args:
            xs = [self.exact(a) for a in args]
            if all(x is not None for x in xs):
                n = min(len(x) for x in xs)
                return self.mklist(node, "list", [self.mklist(node, "tuple", [x[k] for x in xs], ("zip", k)) for k in range(n)], "zip")
        if qual == "range" and args and all(_single_const(a) is not None and isinstance(_single_const(a).v, int) for a in args):
            r = range(*[_single_const(a).v for a in args])
            if len(r) <= self.maxunroll:
                return self.mklist(node, "list", [V(Const(k)) for k in r], "range")
        if qual == "reversed" and args and self.exact(args[0]) is not None:
            return self.mklist(node, "list", self.exact(args[0])[::-1], "reversed")
        if qual == "sorted" and len(args) == 1 and not kwargs and self.exact(args[0]) is not None:
            x = self.exact(args[0])
            ks = []
            for v in x:
                f = self.exact(v)
                c = _single_const(f[0] if f else v)
                ks.append(c.v if c is not None and isinstance(c.v, str) else None)
            if len(x) < 2 or None not in ks and len(set(ks)) == len(ks):
                return self.mklist(node, "list", [x[i] for i in sorted(range(len(x)), key=lambda i: ks[i])], "sorted")
        if qual == "map" and len(args) == 2 and self.exact(args[1]) is not None:
            out = []
            old = self.unroll
            for k, v in enumerate(self.exact(args[1])):
                self.unroll = old + (k,)
                out.append(self.call(node, args[0], [v]))
            self.unroll = old
            return self.mklist(node, "list", out, "map")
        if qual == "filter" and len(args) == 2 and self.exact(args[1]) is not None:
            out = []
            old = self.unroll
            for k, v in enumerate(self.exact(args[1])):
                self.unroll = old + (k,)
                t = self.truth(self.call(node, args[0], [v]) if NONE != args[0] else v)
                if t is None:
                    break
                if t:
                    out.append(v)
            else:
                self.unroll = old
                return self.mklist(node, "list", out, "filter")
            self.unroll = old
        if qual in DICTS and len(args) == 1 and self.exactdict(args[0]) is not None:
            a = self.alloc(node, "dict")
            self.st.heap[a] = dict(self.fields(next(iter(args[0]))))
            return V(a)
        if qual in DICTS and len(args) == 1 and self.exact(args[0]) is not None:
            prs = [self.exact(x) for x in self.exact(args[0])]
            if all(p is not None and len(p) == 2 and _single_const(p[0]) is not None for p in prs):
                a = self.alloc(node, "dict")
                d = {"keys": frozenset(Const(_single_const(p[0]).v) for p in prs)}
                for p in prs:
                    d[("k", _single_const(p[0]).v)] = p[1]
                self.st.heap[a] = d
                return V(a)
        return ExactInterp.ext(self, node, qual, recv, args, kwargs, sym)


class Form(object):
    def __init__(self, cls, variant, inst):
        self.cls, self.variant, self.inst = cls, variant, inst
        self.name = cls + variant


def variants(model, name):
    """Instances of a class: optional children present/absent; 'to' of every argument kind."""
    opts = sorted(optional_fields(model, name))
    dims = [[(("p", f), v) for v in (True, False)] for f in opts]
    for f, (shape, elem) in sorted(model.children(name).items()):
        if shape == "one" and elem == "Argument":
            dims.append([(("k", f), v) for v in ARGKINDS])
    out = []
    for combo in itertools.product(*dims):
        inst, nm = {}, ""
        for (t, f), v in combo:
            inst[(f,)] = v
            if t == "p":
                nm += "+" + f if v else ""
            else:
                nm += "+%s:%s" % (f, v)
        out.append(Form(name, nm, inst))
    return out


class FormModel(object):
    SKIP = ("Subs", "EngineConfig", "Cell", "Pool")

    def __init__(self, proj, model):
        self.proj, self.model = proj, model
        self.it = FormInterp(proj, model)

    def forms(self):
        for n in sorted(self.model.classes):
            if n in self.SKIP:
                continue
            for f in variants(self.model, n):
                yield self.make(f)

    def make(self, f):
        it = self.it
        it.inst = dict(f.inst)
        rets = it.walk(f.cls)
        f.templates, f.contexts = [], []
        for node, st, ctxs, code in rets:
            f.contexts.append((node, st, ctxs))
            for o in code or ():
                if isinstance(o, (Str, _Const)):
                    f.templates.extend(render_all(o, limit=400))
                else:
                    f.templates.extend(render_all(Str((Hole("raw", V(o)),))))
        return f
