import ast, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.lib import Library, Pat
from sa.libscan import LibInterp
from sa.strings import StrInterp, Str, Hole, render
from sa.interp import *
from sa.interp import _Const
from sa.numkinds import Num, Stop, TOP, concrete, label_choices, lit, misfit

# functions that dispatch on the shapes the signature admits and end without an else branch
FALLTHROUGH = {"a.remove", "cast.fanoutBoolean", "cast.fanoutInt", "cast.fanoutLong", "cast.fanoutFloat", "cast.fanoutDouble",
               "la.map", "la.zipmap", "la.dot", "la.transpose", "la.inverse", "la.trace", "la.det", "la.symmetric",
               "la.eigenBasis", "la.truncate", "m.log", "s.int", "rand.histogram", "model.naive.multinomial",
               "model.tree.simpleWalk", "model.tree.missingWalk", "model.tree.simpleTree", "prob.dist.negativeBinomialQF",
               "stat.sample.fillHistogram"}


class Callables(LibInterp):
    """Results, direct calls of parameters and calls of user functions, per library function."""
    def __init__(self, proj, lib):
        LibInterp.__init__(self, proj, lib)
        self.called, self.user = {}, []

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Sym) and isinstance(o.root, str) and o.root.startswith("arg:") and not o.path:
            self.called.setdefault(self.cur, set()).add(o.root[4:])
        return LibInterp.on_call(self, node, o, args, kwargs)

    def on_user_call(self, node, args, kwargs):
        f = args[2] if len(args) > 2 else kwargs.get("fcn", EMPTY)
        a = args[3] if len(args) > 3 else kwargs.get("args", EMPTY)
        for o in f:
            if isinstance(o, Sym) and isinstance(o.root, str) and o.root.startswith("arg:") and not o.path:
                for al in a:
                    if isinstance(al, Alloc):
                        fs = self.fields(al)
                        if not any(k == "[]" for k in fs):
                            self.user.append((self.cur, o.root[4:], len([k for k in fs if isinstance(k, tuple) and k[0] == "i"]), self.where(node)))


class Gen(StrInterp, LibInterp):
    opaque_mods = LibInterp.opaque_mods - {"titus.fcn"}


class Tables(Interp):
    def __init__(self, proj):
        Interp.__init__(self, proj)
        self.merged = set()

    def on_load_attr(self, node, obj, name):
        if isinstance(obj, Mod) and name == "provides":
            self.merged.add(obj.name)
        return None


def subst(e, env):
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return env.get(n.id, n)
    return T().visit(ast.parse(ast.unparse(e), mode="eval").body)


def as_expr(fn):
    """The body of fn as one expression of its parameters, if it is straight-line code."""
    env = {}
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = subst(s.value, env)
        elif isinstance(s, ast.Return) and s.value is not None:
            return subst(s.value, env)
        else:
            return None
    return None


def shape(o):
    if isinstance(o, _Const):
        return {"NoneType": "null", "bool": "boolean", "str": "string", "int": "number", "float": "number", "bytes": "bytes"}.get(type(o.v).__name__)
    if isinstance(o, Alloc) and o.cls is None:
        return {"list": "array", "dict": "map"}.get(o.typ)
    return None


OKSHAPES = {"Null": {"null"}, "Boolean": {"boolean"}, "Int": {"number"}, "Long": {"number"}, "Float": {"number"},
            "Double": {"number"}, "String": {"string"}, "Bytes": {"bytes", "string"}, "Array": {"array"}, "Map": {"map"},
            "Record": {"map"}, "WildRecord": {"map"}, "Enum": {"string"}, "Fixed": {"bytes", "string"}}


def run(rep):
    rep.rule("provided", "every library function class that has a name is registered by its module, under a name nothing else uses")
    rep.rule("merged", "every module that registers functions is merged into the default function table")
    rep.rule("codegen", "the generated call passes state, scope, position, parameter types and every argument once, in order, and fits the callable")
    rep.rule("inline", "an inlined form computes the same expression as the function's body")
    rep.rule("lazy", "an argument is wrapped for lazy evaluation exactly when the body calls it")
    rep.rule("callback", "a user function is called with as many arguments as the signature declares for it")
    rep.rule("arity", "the body accepts as many arguments as every declared signature has parameters")
    rep.rule("result", "every path ends in a result whose shape the declared return types admit")
    rep.rule("kind", "for every choice of argument types, what the body computes is not of another kind than the declared result (whole or floating-point number, string, boolean, array, map)")
    p = Project()
    lib = Library(p)
    byname = {}
    # -- registration: which classes are instantiated in calls of the module's provide()
    for m in lib.mods:
        prov, mods_ = set(), False
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "provide":
                for a in ast.walk(node):
                    if isinstance(a, ast.Name) and isinstance(a.ctx, ast.Load):
                        prov.add(a.id)
            elif isinstance(node, (ast.Assign, ast.For)):
                # provides[...] = X(), or a loop over the classes to register
                txt = [a.id for a in ast.walk(node) if isinstance(a, ast.Name)]
                if "provides" in txt or "provide" in txt:
                    prov.update(txt)
        for f in lib.funcs:
            if f.mod is m and f.name is not None:
                rep.count("provided")
                f.provided = f.ci.name in prov
                subclassed = any(f.ci in p.mro(g.ci)[1:] for g in lib.funcs)
                if not f.provided and not subclassed:
                    rep.finding("provided", f.name, "class %s is never registered" % f.ci.name, p.where(f.ci.node, m))
                if f.provided:
                    if f.name in byname:
                        rep.finding("provided", f.name, "registered by both %s and %s" % (byname[f.name].key, f.key), p.where(f.ci.node, m))
                    byname[f.name] = f
    ft = p.cls("titus.pfaast", "FunctionTable")
    bm = p.method(ft, "blank")
    t = Tables(p)
    t.run(Fn(bm[0], bm[1].mod, bm[1], None, None), [])
    for m in lib.mods:
        if any(f.mod is m and f.name for f in lib.funcs):
            rep.count("merged")
            if m.name not in t.merged:
                rep.finding("merged", m.name, "its functions are not in FunctionTable.blank()", p.where(bm[0], bm[1].mod))
    # -- callables
    it = Callables(p, lib)
    results = {}
    for f in lib.funcs:
        results[f] = it.run_lib(f)
    for f, pname, n, where in it.user:
        fn = p.method(f.ci, "__call__")[0]
        names = [a.arg for a in fn.args.args][5:]
        if f.name is None or pname not in names:
            continue
        i = names.index(pname)
        for params, ret, node in f.sigs or []:
            if i < len(params) and isinstance(params[i][1], Pat) and params[i][1].name == "Fcn" and isinstance(params[i][1].args[0], list):
                rep.count("callback")
                want = len(params[i][1].args[0])
                if want != n and all(not (i < len(q) and isinstance(q[i][1], Pat) and q[i][1].name == "Fcn" and isinstance(q[i][1].args[0], list) and len(q[i][1].args[0]) == n) for q, _, _ in f.sigs):
                    rep.finding("callback", "%s parameter %s" % (f.name, pname), "called with %d arguments, declared with %d" % (n, want), where)
    for f, r in results.items():
        if r is None or f.name is None or not f.sigs:
            continue
        rets = [x[1] for x in f.sigs]
        rep.count("result")
        fn = p.method(f.ci, "__call__")
        where = p.where(fn[0], fn[1].mod)
        if all(isinstance(x, Pat) and x.name in OKSHAPES for x in rets):
            ok = set().union(*[OKSHAPES[x.name] for x in rets])
            for o in r:
                s = shape(o)
                if s is not None and s not in ok and not (s == "null" and f.name in FALLTHROUGH):
                    rep.finding("result", f.name, "can return %s (%s), declared %s" % (s if s != "null" else "no value", symstr(o), "/".join(sorted(set(x.name for x in rets)))), where)
        elif any(isinstance(o, _Const) and o.v is None for o in r) and f.name not in FALLTHROUGH and not any(
                isinstance(x, Pat) and (x.name in ("Union",) and any(isinstance(y, Pat) and y.name == "Null" for y in _flat(x.args)) or x.name == "Null") for x in rets):
            rep.finding("result", f.name, "can end without a value", where)
    given_up = result_kinds(rep, p, lib)
    rep.note("kinds not followed", given_up[:20])
    rep.floor("kind", 900)
    # -- generated calls
    g = Gen(p, lib)
    for f in sorted(byname.values(), key=lambda f: f.name):
        if not f.sigs:
            continue
        m = p.method(f.ci, "genpy")
        cm = p.method(f.ci, "__call__")
        body = as_expr(cm[0]) if cm is not None else None
        haslib = cm is not None and cm[1] is not lib.base
        cargs = [a.arg for a in cm[0].args.args][1:] if haslib else []
        ndef = len(cm[0].args.defaults) if haslib else 0
        where = p.where(m[0], m[1].mod)
        for params, ret, signode in f.sigs:
            n = len(params)
            st = State()
            a = Alloc(("args", 0, 0, (), "args"), "list", None)
            st.heap[a] = {("i", i): V(Const("ARG%d_" % i)) for i in range(n)}
            g.cur = f
            r = g.run(Fn(m[0], m[1].mod, m[1], None, V(Sym("self", (), ("inst", f.ci, "exact")))),
                      [V(Sym("paramTypes", (), None)), V(a), V(Sym("pos", (), None))], state=st)
            if r is None:
                rep.finding("codegen", f.name, "no code is generated", where)
                continue
            for o in r:
                if not isinstance(o, (Str, _Const)):
                    continue
                names = {}

                def namer(h):
                    k = "HOLE%d_" % len(names)
                    names[k] = h
                    return k
                text = render(o, namer)
                try:
                    e = ast.parse(text.strip(), mode="eval").body
                except SyntaxError:
                    rep.finding("codegen", f.name, "generated text is not an expression: %s" % text[:80], where)
                    continue
                used = [x.id for x in ast.walk(e) if isinstance(x, ast.Name) and x.id.startswith("ARG")]
                want = ["ARG%d_" % i for i in range(n)]
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Subscript) and isinstance(e.func.value, ast.Attribute) and e.func.value.attr == "f":
                    rep.count("codegen")
                    k = e.func.slice
                    if isinstance(k, ast.Name) and k.id in names:
                        kv = [x.v for x in names[k.id].val if isinstance(x, _Const)]
                        kname = kv[0] if len(kv) == 1 else f.name
                    else:
                        kname = k.value if isinstance(k, ast.Constant) else None
                    if kname != f.name:
                        rep.finding("codegen", f.name, "generated code calls %r" % (kname,), where)
                    desc = []
                    for x in e.args:
                        if isinstance(x, ast.Name) and x.id in names:
                            h = names[x.id]
                            desc.append("|".join(sorted(s.root if isinstance(s, Sym) and isinstance(s.root, str) else "?" for s in h.val)))
                        elif isinstance(x, ast.Name):
                            desc.append(x.id)
                        else:
                            desc.append("?")
                    if desc[:2] != ["state", "scope"] or desc[2:4] != ["pos", "paramTypes"]:
                        rep.finding("codegen", f.name, "the call starts with (%s)" % ", ".join(desc[:4]), where)
                    rest = e.args[4:]
                    got = []
                    for i, x in enumerate(rest[:n]):
                        lazy = isinstance(x, ast.Lambda)
                        y = x.body if lazy else x
                        got.append(y.id if isinstance(y, ast.Name) else "?")
                        if haslib and 4 + i < len(cargs):
                            rep.count("lazy")
                            calls = cargs[4 + i] in it.called.get(f, ())
                            if lazy != calls:
                                rep.finding("lazy", "%s parameter %s" % (f.name, cargs[4 + i]),
                                            "argument is %s but the body %s it" % ("wrapped" if lazy else "evaluated eagerly", "calls" if calls else "does not call"), where)
                    if got != want or used != want:
                        rep.finding("codegen", f.name, "arguments are passed as (%s)" % ", ".join(got), where)
                    if haslib:
                        rep.count("arity")
                        total = len(e.args)
                        if total > len(cargs) and cm[0].args.vararg is None or total < len(cargs) - ndef:
                            rep.finding("arity", f.name, "generated call passes %d values after the first four, the body takes %d" % (total - 4, len(cargs) - 4), where)
                    else:
                        rep.finding("arity", f.name, "the generated code calls the function but it has no body", where)
                else:
                    rep.count("inline")
                    if sorted(set(used)) != sorted(want):
                        rep.finding("inline", f.name, "inlined form uses arguments %s of %s" % (sorted(set(used)), want), where)
                    if body is not None and len(cargs) - 4 == n and len(r) == 1:
                        env = {c: ast.Name(id="ARG%d_" % i, ctx=ast.Load()) for i, c in enumerate(cargs[4:])}
                        b = subst(body, env)
                        if norm(b) != norm(e):
                            rep.finding("inline", f.name, "inlined as %s but the body computes %s" % (ast.unparse(e), ast.unparse(b)), where)
    rep.note("functions", len(byname))
    rep.floor("provided", 350)
    rep.floor("codegen", 300)
    rep.floor("callback", 30)
    rep.floor("result", 300)


def result_kinds(rep, p, lib):
    given_up = []
    for f in lib.funcs:
        m = p.method(f.ci, "__call__")
        if not f.name or not f.sigs or m is None or m[1] is lib.base:
            continue
        fn, where = m[0], p.where(m[0], m[1].mod)
        names = [a.arg for a in fn.args.args][5:]
        for params, ret, _ in f.sigs:
            labels = label_choices([x[1] for x in params] + [ret])
            for combo in itertools.islice(itertools.product(*[[(k, c) for c in v] for k, v in sorted(labels.items())]), 64):
                lab = dict(combo)
                want = concrete(ret, lab)[0]
                if want is None:
                    continue
                types = [concrete(q, lab) for _, q in params]
                env = dict((a.arg, TOP) for a in fn.args.args)
                env.update(zip(names, [v for _, v in types]))
                if len(fn.args.args) > 4:
                    env[fn.args.args[4].arg] = lit([j for j, _ in types] + [want])
                try:
                    r = Num(p).call(fn, m[1].mod, f.ci, env)
                except Stop:
                    given_up.append(f.name)
                    continue
                if r - TOP:
                    rep.count("kind")
                bad = misfit(r, want)
                if bad:
                    rep.finding("kind", f.name, "gives %s for arguments (%s), declared %s" % (bad, ", ".join(str(j) for j, _ in types), want), where)
    return given_up


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in _flat(x):
                yield y
        else:
            yield x


def norm(e):
    return ast.dump(e)


if __name__ == "__main__":
    report.main("L04", run)
