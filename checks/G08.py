import ast, builtins, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.forms import FormModel, variants
from G01 import sandbox, sandbox_names


def fits(fn, npos, kws, bound):
    """None when a call with npos positional and the keywords kws can bind to fn, else why not."""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos:
        pos = pos[1:]
    if npos > len(pos) and a.vararg is None:
        return "%d arguments for %d parameters" % (npos, len(pos))
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    for q in need[npos:]:
        if q not in kws:
            return "no argument for %s" % q
    for k in kws:
        if k in pos[:npos]:
            return "%s is given twice" % k
        if k not in pos and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return "no parameter %s" % k
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return "no argument for %s" % x.arg
    return None


def scopes(tree, outer):
    """(name, node) of every name read that no enclosing function, lambda or comprehension binds."""
    out = []

    def params(a):
        return set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) | set(x.arg for x in (a.vararg, a.kwarg) if x is not None)

    def stored(body):
        s = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, ast.alias):
                    s.add((n.asname or n.name).split(".")[0])
        return s

    def go(n, bound):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in bound:
                out.append((n.id, n))
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                go(d, bound)
            go(n.body, bound | params(n.args))
            return
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + n.decorator_list:
                go(d, bound)
            b = bound | params(n.args) | stored(n.body)
            for s in n.body:
                go(s, b)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.bases:
                go(s, bound)
            for s in n.body:
                go(s, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = bound | stored([g.target for g in n.generators])
            for c in ast.iter_child_nodes(n):
                go(c, b)
            return
        for c in ast.iter_child_nodes(n):
            go(c, bound)
    go(tree, set(outer))
    return out


def attributes(p, ci, extra=()):
    """name -> method or None, of a class and its bases."""
    out = {}
    for k in reversed(p.mro(ci)):
        for n, f in k.methods.items():
            deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
            out[n] = f if not deco else None
        for f in k.methods.values():
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.setdefault(n.attr, None)
        for s in k.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, None)
    for n in extra:
        out.setdefault(n, None)
    return out


def check(rep, tree, text, what, names, env, sb, objs, where):
    free = scopes(tree, env)
    for n, node in free:
        if n.startswith("HOLE_"):
            continue
        rep.count("names")
        if n not in names and not hasattr(builtins, n):
            rep.finding("names", "%s in %s" % (n, what), "the generated code uses a name nothing binds", where)
    freeset = set(id(x) for _, x in free)
    for c in ast.walk(tree):
        if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id in objs and isinstance(c.ctx, ast.Load):
            rep.count("members")
            if c.attr not in objs[c.value.id]:
                rep.finding("members", "%s.%s in %s" % (c.value.id, c.attr, what), "the generated code uses a member that does not exist", where)
        if not isinstance(c, ast.Call):
            continue
        if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
            continue
        fn, bound = None, False
        if isinstance(c.func, ast.Name) and id(c.func) in freeset and sb.get(c.func.id) is not None:
            fn = sb[c.func.id][0]
        elif isinstance(c.func, ast.Name) and id(c.func) in freeset and c.func.id in CTORS:
            fn, bound = objs["class " + c.func.id].get("__init__"), True
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in objs:
            fn, bound = objs[c.func.value.id].get(c.func.attr), True
        if fn is None:
            continue
        # a hole among the arguments may stand for several of them
        hole = any(isinstance(x, ast.Name) and x.id.startswith("HOLE_") for x in c.args)
        rep.count("calls")
        why = fits(fn, len(c.args), [k.arg for k in c.keywords], bound)
        if why is not None and hole and "no argument" in why:
            why = None
        if why is not None:
            rep.finding("calls", "%s in %s" % (ast.unparse(c.func), what), "the call does not fit the function: %s" % why, where)


def cls(p, name):
    r = p.lookup(p.mod("titus.genpy"), name)
    if not (isinstance(r, tuple) and r[0] == "class"):
        raise AnalysisBroken("%s is not a class of the generator module" % name)
    return r[1]


CTORS = ("ExecutionState", "DynamicScope")


def run(rep):
    rep.rule("names", "every name read by the code generated for a special form or an engine is bound there or in the name table the code is executed in")
    rep.rule("members", "every member of self, state and scope that generated code uses exists")
    rep.rule("calls", "every call in generated code of a run-time helper or method binds to its parameters")
    p = Project()
    m = AstModel(p)
    fm = FormModel(p, m)
    em = EngineModel(p, m)
    sb = sandbox(p)
    names = sandbox_names(p)
    gp = p.mod("titus.genpy")
    where = p.where(p.method(p.cls("titus.genpy", "GeneratePython"), "__call__")[0], gp)
    base = p.cls("titus.genpy", "PFAEngine")
    # members given to the engine or its class after it is made
    extra = set()
    for f in base.methods.values():
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id != "self":
                extra.add(n.attr)
    common = {"state": attributes(p, cls(p, "ExecutionState")), "scope": attributes(p, cls(p, "DynamicScope"))}
    for c in CTORS:
        common["class " + c] = attributes(p, cls(p, c))
    eng = attributes(p, base, extra)
    every = dict(eng)
    for v in em.variants():
        em.parse(v)
        own = dict(eng)
        for s in v.cls.body:
            if isinstance(s, ast.FunctionDef):
                own[s.name] = s
                for n in ast.walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        own.setdefault(n.attr, None)
        every.update(dict((k, x) for k, x in own.items() if k not in every))
        objs = dict(common)
        objs["self"] = own
        check(rep, v.tree, v.text, "%s engines" % v.name.split("+")[0], names, set(), sb, objs, where)
    objs = dict(common)
    objs["self"] = every
    nforms = 0
    for n in sorted(m.classes):
        if n in FormModel.SKIP:
            continue
        for f in variants(m, n):
            fm.make(f)
            for t in f.templates:
                try:
                    tree = ast.parse(t.text, mode="eval")
                except SyntaxError:
                    continue        # G01 reports it
                nforms += 1
                check(rep, tree, t.text, n, names, {"self", "state", "scope"}, sb, objs, where)
    rep.note("templates", nforms)
    rep.floor("names", 300)
    rep.floor("members", 100)
    rep.floor("calls", 100)


if __name__ == "__main__":
    report.main("G08", run)
