import ast, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.forms import FormInterp
from sa.interp import Sym, Alloc, Res, Fn, Cls, Ext, V, Const, _Const, EMPTY, NONE, symstr, Unreach

NENG = 2
SEED = 987654321
GEN = "GeneratedEngine"


class Make(FormInterp):
    """PFAEngine.fromAst for two engines of one document with two cells and two pools."""

    def __init__(self, proj, model, base, params, kept):
        FormInterp.__init__(self, proj, model)
        self.base, self.params, self.kept = base, params, kept
        self.fix = {}
        self.rec = []

    def on_load_attr(self, node, o, name):
        if isinstance(o, Alloc) and o.cls is self.base and name == "initialize" and self.proj.method(self.base, name) is None:
            return V(Ext("engine.initialize", V(o)))
        if isinstance(o, Sym) and o.root == "self":
            if not o.path:
                if name == "walk":
                    return V(Ext("enginewalk", V(o)))
                if name == "method":
                    return self.class_attr(node, self.proj.cls("titus.pfaast", "Method"), self.fix["method"], None)
                if name == "randseed":
                    return V(Const(SEED)) if self.fix["seed"] else NONE
            if len(o.path) >= 2 and o.path[0] in ("cells", "pools") and name == "shared":
                return V(Const(self.fix["shared"]))
        return FormInterp.on_load_attr(self, node, o, name)

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual == "enginewalk":
            t = self.alloc(node, "tuple", None, "ew")
            self.hset(t, ("i", 0), V(Sym("context", (), None)))
            self.hset(t, ("i", 1), V(Sym("code", (), ("scalar",))))
            return V(t)
        if qual == "engine.initialize":
            self.rec.append(("initialize", [set(recv)]))
            return NONE
        if qual == "exec":
            if len(args) > 1:
                for o in args[1]:
                    if isinstance(o, Alloc):
                        self.hadd(o, "keys", V(Const("PFA_generated")))
                        self.hadd(o, ("k", "PFA_generated"), V(Ext(GEN, None)))
            return NONE
        if qual in ("random.Random", "random.SystemRandom"):
            return V(Sym(("rand", self.site(node), self.leaves(args, kwargs), qual), (), None))
        if qual in ("threading.Lock", "threading.RLock"):
            return V(Sym(("lock", self.site(node)), (), None))
        return FormInterp.on_ext(self, node, qual, recv, args, kwargs)

    def call(self, node, cal, args, kwargs=None, star=None, dstar=None):
        if any(isinstance(o, Ext) and o.qual == GEN for o in cal):
            e = self.alloc(node, "inst", self.base, GEN)
            d = {}
            for k, q in enumerate(self.params):
                v = args[k] if k < len(args) else (kwargs or {}).get(q, EMPTY)
                if q in self.kept:
                    d[("a", self.kept[q])] = v
            self.st.heap[e] = d
            self.made.append(e)
            return V(e)
        return FormInterp.call(self, node, cal, args, kwargs, star, dstar)

    def setitem(self, node, o, idx, v, s):
        if self.exactdict(o) is not None and one(idx) is not None and isinstance(one(idx), _Const) and isinstance(one(idx).v, str):
            x = one(o)
            d = dict(self.fields(x))
            d["keys"] = d.get("keys", EMPTY) | idx
            d[("k", one(idx).v)] = v
            self.st.heap[x] = d
            return
        FormInterp.setitem(self, node, o, idx, v, s)

    def ext_method(self, node, name, recv, args, kwargs):
        if name == "update" and len(args) == 1 and self.exactdict(recv) is not None and self.exactdict(args[0]) is not None:
            for k, v in self.exactdict(args[0]):
                self.setitem(node, recv, k, v, node)
            return NONE
        return FormInterp.ext_method(self, node, name, recv, args, kwargs)

    def compare1(self, op, l, r):
        if op in ("In", "NotIn") and len(r) == 1 and isinstance(one(r), Alloc) and one(r).typ == "dict" and isinstance(one(l), _Const):
            x = self.exactdict(r)
            if x is not None:
                return (l in [k for k, v in x]) != (op == "NotIn")
        return FormInterp.compare1(self, op, l, r)

    def call_fn(self, node, fo, args, kwargs, star=None, dstar=None):
        n = getattr(fo.node, "name", "")
        if n == "jsonDecoder":
            return V(Sym(("decoded", self.site(node), tuple(self.render(a) for a in args)), (), ("array", None) if False else None))
        if n in ("checkForDeadlock", "initialize", "makeTask", "fromString"):
            self.rec.append((n, [set(a) for a in args] + ([set(fo.self_)] if fo.self_ else [])))
            return V(Sym((n,), (), None))
        return FormInterp.call_fn(self, node, fo, args, kwargs, star, dstar)

    def leaves(self, args, kwargs):
        """What a generator's seed is computed from."""
        out, work, seen = set(), [o for a in list(args) + list((kwargs or {}).values()) for o in a], set()
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            if isinstance(o, Res):
                work.extend(x for x in o.srcs if isinstance(x, object))
            elif isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "rand":
                out.add(("generator", o.root[1]))
                out |= set(o.root[2])
            elif isinstance(o, _Const):
                out.add(o.v)
            elif isinstance(o, Ext):
                work.extend(o.recv or ())
                out.add(o.qual)
            else:
                out.add(symstr(o))
        return tuple(sorted(out, key=repr))

    def render(self, val, depth=0):
        out = []
        for o in val:
            if isinstance(o, Alloc) and o.cls is not None and depth < 3:
                out.append("%s(%s)" % (o.cls.name, ",".join(self.render(v, depth + 1) for k, v in sorted(self.fields(o).items(), key=repr))))
            elif isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "rand":
                out.append("rand(%s)" % ",".join(o.root[2]))
            elif isinstance(o, Sym):
                out.append(".".join([str(o.root)] + [str(x) for x in o.path]))
            else:
                out.append(symstr(o))
        return "|".join(sorted(out))


def kept(em):
    """parameter of the generated constructor -> attribute it is kept in"""
    v = next(iter(em.variants()))
    em.parse(v)
    init = em.func(v, "__init__")
    params = [a.arg for a in init.args.args][1:]
    out = {}
    for v in em.variants():
        em.parse(v)
        for s in em.func(v, "__init__").body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in params and isinstance(s.targets[0], ast.Attribute):
                out[s.value.id] = s.targets[0].attr
    return params, out


def one(val):
    return next(iter(val)) if len(val) == 1 else None


def items(it, val):
    """key -> value set of one dict, also through dict(other)."""
    o = one(val)
    if not isinstance(o, Alloc):
        return None, None
    d = it.fields(o)
    return o, dict((k[1], v) for k, v in d.items() if isinstance(k, tuple) and k[0] == "k")


def run(rep):
    rep.rule("private", "engines made together have their own tables of cells, pools and functions, random generators and, where not shared, their own cells and pools")
    rep.rule("shared", "a shared cell or pool is one object for all engines, the one of the shared state if that already has it, else made once and put there")
    rep.rule("initial", "each cell and pool is made from its own declaration: decoded initial value, shared and rollback flags; a fold's zero is decoded from the document's")
    rep.rule("seeded", "with a random seed in the document, every generator is derived from it and from the engine's position only, differently for each engine; without, from none")
    rep.rule("identity", "engine k is given position k, the document's configuration and functions, and an emit function of its own")
    rep.rule("ready", "each engine is checked for deadlock and initialized before it is handed out")
    p = Project()
    m = AstModel(p)
    em = EngineModel(p, m)
    params, kp = kept(em)
    base = p.cls("titus.genpy", "PFAEngine")
    mm = p.method(base, "fromAst")
    if mm is None:
        raise AnalysisBroken("PFAEngine.fromAst not found")
    f = mm[0]
    where = p.where(f, base.mod)
    names = [a.arg for a in f.args.args]
    for q in ("engineConfig", "sharedState", "multiplicity"):
        if q not in names:
            raise AnalysisBroken("PFAEngine.fromAst has no parameter %s" % q)
    for g in base.methods.values():
        a = g.args
        for q, d in list(zip((a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else [], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y]:
            rep.count("private")
            if q.arg == "sharedState" and not isinstance(d, (ast.Constant, ast.Name, ast.Attribute)):
                rep.finding("private", "sharedState", "%s makes its default shared state once for all calls" % g.name, p.where(g, base.mod))
            elif q.arg == "sharedState" and isinstance(d, ast.Name):
                r = p.lookup(base.mod, d.id)
                if isinstance(r, tuple) and r[0] == "var" and isinstance(r[1], ast.Call):
                    rep.finding("private", "sharedState", "%s makes its default shared state once for all calls" % g.name, p.where(g, base.mod))
    for method, shared, seed, given in itertools.product(("MAP", "EMIT", "FOLD"), (False, True), (False, True), ("none", "empty", "full")):
        it = Make(p, m, base, params, kp)
        it.fix = dict(method=method, shared=shared, seed=seed)
        it.made, it.rec, it.top = [], [], None
        n = ast.parse("x").body[0]
        it.st = type(it.st)()
        it.frames = [it.module_frame(base.mod)]
        kw = {"multiplicity": V(Const(NENG))}
        have = {}
        if given != "none":
            it.given = {}
            for t in ("cells", "pools"):
                a = Alloc(("given", t), "dict", None)
                d = {"keys": EMPTY}
                if given == "full":
                    d["keys"] = frozenset(Const("k%d" % k) for k in range(2))
                    for k in range(2):
                        s = Sym(("giventhing", t, k), (), None)
                        d[("k", "k%d" % k)] = V(s)
                        have[t, "k%d" % k] = s
                it.st.heap[a] = d
                it.given[t] = a
            a = Alloc(("given",), "inst", p.cls("titus.genpy", "SharedState"))
            it.st.heap[a] = dict((("a", t), V(x)) for t, x in it.given.items())
            kw["sharedState"] = V(a)
        val = it.run(Fn(f, base.mod, base, None, None), [it.selfval("EngineConfig")], kw, it.st)
        es = it.exact(val)
        if es is None or len(es) != NENG or not all(isinstance(one(x), Alloc) for x in es):
            if es is not None and len(es) != NENG and len(it.made) >= 1:
                rep.finding("identity", "number of engines", "%d engines are made for multiplicity %d" % (len(es), NENG), where)
                continue
            raise AnalysisBroken("the list of engines fromAst returns was not understood: %s" % [symstr(x) for v in (es or [val]) for x in v][:4])
        es = [one(x) for x in es]
        case = "%s, %s, %s" % (method.lower(), "shared" if shared else "private", "seed" if seed else "no seed")

        def bad(rule, what, msg):
            rep.finding(rule, what, "%s (%s)" % (msg, case), where)
        if es[0] == es[1]:
            bad("private", "engines", "the same engine is returned twice")
            continue
        fs = [it.fields(e) for e in es]

        def attr(k, name):
            return fs[k].get(("a", name), EMPTY)
        for t, cn in (("cells", "Cell"), ("pools", "Pool")):
            a, b = [items(it, attr(k, kp.get(t, t))) for k in range(2)]
            ex = [it.exactdict(attr(k, kp.get(t, t))) is not None for k in range(2)]
            if a[0] is None or b[0] is None or not all(ex) or not a[1] or not b[1]:
                if all(ex):
                    bad("initial", t, "an engine has no %s" % t)
                    continue
                raise AnalysisBroken("the %s of an engine were not understood" % t)
            rep.count("private")
            if a[0] == b[0]:
                bad("private", t, "engines have the same table of %s" % t)
            if given != "none" and it.given[t] in (a[0], b[0]) and not shared:
                bad("private", t, "private %s are put in the shared state" % t)
            for k in ("k0", "k1"):
                x, y = a[1].get(k, EMPTY), b[1].get(k, EMPTY)
                if not x or not y:
                    bad("initial", t, "a declared %s is missing from an engine" % t[:-1])
                    continue
                if shared:
                    rep.count("shared")
                    if x != y or len(x) != 1:
                        bad("shared", t, "engines do not have the same shared %s" % t[:-1])
                    elif given == "full" and one(x) != have[t, k]:
                        bad("shared", t, "a %s that the shared state already has is replaced" % t[:-1])
                    elif given == "empty":
                        now = it.fields(it.given[t]).get(("k", k), EMPTY)
                        if now != x:
                            bad("shared", t, "a new shared %s is not put in the shared state" % t[:-1])
                else:
                    rep.count("private")
                    if x & y:
                        bad("private", t, "engines have the same %s though it is not shared" % t[:-1])
                    if given == "full" and any(s in x | y for s in have.values()):
                        bad("private", t, "a %s that is not shared is taken from the shared state" % t[:-1])
                for o in (x | y):
                    if o in have.values():
                        continue
                    if not isinstance(o, Alloc) or o.cls is None or o.cls.name != cn:
                        bad("initial", t, "a %s is %s" % (t[:-1], symstr(o)[:60]))
                        continue
                    d = it.fields(o)
                    idx = "[%s]" % k[1:]
                    rep.count("initial")
                    v = one(d.get(("a", "value"), EMPTY))
                    if not (isinstance(v, Sym) and isinstance(v.root, tuple) and v.root[0] == "decoded"):
                        bad("initial", t, "the initial value is not decoded from the document")
                    else:
                        r = v.root[2]
                        txt = ",".join(r)
                        other = "%s.[%d]" % (t, 1 - int(k[1:])), "%s[%d]" % (t, 1 - int(k[1:]))
                        mine = "%s.%s" % (t, idx), "%s%s" % (t, idx)
                        if any(q in txt for q in other) or not any(q in ",".join(r[1:]) for q in mine) or not any(q in r[0] for q in mine):
                            bad("initial", t, "the initial value of %s is decoded from %s" % (k, txt[:80]))
                        elif t == "pools" and not r[0].startswith("AvroMap("):
                            bad("initial", t, "the initial value of a pool is decoded as %s" % r[0][:60])
                        elif t == "cells" and r[0].startswith("Avro"):
                            bad("initial", t, "the initial value of a cell is decoded as %s" % r[0][:60])
                    for q in ("rollback", "source"):
                        g = d.get(("a", q), EMPTY)
                        if g != V(Sym("self", (t, idx, q), None)) and [getattr(z, "path", None) for z in g] != [(t, idx, q)]:
                            bad("initial", t, "%s is %s" % (q, ",".join(symstr(z) for z in g)[:60]))
                    g = d.get(("a", "shared"), EMPTY)
                    if g != V(Const(shared)):
                        bad("initial", t, "the shared flag is %s" % ",".join(symstr(z) for z in g)[:60])
                if not shared and t == "pools":
                    rep.count("private")
                    vs = [set().union(*[it.fields(o).get(("a", "value"), EMPTY) for o in z if isinstance(o, Alloc)] or [set()]) for z in (x, y)]
                    if vs[0] & vs[1]:
                        bad("private", t, "pools of different engines have the same table of items")
        r = [attr(k, kp.get("rand", "rand")) for k in range(2)]
        rep.count("private")
        if not r[0] or not r[1]:
            bad("seeded", "rand", "an engine has no random generator")
        elif r[0] & r[1]:
            bad("private", "rand", "engines have the same random generator")
        rep.count("seeded")
        for k in range(2):
            for o in r[k]:
                if not (isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "rand"):
                    rep.note("unjudged:rand", symstr(o))
                    continue
                arg = o.root[2]
                if not seed and arg and arg != (None,):
                    bad("seeded", "rand", "without a seed the generator is made from %r" % (arg,))
                if seed and (not arg or o.root[3] != "random.Random"):
                    bad("seeded", "rand", "the seed is not used")
                if seed and arg and (SEED not in arg or any(isinstance(x, str) for x in arg)):
                    bad("seeded", "rand", "the generator is made from %r" % (arg,))
        if seed and all(len(x) == 1 for x in r):
            a, b = [one(x).root[2] if isinstance(one(x), Sym) and isinstance(one(x).root, tuple) else None for x in r]
            if a is not None and a == b and a == (SEED,):
                bad("seeded", "rand", "every engine's generator starts from the same seed")
        tab = [attr(k, "f") for k in range(2)]
        rep.count("private")
        if not tab[0] or not tab[1]:
            bad("identity", "functions", "an engine has no function table")
        elif tab[0] & tab[1]:
            bad("private", "functions", "engines have the same function table")
        if method == "EMIT":
            for k in range(2):
                rep.count("identity")
                for o in tab[k]:
                    d = it.fields(o) if isinstance(o, Alloc) else {}
                    e = d.get(("k", "emit"), EMPTY)
                    own = [it.fields(x).get(("a", "engine"), EMPTY) for x in e if isinstance(x, Alloc)]
                    if own and not any(V(es[k]) == w for w in own):
                        bad("identity", "emit", "emit of engine %d belongs to another engine" % k)
                    elif not e:
                        bad("identity", "emit", "an emit engine has no emit function")
        for k in range(2):
            rep.count("identity")
            g = attr(k, kp.get("instance", "instance"))
            if g != V(Const(k)):
                bad("identity", "instance", "engine %d has position %s" % (k, ",".join(symstr(z) for z in g)[:40]))
            g = attr(k, "config")
            if len(g) != 1 or not isinstance(one(g), Sym) or one(g).root != "self" or one(g).path:
                bad("identity", "config", "the configuration is %s" % ",".join(symstr(z) for z in g)[:40])
            if method == "FOLD":
                z = one(attr(k, kp.get("zero", "tally")))
                rep.count("initial")
                if not (isinstance(z, Sym) and isinstance(z.root, tuple) and z.root[0] == "decoded"):
                    bad("initial", "zero", "the zero is not decoded from the document")
                else:
                    a = z.root[2]
                    if len(a) < 2 or "zero" not in a[1]:
                        bad("initial", "zero", "the zero is decoded from %s" % ",".join(a)[:60])
                    elif a[0] not in ("self.output", "self.outputPlaceholder.avroType"):
                        bad("initial", "zero", "the zero is decoded as %s" % a[0][:60])
            for q in ("checkForDeadlock", "initialize"):
                rep.count("ready")
                if not any(nm == q and any(es[k] in a for a in args) for nm, args in it.rec):
                    bad("ready", q, "engine %d is handed out without %s" % (k, q))
    rep.floor("private", 100)
    rep.floor("shared", 20)
    rep.floor("initial", 40)
    rep.floor("seeded", 10)
    rep.floor("identity", 20)
    rep.floor("ready", 20)


if __name__ == "__main__":
    report.main("G06", run)
