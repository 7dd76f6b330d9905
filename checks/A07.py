import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Fn, Alloc, V, NONE, EMPTY, _Const
from sa.astmodel import AstModel
from sa.codegen import WALKARGS
from sa.forms import variants
from sa.guards import GuardInterp, FormModel
from sa.typecase import TypeClient, runs, excname
from sa.lts import show, subterms


class Versions(TypeClient):
    """Comparisons of version numbers are known."""
    signs = None        # (major, minor, release) of self against other
    pos = None          # name -> rank
    other = now = None  # name of the parameter

    def num(self, t):
        for k, n in enumerate(("major", "minor", "release")):
            if self.signs is not None and t[0] == "attr" and t[2] == n:
                if t[1] == ("param", "self"):
                    return (k, self.signs[k])
                if t[1] == ("param", self.other):
                    return (k, 0)
        if self.pos is not None:
            n = ("now" if t[1] == self.now else None) if t[0] == "param" else t[2] if t[0] == "attr" and t[1] == ("param", "self") else None
            if n in self.pos:
                return ("v", self.pos[n])
        return None

    def flat(self, t):
        if t[0] == "tuple":
            xs = [self.num(x) for x in t[1:]]
            return None if any(x is None for x in xs) else xs
        x = self.num(t)
        return None if x is None else [x]

    def scenario(self, t):
        if t[0] == "op" and t[1] in ("<", "<=", "==", "is", ">", ">=") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b == ("const", None):
                    x = self.num(a)
                    if x is not None:
                        return x[1] is None
            x, y = self.flat(t[2]), self.flat(t[3])
            if x is not None and y is not None and [a[0] for a in x] == [b[0] for b in y] and all(v[1] is not None for v in x + y):
                p, q = [a[1] for a in x], [b[1] for b in y]
                return {"<": p < q, "<=": p <= q, "==": p == q, "is": p == q, ">": p > q, ">=": p >= q}[t[1]]
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("__lt__", "__ge__", "__le__", "__gt__") and len(t[2]) == 1:
            return self.scenario(("op", {"__lt__": "<", "__ge__": ">=", "__le__": "<=", "__gt__": ">"}[t[1][2]], t[1][1], t[2][0]))
        return None

    def val(self, t):
        if t[0] == "const" and isinstance(t[1], bool):
            return t[1]
        if t[0] == "op" and t[1] == "not":
            v = self.val(t[2])
            return None if v is None else not v
        return self.scenario(t)


class Fcns(GuardInterp):
    """Functions are looked up with a given signature; lifespans answer as told."""
    now = None           # lifespan symbol rendering -> "current" | "deprecated" | "gone"
    sig = None

    def reset(self, bad=None, pins=None):
        GuardInterp.reset(self, bad, pins)
        self.warned, self.passed, self.lives, self.matched = [], [], [], []

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and o.self_ is not None and o.cls is not None and o.cls.name == "Lifespan" and o.node.name in ("current", "deprecated"):
            self.lives.append((o.node.name, self.sh(args[0] if args else kwargs.get("now", EMPTY))))
            k = self.sh(o.self_)
            if self.now and k in self.now:
                return V(Const(self.now[k] == o.node.name))
        return GuardInterp.on_call(self, node, o, args, kwargs)

    def on_load_attr(self, node, o, name):
        if name == "sig" and isinstance(o, Sym) and o.root == ("fcn",) and self.sig is not None:
            return self.sig(self, node)
        if name == "lifespan" and isinstance(o, Sym) and o.root[0] == "sig":
            return V(Sym(("life",) + o.root[1:], (), ("inst", self.proj.cls("titus.signature", "Lifespan"), "exact")))
        return GuardInterp.on_load_attr(self, node, o, name)

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual == ".deprecationWarning" and recv is not None:
            self.warned.append(tuple(self.sh(a) for a in args))
            return NONE
        if qual == ".accepts" and len(args) == 2:
            self.matched.append(self.sh(args[1]))
        return GuardInterp.on_ext(self, node, qual, recv, args, kwargs)

    def child_call(self, node, name, o, args, kwargs):
        if name == "walk" and self.isast(o):
            a = [args[k] if k < len(args) else kwargs.get(w, EMPTY) for k, w in enumerate(WALKARGS)]
            self.passed.append((o.path, [self.sh(x) for x in a]))
        return GuardInterp.child_call(self, node, name, o, args, kwargs)


def run(R):
    R.rule("order", "versions are ordered by major number, then minor, then release")
    R.rule("life", "a signature exists from its birth to its death, and is deprecated from its deprecation on")
    R.rule("choice", "a function is referred to only by the one signature of it that exists in the version asked for, and a use of a deprecated one is reported")
    R.rule("handed", "the version, options, function table and task reach every part of the document unchanged")
    p = Project()
    model = AstModel(p)
    und = []
    # ---- versions -------------------------------------------------------------------------------------------------
    vc = p.cls("titus.signature", "PFAVersion")
    mod = p.mod("titus.signature")
    for name, op in (("__lt__", lambda s: s < 0), ("__ge__", lambda s: s >= 0), ("__le__", lambda s: s <= 0), ("__gt__", lambda s: s > 0), ("__eq__", lambda s: s == 0)):
        m = p.method(vc, name)
        if m is None or not m[0].args.args[1:]:
            continue
        for signs in itertools.product((-1, 0, 1), repeat=3):
            c = Versions(p, mod, {}, {})
            c.signs, c.other = signs, m[0].args.args[1].arg
            want = op(next((s for s in signs if s), 0))
            R.count("order")
            for o, ls in runs(p, mod, m[0], c, {}, ("param", "self")):
                v = c.val(o[1]) if o[0] == "ret" else None
                if v is None:
                    und.append("%s %s: %s" % (name, signs, show(o[1])[:60]))
                elif v is not want and ("undecided",) not in ls:
                    R.finding("order", "%s, major %+d, minor %+d, release %+d" % ((name,) + signs), "gives %s" % v, p.where(m[0], mod))
    lc = p.cls("titus.signature", "Lifespan")
    for birth, dd in itertools.product((None, 2), (None, (4, 6))):
        for now in range(1, 8):
            if birth is None and dd is None and now > 1:
                continue
            pos = {"now": now, "birth": birth, "deprecation": dd and dd[0], "death": dd and dd[1]}
            cur = (birth is None or now >= birth) and (dd is None or now < dd[0])
            dep = dd is not None and dd[0] <= now < dd[1]
            for name, want in (("current", cur), ("deprecated", dep)):
                m = p.method(lc, name)
                c = Versions(p, mod, {}, {})
                c.pos, c.now = pos, m[0].args.args[1].arg
                R.count("life")
                for o, ls in runs(p, mod, m[0], c, {}, ("param", "self")):
                    v = c.val(o[1]) if o[0] == "ret" else None
                    if v is None:
                        und.append("%s %s: %s" % (name, pos, show(o[1])[:60]))
                    elif v is not want and ("undecided",) not in ls:
                        R.finding("life", "%s: born %s, deprecated %s, dead %s, now %s" % (name, birth, pos["deprecation"], pos["death"], now), "gives %s" % v, p.where(m[0], mod))
    # ---- uses of functions ------------------------------------------------------------------------------------------
    it = Fcns(p, model)
    sc, ss = p.cls("titus.signature", "Sig"), p.cls("titus.signature", "Sigs")

    def one(k):
        return V(Sym(("sig", k), (), ("inst", sc, "exact")))

    def where(cls):
        m = p.method(model.classes[cls], "walk")
        return p.where(m[0], m[1].mod)

    fcn = V(Sym(("fcn",), (), None))
    for n in ("FcnRef", "FcnRefFill"):
        for f in variants(model, n):
            for many in (False, True):
                for states in itertools.product(("current", "deprecated", "gone"), repeat=2 if many else 1):
                    it.now = dict(("life(%d)" % k, s) for k, s in enumerate(states))
                    if many:
                        it.sig = lambda me, node: V(Sym(("sigs",), (), ("inst", ss, "exact")))
                        pins = {"sigs().cases": [one(k) for k in range(2)]}
                    else:
                        it.sig = lambda me, node: one(0)
                        pins = {}
                    ends = it.form(f, lambda key: fcn if key[0] == "fcn" else None, pins)
                    live = [k for k, s in enumerate(states) if s != "gone"]
                    con = "%s: %s" % (f.name, ", ".join(states))
                    R.count("choice")
                    if not it.lives:
                        R.finding("choice", f.name, "the version is not looked at", where(n))
                        continue
                    for x in set(v for a, v in it.lives):
                        if x != "version":
                            R.finding("choice", con, "existence is asked for %s, not for the version" % x, where(n))
                    if len(live) != 1 and ends:
                        R.finding("choice", con, "a function with %d signatures in this version may be referred to" % len(live), where(n))
                    if len(live) == 1 and not ends:
                        R.finding("choice", con, "the only signature in this version is refused", where(n))
                    if len(live) == 1 and ends:
                        for w in set(it.warned):
                            if w != ("sig(%d)" % live[0], "version"):
                                R.finding("choice", con, "deprecation is looked up for %s" % ", ".join(w), where(n))
                        if not it.warned:
                            R.finding("choice", con, "the use of a deprecated function is not reported", where(n))
    it.sig = it.now = None
    res = {}
    for n in ("Call", "CallUserFcn"):
        for f in variants(model, n):
            def bad(key):
                if key[0] == "fcn":
                    return fcn
                if key[0] == "match":
                    return it.mklist(model.classes[n].node if hasattr(model.classes[n], "node") else p.method(model.classes[n], "walk")[0], "tuple",
                                     [V(Sym(("sig", 7), (), ("inst", sc, "exact"))), V(Sym(("ptypes",), (), None)), V(Sym(("rtype",), (), None))], "match")
                return None
            pins = {"<name>.retType": "AvroEnum"} if n == "CallUserFcn" else {}
            ends = it.form(f, bad, pins)
            R.count("choice")
            for x in set(it.matched):
                if x != "version":
                    R.finding("choice", f.name, "signatures are matched for %s, not for the version" % x, where(n))
            if not it.matched:
                und.append(f.name + ": no signature is matched")
            elif not it.warned and n == "Call":
                R.finding("choice", f.name, "the use of a deprecated signature is not reported", where(n))
            for w in set(it.warned):
                if w != ("sig(7)", "version"):
                    R.finding("choice", f.name, "deprecation is looked up for %s" % ", ".join(w), where(n))
    fc = p.cls("titus.fcn", "LibFcn")
    m = p.method(fc, "deprecationWarning")
    for dep in (True, False):
        class C(TypeClient):
            stop = ()

            def scenario(self, t):
                if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "deprecated":
                    return dep
                return None

            def event(self, callee, args, kws, ex):
                if callee[0] == "attr" and callee[2] in ("write", "warn") or callee == ("global", "print"):
                    return ("written",)
                return None
        rs = runs(p, m[1].mod, m[0], C(p, m[1].mod, {}, {}), {}, ("param", "self"))
        R.count("choice")
        w = [("written",) in ls for o, ls in rs]
        if dep and not all(w) or not dep and any(w):
            R.finding("choice", "deprecationWarning", "a %s signature is %sreported" % ("deprecated" if dep else "current", "not " if dep else ""), p.where(m[0], m[1].mod))
    # ---- handed down ------------------------------------------------------------------------------------------------
    it = Fcns(p, model)
    for n in sorted(model.classes):
        if n in FormModel.SKIP:
            continue
        for f in variants(model, n):
            it.form(f)
            for path, a in it.passed:
                R.count("handed")
                for k, w in enumerate(WALKARGS):
                    if w != "symbolTable" and a[k] != w and not (w == "functionTable" and n in ("EngineConfig",)):
                        R.finding("handed", "%s: %s" % (n, ".".join(map(str, path))), "the part is walked with %s in place of the %s" % (a[k][:60], w), where(n))
    R.note("not judged", sorted(set(und))[:20])
    R.floor("order", 40)
    R.floor("life", 30)
    R.floor("choice", 20)
    R.floor("handed", 80)


if __name__ == "__main__":
    report.main("A07", run)
