import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.lts import Client, Explorer, subterms, show

SELF = ("self",)
DEEP = 8            # chains of scopes explored; longer ones are not told apart


KEYS = (("key", ("param", "nameExpr")), ("elem", ("param", "nameExpr")), ("param", "symbol"))


def chain(t):
    """self, self.parent, self.parent.parent ... -> number of steps, or None."""
    n = 0
    while isinstance(t, tuple) and t[0] == "attr" and t[2] == "parent":
        t, n = t[1], n + 1
    return n if t == SELF and n <= DEEP else None


def scopeat(n):
    t = SELF
    for _ in range(n):
        t = ("attr", t, "parent")
    return t


def symbols(t):
    """Depth of the scope whose own table this term is."""
    return chain(t[1]) if isinstance(t, tuple) and t[0] == "attr" and t[2] == "symbols" else None


def has(facts, key, n):
    """Is it known whether scope n holds the key?"""
    for f, v in facts:
        if f == ("op", "in", key, ("attr", scopeat(n), "symbols")):
            return v
    return None


def noparent(facts, n):
    for f, v in facts:
        if f == ("op", "is", ("attr", scopeat(n), "parent"), ("const", None)):
            return v
        if f == ("attr", scopeat(n), "parent"):
            return not v
    return None


class Scope(Client):
    def __init__(self, rep, what, where):
        self.rep, self.what, self.where = rep, what, where
        self.cls = None

    def inline(self, fn, mod):
        return False

    def bad(self, msg, *a):
        self.rep.finding(self.what, "DynamicScope." + self.what, msg % a, self.where)

    def nearest(self, key, n, facts, verb):
        """Binding in scope n is right only when the key is in n and in no nearer scope."""
        for k in range(n):
            if has(facts, key, k) is not False:
                self.bad("%s in an outer scope without knowing that the nearer scope lacks the variable", verb)
        if n is not None and has(facts, key, n) is not True:
            self.bad("%s in a scope without knowing that it holds the variable", verb)

    def iter_event(self, src, ex):
        return ("each",)

    def setattr_event(self, obj, name, val, ex):
        self.bad("rebinds attribute %s", name)
        return ("other",)

    def delitem_event(self, obj, idx, ex):
        return ("other",)

    def raises(self, callee, args, ex):
        return False


class Get(Scope):
    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "get" and chain(callee[1]):
            n = chain(callee[1])
            if args != (("param", "symbol"),):
                self.bad("asks an outer scope for something else")
            for k in range(n):
                if has(ex.facts, ("param", "symbol"), k) is not False:
                    self.bad("asks the outer scope although the nearer one may hold the variable")
        return None

    def ret_event(self, t, ex):
        key = ("param", "symbol")
        if t[0] == "item" and symbols(t[1]) is not None and t[2] == key:
            self.nearest(key, symbols(t[1]), ex.facts, "reads the variable")
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and chain(t[1][1]):
            pass
        elif any(x == ("top",) or x == scopeat(DEEP) for x in subterms(t)):
            pass
        else:
            self.bad("yields %s", show(t))
        return ("ret",)

    def raise_event(self, t, ex):
        key = ("param", "symbol")
        if noparent(ex.facts, DEEP + 1) is not None or any(has(ex.facts, key, DEEP + 1) is not None for key in KEYS) or any(f == ("top",) for f, v in ex.facts):
            return ("raise",)
        ns = [k for k in range(9) if noparent(ex.facts, k) is True]
        if not ns or any(has(ex.facts, key, k) is not False for k in range(min(ns) + 1)):
            self.bad("fails although a scope may hold the variable")
        return ("raise",)


def pair(k, v, src):
    """Is (k, v) one entry of the mapping?"""
    return k == ("elem", src) and v == ("item", src, k) or k == ("key", src) and v in (("elem", ("call", ("attr", src, "values"), ())), ("item", src, k))


class Bind(Scope):
    PAR = None

    def one(self, k, v):
        if not pair(k, v, self.PAR):
            self.bad("binds %s to %s", show(k), show(v))

    def ret_event(self, t, ex):
        return ("ret",)


class Let(Bind):
    def setitem_event(self, obj, idx, val, ex):
        if symbols(obj) != 0:
            self.bad("creates the variable in another scope")
        self.one(idx, val)
        return ("bind",)

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "update" and symbols(callee[1]) == 0 and args == (self.PAR,):
            return ("all",)
        if callee[0] == "attr" and chain(callee[1]) is not None and callee[2] in ("set", "let"):
            self.bad("hands the variable to another scope")
        return None

    def raise_event(self, t, ex):
        self.bad("fails")
        return ("raise",)


class Set(Bind):
    def setitem_event(self, obj, idx, val, ex):
        n = symbols(obj)
        if n is None:
            if not any(x == ("top",) or x == scopeat(DEEP) for x in subterms(obj)):
                self.bad("assigns in %s", show(obj))
            return ("bind",)
        self.nearest(idx, n, ex.facts, "assigns the variable")
        self.one(idx, val)
        return ("bind",)

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] in ("set", "let") and chain(callee[1]):
            n = chain(callee[1])
            if callee[2] == "let":
                self.bad("creates a variable instead of assigning it")
            a = args[0] if args else ("top",)
            if a[:2] == ("op", "dict") and len(a) == 4:
                self.one(a[2], a[3])
                for k in range(n):
                    if has(ex.facts, a[2], k) is not False:
                        self.bad("assigns in an outer scope although the nearer one may hold the variable")
            else:
                self.bad("hands all the variables to the outer scope instead of the one it lacks")
            return ("bind",)
        return None

    def raise_event(self, t, ex):
        if noparent(ex.facts, DEEP + 1) is not None or any(has(ex.facts, key, DEEP + 1) is not None for key in KEYS) or any(f == ("top",) for f, v in ex.facts):
            return ("raise",)
        ns = [k for k in range(9) if noparent(ex.facts, k) is True]
        if not ns or not any(all(has(ex.facts, key, k) is False for k in range(min(ns) + 1)) for key in (("key", self.PAR), ("elem", self.PAR))):
            self.bad("fails although a scope may hold the variable")
        return ("raise",)


def checkwords(auto, cl, rep):
    """(each bind)* ret | ... each raise | all ret"""
    # states of the specification: 0 between entries, 1 inside an entry, 2 all bound
    start = auto.closure([auto.start])
    seen, work = {(start, 0)}, [(start, 0)]
    while work:
        ns, q = work.pop()
        for l in auto.labels(ns):
            if l == ("each",):
                q2 = 1 if q == 0 else None
                msg = "one of several variables is not bound"
            elif l == ("bind",):
                q2 = 0 if q == 1 else None
                msg = "a variable is bound more than once"
            elif l == ("all",):
                q2 = 2
                msg = ""
            elif l == ("raise",):
                q2 = 3
                msg = ""
            elif l == ("ret",):
                q2 = 3 if q in (0, 2) else None
                msg = "returns before every variable is bound"
            else:
                q2, msg = q, ""
            if q2 is None:
                cl.bad(msg)
                return
            nx = auto.step(ns, l)
            if nx and (nx, q2) not in seen:
                seen.add((nx, q2))
                work.append((nx, q2))


class CallFcn(Client):
    def __init__(self, rep, where):
        self.rep, self.where = rep, where
        self.lets = False

    def bad(self, msg):
        self.rep.finding("callback", "callfcn", msg, self.where)

    def labelled(self, ex):
        for f, v in ex.facts:
            if f[0] == "call" and f[1] == ("global", "hasattr") and f[2][:1] == (("param", "fcn"),):
                return v
            if f[:2] == ("op", "is") and f[3] == ("const", None) and "paramNames" in repr(f[2]):
                return not v
        return None

    def isargs(self, t):
        """The parameter names paired with the arguments."""
        names = ("attr", ("param", "fcn"), "paramNames")
        return t[0] == "call" and t[1] == ("global", "dict") and any(x[0] == "call" and x[1] == ("global", "zip") and x[2] == (names, ("param", "args"))
                                                                    for x in subterms(t) if isinstance(x, tuple) and x) or \
            t == ("param", "args") or t[:2] == ("op", "comp") or t[:2] == ("op", "dict")

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "let":
            sc = callee[1]
            if not (sc[0] == "new" and sc[1][1].endswith("DynamicScope") and sc[2] == (("param", "scope"),)):
                self.bad("parameters are bound in a scope that is not a new one of the caller's")
            if not self.isargs(args[0]):
                self.bad("parameters are bound to something other than the arguments")
            return ("let",)
        if callee == ("param", "fcn"):
            lab = self.labelled(ex)
            if args[:1] != (("param", "state"),):
                self.bad("the function gets another execution state")
            if lab is True:
                ok = len(args) == 2 and args[1][0] == "new" and args[1][1][1].endswith("DynamicScope")
                if not ok:
                    self.bad("a user function is not called with its own scope")
                return ("ucall",)
            if lab is False:
                rest = [a for a in args[2:4] if a[0] == "const" and a[1] is None or a[0] in ("call", "attr", "param", "top")]
                if len(args) < 5 or len(rest) < 2 or not any(x == ("param", "args") for x in subterms(args[-1])):
                    self.bad("a library function is not called with state, scope, position, types and the arguments")
                return ("lcall",)
            self.bad("the kind of function is not known")
        return None

    def ret_event(self, t, ex):
        if not (t[0] == "call" and t[1] == ("param", "fcn")):
            self.bad("yields something other than the function's result")
        return ("ret",)


def run(rep):
    rep.rule("get", "reading a variable yields the value in the nearest scope that holds it and fails only when none does")
    rep.rule("let", "let binds every given variable in the scope itself and in no other")
    rep.rule("set", "set assigns each given variable, one by one, in the nearest scope that holds it and fails only when none does")
    rep.rule("callback", "a user function called back by a library function gets its arguments by name in a new scope, a library function gets them in order; the result is passed on")
    p = Project()
    ci = p.cls("titus.util", "DynamicScope")
    for name, C in (("get", Get), ("let", Let), ("set", Set)):
        mm = p.method(ci, name)
        if mm is None:
            raise AnalysisBroken("DynamicScope.%s not found" % name)
        fn, owner = mm
        c = C(rep, name, p.where(fn, owner.mod))
        ps = [a.arg for a in fn.args.args]
        args = {ps[1]: ("param", "symbol")} if name == "get" else {ps[1]: ("param", "nameExpr")}
        c.PAR = ("param", "nameExpr")
        a = Explorer(p, c).explore(fn, owner.mod, args, SELF)
        rep.count(name, sum(len(v) for v in a.edges.values()))
        if name != "get":
            checkwords(a, c, rep)
    fn, mod = p.func("titus.util", "callfcn"), p.mod("titus.util")
    c = CallFcn(rep, p.where(fn, mod))
    a = Explorer(p, c).explore(fn, mod, dict(zip([x.arg for x in fn.args.args], [("param", x) for x in ("state", "scope", "fcn", "args")])))
    rep.count("callback", sum(len(v) for v in a.edges.values()))
    kinds = set(l[0] for es in a.edges.values() for l, b in es if l)
    for k, w in (("ucall", "user functions"), ("lcall", "library functions"), ("let", "parameters")):
        if k not in kinds:
            c.bad("%s are not handled" % w)
    rep.floor("get", 5)
    rep.floor("let", 4)
    rep.floor("set", 8)
    rep.floor("callback", 5)


if __name__ == "__main__":
    report.main("G07", run)
