import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.lts import show
from sa.typecase import TypeClient, runs, excname

M = "titus.datatype"
C = lambda x: ("const", x)


NULL = ("null",)          # the default null

class U(object):
    """A universe of example types; each is a term with a class and attributes."""

    def __init__(self):
        self.cls, self.attrs, self.kind, self.order = {}, {}, {}, []

    def new(self, tag, cls, kind, **attrs):
        t = ("type", tag)
        self.cls[t], self.attrs[t], self.kind[t] = cls, attrs, kind
        self.order.append(t)
        return t

    def fields(self, t, fs):
        out = []
        for i, (n, ty, d) in enumerate(fs):
            f = ("field", t[1], n)
            self.cls[f] = "AvroField"
            v = C(None if d is NULL else d)
            self.attrs[f] = {"name": C(n), "avroType": ty, "default": v, "hasDefault": C(d is not None), "order": C("ascending"), "schema": f + ("schema",)}
            self.cls[f + ("schema",)] = "AvroField"
            self.attrs[f + ("schema",)] = {"has_default": C(d is not None), "default": v, "name": C(n)}
            out.append(f)
        self.attrs[t]["fields"] = ("tuple",) + tuple(out)
        self.kind[t] = ("record", self.attrs[t]["fullName"][1], fs)


def universe():
    u = U()
    P = {}
    for n in ("null", "boolean", "int", "long", "float", "double", "string", "bytes"):
        P[n] = u.new(n, "Avro" + n.capitalize(), (n,), name=C(n), fullName=C(n))
    for n, s in (("F", 4), ("F", 8), ("G", 4)):
        u.new("fixed %s(%d)" % (n, s), "AvroFixed", ("fixed", n, s), name=C(n), fullName=C(n), size=C(s))
    u.new("fixed ns.F(4)", "AvroFixed", ("fixed", "ns.F", 4), name=C("F"), fullName=C("ns.F"), size=C(4))
    for n, ss in (("E", "ab"), ("E", "a"), ("E", "ac"), ("H", "ab")):
        u.new("enum %s{%s}" % (n, ",".join(ss)), "AvroEnum", ("enum", n, tuple(ss)), name=C(n), fullName=C(n),
              symbols=("tuple",) + tuple(C(x) for x in ss))
    u.new("enum ns.E{a,b}", "AvroEnum", ("enum", "ns.E", ("a", "b")), name=C("E"), fullName=C("ns.E"), symbols=("tuple", C("a"), C("b")))
    un = {}
    for tag, ms in (("int null", ("int", "null")), ("null int", ("null", "int")), ("long null", ("long", "null")),
                    ("int string", ("int", "string")), ("null int string", ("null", "int", "string")), ("string double", ("string", "double"))):
        un[tag] = u.new("union[%s]" % tag, "AvroUnion", ("union", [P[m] for m in ms]), name=C("union"), types=("tuple",) + tuple(P[m] for m in ms))
    for it in ("int", "long", "string"):
        u.new("array(%s)" % it, "AvroArray", ("array", P[it]), name=C("array"), items=P[it])
        u.new("map(%s)" % it, "AvroMap", ("map", P[it]), name=C("map"), values=P[it])
    for it in ("int null", "long null"):
        u.new("array(union[%s])" % it, "AvroArray", ("array", un[it]), name=C("array"), items=un[it])

    def rec(tag, n, fs):
        t = u.new("record " + tag, "AvroRecord", None, name=C(n.split(".")[-1]), fullName=C(n))
        u.fields(t, [(a, b, d) for a, b, d in fs])
        return t
    rec("R{x int}", "R", [("x", P["int"], None)])
    rec("R{x long}", "R", [("x", P["long"], None)])
    rec("R{x string}", "R", [("x", P["string"], None)])
    rec("R{x int, y int}", "R", [("x", P["int"], None), ("y", P["int"], None)])
    rec("R{y int, x int}", "R", [("y", P["int"], None), ("x", P["int"], None)])
    rec("R{x int, y int = 0}", "R", [("x", P["int"], None), ("y", P["int"], 0)])
    rec("R{x int, y string = ''}", "R", [("x", P["int"], None), ("y", P["string"], "")])
    rec("R{x int, y union[int null] = null}", "R", [("x", P["int"], None), ("y", un["int null"], NULL)])
    rec("R{y int = 0, x int}", "R", [("y", P["int"], 0), ("x", P["int"], None)])
    rec("R{y int, x string}", "R", [("y", P["int"], None), ("x", P["string"], None)])
    rec("S{x int}", "S", [("x", P["int"], None)])
    rec("ns.R{x int}", "ns.R", [("x", P["int"], None)])
    a = rec("Q{r R{x int}}", "Q", [("r", ("type", "record R{x int}"), None)])
    b = rec("Q{r R{x long}}", "Q", [("r", ("type", "record R{x long}"), None)])
    for tag, val in (("int", "int"), ("string", "string")):
        t = rec("T{v %s, next T?}" % tag, "T", [])
        nx = u.new("union[null T %s]" % tag, "AvroUnion", ("union", [P["null"], t]), name=C("union"), types=("tuple", P["null"], t))
        u.fields(t, [("v", P[val], None), ("next", nx, None)])
    u.new("exception", "ExceptionType", ("exception",))
    for p, r in (("int", "int"), ("long", "int"), ("int", "long"), ("string", "int")):
        u.new("fcn(%s)->%s" % (p, r), "FcnType", ("fcn", [P[p]], P[r]), params=("tuple", P[p]), ret=P[r])
    u.new("fcn(int,int)->int", "FcnType", ("fcn", [P["int"], P["int"]], P["int"]), params=("tuple", P["int"], P["int"]), ret=P["int"])
    return u


NUM = ("int", "long", "float", "double")


def due(u, a, b, seen=()):
    """The relation: may a value of type b be used where a is expected?"""
    if (a, b) in seen:
        return True
    x, y = u.kind[a], u.kind[b]
    seen = seen + ((a, b),)
    if x[0] == "exception" or y[0] == "exception":
        return x[0] == y[0]
    if x[0] == "fcn" or y[0] == "fcn":
        return x[0] == y[0] and len(x[1]) == len(y[1]) and all(due(u, q, p, seen) for p, q in zip(x[1], y[1])) and due(u, x[2], y[2], seen)
    if y[0] == "union":
        return all(due(u, a, t, seen) for t in y[1])
    if x[0] == "union":
        return any(due(u, t, b, seen) for t in x[1])
    if x[0] in NUM and y[0] in NUM:
        return NUM.index(y[0]) <= NUM.index(x[0])
    if x[0] != y[0]:
        return False
    if x[0] in ("array", "map"):
        return due(u, x[1], y[1], seen)
    if x[0] == "fixed":
        return x == y
    if x[0] == "enum":
        return x[1] == y[1] and set(y[2]) <= set(x[2])
    if x[0] == "record":
        if x[1] != y[1]:
            return False
        them = dict((n, t) for n, t, d in y[2])
        return all(due(u, t, them[n], seen) if n in them else d is not None for n, t, d in x[2])
    return True


class Acc(TypeClient):
    def __init__(self, proj, mod, u, solve):
        TypeClient.__init__(self, proj, mod, u.cls, {})
        self.u, self.solve = u, solve
        self.missing = set()
        self.calls = set()

    def attr_value(self, obj, name, ex):
        if obj in self.u.attrs:
            v = self.u.attrs[obj].get(name)
            if v is None and not self.has(self.u.cls[obj], name):
                self.missing.add((obj, name))
            return v
        return None

    def has(self, cls, name):
        r = self.proj.lookup(self.mod, cls)
        for k in self.proj.mro(r[1]):
            if name in k.methods:
                return True
            for n in k.node.body:
                pass
        import ast
        for k in self.proj.mro(r[1]):
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return True
        return name.startswith("__")

    def method(self, cls, name):
        r = self.proj.lookup(self.mod, cls)
        for k in self.proj.mro(r[1]):
            if name in k.methods:
                f = k.methods[name]
                return f, k
        return None

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "attr" and callee[1] in self.u.cls and callee[2] != "accepts":
            r = self.method(self.u.cls[callee[1]], callee[2])
            if r is not None:
                f, k = r
                return (f if not isinstance(f, tuple) else f[0], self.mod, callee[1])
        return None

    def value(self, t):
        """Truth of a term built from accepts calls and sets of constants, else None."""
        if t[0] == "const":
            return bool(t[1])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "accepts" and t[1][1] in self.u.cls and t[2] and t[2][0] in self.u.cls:
            self.calls.add((t[1][1], t[2][0]))
            return self.solve(t[1][1], t[2][0])
        if t[:2] == ("op", "not"):
            v = self.value(t[2])
            return None if v is None else not v
        if t[0] == "call" and t[1] in (("global", "all"), ("global", "any")) and len(t[2]) == 1 and t[2][0][0] == "tuple":
            vs = [self.value(x) for x in t[2][0][1:]]
            if None in vs:
                return None
            return all(vs) if t[1][1] == "all" else any(vs)
        if t[0] == "call" and t[1] == ("global", "bool") and len(t[2]) == 1:
            return self.value(t[2][0])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("issubset", "issuperset") and len(t[2]) == 1:
            a, b = self.setof(t[1][1]), self.setof(t[2][0])
            if a is None or b is None:
                return None
            return a <= b if t[1][2] == "issubset" else a >= b
        if t[0] == "op" and t[1] in ("<=", "<", "==") and len(t) == 4:
            a, b = self.setof(t[2]), self.setof(t[3])
            if a is not None and b is not None:
                return a <= b if t[1] == "<=" else a < b if t[1] == "<" else a == b
            a, b = self.seq(t[2]), self.seq(t[3])
            if t[1] == "==" and a is not None and b is not None:
                return a == b
            a, b = self.num(t[2]), self.num(t[3])
            if a is not None and b is not None:
                return a <= b if t[1] == "<=" else a < b if t[1] == "<" else a == b
            if t[1] == "==" and t[2] in self.u.cls and t[3] in self.u.cls and self.u.cls[t[2]] != "AvroField":
                return self.u.kind[t[2]] == self.u.kind[t[3]] if t[2] != t[3] else True
            if t[1] == "==" and t[2][0] == "tuple" and t[3][0] == "tuple":
                return t[2] == t[3]
        if t[0] == "op" and t[1] == "in" and len(t) == 4:
            s = self.setof(t[3])
            if s is not None and t[2][0] == "const":
                return t[2][1] in s
        if t[0] == "op" and t[1] == "nonempty":
            s = self.setof(t[2])
            return None if s is None else bool(s)
        return None

    def num(self, t):
        if t[0] == "const" and isinstance(t[1], (int, str)):
            return t[1]
        if t[0] == "call" and t[1] == ("global", "len") and t[2][0][0] == "tuple":
            return len(t[2][0]) - 1
        if t[0] == "call" and t[1] == ("global", "len") and len(t[2]) == 1:
            x = self.seq(t[2][0]) if t[2][0][0] in ("item", "tuple") or t[2][0][0] == "call" and t[2][0][1] in (("global", "list"), ("global", "tuple")) else self.setof(t[2][0])
            return None if x is None else len(x)
        return None

    def setof(self, t):
        if t[0] == "call" and t[1][0] == "global" and t[1][1] in ("set", "frozenset"):
            if not t[2]:
                return set()
            return self.setof(t[2][0]) if t[2][0] != ("const", None) else None
        if t[:2] == ("op", "Sub") and len(t) == 4:
            a, b = self.setof(t[2]), self.setof(t[3])
            return None if a is None or b is None else a - b
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "difference" and len(t[2]) == 1:
            a, b = self.setof(t[1][1]), self.setof(t[2][0])
            return None if a is None or b is None else a - b
        for op, m in (("BitOr", "union"), ("BitAnd", "intersection"), ("BitXor", "symmetric_difference")):
            if t[:2] == ("op", op) and len(t) == 4 or t[0] == "call" and t[1][0] == "attr" and t[1][2] == m and len(t[2]) == 1:
                a, b = [self.setof(x) for x in (t[2:] if t[0] == "op" else (t[1][1], t[2][0]))]
                return None if a is None or b is None else getattr(a, m)(b)
        x = self.seq(t)
        return None if x is None else set(x)

    def seq(self, t):
        """A list of constants, or None."""
        if t[0] == "tuple" and all(x[0] == "const" for x in t[1:]):
            return [x[1] for x in t[1:]]
        if t[0] == "call" and t[1] in (("global", "list"), ("global", "tuple")) and len(t[2]) == 1:
            return self.seq(t[2][0])
        if t[0] == "call" and t[1] == ("global", "sorted") and len(t[2]) == 1:
            x = self.setof(t[2][0])
            return None if x is None else sorted(x)
        if t[0] == "item" and t[2][:2] == ("op", "slice"):
            x = self.seq(t[1])
            i = [None if y == ("const", None) else self.num(y) for y in t[2][2:5]]
            if x is None or any(v is None and y != ("const", None) for v, y in zip(i, t[2][2:5])) or any(isinstance(v, str) for v in i):
                return None
            return x[slice(*i)]
        return None

    def scenario(self, t):
        return self.value(t)

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "accepts":
            return ("acc", callee[1], tuple(args), tuple(sorted(kws.items(), key=str)))
        if callee[0] == "attr" and callee[2] == "add" and len(args) == 1:
            return ("add", callee[1], args[0])
        return None


def run(R):
    R.rule("matrix", "accepts decides exactly: equal simple types; int to long to float to double; containers by their items; "
           "fixed and enums by full name and size or symbols; records by full name and fields with defaults; unions by their members")
    R.rule("reads", "deciding reads only what the types have")
    R.rule("ends", "a record met again inside itself is not opened again")
    R.floor("matrix", 900)
    R.floor("reads", 900)
    R.floor("ends", 4)
    proj = Project()
    m = proj.mod(M)
    u = universe()
    memo, busy, und = {}, set(), set()
    base = Acc(proj, m, u, None)

    def solve(a, b):
        """True, False or None (not decided)."""
        if (a, b) in memo:
            return memo[(a, b)]
        if (a, b) in busy:
            return True
        busy.add((a, b))
        r = base.method(u.cls[a], "accepts")
        if r is None:
            raise AnalysisBroken("%s has no accepts" % u.cls[a])
        fn = r[0][0] if isinstance(r[0], tuple) else r[0]
        c = Acc(proj, m, u, solve)
        pars = [x.arg for x in fn.args.args]
        outs = set()
        # the first call leaves the other parameters at their defaults
        args = {pars[1]: b}
        nd = len(fn.args.defaults)
        for p, d in zip(pars[len(pars) - nd:], fn.args.defaults):
            args[p] = C(d.value) if hasattr(d, "value") else ("top",)
        for o, ls in runs(proj, m, fn, c, args, selfterm=a):
            if o[0] == "raise":
                outs.add("raises %s" % excname(o[1]))
            else:
                v = c.value(o[1])
                v = c.decide(o[1], None) if v is None else v
                outs.add(v if v is not None else "?" + show(o[1])[:60])
            if u.cls[a] == "AvroRecord" and u.cls[b] == "AvroRecord":
                for l in ls:
                    if l[0] == "acc" and len(l[2]) >= 3:
                        R.count("ends")
                        chk, mm = l[2][2], l[2][1]
                        if chk == C(False) or any(k[0] == "add" and k[1] == mm for k in ls):
                            continue
                        R.finding("ends", "fields of a record", "fields are compared without remembering the record: a recursive type is compared forever",
                                  "titus/datatype.py:%d" % fn.lineno)
        busy.discard((a, b))
        for x in sorted(c.missing, key=str):
            R.finding("reads", "%s.accepts of %s" % (u.cls[a], u.cls[b]), "%s has no %s" % (u.cls[x[0]], x[1]), "titus/datatype.py:%d" % fn.lineno)
        R.count("reads")
        res = None
        if outs == {True} or outs == {False}:
            res = outs.pop()
        else:
            bad = [o for o in outs if isinstance(o, str) and o.startswith("raises")]
            for o in bad:
                R.finding("matrix", "%s.accepts of %s" % (u.cls[a], u.cls[b]), "%s where %s is used for %s" % (o, b[1], a[1]), "titus/datatype.py:%d" % fn.lineno)
            und.add("%s for %s: %s" % (b[1], a[1], sorted(map(str, outs))))
        if not busy:
            memo[(a, b)] = res
        return res

    for a in u.order:
        for b in u.order:
            R.count("matrix")
            v = solve(a, b)
            if v is None:
                continue
            if v != due(u, a, b):
                R.finding("matrix", "%s for %s" % (b[1], a[1]), "a %s is %s where a %s is expected" % (
                    b[1], "accepted" if v else "refused", a[1]), "titus/datatype.py")
    R.note("types", [t[1] for t in u.order])
    R.note("pairs not decided", sorted(und)[:40])
    R.note("number of pairs not decided", len(und))
    if len(und) > len(u.order) ** 2 // 2:
        raise AnalysisBroken("%d of %d pairs are not decided" % (len(und), len(u.order) ** 2))


if __name__ == "__main__":
    report.main("D01", run)
