import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Fn, Alloc, V, NONE, EMPTY, State, _Const
from sa.astmodel import AstModel
from sa.forms import variants
from sa.guards import GuardInterp, FormModel

NULL = r"AvroNull\(\)"
OWN = r"self\.\w+\.avroType"


def ret(path):
    return r"<%s>\.retType" % re.escape(path)


def val(path, field):
    return r"(%s\.%s|call:%s\{%s\})" % (path, field, field, path)


# class -> type of the value, for every combination of optional parts
PLAIN = {"DoUntil": NULL, "While": NULL, "For": NULL, "Foreach": NULL, "Forkeyval": NULL, "Let": NULL, "SetVar": NULL, "Log": NULL, "Doc": NULL,
         "PoolDel": NULL, "Error": r"ExceptionType\(\)", "Pack": r"AvroBytes\(\)", "Literal": OWN, "LiteralNull": NULL,
         "LiteralBoolean": r"AvroBoolean\(\)", "LiteralInt": r"AvroInt\(\)", "LiteralLong": r"AvroLong\(\)", "LiteralFloat": r"AvroFloat\(\)",
         "LiteralDouble": r"AvroDouble\(\)", "LiteralString": r"AvroString\(\)", "LiteralBase64": r"AvroBytes\(\)", "NewArray": OWN, "NewObject": OWN,
         "Upcast": OWN, "Ref": r"get\(self\.name\)", "AttrTo": ret("expr"), "CellTo": r"cell\(self\.cell\)\.avroType", "PoolTo": r"pool\(self\.pool\)\.avroType",
         "CastCase": ret("body.[1]")}
# class -> types of its branches; without the else clause the type is null
BRANCHES = {"If": ("thenClause.[1]", "elseClause.[1]"), "Cond": ("ifthens.[0].thenClause.[1]", "ifthens.[1].thenClause.[1]", "elseClause.[1]"),
            "IfNotNull": ("thenClause.[1]", "elseClause.[1]"), "Unpack": ("thenClause.[1]", "elseClause.[1]"), "CastBlock": ("castCases.[0]", "castCases.[1]")}
ROOTS = {"AttrGet": "<expr>.retType", "AttrTo": "<expr>.retType", "CellGet": "cell(self.cell).avroType", "CellTo": "cell(self.cell).avroType",
         "PoolGet": "pool(self.pool).avroType", "PoolTo": "pool(self.pool).avroType"}
FIELD = {"AvroArray": ("items", "AvroInt"), "AvroMap": ("values", "AvroString")}


class Sigs(GuardInterp):
    """titus.signature itself is opened; the types stay opaque."""
    opaque_mods = frozenset(["titus.datatype", "titus.fcn", "titus.errors", "titus.options", "titus.version"])

    def ask(self, key, default):
        """Whether a type of one known kind takes one of another kind is no question."""
        if key[0] == "accepts":
            ks = [set(o.kind[1].name for o in v if isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst") for v in (frozenset([key[1]]) if not isinstance(key[1], frozenset) else key[1], key[2])]
            if all(len(k) == 1 for k in ks):
                a, b = [next(iter(k)) for k in ks]
                if a in NUM and b in NUM:
                    return V(Const(NUM.index(b) <= NUM.index(a)))
                if a != b and a in ALL and b in ALL:
                    return V(Const(False))
                if a == b and a in LEAF:
                    return V(Const(True))
        return GuardInterp.ask(self, key, default)

    def on_call(self, node, o, args, kwargs):
        """The common type of the parts is a question of its own; here it is known by the list it is asked about."""
        if isinstance(o, Fn) and o.node is self.top:
            if args or kwargs:
                return V(Sym(("common", self.sh(args[0] if args else list(kwargs.values())[0])), (), None))
        return GuardInterp.on_call(self, node, o, args, kwargs)


def run(R):
    R.rule("result", "the type the walk of each form finds is the type of the value the form gives: null, its own declared type, its operand's, or the type at the end of the path")
    R.rule("branches", "a form with branches has the common type of all its branches, null without a last branch (or when partial), and null when every branch ends in an error")
    R.rule("path", "reading and replacing along a path step from arrays to items, from maps to values, and end at the same type")
    R.rule("common", "the common type of a list of types, interpreted for every pair of kinds of types: the type itself, the broader number, containers of the common type, else a union of all of them; never something that is no type")
    p = Project()
    model = AstModel(p)
    it = GuardInterp(p, model)

    def where(cls):
        m = p.method(model.classes[cls], "walk")
        return p.where(m[0], m[1].mod)

    def results(f, pins):
        """Renderings of the result type over all normal ends."""
        out = set()
        for node, st, v in it.form(f, None, pins):
            it.st = st
            for t in v:
                c = it.fields(t).get(("i", 0), EMPTY) if isinstance(t, Alloc) and t.typ == "tuple" else V(t)
                for o in c:
                    r = it.fields(o).get(("a", "retType")) if isinstance(o, Alloc) else None
                    if r is None:
                        return None
                    for x in r:
                        out.add(it.sh(V(x)))
        return out

    for n, N in itertools.product(sorted(model.classes), (2, 1, 3)):
        if n in FormModel.SKIP:
            continue
        it.nchild = N
        several = " with %d of each" % N if N != 2 else ""

        def last(text):
            return text.replace("[1]", "[%d]" % (N - 1))
        for f in variants(model, n):
            f.name += several
            if n in PLAIN:
                pins = {"self.avroPlaceholder.avroType": {"NewArray": "AvroArray", "NewObject": "AvroMap"}[n]} if n in ("NewArray", "NewObject") else {}
                if n == "Let":
                    pins = dict(("<values.[%d]>.retType" % k, "AvroInt") for k in range(N))
                got = results(f, pins)
                if not got:
                    R.note("form " + f.name, "no result type found, not judged")
                    continue
                R.count("result")
                for g in sorted(got):
                    if not re.fullmatch(ret("body.[%d]" % (N - 1)) if n == "CastCase" else PLAIN[n], g):
                        R.finding("result", f.name, "the type found is %s" % g[:90], where(n))
            if n == "Do":
                R.count("result")
                for t, want in (("AvroInt", ret(last("body.[1]"))), ("ExceptionType", NULL)):
                    for g in sorted(results(f, {last("<body.[1]>.retType"): t}) or ()):
                        if not re.fullmatch(want, g):
                            R.finding("result", f.name, "the type found is %s when the last expression is %s" % (g[:90], t), where(n))
            if n == "Try":
                R.count("result")
                L = ret(last("exprs.[1]"))
                for t, want in (("AvroInt", r"AvroUnion\(\[(%s, %s|%s, %s)\]\)" % (L, NULL, NULL, L)), ("ExceptionType", NULL),
                                ("AvroUnion", r"(?=.*(%s|AvroNull)).*%s.*" % (L, L))):
                    for g in sorted(results(f, {last("<exprs.[1]>.retType"): t}) or ()):
                        if not re.fullmatch(want, g):
                            R.finding("result", f.name, "the type found is %s when the last expression is %s" % (g[:90], t), where(n))
            if n in BRANCHES:
                opt = ("elseClause",) in f.inst
                if opt and not f.inst[("elseClause",)]:
                    R.count("branches")
                    for g in sorted(results(f, {}) or ()):
                        if not re.fullmatch(NULL, g):
                            R.finding("branches", f.name, "without an else clause the type found is %s" % g[:90], where(n))
                    continue
                if n == "Cond":
                    bs = tuple(last("ifthens.[%d].thenClause.[1]" % 0).replace("[0]", "[%d]" % k, 1) for k in range(N)) + (last("elseClause.[1]"),)
                elif n == "CastBlock":
                    bs = tuple("castCases.[%d]" % k for k in range(N))
                else:
                    bs = tuple(last(b) for b in BRANCHES[n])
                base = {"self.partial": V(Const(False)), "<expr>.retType": "AvroInt"} if n == "CastBlock" else {"<bytes>.retType": "AvroBytes"} if n == "Unpack" else {}
                kinds = dict(("<%s>.retType" % b, "AvroInt") for b in bs)
                for odd in (None,) + bs:
                    R.count("branches")
                    pins = dict(base, **kinds)
                    if odd:
                        pins["<%s>.retType" % odd] = "AvroNull"
                    for g in sorted(results(f, pins) or ()):
                        miss = [b for b in bs if "<%s>.retType" % b not in g]
                        if miss:
                            R.finding("branches", f.name, "the type found, %s, does not take %s into account" % (g[:90], miss[0]), where(n))
                R.count("branches")
                for g in sorted(results(f, dict(base, **dict((k, "ExceptionType") for k in kinds))) or ()):
                    if not re.fullmatch(NULL, g):
                        R.finding("branches", f.name + ": all errors", "when every branch ends in an error the type found is %s" % g[:90], where(n))
                if n == "CastBlock":
                    R.count("branches")
                    for g in sorted(results(f, dict(base, **{"self.partial": V(Const(True))})) or ()):
                        if not re.fullmatch(NULL, g):
                            R.finding("branches", f.name + ": partial", "a partial cast has type %s" % g[:90], where(n))
            if N == 2 and n in ROOTS and f.inst.get(("to",), "Expression") == "Expression":
                root = ROOTS[n]
                for a, b in itertools.product(FIELD, FIELD):
                    if n.startswith("Pool"):
                        mid, pins = root, {root: b, "<path.[0]>.retType": "AvroString"}
                    else:
                        mid = root + "." + FIELD[a][0]
                        pins = {root: a, mid: b, "<path.[0]>.retType": FIELD[a][1]}
                    pins["<path.[1]>.retType"] = FIELD[b][1]
                    want = val(re.escape(mid), FIELD[b][0])
                    R.count("path")
                    what = "%s: %s of %s" % (f.name, a[4:].lower() if not n.startswith("Pool") else "pool", b[4:].lower())
                    if n.endswith("Get"):
                        got = results(f, pins)
                    else:
                        it.form(f, None, pins)
                        got = set(it.sh(k[1]) for k in it.asked if k[0] == "accepts" and it.sh(k[2]) == "<to>.retType")
                    if not got:
                        R.finding("path", what, "a path that fits is refused, or the new value's type is not looked at", where(n))
                    for g in sorted(got or ()):
                        if not re.fullmatch(want, g):
                            R.finding("path", what, "ends at type %s" % g[:90], where(n))
    R.floor("result", 25)
    R.floor("branches", 10)
    R.floor("path", 16)
    common(R, p, model)


# ---- the common type ----------------------------------------------------------------------------------------------------
NUM = ("AvroInt", "AvroLong", "AvroFloat", "AvroDouble")
LEAF = ("AvroNull", "AvroBoolean", "AvroBytes", "AvroString")
NAMED = ("AvroFixed", "AvroEnum", "AvroRecord")
ALL = LEAF + NUM + NAMED + ("AvroArray", "AvroMap", "FcnType", "ExceptionType")


def common(R, p, model):
    it = Sigs(p, model)
    ci = p.cls("titus.signature", "LabelData")
    m = p.method(ci, "broadestType")
    if m is None:
        R.note("common type", "LabelData.broadestType not found, not judged")
        return
    where = p.where(m[0], m[1].mod)
    n = m[0]

    def outcomes(kinds):
        """(renderings of results, classes raised)"""
        it.reset(None, {})
        it.scopes = {}
        it.top, it.rets = n, []
        it.steps = 0
        syms = [V(Sym(("t", k), (), ("inst", p.cls("titus.datatype", c), "exact"))) for k, c in enumerate(kinds)]
        st = it.st = State()
        it.frames = [it.module_frame(m[1].mod)]
        arg = it.mklist(n, "list", syms, "types")
        it.run(Fn(n, m[1].mod, m[1], None, None), [arg], None, it.st)
        out = set()
        for node, v, s in it.rets:
            it.st = s
            for o in v:
                out.add(it.sh(V(o)))
        return out, set(it.raised)

    lists = [k for k in itertools.product(ALL, repeat=2)] + [("AvroInt", "AvroDouble", "AvroLong"), ("AvroNull", "AvroInt", "AvroString"),
             ("ExceptionType", "AvroInt", "AvroLong"), ("AvroInt", "ExceptionType", "ExceptionType"), ("AvroNull", "AvroNull", "AvroBoolean"), ("AvroInt", "AvroNull", "AvroLong"),
             ("AvroDouble", "AvroNull", "AvroInt"), ("AvroNull", "AvroFloat", "AvroLong", "AvroString"), ("AvroFixed", "AvroString", "AvroEnum"), ("AvroArray", "AvroMap", "AvroRecord")] + [(k,) for k in ALL]
    unjudged = 0
    for kinds in lists:
        got, raised = outcomes(kinds)
        R.count("common")
        name = " and ".join(k.replace("Avro", "").replace("Type", "").lower() for k in kinds)
        real = [(i, k) for i, k in enumerate(kinds) if k != "ExceptionType"]
        T = ["t(%d)" % i for i, k in real]
        ks = set(k for i, k in real)
        if not real:
            for g in sorted(got):
                R.finding("common", name, "gives %s" % g[:90], where)
            continue
        if len(ks) == 1 and ks <= set(LEAF):
            want, part = "|".join(re.escape(t) for t in T) + r"|%s\(\)" % kinds[real[0][0]], False
        elif ks <= set(NUM):
            big = NUM[max(NUM.index(k) for k in ks)]
            want, part = r"%s\(\)" % big + "|" + "|".join(re.escape("t(%d)" % i) for i, k in real if k == big), False
        elif len(ks) == 1 and ks <= set(NAMED):
            want, part = "|".join(re.escape(t) for t in T), True
        elif ks in ({"AvroArray"}, {"AvroMap"}):
            f = "items" if "AvroArray" in ks else "values"
            want, part = None, False
            for g in sorted(got):
                if not re.fullmatch(r"%s\(.*common\(.*\).*\)" % list(ks)[0], g) or not all(re.search(re.escape(t) + r"[.]%s\b|call:%s\{%s\}" % (f, f, re.escape(t)), g) for t in T):
                    R.finding("common", name, "gives %s, not the %s of the common type of the %s" % (g[:90], list(ks)[0][4:].lower(), f), where)
        elif ks == {"FcnType"}:
            want, part = "|".join(re.escape(t) for t in T), True
        elif "FcnType" in ks:
            for g in sorted(got):
                R.finding("common", name, "gives %s for a function and a value" % g[:90], where)
            continue
        else:
            want, part = None, False
            for g in sorted(got):
                if not g.startswith("AvroUnion("):
                    R.finding("common", name, "gives %s" % g[:90], where)
                    continue
                big = max([NUM.index(k) for i, k in real if k in NUM] or [0])
                for k in ks:
                    ts = ["t(%d)" % i for i, k2 in real if k2 == k]
                    there = [t for t in ts if re.search(re.escape(t) + r"(?![.\w])", g)] + ([k] if k in LEAF + NUM and k + "()" in g else [])
                    if k in NUM and NUM.index(k) < big:
                        if there and "|" not in g:
                            R.finding("common", name, "gives %s, with %s next to a broader number" % (g[:90], k[4:].lower()), where)
                    elif not there:
                        R.finding("common", name, "gives %s, without %s" % (g[:90], k[4:].lower()), where)
        if want is not None:
            for g in sorted(got):
                if not re.fullmatch(want, g):
                    R.finding("common", name, "gives %s" % g[:90], where)
        if not got and not part:
            R.finding("common", name, "has no common type", where)
    R.floor("common", 150)


if __name__ == "__main__":
    report.main("A06", run)
