import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Alloc, V, NONE, EMPTY, _Const
from sa.astmodel import AstModel
from sa.reading import DocInterp

# class: {key: (parameter, kind)}, {optional key: (parameter, kind, default)}
FORMS = [
    ("LiteralInt", {"int": ("value", "int32")}, {}),
    ("LiteralLong", {"long": ("value", "int64")}, {}),
    ("LiteralFloat", {"float": ("value", "float")}, {}),
    ("LiteralDouble", {"double": ("value", "float")}, {}),
    ("LiteralString", {"string": ("value", "str")}, {}),
    ("LiteralBase64", {"base64": ("value", "base64")}, {}),
    ("Literal", {"type": ("avroPlaceholder", "type"), "value": ("value", "json")}, {}),
    ("NewObject", {"new": ("fields", "exprmap"), "type": ("avroPlaceholder", "type")}, {}),
    ("NewArray", {"new": ("items", "exprs"), "type": ("avroPlaceholder", "type")}, {}),
    ("Do", {"do": ("body", "body")}, {}),
    ("Let", {"let": ("values", "exprmap")}, {}),
    ("SetVar", {"set": ("values", "exprmap")}, {}),
    ("AttrGet", {"attr": ("expr", "expr"), "path": ("path", "exprs")}, {}),
    ("AttrTo", {"attr": ("expr", "expr"), "path": ("path", "exprs"), "to": ("to", "arg")}, {}),
    ("CellGet", {"cell": ("cell", "str")}, {"path": ("path", "exprs", [])}),
    ("CellTo", {"cell": ("cell", "str"), "to": ("to", "arg")}, {"path": ("path", "exprs", [])}),
    ("PoolGet", {"pool": ("pool", "str"), "path": ("path", "exprs")}, {}),
    ("PoolTo", {"pool": ("pool", "str"), "path": ("path", "exprs"), "to": ("to", "arg"), "init": ("init", "expr")}, {}),
    ("PoolDel", {"pool": ("pool", "str"), "del": ("dell", "expr")}, {}),
    ("If", {"if": ("predicate", "expr"), "then": ("thenClause", "body")}, {"else": ("elseClause", "body", None)}),
    ("Cond", {"cond": ("ifthens", "ifs")}, {"else": ("elseClause", "body", None)}),
    ("While", {"while": ("predicate", "expr"), "do": ("body", "body")}, {}),
    ("DoUntil", {"do": ("body", "body"), "until": ("predicate", "expr")}, {}),
    ("For", {"for": ("init", "exprmap"), "while": ("predicate", "expr"), "step": ("step", "exprmap"), "do": ("body", "body")}, {}),
    ("Foreach", {"foreach": ("name", "name"), "in": ("array", "expr"), "do": ("body", "body")}, {"seq": ("seq", "bool", True)}),
    ("Forkeyval", {"forkey": ("forkey", "name"), "forval": ("forval", "name"), "in": ("map", "expr"), "do": ("body", "body")}, {}),
    ("CastBlock", {"cast": ("expr", "expr"), "cases": ("castCases", "cases")}, {"partial": ("partial", "bool", False)}),
    ("Upcast", {"upcast": ("expr", "expr"), "as": ("avroPlaceholder", "type")}, {}),
    ("IfNotNull", {"ifnotnull": ("exprs", "exprmap"), "then": ("thenClause", "body")}, {"else": ("elseClause", "body", None)}),
    ("Pack", {"pack": ("exprs", "exprpairs")}, {}),
    ("Unpack", {"unpack": ("bytes", "expr"), "format": ("format", "strpairs"), "then": ("thenClause", "body")}, {"else": ("elseClause", "body", None)}),
    ("Doc", {"doc": ("comment", "str")}, {}),
    ("Error", {"error": ("message", "str")}, {"code": ("code", "code", None)}),
    ("Try", {"try": ("exprs", "body")}, {"filter": ("filter", "codes", None)}),
    ("Log", {"log": ("exprs", "body")}, {"namespace": ("namespace", "str", None)}),
    ("FcnDef", {"params": ("paramsPlaceholder", "params"), "ret": ("retPlaceholder", "type"), "do": ("body", "body")}, {}),
    ("FcnRef", {"fcn": ("name", "fname")}, {}),
    ("FcnRefFill", {"fcn": ("name", "fname"), "fill": ("fill", "argmap")}, {}),
    ("CallUserFcn", {"call": ("name", "expr"), "args": ("args", "exprs")}, {}),
    ("Call", {"some.function": (None, "args")}, {}),
]
FCNDEF = ("FcnDef", {"params": ("paramsPlaceholder", "params"), "ret": ("retPlaceholder", "type"), "do": ("body", "body")}, {})
CASE = ("CastCase", {"as": ("avroPlaceholder", "type"), "named": ("named", "name"), "do": ("body", "body")}, {})
CELL = ("Cell", {"type": ("avroPlaceholder", "type"), "init": ("init", "json")}, {"shared": ("shared", "bool", False), "rollback": ("rollback", "bool", False), "source": ("source", "source", "embedded")})
POOL = ("Pool", {"type": ("avroPlaceholder", "type")}, {"init": ("init", "jsonmap", {}), "shared": ("shared", "bool", False), "rollback": ("rollback", "bool", False), "source": ("source", "source", "embedded")})
_TOP = ({"input": ("inputPlaceholder", "type"), "output": ("outputPlaceholder", "type"), "action": ("action", "body")},
        {"name": ("name", "str", Ellipsis), "method": ("method", "method", "map"), "begin": ("begin", "body", []), "end": ("end", "body", []), "fcns": ("fcns", "fcns", {}),
         "cells": ("cells", "cells", {}), "pools": ("pools", "pools", {}), "randseed": ("randseed", "int64", None),
         "doc": ("doc", "str", None), "version": ("version", "int32", None), "metadata": ("metadata", "strmap", {}), "options": ("options", "jsonmap2", {})})
TOP = [("EngineConfig",) + _TOP,
       ("EngineConfig", dict(_TOP[0], method=("method", "fold"), zero=("zero", "json"), merge=("merge", "body")), dict((k, v) for k, v in _TOP[1].items() if k != "method"))]

FAR = ({"type": ("avroPlaceholder", "type"), "init": (None, "str"), "source": ("source", "outside")}, {"shared": ("shared", "bool", False), "rollback": ("rollback", "bool", False)})
BITS = {"int32": 31, "int64": 63, "code": 31}
SURE = tuple(BITS) + ("bool",)


class Reader(object):
    def __init__(self, R):
        self.R = R
        self.p = Project()
        self.model = AstModel(self.p)
        self.it = DocInterp(self.p, self.model)
        self.mod = self.p.mod("titus.reader")
        self.und = []

    def value(self, key, kind):
        """[(JSON description, expected canonical value)]"""
        J, it = self.it.J, self.it

        def rd(k, *n):
            return ("read", k) + n
        if kind in ("expr", "arg", "type"):
            return [(J(kind, key), rd(kind, key))]
        if kind == "name":
            return [("x", ("const", "x"))]
        if kind == "fname":
            return [("u.f", ("const", "u.f"))]
        if kind in BITS:
            return [(J(kind, key), ("json", key))] + [(n, ("const", n)) for n in (-2 ** BITS[kind], 2 ** BITS[kind] - 1 if kind != "code" else -1) + ((0,) if kind != "code" else ())]
        if kind == "bool":
            return [(J(kind, key), ("json", key)), (False, ("const", False))]
        if kind in ("str", "float"):
            return [(J(kind, key), ("json", key))]
        if kind == "source":
            return [("embedded", ("const", "embedded"))]
        if kind == "outside":
            return [(m, ("const", m)) for m in ("json", "avro")]
        if kind == "method":
            return [(m, ("const", m)) for m in ("map", "emit")]
        if kind == "fold":
            return [("fold", ("const", "fold"))]
        if kind == "json":
            return [(J("any", key), ("dumps", ("json", key)))]
        many = {"body": "expr", "exprs": "expr", "ifs": "if", "cases": "case", "args": "arg"}
        if kind in many:
            k = many[kind]
            out = [([J(k, key, i) for i in range(2)], ("seq",) + tuple(rd(k, key, i) for i in range(2)))]
            if kind in ("body", "args"):
                out.append((J(k, key), ("seq", rd(k, key))))
            return out
        maps = {"exprmap": "expr", "argmap": "arg", "fcns": "fcndef", "cells": "cell", "pools": "pool"}
        if kind in maps:
            k = maps[kind]
            ns = ("one", "two")
            out = [(dict((n, J(k, key, n)) for n in ns), ("dict",) + tuple((n, rd(k, key, n)) for n in ns))]
            out.append((dict([("@", "here")] + [(n, J(k, key, n)) for n in ns]), out[0][1]))
            return out
        if kind in ("strmap", "jsonmap", "jsonmap2"):
            ns = ("one", "two")
            w = (lambda n: ("dumps", ("json", key, n))) if kind == "jsonmap" else lambda n: ("json", key, n)
            return [(dict((n, J("str" if kind == "strmap" else "any", key, n)) for n in ns), ("dict",) + tuple((n, w(n)) for n in ns))]
        if kind in ("exprpairs", "strpairs"):
            ns = ("one", "two")
            w = (lambda n: rd("expr", key, n)) if kind == "exprpairs" else lambda n: ("const", "format " + n)
            return [([{n: J("expr", key, n) if kind == "exprpairs" else "format " + n} for n in ns], ("seq",) + tuple(("seq", ("const", n), w(n)) for n in ns))]
        if kind == "params":
            return [([{n: J("type", key, n)} for n in ("a", "b")], ("seq",) + tuple(("dict", (n, rd("type", key, n))) for n in ("a", "b")))]
        if kind == "codes":
            return [([J("str", key, 0), J("int", key, 1)], ("seq", ("json", key, 0), ("json", key, 1)))]
        if kind == "base64":
            return [(J("str", key), None)]
        raise KeyError(kind)

    def wrong(self, key, kind):
        """JSON that is no value of this kind."""
        J = self.it.J
        s, i, b, d, e = J("str", key), J("int", key), J("bool", key), J("dict", key), J("float", key)
        ex = lambda n: J("expr", key, n)
        if kind == "name" or kind == "fname":
            return [i, "9x"]
        if kind in ("str", "base64"):
            return [i, b, [s]]
        if kind in ("source", "method", "fold"):
            return [i, "zzz"]
        if kind in BITS:
            return [s, b, e, True, 2 ** BITS[kind], -2 ** BITS[kind] - 1]
        if kind == "float":
            return [s, b, [e]]
        if kind == "bool":
            return [s, i, [b]]
        if kind == "exprs":
            return [s, {"a": ex(0)}]
        if kind in ("ifs", "cases"):
            return [s, {"a": ex(0)}] + ([[J("lit", key, 0), J("if", key, 1)]] if kind == "ifs" else [])
        if kind in ("exprmap", "argmap", "strmap", "jsonmap", "jsonmap2"):
            return [s, [ex(0)]] + ([{"a": i}] if kind == "strmap" else [])
        if kind in ("fcns", "cells", "pools"):
            k = {"fcns": "fcndef", "cells": "cell", "pools": "pool"}[kind]
            return [s, [J(k, key, 0)], {"9x": J(k, key, 0)}, {"one": J(k, key, 0), "9x": J(k, key, 1)}]
        if kind in ("exprpairs", "strpairs", "params"):
            one = {"exprpairs": ex(0), "strpairs": J("str", key, 0), "params": J("type", key, 0)}[kind]
            return [s, {"a": one}, [{"a": one, "b": one}], [{"x": one}, {}], [s]] + ([[{"a": i}]] if kind == "strpairs" else [[{"9x": one}]] if kind == "params" else [])
        if kind == "codes":
            return [s, [e], [b], [s, [s]]]
        return []

    def fn(self, name):
        return self.p.func("titus.reader", name)

    def read(self, entry, data, key):
        it = self.it
        fn = self.fn(entry)
        args = [lambda me, n: me.pinned(n, data, ("json", key))]
        for a in fn.args.args[1:]:
            args.append(V(Const("dot")) if a.arg != "avroTypeBuilder" else V(Sym("builder", (), None)))
        pins = {"READ(if,cond,0).elseClause": None, "READ(if,cond,1).elseClause": None, "READ(if,cond,0).thenClause": [it.READ("expr", "then")], "READ(if,cond,1).thenClause": [it.READ("expr", "then")]}
        return it.call_in(fn, self.mod, args, pins), fn

    def params(self, cls):
        return [a.arg for a in self.model.classes[cls].methods["__init__"].args.args[1:]]

    # ---- judging ------------------------------------------------------------------------------------------------
    def judge(self, rule, con, cls, want, ends, fn, at=None):
        R, it = self.R, self.it
        R.count(rule)
        where = self.p.where(fn, self.mod)
        if not ends:
            R.finding(rule, con, "is not read as %s, but refused" % cls, where)
        for v, s in ends:
            it.st = s
            for o in v:
                got = it.canon(V(o))
                if got[0] != cls:
                    if got[0] in self.model.classes:
                        R.finding(rule, con, "is read as %s, not %s" % (got[0], cls), where)
                    else:
                        self.und.append("%s: %s" % (con, str(got)[:100]))
                    continue
                f = dict((k, x) for k, x in got[1:])
                if at is not None:
                    g = f.get("('a', 'pos')")
                    R.count("position")
                    if g is None or g[0] != "const":
                        self.und.append("%s: position is %s" % (con, str(g)[:100]))
                    elif not isinstance(g[1], str) or at not in g[1]:
                        R.finding("position", con, "has the position %r, not %r" % (g[1], at), where)
                for param, w in sorted(want.items()):
                    g = f.get("('a', %r)" % param)
                    if w is None or g == w:
                        continue
                    if g is None or undecided(g):
                        self.und.append("%s: %s is %s" % (con, param, str(g)[:100]))
                    else:
                        R.finding(rule, con, "%s is %s, not %s" % (param, shown(g), shown(w)), where)

    def table(self, forms, entry, refuse=True):
        R = self.R
        fn = self.fn(entry)
        legal = {}
        for cls, req, opt in forms:
            for n in range(len(opt) + 1) if len(opt) < 5 else (0, 1, len(opt)):
                for have in itertools.combinations(sorted(opt), n):
                    spec = dict((k, v[:2]) for k, v in req.items())
                    spec.update((k, opt[k][:2]) for k in have)
                    legal.setdefault(frozenset(spec), []).append((cls, spec, dict((opt[k][0], opt[k][2]) for k in opt if k not in have)))
        # every form, with each kind of value
        for keys, alts in sorted(legal.items(), key=lambda x: sorted(x[0])):
            for cls, spec, defaults in alts:
                vals = dict((k, self.value(k, kind)) for k, (param, kind) in spec.items())
                combos = [dict((k, 0) for k in spec)]
                for k in spec:
                    combos += [dict(combos[0], **{k: i}) for i in range(1, len(vals[k]))]
                combos.append(None)
                for combo in combos:
                    data = dict((k, vals[k][combo[k] if combo else 0][0]) for k in spec)
                    sure = dict((k, vals[k][1 if spec[k][1] in SURE else 0][0]) for k in spec)
                    if combo is None:
                        data["@"] = "here"
                    want = dict((param, vals[k][combo[k] if combo else 0][1]) for k, (param, kind) in spec.items() if param is not None)
                    for param, d in defaults.items():
                        want[param] = None if d is Ellipsis else ("seq",) if d == [] else ("dict",) if d == {} else ("const", d)
                    if cls == "Call":
                        want = {"name": ("const", sorted(spec)[0]), "args": vals[sorted(spec)[0]][combo[sorted(spec)[0]] if combo else 0][1]}
                    con = "%s{%s}%s" % ("" if forms is not FORMS and cls == "FcnDef" else cls + " ", ", ".join(sorted(spec)), "" if combo == combos[0] else " with position" if combo is None else ", " + ", ".join("%s: %s" % (k, describe(data[k])) for k in sorted(spec) if combo[k]))
                    ends, f = self.read(entry, data, con)
                    self.judge("read", con, cls, want, ends, f, "here" if combo is None else "dot" if cls != "EngineConfig" else None)
                    if combo is combos[0]:
                        for k, (param, kind) in sorted(spec.items()):
                            for w in self.wrong(k, kind):
                                if k == "new" and not isinstance(w, frozenset):
                                    continue
                                R.count("invalid")
                                c2 = "%s, %s: %s" % (con, k, spelled(w))
                                ends, f = self.read(entry, dict(sure, **{k: w}), c2)
                                if ends and self.it.narrowed:
                                    self.und.append("%s: line %d is undecided" % (c2, self.it.narrowed[0].lineno))
                                    continue
                                for v, s in ends:
                                    self.it.st = s
                                    R.finding("invalid", c2, "is read as %s" % "|".join(sorted(set(str(self.it.canon(V(x))[0]) for x in v))), self.p.where(f, self.mod))
        if not refuse:
            return
        # everything else
        words = sorted(set(k for keys in legal for k in keys))
        kinds = {}
        for cls, req, opt in forms:
            for k, v in list(req.items()) + list(opt.items()):
                kinds.setdefault(k, v[1])
        tried = set()
        for keys, alts in sorted(legal.items(), key=lambda x: sorted(x[0])):
            others = [keys - {k} for k in keys] + [keys | {k} for k in words + ["unknown"]]
            for o in others:
                if o in tried or any(set(req) <= o <= set(req) | set(opt) for cls, req, opt in forms) or "some.function" in o and len(o) > 1 and "unknown" in o:
                    continue
                tried.add(o)
                data = dict((k, self.value(k, kinds.get(k, "args"))[1 if kinds.get(k) in SURE else 0][0]) for k in o)
                con = "{%s}" % ", ".join(sorted(o))
                ends, f = self.read(entry, data, con)
                R.count("refused")
                if len(o) == 1 and next(iter(o)) == "unknown" and forms is FORMS:
                    continue
                if ends and self.it.narrowed:
                    self.und.append("%s: line %d is undecided" % (con, self.it.narrowed[0].lineno))
                    continue
                for v, s in ends:
                    self.it.st = s
                    R.finding("refused", con, "is read as %s" % "|".join(sorted(set(self.it.canon(V(x))[0] for x in v))), self.p.where(f, self.mod))

    def scalars(self):
        """JSON that is no object."""
        R, it = self.R, self.it
        pos = ("('a', 'pos')", ("const", "dot"))

        def lit(cls, v):
            return (cls, pos, ("('a', 'value')", ("const", v)))
        cases = [(None, ("LiteralNull", pos)), (True, lit("LiteralBoolean", True)), (False, lit("LiteralBoolean", False)), (1.5, lit("LiteralDouble", 1.5)),
                 (["abc"], lit("LiteralString", "abc")), (["9x"], lit("LiteralString", "9x")), ("abc", ("Ref", ("('a', 'name')", ("const", "abc")), pos))]
        for n in (0, 1, -1, -2 ** 31, 2 ** 31 - 1):
            cases.append((n, lit("LiteralInt", n)))
        for n in (-2 ** 31 - 1, 2 ** 31, -2 ** 63, 2 ** 63 - 1):
            cases.append((n, lit("LiteralLong", n)))
        for x in (-2 ** 63 - 1, 2 ** 63, "9x", [], ["a", "b"], [1], [None], [["a"]]):
            cases.append((x, None))
        for x, want in cases:
            con = "the value %r" % (x,)
            ends, f = self.read("_readArgument", x, con)
            R.count("scalar")
            where = self.p.where(f, self.mod)
            got = []
            for v, s in ends:
                it.st = s
                got += [it.canon(V(o)) for o in v]
            if want is None and got:
                R.finding("scalar", con, "is read as %s, not refused" % shown(got[0]), where)
            elif want is not None and not got:
                R.finding("scalar", con, "is refused, not read as %s" % want[0], where)
            for g in got:
                if want is not None and repr(g) != repr(want):
                    if undecided(g):
                        self.und.append("%s: %s" % (con, str(g)[:100]))
                    else:
                        R.finding("scalar", con, "is read as %s, not %s" % (shown(g), shown(want)), where)


def spelled(w):
    if isinstance(w, frozenset):
        return "a %s" % next(iter(w)).root[1]
    if isinstance(w, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, spelled(v)) for k, v in sorted(w.items()))
    if isinstance(w, list):
        return "[%s]" % ", ".join(spelled(v) for v in w)
    return repr(w)


def undecided(g):
    return isinstance(g, tuple) and (g[:1] and g[0] in ("other", "any", "some") or any(undecided(x) for x in g))


def shown(g):
    return str(g)[:80]


def describe(d):
    return "a single one" if isinstance(d, frozenset) else "with position" if isinstance(d, dict) and "@" in d else repr(d) if isinstance(d, str) else "otherwise"


def run(R):
    R.rule("read", "a JSON object with the keys of a form is read as that form, every part from its key, missing parts as documented")
    R.rule("refused", "an object that lacks a key or has one too many is refused, not read as something else")
    R.rule("invalid", "a part of the wrong JSON type, an impossible name or a number out of range is refused")
    R.rule("position", "the form carries the position recorded in the document, or its path when there is none")
    R.rule("scalar", "null, booleans, numbers, strings and [string] are read as the literals or references they stand for")
    r = Reader(R)
    r.scalars()
    r.table(FORMS, "_readArgument")
    r.table([FCNDEF], "_readFcnDef")
    r.table([CASE], "_readCastCase")
    r.table([CELL], "_readCell")
    r.table([POOL], "_readPool")
    r.table([("Cell",) + FAR], "_readCell", False)
    r.table([("Pool",) + FAR], "_readPool", False)
    r.table(TOP, "_readEngineConfig")
    R.note("not judged", sorted(set(r.und))[:30])
    R.floor("read", 200)
    R.floor("refused", 1000)
    R.floor("invalid", 200)
    R.floor("position", 100)
    R.floor("scalar", 20)


if __name__ == "__main__":
    report.main("R01", run)
