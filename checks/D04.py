import ast
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Fn, Alloc, V, NONE, EMPTY, State, Unreach, _Const
from sa.astmodel import AstModel
from sa.guards import GuardInterp

SAME = {"Null": "AvroNull", "Boolean": "AvroBoolean", "Int": "AvroInt", "Long": "AvroLong", "Float": "AvroFloat", "Double": "AvroDouble",
        "Bytes": "AvroBytes", "String": "AvroString", "Array": "AvroArray", "Map": "AvroMap", "Union": "AvroUnion", "Fixed": "AvroFixed",
        "Enum": "AvroEnum", "Record": "AvroRecord", "Fcn": "FcnType", "WildRecord": "AvroRecord", "WildEnum": "AvroEnum",
        "WildFixed": "AvroFixed", "EnumFields": "AvroEnum"}
NUM = ("Int", "Long", "Float", "Double")
LEAF = ("Null", "Boolean", "Bytes", "String") + NUM
PATS = tuple(SAME) + ("Wildcard",)
TYPES = tuple(sorted(set(SAME.values()) - {"FcnType"})) + ("FcnType", "ExceptionType")
WILD = ("Wildcard", "WildRecord", "WildEnum", "WildFixed", "EnumFields")


class SigInterp(GuardInterp):
    """titus.signature is opened; patterns and types are symbols of a known class whose parts are given."""
    opaque_mods = frozenset(["titus.datatype", "titus.fcn", "titus.errors", "titus.options", "titus.version", "titus.P"])
    oracle = None        # key -> bool
    result = None        # for other functions intercepted: name -> value

    def reset(self, bad=None, pins=None):
        GuardInterp.reset(self, bad, pins)
        self.queries, self.adds = [], []

    def mk(self, tag, mod, cls, *extra):
        return V(Sym((tag,) + extra, (), ("inst", self.proj.cls(mod, cls), "exact")))

    def pat(self, cls, *extra):
        return self.mk("p", "titus.P", cls, *extra)

    def typ(self, cls, *extra):
        return self.mk("a", "titus.datatype", cls, *extra)

    def on_load_attr(self, node, o, name):
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] in ("p", "a") and (o.kind is not None and o.kind[0] == "inst" or o.path):
            t = self.sh(V(o)) + "." + name
            if t in self.pins:
                return self.pinned(node, self.pins[t], ("pin", t))
            return V(Sym(o.root, o.path + (name,), None))
        return GuardInterp.on_load_attr(self, node, o, name)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and getattr(o.node, "name", None) and o.mod.name in ("titus.signature", "titus.P"):
            n = o.node.name
            names = [p.arg for p in o.node.args.args]
            if o.self_ is not None or (names and names[0] == "self"):
                names = names[1:]
            a = list(args) + [kwargs[x] for x in names[len(args):] if x in kwargs]
            if n == "check" and len(a) == 5:
                k = tuple(self.sh(x) for x in (a[0], a[1], a[3], a[4]))
                self.queries.append(k)
                rs = set(self.oracle((self.sh(V(x)), self.sh(V(y))) + k[2:]) if self.oracle else None for x in a[0] for y in a[1])
                return frozenset(Const(r) for r in rs) if rs and None not in rs else self.res("check")
            if n == "add" and o.self_ is not None and o.cls is not None and o.cls.name == "LabelData":
                self.adds.append(self.sh(a[0]))
            if n in ("assign", "assignRet") and a:
                return V(Sym((n,) + tuple(self.sh(x) for x in a[:-1]), (), None))
            if n == "mustBeAvro" and len(a) == 1:
                return a[0]
            if self.result and n in self.result:
                self.queries.append((n,) + tuple(self.sh(x) for x in a))
                return self.result[n]
        return GuardInterp.on_call(self, node, o, args, kwargs)

    def go(self, ci, name, args, pins=None, self_=None, oracle=None, bad=None):
        """Renderings of what the method may return."""
        self.reset(bad, pins)
        self.oracle = oracle
        m = self.proj.method(ci, name)
        self.top, self.rets, self.steps = m[0], [], 0
        self.scopes = {}
        st = self.st = State()
        self.frames = [self.module_frame(m[1].mod)]
        args = [a(self, m[0]) if callable(a) else a for a in args]
        self.run(Fn(m[0], m[1].mod, m[1], None, V(Sym("self", (), ("inst", ci)))), args, None, self.st)
        out = set()
        for node, v, s in self.rets:
            self.st = s
            for o in v:
                out.add(o.v if isinstance(o, _Const) else self.sh(V(o)))
        return out


def run(R):
    R.rule("leaf", "an argument of simple type matches the pattern of the same type or a wider number; in function parameters a narrower one; nothing but the same where strict")
    R.rule("parts", "a container matches when its parts do: items and values with the same strictness, record fields (all of them) and union members strictly, a function's parameters in reverse, as many as the pattern has")
    R.rule("other", "a pattern matches no argument of another kind, and nothing an expression that only ends in an error")
    R.rule("label", "a wildcard takes the types it allows, and each argument it takes counts for its label")
    R.rule("assign", "a matched parameter has the type of its pattern with labels replaced by what was decided for them, and so has the return value")
    R.rule("accepts", "a signature applies only when it has as many parameters as there are arguments, all match, and its labels can be decided; of several the first that applies is taken")
    p = Project()
    it = SigInterp(p, AstModel(p))
    ci = p.cls("titus.signature", "Sig")
    und = []

    def where(name, c=ci):
        m = p.method(c, name)
        return p.where(m[0], m[1].mod)

    def check(P, T, strict, rev, pins=None, oracle=None):
        def labels(self, n):
            return self.pinned(n, {}, ("labels",))
        seen = [x for x in ((pins or {}).pop("seen", None), "R" if P == "EnumFields" else None) if x]     # the record of an enum of fields has been seen
        if seen:
            def labels(self, n):
                return self.pinned(n, dict((x, V(Sym(("ld", x), (), ("inst", p.cls("titus.signature", "LabelData"), "exact")))) for x in seen), ("labels",))
        b = {"p.label": "L", "p.wildRecord": "R", "p.fullName": None, "p.size": 4, "a.size": 4, "p.oneOf": None,
             "p.symbols": ["x", "y"], "a.symbols": ["x", "y"], "a.fullName": "n.s.Name", "a.name": "Name"}
        if P in ("Record", "WildRecord") and T == "AvroRecord":
            b["a.fields"] = [it.typ("AvroField", "f0"), it.typ("AvroField", "f1")]
            b["a(f0).name"], b["a(f1).name"] = "x", "y"
            b["p.fields"] = {"x": it.pat("Int", "x"), "y": it.pat("Int", "y")}
            b["p.minimalFields"] = {"y": it.pat("Int", "y")}
        if P == "Fcn" and T == "FcnType":
            b["p.params"] = [it.pat("Int", "p0"), it.pat("Int", "p1")]
            b["a.params"] = [it.typ("AvroInt", "a0"), it.typ("AvroInt", "a1")]
        if P == "Union":
            b["p.types"] = [it.pat("Int", "t0"), it.pat("Null", "t1")]
        if T == "AvroUnion":
            b["a.types"] = [it.typ("AvroInt", "u0"), it.typ("AvroNull", "u1")]
        b.update(pins or {})
        b = dict((re.sub(r"^(p|a)\.", r"\1().", k), v) for k, v in b.items())
        return it.go(ci, "check", [it.pat(P), it.typ(T), labels, V(Const(strict)), V(Const(rev))], b, None, oracle)

    def judge(rule, con, got, want, why):
        R.count(rule)
        if not got <= {True, False}:
            und.append("%s: %s" % (con, sorted(map(str, got))[:2]))
            if (not want) in got:
                return
            return
        if got == {not want}:
            R.finding(rule, con, ("is refused, %s" if want else "is accepted, %s") % why, where("check"))
        elif got != {want}:
            und.append("%s: either" % con)

    def fields(con, P, T, strict, rev, key, need):
        all_ = {"x": 0, "y": 1, "z": 2}
        for names in (["x", "y"], ["y"], ["x", "y", "z"], ["z"]):
            for wrong in (None, "y"):
                pins = {key: dict((n, it.pat("Int", n)) for n in names)}
                got = check(P, T, strict, rev, pins, lambda k: k[0] != "p(%s)" % wrong)
                ok = (set(names) == {"x", "y"} if P == "Record" else set(names) <= {"x", "y"}) and not (wrong in names)
                judge("parts", con + ": fields %s for x, y%s" % (", ".join(names), ", one of the wrong type" if wrong in names else ""), got, ok, "the fields decide")
                for k in it.queries:
                    want = ("p(x)", "a(f0).avroType"), ("p(y)", "a(f1).avroType")
                    if k[:2] not in want:
                        und.append(con + ": asks (%s)" % ", ".join(k))
                    elif k[2:] != ("True", str(rev)):
                        R.finding("parts", con, "fields are not matched strictly: (%s)" % ", ".join(k), W)
                if P == "WildRecord" and got == {True} and set(it.adds) != {"a()"}:
                    R.finding("label", con, "the argument does not count for the label", W)

    W = where("check")
    for P, T, strict, rev in itertools.product(PATS, TYPES, (False, True), (False, True)):
        if (P, T) == ("Union", "FcnType"):
            continue
        con = "%s pattern, %s%s%s" % (P, T.replace("Avro", "").replace("Type", "").lower(), ", strict" if strict else "", ", function parameter" if rev else "")
        if T == "ExceptionType":
            judge("other", con, check(P, T, strict, rev, None, lambda k: True), False, "an expression that only ends in an error")
            continue
        if P in LEAF:
            if P in NUM and T[4:] in NUM:
                i, j = NUM.index(P), NUM.index(T[4:])
                ok = i == j or not strict and (i < j if rev else i > j)
            else:
                ok = T == SAME[P]
            judge("leaf" if P in NUM and T[4:] in NUM else "other", con, check(P, T, strict, rev), ok, "whatever is %s" % ("allowed" if ok else "not allowed"))
            if it.queries or it.adds:
                und.append(con + ": asks")
            continue
        if P == "Wildcard":
            got = check(P, T, strict, rev)
            judge("label", con, got, True, "an unrestricted wildcard")
            if set(it.adds) != {"a()"} and got == {True}:
                R.finding("label", con, "the argument does not count for the label (%s)" % it.adds, W)
            R.count("label")
            if got == {True} and check(P, T, strict, rev, {"seen": "L"}) == {True} and set(it.adds) != {"a()"}:
                R.finding("label", con + ", label seen before", "the argument does not count for the label (%s)" % it.adds, W)
            arg = it.typ(T)
            for lst, ok in (([arg], True), ([it.typ("AvroNull" if T != "AvroNull" else "AvroInt", "z")], False)):
                got = check(P, T, strict, rev, {"p.oneOf": lst})
                judge("label", con + (", one of those allowed" if ok else ", not one of those allowed"), got, ok, "against the list")
                if got == {True} and set(it.adds) != {"a()"}:
                    R.finding("label", con, "the argument does not count for the label (%s)" % it.adds, W)
            R.count("label")
            if got == {True} and check(P, T, strict, rev, {"seen": "L"}) == {True} and set(it.adds) != {"a()"}:
                R.finding("label", con + ", label seen before", "the argument does not count for the label (%s)" % it.adds, W)
                if got == {False} and it.adds:
                    R.finding("label", con, "an argument refused counts for the label", W)
            continue
        if P == "Union" and T != "AvroUnion":
            for t0, t1 in itertools.product((True, False), repeat=2):
                ans = {"p(t0)": t0, "p(t1)": t1}
                got = check(P, T, strict, rev, None, lambda k: ans.get(k[0]))
                judge("parts", con + ": members %s, %s" % (t0, t1), got, t0 or t1, "one of the union's members must match")
                for k in it.queries:
                    if k[1] != "a()" or k[2:] != (str(strict), str(rev)):
                        R.finding("parts", con, "asks (%s)" % ", ".join(k), W)
            continue
        if T != SAME[P]:
            got = check(P, T, strict, rev, None, lambda k: True)
            judge("other", con, got, False, "a different kind")
            continue
        # same kind, with parts
        if P in ("Array", "Map"):
            f = "items" if P == "Array" else "values"
            for ans in (True, False):
                got = check(P, T, strict, rev, None, lambda k: ans)
                judge("parts", con + ": part %s" % ans, got, ans, "the parts decide")
                for k in it.queries:
                    if k != ("p().%s" % f, "a().%s" % f, str(strict), str(rev)):
                        R.finding("parts", con, "asks (%s)" % ", ".join(k), W)
        elif P == "Union":
            for ans in (True, False):
                got = check(P, T, strict, rev, None, lambda k: ans)
                R.count("parts")
                if not ans and got == {True}:
                    R.finding("parts", con, "a union is accepted though none of its members matches", W)
                if ans and got == {False}:
                    R.finding("parts", con, "a union is refused though its members match", W)
                for k in it.queries:
                    if not re.match(r"p\(t\d\)", k[0]) or not re.match(r"a\(u\d\)|.*a\(u0\).*a\(u1\)", k[1]):
                        und.append(con + ": asks (%s)" % ", ".join(k))
                    elif k[2:] != ("True", str(rev)):
                        R.finding("parts", con, "members are not matched strictly: (%s)" % ", ".join(k), W)
        elif P in ("Fixed", "Enum", "Record"):
            for full, ok in (("n.s.Name", True), ("n.s.Other", False), ("Name", False)):
                judge("parts", con + ": %s for %s" % ("n.s.Name", full), check(P, T, strict, rev, {"p.fullName": full}, lambda k: True), ok, "names decide")
            for full, ok in (("Name", True), ("Other", False)):
                judge("parts", con + ": %s for %s" % ("Name", full), check(P, T, strict, rev, {"p.fullName": full, "a.fullName": "Name"}, lambda k: True), ok, "names decide")
                judge("parts", con + ": %s for %s" % (".Name", full), check(P, T, strict, rev, {"p.fullName": full, "a.fullName": ".Name"}, lambda k: True), ok, "names decide")
            if P == "Fixed":
                for n, ok in ((4, True), (8, False)):
                    judge("parts", con + ": size 4 for %d" % n, check(P, T, strict, rev, {"p.size": n}), ok, "sizes decide")
            if P == "Enum":
                for n, ok in ((["x", "y"], True), (["y", "x"], False), (["x"], False), (["x", "z"], False)):
                        judge("parts", con + ": symbols %s" % n, check(P, T, strict, rev, {"p.symbols": n}), ok, "symbols decide")
            if P == "Record":
                fields(con, P, T, strict, rev, "p.fields", {"x": 0, "y": 1})
        elif P == "WildRecord":
            fields(con, P, T, strict, rev, "p.minimalFields", {"y": 1})
        elif P == "Fcn":
            for bad in ("p(p0)", "p(p1)", "p().ret", None):
                got = check(P, T, strict, rev, None, lambda k: k[0] != bad)
                judge("parts", con + ": %s wrong" % bad, got, bad is None, "every parameter and the result must match")
                if bad is None:
                    want = {("p(p0)", "a(a0)", str(strict), "True"), ("p(p1)", "a(a1)", str(strict), "True"), ("p().ret", "a().ret", str(strict), "False")}
                    if not rev and set(it.queries) != want:
                        R.finding("parts", con, "asks %s" % sorted(set(it.queries) ^ want)[:2], W)
            for n in (1, 3):
                got = check(P, T, strict, rev, {"a.params": [it.typ("AvroInt", "a%d" % k) for k in range(n)]}, lambda k: True)
                judge("parts", con + ": %d parameters for 2" % n, got, False, "the number of parameters differs")
        elif P in WILD:
            got = check(P, T, strict, rev)
            judge("label", con, got, True, "a wildcard of this kind")
            if got == {True} and set(it.adds) != {"a()"}:
                R.finding("label", con, "the argument does not count for the label (%s)" % it.adds, W)
            R.count("label")
            if got == {True} and check(P, T, strict, rev, {"seen": "L"}) == {True} and set(it.adds) != {"a()"}:
                R.finding("label", con + ", label seen before", "the argument does not count for the label (%s)" % it.adds, W)

    # ---- assign, assignRet ------------------------------------------------------------------------------------
    PARTS = {"Array": (r"AvroArray\(assign\(p\(\)\.items,a\(\)\.items\)\)", r"AvroArray\(assignRet\(p\(\)\.items\)\)"),
             "Map": (r"AvroMap\(assign\(p\(\)\.values,a\(\)\.values\)\)", r"AvroMap\(assignRet\(p\(\)\.values\)\)")}

    def asg(name, args, b=None, bad=None):
        def labels(self, n):
            return self.pinned(n, {"L": V(Sym(("decided", "L"), (), None))}, ("labels",))
        pins = dict((re.sub(r"^(p|a)\.", r"\1().", k), v) for k, v in dict({"p.label": "L", "p.wildRecord": "R", "p.fullName": None}, **(b or {})).items())
        return it.go(ci, name, args + [labels], pins, bad=bad)

    def same(rule, con, got, want, name):
        R.count(rule)
        if not got:
            R.finding(rule, con, "is refused", where(name))
        for g in sorted(map(str, got)):
            if not re.fullmatch(want, g):
                if g.startswith("call:") or "{" in g:
                    und.append("%s: %s" % (con, g[:80]))
                else:
                    R.finding(rule, con, "gets type %s" % g[:80], where(name))

    for P in PATS:
        for T in TYPES:
            if T == "ExceptionType" or (P, T) == ("Union", "FcnType") or not (T == SAME.get(P) or P in NUM and T[4:] in NUM[:NUM.index(P) + 1] or P in ("Wildcard", "Union")):
                continue
            con = "%s pattern, %s" % (P, T.replace("Avro", "").replace("Type", "").lower())
            b = {"p.types": [it.pat("Int", "t0"), it.pat("Null", "t1")]} if P == "Union" else {}
            want = r"decided\(L\)" if P in WILD else PARTS[P][0] if P in PARTS else r"a\(\)|Avro%s\(\)" % P if P == T[4:] else r"Avro%s\(\)" % P if P in NUM else r"a\(\)"
            if P == "Fcn":
                b["p.params"], b["a.params"] = [it.pat("Int", "p0")], [it.typ("AvroInt", "a0")]
            same("assign", con + ": parameter", asg("assign", [it.pat(P), it.typ(T)], b), want, "assign")
            if P == "Fcn":
                R.count("assign")
                asked = []

                def no(key):
                    if key[0] in ("accepts", "match"):
                        asked.append(tuple(it.sh(x) for x in key[1:]))
                        return V(Const(False))
                    return None
                got = asg("assign", [it.pat(P), it.typ(T)], b, no)
                if got:
                    R.finding("assign", con, "is taken although its type is not one the function may be called with after labels are decided", where("assign"))
                elif not any(re.fullmatch(r"FcnType\(\[assignRet\(p\(p0\)\)\],? ?assignRet\(p\(\)\.ret\)\)", x) and y == "a()" for x, y in asked):
                    if any(y == "a()" and x.startswith("FcnType(") or x == "a()" and y.startswith("FcnType(") for x, y in asked) and not any("call:" in x + y or "{" in x + y for x, y in asked):
                        R.finding("assign", con, "is compared with another type than the pattern's, or the wrong way around: %s" % asked[:1], where("assign"))
                    else:
                        und.append("%s: %s" % (con, asked))
        if P not in ("Fixed", "Enum", "Record", "Fcn"):
            b = {"p.types": [it.pat("Int", "t0"), it.pat("Null", "t1")]} if P == "Union" else {}
            want = r"decided\(L\)" if P in WILD else PARTS[P][1] if P in PARTS else r"AvroUnion\(\[assignRet\(p\(t0\)\), assignRet\(p\(t1\)\)\]\)" if P == "Union" else r"%s\(\)" % SAME[P]
            same("assign", P + " pattern: return value", asg("assignRet", [it.pat(P)], b), want, "assignRet")
    # ---- the whole signature ----------------------------------------------------------------------------------
    life = p.cls("titus.signature", "Lifespan")
    for n, bad, cur, dep in itertools.product((1, 2, 3), (None, "p(q0)", "p(q1)"), (True, False), (True, False)):
        if cur and dep:
            continue
        con = "two parameters, %d arguments, %s%s" % (n, "all match" if bad is None else "one does not match", "" if cur else ", deprecated" if dep else ", of another version")
        it.result = {"current": V(Const(cur)), "deprecated": V(Const(dep)), "determineAssignment": V(Sym(("decided",), (), None))}

        def arglist(self, node):
            return self.mklist(node, "list", [it.typ("AvroInt", "b%d" % k) for k in range(n)], "args")
        pins = {"self.params": [{"one": it.pat("Int", "q0")}, {"two": it.pat("Int", "q1")}], "self.ret": it.pat("Int", "ret"), "self.lifespan": V(Sym(("life",), (), ("inst", life, "exact")))}
        got = it.go(ci, "accepts", [arglist, V(Sym("version", (), None))], pins, None, lambda k: k[0] != bad)
        R.count("accepts")
        applies = n == 2 and bad is None and (cur or dep)
        good = [g for g in got if isinstance(g, str)]
        handled = set(id(x) for h in ast.walk(p.method(ci, "accepts")[0]) if isinstance(h, ast.ExceptHandler) for x in ast.walk(h))
        refused = any(any(isinstance(o, _Const) and o.v is None for o in v) for node, v, s in it.rets if id(node) not in handled)
        if not applies and good and refused and bad is not None:        # not told apart
            und.append("accepts: " + con)
        elif not applies and good:
            R.finding("accepts", con, "the signature applies: %s" % good[0][:80], where("accepts"))
        if applies:
            want = r"\[self, \[assign\(p\(q0\),a\(b0\)\), assign\(p\(q1\),a\(b1\)\)\], assignRet\(p\(ret\)\)\]"
            if not good:
                R.finding("accepts", con, "the signature does not apply", where("accepts"))
            for g in good:
                if not re.fullmatch(want, g):
                    und.append("accepts: %s" % g[:120])
            for k in it.queries:
                if k[0].startswith("p(") and k[2:] != ("False", "False"):
                    R.finding("accepts", con, "arguments are matched as (%s)" % ", ".join(k), where("accepts"))
    it.result = None
    sg = p.cls("titus.signature", "Sigs")
    for ans in itertools.product((True, False), repeat=3):
        def bad(key):
            if key[0] == "match":
                k = int(it.sh(key[1])[-2])
                return V(Sym(("res", k), (), ("inst", sg, "exact"))) if ans[k] else NONE
            return None
        cases = [V(Sym(("case", k), (), None)) for k in range(3)]
        reset = it.reset
        it.reset = lambda b=None, pins=None: reset(bad, pins)
        try:
            got = it.go(sg, "accepts", [V(Sym("args", (), None)), V(Sym("version", (), None))], {"self.cases": cases})
        finally:
            it.reset = reset
        R.count("accepts")
        want = {"res(%d)" % ans.index(True)} if any(ans) else {None}
        con = "three signatures, of which %s" % (", ".join(str(k + 1) for k in range(3) if ans[k]) or "none") + " apply"
        if not got & want:
            R.finding("accepts", con, "gives %s" % sorted(map(str, got)), where("accepts", sg))
        elif got != want:
            und.append("%s: %s" % (con, sorted(map(str, got))))
    ld = p.cls("titus.signature", "LabelData")
    for T, exp, names, ok in (("AvroInt", None, None, True), ("AvroRecord", None, None, True), ("AvroInt", ["x"], None, False), ("AvroRecord", ["x", "y"], ["x", "y"], True),
                              ("AvroRecord", ["x", "y"], ["y", "x"], False), ("AvroRecord", ["x", "y"], ["x"], False), ("AvroRecord", ["x"], ["x", "y"], False)):
        pins = {"self.expectedFields": None if exp is None else V(Const(tuple(exp)))}
        if names is not None:
            pins["a().fields"] = [it.typ("AvroField", "f%d" % k) for k in range(len(names))]
            for k, x in enumerate(names):
                pins["a(f%d).name" % k] = x
        it.result = {"broadestType": it.typ(T)}
        got = it.go(ld, "determineAssignment", [], pins)
        asked = [q for q in it.queries if q[0] == "broadestType"]
        R.count("accepts")
        con = "label decided as %s, enum of its fields %s%s" % (T[4:].lower(), exp, "" if names is None else ", fields %s" % names)
        if ok and not got or not ok and got == {"a()"} and not it.raised:
            R.finding("accepts", con, "is refused" if ok else "is decided", where("determineAssignment", ld))
        elif not ok and got:
            und.append(con + ": %s" % sorted(map(str, got)))
        if ok and got and got != {"a()"}:
            R.finding("accepts", con, "gives %s" % sorted(map(str, got))[:2], where("determineAssignment", ld))
        if asked and any("self.members" not in q[1] for q in asked):
            R.finding("accepts", con, "not all arguments with the label are looked at: %s" % asked[0][1][:60], where("determineAssignment", ld))
    it.result = None
    R.note("not judged", sorted(set(und))[:30])
    R.floor("leaf", 50)
    R.floor("other", 800)
    R.floor("parts", 100)
    R.floor("label", 150)
    R.floor("assign", 30)
    R.floor("accepts", 25)


if __name__ == "__main__":
    report.main("D04", run)
