import ast, itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Cls, Fn, V, NONE, EMPTY, State, _Const
from sa.astmodel import AstModel
from sa.forms import FormInterp, variants
from sa.guards import GuardInterp, FormModel

FALSE, TRUE = V(Const(False)), V(Const(True))
TOP = "symbolTable"

# operands: parts in which nothing may be declared or assigned
OPERANDS = {"AttrGet": ("expr", "path"), "AttrTo": ("expr", "path"), "Call": ("args",), "CallUserFcn": ("name", "args"), "CastBlock": ("expr",),
            "CellGet": ("path",), "CellTo": ("path",), "Cond": ("ifthens.predicate",), "FcnRefFill": ("fill",), "For": ("init", "predicate", "step"),
            "Foreach": ("array",), "Forkeyval": ("map",), "If": ("predicate",), "IfNotNull": ("exprs",), "Let": ("values",), "Log": ("exprs",),
            "NewArray": ("items",), "NewObject": ("fields",), "Pack": ("exprs",), "PoolGet": ("path",), "PoolTo": ("path",), "SetVar": ("values",),
            "Try": ("exprs",), "Unpack": ("bytes",), "Upcast": ("expr",), "While": ("predicate",), "DoUntil": ("predicate",)}
# blocks: parts with declarations of their own, in which outer symbols can be changed
BLOCKS = {"CastCase": ("body",), "Cond": ("ifthens.thenClause", "elseClause"), "Do": ("body",), "DoUntil": ("body",), "FcnDef": ("body",), "For": ("body",),
          "Foreach": ("body",), "Forkeyval": ("body",), "If": ("thenClause", "elseClause"), "IfNotNull": ("thenClause", "elseClause"),
          "Unpack": ("thenClause", "elseClause"), "While": ("body",)}
PARAMS = {"p0": V(Sym(("ptype", "p0"), (), None)), "p1": V(Sym(("ptype", "p1"), (), None))}
FORMAT = {"self.format": [("n0", "int"), ("n1", "boolean")]}
PINS = {"FcnDef": {"self.paramsDict": PARAMS}, "Unpack": FORMAT}
# names declared for a part: (name, type pattern)
DECLARED = {
    "For": {("predicate", "step", "body"): [("'k%d'" % k, r"<init\.\[%d\]>\.retType" % k) for k in (0, 1)]},
    "Foreach": {("body",): [("self.name", r"<array>\.retType\.items")]},
    "Forkeyval": {("body",): [("self.forkey", r"AvroString\(\)"), ("self.forval", r"<map>\.retType\.values|call:values\{<map>\.retType\}")]},
    "CastCase": {("body",): [("self.named", r"self\.\w+\.avroType")]},
    "FcnDef": {("body",): [("'p%d'" % k, r"ptype\(p%d\)" % k) for k in (0, 1)]},
    "IfNotNull": {("thenClause",): [("'k%d'" % k, r".*<exprs\.\[%d\]>\.retType\.types.*" % k) for k in (0, 1)]},
    "Unpack": {("thenClause",): [("'n0'", r"(AvroInt\(\)|.*avroType.*)"), ("'n1'", r".*")]},
}
SOME = "some"
# guards: (question, about, answer that must be refused)
NAMES = {"Let": ["'k0'", "'k1'"], "For": ["'k0'", "'k1'"], "Foreach": ["self.name"], "Forkeyval": ["self.forkey", "self.forval"],
         "IfNotNull": ["'k0'", "'k1'"], "Unpack": ["'n0'", "'n1'"], "FcnDef": ["'p0'", "'p1'"]}
FRESH = ("Let", "For", "Foreach", "Forkeyval", "Unpack")      # names that may not be in scope already
ASSIGNED = {"SetVar": ["'k0'", "'k1'"], "For": ["'k0'", "'k1'"]}
EXIST = {"Ref": ("get", "self.name"), "CellGet": ("cell", "self.cell"), "CellTo": ("cell", "self.cell"), "PoolGet": ("pool", "self.pool"),
         "PoolTo": ("pool", "self.pool"), "PoolDel": ("pool", "self.pool"), "Call": ("fcn", "self.name"), "FcnRef": ("fcn", "self.name"),
         "FcnRefFill": ("fcn", "self.name")}


def part(path):
    return ".".join(x for x in path if not x.startswith("["))


def run(R):
    R.rule("operand", "an operand is type-checked in a sealed scope of its own: declarations and assignments in it are refused")
    R.rule("block", "a block is type-checked in a scope of its own, not shared with another block, and open to changing outer symbols (functions and foreach without seq: not)")
    R.rule("visible", "at the time a part is type-checked exactly the names declared for it are in scope, with their types; nothing but let adds to the scope around a form")
    R.rule("refused", "the walk, with one question answered badly (name taken, name not valid, scope sealed, symbol not there or not writable, no such cell, pool or function), never reaches a normal end")
    R.rule("table", "the symbol table itself, interpreted on every chain of up to three scopes: lookup finds the nearest declaration, and a symbol is writable unless a seal lies in or between")
    p = Project()
    model = AstModel(p)
    it = GuardInterp(p, model)

    def where(cls):
        m = p.method(model.classes[cls], "walk")
        return p.where(m[0], m[1].mod)

    def oracle(q, about, ans):
        asked = []

        def bad(key):
            if key[0] != q:
                return None
            k = it.sh(key[-1]) if q not in ("sealedWithin",) else str(key[-1])
            if k != about:
                return None
            asked.append(1)
            return it.some(ast.Pass(), "old") if ans == SOME else ans
        return bad, asked

    for n in sorted(model.classes):
        if n in FormModel.SKIP:
            continue
        for f in variants(model, n):
            pins = PINS.get(n, {})

            def refused(what, q, about, ans):
                R.count("refused")
                bad, asked = oracle(q, about, ans)
                k = len(it.form(f, bad, pins))
                if not asked:
                    R.finding("refused", "%s: %s" % (f.name, what), "the type-check never asks this", where(n))
                elif k:
                    R.finding("refused", "%s: %s" % (f.name, what), "such a form passes the type-check", where(n))

            def good(key):
                if key[0] == "get" and it.scopes.get(key[1]) is not None and n in FRESH and n != "For":
                    return NONE
                return None
            if not it.form(f, good, pins):
                R.note("form " + f.name, "no normal end found, not judged")
                continue
            walks, puts = list(it.walks), list(it.puts)
            owner = {}
            for path, scope, vis in walks:
                w = part(path)
                if scope is None:
                    R.note("scope of %s.%s" % (f.name, w), "not understood, not judged")
                    continue
                ch = it.chain(scope)
                if w in OPERANDS.get(n, ()):
                    R.count("operand")
                    if scope == TOP or ch[0][2] == "False":
                        R.finding("operand", "%s: %s" % (f.name, w), "the part may declare or assign symbols", where(n))
                if w in BLOCKS.get(n, ()):
                    R.count("block")
                    if scope == TOP:
                        R.finding("block", "%s: %s" % (f.name, w), "what the block declares stays in the scope around the form", where(n))
                    for i, (s, above, within) in enumerate(ch):
                        if within == "True" or (above == "True" and n not in ("FcnDef", "Foreach")):
                            R.finding("block", "%s: %s" % (f.name, w), "the block may not declare or change symbols", where(n))
                        if n == "FcnDef" and i == 0 and above != "True":
                            R.finding("block", "%s: %s" % (f.name, w), "a function may change symbols declared outside it", where(n))
                    key = ".".join(path[:2]) if w.startswith("ifthens") else w
                    if owner.setdefault(scope, key) != key and scope != TOP:
                        R.finding("block", "%s: %s" % (f.name, w), "shares its scope with %s" % owner[scope], where(n))
                if w in OPERANDS.get(n, ()) or w in BLOCKS.get(n, ()):
                    want = [x for parts, names in DECLARED.get(n, {}).items() if w in parts for x in names]
                    R.count("visible")
                    if n == "For" and w == "init":
                        continue
                    got = dict()
                    for a, b in vis:
                        got.setdefault(a, set()).add(b)
                    for name, typ in want:
                        if name not in got:
                            R.finding("visible", "%s: %s" % (f.name, w), "%s is not in scope" % name, where(n))
                        elif not all(re.fullmatch(typ, t, re.S) for t in got[name]):
                            R.finding("visible", "%s: %s" % (f.name, w), "%s is in scope with another type: %s" % (name, sorted(got[name])[0][:80]), where(n))
                    for name in got:
                        if name not in [x for x, t in want]:
                            R.finding("visible", "%s: %s" % (f.name, w), "%s is in scope but not declared for this part" % name, where(n))
            top = [(it.sh(a), it.sh(b)) for s, a, b in puts if s == TOP]
            if n == "Let":
                want = [("'k%d'" % k, "<values.[%d]>.retType" % k) for k in (0, 1)]
                R.count("visible")
                if sorted(top) != want:
                    R.finding("visible", "%s: declarations" % f.name, "declares %s" % top, where(n))
            elif top:
                R.finding("visible", "%s: declarations" % f.name, "declares %s in the scope around it" % top[0][0], where(n))

            if n == "Foreach":
                for seq, want in ((True, "False"), (False, "True")):
                    it.form(f, good, {"self.seq": V(Const(seq))})
                    for path, scope, vis in it.walks:
                        if part(path) == "body" and scope is not None:
                            R.count("block")
                            if ("True" in [a for s, a, b in it.chain(scope)]) != (want == "True"):
                                R.finding("block", "%s: body, seq %s" % (f.name, str(seq).lower()),
                                          "outer symbols %s be changed" % ("can" if want == "True" else "cannot"), where(n))
            for name in NAMES.get(n, ()):
                refused("name %s not valid" % name, "valid", name, FALSE)
                if n in FRESH:
                    refused("name %s already declared" % name, "get", name, SOME)
            if n == "Let":
                refused("scope sealed", "sealedWithin", TOP, TRUE)
            for name in ASSIGNED.get(n, ()):
                refused("symbol %s not writable" % name, "writable", name, FALSE)
                refused("symbol %s not declared" % name, "get", name, NONE)
            if n in EXIST:
                refused("no such %s" % {"get": "symbol", "fcn": "function"}.get(EXIST[n][0], EXIST[n][0]), EXIST[n][0], EXIST[n][1], NONE)
    R.floor("operand", 30)
    R.floor("block", 20)
    R.floor("visible", 40)
    R.floor("refused", 25)
    table(R, p, model)


# ---- the table itself -------------------------------------------------------------------------------------------------
DRIVER = """
def driver(SymbolTable):
    a = SymbolTable(None, %s, {"c1": "cell", "c2": "hidden"}, {"d1": "pool", "d2": "hidden"}, %s, %s)
    b = a.newScope(%s, %s)
    %s
    c = b.newScope(%s, %s)
    %s
    return c.%s
"""


class Table(GuardInterp):
    RECURSION = 8
    MAXDEPTH = 20

    def reset(self, *a):
        GuardInterp.reset(self, *a)
        self.scopes = {}


def table(R, p, model):
    ci = p.cls("titus.pfaast", "SymbolTable")
    it = Table(p, model)
    where = p.where(ci.node, ci.mod)

    def answer(flags, owner, expr):
        src = DRIVER % ('{"x": "A"}' if "a" in owner else "{}", flags[0][0], flags[0][1], flags[1][0], flags[1][1],
                        'b.put("x", "B")' if "b" in owner else "pass", flags[2][0], flags[2][1],
                        'c.put("x", "C")' if "c" in owner else "pass", expr)
        fn = ast.parse(src).body[0]
        it.top, it.rets = fn, []
        it.reset()
        v = it.run(Fn(fn, ci.mod, None, None, None), [V(Cls(ci))], None, State())
        if not v:
            return "error"
        if len(v) == 1 and isinstance(next(iter(v)), _Const):
            return next(iter(v)).v
        return "unknown"

    F = (False, True)
    unknown = 0
    cases = []
    for flags in itertools.product(itertools.product(F, F), repeat=3):
        for owner in ("", "a", "b", "c", "ab", "bc", "ac"):
            ok = owner != ""
            want = "error" if not ok else True
            for who, (above, within) in zip("cba", flags[::-1]):
                if within:
                    want = False
                    break
                if who in owner:
                    break
                if above:
                    want = False
                    break
            cases.append((flags, owner, 'writable("x")', want))
    plain = ((False, False),) * 3
    for flags in (plain, ((True, True),) * 3):
        for owner in ("", "a", "b", "c", "ab", "bc", "ac"):
            cases.append((flags, owner, 'get("x")', owner[-1].upper() if owner else None))
            if owner:
                cases.append((flags, owner, '__call__("x")', owner[-1].upper()))
            else:
                cases.append((flags, owner, '__call__("x")', "error"))
        cases.append((flags, "", 'cell("c1")', "cell"))
        cases.append((flags, "", 'pool("d1")', "pool"))
        cases.append((flags, "", 'cell("d1")', None))
        cases.append((flags, "", 'pool("c1")', None))
        cases.append((flags, "", 'get("c1")', None))
        for who, x in zip((".parent.parent", ".parent", ""), flags):
            for nm, w in zip(("sealedAbove", "sealedWithin"), x):
                cases.append((flags, "a", (who + "." + nm)[1:], w))
    for flags, owner, expr, want in cases:
        got = answer(flags, owner, expr)
        R.count("table")
        if owner == "" and expr.startswith("writable"):
            if got is True:
                R.finding("table", expr, "a symbol that is not declared counts as writable", where)
            continue
        if got == "unknown":
            unknown += 1
        elif got != want and type(got) is not type(want) or got != want:
            R.finding("table", expr, "gives %r instead of %r (scopes %s, declared in %s)" % (got, want, flags, owner or "none"), where)
    R.note("symbol-table cases without a definite answer", unknown)
    if unknown > len(cases) // 2:
        R.note("symbol table", "not understood, mostly not judged")
    R.floor("table", 200)


if __name__ == "__main__":
    report.main("A05", run)
