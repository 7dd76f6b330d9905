import ast, io, os, re, sys, tokenize
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.forms import FormModel, FormInterp
from sa.engine import EngineModel
from sa.lib import Library
from sa.strings import Str, Hole
from sa.codegen import render_all
from sa.interp import Sym, Alloc, Res, Fn, Ext, V, Const, _Const, symstr, EMPTY, State
from L04 import Gen
from G01 import sandbox_names

CODE = ("res", "code", "gen")
HOLE = re.compile(r"HOLE_\d+_")


def where_holes(text):
    """identifier -> set of positions: alone, inside (another name), quoted"""
    out = {}
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        for k in HOLE.findall(t.string):
            if t.type == tokenize.NAME and t.string == k:
                out.setdefault(k, set()).add("alone")
            elif t.type == tokenize.STRING:
                out.setdefault(k, set()).add("quoted")
            else:
                out.setdefault(k, set()).add("inside")
    return out


def classes_checked(ci, field):
    """Type names the constructor accepts for a field."""
    init = ci.methods.get("__init__")
    out = set()
    for n in ast.walk(init) if init is not None else ():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
            if isinstance(n.args[0], (ast.Name, ast.Attribute)) and ast.unparse(n.args[0]).split(".")[-1] == field:
                out.update(x.id for x in ast.walk(n.args[1]) if isinstance(x, ast.Name))
    return out


NUMERIC = {"int", "bool", "float", "long"}


class Judge(object):
    def __init__(self, rep, proj, model, names):
        self.rep, self.p, self.m, self.names = rep, proj, model, names
        self.cls, self.vcache = None, {}
        self.strtype = any("__str__" in c.methods for c in proj.classes if c.mod.name == "titus.datatype")

    def iscode(self, o, conv):
        if isinstance(o, Sym):
            if isinstance(o.root, tuple) and o.root[0] in CODE:
                return True
            if o.root == ("fcnctx",) and o.path[:1] == ("exprs",):
                return True
            # results kept in lists of (name, type, result)
            return isinstance(o.root, tuple) and o.root[0] == "ctx" and bool(o.path) and re.match(r"^\[[1-9]\d*\]$", o.path[-1]) is not None
        if isinstance(o, Res):
            return ".genpy" in o.op or o.op.startswith("call:self(") or all(self.iscode(x, conv) for x in o.srcs) and bool(o.srcs)
        if isinstance(o, Str):
            return True
        return False

    def isdoc(self, o):
        """Can the value come from the document?"""
        if isinstance(o, Sym):
            return True
        if isinstance(o, Res):
            return any(self.isdoc(x) for x in o.srcs)
        if isinstance(o, (Str, Hole)):
            return any(self.isdoc(x) for q in (o.parts if isinstance(o, Str) else (o,)) if isinstance(q, Hole) for x in q.val)
        return not isinstance(o, (_Const, Ext))

    def number(self, o):
        """None, 'int' (its text is digits) or 'float'"""
        if isinstance(o, _Const):
            return "int" if isinstance(o.v, (int, bool)) else "float" if isinstance(o.v, float) else None
        if isinstance(o, Res):
            if o.op.startswith("float"):
                return "float"
            if o.op.split("(")[0] in ("int", "len", "range", "enumerate", "op:Add", "op:Sub", "op:Mult", "bool", "ord"):
                return "int"
        if isinstance(o, Sym) and o.root == "self" and len(o.path) == 1 and self.cls is not None:
            ts = classes_checked(self.cls, o.path[0])
            if ts and ts <= NUMERIC:
                return "float" if "float" in ts else "int"
        if isinstance(o, Sym) and o.root == "self" and len(o.path) == 1 and self.cls is not None and self.numeric_arg(o.path[0]):
            return "int"
        return None

    def numeric_arg(self, field):
        """Every construction of the class passes a number for this field."""
        init = self.cls.methods.get("__init__")
        if init is None:
            return False
        names = [a.arg for a in init.args.args][1:]
        if field not in names:
            return False
        i, n = names.index(field), 0
        for m in self.p.mods.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call) and (c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)) == self.cls.name:
                    a = c.args[i] if i < len(c.args) else next((k.value for k in c.keywords if k.arg == field), None)
                    n += 1
                    if isinstance(a, ast.Name):
                        a = self.assigned(m.tree, c, a.id)
                    if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("int", "len") or
                            isinstance(a, ast.Constant) and isinstance(a.value, int)):
                        return False
        return n > 0

    def assigned(self, tree, call, name):
        best = None
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef) and any(x is call for x in ast.walk(f)):
                best = f
        vals = [s.value for s in ast.walk(best) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)] if best else []
        return vals[0] if len(vals) == 1 else None

    def valid(self, o):
        """Names that are known to be identifiers (checked by the class itself, or looked up among declared ones)."""
        if not isinstance(o, Sym):
            return False
        if o.path[-2:] == ("fcn", "name") or o.root == "functionTable" and o.path[-1:] == ("name",):
            return True             # declared functions: checked when the engine configuration is walked
        if o.root != "self" or self.cls is None or not o.path:
            return False
        if self.cls.name == "Ref" and o.path == ("name",):
            return True             # declared symbols
        if self.cls not in self.vcache:
            direct, keys = set(), set()
            for k in self.p.mro(self.cls):
                for q in ("__init__", "walk"):
                    fn = k.methods.get(q)
                    loops = {}
                    for n in ast.walk(fn) if fn is not None else ():
                        if isinstance(n, (ast.For, ast.comprehension)):
                            for t in ast.walk(n.target):
                                if isinstance(t, ast.Name):
                                    loops[t.id] = [a.attr for a in ast.walk(n.iter) if isinstance(a, ast.Attribute)]
                    for n in ast.walk(fn) if fn is not None else ():
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.startswith("valid") and len(n.args) == 1:
                            a = n.args[0]
                            if isinstance(a, ast.Attribute):
                                direct.add(a.attr)
                            elif isinstance(a, ast.Name) and a.id in loops:
                                keys.update(loops[a.id])
            self.vcache[self.cls] = (direct, keys)
        d, ks = self.vcache[self.cls]
        return o.path[-1] in d and len(o.path) == 1 or o.path[0] in ks and len(o.path) > 1

    def istype(self, o):
        if isinstance(o, Sym):
            if o.root == "paramTypes":
                return True
            if o.kind is not None and o.kind[0] == "inst" and o.kind[1].mod.name == "titus.datatype":
                return True
            return bool(o.path) and (o.path[-1].lower().endswith("type") or o.path[-1] == "[]" and len(o.path) > 1 and o.path[-2] == "types")
        if isinstance(o, Alloc):
            return o.cls is not None and o.cls.mod.name == "titus.datatype"
        return False

    def mayfloat(self, o):
        return isinstance(o, Res) and ("jsonDecoder" in o.op or o.op.startswith("float")) or self.number(o) == "float"

    def need(self, names, what, where):
        miss = [n for n in names if n not in self.names]
        self.rep.count("constants")
        if miss:
            self.rep.finding("constants", what, "the text of some values contains %s, which generated code does not know" % ", ".join(miss), where)

    def template(self, what, t, where, allow=lambda h: False):
        try:
            pos = where_holes(t.text)
        except (tokenize.TokenError, IndentationError, SyntaxError):
            self.rep.finding("bare", what, "the generated code cannot be split into tokens", where)
            return
        for k, ps in sorted(pos.items()):
            h = t.holes.get(k)
            if h is None:
                continue
            d = "|".join(sorted(symstr(o)[:50] for o in h.val))[:120]
            conv = h.conv.split(":")[0]
            for q in sorted(ps):
                self.rep.count("bare" if q == "alone" else q)
                if q == "alone":
                    if conv == "str" and not self.strtype and all(self.istype(o) for o in h.val):
                        conv = "repr"       # types have no text form of their own
                    if conv in ("raw", "str", "join", "repeat"):
                        for o in h.val:
                            if self.iscode(o, conv) or not self.isdoc(o):
                                continue
                            n = self.number(o)
                            if n == "float":
                                self.need(("inf", "nan"), what + " " + d, where)
                            elif n is None and not (isinstance(o, Alloc) and o.cls is not None and "__str__" in o.cls.methods):
                                self.rep.finding("bare", "%s %s" % (what, d), "document text becomes part of the generated code without repr", where)
                    elif conv == "repr":
                        if any(self.istype(o) for o in h.val):
                            self.need(("null", "true", "false"), what + " " + d, where)
                        if any(self.mayfloat(o) for o in h.val):
                            self.need(("inf", "nan"), what + " " + d, where)
                    elif conv == "json":
                        if not all(self.istype(o) for o in h.val):
                            self.rep.finding("bare", "%s %s" % (what, d), "JSON text is used as Python code", where)
                    elif any(not self.iscode(o, conv) and self.number(o) is None for o in h.val):
                        self.rep.finding("bare", "%s %s" % (what, d), "document text becomes part of the generated code without repr", where)
                else:
                    if allow(h):
                        continue
                    if conv in ("raw", "str") and h.val and all(self.number(o) == "int" for o in h.val):
                        continue
                    if q == "quoted" and conv in ("raw", "str") and h.val and all(self.valid(o) for o in h.val):
                        continue
                    if q == "quoted":
                        self.rep.finding("quoted", "%s %s" % (what, d), "text that may contain quotes or escapes is put between quotes", where)
                    else:
                        self.rep.finding("inside", "%s %s" % (what, d), "text is spliced into a name of the generated code", where)


def regex_ok(p, mod, fn):
    """Does the function accept identifiers (and dotted identifiers) only?  None: not understood."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import sre_parse
    for c in ast.walk(fn):
        if not isinstance(c, ast.Call):
            continue
        f = ast.unparse(c.func)
        how = f.split(".")[-1]
        if how not in ("match", "fullmatch", "search"):
            continue
        pat = c.args[0] if f.startswith("re.") else c.func.value
        if isinstance(pat, ast.Name):
            v = [s.value for s in mod.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == pat.id for t in s.targets)]
            pat = v[0] if len(v) == 1 else None
        if isinstance(pat, ast.Call) and pat.args:
            pat = pat.args[0]
        if not isinstance(pat, ast.Constant) or not isinstance(pat.value, str):
            return None
        try:
            t = sre_parse.parse(pat.value)
        except Exception:
            return None
        items = list(t)
        if how != "fullmatch":
            if not items or str(items[-1][0]) != "AT" or str(items[-1][1]) != "AT_END_STRING":
                return "the pattern %r is not tied to the end of the text" % pat.value
            if how == "search" and str(items[0][0]) != "AT":
                return "the pattern %r is not tied to the start of the text" % pat.value
        chars = set()

        def go(x):
            for op, av in x:
                op = str(op)
                if op == "LITERAL":
                    chars.add(av)
                elif op == "RANGE":
                    chars.update(range(av[0], min(av[1], av[0] + 300) + 1))
                elif op == "IN":
                    go(av)
                elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                    go(av[2])
                elif op == "SUBPATTERN":
                    go(av[-1])
                elif op == "BRANCH":
                    for y in av[1]:
                        go(y)
                elif op == "AT":
                    pass
                else:
                    chars.add(0)
        go(items)
        bad = [c for c in chars if not (chr(c).isalnum() and c < 128 or chr(c) in "_.")]
        return "the pattern %r admits other characters" % pat.value if bad else ""
    return None


def name_guard(p, m):
    """Every walk of an engine configuration passes a test of its name that raises; -> (found, validity functions)."""
    ec = m.classes["EngineConfig"]
    used = []

    def tests(fn, names, cls, mod, depth):
        env = set(names)
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and ast.unparse(s.value) in env:
                env.update(t.id for t in s.targets if isinstance(t, ast.Name))
        ok = False
        for s in ast.walk(fn):
            if isinstance(s, (ast.If, ast.Assert)):
                for c in ast.walk(s.test):
                    if isinstance(c, ast.Call) and any(ast.unparse(a) in env for a in c.args) and not (isinstance(c.func, ast.Name) and c.func.id == "isinstance"):
                        body = [s] if isinstance(s, ast.Assert) else s.body + s.orelse
                        if isinstance(s, ast.Assert) or any(isinstance(x, ast.Raise) for b in body for x in ast.walk(b)):
                            f = c.func
                            used.append((mod, f, c))
                            ok = True
            if isinstance(s, ast.Call) and depth > 0:
                f = s.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self":
                    mm = p.method(cls, f.attr)
                    if mm is not None and mm[0] is not fn:
                        pn = [a.arg for a in mm[0].args.args][1:]
                        nm = set(n for n in env if n.startswith("self.")) | set(q for q, a in zip(pn, s.args) if ast.unparse(a) in env)
                        ok |= tests(mm[0], nm, cls, mm[1].mod, depth - 1)
                elif isinstance(f, ast.Name):
                    r = p.lookup(mod, f.id)
                    if isinstance(r, tuple) and r and r[0] == "func" and any(ast.unparse(a) in env for a in s.args):
                        pn = [a.arg for a in r[1].args.args]
                        nm = set(q for q, a in zip(pn, s.args) if ast.unparse(a) in env)
                        ok |= tests(r[1], nm, cls, r[2], depth - 1)
        return ok
    found = False
    for q in ("__init__", "walk"):
        mm = p.method(ec, q)
        if mm is not None:
            found |= tests(mm[0], {"self.name", "name"} if q == "__init__" else {"self.name"}, ec, mm[1].mod, 2)
    gp = p.cls("titus.genpy", "GeneratePython")
    mm = p.method(gp, "__call__")
    found |= tests(mm[0], {"context.name"}, gp, mm[1].mod, 2)
    return found, used


def run(rep):
    rep.rule("bare", "text taken from the document enters generated code only through repr, or as a number the constructor has checked")
    rep.rule("quoted", "nothing but whole numbers is put between quotes in generated code")
    rep.rule("inside", "a name in generated code has document text in it only if that was checked to be an identifier")
    rep.rule("constants", "every constant name that repr and JSON text may contain is known to generated code")
    rep.rule("validity", "the functions that check names accept identifiers only, to the last character")
    p = Project()
    m = AstModel(p)
    names = sandbox_names(p)
    j = Judge(rep, p, m, names)
    where0 = p.where(p.method(p.cls("titus.genpy", "GeneratePython"), "__call__")[0], p.mod("titus.genpy"))
    fm = FormModel(p, m)
    for f in fm.forms():
        j.cls = m.classes[f.cls]
        for t in f.templates:
            j.template(f.cls, t, where0)
    # -- text forms of helper objects (binary format declarations)
    seen = set()
    for ci in p.classes:
        if ci.mod is m.mod and "__str__" in ci.methods and "Declare" in ci.qual:
            it = FormInterp(p, m)
            j.cls = ci
            fn = ci.methods["__str__"]
            r = it.run(Fn(fn, ci.mod, ci, None, V(Sym("self", (), ("inst", ci, "exact")))), [], None, State())
            for o in r or ():
                if isinstance(o, (Str, _Const)):
                    for t in render_all(o):
                        j.template(ci.name, t, p.where(fn, ci.mod))
                else:
                    rep.finding("bare", ci.name, "its text is not understood: %s" % symstr(o)[:80], p.where(fn, ci.mod))
    # -- calls of functions
    lib = Library(p)
    g = Gen(p, lib)
    todo = [(f, f.ci, f.name, params) for f in lib.funcs if f.name and f.sigs for params, ret, node in f.sigs]
    for q in ("UserFcn", "EmitFcn"):
        todo.append((lib.funcs[0], p.cls("titus.pfaast", q), q, [None]))
    for f, ci, name, params in todo:
        mm = p.method(ci, "genpy")
        if mm is None:
            continue
        st = State()
        a = Alloc(("args", 0, 0, (), "args"), "list", None)
        st.heap[a] = {("i", i): V(Sym(("code", "arg", i), (), None)) for i in range(len(params))}
        st.heap[a]["#n"] = V(Const(len(params)))
        g.cur = f
        r = g.run(Fn(mm[0], mm[1].mod, mm[1], None, V(Sym("self", (), ("inst", ci, "exact")))),
                  [V(Sym("paramTypes", (), None)), V(a), V(Sym("pos", (), None))], state=st)
        j.cls = None
        for o in r or ():
            if isinstance(o, Str):
                for t in render_all(o):
                    j.template("call of " + name, t, p.where(mm[0], mm[1].mod))
    # -- the engine class
    found, used = name_guard(p, m)
    em = EngineModel(p, m)

    def allow(h):
        def ok(o):
            if isinstance(o, Sym) and o.root == ("config", "name"):
                return found
            if isinstance(o, Res):
                return "uniqueEngineName" in o.op or o.op.startswith(("re.sub", "call:re.sub")) or "sub(" in o.op
            return not j.isdoc(o)
        return bool(h.val) and all(ok(o) for o in h.val)
    for v in em.variants():
        j.cls = None
        for t in v.alts:
            j.template("engine", t, where0, allow)
    pf = m.mod
    checked = set()
    for mod, f, c in used:
        if isinstance(f, ast.Name):
            r = p.lookup(mod, f.id)
            if isinstance(r, tuple) and r and r[0] == "func":
                checked.add((r[1], r[2]))
    for q in ("validSymbolName", "validFunctionName"):
        r = p.lookup(pf, q)
        if isinstance(r, tuple) and r and r[0] == "func":
            checked.add((r[1], r[2]))
    for fn, mod in sorted(checked, key=lambda x: x[0].lineno):
        rep.count("validity")
        r = regex_ok(p, mod, fn)
        if r:
            rep.finding("validity", fn.name, r, p.where(fn, mod))
    rep.note("known names in generated code", len(names))
    rep.floor("bare", 600)
    rep.floor("constants", 100)
    rep.floor("validity", 1)


if __name__ == "__main__":
    report.main("G02", run)
