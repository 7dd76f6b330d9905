import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.interp import Const, Sym, Alloc, Ext, V, NONE, EMPTY, _Const, _single_const
from sa.astmodel import AstModel
from sa.exact import Exact


class Nodes(Exact):
    """Interprets the converter on the nodes of a Python syntax tree."""
    def __init__(self, p, model):
        Exact.__init__(self, p, model)
        self.nodes, self.keys = [], {}
        self.opaque_mods = self.opaque_mods - {"titus.producer.expression"}

    def sym(self, n):
        k = self.keys.get(id(n))
        if k is None:
            k = self.keys[id(n)] = len(self.nodes)
            self.nodes.append(n)
        return Sym(("py", type(n).__name__, k), (), None)

    def py(self, o):
        return self.nodes[o.root[2]] if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "py" and not o.path else None

    def lift(self, node, x):
        if isinstance(x, ast.AST):
            return V(self.sym(x))
        if isinstance(x, (list, tuple)):
            return self.mklist(node, "list", [self.lift(node, y) for y in x], "children")
        return V(Const(x))

    # -- syntax trees as Python gives them -----------------------------------------------------------------------
    def attr_of(self, node, o, name):
        n = self.py(o)
        if n is None:
            return None
        if isinstance(n, ast.Constant) and name in ("n", "s"):
            name = "value"
        if name in n._fields or name in ("lineno", "col_offset") and isinstance(n, (ast.expr, ast.stmt)):
            return self.lift(node, getattr(n, name, None))
        self.missing.append((getattr(node, "lineno", 0), "%s has no attribute %s" % (type(n).__name__, name)))
        return V(Sym(("missing", name), (), None))

    def on_load_attr(self, node, o, name):
        r = self.attr_of(node, o, name)
        return r if r is not None else Exact.on_load_attr(self, node, o, name)

    def isinst1(self, o, classes):
        n = self.py(o)
        if n is not None:
            out = False
            for c in classes:
                if not isinstance(c, str):
                    continue
                k = c[4:] if c.startswith("ast.") else None
                if k is None:
                    continue
                v = n.value if isinstance(n, ast.Constant) else None
                if k == "Num":
                    out |= isinstance(n, ast.Constant) and isinstance(v, (int, float, complex)) and not isinstance(v, bool)
                elif k == "Str":
                    out |= isinstance(n, ast.Constant) and isinstance(v, str)
                elif k == "Bytes":
                    out |= isinstance(n, ast.Constant) and isinstance(v, bytes)
                elif k == "NameConstant":
                    out |= isinstance(n, ast.Constant) and (v is None or isinstance(v, bool))
                elif k == "Ellipsis":
                    out |= isinstance(n, ast.Constant) and v is Ellipsis
                elif k in ("Index", "ExtSlice"):
                    pass
                elif hasattr(ast, k):
                    out |= isinstance(n, getattr(ast, k))
                else:
                    self.missing.append((0, "there is no ast.%s" % k))
            return out
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "sub":
            return o.root[1] in classes
        if isinstance(o, _Const) and o.v is Ellipsis:
            return False
        return Exact.isinst1(self, o, classes)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if recv is None and not kwargs:
            if q == "parse" and args:
                c = _single_const(args[0])
                if c is not None and isinstance(c.v, str):
                    t = ast.parse(c.v)
                    self.keep.append(t)
                    return V(self.sym(t))
            if q == "dump":
                return V(Const("<dump>"))
        return Exact.ext(self, node, qual, recv, args, kwargs, sym)

    # -- the document that comes out -------------------------------------------------------------------------------
    def doc(self, v, depth=0):
        if len(v) != 1 or depth > 20:
            raise Unjudged(self.sh(v)[:100])
        o = next(iter(v))
        if isinstance(o, _Const):
            return o.v
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "sub" and not o.path:
            return Sub(o.root[1])
        if isinstance(o, Alloc):
            d = self.exactdict(v)
            if d is not None:
                return dict((_single_const(k).v, self.doc(x, depth + 1)) for k, x in d)
            x = self.exact(v)
            if x is not None and o.typ != "set":
                return [self.doc(y, depth + 1) for y in x]
        raise Unjudged(self.sh(v)[:100])


class Unjudged(Exception):
    pass


UNTAKEN = object()


class Sub(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<substituted>"


WHERE = "titus.producer.expression"

# Python code -> the PFA it stands for; x, y and z are known symbols, c is a cell, k a pool, S stands for a substituted part
OPS = [("+", "+"), ("-", "-"), ("*", "*"), ("/", "/"), ("%", "%"), ("**", "**"), ("//", "//"), ("|", "|"), ("^", "^"), ("&", "&")]
CMP = ["==", "!=", "<", "<=", ">", ">="]
CORE = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "u-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp",
        "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||",
        "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
FORMS = ["Int", "Long", "Float", "Double", "String", "Base64", "Type", "Value", "New", "Do", "Let", "Set", "Attr", "Path", "To", "Cell", "Pool", "Init", "If", "Then", "Else", "Cond",
         "While", "Until", "For", "Step", "Foreach", "In", "Forkey", "Forval", "Cast", "Cases", "Partial", "Upcast", "As", "Ifnotnull", "Doc", "Error", "Log", "Namespace", "Params",
         "Ret", "Fcn"]
NAMES = ["string", "base64", "value", "attr", "cell", "pool", "foreach", "forkey", "forval", "doc", "error", "fcn"]


def st(x):
    return {"string": x}


def samples():
    for a, b in OPS:
        yield "x %s y" % a, {b: ["x", "y"]}
        yield "x %s 2 %s z" % (a, a), {b: [{b: ["x", 2]}, "z"]} if a != "**" else {b: ["x", {b: [2, "z"]}]}
    yield "x - y * z", {"-": ["x", {"*": ["y", "z"]}]}
    yield "(x - y) * z", {"*": [{"-": ["x", "y"]}, "z"]}
    for o in CMP:
        yield "x %s y" % o, {o: ["x", "y"]}
    yield "x < y <= z", {"&&": [{"<": ["x", "y"]}, {"<=": ["y", "z"]}]}
    yield "x < y <= z != 3", {"&&": [{"&&": [{"<": ["x", "y"]}, {"<=": ["y", "z"]}]}, {"!=": ["z", 3]}]}
    for w, o in (("and", "&&"), ("or", "||")):
        yield "x %s y" % w, {o: ["x", "y"]}
        yield "x %s y %s z" % (w, w), {o: [{o: ["x", "y"]}, "z"]}
        yield "x %s y %s z %s t" % (w, w, w), {o: [{o: [{o: ["x", "y"]}, "z"]}, "t"]}
    yield "x and y or z", {"||": [{"&&": ["x", "y"]}, "z"]}
    yield "not x", {"!": "x"}
    yield "-x", {"u-": "x"}
    yield "~x", {"~": "x"}
    yield "x if y else z", {"if": "y", "then": "x", "else": "z"}
    for t, v in (("7", 7), ("2.5", 2.5), ("'text'", st("text")), ("None", None), ("True", True), ("False", False), ("x", "x"), ("S", Sub("any"))):
        yield t, v
        yield "f(%s, y)" % t, {"f": [v, "y"]}
    yield "(x, y, z)", ["x", "y", "z"]
    # literal JSON
    yield "[1, 'a', None, True, False, 2.5]", [1, "a", None, True, False, 2.5]
    yield "{'a': 1, 'b': [], 'c': {'d': 'e'}}", {"a": 1, "b": [], "c": {"d": "e"}}
    yield "[S, {'a': S}]", [Sub("any"), {"a": Sub("any")}]
    # paths
    yield "x.a", {"attr": "x", "path": [st("a")]}
    yield "x.a.b", {"attr": "x", "path": [st("a"), st("b")]}
    yield "x[0]", {"attr": "x", "path": [0]}
    yield "x['a'][y].b", {"attr": "x", "path": [st("a"), "y", st("b")]}
    yield "x[y + 1]", {"attr": "x", "path": [{"+": ["y", 1]}]}
    yield "c.a", {"cell": "c", "path": [st("a")]}
    yield "c[1].a", {"cell": "c", "path": [1, st("a")]}
    yield "k['i']", {"pool": "k", "path": [st("i")]}
    yield "k[x].a", {"pool": "k", "path": ["x", st("a")]}
    yield "f(x).a", {"attr": {"f": "x"}, "path": [st("a")]}
    yield "x[c[0]]", {"attr": "x", "path": [{"cell": "c", "path": [0]}]}
    # calls
    yield "f()", {"f": []}
    yield "f(x)", {"f": "x"}
    yield "f(x, y)", {"f": ["x", "y"]}
    yield "f(x, y, z)", {"f": ["x", "y", "z"]}
    yield "a.b.f(x, y)", {"a.b.f": ["x", "y"]}
    yield "f(g(x), h(y, z))", {"f": [{"g": "x"}, {"h": ["y", "z"]}]}
    yield "f('a')", {"f": st("a")}
    yield "f(x, part=y, other=z)", {"f": "x", "part": "y", "other": "z"}
    for w, o in sorted(CORE.items()):
        yield "%s(x, y)" % w, {o: ["x", "y"]}
    for w in FORMS:
        yield "%s(x, y)" % w, {w.lower(): ["x", "y"]}
        yield "f(x, %s=y)" % w, {"f": "x", w.lower(): "y"}
    for w in NAMES:
        yield "%s('a')" % (w if w not in ("string",) else "String"), {w: "a"}
    yield "Int(3)", {"int": 3}
    yield "Attr(x, Path=[1], To=y)", {"attr": "x", "path": [1], "to": "y"}
    yield "Cell('c', To=x)", {"cell": "c", "to": "x"}
    # statements
    yield "n = x", {"let": {"n": "x"}}
    yield "x = y", {"set": {"x": "y"}}
    yield "n = x\nn = y", [{"let": {"n": "x"}}, {"set": {"n": "y"}}]
    yield "n, m = x, y", {"let": {"n": "x", "m": "y"}}
    yield "x, y = y, x", {"set": {"x": "y", "y": "x"}}
    yield "n, m = x, y\nn = m\nm = n", [{"let": {"n": "x", "m": "y"}}, {"set": {"n": "m"}}, {"set": {"m": "n"}}]
    yield "print(x, y)", {"log": ["x", "y"]}
    yield "print(x)", {"log": ["x"]}
    yield "raise 'bad'", {"error": "bad"}
    yield "pass", {"doc": ""}
    yield "x\ny\nf(z)", ["x", "y", {"f": "z"}]
    yield "for i in y:\n  f(i)", {"foreach": "i", "in": "y", "do": [{"f": "i"}], "seq": True}
    yield "for i in y:\n  i = x\n  f(i)", {"foreach": "i", "in": "y", "do": [{"set": {"i": "x"}}, {"f": "i"}], "seq": True}
    yield "for i, j in y:\n  f(i, j)\n  j = i", {"forkey": "i", "forval": "j", "in": "y", "do": [{"f": ["i", "j"]}, {"set": {"j": "i"}}]}
    yield "while x < y:\n  x = z\n  n = x", {"while": {"<": ["x", "y"]}, "do": [{"set": {"x": "z"}}, {"let": {"n": "x"}}]}
    yield "if x:\n  f(y)", {"if": "x", "then": [{"f": "y"}]}
    yield "if x:\n  f(y)\nelse:\n  g(z)\n  z", {"if": "x", "then": [{"f": "y"}], "else": [{"g": "z"}, "z"]}
    yield "if x:\n  1\nelif y:\n  2", {"cond": [{"if": "x", "then": [1]}, {"if": "y", "then": [2]}]}
    yield "if x:\n  1\nelif y:\n  2\nelse:\n  3", {"cond": [{"if": "x", "then": [1]}, {"if": "y", "then": [2]}], "else": [3]}
    yield "if x:\n  1\nelif y:\n  2\nelif z:\n  3\nelse:\n  4", {"cond": [{"if": "x", "then": [1]}, {"if": "y", "then": [2]}, {"if": "z", "then": [3]}], "else": [4]}
    # names declared inside a block are not known after it
    yield "if x:\n  n = 1\nn = 2", [{"if": "x", "then": [{"let": {"n": 1}}]}, {"let": {"n": 2}}]
    yield "if x:\n  n = 1\nelse:\n  n = 2", {"if": "x", "then": [{"let": {"n": 1}}], "else": [{"let": {"n": 2}}]}
    yield "for i in y:\n  n = i\ni = 2\nn = 3", [{"foreach": "i", "in": "y", "do": [{"let": {"n": "i"}}], "seq": True}, {"let": {"i": 2}}, {"let": {"n": 3}}]
    yield "for i, j in y:\n  n = i\ni = j", [{"forkey": "i", "forval": "j", "in": "y", "do": [{"let": {"n": "i"}}]}, {"let": {"i": "j"}}]
    yield "while x:\n  n = 1\nn = 2", [{"while": "x", "do": [{"let": {"n": 1}}]}, {"let": {"n": 2}}]
    yield "n = 1\nif x:\n  n = 2", [{"let": {"n": 1}}, {"if": "x", "then": [{"set": {"n": 2}}]}]
    # more parts than the forms above have
    for n in (4, 5, 6):
        xs = (["x", "y", "z"] * 3)[:n]
        yield "x" + "".join(".a%d" % i for i in range(n)), {"attr": "x", "path": [st("a%d" % i) for i in range(n)]}
        for b, kind in (("c", "cell"), ("k", "pool"), ("x", "attr")):
            yield b + "".join("[%s]" % x if i % 2 else ".a%d" % i for i, x in enumerate(xs)), {kind: b, "path": [x if i % 2 else st("a%d" % i) for i, x in enumerate(xs)]}
            yield b + "".join("[%d]" % i for i in range(n)), {kind: b, "path": list(range(n))}
        yield "f(%s)" % ", ".join(xs), {"f": xs}
        yield "(%s)" % ", ".join(xs), xs
        yield "print(%s)" % ", ".join(xs), {"log": xs}
        yield "f(x, %s)" % ", ".join("p%d=%s" % (i, x) for i, x in enumerate(xs)), dict([("f", "x")] + [("p%d" % i, x) for i, x in enumerate(xs)])
        yield "[%s]" % ", ".join(str(i) for i in range(n)), list(range(n))
        yield "{%s}" % ", ".join("'a%d': %d" % (i, i) for i in range(n)), dict(("a%d" % i, i) for i in range(n))
        yield ", ".join("n%d" % i for i in range(n)) + " = " + ", ".join(xs), {"let": dict(("n%d" % i, x) for i, x in enumerate(xs))}
        ops = ["<", "<=", "!=", ">", ">=", "=="][:n - 1]
        out = {"<": [xs[0], xs[1]]}
        for i, o in enumerate(ops):
            if i:
                out = {"&&": [out, {o: [xs[i], xs[i + 1]]}]}
        yield xs[0] + "".join(" %s %s" % (o, x) for o, x in zip(ops, xs[1:])), out
        for w, o in (("and", "&&"), ("or", "||")):
            out = "x"
            for x in xs[1:]:
                out = {o: [out, x]}
            yield (" %s " % w).join(xs), out
        for o, a in (("+", "+"), ("-", "-")):
            out = "x"
            for x in xs[1:]:
                out = {a: [out, x]}
            yield (" %s " % o).join(xs), out
        body = ["f(%d)" % i for i in range(n)]
        done = [{"f": i} for i in range(n)]
        block = "".join("\n  " + b for b in body)
        yield "\n".join(body), done
        yield "for i in y:" + block, {"foreach": "i", "in": "y", "do": done, "seq": True}
        yield "for i, j in y:" + block, {"forkey": "i", "forval": "j", "in": "y", "do": done}
        yield "while x:" + block, {"while": "x", "do": done}
        yield "if x:" + block + "\nelse:" + block, {"if": "x", "then": done, "else": done}
        cond = "\n".join("%s f(x) == %d:%s" % ("elif" if i else "if", i, block) for i in range(n))
        ifs = [{"if": {"==": [{"f": "x"}, i]}, "then": done} for i in range(n)]
        yield cond, {"cond": ifs}
        yield cond + "\nelse:" + block, {"cond": ifs, "else": done}


PLACES = [("f(%s, y)", lambda e: {"f": [e, "y"]}), ("f(y, %s)", lambda e: {"f": ["y", e]}), ("f(y, part=%s)", lambda e: {"f": "y", "part": e}), ("%s - y", lambda e: {"-": [e, "y"]}),
          ("y - %s", lambda e: {"-": ["y", e]}), ("-%s", lambda e: {"u-": e}), ("not %s", lambda e: {"!": e}), ("%s if y else z", lambda e: {"if": "y", "then": e, "else": "z"}),
          ("z if %s else y", lambda e: {"if": e, "then": "z", "else": "y"}), ("z if y else %s", lambda e: {"if": "y", "then": "z", "else": e}), ("y < %s", lambda e: {"<": ["y", e]}),
          ("y < %s < z", lambda e: {"&&": [{"<": ["y", e]}, {"<": [e, "z"]}]}), ("%s and y", lambda e: {"&&": [e, "y"]}), ("y or %s", lambda e: {"||": ["y", e]}),
          ("x[%s]", lambda e: {"attr": "x", "path": [e]}), ("n = %s", lambda e: {"let": {"n": e}}), ("x = %s", lambda e: {"set": {"x": e}}), ("n, m = y, %s", lambda e: {"let": {"n": "y", "m": e}}),
          ("print(y, %s)", lambda e: {"log": ["y", e]}), ("for i in %s:\n  i", lambda e: {"foreach": "i", "in": e, "do": ["i"], "seq": True}),
          ("for i, j in %s:\n  i", lambda e: {"forkey": "i", "forval": "j", "in": e, "do": ["i"]}), ("while %s:\n  y", lambda e: {"while": e, "do": ["y"]}),
          ("if %s:\n  y", lambda e: {"if": e, "then": ["y"]}), ("if x:\n  %s", lambda e: {"if": "x", "then": [e]}), ("if x:\n  y\nelse:\n  %s", lambda e: {"if": "x", "then": ["y"], "else": [e]})]
INNER = [("(y * z)", {"*": ["y", "z"]}), ("f(y, z)", {"f": ["y", "z"]}), ("y.a", {"attr": "y", "path": [st("a")]}), ("c.a", {"cell": "c", "path": [st("a")]}), ("k['i'].a", {"pool": "k", "path": [st("i"), st("a")]}),
         ("(x if y else z)", {"if": "y", "then": "x", "else": "z"}), ("(x < y)", {"<": ["x", "y"]}), ("(x and z)", {"&&": ["x", "z"]}), ("(~x)", {"~": "x"}), ("'text'", st("text")), ("2.5", 2.5), ("None", None),
         ("True", True), ("{'a': 1}", {"a": 1}), ("[1, 2]", [1, 2]), ("Type(y, Value=z)", {"type": "y", "value": "z"})]


def places():
    for t, make in PLACES:
        for e, v in INNER:
            yield t % e, make(v)


REFUSED = ["x @ y", "x << y", "x >> y", "+x", "x in y", "x is y", "x not in y", "x is not y", "lambda a: a", "x[1:2]", "x[...]", "[i for i in y]", "{1: 2}", "[x]", "{x: 1}", "f(*x)",
           "f(x)(y)", "import os", "def f(a):\n  return a", "class A:\n  pass", "x += 1", "return x", "del x", "assert x", "n = m = x", "x.a = y", "x[0] = y", "n, x = y, z",
           "raise E", "raise E('a')", "for i.a in y:\n  i", "for i, j, l in y:\n  i", "try:\n  x\nexcept:\n  y", "with x:\n  y", "global x", "b'a'",
           "for i in y:\n  f(i)\nelse:\n  g(x)", "while x:\n  f(x)\nelse:\n  g(x)", "f(x, **y)", "n, m = x, y, z"]
LINES = [("x + y", {"@": "Python line 1", "+": ["x", "y"]}), ("x\nn = y", ["x", {"@": "Python line 2", "let": {"n": "y"}}]), ("\n\nf(x)", {"@": "Python line 3", "f": "x"}),
         ("if x:\n  f(y)", {"@": "Python line 1", "if": "x", "then": [{"@": "Python line 2", "f": "y"}]})]


def same(a, b):
    if isinstance(a, Sub) or isinstance(b, Sub):
        return isinstance(a, Sub) and isinstance(b, Sub) and (b.name == "any" or a.name == b.name)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def run(R):
    R.rule("forms", "each Python statement and expression the converter takes becomes the PFA form it stands for, with every part from its own place and in order; names are declared once and reassigned afterwards, within their block")
    R.rule("lines", "with line numbers asked for, each form made from Python code says the line it came from")
    R.rule("refused", "Python code without a PFA equivalent is refused with PythonToPfaException; no part of it is left out")
    R.rule("function", "fcn puts its parameters, return type and converted body into the function's own fields")
    p = Project()
    it = Nodes(p, AstModel(p))
    m = p.mod(WHERE)

    def find(name):
        f = p.func(WHERE, name)
        f = f if isinstance(f, ast.FunctionDef) else f[0] if isinstance(f, tuple) else None
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (WHERE, name))
        return f
    pfa, fcn = find("pfa"), find("fcn")
    where = p.where(pfa, m)
    und = []

    def names(*xs):
        return lambda i, f: i.mklist(f, "list", [V(Const(x)) for x in xs], xs)

    def options(lines):
        return lambda i, f: i.mkdict(f, [(V(Const("lineNumbers")), V(Const(lines)))])

    def subs(i, f):
        return i.mkdict(f, [(V(Const("S")), V(Sym(("sub", "list"), (), None)))])

    def outcome(fn, args):
        """(documents, classes raised, what the syntax tree lacks) or None"""
        it.missing, it.keep = [], []
        outs = it.call_in(fn, m, args)
        got = []
        for v, s in outs:
            it.st = s
            got.append(it.doc(v))
        return got, set(str(getattr(x, "name", x)) for x in it.raised), it.missing

    def case(rule, text, want, lines=False, fn=None, args=None):
        R.count(rule)
        try:
            got, raised, missing = outcome(fn or pfa, args or [V(Const(text)), subs, names("x", "y", "z"), names("c"), names("k"), options(lines)])
        except Unjudged as u:
            und.append("%s: %s" % (text, u))
            return
        show = text.replace("\n", " | ")
        for l, x in sorted(set(missing)):
            R.finding(rule, show, "reads what Python's syntax tree does not have: %s" % x, where)
        if missing:
            return
        if want is UNTAKEN:
            if got and raised:
                und.append("%s: refused or not" % text)
                return
            for g in got:
                R.finding(rule, show, "becomes %s" % repr(g)[:110], where)
            for r in sorted(raised - {"PythonToPfaException"}):
                R.finding(rule, show, "is refused with %s" % r, where)
            return
        if not got:
            R.finding(rule, show, "is refused (%s)" % ", ".join(sorted(raised)), where)
        if len(got) > 1 and any(same(g, want) for g in got) and not all(same(g, want) for g in got):
            und.append("%s: several outcomes" % text)
            return
        for g in got:
            if not same(g, want):
                R.finding(rule, show, "becomes %s, not %s" % (repr(g)[:140], repr(want)[:140]), where)

    for text, want in list(samples()) + list(places()):
        case("forms", text, want)
    for text, want in LINES:
        case("lines", text, want, lines=True)
    for text in REFUSED:
        case("refused", text, UNTAKEN)
    one = lambda n: V(Sym(("sub", n), (), None))
    for text, body in (("n = 1\nn", [{"let": {"n": 1}}, "n"]), ("x", "x")):
        case("function", text, {"params": Sub("list"), "ret": Sub("str"), "do": body}, fn=fcn, args=[one("list"), one("str"), V(Const(text)), subs, names("c"), names("k"), options(False)])
    R.note("not judged", sorted(set(und)))
    R.floor("forms", 150)
    R.floor("refused", 25)


if __name__ == "__main__":
    report.main("P02", run)
