"""Kinds of numbers (whole or floating-point) computed by library functions, for given argument types.

A value is a set of kinds: "int", "float", "bool", "str", "null", "top", ("arr", kinds), ("map", kinds), ("tup", values),
("c", constant) for what the parameter types and literals say.  Branches on constants are decided, so code that depends on
the declared types is followed for those types; everything else is joined.  What is not understood is "top"."""
import ast

TOP = frozenset(["top"])
INT, FLOAT, BOOL, STR, NULL, BOT = (frozenset([x]) for x in ("int", "float", "bool", "str", "null", "")) 
BOT = frozenset()
MATHINT = {"floor", "ceil", "trunc", "factorial", "gcd"}
MATHFLOAT = {"sqrt", "exp", "expm1", "log", "log10", "log1p", "log2", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh",
             "tanh", "fabs", "hypot", "lgamma", "gamma", "erf", "erfc", "copysign", "ldexp", "fmod", "degrees", "radians"}
MATHBOOL = {"isnan", "isinf", "isfinite"}
STRSTR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "join", "format", "zfill", "ljust", "rjust", "center", "title", "capitalize"}
STRINT = {"find", "rfind", "index", "rindex", "count"}


class Frozen(tuple):
    pass


def lit(v):
    return frozenset([("c", freeze(v))])


def freeze(v):
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(freeze(x) for x in v)
    return ("v", type(v).__name__, v)


def kind(x):
    """The kind of a constant."""
    if isinstance(x, tuple) and x and x[0] == "c":
        v = x[1]
        if v[0] == "v":
            return {"int": "int", "float": "float", "bool": "bool", "str": "str", "NoneType": "null"}.get(v[1], "top")
        return "top"
    return x


def kinds(v):
    return frozenset(kind(x) for x in v)


def elems(v):
    out = set()
    for x in v:
        if isinstance(x, tuple) and x[0] == "arr":
            out |= x[1]
        elif isinstance(x, tuple) and x[0] == "tup":
            for y in x[1]:
                out |= y
        elif isinstance(x, tuple) and x[0] == "map":
            out.add("str")
        elif isinstance(x, tuple) and x[0] == "c" and x[1][0] == "list":
            out |= frozenset(("c", y) for y in x[1][1:])
        elif kind(x) == "str":
            out.add("str")
        else:
            out.add("top")
    return frozenset(out)


def deep(v, d=0):
    return v if d < 4 else TOP


def widen(v):
    if len(v) > 12:
        v = kinds(v)
    if len(v) > 12:
        return TOP
    def dep(x):
        return 1 + max([dep(z) for y in (x[1] if x[0] == "tup" else [f[1] for f in x[1]] if x[0] == "rec" else [x[1]]) for z in y] or [0]) if isinstance(x, tuple) and x[0] in ("arr", "map", "tup", "rec") else 0
    return frozenset("top" if dep(x) > 4 else x for x in v)


def num(a, b, op):
    ka, kb = kinds(a), kinds(b)
    out = set()
    for x in ka:
        for y in kb:
            nx, ny = x in ("int", "bool", "float"), y in ("int", "bool", "float")
            if nx and ny:
                if isinstance(op, ast.Div):
                    out.add("float")
                elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and x == y == "bool":
                    out.add("bool")
                elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)):
                    out.add("int")
                elif isinstance(op, ast.Pow):
                    out.add("float" if "float" in (x, y) else "top")
                else:
                    out.add("float" if "float" in (x, y) else "int")
            elif x == "str" and (y == "str" or isinstance(op, ast.Mod)):
                out.add("str")
            elif isinstance(op, ast.Add) and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "arr":
                out.add(("arr", x[1] | y[1]))
            elif isinstance(op, ast.Mult) and isinstance(x, tuple) and x[0] == "arr":
                out.add(x)
            else:
                out.add("top")
    return frozenset(out)


FUEL = 20000


class Stop(Exception):
    """Too much to follow: the case is not judged."""


CLASSES = {"int": {"int", "bool"}, "long": {"int"}, "float": {"float"}, "bool": {"bool"}, "str": {"str"}, "basestring": {"str"}, "string_types": {"str"},
           "Number": {"int", "float", "bool"}, "Integral": {"int", "bool"}, "integer_types": {"int", "bool"}, "list": {"arr"}, "tuple": {"tup"},
           "dict": {"map"}, "Mapping": {"map"}, "bytes": set(), "unicode": {"str"}, "set": set()}


def is_a(x, names):
    """Whether a value of kind x is an instance of one of the classes; None if not known."""
    if x == "null":
        k = "null"
    elif isinstance(x, tuple) and x[0] == "c" and x[1][0] != "v":
        k = "arr" if x[1][0] == "list" else "map"
    else:
        k = kind(x)
        k = k[0] if isinstance(k, tuple) else k
    k = "map" if k == "rec" else k
    if k in ("top", "fn") or not all(n in CLASSES for n in names):
        return None
    if k in ("arr", "tup") and len(set(["list", "tuple"]) & set(names)) != 0:
        return True
    return any(k in CLASSES[n] for n in names)


class Num(object):
    def __init__(self, proj):
        self.p = proj
        self.steps = 0
        self.memo = {}

    # -- functions
    def call(self, node, mod, cls, env, depth=0):
        """Kinds a function returns."""
        if depth > 5:
            return TOP
        try:
            key = (id(node), depth, frozenset(env.items()))
        except TypeError:
            key = None
        if key in self.memo:
            return self.memo[key]
        r = self.call1(node, mod, cls, env, depth)
        if key is not None:
            self.memo[key] = r
        return r

    def call1(self, node, mod, cls, env, depth):
        fr = {"ret": set(), "mod": mod, "cls": cls, "depth": depth, "breaks": []}
        out = self.block(node.body, dict(env), fr)
        if out is not None:
            fr["ret"].add("null")
        return frozenset(fr["ret"])

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            out[k] = widen(a.get(k, BOT) | b.get(k, BOT))
        return out

    def block(self, body, env, fr):
        for s in body:
            env = self.stmt(s, env, fr)
            if env is None:
                return None
        return env

    def stmt(self, s, env, fr):
        self.steps += 1
        if self.steps > FUEL:
            raise Stop()
        if isinstance(s, ast.Expr):
            self.expr(s.value, env, fr)
            return env
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert)):
            return env
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env, fr)
            for t in s.targets:
                self.bind(t, v, env, fr)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.expr(s.value, env, fr), env, fr)
            return env
        if isinstance(s, ast.AugAssign):
            old = self.expr(s.target, env, fr)
            self.bind(s.target, num(old, self.expr(s.value, env, fr), s.op), env, fr)
            return env
        if isinstance(s, ast.Return):
            fr["ret"] |= self.expr(s.value, env, fr) if s.value is not None else NULL
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.If):
            d = self.decide(s.test, env, fr)
            ea, eb = self.narrow(s.test, env, fr)
            a = self.block(s.body, ea, fr) if d is not False else None
            b = self.block(s.orelse, eb, fr) if d is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            br = []
            fr["breaks"].append(br)
            cur = dict(env)
            forever = isinstance(s, ast.While) and self.decide(s.test, env, fr) is True and isinstance(s.test, ast.Constant)
            for rnd in range(6):
                e = dict(cur)
                if isinstance(s, ast.For):
                    self.bind(s.target, elems(self.expr(s.iter, e, fr)), e, fr)
                e = self.block(s.body, e, fr)
                conts = [x for k, x in br if k == "c"]
                for x in conts:
                    e = self.join(e, x)
                new = self.join(cur, e) if e is not None else cur
                if new == cur:
                    break
                if rnd == 5:
                    new = dict((k, v if cur.get(k) == v else TOP) for k, v in new.items())
                cur = new
            fr["breaks"].pop()
            out = None if forever else self.block(s.orelse, dict(cur), fr) if s.orelse else cur
            for k, x in br:
                if k == "b":
                    out = self.join(out, x)
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            if fr["breaks"]:
                fr["breaks"][-1].append(("b" if isinstance(s, ast.Break) else "c", dict(env)))
            return None
        if isinstance(s, ast.Try):
            start = dict(env)
            a = self.block(s.body, env, fr)
            if a is not None and s.orelse:
                a = self.block(s.orelse, a, fr)
            mid = self.join(dict(start), a)
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = TOP
                a = self.join(a, self.block(h.body, e, fr))
            if s.finalbody:
                if a is None:
                    self.block(s.finalbody, dict(mid), fr)
                else:
                    a = self.block(s.finalbody, a, fr)
            return a
        if isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, TOP, env, fr)
            return self.block(s.body, env, fr)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env[s.name] = frozenset([("fn", s)]) if isinstance(s, ast.FunctionDef) else TOP
            return env
        if isinstance(s, ast.Delete):
            return env
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = TOP
        return env

    def bind(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            env[t.id] = widen(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, TOP, env, fr)
                    continue
                out = set()
                for o in v:
                    if isinstance(o, tuple) and o[0] == "tup":
                        out |= o[1][i] if i < len(o[1]) else TOP
                    else:
                        out |= elems([o])
                self.bind(x, frozenset(out), env, fr)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env:
            out = set()
            for o in env[t.value.id]:
                out.add((o[0], widen(o[1] | v)) if isinstance(o, tuple) and o[0] in ("arr", "map") else "top")
            env[t.value.id] = frozenset(out)

    def decide(self, e, env, fr):
        v = self.expr(e, env, fr)
        ds = set()
        for x in v:
            if isinstance(x, tuple) and x[0] == "c":
                c = x[1]
                ds.add(bool(c[2]) if c[0] == "v" else len(c) > 1)
            elif x == "null":
                ds.add(False)
            else:
                return None
        return ds.pop() if len(ds) == 1 else None

    def narrow(self, t, env, fr):
        """The environments where t is true and where it is false, as far as isinstance(name, class) tells."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            b, a = self.narrow(t.operand, env, fr)
            return a, b
        a, b = dict(env), dict(env)
        if isinstance(t, ast.BoolOp):
            for x in t.values:
                na, nb = self.narrow(x, a if isinstance(t.op, ast.And) else b, fr)
                if isinstance(t.op, ast.And):
                    a = na
                else:
                    b = nb
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id in env:
            names = [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?" for x in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])]
            v = env[t.args[0].id]
            a[t.args[0].id] = frozenset(x for x in v if is_a(x, names) is not False)
            b[t.args[0].id] = frozenset(x for x in v if is_a(x, names) is not True)
        return a, b

    # -- expressions
    def expr(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        return m(e, env, fr) if m is not None else TOP

    def e_Constant(self, e, env, fr):
        return lit(e.value) if isinstance(e.value, (int, float, str, bool, type(None))) else TOP

    def e_Name(self, e, env, fr):
        if e.id in env:
            return env[e.id]
        return TOP

    def e_List(self, e, env, fr):
        out = set()
        for x in e.elts:
            out |= elems(self.expr(x.value, env, fr)) if isinstance(x, ast.Starred) else self.expr(x, env, fr)
        return frozenset([("arr", widen(frozenset(out)))])

    e_Set = e_List

    def e_Tuple(self, e, env, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return TOP
        return frozenset([("tup", tuple(self.expr(x, env, fr) for x in e.elts))])

    def e_Dict(self, e, env, fr):
        out = set()
        for x in e.values:
            out |= self.expr(x, env, fr)
        return frozenset([("map", widen(frozenset(out)))]) if all(k is not None for k in e.keys) else TOP

    def e_BinOp(self, e, env, fr):
        return num(self.expr(e.left, env, fr), self.expr(e.right, env, fr), e.op)

    def e_UnaryOp(self, e, env, fr):
        v = self.expr(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            d = self.decide(e.operand, env, fr)
            return BOOL if d is None else lit(not d)
        return frozenset("int" if k == "bool" else k if k in ("int", "float") else "top" for k in kinds(v))

    def e_BoolOp(self, e, env, fr):
        out, orr = set(), isinstance(e.op, ast.Or)
        for x in e.values[:-1]:
            d = self.decide(x, env, fr)
            if d is orr:
                return frozenset(out) | self.expr(x, env, fr)
            if d is None:
                out |= self.expr(x, env, fr)
        return frozenset(out) | self.expr(e.values[-1], env, fr)

    def e_Compare(self, e, env, fr):
        vs = [self.expr(x, env, fr) for x in [e.left] + e.comparators]
        for i, x in enumerate([e.left] + e.comparators):
            if isinstance(x, (ast.Dict, ast.List)):
                try:
                    vs[i] = lit(ast.literal_eval(x))
                except ValueError:
                    pass
        if len(e.ops) != 1:
            return BOOL
        a, b = vs
        op = e.ops[0]
        if len(a) == 1 and len(b) == 1:
            (x,), (y,) = a, b
            cx = x[1] if isinstance(x, tuple) and x[0] == "c" else ("v", "NoneType", None) if x == "null" else None
            cy = y[1] if isinstance(y, tuple) and y[0] == "c" else ("v", "NoneType", None) if y == "null" else None
            if cx is not None and cy is not None and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                same = cx == cy if cx[0] != "v" or cy[0] != "v" else cx[2] == cy[2]
                return lit(same == isinstance(op, (ast.Eq, ast.Is)))
            if cx is not None and isinstance(op, (ast.In, ast.NotIn)):
                el = None
                if isinstance(y, tuple) and y[0] == "tup":
                    el = [z for z in y[1]]
                elif isinstance(y, tuple) and y[0] == "arr":
                    el = [frozenset([z]) for z in y[1]]
                elif cy is not None and cy[0] == "list":
                    el = [frozenset([("c", z)]) for z in cy[1:]]
                elif cy is not None and cy[0] == "dict":
                    el = [lit(k) for k, _ in cy[1:]]
                elif cy is not None and cy[0] == "v" and cy[1] == "str" and cx[0] == "v" and cx[1] == "str":
                    return lit((cx[2] in cy[2]) == isinstance(op, ast.In))
                if el is not None and all(len(z) == 1 and isinstance(list(z)[0], tuple) and list(z)[0][0] == "c" for z in el):
                    r = any(list(z)[0][1] == cx for z in el)
                    return lit(r == isinstance(op, ast.In))
        return BOOL

    def e_IfExp(self, e, env, fr):
        d = self.decide(e.test, env, fr)
        return (self.expr(e.body, env, fr) if d is not False else BOT) | (self.expr(e.orelse, env, fr) if d is not True else BOT)

    def e_JoinedStr(self, e, env, fr):
        return STR

    def e_NamedExpr(self, e, env, fr):
        v = self.expr(e.value, env, fr)
        self.bind(e.target, v, env, fr)
        return v

    def e_Attribute(self, e, env, fr):
        if isinstance(e.value, ast.Name) and e.value.id == "math" and e.attr in ("pi", "e", "inf", "nan"):
            return FLOAT
        return TOP

    def e_Subscript(self, e, env, fr):
        v = self.expr(e.value, env, fr)
        if isinstance(e.slice, ast.Slice):
            return frozenset(x if isinstance(x, tuple) and x[0] == "arr" or kind(x) == "str" else "top" for x in v)
        i = self.expr(e.slice, env, fr)
        ic = None
        if len(i) == 1 and isinstance(list(i)[0], tuple) and list(i)[0][0] == "c" and list(i)[0][1][0] == "v":
            ic = list(i)[0][1][2]
        elif isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant) and isinstance(e.slice.operand.value, int):
            ic = -e.slice.operand.value
        out = set()
        for x in v:
            if isinstance(x, tuple) and x[0] == "c":
                c = x[1]
                try:
                    if c[0] == "list":
                        out.add(("c", c[1:][ic]))
                    elif c[0] == "dict":
                        out.add(("c", dict(c[1:])[ic]))
                    else:
                        out.add("str" if c[1] == "str" else "top")
                except (KeyError, IndexError, TypeError):
                    out.add("top")
            elif isinstance(x, tuple) and x[0] == "tup":
                if isinstance(ic, int) and -len(x[1]) <= ic < len(x[1]):
                    out |= x[1][ic]
                else:
                    out |= elems([x])
            elif isinstance(x, tuple) and x[0] in ("arr", "map"):
                out |= x[1]
            elif isinstance(x, tuple) and x[0] == "rec":
                out |= dict(x[1]).get(ic, TOP)
            else:
                out.add("str" if x == "str" else "top")
        return frozenset(out)

    def comp(self, e, env, fr):
        env = dict(env)
        for g in e.generators:
            self.bind(g.target, elems(self.expr(g.iter, env, fr)), env, fr)
        return env

    def e_ListComp(self, e, env, fr):
        if len(e.generators) == 1:
            # a list that is known is gone through item by item
            g = e.generators[0]
            v = self.expr(g.iter, env, fr)
            o = list(v)[0] if len(v) == 1 else None
            if isinstance(o, tuple) and o[0] == "c" and o[1][0] == "list":
                out = []
                for x in o[1][1:]:
                    en = dict(env)
                    self.bind(g.target, frozenset([("c", x)]), en, fr)
                    ds = [self.decide(t, en, fr) for t in g.ifs]
                    if False in ds:
                        continue
                    r = self.expr(e.elt, en, fr)
                    if None in ds or len(r) != 1 or not (isinstance(list(r)[0], tuple) and list(r)[0][0] == "c"):
                        break
                    out.append(list(r)[0][1])
                else:
                    return frozenset([("c", ("list",) + tuple(out))])
        return frozenset([("arr", widen(self.expr(e.elt, self.comp(e, env, fr), fr)))])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env, fr):
        return frozenset([("map", widen(self.expr(e.value, self.comp(e, env, fr), fr)))])

    def e_Lambda(self, e, env, fr):
        return frozenset([("fn", e)])

    def e_Call(self, e, env, fr):
        f = e.func
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            for a in e.args:
                self.expr(a.value if isinstance(a, ast.Starred) else a, env, fr)
            return TOP
        args = [self.expr(a, env, fr) for a in e.args]
        if isinstance(f, ast.Name) and f.id == "isinstance" and f.id not in env and len(args) == 2:
            return self.isinst(args[0], e.args[1])
        kw = dict((k.arg, self.expr(k.value, env, fr)) for k in e.keywords)
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.p.lookup(fr["mod"], f.id)
            if r and r[0] == "func":
                return self.user(r[1], r[2] if len(r) > 2 else fr["mod"], None, args, kw, env, fr, False)
            if r and r[0] != "builtin":
                return TOP
            return self.builtin(f.id, args, kw)
        if isinstance(f, ast.Name):
            out = set()
            for o in env[f.id]:
                if isinstance(o, tuple) and o[0] == "fn":
                    out |= self.local(o[1], args, kw, env, fr)
                else:
                    out.add("top")
            return frozenset(out)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "math" and "math" not in env:
                return INT if f.attr in MATHINT else FLOAT if f.attr in MATHFLOAT else BOOL if f.attr in MATHBOOL else TOP
            if isinstance(f.value, ast.Name) and f.value.id == "self" and fr["cls"] is not None:
                m = self.p.method(fr["cls"], f.attr)
                if m is not None:
                    return self.user(m[0], m[1].mod, fr["cls"], args, kw, env, fr, True)
                return TOP
            base = self.expr(f.value, env, fr)
            if f.attr in ("append", "add", "insert", "extend", "update") and isinstance(f.value, ast.Name) and f.value.id in env and args:
                v = args[-1] if f.attr in ("append", "add", "insert") else elems(args[-1]) if f.attr == "extend" else TOP
                env[f.value.id] = frozenset((o[0], widen(o[1] | v)) if isinstance(o, tuple) and o[0] in ("arr", "map") else "top" for o in base)
                return NULL
            if f.attr in ("copy",):
                return base
            if f.attr in ("pop", "get") and base and all(isinstance(o, tuple) and o[0] in ("arr", "map") for o in base):
                out = set()
                for o in base:
                    out |= o[1]
                for a in args[1:]:
                    out |= a
                if f.attr == "get" and len(args) < 2:
                    out.add("null")
                return frozenset(out)
            if base and all(isinstance(o, tuple) and o[0] == "map" for o in base):
                if f.attr == "values":
                    return frozenset(("arr", o[1]) for o in base)
                if f.attr == "keys":
                    return frozenset([("arr", STR)])
                if f.attr == "items":
                    return frozenset(("arr", frozenset([("tup", (STR, o[1]))])) for o in base)
            if f.attr == "get" and len(base) == 1 and len(args) in (1, 2):
                (o,) = base
                k = list(args[0])[0] if len(args[0]) == 1 else None
                if isinstance(o, tuple) and o[0] == "c" and o[1][0] == "dict" and isinstance(k, tuple) and k[0] == "c" and k[1][0] == "v":
                    d = dict(o[1][1:])
                    return frozenset([("c", d[k[1][2]])]) if k[1][2] in d else args[1] if len(args) == 2 else lit(None)
            ks = kinds(base)
            if ks == STR:
                return STR if f.attr in STRSTR else INT if f.attr in STRINT else frozenset([("arr", STR)]) if f.attr in ("split", "rsplit", "splitlines") else BOOL if f.attr.startswith(("is", "starts", "ends")) else TOP
            if f.attr in ("index", "count") and ks and all(isinstance(k, tuple) and k[0] == "arr" for k in ks):
                return INT
        return TOP

    def isinst(self, v, cl):
        names = [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?" for x in (cl.elts if isinstance(cl, ast.Tuple) else [cl])]
        ds = set(is_a(x, names) for x in v)
        return lit(ds.pop()) if len(ds) == 1 and None not in ds else BOOL

    def user(self, node, mod, cls, args, kw, env, fr, bound):
        if not isinstance(node, ast.FunctionDef) or node.args.vararg or node.args.kwarg:
            return TOP
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        if bound and not static:
            names = names[1:]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return TOP
        e = dict((n, TOP) for n in names)
        for n, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
            e[n] = self.expr(d, {}, fr)
        if len(args) > len(names):
            return TOP
        e.update(zip(names, args))
        e.update((k, v) for k, v in kw.items() if k in e)
        return self.call(node, mod, cls, e, fr["depth"] + 1)

    def local(self, node, args, kw, env, fr):
        if fr["depth"] > 4:
            return TOP
        if isinstance(node, ast.Lambda):
            names = [a.arg for a in node.args.args]
            if len(args) != len(names):
                return TOP
            e = dict(env)
            e.update(zip(names, args))
            return self.expr(node.body, e, dict(fr, depth=fr["depth"] + 1))
        names = [a.arg for a in node.args.args]
        if len(args) > len(names) or node.args.vararg or node.args.kwarg:
            return TOP
        e = dict(env)
        e.update((n, TOP) for n in names)
        e.update(zip(names, args))
        e.update((k, v) for k, v in kw.items() if k in names)
        return self.call(node, fr["mod"], fr["cls"], e, fr["depth"] + 1)

    def builtin(self, n, args, kw):
        if n in ("int", "long", "len", "ord", "hash", "id"):
            return INT
        if n == "float":
            return FLOAT
        if n in ("str", "repr", "chr", "unicode", "hex", "oct", "bin"):
            return STR
        if n in ("any", "all") and len(args) == 1:
            # an empty array is not told apart from others
            v = elems(args[0])
            if len(v) == 1 and isinstance(list(v)[0], tuple) and list(v)[0][0] == "c" and list(v)[0][1][0] == "v":
                return lit(bool(list(v)[0][1][2]))
            return BOOL
        if n in ("bool", "isinstance", "callable", "hasattr"):
            return BOOL
        if n == "round" and args:
            return INT if len(args) == 1 and not kw else frozenset(k if k in ("int", "float") else "top" for k in kinds(args[0]))
        if n == "abs" and args:
            return frozenset("int" if k in ("int", "bool") else k if k == "float" else "top" for k in kinds(args[0]))
        if n in ("min", "max") and args:
            v = frozenset().union(*args) if len(args) > 1 else elems(args[0])
            return v | kw.get("default", BOT)
        if n == "sum" and args:
            ks = kinds(elems(args[0]))
            s = kinds(args[1]) if len(args) > 1 else INT
            if ks <= {"int", "bool"} and s <= {"int", "bool"}:
                return INT
            return FLOAT if s == FLOAT and ks <= {"int", "bool", "float"} else frozenset(["top"]) if "float" not in ks else frozenset(["top", "float"])
        if n in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "iter"):
            return frozenset([("arr", widen(elems(args[0])) if args else BOT)])
        if n in ("range", "xrange"):
            return frozenset([("arr", INT)])
        if n == "enumerate" and args:
            return frozenset([("arr", frozenset([("tup", (INT, elems(args[0])))]))])
        if n == "zip":
            return frozenset([("arr", frozenset([("tup", tuple(elems(a) for a in args))]))])
        if n == "next" and args:
            return elems(args[0])
        if n == "dict":
            if not args and not kw:
                return frozenset([("map", BOT)])
            if len(args) == 1 and not kw and all(isinstance(o, tuple) and o[0] == "map" for o in args[0]):
                return args[0]
        if n == "divmod" and len(args) == 2:
            v = num(args[0], args[1], ast.FloorDiv())
            return frozenset([("tup", (v, v))])
        if n == "pow" and len(args) == 2:
            return num(args[0], args[1], ast.Pow())
        return TOP


# -- types
WHOLE = {"Int": "int", "Long": "long"}
REAL = {"Float": "float", "Double": "double"}
PLAIN = dict(WHOLE, Null="null", Boolean="boolean", String="string", Bytes="bytes", **REAL)


def label_choices(pats):
    """label -> numbers it may stand for."""
    out, named = {}, set()

    def go(p):
        if isinstance(p, (list, tuple)):
            for x in p:
                go(x)
        elif isinstance(p, dict):
            for x in p.values():
                go(x)
        elif hasattr(p, "name"):
            if p.name == "Wildcard" and p.args and isinstance(p.args[0], str):
                one = [x for x in p.args[1:] if x is not None]
                ch = []
                for x in one:
                    q = x.args[0] if hasattr(x, "name") and x.name == "set" and x.args else x
                    if isinstance(q, (list, tuple)):
                        for y in q:
                            n = (y.name if hasattr(y, "name") else y if isinstance(y, str) else "").replace("Avro", "")
                            ch.append(n)
                if ch or p.args[0] not in out:
                    out[p.args[0]] = ch
            if p.name in ("WildRecord", "WildEnum", "WildFixed") and p.args and isinstance(p.args[0], str):
                named.add(p.args[0])
            for x in p.args:
                go(x)
    for p in pats:
        go(p)
    for k in named:
        out[k] = ["Record"]
    return dict((k, [x for x in v if x in PLAIN or x == "Record"] if v else ["Int", "Long", "Double", "String"]) for k, v in out.items())


def concrete(p, labels):
    """(JSON of the type, kinds of its values)"""
    n = getattr(p, "name", None)
    if n == "Wildcard":
        n = labels.get(p.args[0])
    if n in WHOLE:
        return WHOLE[n], INT
    if n in REAL:
        return REAL[n], frozenset(["int", "float"])
    if n in PLAIN:
        return PLAIN[n], {"Null": NULL, "Boolean": BOOL, "String": STR}.get(n, TOP)
    if n == "WildRecord" and len(p.args) > 1 and isinstance(p.args[1], dict):
        fs = sorted((k, x) for k, x in p.args[1].items() if isinstance(k, str))
        return {"type": "record", "name": "R", "fields": [{"name": k, "type": concrete(x, labels)[0]} for k, x in fs]}, frozenset([("rec", tuple(sorted((k, concrete(x, labels)[1]) for k, x in p.args[1].items() if isinstance(k, str))))])
    if n == "Array" and p.args:
        j, v = concrete(p.args[0], labels)
        return {"type": "array", "items": j}, frozenset([("arr", v)])
    if n == "Map" and p.args:
        j, v = concrete(p.args[0], labels)
        return {"type": "map", "values": j}, frozenset([("map", v)])
    return None, TOP


ALLOWED = {"null": {"null"}, "boolean": {"bool"}, "int": {"int"}, "long": {"int"}, "float": {"int", "float"}, "double": {"int", "float"}, "string": {"str"}}
SAID = {"int": "a whole number", "float": "a floating-point number", "bool": "a boolean", "str": "a string", "arr": "an array", "map": "a map", "tup": "a tuple"}


def misfit(v, want):
    """What in v is certainly of another kind than the type wanted; None if nothing (a missing value is not judged here)."""
    if isinstance(want, str) and want in ALLOWED:
        for x in sorted(kinds(v), key=str):
            k = x[0] if isinstance(x, tuple) else x
            if k in SAID and k not in ALLOWED[want]:
                return SAID[k]
    elif isinstance(want, dict):
        part = want.get("items", want.get("values"))
        key = "arr" if "items" in want else "map"
        for x in sorted(kinds(v), key=str):
            k = x[0] if isinstance(x, tuple) else x
            if k == key:
                r = misfit(x[1], part)
                if r:
                    return "%s with %s" % (SAID[key], r)
            elif k in SAID and not (k == "tup" and key == "arr"):
                return SAID[k]
    return None
