import ast, itertools, operator, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.interp import Const, Sym, Alloc, Ext, Fn, Cls, V, NONE, EMPTY, Unreach, _Const, _single_const
from sa.astmodel import AstModel
from sa.exact import Exact
from sa.lib import Library
from sa.libspec import build


class T(object):
    """Something of which nothing is known but what it is: an element, or what a given function returns for given arguments."""
    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, T) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key[0] if len(self.key) == 1 else "%s(%s)" % (self.key[0], ", ".join(map(repr, self.key[1:])))


class F(object):
    """A function given to the library function: what it returns for arguments."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, *a):
        return self.fn(*a)

    def __repr__(self):
        return self.name


class Unjudged(Exception):
    pass


class Fails(Unreach):
    """A Python error at a known place."""
    def __init__(self, name):
        Unreach.__init__(self)
        self.name = name


ARITH = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod, "FloorDiv": operator.floordiv}
PARENTS = {"KeyError": ("KeyError", "LookupError"), "IndexError": ("IndexError", "LookupError"), "ValueError": ("ValueError",), "TypeError": ("TypeError",)}


ERR = "an error"


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else tuple(sorted((k, freeze(v)) for k, v in x.items())) if isinstance(x, dict) else x


def term(name):
    return F(name, lambda *a: T(name, *[freeze(x) for x in a]))


class Elements(Exact):
    """Interprets library functions over containers of known size whose elements are opaque."""

    raises = 0

    def sym(self, x):
        return Sym(("F" if isinstance(x, F) else "T", x), (), None)

    def thing(self, o):
        return o.root[1] if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] in ("T", "F") and not o.path else None

    def lift(self, node, x):
        if isinstance(x, (T, F)):
            return V(self.sym(x))
        if isinstance(x, (list, tuple, set)):
            return self.mklist(node, type(x).__name__, [self.lift(node, y) for y in x], "lifted")
        if isinstance(x, dict):
            return self.mkdict(node, [(V(Const(k)), self.lift(node, v)) for k, v in x.items()])
        return V(Const(x))

    def py(self, v, depth=0):
        if len(v) != 1 or depth > 8:
            raise Unjudged(self.sh(v)[:80])
        o = next(iter(v))
        if isinstance(o, _Const):
            return o.v
        t = self.thing(o)
        if t is not None:
            return t
        if isinstance(o, Alloc):
            d = self.exactdict(v)
            if d is not None:
                return dict((_single_const(k).v, self.py(x, depth + 1)) for k, x in d)
            x = self.exact(v)
            if x is not None:
                y = [self.py(z, depth + 1) for z in x]
                if o.typ == "set":
                    try:
                        return frozenset(y)
                    except TypeError:
                        raise Unjudged("a set of lists")
                return tuple(y) if o.typ == "tuple" else y
        raise Unjudged(self.sh(v)[:80])

    def isinst1(self, o, classes):
        t = self.thing(o)
        if t is not None:
            return False
        return Exact.isinst1(self, o, classes)

    def on_load_attr(self, node, o, name):
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "type":
            if name == "name" and isinstance(o.root[1], str):
                return V(Const(o.root[1]))
        return Exact.on_load_attr(self, node, o, name)

    def on_call(self, node, o, args, kwargs):
        t = self.thing(o)
        if isinstance(o, Fn) and getattr(o.node, "name", None) == "callfcn" and len(args) == 4 and not kwargs:
            f = self.thing(next(iter(args[2]))) if len(args[2]) == 1 else None
            if f is None:
                raise Unjudged("the function called is %s" % self.sh(args[2])[:60])
            xs = self.items(args[3])
            if xs is None:
                raise Unjudged("arguments %s" % self.sh(args[3])[:60])
            if not isinstance(f, F):
                return self.lift(node, T("not a function"))
            try:
                return self.lift(node, f(*[self.py(x) for x in xs]))
            except (TypeError, KeyError, AttributeError, IndexError):
                return self.lift(node, T("wrong arguments of " + f.name, *[freeze(self.py(x)) for x in xs]))
        if isinstance(o, Fn) and getattr(o.node, "name", None) == "jsonNodeToAvroType" and len(args) == 1:
            return V(Sym(("type", self.py(args[0]) if isinstance(self.py(args[0]), str) else freeze(self.py(args[0]))), (), None))
        if isinstance(o, Fn) and getattr(o.node, "name", None) == "compare" and o.mod.name == "titus.datatype" and len(args) == 3:
            a, b = self.py(args[1]), self.py(args[2])
            return V(Const((rank(a) > rank(b)) - (rank(a) < rank(b))))
        return Exact.on_call(self, node, o, args, kwargs)

    def sequence(self, v):
        x = self.items(v)
        return x

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if recv is None and not kwargs:
            if q == "callable" and len(args) == 1 and len(args[0]) == 1:
                o = next(iter(args[0]))
                return V(Const(isinstance(self.thing(o), F) or isinstance(o, (Fn, Cls))))
            if q in ("map", "filter") and len(args) == 2:
                x = self.sequence(args[1])
                if x is not None:
                    out = []
                    for v in x:
                        r = self.call(node, args[0], [v])
                        if q == "map":
                            out.append(r)
                        else:
                            t = self.truth(r)
                            if t is None:
                                raise Unjudged("filter by %s" % self.sh(r)[:60])
                            if t:
                                out.append(v)
                    return self.mklist(node, "list", out, q)
            if q == "reduce" and len(args) in (2, 3):
                x = self.sequence(args[1])
                if x is not None:
                    x = list(x)
                    if len(args) == 3:
                        x.insert(0, args[2])
                    if not x:
                        raise Fails("TypeError")
                    v = x[0]
                    for y in x[1:]:
                        v = self.call(node, args[0], [v, y])
                    return v
            if q in ("takewhile", "dropwhile", "filterfalse") and len(args) == 2 and self.sequence(args[1]) is not None:
                out, on = [], q == "dropwhile"
                for v in self.sequence(args[1]):
                    if q != "dropwhile" or on:
                        t = self.truth(self.call(node, args[0], [v]))
                        if t is None:
                            raise Unjudged(q)
                        if q == "filterfalse":
                            if not t:
                                out.append(v)
                            continue
                        if q == "takewhile" and not t:
                            break
                        on = on and t
                    if not on:
                        out.append(v)
                return self.mklist(node, "list", out, q)
            if q in ("chain", "from_iterable") and args:
                xs = [self.sequence(a) for a in (args if q == "chain" else self.sequence(args[0]) or [])]
                if all(x is not None for x in xs):
                    return self.mklist(node, "list", [v for x in xs for v in x], q)
            if q in ("combinations", "permutations", "product") and args:
                xs = [self.sequence(a) for a in args]
                n = _single_const(args[1]) if len(args) == 2 and q != "product" else None
                if xs[0] is not None and (n is not None or all(x is not None for x in xs)):
                    it = getattr(itertools, q)(xs[0], n.v) if n is not None else getattr(itertools, q)(*xs)
                    return self.mklist(node, "list", [self.mklist(node, "tuple", list(t), (q, i)) for i, t in enumerate(it)], q)
        if recv is None:
            if q == "next" and 0 < len(args) < 3 and not kwargs and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], (ast.GeneratorExp, ast.Call)):
                x = self.sequence(args[0])
                if x is not None:
                    if x:
                        return x[0]
                    if len(args) == 2:
                        return args[1]
                    raise Fails("StopIteration")
            if q in ("min", "max") and len(args) > 1 and all(_single_const(a) is not None and isinstance(_single_const(a).v, int) for a in args):
                return V(Const((min if q == "min" else max)(_single_const(a).v for a in args)))
            if q == "enumerate" and args:
                x = self.sequence(args[0])
                s = args[1] if len(args) > 1 else kwargs.get("start", V(Const(0)))
                if x is not None and _single_const(s) is not None:
                    return self.mklist(node, "list", [self.mklist(node, "tuple", [V(Const(i + _single_const(s).v)), v], ("en", i)) for i, v in enumerate(x)], q)
            if q == "range" and args and all(_single_const(a) is not None and isinstance(_single_const(a).v, int) for a in args):
                try:
                    return self.mklist(node, "list", [V(Const(i)) for i in range(*[_single_const(a).v for a in args])], q)
                except ValueError:
                    raise Fails("ValueError")
            if q == "sorted" and len(args) == 1 and self.sequence(args[0]) is not None:
                x = self.sequence(args[0])
                key = kwargs.get("key")
                k = next(iter(key)) if key is not None and len(key) == 1 else None
                import functools
                rev = _single_const(kwargs["reverse"]).v if "reverse" in kwargs and _single_const(kwargs["reverse"]) is not None else False
                if isinstance(k, Sym) and isinstance(k.root, tuple) and k.root[0] == "bycmp":
                    def cmp(a, b):
                        c = _single_const(self.call(node, k.root[1], [a, b]))
                        if c is None:
                            raise Unjudged("the order of sorted")
                        return c.v
                    return self.mklist(node, "list", sorted(x, key=functools.cmp_to_key(cmp), reverse=rev), q)
                if key is None:
                    cs = [_single_const(v) for v in x]
                    if all(c is not None for c in cs):
                        return self.mklist(node, "list", [V(Const(y)) for y in sorted([c.v for c in cs], reverse=rev)], q)
                    raise Unjudged("sorted without a key")
                if len(key) == 1:
                    ks = [_single_const(self.call(node, key, [v])) for v in x]
                    if all(c is not None for c in ks):
                        o = sorted(range(len(x)), key=lambda i: ks[i].v, reverse=rev)
                        return self.mklist(node, "list", [x[i] for i in o], q)
                raise Unjudged("sorted by %s" % self.sh(key)[:60])
            if q == "cmp_to_key" and len(args) == 1:
                return V(Sym(("bycmp", args[0]), (), None))
        return Exact.ext(self, node, qual, recv, args, kwargs, sym)

    def ext_method(self, node, name, recv, args, kwargs):
        if len(recv) == 1 and isinstance(next(iter(recv)), Alloc):
            o = next(iter(recv))
            d = self.exactdict(recv)
            if d is not None and not kwargs:
                if name in ("keys", "values", "items") and not args:
                    ps = [k if name == "keys" else v if name == "values" else self.mklist(node, "tuple", [k, v], ("it", i)) for i, (k, v) in enumerate(d)]
                    return self.mklist(node, "list", ps, name)
                k = _single_const(args[0]) if args else None
                if name in ("get", "pop", "setdefault") and k is not None:
                    for a, v in d:
                        if _single_const(a) == k:
                            if name == "pop":
                                self.drop(o, k)
                            return v
                    if name == "pop" and len(args) == 1:
                        raise Fails("KeyError")
                    v = args[1] if len(args) > 1 else NONE
                    if name == "setdefault":
                        self.setitem(node, recv, args[0], v, node)
                    return v
            x = self.exact(recv)
            if x is not None and o.typ in ("list", "tuple") and not kwargs:
                if name in ("index", "count") and len(args) == 1:
                    t = self.py(args[0])
                    ys = [self.py(v) for v in x]
                    if name == "count":
                        return V(Const(ys.count(t)))
                    if t not in ys:
                        raise Fails("ValueError")
                    return V(Const(ys.index(t)))
                if name == "insert" and len(args) == 2 and _single_const(args[0]) is not None:
                    y = list(x)
                    y.insert(_single_const(args[0]).v, args[1])
                    self.put(o, y)
                    return NONE
                if name == "append" and len(args) == 1:
                    self.put(o, list(x) + [args[0]])
                    return NONE
                if name == "remove" and len(args) == 1:
                    ys, t = [self.py(v) for v in x], self.py(args[0])
                    if t not in ys:
                        raise Fails("ValueError")
                    self.put(o, [v for i, v in enumerate(x) if i != ys.index(t)])
                    return NONE
                if name == "clear":
                    self.put(o, [])
                    return NONE
            if x is not None and name == "sort" and o.typ == "list":
                self.put(o, self.exact(self.ext(node, "sorted", None, [recv], kwargs)))
                return NONE
            if name in ("popitem", "discard", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "appendleft", "popleft", "rotate") or \
                    d is not None and name in ("clear", "update") and (name == "clear" or kwargs or not args or self.exactdict(args[0]) is None):
                raise Unjudged("%s of %s" % (name, self.sh(recv)[:60]))
            if o.typ == "set" and x is not None and len(args) >= 1 and name in ("intersection", "symmetric_difference", "difference", "union", "issubset", "issuperset", "isdisjoint"):
                ys = self.items(args[0])
                if ys is not None and len(args) == 1:
                    a, b = [self.py(v) for v in x], [self.py(v) for v in ys]
                    if name == "issubset":
                        return V(Const(all(t in b for t in a)))
                    if name == "issuperset":
                        return V(Const(all(t in a for t in b)))
                    if name == "isdisjoint":
                        return V(Const(not any(t in a for t in b)))
                    i = [v for v, t in zip(x, a) if t in b]
                    l = [v for v, t in zip(x, a) if t not in b]
                    r = [v for v, t in zip(ys, b) if t not in a]
                    return self.mklist(node, "set", {"intersection": i, "difference": l, "union": list(x) + r, "symmetric_difference": l + r}[name], name)
        return Exact.ext_method(self, node, name, recv, args, kwargs)

    def drop(self, o, k):
        h = dict(self.st.heap.get(o, {}))
        h.pop(("k", k.v), None)
        h["keys"] = frozenset(x for x in h.get("keys", EMPTY) if x != k)
        h["#n"] = V(Const(len(h["keys"])))
        self.st.heap[o] = h

    def compare1(self, op, l, r):
        if op in ("Eq", "NotEq", "In", "NotIn", "Is", "IsNot"):
            try:
                a, b = self.py(l), self.py(r)
            except Unjudged:
                return Exact.compare1(self, op, l, r)
            if op in ("Is", "IsNot"):
                if isinstance(a, T) and (b is None or b is True or b is False) or isinstance(b, T) and (a is None or a is True or a is False):
                    return op == "IsNot"
                return Exact.compare1(self, op, l, r)
            if op in ("In", "NotIn"):
                if isinstance(b, (list, tuple, dict)):
                    return (a in b) == (op == "In")
                return Exact.compare1(self, op, l, r)
            return (a == b) == (op == "Eq")
        return Exact.compare1(self, op, l, r)

    def getitem(self, node, val, idx, unpack=False):
        k = _single_const(idx) if isinstance(idx, frozenset) and not unpack else None
        d = self.exactdict(val) if k is not None else None
        if d is not None and all(_single_const(a) != k for a, v in d):
            raise Fails("KeyError")
        try:
            return Exact.getitem(self, node, val, idx, unpack)
        except Fails:
            raise
        except Unreach:
            raise Fails("IndexError")

    def s_Try(self, s):
        if s.finalbody or any(self.handler_types(h) == ["?"] for h in s.handlers):
            return Exact.s_Try(self, s)
        entry, raises = self.st.copy(), self.raises
        try:
            self.block(s.body)
        except Fails as f:
            for h in s.handlers:
                ts = self.handler_types(h)
                if "*" in ts or "Exception" in ts or "BaseException" in ts or any(t in PARENTS.get(f.name, ()) for t in ts):
                    if h.name:
                        self.st.vars[(self.fr.id, h.name)] = V(Sym(("caught", f.name), (), None))
                    return self.block(h.body)
            raise
        except Unreach:
            if self.raises == raises:       # return, break or continue
                raise
            self.st = entry
            return Exact.s_Try(self, s)
        if s.orelse:
            self.block(s.orelse)

    def e_Dict(self, e):
        if any(k is None for k in e.keys):
            out = {}
            for k, v in zip(e.keys, e.values):
                ps = [(self.ev(k), self.ev(v))] if k is not None else self.exactdict(self.ev(v))
                if ps is None or any(_single_const(a) is None for a, b in ps):
                    raise Unjudged("dict display")
                out.update((_single_const(a), b) for a, b in ps)
            return self.mkdict(e, [(V(a), b) for a, b in out.items()])
        return Exact.e_Dict(self, e)

    def on_binop(self, node, op, l, r):
        a, b = _single_const(l), _single_const(r)
        if a is not None and b is not None and all(isinstance(c.v, int) for c in (a, b)):
            try:
                if op in ARITH:
                    return V(Const(ARITH[op](a.v, b.v)))
            except ZeroDivisionError:
                raise Fails("ZeroDivisionError")
        if op == "Mult" and (a is not None) != (b is not None):
            x, n = self.exact(r if a is not None else l), (a or b).v
            if x is not None and isinstance(n, int):
                return self.mklist(node, "list", x * n, "times")
        return Exact.on_binop(self, node, op, l, r)

    def on_raise(self, node, val):
        self.raises += 1
        return Exact.on_raise(self, node, val)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v, k = self.ev(t.value), _single_const(self.ev_index(t.slice)) if not isinstance(t.slice, ast.Slice) else None
                d = self.exactdict(v)
                x = self.exact(v) if d is None else None
                if d is not None and k is not None:
                    if all(_single_const(a) != k for a, w in d):
                        raise Fails("KeyError")
                    self.drop(next(iter(v)), k)
                    continue
                if x is not None and k is not None and isinstance(k.v, int):
                    if not -len(x) <= k.v < len(x):
                        raise Fails("IndexError")
                    y = list(x)
                    del y[k.v]
                    self.put(next(iter(v)), y)
                    continue
                if x is not None and isinstance(t.slice, ast.Slice):
                    b = [None if e is None else _single_const(self.ev(e)) for e in (t.slice.lower, t.slice.upper, t.slice.step)]
                    if all(e is None or c is not None for e, c in zip((t.slice.lower, t.slice.upper, t.slice.step), b)):
                        y = list(x)
                        del y[slice(*[c and c.v for c in b])]
                        self.put(next(iter(v)), y)
                        continue
                raise Unjudged("del %s" % ast.unparse(t))
            else:
                Exact.s_Delete(self, ast.copy_location(ast.Delete([t]), s))

    def bind_args(self, fi, fn, args, kwargs, star, dstar):
        if star is not None and self.items(star) is not None:
            args, star = list(args) + list(self.items(star)), None
        Exact.bind_args(self, fi, fn, args, kwargs, star, dstar)
        a = fn.args
        if a.vararg and star is None:
            v = self.st.vars.get((fi.id, a.vararg.arg))
            n = max(0, len(args) - len(a.posonlyargs) - len(a.args))
            if v is not None and len(v) == 1:
                h = dict(self.st.heap.get(next(iter(v)), {}))
                h["#n"] = V(Const(len([f for f in h if isinstance(f, tuple) and f[0] == "i"])))
                self.st.heap[next(iter(v))] = h

    def call(self, node, cal, args, kwargs=None, star=None, dstar=None):
        if star is not None and self.items(star) is not None:
            args, star = list(args) + list(self.items(star)), None
        return Exact.call(self, node, cal, args, kwargs, star, dstar)


def rank(x):
    if not isinstance(x, T) or not x.key[0][-1:].isdigit():
        raise Unjudged("the order of %r" % (x,))
    return int("".join(c for c in x.key[0] if c.isdigit()))



def bag(x):
    return sorted(repr(freeze(y)) for y in x)


def agree(got, want, how):
    if how in ("bag", "set"):
        if not isinstance(got, (list, tuple)):
            return False
        return bag(got) == bag(want) if how == "bag" else set(bag(got)) == set(bag(want))
    if isinstance(got, tuple):
        got = list(got)
    if isinstance(want, bool) != isinstance(got, bool):
        return False
    return got == want


def run(R):
    R.rule("result", "an array or map function returns exactly the elements, or what the given function returns for them, that its documentation says, in the order it says")
    R.rule("error", "an array or map function refuses exactly the arguments it is documented to refuse")
    R.rule("generated", "the code a function generates for its calls returns what the function returns")
    p = Project()
    lib = Library(p)
    it = Elements(p, AstModel(p))
    it.maxunroll = 60
    spec = build(T, F, ERR, term, rank)
    byname = dict((f.name, f) for f in lib.funcs if f.name in spec)
    und, judged = {}, {}
    gens = {}

    def own(name, n):
        """The code a function generates for its calls, as a function of its arguments, if it has code of its own."""
        if (name, n) not in gens:
            gens[(name, n)] = None
            m = p.method(byname[name].ci, "genpy")
            if m and m[1] is not lib.base:
                names = ["arg%d" % i for i in range(n)]
                try:
                    g, r = outcomes(it, lambda: it.call_in(m[0], m[1].mod, [lambda s, node: s.lift(node, []), lambda s, node: s.lift(node, names), NONE],
                                                           self_=V(Sym("self", (), ("inst", byname[name].ci))), ci=m[1]))
                    if len(g) == 1 and isinstance(g[0], str):
                        d = ast.parse("def generated(%s):\n    return %s" % (", ".join(names), g[0])).body[0]
                        gens[(name, n)] = d
                    else:
                        und[name + " (generated)"] = repr(g)[:80]
                except (Unjudged, SyntaxError) as u:
                    und[name + " (generated)"] = str(u)[:80]
        return gens[(name, n)]
    for name in sorted(spec):
        f = byname.get(name)
        if f is None:
            und[name] = "no such function"
            continue
        m = p.method(f.ci, "__call__")
        if not m:
            und[name] = "it is not called by a method"
            continue
        fn, k = m[0], m[1]
        told = set()
        for args, want, how, types in spec[name]:
            rule = "error" if want is ERR else "result"
            shown = "%s(%s)" % (name, ", ".join(map(repr, args)))
            try:
                got, raised = outcomes(it, lambda: call(it, fn, k, f, args, types))
            except Unjudged as u:
                und.setdefault(name, str(u)[:100])
                continue
            gen = own(name, len(args))
            if gen is not None and want is not ERR and "generated" not in told:
                try:
                    g, r = outcomes(it, lambda: it.call_in(gen, k.mod, [lambda s, node, x=x: s.lift(node, x) for x in args]))
                    R.count("generated")
                    if not g or not all(agree(x, want, how) for x in g):
                        told.add("generated")
                        R.finding("generated", name, "the code generated for %s is %s, not %s" % (shown, repr(g[0])[:100] if g else "an error", repr(want)[:100]), f.mod.name)
                except Unjudged as u:
                    und.setdefault(name + " (generated)", str(u)[:100])
            if got and raised or len(got) > 1 and any(agree(g, want, how) for g in got):
                und.setdefault(name, "several outcomes")
                continue
            R.count(rule)
            judged[name] = judged.get(name, 0) + 1
            if rule in told:
                continue
            where = p.where(fn, k.mod) if hasattr(k, "mod") else f.mod.name
            if want is ERR:
                if got:
                    told.add(rule)
                    R.finding(rule, name, "%s is %s where it is documented to fail" % (shown, repr(got[0])[:80]), where)
            elif not got:
                told.add(rule)
                R.finding(rule, name, "%s fails where it should be %s" % (shown, repr(want)[:80]), where)
            elif not all(agree(g, want, how) for g in got):
                told.add(rule)
                R.finding(rule, name, "%s is %s, not %s" % (shown, repr(got[0])[:100], repr(want)[:100]), where)
    R.note("functions judged", len(judged))
    R.note("not judged", ["%s: %s" % x for x in sorted(und.items())])
    R.floor("result", 300)
    R.floor("error", 50)


def outcomes(it, f):
    try:
        outs = f()
    except Unjudged:
        raise
    except (AnalysisBroken, TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError) as e:
        raise Unjudged("not interpreted: %s %s" % (type(e).__name__, e))
    if isinstance(outs, tuple):
        outs = outs[0]
    got = []
    for v, st in outs:
        it.st = st
        got.append(it.py(v))
    return got, set(str(getattr(x, "name", x)) for x in it.raised)


def call(it, fn, k, f, args, types):
    def start(x):
        return lambda s, node: s.lift(node, x)
    params = [a.arg for a in fn.args.args][1:5]
    given = {"state": V(Sym(("state",), (), None)), "scope": V(Sym(("scope",), (), None)), "pos": NONE}
    head = [given.get(n) or start(types if types is not None else []) for n in params]
    outs = it.call_in(fn, k.mod, head + [start(a) for a in args], self_=V(Sym("self", (), ("inst", f.ci))), ci=k)
    return outs


if __name__ == "__main__":
    report.main("L05", run)
