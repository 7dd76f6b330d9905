"""The reader and the writer of documents, run abstractly: JSON values are symbols that say where they come from, and a
form that is read is an object of its class whose arguments are known."""
import ast
from .proj import AnalysisBroken
from .interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, V, EMPTY, NONE, Const, _Const, State, _single_const
from .guards import GuardInterp

CHILD = {"_readExpression": "expr", "_readArgument": "arg", "_readAvroPlaceholder": "type", "_readCastCase": "case", "_readFcnDef": "fcndef",
         "_readCell": "cell", "_readPool": "pool", "_readParam": "param"}
TYPES = {"str": ("str", "basestring"), "int": ("int", "long"), "bool": ("bool", "int"), "float": ("float",), "dict": ("dict",), "list": ("list",), "none": ("NoneType",)}
SPAN = {"int32": (-2 ** 31, 2 ** 31 - 1), "int64": (-2 ** 63, 2 ** 63 - 1), "code": (-2 ** 31, -1)}
for _k in SPAN:
    TYPES[_k] = TYPES["int"]


class DocInterp(GuardInterp):
    """J(kind, name): a JSON value; reading it gives READ(name) of that kind."""
    opaque_mods = frozenset(["titus.datatype", "titus.fcn", "titus.errors", "titus.options", "titus.version", "titus.P", "titus.signature", "titus.genpy"])
    maxunroll = 40
    unrollwhile = True

    def J(self, kind, *name):
        return V(Sym(("J", kind) + name, (), None))

    def READ(self, kind, *name):
        c = {"expr": "Expression", "arg": "Argument", "if": "If", "lit": "LiteralInt", "case": "CastCase", "fcndef": "FcnDef", "cell": "Cell", "pool": "Pool"}.get(kind)
        c = self.model.find(c) if c else self.typeclass("AvroPlaceholder") if kind == "type" else None
        return V(Sym(("READ", kind) + name, (), None if c is None else ("inst", c, "exact") if kind not in ("expr", "arg") else ("inst", c)))

    def jval(self, v):
        o = next(iter(v)) if len(v) == 1 else None
        if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path:
            if o.root[0] == "J":
                return o.root[1], o.root[2:]
            if o.root[0] == "jsonNode":
                return None, o.root[1:]
        return None

    def isinst1(self, o, classes):
        if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path:
            if o.root[0] == "J" and o.root[1] in TYPES and all(isinstance(c, str) for c in classes):
                return any(c in TYPES[o.root[1]] for c in classes)
            if o.root[0] == "dumps" and all(isinstance(c, str) for c in classes):
                return "str" in classes or "basestring" in classes
            if o.root[0] in ("J", "jsonNode"):
                if all(c in ("list", "tuple", "set") for c in classes):      # no form is a list, except a string
                    return False
                if o.root[0] == "J" and o.root[1] in ("expr", "arg", "if", "case", "fcndef", "cell", "pool") and all(not isinstance(c, str) or c in ("list", "tuple", "set", "dict", "bool", "bytes", "float") for c in classes):
                    return "dict" in classes
        return GuardInterp.isinst1(self, o, classes)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef):
            n = o.node.name
            if o.mod.name == "titus.reader" and (args or kwargs):
                names = [a.arg for a in o.node.args.args]
                d = args[0] if args else kwargs.get(names[0] if names else None, EMPTY)
                if n in CHILD:
                    j = self.jval(d)
                    if j is not None:
                        want, name = j
                        k = CHILD[n]
                        if want is None:
                            return self.READ(k, *name)
                        if k == want or k == "arg" and want in ("expr", "if", "lit") or k == "expr" and want in ("if", "lit", "arg"):
                            return self.READ(want, *name)
                        if want not in TYPES:
                            return V(Sym(("MISREAD", k, want) + name, (), None))
                if n == "_stripAtSigns" and self.jval(d) is not None:
                    return d
            if n in ("validSymbolName", "validFunctionName") and len(args) == 1:
                c = _single_const(args[0])
                if c is not None and isinstance(c.v, str):
                    return V(Const(c.v != "9x"))
            if n == "jsonNode" and o.self_ is not None:
                j = self.written(o.self_, args, kwargs)
                if j is not None:
                    return j
            if n == "jsonNode" and o.self_ is not None and not self.isalloc(o.self_) and not self.istop(o.self_):
                return V(Sym(("jsonNode",) + tuple(sorted(self.sh(V(x)) for x in ([o.self_] if not isinstance(o.self_, frozenset) else o.self_))), (), None))
        return GuardInterp.on_call(self, node, o, args, kwargs)

    def written(self, s, args=(), kwargs=None):
        """Writing what was read gives the JSON it was read from."""
        self.passed.append((s, list(args), dict(kwargs or {})))
        s = s if isinstance(s, frozenset) else V(s)
        o = next(iter(s)) if len(s) == 1 else None
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "READ":
            if not o.path:
                return self.J(*o.root[1:])
            if o.root[1] == "type" and self.sh(s).endswith(".avroType"):
                return self.J(*o.root[1:])
        return None

    def isalloc(self, s):
        s = s if isinstance(s, frozenset) else V(s)
        return all(isinstance(o, Alloc) for o in s)

    def istop(self, s):
        s = s if isinstance(s, frozenset) else V(s)
        return all(isinstance(x, Sym) and x.root == "self" and not x.path for x in s)

    def child_call(self, node, name, o, args, kwargs):
        if name == "jsonNode":
            j = self.written(V(o), args, kwargs)
            if j is not None:
                return j
            return V(Sym(("jsonNode", self.sh(V(o))), (), None))
        return GuardInterp.child_call(self, node, name, o, args, kwargs)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if q == "jsonNode" and recv is not None:
            j = self.written(recv, args, kwargs)
            if j is not None:
                return j
            return V(Sym(("jsonNode", self.sh(recv)), (), None))
        if q == "callable" and recv is None and len(args) == 1 and len(args[0]) == 1:
            o = next(iter(args[0]))
            if isinstance(o, (Alloc, _Const)) or isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] in ("J", "READ", "dumps") and not o.path:
                return V(Const(False))
            if isinstance(o, Fn):
                return V(Const(True))
        if q == "float" and recv is None and len(args) == 1 and len(args[0]) == 1:
            j = self.jval(args[0])
            if j is not None and j[0] in ("float", "int"):
                return self.J("float", *j[1])
        if q in ("loads", "dumps") and recv is None and args:
            o = next(iter(args[0])) if len(args[0]) == 1 else None
            other = "dumps" if q == "loads" else "loads"
            if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == other and not o.path:
                return o.root[1]
            if isinstance(o, Sym):
                return V(Sym((q, args[0]), (), None))
        return GuardInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def ext_method(self, node, name, recv, args, kwargs):
        if name == "get" and args:
            x = self.exactdict(recv)
            c = _single_const(args[0])
            if x is not None and c is not None:
                for k, v in x:
                    if k == V(Const(c.v)):
                        return v
                return args[1] if len(args) > 1 else NONE
        return GuardInterp.ext_method(self, node, name, recv, args, kwargs)

    def s_If(self, s):
        n = len(self.guards)
        GuardInterp.s_If(self, s)
        if len(self.guards) > n:
            self.narrowed.append(s)          # an undecided test all but one outcome of which is refused

    def on_return(self, node, val):
        if sum(1 for f in self.frames if f.fn is self.top) == 1:
            GuardInterp.on_return(self, node, val)

    def compare1(self, op, l, r):
        for a, b in ((l, r), (r, l)):
            if op in ("Is", "IsNot", "Eq", "NotEq") and a == NONE and len(b) == 1:
                o = next(iter(b))
                if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path and (o.root[0] in ("dumps", "READ") or o.root[0] == "J" and o.root[1] not in ("any", "none")):
                    return op in ("IsNot", "NotEq")
        if op in ("Lt", "LtE", "Gt", "GtE"):
            x, y = self.span(l), self.span(r)
            if x is not None and y is not None:
                if op in ("Gt", "GtE"):
                    x, y, op = y, x, op.replace("G", "L")
                if x[1] < y[0] or op == "LtE" and x[1] <= y[0]:
                    return True
                if x[0] > y[1] or op == "Lt" and x[0] >= y[1]:
                    return False
        return GuardInterp.compare1(self, op, l, r)

    def span(self, v):
        j = self.jval(v)
        if j is not None and j[0] in SPAN:
            return SPAN[j[0]]
        c = _single_const(v)
        if c is not None and isinstance(c.v, (int, float)) and not isinstance(c.v, bool):
            return (c.v, c.v)
        return None

    def jdict(self, node, pairs, where):
        return self.pinned(node, dict(pairs), ("json",) + tuple(where))

    def call_in(self, fn, mod, args, pins=None, bad=None, self_=None, ci=None):
        """[(value, state)] for the ways the call can end normally."""
        self.reset(bad, pins)
        self.top, self.rets, self.steps, self.narrowed = fn, [], 0, []
        self.passed = []
        self.scopes = {}
        st = self.st = State()
        self.frames = [self.module_frame(mod)]
        args = [a(self, fn) if callable(a) else a for a in args]
        self.run(Fn(fn, mod, ci, None, self_) if ci is not None else Fn(fn, mod, None, None, None), args, None, self.st)
        if self.steps > self.maxsteps:
            raise AnalysisBroken("step limit reached in %s" % fn.name)
        return [(v, s) for n, v, s in self.rets]

    def call_on(self, fn, mod, args, state, self_=None, ci=None):
        """As call_in, from a state reached before."""
        self.top, self.rets, self.steps = fn, [], 0
        self.run(Fn(fn, mod, ci, None, self_), list(args), None, state.copy())
        if self.steps > self.maxsteps:
            raise AnalysisBroken("step limit reached in %s" % fn.name)
        return [(v, s) for n, v, s in self.rets]

    # ---- comparing ---------------------------------------------------------------------------------------------
    def canon(self, v, depth=0):
        if len(v) != 1:
            return ("any", tuple(sorted(str(self.canon(V(o), depth)) for o in v)))
        o = next(iter(v))
        if isinstance(o, _Const):
            return ("const", o.v)
        if isinstance(o, Alloc) and depth < 6:
            if o.cls is not None:
                f = self.fields(o)
                return (o.cls.name,) + tuple((str(k), self.canon(x, depth + 1)) for k, x in sorted(f.items(), key=str) if k not in ("#n", "#maybe"))
            d = self.exactdict(v) if o.typ == "dict" else None
            if d is not None:
                return ("dict",) + tuple(sorted((k2.v, self.canon(x, depth + 1)) for k, x in d for k2 in k))
            x = self.exact(v)
            if x is not None:
                return ("seq",) + tuple(self.canon(y, depth + 1) for y in x)
            return ("some", o.typ, tuple(sorted(str(self.canon(V(y), depth + 1)) for y in self.elems(v))))
        if isinstance(o, Sym):
            r = o.root
            if isinstance(r, tuple) and r[0] == "READ":
                return ("read", r[1]) + tuple(r[2:]) + tuple(o.path)
            if isinstance(r, tuple) and r[0] in ("loads", "dumps"):
                return (r[0], self.canon(r[1], depth + 1)) + tuple(o.path)
            if isinstance(r, tuple) and r[0] == "J":
                return ("json",) + tuple(r[2:]) + tuple(o.path)
        return ("other", self.sh(v))
