"""An interpreter for code that builds documents: lists, dicts and sets keep their exact elements, and every run of an
expression that makes one makes a new one."""
import ast
from .interp import Const, Sym, Alloc, Unreach, V, NONE, EMPTY, _Const, _single_const
from .reading import DocInterp


class Exact(DocInterp):
    maxsteps = 400000
    RECURSION = 14
    MAXDEPTH = 90

    def __init__(self, p, model):
        DocInterp.__init__(self, p, model)
        self.fresh, self.ordered = 0, frozenset()

    def site(self, node, extra=None):
        self.fresh += 1
        return DocInterp.site(self, node, (extra, self.fresh))

    def isinst1(self, o, classes):
        if isinstance(o, Alloc) and o.typ == "dict" and o.cls is None and any(isinstance(c, str) and c.split(".")[-1] == "OrderedDict" for c in classes):
            return o in self.ordered or "dict" in classes
        return DocInterp.isinst1(self, o, classes)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            pre = self.st.copy()
            v = self.ev(x)
            t = self.truth(v)
            if t is None:
                self.st = pre
                rest = e if i == 0 else ast.copy_location(ast.BoolOp(e.op, e.values[i:]), e) if i < len(e.values) - 1 else None
                return DocInterp.e_BoolOp(self, rest) if rest is not None else self.ev(x)
            if t is not isand or i == len(e.values) - 1:
                return v

    # -- exact containers ------------------------------------------------------------------------------------------
    def put(self, o, vals):
        d = [(("i", k), v) for k, v in enumerate(vals)] + [("#n", V(Const(len(vals))))]
        self.st.heap[o] = dict(d)

    def items(self, val):
        x = self.exact(val)
        if x is None:
            d = self.exactdict(val)
            x = [k for k, v in d] if d is not None else None
        return x

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if recv is None and not kwargs:
            if q in ("list", "tuple", "reversed", "sorted", "iter") and len(args) == 1:
                x = self.items(args[0])
                if x is not None:
                    return self.mklist(node, "list" if q != "tuple" else "tuple", x[::-1] if q == "reversed" else x, q)
            if q == "set" and len(args) <= 1:
                x = self.items(args[0]) if args else []
                if x is not None:
                    y = []
                    for v in x:
                        if v not in y:
                            y.append(v)
                    return self.mklist(node, "set", y, q)
            if q == "zip" and args:
                xs = [self.items(a) for a in args]
                if all(x is not None for x in xs):
                    return self.mklist(node, "list", [self.mklist(node, "tuple", list(t), ("zip", i)) for i, t in enumerate(zip(*xs))], q)
        if recv is None:
            if q in ("OrderedDict", "dict") and len(args) <= 1 and "**" not in kwargs:
                d = self.exactdict(args[0]) if args else []
                if d is None:
                    x = self.exact(args[0])
                    ps = [self.exact(p) for p in x] if x is not None else None
                    if ps is not None and all(p is not None and len(p) == 2 and _single_const(p[0]) is not None for p in ps):
                        d = [(p[0], p[1]) for p in ps]
                if d is not None:
                    v = self.mkdict(node, d + [(V(Const(k)), x) for k, x in kwargs.items()])
                    if q == "OrderedDict":
                        self.ordered |= v
                    return v
            if q in ("all", "any") and not kwargs and len(args) == 1 and self.exact(args[0]) is not None:
                cs = [_single_const(v) for v in self.exact(args[0])]
                if all(c is not None for c in cs):
                    return V(Const((all if q == "all" else any)(c.v for c in cs)))
            if q == "len" and not kwargs and len(args) == 1:
                x = self.items(args[0])
                if x is not None:
                    return V(Const(len(x)))
        return DocInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def on_binop(self, node, op, l, r):
        if op in ("BitOr", "Sub", "BitAnd") and len(l) == 1 and getattr(next(iter(l)), "typ", None) == "set":
            a, b = self.items(l), self.items(r)
            if a is not None and b is not None:
                x = a + [v for v in b if v not in a] if op == "BitOr" else [v for v in a if (v in b) == (op == "BitAnd")]
                return self.mklist(node, "set", x, op)
        return DocInterp.on_binop(self, node, op, l, r)

    def getitem(self, node, val, idx, unpack=False):
        k = _single_const(idx) if isinstance(idx, frozenset) else None
        d = self.exactdict(val) if k is not None and not unpack else None
        if d is not None:
            for a, v in d:
                if _single_const(a) == k:
                    return v
        elif k is not None and not unpack and isinstance(k.v, int) and len(val) == 1 and isinstance(next(iter(val)), Alloc):
            x = self.exact(val)
            if x is not None and next(iter(val)).typ in ("list", "tuple"):
                if not -len(x) <= k.v < len(x):
                    raise Unreach()
                return x[k.v]
        return DocInterp.getitem(self, node, val, idx, unpack)

    def setitem(self, node, o, idx, v, s):
        k = _single_const(idx)
        if k is not None and self.exactdict(o) is not None:
            a = next(iter(o))
            h = dict(self.st.heap.get(a, {}))
            h["keys"] = h.get("keys", EMPTY) | V(k)
            h[("k", k.v)] = v
            h["#n"] = V(Const(len(h["keys"])))
            self.st.heap[a] = h
            return
        if k is not None and isinstance(k.v, int) and len(o) == 1 and isinstance(next(iter(o)), Alloc) and next(iter(o)).typ == "list":
            x = self.exact(o)
            if x is not None:
                if not -len(x) <= k.v < len(x):
                    raise Unreach()
                self.on_mutate(s, o, "item assignment")
                x = list(x)
                x[k.v] = v
                self.put(next(iter(o)), x)
                return
        return DocInterp.setitem(self, node, o, idx, v, s)

    def mkdict(self, node, pairs):
        a = self.alloc(node, "dict", None, "made")
        h = {"keys": EMPTY, "#n": V(Const(len(set(_single_const(k).v for k, v in pairs))))}
        for k, v in pairs:
            h["keys"] = h.get("keys", EMPTY) | k
            h[("k", _single_const(k).v)] = v
        self.st.heap[a] = h
        return V(a)

    def ext_method(self, node, name, recv, args, kwargs):
        c = _single_const(recv)
        if c is not None and isinstance(c.v, str) and name in ("lower", "upper", "strip", "capitalize", "title") and not args:
            return V(Const(getattr(c.v, name)()))
        if len(recv) == 1:
            o = next(iter(recv))
            x = self.exact(recv)
            if isinstance(o, Alloc) and o.typ != "dict" and x is not None:
                if name == "pop" and len(args) <= 1 and x:
                    c = _single_const(args[0]) if args else None
                    if not args or c is not None and isinstance(c.v, int):
                        y = list(x)
                        v = y.pop(*([c.v] if args else []))
                        self.put(o, y)
                        return v
                if name == "add" and len(args) == 1:
                    self.put(o, x if args[0] in x else x + [args[0]])
                    return NONE
                if name in ("union", "update", "extend") and len(args) == 1 and self.items(args[0]) is not None:
                    y = list(x)
                    for v in self.items(args[0]):
                        if name == "extend" or v not in y:
                            y.append(v)
                    if name == "union":
                        return self.mklist(node, "set", y, name)
                    self.put(o, y)
                    return NONE
                if name == "copy":
                    return self.mklist(node, o.typ, x, name)
                if name == "reverse":
                    self.put(o, x[::-1])
                    return NONE
            d = self.exactdict(recv)
            if d is not None:
                if name == "update" and len(args) == 1 and self.exactdict(args[0]) is not None:
                    h = dict(self.st.heap.get(o, {}))
                    for k, v in self.exactdict(args[0]):
                        h["keys"] = h.get("keys", EMPTY) | k
                        h[("k", _single_const(k).v)] = v
                    h["#n"] = V(Const(len(h.get("keys", EMPTY))))
                    self.st.heap[o] = h
                    return NONE
                if name == "copy":
                    return self.mkdict(node, d)
        return DocInterp.ext_method(self, node, name, recv, args, kwargs)

    def compare1(self, op, l, r):
        if op in ("In", "NotIn"):
            x, a = self.items(r), _single_const(l)
            if x is not None and a is not None and all(_single_const(v) is not None for v in x):
                return any(_single_const(v).v == a.v for v in x) == (op == "In")
        return DocInterp.compare1(self, op, l, r)
