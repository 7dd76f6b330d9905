"""Functions that dispatch on Avro types and host values, explored for one Avro type and one class of host value each."""
import ast
from .proj import AnalysisBroken
from .lts import Client, Explorer, subterms, show

LEAVES = ("AvroNull", "AvroBoolean", "AvroInt", "AvroLong", "AvroFloat", "AvroDouble", "AvroBytes", "AvroFixed", "AvroString",
          "AvroEnum", "AvroArray", "AvroMap", "AvroRecord", "AvroUnion")
# host values, with the classes isinstance accepts for them
HOSTS = {"None": ("NoneType",), "True": ("bool", "int"), "False": ("bool", "int"), "int": ("int", "long"), "float": ("float",),
         "str": ("str", "basestring", "unicode"), "bytes": ("bytes",), "list": ("list",), "tuple": ("tuple",), "dict": ("dict",)}
SINGLE = {"None": None, "True": True, "False": False}
ATTRS = {"__iter__": ("str", "bytes", "list", "tuple", "dict"), "__getitem__": ("str", "bytes", "list", "tuple", "dict"),
         "__len__": ("str", "bytes", "list", "tuple", "dict")}


class TypeClient(Client):
    """types: term -> Avro class name; hosts: term -> host class."""

    def __init__(self, proj, mod, types, hosts, failing=()):
        self.proj, self.mod, self.types, self.hosts, self.failing = proj, mod, types, hosts, failing
        self.anc = {}

    def ancestors(self, name):
        if name not in self.anc:
            r = self.proj.lookup(self.mod, name)
            if not (isinstance(r, tuple) and r[0] == "class"):
                raise AnalysisBroken("%s is not a class" % name)
            self.anc[name] = set(k.name for k in self.proj.mro(r[1]))
        return self.anc[name]

    def names(self, t, depth=0):
        """Class names in the second argument of isinstance."""
        if t[0] == "tuple":
            out = []
            for x in t[1:]:
                y = self.names(x, depth)
                if y is None:
                    return None
                out += y
            return out
        if t[0] == "attr":
            return [t[2]]
        if t[:2] == ("op", "Add"):
            a, b = self.names(t[2], depth), self.names(t[3], depth)
            return None if a is None or b is None else a + b
        if t[0] == "call" and t[1] == ("global", "type") and len(t[2]) == 1 and t[2][0] == ("const", None):
            return ["NoneType"]
        if t[0] == "global":
            r = self.proj.lookup(self.mod, t[1])
            if isinstance(r, tuple) and r[0] == "var" and depth < 5:
                defs = [d[1] for d in r[3].defs.get(t[1], ()) if d[0] == "var"] or [r[1]]
                out = []
                for d in defs:
                    y = self.names(term(d), depth + 1) if term(d) is not None else None
                    if y is None:
                        return None
                    out += y
                return out
            return [t[1]]
        return None

    def typenames(self, t):
        """Class names in the second operand of `type(x) is/==/in ...`."""
        if t[0] == "tuple":
            out = []
            for x in t[1:]:
                if x[0] != "global":
                    return None
                out.append(x[1])
            return out
        return [t[1]] if t[0] == "global" else [t[2]] if t[0] == "attr" else None

    def decide(self, t, ex):
        d = self.scenario(t)
        if d is not None:
            return d
        if t[0] == "call" and t[1] == ("global", "isinstance") and len(t[2]) == 2:
            x, c = t[2]
            n = self.names(c)
            if n is None:
                return None
            a = self.typeof(x)
            if a is not None:
                return bool(self.ancestors(a) & set(n))
            h = self.hostof(x)
            if h is not None:
                return bool(set(HOSTS[h]) & set(n)) or "object" in n
            return None
        if t[0] == "call" and t[1] == ("global", "hasattr") and len(t[2]) == 2 and t[2][1][0] == "const":
            h = self.hostof(t[2][0])
            if h is not None and t[2][1][1] in ATTRS:
                return h in ATTRS[t[2][1][1]]
            return None
        if t[0] == "op" and t[1] in ("is", "==", "in") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "call" and a[1] == ("global", "type") and len(a[2]) == 1:
                    n = self.typenames(b)
                    x = a[2][0]
                    if n is None or t[1] == "in" and b is t[2]:
                        continue
                    if self.typeof(x) is not None:
                        return self.typeof(x) in n
                    if self.hostof(x) is not None:
                        return HOSTS[self.hostof(x)][0] in n
            if t[1] == "in" and t[3][0] == "tuple":
                vs = [self.decide(("op", "==", t[2], y), ex) for y in t[3][1:]]
                return True if any(v is True for v in vs) else False if all(v is False for v in vs) else None
        if t[0] == "op" and t[1] in ("is", "==") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                h = self.hostof(a)
                if h is None or b[0] != "const":
                    continue
                if h in SINGLE:
                    return b[1] is SINGLE[h] if t[1] == "is" else b[1] == SINGLE[h]
                k = "None" if b[1] is None else type(b[1]).__name__
                if k == "bool" and h in ("int", "float") and t[1] == "==":
                    return None
                if k != h and not (t[1] == "==" and k in ("int", "float") and h in ("int", "float")):
                    return False
        return None

    def scenario(self, t):
        """Override: the truth of a condition about the value in the case under study."""
        return None

    def typeof(self, x):
        return self.types.get(x)

    def hostof(self, x):
        if x in self.hosts:
            return self.hosts[x]
        if x[0] == "const":
            k = type(x[1]).__name__
            return {"NoneType": "None", "bool": str(x[1])}.get(k, k if k in HOSTS else None)
        if x[0] == "tuple":
            return "list"
        if x[:2] == ("op", "dict"):
            return "dict"
        if x[:2] == ("op", "comp"):
            return "dict" if x[2][:2] == ("op", "dict") else "list"
        if x[0] == "call" and x[1][0] == "global":
            f = x[1][1]
            if f in ("int", "float", "str", "bytes", "list", "tuple", "dict", "sorted"):
                return "list" if f == "sorted" else f
            if f in ("stringToBytes", "bytesToString"):
                return "bytes" if f == "stringToBytes" else "str"
            if f == "bool" and len(x[2]) == 1 and self.hostof(x[2][0]) in ("True", "False"):
                return self.hostof(x[2][0])
        return None

    def branch(self, t, pol, ex):
        if t[:2] == ("op", "==") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                # some value of the form equals the constant and some does not
                if a in self.hosts and b[0] == "const" and self.hostof(a) not in SINGLE:
                    return None
        if t[:2] == ("op", "in") and len(t) == 4 and t[2] in self.hosts and t[3][0] == "tuple" and all(x[0] == "const" for x in t[3][1:]):
            return None
        return ("undecided",)

    def inline(self, fn, mod):
        return mod.name == self.mod.name and fn.name not in self.stop

    stop = ()

    def event(self, callee, args, kws, ex):
        if callee[0] == "global" and callee[1] in self.stop:
            return ("rec", callee[1], tuple(args), tuple(sorted(kws.items())) if kws else ())
        return None

    def raises(self, callee, args, ex):
        if callee[0] == "global":
            for f, exc in self.failing:
                if f == callee[1]:
                    return ("new", ("global", exc), ())
            if callee[1] in ("int", "float") and len(args) == 1:
                h = self.hostof(args[0])
                if h in ("str", "bytes"):
                    return ("new", ("global", "ValueError"), ())
                if h in ("None", "list", "tuple", "dict"):
                    return ("new", ("global", "TypeError"), ())
                if h == {"int": "float", "float": "int"}[callee[1]] and self.failing:
                    return ("new", ("global", "OverflowError"), ())
        if callee[0] == "attr" and callee[2] == "dumps" and len(args) == 1 and "default" not in ex.kws:
            if self.hostof(args[0]) in ("bytes", "list", "tuple", "dict"):
                return ("new", ("global", "TypeError"), (("const", "json.dumps"),))
        return False

    def must_raise(self, callee, args, ex):
        return callee[0] == "global" and callee[1] in ("int", "float") and len(args) == 1 and \
            self.hostof(args[0]) in ("None", "list", "tuple", "dict")

    def setitem_event(self, obj, idx, val, ex):
        if any(x[:1] == ("call",) and x[1] in [("global", s) for s in self.stop] for x in subterms(val) if isinstance(x, tuple) and len(x) > 1):
            return ("put", idx, val)
        return None


def term(e):
    if isinstance(e, ast.Name):
        return ("global", e.id)
    if isinstance(e, ast.Attribute):
        return ("attr", ("global", "x"), e.attr)
    if isinstance(e, (ast.Tuple, ast.List)):
        ts = [term(x) for x in e.elts]
        return None if any(t is None for t in ts) else ("tuple",) + tuple(ts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = term(e.left), term(e.right)
        return None if a is None or b is None else ("op", "Add", a, b)
    return None


def runs(proj, mod, fn, client, args, selfterm=None, limit=20000):
    """[(outcome, labels seen on the way)]: outcome ("ret", term) or ("raise", term)."""
    a = Explorer(proj, client).explore(fn, mod, args, selfterm)
    out, seen, todo = set(), set(), [(a.start, frozenset())]
    while todo:
        n, ls = todo.pop()
        if (n, ls) in seen:
            continue
        seen.add((n, ls))
        if len(seen) > limit:
            raise AnalysisBroken("%s: too many paths" % fn.name)
        for l, b in a.edges.get(n, ()):
            if isinstance(l, tuple) and l and l[0] in ("ret", "raise"):
                out.add((l, ls))
            todo.append((b, ls | {l} if l is not None and not (isinstance(l, tuple) and l[0] in ("ret", "raise")) else ls))
    return out


def excname(t):
    """Class name of a raised term."""
    while isinstance(t, tuple):
        if t[0] in ("new", "call"):
            t = t[1]
        elif t[0] == "attr":
            return t[2]
        elif t[0] == "global":
            return t[1]
        elif t[0] == "exc":
            t = t[1]
        else:
            return None
    return None


def canon(t):
    """Elements of a container, however they are reached."""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if t[:1] == ("call",) and len(t) == 3 and t[1] in (("global", "list"), ("global", "tuple"), ("global", "iter"), ("global", "sorted")) and len(t[2]) >= 1:
        return t[2][0]
    if t[:1] == ("elem",) and len(t) == 2 and isinstance(t[1], tuple) and t[1][:2] == ("op", "comp"):
        return t[1][2]
    if t[:1] == ("item",) and len(t) == 3:
        o, i = t[1], t[2]
        if i == ("elem", ("call", ("global", "range"), (("call", ("global", "len"), (o,)),))) or i == ("index", o):
            return ("elem", o)
        if i in (("elem", o), ("key", o), ("elem", ("call", ("attr", o, "keys"), ()))):
            return ("elem", ("call", ("attr", o, "values"), ()))
    return t
