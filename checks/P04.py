import json, multiprocessing, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.interp import Const, Sym, Alloc, Ext, Fn, Cls, V, NONE, EMPTY, State, Unreach, _Const, _single_const
from sa.astmodel import AstModel
from sa.exact import Exact

PRIM = {"AvroNull": "null", "AvroBoolean": "boolean", "AvroInt": "int", "AvroLong": "long", "AvroFloat": "float", "AvroDouble": "double", "AvroBytes": "bytes", "AvroString": "string"}
SHAPE = {"AvroArray": "items", "AvroMap": "values", "AvroUnion": "types"}


class Box(object):
    """A thing of a document: a form, a type, a cell, a function, the document itself."""
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs

    def __getitem__(self, k):
        return self.attrs[k]

    def __repr__(self):
        return self.cls


class Chain(Exact):
    """Interprets the chaining of documents whose parts are known by what they are and where they stand."""

    maxunroll = 400

    def __init__(self, p, model):
        Exact.__init__(self, p, model)
        self.boxes, self.ids = [], {}
        self.problems, self.cache = [], {}
        self.maxsteps = 30000000
        names = {}
        for c in p.classes:
            if c.mod.name in ("titus.pfaast", "titus.datatype"):
                names[c.name] = frozenset(k.name for k in p.mro(c))
        self.names = names

    def sym(self, b):
        i = self.ids.get(id(b))
        if i is None:
            i = self.ids[id(b)] = len(self.boxes)
            self.boxes.append(b)
        return Sym(("box", b.cls, i), (), None)

    def box(self, o):
        return self.boxes[o.root[2]] if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "box" and not o.path else None

    def lift(self, node, x):
        if isinstance(x, frozenset):
            return x
        if isinstance(x, Box):
            return V(self.sym(x))
        if isinstance(x, (list, tuple)):
            return self.mklist(node, "list" if isinstance(x, list) else "tuple", [self.lift(node, y) for y in x], "lifted")
        if isinstance(x, dict):
            return self.mkdict(node, [(V(Const(k)), self.lift(node, v)) for k, v in x.items()])
        return V(Const(x))

    def lifted(self, node, b, name):
        """The same list or dict each time."""
        x = b.attrs[name]
        if not isinstance(x, (list, tuple, dict)):
            return self.lift(node, x)
        k = (id(b), name)
        if k not in self.cache:
            v = self.lift(node, x)
            self.cache[k] = (v, [(a, self.st.heap[a]) for a in self.under(v)])
        v, hs = self.cache[k]
        for a, h in hs:
            self.st.heap.setdefault(a, h)
        return v

    def under(self, v):
        for o in v:
            if isinstance(o, Alloc) and o in self.st.heap:
                yield o
                for x in self.st.heap[o].values():
                    if isinstance(x, frozenset):
                        for y in self.under(x):
                            yield y

    # -- what the parts have -----------------------------------------------------------------------------------------
    def on_load_attr(self, node, o, name):
        b = self.box(o)
        if b is not None:
            if name in b.attrs:
                return self.lifted(node, b, name)
            if name in ("replace", "collect", "jsonNode"):
                return V(Ext("." + name, V(o)))
            if name == "avroType" and "avroPlaceholder" in b.attrs:
                return self.lift(node, b["avroPlaceholder"]["avroType"])
            if name == "ret" and "retPlaceholder" in b.attrs:
                return self.lift(node, b["retPlaceholder"]["avroType"])
            if name == "params" and "paramsPlaceholder" in b.attrs:
                return self.lift(node, [dict((k, v["avroType"]) for k, v in x.items()) for x in b["paramsPlaceholder"]])
            if name == "paramNames" and "paramsPlaceholder" in b.attrs:
                return self.lift(node, [k for x in b["paramsPlaceholder"] for k in x])
            if name in ("input", "output") and b.cls == "EngineConfig":
                return self.lift(node, b[name + "Placeholder"]["avroType"])
            return None
        if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path and o.root[0] == "PH":
            if name == "avroType":
                return V(Sym(("PHT", o.root[1]), (), None))
        if isinstance(o, Alloc) and o.cls is not None and SHAPE.get(o.cls.name) == name:
            v = self.hget(o, ("arg", 0))
            if v is not None:
                return v
        if isinstance(o, Fn):
            v = self.hget(o, ("a", name))
            if v is not None:
                return v
        return Exact.on_load_attr(self, node, o, name)

    def on_store(self, node, o, field, val):
        if isinstance(o, Fn):
            self.hset(o, field, val)
        return Exact.on_store(self, node, o, field, val)

    def isinst1(self, o, classes):
        b = self.box(o)
        mine = self.names.get(b.cls, frozenset([b.cls])) if b is not None else None
        if mine is None and isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path and o.root[0] in ("PH", "PHT"):
            mine = frozenset(["AvroPlaceholder"] if o.root[0] == "PH" else ["AvroType"])
        if mine is not None:
            return any((c.split(".")[-1] if isinstance(c, str) else getattr(c, "name", None)) in mine for c in classes)
        if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path and o.root[0] == "text":
            return "str" in classes
        return Exact.isinst1(self, o, classes)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and getattr(o.node, "name", None) is not None:
            n = o.node.name
            if o.mod.name == "titus.datatype":
                if n in ("makePlaceholder", "resolveOneType") and args:
                    x = next(iter(args[0])) if len(args[0]) == 1 else None
                    d = x.root[1] if isinstance(x, Sym) and isinstance(x.root, tuple) and x.root[0] == "text" else args[0]
                    return V(Sym(("PH" if n == "makePlaceholder" else "PHT", d), (), None))
                if n == "resolveTypes":
                    return NONE
                if n in ("jsonDecoder", "jsonEncoder") and len(args) == 2:
                    return V(Sym((n, args[0], args[1]), (), None))
            if o.mod.name == "titus.util" and n == "ts":
                return V(Const("<type>"))
            if n in ("validSymbolName", "validFunctionName"):
                return V(Const(True))
        return Exact.on_call(self, node, o, args, kwargs)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if recv is None and not kwargs:
            if q == "repr" and len(args) == 1 and len(args[0]) == 1:
                o = next(iter(args[0]))
                b = self.box(o)
                c = b.cls if b is not None else o.cls.name if isinstance(o, Alloc) and o.cls is not None else None
                if c in PRIM:
                    return V(Const(json.dumps(PRIM[c])))
            if q == "dumps" and len(args) == 1:
                o = next(iter(args[0])) if len(args[0]) == 1 else None
                if isinstance(o, _Const) and (o.v is None or isinstance(o.v, (str, int, float))):
                    return V(Const(json.dumps(o.v)))
                x = self.exactdict(args[0])
                if x == []:
                    return V(Const("{}"))
                return V(Sym(("text", args[0]), (), None))
            if q == "loads" and len(args) == 1 and len(args[0]) == 1:
                o = next(iter(args[0]))
                if isinstance(o, _Const) and isinstance(o.v, str):
                    x = json.loads(o.v)
                    return V(Sym(("parsed", o.v), (), None)) if o.v.startswith('"init') or o.v.startswith('"lit') else self.lift(node, x)
                if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "text":
                    return o.root[1]
            if q == "range" and args and all(_single_const(a) is not None for a in args):
                return self.mklist(node, "list", [V(Const(i)) for i in range(*[_single_const(a).v for a in args])], "range")
            if q == "enumerate" and len(args) == 1 and self.items(args[0]) is not None:
                return self.mklist(node, "list", [self.mklist(node, "tuple", [V(Const(i)), v], ("enum", i)) for i, v in enumerate(self.items(args[0]))], "enumerate")
        if q == "replace" and recv is not None and len(args) == 1 and len(recv) == 1 and self.box(next(iter(recv))) is not None:
            return self.replaced(node, self.box(next(iter(recv))), args[0])
        return Exact.ext(self, node, qual, recv, args, kwargs, sym)

    def replaced(self, node, b, r):
        """Ast.replace: the function's own result where it is defined, the same form with its parts replaced elsewhere."""
        s = V(self.sym(b))
        d = self.truth(self.call(node, self.getattr_(node, r, "isDefinedAt"), [s]))
        if d is None:
            self.problems.append("whether the replacement of %s is defined is not decided" % b.cls)
            raise AnalysisBroken("isDefinedAt of %s is not decided" % b.cls)
        if d:
            return self.call(node, r, [s])
        new = dict(b.attrs)

        def rep(x):
            return self.replaced(node, x, r)
        for f, (shape, e) in self.model.children(b.cls).items():
            x = b.attrs.get(f)
            if x is None:
                continue
            if shape == "one":
                new[f] = rep(x)
            elif shape == "list":
                new[f] = [rep(y) for y in x]
            elif shape == "dict":
                new[f] = dict((k, rep(y)) for k, y in x.items())
            else:
                new[f] = [(k, rep(y)) for k, y in x]
        out = Box(b.cls, **new)
        out.attrs.update(new)
        return V(self.sym(out))

    def ext_method(self, node, name, recv, args, kwargs):
        c = _single_const(recv)
        if c is not None and isinstance(c.v, str) and not kwargs and all(_single_const(a) is not None for a in args) and \
                name in ("format", "rindex", "index", "find", "rfind", "startswith", "endswith", "split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "replace", "lower", "upper"):
            try:
                return self.lift(node, getattr(c.v, name)(*[_single_const(a).v for a in args]))
            except (ValueError, IndexError, TypeError):
                raise Unreach()
        if c is not None and isinstance(c.v, str) and name == "join" and len(args) == 1:
            x = self.items(args[0])
            if x is not None and all(_single_const(v) is not None for v in x):
                return V(Const(c.v.join(_single_const(v).v for v in x)))
        if len(recv) == 1 and self.exactdict(recv) is not None and not kwargs:
            d = self.exactdict(recv)
            if name == "keys" and not args:
                return self.mklist(node, "list", [k for k, v in d], name)
            if name == "values" and not args:
                return self.mklist(node, "list", [v for k, v in d], name)
            if name == "items" and not args:
                return self.mklist(node, "list", [self.mklist(node, "tuple", [k, v], ("item", i)) for i, (k, v) in enumerate(d)], name)
        return Exact.ext_method(self, node, name, recv, args, kwargs)

    def pyval(self, v):
        """(value,) for constants and tuples or lists of constants."""
        c = _single_const(v)
        if c is not None:
            return (c.v,)
        x = self.exact(v)
        if x is not None:
            y = [self.pyval(i) for i in x]
            if all(i is not None for i in y):
                return (tuple(i[0] for i in y),)
        return None

    def compare1(self, op, l, r):
        a = self.pyval(l)
        if a is not None and op in ("Eq", "NotEq"):
            b = self.pyval(r)
            if b is not None:
                return (a == b) == (op == "Eq")
        if a is not None and op in ("In", "NotIn"):
            x = self.items(r)
            c = _single_const(r)
            if c is not None and isinstance(c.v, str) and isinstance(a[0], str):
                return (a[0] in c.v) == (op == "In")
            if x is not None:
                y = [self.pyval(i) for i in x]
                if all(i is not None for i in y):
                    return (a in y) == (op == "In")
        return Exact.compare1(self, op, l, r)

    def getitem(self, node, val, idx, unpack=False):
        k = _single_const(idx) if isinstance(idx, frozenset) and not unpack else None
        d = self.exactdict(val) if k is not None else None
        if d is not None and all(_single_const(a) != k for a, v in d):
            raise Unreach()     # KeyError
        if len(val) == 1:
            c, k = _single_const(val), _single_const(idx) if isinstance(idx, frozenset) else None
            if c is not None and isinstance(c.v, (str, tuple)) and k is not None and isinstance(k.v, int):
                try:
                    return self.lift(node, c.v[k.v])
                except IndexError:
                    raise Unreach()
        return Exact.getitem(self, node, val, idx, unpack)

    def slice_(self, e, val):
        c = _single_const(val)
        if c is not None and isinstance(c.v, str):
            ps = [self.ev(x) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(_single_const(p) is not None for p in ps):
                return V(Const(c.v[slice(*[_single_const(p).v for p in ps])]))
        return Exact.slice_(self, e, val)

    # -- what comes out ----------------------------------------------------------------------------------------------
    def out(self, v, depth=0):
        if len(v) != 1 or depth > 40:
            return ("unknown", self.sh(v)[:80])
        o = next(iter(v))
        if isinstance(o, _Const):
            return o.v
        b = self.box(o)
        if b is not None:
            if b.cls in self.model.classes:
                return Got(b.cls, dict((k, self.out(self.lift(None, x) if not isinstance(x, frozenset) else x, depth + 1)) for k, x in b.attrs.items()))
            return b
        if isinstance(o, Sym) and isinstance(o.root, tuple) and not o.path:
            if o.root[0] in ("PH", "PHT"):
                x = self.out(o.root[1], depth + 1)
                try:
                    return Renamed(json.loads(x) if isinstance(x, str) else x)
                except ValueError:
                    return Renamed(("unknown", x))
            if o.root[0] in ("jsonDecoder", "jsonEncoder"):
                return (o.root[0], self.out(o.root[1], depth + 1), self.out(o.root[2], depth + 1))
            if o.root[0] == "text":
                return ("text", self.out(o.root[1], depth + 1))
            if o.root[0] == "parsed":
                return ("parsed", o.root[1])
        if isinstance(o, Alloc):
            if o.cls is not None and o.cls.name in self.model.classes:
                return Got(o.cls.name, dict((k[1], self.out(x, depth + 1)) for k, x in self.st.heap.get(o, {}).items() if isinstance(k, tuple) and k[0] == "a"))
            if o.cls is not None:
                return ("made", o.cls.name)
            d = self.exactdict(v)
            if d is not None:
                return dict((_single_const(k).v, self.out(x, depth + 1)) for k, x in d)
            x = self.exact(v)
            if x is not None:
                return [self.out(y, depth + 1) for y in x]
        return ("unknown", self.sh(v)[:80])


class Got(object):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join("%s=%r" % x for x in sorted(self.fields.items()) if x[0] != "pos"))


class Renamed(object):
    def __init__(self, json):
        self.json = json

    def __repr__(self):
        return "type %s" % short(self.json, 60)


def short(x, n=90):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# -- the documents that are chained -----------------------------------------------------------------------------------
def prim(n):
    return Box("Avro" + n)


def array(t):
    return Box("AvroArray", items=t)


def amap(t):
    return Box("AvroMap", values=t)


def union(*ts):
    return Box("AvroUnion", types=list(ts))


def enum(full, *syms):
    return Box("AvroEnum", fullName=full, name=full.split(".")[-1], symbols=tuple(syms))


def fixed(full, n):
    return Box("AvroFixed", fullName=full, name=full.split(".")[-1], size=n)


def record(full, **fields):
    b = Box("AvroRecord", fullName=full, name=full.split(".")[-1], fields=[])
    b.attrs["fields"] = [field(k, v) for k, v in fields.items()]
    return b


def field(name, t, **kw):
    return Box("AvroField", name=name, avroType=t, type=t, hasDefault="default" in kw, default=kw.get("default"), order=kw.get("order"))


def ph(t):
    return Box("AvroPlaceholder", avroType=t)


def link(pre, suf):
    """The type between two steps, under the names one of them gives it."""
    n = record(pre + "Node" + suf, v=prim("Int"), k=enum(pre + "Kind" + suf, "a", "b"), h=fixed("Hash" + suf, 4), l=array(record(pre + "Leaf" + suf, x=prim("Double"))))
    n["fields"].append(field("m", amap(prim("String"))))
    n["fields"].append(field("next", union(prim("Null"), n)))
    return n


class Maker(object):
    """Every form of the language, with parts that tell whether they were replaced and by which function."""
    def __init__(self, model, k, types):
        self.model, self.k, self.types, self.n = model, k, types, 0

    def form(self, cls, **kw):
        self.n += 1
        fs = {}
        kids = self.model.children(cls)
        for p in self.model.params(cls):
            if p in kw:
                fs[p] = kw[p]
            elif p == "pos":
                fs[p] = "pos-%d-%d" % (self.k, self.n)
            elif p in kids:
                shape, e = kids[p]
                if shape == "one":
                    fs[p] = self.part(e, kw.get("variant", 0))
                elif shape == "list":
                    fs[p] = [self.part(e, i) for i in range(3)]
                elif shape == "dict":
                    fs[p] = dict(("key%d" % i, self.part(e, i)) for i in range(3))
                else:
                    fs[p] = [("int32", self.part(e, i)) for i in range(3)]
            elif p in ("avroPlaceholder", "retPlaceholder"):
                fs[p] = ph(self.types[self.n % len(self.types)])
            elif p == "paramsPlaceholder":
                fs[p] = [{"name": ph(self.types[0])}, {"y": ph(self.types[-1])}]
            elif p in ("cell", "pool"):
                fs[p] = "c" if p == "cell" else "p"
            elif p == "name":
                fs[p] = "u.f" if cls in ("Call", "FcnRef", "FcnRefFill") else "nm%d" % self.n
            elif p == "value" and cls == "Literal":
                fs[p] = '"lit-%d-%d"' % (self.k, self.n)
            elif p in ("partial", "seq"):
                fs[p] = True
            elif p == "code":
                fs[p] = -12
            elif p == "value" and cls == "LiteralBoolean":
                fs[p] = True
            elif p == "value" and cls in ("LiteralInt", "LiteralLong", "LiteralFloat", "LiteralDouble"):
                fs[p] = 12
            else:
                fs[p] = "%s-%d" % (p, self.n)
        return Box(cls, **fs)

    def part(self, e, i):
        if e not in ("Expression", "Argument"):
            return self.form(e)
        return [self.form("Ref", name="name"), self.form("CellGet", path=[]), self.form("Call", args=[self.form("Ref", name="x")])][i % 3]


def concrete(model):
    skip = ("EngineConfig", "Cell", "Pool", "CastCase", "Subs")
    return [c for c in sorted(model.classes) if c not in skip]


def forms(model, k, types, emit, where):
    m = Maker(model, k, types)
    out = []
    for c in concrete(model):
        if where in ("begin", "end") and c not in ("FcnDef", "FcnRef", "CellGet", "CellTo", "PoolTo", "Literal", "Do", "Let", "Call", "If"):
            continue
        if c == "FcnDef" or c in ("FcnRef", "FcnRefFill"):
            f = m.form(c)
            out.append(m.form("Call", name="a.map", args=[m.form("Ref", name="x"), f]))
            continue
        shapes = [s for s, e in model.children(c).values()]
        for v in range(3 if "one" in shapes else 1):
            out.append(m.form(c, variant=v))
    for c in ("Literal", "NewObject", "NewArray", "Upcast"):
        for t in (types[:2] if where != "action" else types if c == "Literal" else types[1:3]):
            out.append(m.form(c, avroPlaceholder=ph(t)))
    for n in ("instance", "metadata", "x", "version") + (() if where == "begin" else ("actionsStarted", "actionsFinished")):
        out.append(m.form("Ref", name=n))
    out.append(m.form("Call", name="+"))
    if emit:
        out.append(m.form("Call", name="emit", args=[m.form("Ref", name="x")]))
        out.append(m.form("Call", name="a.map", args=[m.form("Ref", name="x"), m.form("FcnRef", name="emit")]))
    return out


def document(model, k, name, inp, outp, method):
    own = [record("Sub", a=prim("Int"), k=enum("Kind", "p", "q%d" % k)), record("my.ns.Sub", a=prim("String"), b=fixed("F", 3 + k))]
    own[0]["fields"].append(field("d", prim("Int"), default=7, order="descending"))
    own[1]["fields"].append(field("again", array(own[1])))
    types = [own[0], array(own[1]), amap(inp), union(prim("Null"), outp), prim("Double"), own[0]["fields"][1]["avroType"]]
    names = []

    def collect(t):
        if "fullName" in t.attrs:
            if t["fullName"] in names:
                return
            names.append(t["fullName"])
        for x in [t.attrs.get("items"), t.attrs.get("values")] + list(t.attrs.get("types", [])) + [f["avroType"] for f in t.attrs.get("fields", [])]:
            if x is not None:
                collect(x)
    for t in types + [inp, outp]:
        collect(t)
    em = method == "emit"
    m = Maker(model, 100 + k, types)
    d = Box("EngineConfig", name=name, method=method, inputPlaceholder=Box("AvroPlaceholder", avroType=inp, parser=Box("P", names=Box("N", names=dict((n, None) for n in names)))),
            outputPlaceholder=ph(outp), begin=forms(model, 10 + k, types, False, "begin"), action=forms(model, 20 + k, types, em, "action"), end=forms(model, 30 + k, types, False, "end"),
            fcns={"f": m.form("FcnDef", paramsPlaceholder=[{"x": ph(types[1])}, {"name": ph(types[0])}], retPlaceholder=ph(types[2]), body=forms(model, 40 + k, types, em, "fcn")),
                  "g": m.form("FcnDef", paramsPlaceholder=[], retPlaceholder=ph(types[4]), body=[m.form("CellGet", cell="d")])},
            zero=None, merge=None, randseed=None, doc=None, version=None, metadata={}, options={}, pos=None,
            cells={"c": m.form("Cell", avroPlaceholder=ph(types[0]), init='"init-c-%d"' % k, shared=True, rollback=False, source="embedded"),
                   "d": m.form("Cell", avroPlaceholder=ph(types[3]), init='"init-d-%d"' % k, shared=False, rollback=True, source="embedded"),
                   "e": m.form("Cell", avroPlaceholder=ph(types[4]), init="init-e-%d" % k, shared=False, rollback=False, source="json")},
            pools={"p": m.form("Pool", avroPlaceholder=ph(types[1]), init={"one": '"init-p1-%d"' % k, "two": '"init-p2-%d"' % k}, shared=False, rollback=True, source="embedded"),
                   "c": m.form("Pool", avroPlaceholder=ph(types[0]), init={"one": '"init-q-%d"' % k}, shared=True, rollback=False, source="embedded")})
    return d


def steps(model, methods):
    ends = [record("First", z=prim("Int"), q=enum("com.first.Kind", "u", "v")), link("", ""), link("other.", "B"), record("Last", r=prim("String"), s=array(fixed("Hash", 9)))]
    mid = record("Middle", w=prim("Long"), kind=enum("Kind2", "m"))
    mid2 = record("Mitte", w=prim("Long"), kind=enum("x.Kind2", "m"))
    if len(methods) == 1:
        return [document(model, 0, "A", ends[0], ends[3], methods[0])]
    if len(methods) == 2:
        return [document(model, 0, "A", ends[0], ends[1], methods[0]), document(model, 1, "A", ends[2], ends[3], methods[1])]
    return [document(model, 0, "A", ends[0], ends[1], methods[0]), document(model, 1, "B", ends[2], mid, methods[1]), document(model, 2, "C", mid2, ends[3], methods[2])]


# -- judging ------------------------------------------------------------------------------------------------------------
class Judge(object):
    def __init__(self, R, model, docs, got, label, version):
        self.R, self.model, self.docs, self.got, self.label, self.version = R, model, docs, got, label, version
        self.maps = {"type": {}, "cell": {}, "pool": {}, "fcn": {}}
        self.seen = set()
        self.unknown = []

    def bad(self, rule, construct, msg):
        if (rule, construct) in self.seen:
            return
        self.seen.add((rule, construct))
        self.R.finding(rule, construct, "%s (chain of %s)" % (msg, self.label), "titus/producer/chain.py")

    def name(self, kind, k, old, new, where):
        if not isinstance(new, str):
            self.unknown.append("%s: name of %s %s is %s" % (where, kind, old, short(new)))
            return
        m = self.maps[kind]
        if m.setdefault((k, old), new) != new:
            self.bad("names", "%s %s" % (kind, where.split(" ")[-1]), "the %s %s of step %d is called %s in %s but %s elsewhere" % (kind, old, k + 1, new, where, m[(k, old)]))

    def type(self, k, t, got, where, defs=None):
        top = defs is None
        defs = {} if top else defs
        if top:
            if isinstance(got, Box) and got.cls == "AvroPlaceholder":
                got = got["avroType"]
            if isinstance(got, Box) and got.cls.startswith("Avro"):
                if named(got):
                    self.bad("types", where, "%s keeps the names its types have in the step's own document" % where)
                elif got is not t and got.cls != t.cls:
                    self.bad("types", where, "%s has another type than in the step's own document" % where)
                return
            if not isinstance(got, Renamed):
                self.unknown.append("%s: type is %s" % (where, short(got)))
                return
            got = got.json
        self.R.count("types")
        no = "%s: a %s becomes %s" % (where, t.cls[4:].lower(), short(got))
        if isinstance(got, tuple) and got and got[0] == "unknown":
            self.unknown.append(no)
            return
        if t.cls in PRIM:
            if got != PRIM[t.cls] and got != {"type": PRIM[t.cls]}:
                self.bad("types", where, no)
        elif t.cls in ("AvroArray", "AvroMap"):
            key = SHAPE[t.cls]
            if not isinstance(got, dict) or got.get("type") != t.cls[4:].lower() or key not in got:
                return self.bad("types", where, no)
            self.type(k, t[key], got[key], where, defs)
        elif t.cls == "AvroUnion":
            if not isinstance(got, list) or len(got) != len(t["types"]):
                return self.bad("types", where, no)
            for a, b in zip(t["types"], got):
                self.type(k, a, b, where, defs)
        else:
            full = t["fullName"]
            if isinstance(got, str):
                if full not in defs:
                    return self.bad("types", where, no)
                self.name("type", k, full, got, where)
                return
            if not isinstance(got, dict) or got.get("type") != t.cls[4:].lower() or not isinstance(got.get("name"), str):
                return self.bad("types", where, no)
            new = (got["namespace"] + "." if got.get("namespace") else "") + got["name"]
            self.name("type", k, full, new, where)
            defs[full] = new
            if t.cls == "AvroFixed":
                if got.get("size") != t["size"]:
                    self.bad("types", where, no)
            elif t.cls == "AvroEnum":
                if tuple(got.get("symbols") or ()) != t["symbols"]:
                    self.bad("types", where, no)
            else:
                fs = got.get("fields")
                if not isinstance(fs, list) or [f.get("name") if isinstance(f, dict) else None for f in fs] != [f["name"] for f in t["fields"]]:
                    return self.bad("types", where, no)
                for a, b in zip(t["fields"], fs):
                    self.type(k, a["avroType"], b.get("type"), where, defs)
                    if ("default" in b) != a["hasDefault"] or a["hasDefault"] and b["default"] != a["default"]:
                        self.bad("types", where + " (default)", "%s: the default of field %s is not carried over" % (where, a["name"]))
                    if b.get("order") != a["order"]:
                        self.bad("types", where + " (order)", "%s: the order of field %s is not carried over" % (where, a["name"]))

    def value(self, k, t, old, got, where):
        """A value in the text of a document belongs to the type as it is called afterwards."""
        self.R.count("values")
        if isinstance(got, tuple) and got and got[0] == "text":
            e = got[1]
            if isinstance(e, tuple) and e[0] == "jsonEncoder" and isinstance(e[2], tuple) and e[2][0] == "jsonDecoder":
                if e[2][2] != ("parsed", old):
                    return self.bad("values", where, "%s gets the value %s instead of its own" % (where, short(e[2][2])))
                if e[2][1] is not t:
                    return self.bad("values", where, "the value of %s is read as another type than its own" % where)
                return self.type(k, t, e[1], where)
            if e == ("parsed", old):
                got = old
        if got == old:
            if named(t):
                self.bad("values", where, "the value of %s is still written with the type names of the step's own document" % where)
            return
        if isinstance(got, str):
            return self.bad("values", where, "%s gets the value %s instead of its own" % (where, short(got)))
        self.unknown.append("%s: value is %s" % (where, short(got)))

    def form(self, k, f, g, part, infn=False):
        where = "%s in %s" % (f.cls, part)
        self.R.count("forms")
        if f.cls == "Ref":
            own = ("name", "instance", "metadata") + (() if part == "begin" else ("actionsStarted", "actionsFinished")) + (("version",) if self.version else ())
            if not infn and f["name"] in own:
                if isinstance(g, Got) and g.cls == "CellGet" and not g.fields.get("path"):
                    self.shared(f["name"], g.fields.get("cell"), part)
                    return
                if part in ("begin", "end") and isinstance(g, Got) and g.cls == "Ref" and g.fields.get("name") == f["name"]:
                    return
                return self.bad("forms", "Ref %s" % part, "%s of a step's %s becomes %s" % (f["name"], part, short(g)))
        if not isinstance(g, Got):
            self.unknown.append("%s becomes %s" % (where, short(g)))
            return
        if g.cls != f.cls:
            return self.bad("forms", where, "%s becomes %s" % (f.cls, short(g)))
        kids = self.model.children(f.cls)
        inner = infn or f.cls == "FcnDef"
        for p in self.model.params(f.cls):
            a, b = f.attrs[p], g.fields.get(p)
            w = "%s.%s in %s" % (f.cls, p, part)
            if isinstance(b, tuple) and b and b[0] == "unknown":
                self.unknown.append("%s is %s" % (w, b[1]))
            elif p in kids:
                shape = kids[p][0]
                if shape == "one":
                    self.form(k, a, b, part, inner)
                elif shape == "list":
                    if not isinstance(b, list) or len(a) != len(b):
                        self.bad("forms", w, "the parts of %s become %s" % (w, short(b)))
                    else:
                        for x, y in zip(a, b):
                            self.form(k, x, y, part, inner)
                elif shape == "dict":
                    if not isinstance(b, dict) or set(a) != set(b):
                        self.bad("forms", w, "the parts of %s become %s" % (w, short(b)))
                    else:
                        for x in a:
                            self.form(k, a[x], b[x], part, inner)
                else:
                    if not isinstance(b, list) or len(a) != len(b):
                        self.bad("forms", w, "the parts of %s become %s" % (w, short(b)))
                    else:
                        for x, y in zip(a, b):
                            if list(y)[0] != x[0]:
                                self.bad("forms", w, "%s becomes %s" % (short(x[0]), short(y)))
                            self.form(k, x[1], y[1], part, inner)
            elif p in ("avroPlaceholder", "retPlaceholder"):
                self.type(k, a["avroType"], b, w)
            elif p == "paramsPlaceholder":
                self.params(k, a, b, w)
            elif p == "cell":
                self.name("cell", k, a, b, w)
            elif p == "pool":
                self.name("pool", k, a, b, w)
            elif p == "name" and f.cls in ("Call", "FcnRef", "FcnRefFill"):
                if a == "emit":
                    want = "emit" if k == len(self.docs) - 1 else "u." + str(self.action.get(k + 1))
                    if b != want:
                        self.bad("flow", "%s of emit in %s" % (f.cls, part), "emit of step %d becomes %s, not the action of the next step" % (k + 1, b) if k < len(self.docs) - 1 else
                                 "emit of the last step becomes %s" % b)
                elif a.startswith("u."):
                    if not isinstance(b, str) or not b.startswith("u."):
                        self.bad("names", w, "the function %s becomes %s" % (a, b))
                    else:
                        self.name("fcn", k, a[2:], b[2:], w)
                elif a != b:
                    self.bad("forms", w, "the function %s becomes %s" % (a, b))
            elif p == "value" and f.cls == "Literal":
                self.value(k, f["avroPlaceholder"]["avroType"], a, b, w)
            elif p == "pos":
                if a != b:
                    self.bad("forms", w, "the position of %s is %s" % (where, "lost" if b is None else short(b)))
            elif a != b:
                self.bad("forms", w, "%s is %s instead of %s" % (w, short(b), short(a)))

    def params(self, k, a, b, w):
        if not isinstance(b, list) or [list(x) for x in a] != [list(x) if isinstance(x, dict) else None for x in b]:
            return self.bad("forms", w, "the parameters of %s become %s" % (w, short(b)))
        for x, y in zip(a, b):
            for n in x:
                self.type(k, x[n]["avroType"], y[n], w)

    def shared(self, name, cell, part):
        if cell not in self.got.fields["cells"]:
            return self.bad("flow", "%s in %s" % (name, part), "%s of a step is read from the cell %s, which the chain does not have" % (name, short(cell)))
        self.used.setdefault((name, cell), set()).add(part)

    def body(self, k, fs, gs, part, infn=False):
        if not isinstance(gs, list):
            self.unknown.append("%s of step %d is %s" % (part, k + 1, short(gs)))
            return
        if len(gs) != len(fs):
            return self.bad("flow", part, "the %s of step %d has %d statements instead of %d" % (part, k + 1, len(gs), len(fs)))
        for f, g in zip(fs, gs):
            self.form(k, f, g, part, infn)

    def run(self):
        R, docs = self.R, self.docs
        out = self.got.fields
        n = len(docs)
        fcns = out["fcns"]
        method = "emit" if any(d["method"] == "emit" for d in docs) else "map"
        if out["method"] != method:
            self.bad("flow", "method", "the method of the chain is %s" % short(out["method"]))
        for f in ("begin", "action", "end"):
            if not isinstance(out[f], list):
                raise AnalysisBroken("%s of the chain is %s" % (f, short(out[f])))
        if not isinstance(fcns, dict) or not isinstance(out["cells"], dict) or not isinstance(out["pools"], dict):
            raise AnalysisBroken("functions, cells or pools of the chain are not found")
        self.used = {}
        # which functions are the actions
        bypos = {}
        for name, f in fcns.items():
            if isinstance(f, Got):
                for p in positions(f):
                    bypos.setdefault(p, set()).add(name)
        self.action, self.fcn = {}, {}
        for k, d in enumerate(docs):
            a = set.intersection(*[bypos.get(x["pos"], set()) for x in d["action"] if x.cls not in ("Ref",)])
            if len(a) != 1:
                return self.bad("flow", "action of a step", "the statements of the action of step %d stand in %d functions of the chain" % (k + 1, len(a)))
            self.action[k] = a.pop()
            for fn, f in d["fcns"].items():
                b = bypos.get(f["body"][0]["pos"], set())
                if len(b) != 1:
                    return self.bad("flow", "function of a step", "the function %s of step %d stands in %d functions of the chain" % (fn, k + 1, len(b)))
                self.fcn[(k, fn)] = b.pop()
        for k, d in enumerate(docs):
            for fn, f in d["fcns"].items():
                g = fcns[self.fcn[(k, fn)]]
                self.name("fcn", k, fn, self.fcn[(k, fn)], "definition")
                self.params(k, f["paramsPlaceholder"], g.fields["paramsPlaceholder"], "parameters of a function")
                self.type(k, f["retPlaceholder"]["avroType"], g.fields["retPlaceholder"], "result of a function")
                self.body(k, f["body"], g.fields["body"], "function", True)
            g = fcns[self.action[k]]
            ps = g.fields["paramsPlaceholder"]
            if not isinstance(ps, list) or [list(x) for x in ps] != [["input"]]:
                self.bad("flow", "input of a step", "the parameters of the action of step %d are %s" % (k + 1, short(ps)))
            else:
                self.type(k, d["inputPlaceholder"]["avroType"], ps[0]["input"], "input of a step")
            body, r = g.fields["body"], g.fields["retPlaceholder"]
            if method == "map":
                self.type(k, d["outputPlaceholder"]["avroType"], r, "output of a step")
                self.body(k, d["action"], body, "action")
            else:
                if not isinstance(r, Renamed) or r.json != "null":
                    self.bad("flow", "result of a step", "the action of step %d returns %s" % (k + 1, short(r)))
                if d["method"] == "map":
                    want = "emit" if k == n - 1 else "u." + self.action[k + 1]
                    c = body[0] if isinstance(body, list) and body else None
                    if not isinstance(c, Got) or c.cls != "Call" or c.fields["name"] != want or not isinstance(c.fields["args"], list) or len(c.fields["args"]) != 1:
                        self.bad("flow", "map step", "the result of step %d goes to %s instead of %s" % (k + 1, short(c.fields.get("name") if isinstance(c, Got) else c), want))
                    else:
                        x = c.fields["args"][0]
                        self.body(k, d["action"], x.fields["body"] if isinstance(x, Got) and x.cls == "Do" else [x], "action")
                    rest = body[1:]
                else:
                    m = len(d["action"])
                    self.body(k, d["action"], body[:m] if isinstance(body, list) else body, "action")
                    rest = body[m:]
                if [x.cls if isinstance(x, Got) else x for x in rest] not in ([], ["LiteralNull"]):
                    self.bad("flow", "after a step", "the action of step %d goes on with %s" % (k + 1, short(rest)))
                elif not rest and d["method"] == "emit":
                    self.bad("flow", "after a step", "the action of step %d ends with the value of its last statement, which need not be null" % (k + 1))
        # begin and end: preparations of the chain, then the steps in order
        prep = {}
        for part in ("begin", "end"):
            want = [f for d in docs for f in d[part]]
            own = len(out[part]) - len(want)
            if own < 0:
                self.bad("flow", part, "the %s of the chain has %d statements where its steps have %d" % (part, len(out[part]), len(want)))
                continue
            prep[part] = out[part][:own]
            gs = out[part][own:]
            for k, d in enumerate(docs):
                self.body(k, d[part], gs[:len(d[part])], part)
                gs = gs[len(d[part]):]
        # the action: a call of the first step with the input; in a chain of maps, of each step with the result of the last
        act = out["action"]
        prep["action"] = act[:-1]
        c = act[-1] if act else None
        for k in (range(n - 1, -1, -1) if method == "map" else [0]):
            if not isinstance(c, Got) or c.cls != "Call" or not isinstance(c.fields["args"], list) or len(c.fields["args"]) != 1 or c.fields["name"] != "u." + self.action[k]:
                self.bad("flow", "action of the chain", "the action of the chain does not call step %d with the result of the one before: %s" % (k + 1, short(c)))
                break
            c = c.fields["args"][0]
        else:
            if not isinstance(c, Got) or c.cls != "Ref" or c.fields["name"] != "input":
                self.bad("flow", "input of the chain", "the first step gets %s" % short(c))
        # what a step reads of its engine was put in place before
        for (name, cell), parts in sorted(self.used.items()):
            for part in sorted(parts):
                for before in (["begin"] if name in ("name", "instance", "metadata", "version") else [part]):
                    if not any(isinstance(x, Got) and x.cls == "CellTo" and x.fields["cell"] == cell and x.fields["path"] == [] and isinstance(x.fields["to"], Got) and
                               x.fields["to"].cls == "Ref" and x.fields["to"].fields["name"] == name for x in prep.get(before, [])):
                        self.bad("flow", "%s in %s" % (name, part), "%s is read from the cell %s, which the %s of the chain does not set to it first" % (name, cell, before))
            R.count("flow")
        for part in prep:
            for x in prep[part]:
                if isinstance(x, Got) and x.cls == "CellTo" and isinstance(x.fields["to"], Got) and x.fields["to"].cls == "Ref":
                    if (x.fields["to"].fields["name"], x.fields["cell"]) not in self.used:
                        self.unknown.append("%s sets the cell %s" % (part, x.fields["cell"]))
        # cells and pools
        for kind, coll in (("cell", "cells"), ("pool", "pools")):
            for k, d in enumerate(docs):
                for nm, c in d[coll].items():
                    new = [x for x, g in out[coll].items() if isinstance(g, Got) and g.fields.get("pos") == c["pos"]]
                    if len(new) != 1:
                        self.bad("names", "definition of a %s" % kind, "the %s %s of step %d is defined %d times in the chain" % (kind, nm, k + 1, len(new)))
                        continue
                    R.count("flow")
                    self.name(kind, k, nm, new[0], "definition")
                    g = out[coll][new[0]]
                    t = c["avroPlaceholder"]["avroType"]
                    self.type(k, t, g.fields["avroPlaceholder"], "type of a %s" % kind)
                    for f in ("shared", "rollback", "source"):
                        if g.fields[f] != c[f]:
                            self.bad("values", "%s of a %s" % (f, kind), "%s of the %s %s is %s instead of %s" % (f, kind, nm, short(g.fields[f]), c[f]))
                    if c["source"] != "embedded":
                        if g.fields["init"] != c["init"]:
                            self.bad("values", "init of a %s" % kind, "the source of the %s %s is %s" % (kind, nm, short(g.fields["init"])))
                    elif kind == "cell":
                        self.value(k, t, c["init"], g.fields["init"], "a cell")
                    elif not isinstance(g.fields["init"], dict):
                        if isinstance(g.fields["init"], tuple) and g.fields["init"][0] == "unknown":
                            self.unknown.append("init of a pool: %s" % short(g.fields["init"]))
                        else:
                            self.bad("values", "a pool", "the initial items of the pool %s are %s" % (nm, short(g.fields["init"])))
                    elif set(g.fields["init"]) != set(c["init"]):
                        self.bad("values", "a pool", "the initial items of the pool %s are %s" % (nm, short(sorted(g.fields["init"]))))
                    else:
                        for x in c["init"]:
                            self.value(k, t, c["init"][x], g.fields["init"][x], "a pool")
            own = set(x for x, g in out[coll].items() if isinstance(g, Got) and not any(g.fields.get("pos") == c["pos"] for d in docs for c in d[coll].values()))
            for x in own & set(self.maps[kind].values()):
                self.bad("names", "%s of the chain" % kind, "the %s %s of the chain has the name of one of a step's" % (kind, x))
        # types of the chain, names of types
        self.type(0, docs[0]["inputPlaceholder"]["avroType"], out["inputPlaceholder"], "input of the chain")
        self.type(n - 1, docs[-1]["outputPlaceholder"]["avroType"], out["outputPlaceholder"], "output of the chain")
        for k, d, f in ((0, docs[0], "inputPlaceholder"), (n - 1, docs[-1], "outputPlaceholder")):
            for x in fullnames(d[f]["avroType"]):
                if self.maps["type"].get((k, x), x) != x:
                    self.bad("names", "types of the %s of the chain" % f[:-11], "the type %s of the %s of the chain is called %s" % (x, f[:-11], self.maps["type"][(k, x)]))
        same = {}
        for k in range(n - 1):
            a, b = fullnames(docs[k]["outputPlaceholder"]["avroType"]), fullnames(docs[k + 1]["inputPlaceholder"]["avroType"])
            for x, y in zip(a, b):
                same[(k + 1, y)] = same.get((k, x), (k, x))
                p, q = self.maps["type"].get((k, x)), self.maps["type"].get((k + 1, y))
                if p != q:
                    self.bad("names", "types between steps", "what step %d calls %s and step %d calls %s becomes %s and %s" % (k + 1, x, k + 2, y, p, q))
        for kind in self.maps:
            by = {}
            for key, new in sorted(self.maps[kind].items()):
                by.setdefault(new, set()).add(same.get(key, key) if kind == "type" else key)
            for new, keys in sorted(by.items()):
                R.count("names")
                if len(keys) > 1:
                    self.bad("names", "%ss of different steps" % kind, "different %ss become %s: %s" % (kind, new, ", ".join("%s of step %d" % (o, k + 1) for k, o in sorted(keys))))
        acts = list(self.action.values())
        if len(set(acts)) < len(acts) or set(acts) & set(self.maps["fcn"].values()):
            self.bad("names", "actions of steps", "the actions of the steps become %s" % short(acts))


def positions(g):
    out, todo = set(), [g]
    while todo:
        x = todo.pop()
        if isinstance(x, Got):
            out.add(x.fields.get("pos"))
            todo += list(x.fields.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
        elif isinstance(x, dict):
            todo += list(x.values())
    return out


def fullnames(t, out=None):
    out = [] if out is None else out
    if "fullName" in t.attrs:
        if t["fullName"] in out:
            return out
        out.append(t["fullName"])
    for x in [t.attrs.get("items"), t.attrs.get("values")] + list(t.attrs.get("types", [])) + [f["avroType"] for f in t.attrs.get("fields", [])]:
        if x is not None:
            fullnames(x, out)
    return out


def named(t):
    return bool(fullnames(t))


class Record(object):
    def __init__(self):
        self.counts, self.findings = {}, []

    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def finding(self, *a):
        self.findings.append(a)


def one(chain):
    """(counts, findings, not judged, why it cannot be analysed) for one chain"""
    p, model, mod, fn = WORK
    methods, version = chain
    R, unknown = Record(), []
    try:
        label = ", ".join(methods)
        it = Chain(p, model)
        docs = steps(model, methods)
        vals = {"check": Const(False), "name": Const("chain"), "randseed": NONE, "doc": NONE, "version": NONE if version is None else Const(version), "tryYaml": Const(False), "verbose": Const(False)}
        args = []
        for a in [a.arg for a in fn.args.args]:
            if a == "pfas":
                args.append(lambda s, f: s.mklist(f, "list", [V(s.sym(d)) for d in docs], "pfas"))
            elif a in vals:
                v = vals[a]
                args.append(v if isinstance(v, frozenset) else V(v))
            else:
                args.append(lambda s, f: s.mkdict(f, []))
        outs = []
        for v, st in it.call_in(fn, mod, args):
            it.st, it.frames = st, [it.module_frame(mod)]
            outs.append(it.out(v))
        if not outs:
            R.finding("flow", "chain of %s" % label, "the documents cannot be chained: every way to the end is refused", "titus/producer/chain.py")
        for g in outs:
            if not isinstance(g, Got) or g.cls != "EngineConfig":
                raise AnalysisBroken("chaining gives %s" % short(g))
            j = Judge(R, model, docs, g, label, version)
            j.run()
            unknown += j.unknown
    except AnalysisBroken as e:
        return R.counts, R.findings, unknown, str(e)
    return R.counts, R.findings, unknown, None


def run(R):
    R.rule("forms", "forms of a step: each becomes the same form with every part, position and option in its place; what a step reads of its engine is read from where the chain keeps it")
    R.rule("types", "types of a step's forms, cells, pools and functions: each becomes the same type under the new names, with its sizes, symbols, fields, defaults and orders")
    R.rule("names", "new names: a name becomes the same name wherever the step uses it, names of different steps stay different, and the types between two steps get one name")
    R.rule("values", "values of literals, cells and pools belong to the type as it is called in the chain")
    R.rule("flow", "each step gets what the one before gives, in order, with its cells, pools and functions")
    p = Project()
    model = AstModel(p)
    mod = p.mod("titus.producer.chain")
    fn = p.func("titus.producer.chain", "ast")
    chains = [(("map", "map", "map"), 3), (("emit", "map", "emit"), None), (("map", "emit", "map"), None), (("emit", "emit"), 2), (("map", "map"), None), (("map",), 1), (("emit",), None)]
    global WORK
    WORK = (p, model, mod, fn)
    with multiprocessing.get_context("fork").Pool(min(len(chains), os.cpu_count() or 1)) as pool:
        res = pool.map(one, chains, 1)
    unknown, said = [], set()
    for counts, findings, unk, broken in res:
        if broken:
            raise AnalysisBroken(broken)
        for r, n in counts.items():
            R.count(r, n)
        for f in findings:
            if f[:2] not in said:
                said.add(f[:2])
                R.finding(*f)
        unknown += unk
    R.note("not judged", sorted(set(unknown))[:60])
    R.floor("forms", 1000)
    R.floor("types", 1000)
    R.floor("names", 40)
    R.floor("flow", 20)


if __name__ == "__main__":
    report.main("P04", run)
