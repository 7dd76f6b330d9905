import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.interp import Const, Sym, Alloc, V, Fn, Cls, NONE, _Const, EMPTY, _single_const
from sa.reading import DocInterp

DT = "titus.datatype"
PRIM = {"null": "AvroNull", "boolean": "AvroBoolean", "int": "AvroInt", "long": "AvroLong", "float": "AvroFloat", "double": "AvroDouble",
        "bytes": "AvroBytes", "string": "AvroString"}
KINDS = {"fixed": "AvroFixed", "enum": "AvroEnum", "array": "AvroArray", "map": "AvroMap", "record": "AvroRecord", "union": "AvroUnion"}
# parameters of the classes of the Avro library
AVRO = {"FixedSchema": ("name", "namespace", "size", "names"), "EnumSchema": ("name", "namespace", "symbols", "names", "doc"),
        "ArraySchema": ("items",), "MapSchema": ("values",), "RecordSchema": ("name", "namespace", "fields", "make_fields", "names", "record_type", "doc"),
        "UnionSchema": ("schemas",), "Field": ("type", "name", "index", "has_default", "default", "order", "names", "doc")}


def sy(*r):
    return V(Sym(r, (), None))


class Types(DocInterp):
    opaque_mods = DocInterp.opaque_mods - {DT}

    def pinned_memo(self, v):
        c = self.consts(v) if len(v) == 1 else None
        return None if c is None else frozenset(c)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef) and o.mod.name == DT:
            n = o.node.name
            s = o.self_ if o.self_ is None or isinstance(o.self_, frozenset) else V(o.self_)
            a = list(args) + [kwargs[p.arg] for p in o.node.args.args[len(args) + (s is not None):] if p.arg in kwargs]
            if n == "jsonNode" and s is not None and self.sh(s) != "t()":
                self.memos.append((self.sh(s), self.pinned_memo(a[0]) if a else None, next(iter(a[0])) if a and len(a[0]) == 1 else None))
                return V(Sym(("json", self.plain(s)), (), None))
            if n == "schemaToAvroType" and len(a) == 1 and self.sh(a[0]) != "s()":
                return V(Sym(("type", self.sh(a[0])), (), ("inst", self.proj.cls(DT, "AvroType"))))
            if n in ("getAvroType", "getSchema") and len(a) == 1 and self.sh(a[0]).startswith("part("):
                return V(Sym(("described", self.sh(a[0])), (), ("inst", self.proj.cls(DT, "AvroType"))))
            return None
        return DocInterp.on_call(self, node, o, args, kwargs)

    def plain(self, s):
        o = next(iter(s)) if len(s) == 1 else None
        if isinstance(o, Alloc) and o.cls is not None:
            x = self.fields(o).get(("a", "_schema"))
            return "%s of %s" % (o.cls.name, self.sh(x) if x is not None else "?")
        return self.sh(s)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        if qual.startswith("avro.schema."):
            names = AVRO.get(qual[12:], ())
            d = dict(zip(names, args))
            d.update(kwargs)
            if qual[12:] in AVRO:
                return V(Sym((qual[12:],) + tuple((k, d[k]) for k in names if k in d), (), None))
            return V(Sym((qual,) + tuple(self.sh(a) for a in args), (), None))
        if qual.endswith("__new__") and args and len(args[0]) == 1 and isinstance(next(iter(args[0])), Cls):
            return V(self.alloc(node, "inst", next(iter(args[0])).ci))
        if qual.split(".")[-1] in ("has_name", "get_name") and recv is not None:
            nm = "/".join(self.sh(a) for a in args[:1])
            if qual.endswith("has_name"):
                return V(Const(nm in self.known))
            return V(Sym(("named", nm), (), None))
        return DocInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def compare1(self, op, l, r):
        v = DocInterp.compare1(self, op, l, r)
        if v is None and op in ("Eq", "NotEq") and l and r:
            x, y = self.exactdict(l), self.exactdict(r)
            if x is not None and y is not None:
                x, y = [dict((next(iter(k)).v, e) for k, e in z) for z in (x, y)]
                if set(x) != set(y) or any(self.compare1("Eq", x[k], y[k]) is False for k in x):
                    return op == "NotEq"
                if all(x[k] == y[k] and len(x[k]) == 1 for k in x):
                    return op == "Eq"
        return v

    def ext_method(self, node, name, recv, args, kwargs):
        if name in ("has_name", "get_name") and args:
            nm = self.sh(args[0])
            return V(Const(nm in self.known)) if name == "has_name" else V(Sym(("named", nm), (), None))
        return DocInterp.ext_method(self, node, name, recv, args, kwargs)


class Check(object):
    def __init__(self, R):
        self.R = R
        self.p = Project()
        self.it = Types(self.p, AstModel(self.p))
        self.it.memos, self.it.known = [], ()
        self.und = []
        self.mod = self.p.cls(DT, "AvroType").mod

    def where(self, cls, meth=None):
        c = self.p.cls(DT, cls)
        m = self.p.method(c, meth) if meth else None
        return self.p.where(m[0], m[1].mod) if m else self.p.where(c.node, c.mod)

    def go(self, src, args, pins=None):
        """ways the expression over a (first argument) can come out: [(value, state)]"""
        fn = ast.parse("def probe(%s):\n    return %s" % (", ".join(sorted(args)), src)).body[0]
        self.it.memos = []
        pins = dict((k, v if not isinstance(v, (str, int, float, bool, type(None))) else V(Const(v))) for k, v in (pins or {}).items())
        return self.it.call_in(fn, self.mod, [args[k] for k in sorted(args)], pins)

    def one(self, ends, what, rule, where):
        if not ends:
            self.R.finding(rule, what, "cannot end normally", where)
            return None
        v = EMPTY
        for x, s in ends:
            v = v | x
        self.it.st = ends[0][1]
        return v

    def same(self, rule, what, x, want, where):
        """x is the constant, symbol (by its text) or structure wanted"""
        it, R = self.it, self.R
        R.count(rule)
        if x is None:
            R.finding(rule, what, "it is missing", where)
            return
        o = next(iter(x)) if len(x) == 1 else None
        ok = False
        if isinstance(want, tuple) and want and want[0] == "const":
            ok = isinstance(o, _Const) and o.v == want[1] and type(o.v) is type(want[1])
            w = repr(want[1])
        else:
            ok = it.sh(x) in (want if isinstance(want, (set, tuple)) else (want,))
            w = sorted(want)[0] if isinstance(want, (set, tuple)) else want
        if ok:
            return
        if isinstance(o, _Const) or isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] in ("t", "s", "a", "type", "json", "part", "described", "named") \
                or isinstance(o, Alloc) and o.cls is not None:
            R.finding(rule, what, "it is %s, not %s" % (it.plain(x), w), where)
        else:
            self.und.append("%s: %s" % (what, it.sh(x)[:80]))

    # ---- writing ------------------------------------------------------------------------------------------------
    def t(self, cls):
        return V(Sym(("t",), (), ("inst", self.p.cls(DT, cls), "exact")))

    def write(self, cls, pins, memo, label):
        where = self.where(cls, "jsonNode")
        ends = self.go("t.jsonNode(%s)" % memo, {"t": self.t(cls)}, pins)
        return self.one(ends, "%s %s" % (cls, label), "written", where), where

    def written(self):
        it = self.it
        for n, c in sorted(PRIM.items()):
            v, where = self.write(c, {}, "set()", "")
            if v is not None:
                self.same("written", c, v, ("const", n), where)
        for c, key in (("AvroArray", "items"), ("AvroMap", "values")):
            v, where = self.write(c, {}, "set()", "")
            self.dict(c, v, {"type": ("const", key == "items" and "array" or "map"), key: "json(type(t()._schema.%s))" % key}, where)
        v, where = self.write("AvroUnion", {"t()._schema._schemas": [sy("s", 1), sy("s", 2)]}, "set()", "of two")
        x = v is not None and it.exact(v)
        if x is None or x is False:
            if v is not None:
                self.und.append("AvroUnion: %s" % it.sh(v)[:80])
        else:
            self.R.count("written")
            if [it.sh(y) for y in x] != ["json(type(s(1)))", "json(type(s(2)))"]:
                self.R.finding("written", "AvroUnion", "it is written as [%s]" % ", ".join(it.sh(y) for y in x), where)
        for kind, c in (("fixed", "AvroFixed"), ("enum", "AvroEnum"), ("record", "AvroRecord")):
            for ns in (None, "", "ns"):
                full = "ns.N" if ns else "N"
                for memo, known in (("set()", False), ("set(['other'])", False), ("set(['%s'])" % full, True), ("set(['N'])", not ns)):
                    for nf in ((0, 1, 2) if kind == "record" else (0,)):
                        pins = {"t()._schema.name": "N", "t()._schema.namespace": ns, "t()._schema.fullname": full if ns else ".N" if ns == "" else "N"}
                        if kind == "record":
                            pins["t()._schema.fields"] = [sy("s", i) for i in range(nf)]
                        label = "in %s namespace, %s" % ("no" if ns is None else "the empty" if ns == "" else "a", "written before" if known else "not written before")
                        v, where = self.write(c, pins, memo, label)
                        if v is None:
                            continue
                        if known:
                            self.same("written", "%s %s" % (c, label), v, ("const", full), where)
                            continue
                        want = {"type": ("const", kind)}
                        if kind == "fixed":
                            want["size"] = "t()._schema.size"
                        if kind == "enum":
                            want["symbols"] = "t()._schema.symbols"
                            pins["t()._schema.symbols"] = ["b", "c", "a"]
                            v, where = self.write(c, pins, memo, label)
                            if v is None:
                                continue
                            del want["symbols"]
                        d = self.dict("%s %s" % (c, label), v, want, where, ("name", "namespace", "fields", "symbols"))
                        if d is None:
                            continue
                        if kind == "enum":
                            x = it.exact(d["symbols"]) if "symbols" in d else []
                            xs = None if x is None else [_single_const(y) for y in x]
                            if xs is None or None in xs:
                                self.und.append("symbols: %s" % it.sh(d["symbols"])[:80])
                            elif [y.v for y in xs] != ["b", "c", "a"] or getattr(next(iter(d["symbols"])), "typ", "") == "set":
                                self.R.finding("written", "%s %s" % (c, label), "the symbols b, c, a are written as %s" % (", ".join(str(y.v) for y in xs) or "nothing"), where)
                            else:
                                self.R.count("written")
                        self.R.count("written")
                        nm, sp = [next(iter(d[k])) if k in d and len(d[k]) == 1 else None for k in ("name", "namespace")]
                        nm, sp = [x.v if isinstance(x, _Const) else None if x is None else self.und.append("%s: name %s" % (c, it.sh(V(x))[:40])) or "?" for x in (nm, sp)]
                        if "?" not in (nm, sp) and (nm, sp or None) not in ((("N", "ns"), ("ns.N", None), ("ns.N", "ns")) if ns else (("N", None),)):
                            self.R.finding("written", "%s %s" % (c, label), "its name is written as %s in the namespace %s" % (nm, sp), where)
                        if kind == "record":
                            fs = it.exact(d["fields"]) if "fields" in d else None
                            if fs is None:
                                if "fields" not in d:
                                    self.R.finding("written", "%s %s" % (c, label), "the fields are not written", where)
                                else:
                                    self.und.append("fields: %s" % it.sh(d["fields"])[:80])
                                continue
                            got = [it.sh(f) for f in fs]
                            if got != ["json(AvroField of s(%d))" % i for i in range(nf)] and all(g.startswith("json(AvroField of ") for g in got):
                                self.R.finding("written", "%s %s" % (c, label), "the fields written are %s" % ", ".join(got), where)
                            for s, m, a in it.memos:
                                self.R.count("written")
                                if m is not None and full not in m:
                                    self.R.finding("written", "%s %s" % (c, label), "the record's own name is not marked as written when its fields are", where)
        for has in (True, False):
            for dflt in (None, 0, "sym"):
                for order in (None, "descending"):
                    if not has and dflt is not None:
                        continue
                    pins = {"t()._schema.has_default": has, "t()._schema.order": order, "t()._schema.name": "F"}
                    if dflt != "sym":
                        pins["t()._schema.default"] = dflt
                    label = "with %s default and %s order" % ("no" if not has else "the" if dflt == "sym" else repr(dflt), "no" if order is None else "an")
                    v, where = self.write("AvroField", pins, "set()", label)
                    if v is None:
                        continue
                    want = {"name": ("const", "F"), "type": "json(type(t()._schema.type))"}
                    if has:
                        want["default"] = "t()._schema.default" if dflt == "sym" else ("const", dflt)
                    if order is not None:
                        want["order"] = ("const", order)
                    self.dict("AvroField %s" % label, v, want, where)

    def dict(self, what, v, want, where, other=()):
        it, R = self.it, self.R
        if v is None:
            return None
        x = it.exactdict(v)
        if x is None:
            o = next(iter(v)) if len(v) == 1 else None
            if isinstance(o, _Const):
                R.finding("written", what, "it is written as %r" % (o.v,), where)
            else:
                self.und.append("%s: %s" % (what, it.sh(v)[:80]))
            return None
        d = dict((next(iter(k)).v, y) for k, y in x)
        for k, w in sorted(want.items()):
            self.same("written", "%s, key %s" % (what, k), d.get(k), w, where)
        for k in sorted(set(d) - set(want) - set(other)):
            R.finding("written", what, "it is written with a key %s" % k, where)
        return d

    def passed(self):
        """The record of names already written goes along to the parts and has the type's own name afterwards."""
        it, R = self.it, self.R
        S = "t()._schema"
        for c, pins in (("AvroArray", {}), ("AvroMap", {}), ("AvroField", {}), ("AvroUnion", {S + "._schemas": [sy("s", 1), sy("s", 2)]}),
                        ("AvroRecord", {S + ".fields": [sy("s", 1), sy("s", 2)], S + ".name": "N", S + ".fullname": "N", S + ".namespace": None})):
            where = self.where(c, "jsonNode")
            self.go("t.jsonNode(m)", {"t": self.t(c), "m": sy("m")}, pins)
            for s, m, a in list(it.memos):
                R.count("passed")
                if a is None:
                    R.finding("passed", c, "the names already written are not passed on to %s" % s, where)
                elif isinstance(a, Alloc) or isinstance(a, _Const):
                    R.finding("passed", c, "%s is written with its own record of names" % s, where)
                elif it.sh(V(a)) != "m()":
                    self.und.append("%s: memo %s" % (c, it.sh(V(a))[:60]))
        for c in ("AvroFixed", "AvroEnum", "AvroRecord"):
            where = self.where(c, "jsonNode")
            for ns, full in ((None, "N"), ("ns", "ns.N")):
                ends = self.go("[t.jsonNode(m), m]", {"t": self.t(c), "m": lambda i, fn: i.mklist(fn, "set", [V(Const("x"))], "memo")},
                               {S + ".name": "N", S + ".namespace": ns, S + ".fullname": full, S + ".fields": [sy("s", 1)]})
                for v, st in ends:
                    it.st = st
                    x = it.exact(v)
                    k = it.consts(x[1]) if x is not None else None
                    if k is None:
                        self.und.append("%s: memo after writing" % c)
                        continue
                    R.count("passed")
                    if set(k) != {"x", full}:
                        R.finding("passed", c, "after writing %s the names marked as written are %s" % (full, ", ".join(sorted(map(str, k)))), where)

    # ---- reading ------------------------------------------------------------------------------------------------
    def read(self):
        it, R = self.it, self.R
        f = self.p.lookup(self.mod, "schemaToAvroType")
        where = self.p.where(f[1], self.mod) if f is not None and len(f) > 1 and isinstance(f[1], ast.AST) else "titus/datatype.py"
        for k, c in sorted(list(PRIM.items()) + list(KINDS.items())):
            v = self.one(self.go("schemaToAvroType(s)", {"s": sy("s")}, {"s().type": k}), k, "read", where)
            if v is None:
                continue
            R.count("read")
            for o in v:
                if o == next(iter(NONE)):
                    R.finding("read", k, "there is no type for it", where)
                elif not isinstance(o, Alloc) or o.cls is None:
                    self.und.append("%s: %s" % (k, it.sh(V(o))[:60]))
                elif o.cls.name != c:
                    R.finding("read", k, "it is taken for %s" % o.cls.name, where)
                elif k in KINDS:
                    self.same("read", "the schema of %s" % k, it.fields(o).get(("a", "_schema")), "s()", where)
        # parts
        S = "t()._schema"
        for c, attr, want in (("AvroFixed", "size", S + ".size"), ("AvroEnum", "symbols", S + ".symbols"), ("AvroArray", "items", "type(%s.items)" % S),
                              ("AvroMap", "values", "type(%s.values)" % S), ("AvroRecord", "namespace", S + ".namespace"), ("AvroFixed", "name", S + ".name"),
                              ("AvroEnum", "name", S + ".name"), ("AvroRecord", "name", S + ".name"), ("AvroField", "name", S + ".name"),
                              ("AvroField", "avroType", "type(%s.type)" % S), ("AvroField", "order", S + ".order")):
            where = self.where(c)
            v = self.one(self.go("t." + attr, {"t": self.t(c)}), "%s of %s" % (attr, c), "read", where)
            if v is not None:
                self.same("read", "%s of %s" % (attr, c), v, want, where)
        for has, d in ((True, "sym"), (True, None), (True, 0), (False, None)):
            pins = {S + ".has_default": has}
            if d != "sym":
                pins[S + ".default"] = d
            where = self.where("AvroField")
            v = self.one(self.go("t.default", {"t": self.t("AvroField")}, pins), "default of AvroField", "read", where)
            if v is not None:
                self.same("read", "default of a field with %s" % ("one" if has else "none"), v, S + ".default" if d == "sym" else ("const", d), where)
        for c in ("AvroFixed", "AvroEnum", "AvroRecord"):
            for ns, full in ((None, "N"), ("", ".N"), ("ns", "ns.N")):
                where = self.where(c)
                v = self.one(self.go("t.fullName", {"t": self.t(c)}, {S + ".name": "N", S + ".namespace": ns, S + ".fullname": full}), "fullName of " + c, "read", where)
                if v is not None:
                    self.same("read", "fullName of %s in the namespace %r" % (c, ns), v, ("const", "ns.N" if ns else "N"), where)
        for c, attr, src, want in (("AvroUnion", "types", "_schemas", "type(s(%d))"), ("AvroRecord", "fields", "fields", "AvroField of s(%d)")):
            where = self.where(c)
            v = self.one(self.go("t." + attr, {"t": self.t(c)}, {"%s.%s" % (S, src): [sy("s", 1), sy("s", 2)]}), "%s of %s" % (attr, c), "read", where)
            x = it.exact(v) if v is not None else None
            if x is None:
                self.und.append("%s of %s: %s" % (attr, c, v and it.sh(v)[:60]))
                continue
            R.count("read")
            if [it.plain(y) for y in x] != [want % 1, want % 2]:
                R.finding("read", "%s of %s" % (attr, c), "they are %s" % ", ".join(it.plain(y) for y in x), where)

    # ---- looking up ---------------------------------------------------------------------------------------------
    def looked(self):
        it, R = self.it, self.R
        cls = self.p.cls(DT, "ForwardDeclarationParser")
        where = self.where("ForwardDeclarationParser", "getAvroType")
        prs = V(Sym(("parser",), (), ("inst", cls, "exact")))

        def look(src, label, args=None):
            a = {"p": prs, "x": sy("x")}
            a.update(args or {})
            return self.one(self.go("p.getAvroType(%s)" % src, a, {"x().part": sy("part", 0), "x().other": sy("part", 1)}), label, "looked", where)

        def inst(v, c, label, want=None):
            R.count("looked")
            if v is None:
                return
            for o in v:
                if isinstance(o, Alloc) and o.cls is not None:
                    if o.cls.name != c:
                        R.finding("looked", label, "it is taken for %s" % o.cls.name, where)
                    elif want is not None:
                        sch = it.fields(o).get(("a", "_schema"), EMPTY)
                        q = next(iter(sch)) if len(sch) == 1 else None
                        if isinstance(q, Sym) and isinstance(q.root, tuple) and q.root[0] in AVRO:
                            got = dict(q.root[1:])
                            for k, w in want.items():
                                y = got.get(k)
                                z = it.exact(y) if y is not None else None
                                t = it.sh(y) if y is not None and z is None else [it.sh(e) for e in z] if z is not None else "missing"
                                t = t.replace("._schema", ".schema") if isinstance(t, str) else [e.replace("._schema", ".schema") for e in t]
                                if t != w and t is not None:
                                    R.finding("looked", label, "its %s are %s" % (k, t), where)
                        else:
                            self.und.append("%s: %s" % (label, it.sh(sch)[:60]))
                elif o == next(iter(NONE)):
                    R.finding("looked", label, "it is not found", where)
                else:
                    self.und.append("%s: %s" % (label, it.sh(V(o))[:60]))
        it.known = ()
        for n, c in sorted(PRIM.items()):
            inst(look(repr(n), n), c, n)
            inst(look("{'type': %r}" % n, "{type: %s}" % n), c, "{type: %s}" % n)
        D = "described(part(%d)).schema"
        inst(look("{'type': 'array', 'items': x.part}", "array"), "AvroArray", "array", {"items": D % 0})
        inst(look("{'type': 'map', 'values': x.part}", "map"), "AvroMap", "map", {"values": D % 0})
        inst(look("[x.part, x.other]", "union"), "AvroUnion", "union", {"schemas": [D % 0, D % 1]})
        it.known = ("'N'",)
        for k in ("fixed", "enum", "record"):
            v = look("{'type': %r, 'name': 'N'}" % k, k)
            if v is not None:
                self.same("looked", k + " by its definition", v, "type(named('N'))", where)
        v = look("'N'", "a name")
        if v is not None:
            R.count("looked")
            if not any(it.sh(V(o)) == "type(named('N'))" for o in v) and all(isinstance(o, Alloc) and o.cls is not None or isinstance(o, _Const) for o in v):
                R.finding("looked", "a type by its name", "it is %s" % it.sh(v)[:80], where)
        it.known = ()

    # ---- making -------------------------------------------------------------------------------------------------
    def built(self):
        it, R = self.it, self.R
        C = (("AvroFixed(a.size, a.name, a.ns)", "FixedSchema", {"size": "a().size", "namespace": "a().ns", "name": "a().name"}),
             ("AvroFixed(a.size)", "FixedSchema", {"size": "a().size", "namespace": "None"}),
             ("AvroEnum(a.symbols, a.name, a.ns)", "EnumSchema", {"symbols": "a().symbols", "namespace": "a().ns", "name": "a().name"}),
             ("AvroArray(a.items)", "ArraySchema", {"items": "a().items.schema"}),
             ("AvroMap(a.items)", "MapSchema", {"values": "a().items.schema"}),
             ("AvroRecord([a.f, a.g], a.name, a.ns)", "RecordSchema", {"fields": ["a().f.schema", "a().g.schema"], "namespace": "a().ns", "name": "a().name"}),
             ("AvroUnion([a.f, a.g])", "UnionSchema", {"schemas": ["a().f.schema", "a().g.schema"]}),
             ("AvroField('F', a.items)", "Field", {"type": "a().items.schema", "name": "'F'", "has_default": "False", "default": "None", "order": "None"}),
             ("AvroField('F', a.items, 3, 0, 'ignore')", "Field", {"type": "a().items.schema", "name": "'F'", "has_default": "True", "default": "0", "order": "'ignore'"}))
        for src, kind, want in C:
            c = src.split("(")[0]
            where = self.where(c)
            v = self.one(self.go(src, {"a": sy("a")}, {"a().name": "N"}), src, "built", where)
            if v is None:
                continue
            R.count("built")
            for o in v:
                s = it.fields(o).get(("a", "_schema"), EMPTY) if isinstance(o, Alloc) else EMPTY
                q = next(iter(s)) if len(s) == 1 else None
                if not (isinstance(q, Sym) and isinstance(q.root, tuple) and q.root[0] in AVRO):
                    self.und.append("%s: %s" % (src, it.sh(s)[:60]))
                    continue
                if q.root[0] != kind:
                    R.finding("built", src, "its schema is a %s" % q.root[0], where)
                    continue
                got = dict(q.root[1:])
                for k, w in sorted(want.items()):
                    if w == "a().name":
                        w = "'N'"
                    y = got.get(k)
                    z = it.exact(y) if y is not None else None
                    t = [it.sh(e) for e in z] if z is not None else it.sh(y) if y is not None else "None"
                    if t == w:
                        continue
                    if z is not None or isinstance(next(iter(y)) if y and len(y) == 1 else None, (_Const, Sym)) or y is None:
                        R.finding("built", src, "its %s is %s, not %s" % (k, t, w), where)
                    else:
                        self.und.append("%s: %s is %s" % (src, k, t[:60]))


MUTABLE = (ast.List, ast.Dict, ast.Set)


def defaults(R, p):
    """Parameters whose default is one container for all calls."""
    for m in p.mods.values():
        if m.name not in ("titus.datatype", "titus.pfaast", "titus.reader", "titus.util", "titus.genpy", "titus.signature"):
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            a = fn.args
            for par, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                R.count("fresh")
                if not (isinstance(d, MUTABLE) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("set", "list", "dict")):
                    continue
                body = fn.body if isinstance(fn.body, list) else [fn.body]
                if any(isinstance(t, ast.Name) and t.id == par.arg and isinstance(t.ctx, ast.Store) for s in body for t in ast.walk(s)):
                    continue
                for s in body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call) and (any(isinstance(y, ast.Name) and y.id == par.arg for y in list(x.args) + [k.value for k in x.keywords])
                                                        and isinstance(x.func, ast.Attribute) and x.func.attr == "jsonNode"
                                                        or isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == par.arg
                                                        and x.func.attr in ("add", "append", "update", "extend", "pop", "insert", "setdefault")):
                            R.finding("fresh", "%s of %s" % (par.arg, getattr(fn, "name", "<lambda>")), "all calls without it share one %s" % ast.unparse(d), p.where(fn, m))


def run(R):
    R.rule("written", "the JSON of a type has its kind and every part, and only the full name the second time")
    R.rule("passed", "the names already written go along to the parts and have the type's own name afterwards")
    R.rule("read", "a schema is taken for a type of its kind, whose parts are the schema's")
    R.rule("looked", "a type described by a name, a kind or an object is found as that type")
    R.rule("built", "a type made from parts has a schema with those parts")
    R.rule("fresh", "writing a type does not depend on what was written by earlier calls")
    c = Check(R)
    c.written()
    c.passed()
    c.read()
    c.looked()
    c.built()
    defaults(R, c.p)
    R.note("not judged", sorted(set(c.und)))
    R.floor("written", 60)
    R.floor("passed", 6)
    R.floor("read", 25)
    R.floor("looked", 10)
    R.floor("built", 4)


if __name__ == "__main__":
    report.main("D05", run)
