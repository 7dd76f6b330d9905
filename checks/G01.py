import ast, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.report import VERIF
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.forms import FormModel, variants, NCHILD
from sa.interp import Sym, _Const, symstr
from sa.lts import Explorer, difference
from sa.evalorder import FormClient, partname, words


def holes(t):
    """identifier -> ("code", part) or ("data", field)"""
    out = {}
    for k, h in t.holes.items():
        code = set(o.root[1] for o in h.val if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "res" and not o.path)
        if h.conv in ("raw", "str") and len(h.val) == 1 and code:
            out[k] = ("code", partname(next(iter(code))))
        else:
            out[k] = ("data", "|".join(sorted(partname(o.path) if isinstance(o, Sym) and o.path else symstr(o)[:40] for o in h.val)))
    return out


BOOLPARTS, NULLPARTS = ("predicate",), ("exprs",)
OPAQUE = ("get", "update", "pack", "untagUnions", "wrapAsUnion", "pooldel", "jsonDecoder", "checkData", "error", "callfcn", "jsonEncoder")
LABELLED = ("FcnDef", "CastCase")


def sandbox(p):
    """Names visible to generated code -> project function, from the dictionary the engine class is executed in."""
    m = p.mod("titus.genpy")
    best = None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict) and sum(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) > 15:
            ks = [k.value for k in n.keys if isinstance(k, ast.Constant)]
            if "PFAEngine" in ks and (best is None or len(ks) > len(best.keys)):
                best = n
    if best is None:
        raise AnalysisBroken("the name table of generated code was not found")
    out = {}
    for k, v in zip(best.keys, best.values):
        if not isinstance(k, ast.Constant):
            continue
        r = None
        if isinstance(v, ast.Name):
            r = p.lookup(m, v.id)
        elif isinstance(v, ast.Attribute):
            r = p.lookup_dotted(m, ast.unparse(v)) if hasattr(p, "lookup_dotted") else None
        if isinstance(r, tuple) and r and r[0] == "func":
            out[k.value] = (r[1], r[2])
        else:
            out.setdefault(k.value, None)
    return out


def sandbox_names(p):
    """Names generated code may use: string constants where the name table is made."""
    m = p.mod("titus.genpy")
    names = set(sandbox(p))
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "exec" for c in ast.walk(f)):
            for n in ast.walk(f):
                if isinstance(n, ast.Dict):
                    names.update(k.value for k in n.keys if isinstance(k, ast.Constant))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                    names.add(n.slice.value)
                elif isinstance(n, ast.keyword) and n.arg:
                    names.add(n.arg)
    return names


def refs():
    with open(os.path.join(VERIF, "spec", "forms_ref.py")) as fh:
        t = ast.parse(fh.read())
    return {n.name: RefName().visit(n) for n in t.body if isinstance(n, ast.FunctionDef)}


class RefName(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "d":
            return ast.copy_location(ast.Name("d_" + n.args[0].value, ast.Load()), n)
        return n


def function(body):
    return ast.parse("def form(self, state, scope):\n    return (%s)\n" % body).body[0]


def childparts(m, name, inst):
    """Part names of a form in constructor order."""
    out = []

    def go(cn, path, inst):
        ch = m.children(cn)
        for f in m.params(cn):
            if f not in ch or inst.get((f,)) is False:
                continue
            shape, elem = ch[f]
            for q in [path + (f,)] if shape == "one" else [path + (f, "[%d]" % k) for k in range(NCHILD)]:
                out.append(partname(q))
    go(name, (), inst)
    return out


def eager(parts, present):
    """Reference for forms that simply evaluate every part once, in order."""
    body = "".join("    %s\n" % x for x in parts if x in present)
    return ast.parse("def form(state, scope):\n%s    return anything()\n" % body).body[0]


# parts that need not appear as code: literal path steps, functions passed by reference
MAYSKIP = ("path_0", "path_1", "to")
# forms generated by the library function objects, forms that only make closures out of named functions
SKIPFORMS = ("Call", "FcnRefFill", "FcnRef")


FILTERS = (None, (), ("boom",), ("other",), (7,), (9,), ("other", 7), ("boom", 9), ("other", 9))


class FilterClient(FormClient):
    """Conditions on the error and the filter, decided for one error (with message "boom" and code 7) and one filter."""
    filt = None

    def value(self, t):
        if t[0] == "const":
            return (t[1],)
        if t == ("data", "filter"):
            return (self.filt,)
        exc = lambda x: x[0] == "new" and x[1][1] in FAILKINDS
        attrs = {"message": "boom", "code": 7}
        if t[0] == "attr" and exc(t[1]) and t[2] in attrs:
            return (attrs[t[2]],)
        if t[0] == "call" and t[1] in (("global", "getattr"), ("global", "hasattr")) and len(t[2]) >= 2 and exc(t[2][0]) and t[2][1][0] == "const" and t[2][1][1] in attrs:
            return (attrs[t[2][1][1]] if t[1][1] == "getattr" else True,)
        if t[0] == "call" and t[1][0] == "global" and t[1][1] in ("len", "list", "tuple", "set", "frozenset", "bool") and len(t[2]) == 1:
            v = self.value(t[2][0])
            if v is not None and not (v[0] is None and t[1][1] != "bool"):
                return (len(v[0]) if t[1][1] == "len" else bool(v[0]) if t[1][1] == "bool" else tuple(v[0]),)
        if t[0] == "tuple" or t[:2] in (("op", "list"), ("op", "set")):
            vs = [self.value(x) for x in t[1 if t[0] == "tuple" else 2:]]
            return None if None in vs else (tuple(v[0] for v in vs),)
        if t[0] == "op" and t[1] in ("not", "nonempty") and len(t) == 3:
            v = self.value(t[2])
            return v and (not v[0] if t[1] == "not" else bool(v[0]),)
        if t[0] == "op" and len(t) == 4 and t[1] in ("in", "is", "==", "<", "<=", "and", "or"):
            a, b = self.value(t[2]), self.value(t[3])
            if a is None or b is None:
                return None
            a, b = a[0], b[0]
            try:
                return (a in b if t[1] == "in" else a == b if t[1] == "==" else (a is b if a is None or b is None else a == b) if t[1] == "is" else
                        a < b if t[1] == "<" else a <= b if t[1] == "<=" else (a and b) if t[1] == "and" else (a or b),)
            except TypeError:
                return None
        return None

    def decide(self, t, ex):
        v = self.value(t)
        return None if v is None else bool(v[0])


def absorbed(rep, p, sb, gp, text, names, parts, where):
    """A failing try gives null exactly when it has no filter or the filter has the error's message or code."""
    for filt in FILTERS:
        for kind in ("PFARuntimeException", "PFAUserException"):
            c = FilterClient(p, names, sb, OPAQUE, BOOLPARTS, NULLPARTS, {})
            c.failing, c.filt = (kind,), filt
            a = Explorer(p, c).explore(function(text), gp, {})
            ends, seen = set(), set()
            work = [(a.start, False)]
            while work:
                n = work.pop()
                if n in seen:
                    continue
                seen.add(n)
                for l, b in a.edges.get(n[0], ()):
                    f = n[1] or l is not None and l[0] == "fails"
                    if f and b in a.final and l is not None:
                        ends.add("raises" if l[0] == "raise" else "null" if l == ("ret", "null") else "a value")
                    work.append((b, f))
            want = "null" if filt is None or "boom" in filt or 7 in filt else "raises"
            rep.count("filter")
            if len(ends) == 1 and ends != {want}:
                rep.finding("filter", "try", "an error with message 'boom' and code 7 %s when the filter is %s" % (
                    "is passed on" if ends == {"raises"} else "becomes a missing value", "absent" if filt is None else list(filt)), where)
            elif len(ends) != 1:
                rep.note("filter", "not decided for filter %s" % (filt,))


def run(rep):
    rep.rule("filter", "a try turns an error into a missing value exactly when it has no filter or the filter names the error's message or code")
    rep.rule("order", "the code of a special form evaluates the form's parts in the defined order, each as often and under the condition the form defines, "
                      "with loop and pattern variables bound before the parts that see them, and yields the defined value")
    rep.rule("called", "a function literal or cast case evaluates its body in order when called and yields the last value")
    p = Project()
    m = AstModel(p)
    fm = FormModel(p, m)
    sb = sandbox(p)
    gp = p.mod("titus.genpy")
    ref = refs()
    where0 = p.where(p.method(p.cls("titus.genpy", "GeneratePython"), "__call__")[0], gp)

    def lang(fn, names, failing, inl, anyret, nolet):
        c = FormClient(p, names, sb if inl else {}, OPAQUE if inl else None, BOOLPARTS, NULLPARTS, THROWERS)
        if not inl:
            c.inline = lambda fn, mod: False
        c.failing, c.anyret, c.nolet = failing, anyret, nolet
        return Explorer(p, c).explore(fn, gp, {})

    for n in sorted(m.classes):
        if n in FormModel.SKIP or n in SKIPFORMS:
            continue
        for f in variants(m, n):
            fm.make(f)
            parts = childparts(m, n, f.inst)
            if not f.templates:
                if parts:
                    rep.finding("order", f.name, "no code is generated for this form", where0)
                continue
            seen = set()
            base = n + "".join("__" + x for x in f.variant.split("+") if x and ":" not in x)
            for t in f.templates:
                hs = holes(t)
                key = re.sub(r"HOLE_\d+_", lambda mm: "<%s %s>" % hs[mm.group(0)], t.text)
                if key in seen:
                    continue
                seen.add(key)
                present = set(x[1] for k, x in hs.items() if x[0] == "code" and k in t.text)
                cases = [("order", base, t.text, {})]
                if base + "__called" in ref:
                    cases.append(("called", base + "__called", "(%s)%s(state, scope)" % (t.text, "[2]" if n == "CastCase" else ""), {}))
                if base + "__partial" in ref:
                    cases = [("order", base, t.text, {"partial": False}), ("order", base + "__partial", t.text, {"partial": True})]
                if n == "Try":
                    absorbed(rep, p, sb, gp, t.text, dict(hs, **{"d_" + v[1]: v for v in hs.values() if v[0] == "data"}), parts, where0)
                for rule, rn, text, const in cases:
                    names = {k: (("const", const[v[1]]) if v[0] == "data" and v[1] in const else v) for k, v in hs.items()}
                    names.update({"d_" + v[1]: v for v in hs.values() if v[0] == "data"})
                    rnames = dict(names)
                    for x in list(present) + parts:
                        rnames[x] = ("code", x)
                    r = ref.get(rn)
                    if r is None:
                        if n in ("FcnDef", "CastCase"):
                            r = eager([], ())
                        else:
                            r = eager(parts, [x for x in parts if x in present or x not in MAYSKIP])
                    failing = FAILKINDS if n == "Try" else ()
                    try:
                        fn = function(text)
                    except SyntaxError as e:
                        rep.finding(rule, rn, "the generated code does not parse: %s" % text[:120], where0)
                        continue
                    a = lang(fn, names, failing, True, rn not in ref, n == "Unpack")
                    b = lang(r, rnames, failing, False, rn not in ref, n == "Unpack")
                    rep.count(rule)
                    d = difference(a, b)
                    if d is not None:
                        rep.finding(rule, f.name + (" partial" if const.get("partial") else ""), "%s: %s" % ("does what the form does not define" if d[1] == "first" else "never does what the form defines", words(d[0])), where0)
    rep.floor("order", 40)
    rep.floor("called", 2)
    rep.floor("filter", 6)


FAILKINDS = ("PFARuntimeException", "PFAUserException", "PFATimeoutException")
THROWERS = {"jsonDecoder": "AvroException"}

if __name__ == "__main__":
    report.main("G01", run)
