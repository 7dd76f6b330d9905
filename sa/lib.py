"""Model of the PFA function library: LibFcn classes, signatures, registration, base error codes."""
import ast
from .proj import AnalysisBroken, ClassInfo
from .interp import Interp, Sym, Const, Fn, V, _Const, _single_const

SCALARS = {"Null", "Boolean", "Int", "Long", "Float", "Double", "String", "Bytes", "Enum", "Fixed", "WildEnum",
           "WildFixed", "EnumFields"}


class Pat(object):
    """A signature pattern read from source (P.X(...))."""
    def __init__(self, name, args, node):
        self.name, self.args, self.node = name, args, node

    def __repr__(self):
        return "P.%s(%s)" % (self.name, ", ".join(map(repr, self.args)))

    def kind(self):
        n = self.name
        if n in SCALARS:
            return ("scalar",)
        if n == "Array":
            return ("array", self.args[0].kind() if self.args and isinstance(self.args[0], Pat) else None)
        if n == "Map":
            return ("map", self.args[0].kind() if self.args and isinstance(self.args[0], Pat) else None)
        if n in ("WildRecord", "Record"):
            fs = []
            for a in self.args:
                if isinstance(a, dict):
                    for k, v in a.items():
                        if isinstance(v, Pat) and v.kind() is not None:
                            fs.append((k, v.kind()))
            return ("record", tuple(sorted(fs, key=lambda x: x[0])))
        if n == "Fcn":
            return ("fcn",)
        if n == "Wildcard":
            oneof = self.args[1] if len(self.args) > 1 else None
            if isinstance(oneof, list) and oneof and all(isinstance(x, str) and x.replace("Avro", "") in SCALARS for x in oneof):
                return ("scalar",)
            return None
        if n == "Union":
            return ("union",)
        return None


class LibFunc(object):
    def __init__(self, ci, proj):
        self.ci, self.proj = ci, proj
        self.mod = ci.mod
        self.key = ci.mod.name.replace("titus.lib.", "") + ":" + ci.name
        self.name = None
        self.sigs = None
        self.errbase = None
        self.provided = False


def find_attr(proj, ci, name):
    for k in proj.mro(ci):
        if name in k.attrs:
            return k.attrs[name], k
    return None, None


class Library(object):
    def __init__(self, proj):
        self.proj = proj
        self.base = proj.cls("titus.fcn", "LibFcn")
        self.it = Interp(proj)
        self.funcs = []
        self.mods = [m for n, m in sorted(proj.mods.items()) if n.startswith("titus.lib.") and not m.is_pkg]
        for c in proj.classes:
            if self.base in proj.mro(c)[1:] and c.mod in self.mods:
                f = LibFunc(c, proj)
                v = self.attr(c, "name")
                if v is not None and isinstance(v.v, str):
                    f.name = v.v
                v = self.attr(c, "errcodeBase")
                if v is not None and isinstance(v.v, int):
                    f.errbase = v.v
                e, k = find_attr(proj, c, "sig")
                f.signode = e
                if e is not None:
                    f.sigs = self.parse_sig(e, k.mod)
                self.funcs.append(f)
        self.byci = {f.ci: f for f in self.funcs}

    def attr(self, ci, name):
        e, k = find_attr(self.proj, ci, name)
        if e is None:
            return None
        v = self.it.constexpr(e, k.mod)
        return _single_const(v) if v is not None else None

    def parse_sig(self, e, mod, depth=0):
        if isinstance(e, ast.Name) and depth < 5:
            r = self.proj.lookup(mod, e.id)
            if r and r[0] == "var" and r[1] is not None:
                return self.parse_sig(r[1], r[3], depth + 1)
            return None
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            if n == "Sigs":
                a = self.arg(e, 0, "cases")
                if isinstance(a, ast.Name):
                    r = self.proj.lookup(mod, a.id)
                    a = r[1] if r and r[0] == "var" else a
                if isinstance(a, (ast.List, ast.Tuple)):
                    out = []
                    for x in a.elts:
                        s = self.parse_sig(x, mod, depth + 1)
                        if s is None:
                            return None
                        out.extend(s)
                    return out
            if n == "Sig":
                ps = self.arg(e, 0, "params")
                ret = self.arg(e, 1, "ret")
                if isinstance(ps, (ast.List, ast.Tuple)):
                    params = []
                    for p in ps.elts:
                        if isinstance(p, ast.Dict) and len(p.keys) == 1 and isinstance(p.keys[0], ast.Constant):
                            params.append((p.keys[0].value, self.pat(p.values[0], mod)))
                        elif isinstance(p, ast.Name):
                            r = self.proj.lookup(mod, p.id)
                            if r and r[0] == "var" and isinstance(r[1], ast.Dict) and len(r[1].keys) == 1:
                                params.append((r[1].keys[0].value, self.pat(r[1].values[0], r[3])))
                            else:
                                return None
                        else:
                            return None
                    return [(params, self.pat(ret, mod) if ret is not None else None, e)]
        return None

    @staticmethod
    def arg(e, i, name):
        if len(e.args) > i:
            return e.args[i]
        for k in e.keywords:
            if k.arg == name:
                return k.value
        return None

    def pat(self, e, mod, depth=0):
        if isinstance(e, ast.Name) and depth < 5:
            r = self.proj.lookup(mod, e.id)
            if r and r[0] == "var" and r[1] is not None:
                return self.pat(r[1], r[3], depth + 1)
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else "?"
            return Pat(n, [self.pat(a, mod) for a in e.args] + [self.pat(k.value, mod) for k in e.keywords], e)
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.pat(a, mod) for a in e.elts]
        if isinstance(e, ast.Set):
            return [self.pat(a, mod) for a in e.elts]
        if isinstance(e, ast.Dict):
            return dict((k.value if isinstance(k, ast.Constant) else None, self.pat(v, mod)) for k, v in zip(e.keys, e.values))
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Attribute):
            return e.attr
        return None

    # ---- entry values for __call__
    RESERVED = ("state", "scope", "pos", "paramTypes")

    def call_entry(self, f):
        """(Fn, args, kwargs) with every argument an access path of declared kind."""
        m = self.proj.method(f.ci, "__call__")
        if m is None or m[1].mod.name == "titus.fcn":
            return None
        fn, k = m
        selfv = V(Sym("self", (), ("inst", f.ci, "exact")))
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args][1:]
        args = []
        kinds = {}
        for i, n in enumerate(names):
            if i < 4:
                args.append(V(Sym(self.RESERVED[i], (), None)))
            else:
                args.append(frozenset(Sym("arg:" + n, (), kd) for kd in self.kinds(f, i - 4)))
        star = None
        return Fn(fn, k.mod, k, None, selfv), args

    def kinds(self, f, i):
        out = []
        for params, ret, node in f.sigs or []:
            if i < len(params) and isinstance(params[i][1], Pat):
                kd = params[i][1].kind()
                if kd not in out:
                    out.append(kd)
            elif i < len(params):
                if None not in out:
                    out.append(None)
        if not out:
            out = [("scalar",)] if f.sigs and all(i >= len(p) for p, _, _ in f.sigs) else [None]
        return out
