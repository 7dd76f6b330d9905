import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, Alloc, Fn, V, _Const
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.forms import FormModel, variants
from sa.reading import DocInterp
from sa.strings import Hole
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from G01 import sandbox
from G08 import attributes

PATHS = {"AttrGet": (2000, 2001, "attr"), "AttrTo": (2002, 2003, "attr-to"), "CellGet": (2004, 2005, "cell"), "CellTo": (2006, 2007, "cell-to"), "PoolGet": (2008, 2009, "pool"), "PoolTo": (2010, 2011, "pool-to")}
OWN = {"raw bytes does not have specified size": (3000, "pack"), "length prefixed bytes is larger than 255 bytes": (3001, "pack")}
PATHMSG = {"array index not found": "arrayErrCode", "map key not found": "mapErrCode"}
CODES = ("arrayErrCode", "mapErrCode", "fcnName")


class Raises(DocInterp):
    opaque_mods = DocInterp.opaque_mods - frozenset(["titus.errors", "titus.genpy"])
    def __init__(self, *a, **k):
        DocInterp.__init__(self, *a, **k)
        self.rows = []

    def on_raise(self, node, val):
        for o in val:
            if isinstance(o, Alloc) and o.cls is not None:
                self.rows.append((self.where(node), o.cls.name, dict((k[1] if isinstance(k, tuple) else k, v) for k, v in self.fields(o).items())))
        r = getattr(DocInterp, "on_raise", None)
        return r(self, node, val) if r is not None else None


def arg(n):
    return V(Sym(("arg", n), (), None))


def isarg(v, n):
    return v is not None and v == arg(n)


def say(v):
    out = []
    for o in v or ():
        out.append(repr(o.v) if isinstance(o, _Const) else o.root[1] if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "arg" and not o.path else "something else")
    return ", ".join(sorted(out)) or "nothing"


def const(v):
    o = next(iter(v)) if v is not None and len(v) == 1 else None
    return o.v if isinstance(o, _Const) else None


def run(R):
    R.rule("code", "the code generated for each form hands the helper that follows a path the two error codes and the name of that form")
    R.rule("pos", "the code generated for each form hands its own position to every helper that takes one")
    R.rule("user", "the error form hands its own message and code to the helper")
    R.rule("raise", "every error raised while following a path, packing or raising a user's error carries the code, name and position the helper was given")
    R.rule("fields", "a run-time error keeps its message, code, name and position, and shows them in its text")
    p = Project()
    m = AstModel(p)
    em = EngineModel(p, m)
    sb = sandbox(p)
    gp = p.mod("titus.genpy")
    base = p.cls("titus.genpy", "PFAEngine")
    where = p.where(p.method(p.cls("titus.genpy", "GeneratePython"), "__call__")[0], gp)
    eng = attributes(p, base)
    methods = {}
    for cn in ("Cell", "Pool"):
        ci = p.cls("titus.genpy", cn)
        mm = p.method(ci, "update")
        if mm is not None:
            methods[cn + "To"] = (mm[0], mm[1])
    # ---- what the generated code passes
    fm = FormModel(p, m)
    unjudged, seen = [], set()
    for n in sorted(m.classes):
        if n in FormModel.SKIP:
            continue
        for f in variants(m, n):
            fm.make(f)
            for t in f.templates:
                try:
                    tree = ast.parse(t.text, mode="eval")
                except SyntaxError:
                    continue
                for c in ast.walk(tree):
                    if not isinstance(c, ast.Call) or any(isinstance(x, ast.Starred) for x in c.args):
                        continue
                    fn, bound = None, False
                    if isinstance(c.func, ast.Name) and sb.get(c.func.id) is not None:
                        fn = sb[c.func.id][0]
                    elif isinstance(c.func, ast.Attribute) and c.func.attr == "update" and n in methods and isinstance(c.func.value, ast.Subscript):
                        fn, bound = methods[n][0], True
                    elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self":
                        fn, bound = eng.get(c.func.attr), True
                    if fn is None:
                        continue
                    names = [a.arg for a in fn.args.posonlyargs + fn.args.args][1 if bound else 0:]
                    got = dict(zip(names, c.args))
                    got.update((k.arg, k.value) for k in c.keywords if k.arg)
                    if n in PATHS and set(CODES) <= set(names):
                        want = dict(zip(CODES, PATHS[n]))
                        for k in CODES:
                            x = got.get(k)
                            if not isinstance(x, ast.Constant):
                                unjudged.append("%s of %s" % (k, n))
                                continue
                            R.count("code")
                            seen.add(n)
                            if x.value != want[k]:
                                R.finding("code", "%s of %s" % (k, n), "is %r instead of %r" % (x.value, want[k]), where)

                    def hole(x):
                        h = t.holes.get(x.id) if isinstance(x, ast.Name) else None
                        return h.val if isinstance(h, Hole) else None

                    def own(x, field):
                        """True, False or None (not known): the argument is this field of the form."""
                        if isinstance(x, ast.Constant):
                            return False
                        v = hole(x)
                        if v is None or len(v) != 1:
                            return None
                        o = next(iter(v))
                        if isinstance(o, _Const):
                            return False
                        if not isinstance(o, Sym) or o.root != "self":
                            return None
                        return o.path == (field,)
                    for rule, pairs in (("pos", [("pos", "pos")]), ("user", [("message", "message"), ("code", "code")] if n == "Error" else [])):
                        for par, field in pairs:
                            if par in names and par in got:
                                r = own(got[par], field)
                                if r is None:
                                    unjudged.append("%s of %s" % (par, n))
                                    continue
                                R.count(rule)
                                if not r:
                                    R.finding(rule, "%s of %s" % (par, n), "is not the form's own", where)
    for n in sorted(set(PATHS) - seen):
        unjudged.append("no helper following a path in " + n)
    # ---- what the helpers raise
    it = Raises(p, m)
    jobs = []
    for name in ("get", "update", "pack", "error"):
        r = p.lookup(gp, name)
        if isinstance(r, tuple) and r[0] == "func":
            jobs.append((name, r[1], r[2], None))
    for cn in ("Cell", "Pool"):
        ci = p.cls("titus.genpy", cn)
        mm = p.method(ci, "update")
        if mm is not None:
            jobs.append((cn + ".update", mm[0], mm[1].mod, ci))
    for name, fn, mod, ci in jobs:
        names = [a.arg for a in fn.args.args]
        if ci is not None:
            names = names[1:]
        it.rows = []
        it.call_in(fn, mod, [arg(n) for n in names], self_=V(Sym("self", (), ("inst", ci, "exact"))) if ci is not None else None, ci=ci)
        for w, cls, d in it.rows:
            if cls not in ("PFARuntimeException", "PFAUserException"):
                continue
            msg = const(d.get("message"))
            if cls == "PFAUserException":
                want = {"message": arg("message"), "code": arg("code")}
            elif msg in PATHMSG and PATHMSG[msg] in names:
                want = {"code": arg(PATHMSG[msg]), "fcnName": arg("fcnName")}
            elif msg in OWN:
                want = {"code": V(Const(OWN[msg][0])), "fcnName": V(Const(OWN[msg][1]))}
            else:
                unjudged.append("%s: %s" % (name, msg))
                continue
            if "pos" in names:
                want["pos"] = arg("pos")
            for k, x in sorted(want.items()):
                R.count("raise")
                if d.get(k) != x:
                    R.finding("raise", "%s of %r in %s" % (k, msg if isinstance(msg, str) else "the user's error", name), "is %s instead of %s" % (say(d.get(k)), say(x)), w)
    # ---- what an error keeps and shows
    for cls, shown in (("PFARuntimeException", ("message", "code", "fcnName", "pos")), ("PFAUserException", ("message", "code", "pos"))):
        ci = p.cls("titus.errors", cls)
        mm = p.method(ci, "__init__")
        names = [a.arg for a in mm[0].args.args][1:]
        if set(shown) - set(names):
            unjudged.append(cls)
            continue
        src = "def probe(%s):\n return %s(%s)\n" % (", ".join(names), cls, ", ".join(names))
        for v, s in it.call_in(ast.parse(src).body[0], p.mod("titus.errors"), [arg(n) for n in names]):
            it.st = s
            for o in v:
                if not isinstance(o, Alloc):
                    continue
                d = dict((k[1] if isinstance(k, tuple) else k, x) for k, x in it.fields(o).items())
                for k in shown:
                    R.count("fields")
                    if k in d and d[k] != arg(k) or k not in d:
                        R.finding("fields", "%s of %s" % (k, cls), "is %s" % say(d.get(k)), p.where(mm[0], mm[1].mod))
    R.note("not judged", sorted(set(unjudged)))
    R.note("helpers", [j[0] for j in jobs])
    R.floor("code", 12)
    R.floor("pos", 8)
    R.floor("raise", 15)
    R.floor("fields", 5)


if __name__ == "__main__":
    report.main("H02", run)
