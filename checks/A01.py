import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.codegen import *
from sa.codegen import WALKARGS
from sa.forms import FormModel, variants, optional_fields, NCHILD, ARGKINDS
from sa.interp import _Const, _single_const

# forms without a call graph of their own: declarations, whose expressions are walked by the document
NOCALLS = ("Cell", "Pool", "EngineConfig")
SELFNAME = {"Call": "name", "FcnRef": "name", "FcnRefFill": "name", "CallUserFcn": None}


def names_own(it, val, field):
    """Does the value contain the called function's name (possibly with a prefix), taken from this field?"""
    for o in it.srcs(val):
        if o.root == "self" and o.path[:1] == (field,):
            return True
    return False


def parts(m, n, form, walked):
    """Child positions that are not walked, neither themselves nor all of their parts."""
    missing = []

    def go(name, path, inst):
        ok = True
        for f, (shape, elem) in sorted(m.children(name).items()):
            if n == "EngineConfig" and f in ("cells", "pools") or (path == () and inst or {}).get((f,)) is False or path and f in optional_fields(m, name):
                continue
            if form is None:
                if not any(x[:1] == (f,) for x in walked):
                    missing.append((f,))
                continue
            for q in ([path + (f,)] if shape == "one" else [path + (f, "[%d]" % k) for k in range(NCHILD)]):
                if q in walked:
                    continue
                sub = m.children(elem) if elem in m.classes else {}
                if not sub or not any(x[:len(q)] == q for x in walked):
                    missing.append(q)
                else:
                    go(elem, q, None)
    go(n, (), form.inst if form is not None else None)
    return missing


def run(rep):
    rep.rule("child", "the calls made by every child expression are part of the calls reported for the form")
    rep.rule("own", "a form reports its own name among its calls; a call or function reference reports the function it names")
    rep.rule("walked", "every child expression of a form is type-checked when the form is")
    rep.rule("engine", "the engine's call graph has an entry for begin, action, end, merge and every user function, built from their own calls")
    p = Project()
    m = AstModel(p)
    fm = FormModel(p, m)
    fm.it.generate = False
    it0 = WalkInterp(p, m, generate=False)
    expr = m.find("Expression")
    for n, ci in sorted(m.classes.items()):
        if n == "Subs":
            continue
        w0 = p.method(ci, "walk")[0]
        where = p.where(w0, m.mod)
        desc = None
        for k in p.mro(ci):
            if "desc" in k.attrs:
                d = k.attrs["desc"]
                desc = d.value if isinstance(d, ast.Constant) else None
                break
        runs = []
        if n in FormModel.SKIP:
            runs.append((it0, it0.walk(n), None))
        else:
            for f in variants(m, n):
                fm.it.inst = dict(f.inst)
                runs.append((fm.it, fm.it.walk(n), f))
                for field, (shape, elem) in sorted(m.children(n).items()):
                    if shape != "one" and elem == "Argument":
                        for kind in ARGKINDS[1:]:
                            fm.it.inst = dict(f.inst, **{})
                            fm.it.inst[(field,)] = kind
                            runs.append((fm.it, fm.it.walk(n), f))
        for it, rets, form in runs:
          walked_any = set()
          if not rets:
            rep.finding("walked", n, "walk never returns", where)
          for node, st, ctxs, _ in rets:
            it.st = st
            kids = set(x.path for x in st.aux.get("walked", ()))
            walked_any |= kids
            rw = p.where(node, m.mod) if node is not None else where
            for k in ctxs:
                if not (isinstance(k, Alloc) and k.cls is not None):
                    raise AnalysisBroken("%s.walk returns %s instead of a context" % (n, symstr(k)))
                calls = it.hget(k, ("a", "calls"))
                if n == "EngineConfig":
                    srcs = it.srcs(V(k))
                elif n in NOCALLS:
                    continue
                elif calls is None:
                    rep.finding("child", n, "the context has no calls", rw)
                    continue
                else:
                    srcs = it.srcs(calls)
                for x in sorted(kids):
                    rep.count("child")
                    if not any(y.root == ("ctx", x) and (y.path[:1] == ("calls",) or n == "EngineConfig" and not y.path) for y in srcs):
                        rep.finding("child", "%s.%s" % (n, x[0]), "calls made in this part are missing from the call graph", rw)
                if n in NOCALLS:
                    continue
                if n in SELFNAME:
                    rep.count("own")
                    f = SELFNAME[n]
                    if f is not None and not names_own(it, calls, f):
                        rep.finding("own", n, "the named function is missing from the call graph", rw)
                    if f is None and not [y for y in srcs if y.root in (("ctx", ("name",)),) and "symbols" in y.path]:
                        rep.finding("own", n, "the candidate functions are missing from the call graph", rw)
                elif desc is not None and n not in ("FcnDef",) and expr in p.mro(ci):
                    el = it.elems(calls)
                    if n.startswith("Literal") and n != "Literal" or n == "Ref":
                        continue
                    rep.count("own")
                    if Const(desc) not in el:
                        rep.finding("own", n, "\"%s\" is missing from the calls" % desc, rw)
          for x in parts(m, n, form, walked_any):
            rep.count("walked")
            rep.finding("walked", ".".join((n,) + tuple(y for y in x if y[0] != "[")), "this part is never type-checked", where)
          rep.count("walked", len(m.children(n)))
    from sa.engine import EngineModel
    em = EngineModel(p, m)
    for name, want, got, where in em.callgraph():
        rep.count("engine")
        if not want <= got:
            rep.finding("engine", name, "missing from the engine's call graph or built from other calls", where)
    rep.floor("child", 45)
    rep.floor("own", 25)
    rep.floor("walked", 45)
    rep.floor("engine", 5)


if __name__ == "__main__":
    report.main("A01", run)
