import ast, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.report import VERIF
from sa.proj import Project
from sa.lib import Library
from sa.libscan import LibInterp
from sa.interp import *
from sa.interp import _Const

TABLE = os.path.join(VERIF, "spec", "error_codes.json")


class Codes(LibInterp):
    def __init__(self, proj, lib):
        LibInterp.__init__(self, proj, lib)
        self.rows = []
        self.err = proj.cls("titus.errors", "PFARuntimeException")
        m = proj.method(self.err, "__init__")
        self.params = [a.arg for a in m[0].args.args][1:] if m else ["message", "code", "fcnName", "pos"]

    def slot(self, d, i, *names):
        v = d.get(("arg", i))
        if v is None:
            for n in names:
                for k, w in d.items():
                    if k == n or k == ("kw", n) or k == ("arg", n):
                        v = w
        return v

    def owner(self):
        """The library function whose __call__ is innermost on the stack."""
        for f in reversed(self.frames):
            if f.cls is not None and f.fn is not None and getattr(f.fn, "name", "") == "__call__":
                sv = self.st.vars.get((f.id, f.fn.args.args[0].arg)) if f.fn.args.args else None
                for o in sv or ():
                    if isinstance(o, Sym) and o.root == "self":
                        return self.cur
                    c = o.cls if isinstance(o, Alloc) else None
                    if c in self.lib.byci:
                        return self.lib.byci[c]
        return self.cur

    def on_raise(self, node, val):
        for o in val:
            if isinstance(o, Alloc) and o.cls is self.err:
                self.rows.append((self.cur, self.owner(), self.where(node), self.proj.funcqual(self.fr.fn), o, dict(self.fields(o))))


def consts(v):
    return [o.v for o in v or () if isinstance(o, _Const)]


def run(rep, dump=False):
    rep.rule("band", "every PFARuntimeException reachable from a library function carries a code inside the function's own band")
    rep.rule("name", "the exception names the function that raised it")
    rep.rule("pos", "the exception carries the position given to the call")
    rep.rule("unique", "no error code is shared by two functions")
    rep.rule("spec", "each (function, message) keeps the code the language assigns to it")
    rep.rule("oneone", "within a function one code means one message")
    p = Project()
    lib = Library(p)
    it = Codes(p, lib)
    for f in lib.funcs:
        it.run_lib(f)
    table = {}
    if os.path.exists(TABLE):
        with open(TABLE) as fh:
            table = json.load(fh)
    codes, msgs = {}, {}
    unresolved = []
    for cur, own, where, q, o, d in it.rows:
        if cur.name is None or cur.errbase is None:
            continue
        mv, cv, nv, pv = it.slot(d, 0, "message"), it.slot(d, 1, "code"), it.slot(d, 2, "fcnName"), it.slot(d, 3, "pos")
        ms, cs, ns = consts(mv), consts(cv), consts(nv)
        label = "%s %r" % (cur.name, ms[0] if len(ms) == 1 else "?")
        if own is not cur:
            # delegated to another library function's __call__: the message must be one this function itself uses
            if ms and any((cur.name, m) not in set((r[0].name, x) for r in it.rows if r[1] is r[0] for x in consts(it.slot(r[5], 0))) for m in ms):
                rep.finding("name", label, "raises %s's error because it does not make the same check itself" % own.name, where)
            continue
        rep.count("band"); rep.count("name"); rep.count("pos")
        if not cs or len(cs) < len(cv or ()):
            if cv and any(isinstance(x, Sym) and x.root in ("pos", "self") for x in cv):
                rep.finding("band", label, "the code is not a number: %s" % ",".join(symstr(x) for x in cv), where)
            else:
                unresolved.append((cur.name, where))
        for c in cs:
            if isinstance(c, bool) or not isinstance(c, int) or not (cur.errbase <= c < cur.errbase + 10):
                rep.finding("band", label, "code %r is outside %d..%d" % (c, cur.errbase, cur.errbase + 9), where)
            else:
                codes.setdefault(c, {}).setdefault(cur.name, where)
        for n in ns:
            if n != cur.name:
                rep.finding("name", label, "raised under the name %r" % (n,), where)
        if nv is None or (not ns and any(isinstance(x, Sym) for x in nv)):
            rep.finding("name", label, "the function name is missing", where)
        if pv is None or any(isinstance(x, _Const) for x in pv) or any(isinstance(x, Sym) and x.root != "pos" for x in pv):
            rep.finding("pos", label, "the position of the call is lost", where)
        if len(ms) == 1 and len(cs) == 1:
            msgs.setdefault(cur.name, {}).setdefault(ms[0], {}).setdefault(cs[0], where)
    for c, d in sorted(codes.items()):
        rep.count("unique")
        if len(d) > 1:
            rep.finding("unique", "code %d" % c, "raised by %s" % ", ".join(sorted(d)), sorted(d.values())[0])
    out = {}
    for n, d in sorted(msgs.items()):
        bycode = {}
        for m, cc in d.items():
            for c, where in cc.items():
                out.setdefault(n, {})[m] = c
                bycode.setdefault(c, {})[m] = where
                if n in table and m in table[n]:
                    rep.count("spec")
                    if table[n][m] != c:
                        rep.finding("spec", "%s %r" % (n, m), "raised with code %d, the language assigns %d" % (c, table[n][m]), where)
        for c, mm in bycode.items():
            rep.count("oneone")
            known = set(m for m, x in table.get(n, {}).items() if x == c)
            if len(mm) > 1 and not set(mm) <= known:
                rep.finding("oneone", "%s code %d" % (n, c), "used for %s" % ", ".join(repr(x) for x in sorted(mm)), sorted(mm.values())[0])
    if dump:
        with open(TABLE, "w") as fh:
            json.dump(out, fh, indent=1, sort_keys=True)
            fh.write("\n")
    rep.note("raise sites with a code that is not a compile-time constant", sorted(set(unresolved)))
    rep.note("functions", len(lib.funcs))
    rep.floor("band", 400)
    rep.floor("spec", 150)


if __name__ == "__main__":
    report.main("L03", lambda rep: run(rep, "--dump" in sys.argv))
