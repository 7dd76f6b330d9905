import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.lib import Library
from sa.libscan import LibInterp
from sa.interp import *
from sa.interp import _Const


class Purity(LibInterp):
    def __init__(self, proj, lib, rep):
        LibInterp.__init__(self, proj, lib)
        self.rep = rep
        self.nmut = 0
        self.opaque = {}

    def on_mutate(self, node, val, how):
        self.nmut += 1
        for o in val:
            if isinstance(o, Sym) and o.kind is not None and o.kind[0] == "scalar":
                continue
            if isinstance(o, Sym) and isinstance(o.root, str) and (o.root.startswith("arg:") or o.root == "result of user function"):
                owner = self.proj.funcqual(self.fr.fn)
                self.rep.finding("pure", "%s in %s" % (self.cur.name or self.cur.key, owner),
                                 "%s writes to %s, which is reachable from an argument" % (how, symstr(o)),
                                 self.where(node))
            elif isinstance(o, Res) and o.srcs:
                self.opaque.setdefault(self.cur.key, []).append((self.where(node), how, symstr(o)))

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual == ".shuffle" and args:
            self.on_mutate(node, args[0], "shuffle()")
        return None


def run(rep):
    rep.rule("pure", "no statement reachable from a library function's __call__ writes to an object reachable from its arguments or from a user-function result")
    rep.rule("writes", "in-place write sites resolved to their targets")
    p = Project()
    lib = Library(p)
    it = Purity(p, lib, rep)
    n = 0
    for f in lib.funcs:
        if lib.call_entry(f) is None:
            continue
        it.run_lib(f)
        rep.count("pure")
        n += 1
    rep.rules["writes"]["instances"] = it.nmut
    rep.note("functions", n)
    rep.note("opaque write targets", it.opaque)
    rep.floor("pure", 400)
    rep.floor("writes", 150)


if __name__ == "__main__":
    report.main("L01", run)
