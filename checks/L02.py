import ast, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.report import VERIF
from sa.proj import Project
from sa.lib import Library
from sa.libscan import LibInterp
from sa.interp import *
from sa.interp import _Const

RANDOM_TABLE = os.path.join(VERIF, "spec", "random_functions.json")
BANNED = re.compile(r"^(random|numpy\.random|secrets|uuid|time|os|sys|socket|subprocess|threading|multiprocessing|urllib|shutil|tempfile|platform|locale|getpass)(\.|$)"
                    r"|^(open|input|print|exec|eval|id|hash|globals|locals|vars|__import__|breakpoint|raw_input)$"
                    r"|^datetime\.(datetime|date)\.(now|utcnow|today)$|^numpy\.(load|save|fromfile|genfromtxt|seterr)")
PURE_OK = re.compile(r"^sys\.(float_info|maxsize|version_info|byteorder|hexversion)|^os\.path\.(join|dirname|basename)$|^random\.Random$")
IMPURE_METHODS = {".now", ".utcnow", ".today", ".write", ".read", ".open", ".flush"}


class Effects(LibInterp):
    def __init__(self, proj, lib, rep):
        LibInterp.__init__(self, proj, lib)
        self.rep = rep
        self.rand = {}
        self.clsstores = {}
        self.inbody = {}
        for m in proj.mods.values():
            s = set()
            for fn in ast.walk(m.tree):
                if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                    for st in (fn.body if isinstance(fn.body, list) else [fn.body]):
                        for n in ast.walk(st):
                            if hasattr(n, "lineno"):
                                s.add((n.lineno, n.col_offset))
            for fn in ast.walk(m.tree):
                if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                    for d in fn.args.defaults + [x for x in fn.args.kw_defaults if x is not None]:
                        for n in ast.walk(d):
                            if hasattr(n, "lineno"):
                                s.discard((n.lineno, n.col_offset))
                    s.add((fn.lineno, fn.col_offset)) if hasattr(fn, "lineno") else None
            self.inbody[m.name] = s

    def persistent(self, o):
        if isinstance(o, (Cls, Mod, Fn)):
            return True
        if isinstance(o, Sym) and o.root in ("self", "state", "scope") and not (o.root == "state" and o.path[:1] == ("rand",)):
            return True
        if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "global":
            return True
        if isinstance(o, Sym) and isinstance(o.root, str) and o.root.startswith("arg:") and not o.path:
            a = self.proj.method(self.cur.ci, "__call__")[0].args
            for x, d in zip(reversed(a.args), reversed(a.defaults)):
                if "arg:" + x.arg == o.root and not isinstance(d, ast.Constant):
                    return True
        if isinstance(o, Alloc):
            s = self.inbody.get(o.site[0])
            if s is not None and isinstance(o.site[1], int) and o.site[1] > 0:
                return (o.site[1], o.site[2]) not in s
        return False

    def on_mutate(self, node, val, how):
        self.rep.count("stateless")
        if how.startswith(("attribute assignment", "item assignment")):
            return      # judged by on_store, which also sees the value
        for o in val:
            if self.persistent(o):
                self.rep.finding("stateless", "%s in %s" % (self.cur.name or self.cur.key, self.proj.funcqual(self.fr.fn)),
                                 "%s on %s, which outlives the call" % (how, symstr(o)), self.where(node))

    def on_store(self, node, o, field, val):
        self.rep.count("stateless")
        if self.persistent(o):
            if isinstance(o, Cls):
                self.clsstores.setdefault((o, field), []).append((self.cur, self.fr.fn, val, self.lazy_init(node, o, val), self.where(node)))
                return
            self.rep.finding("stateless", "%s in %s" % (self.cur.name or self.cur.key, self.proj.funcqual(self.fr.fn)),
                             "stores %s into %s, which outlives the call" % (",".join(sorted(symstr(x) for x in val)[:3]), symstr(o)), self.where(node))

    def lazy_init(self, node, o, val):
        """The store happens under a test of the same class's own attributes and stores something that depends on no input."""
        if isinstance(node, ast.AugAssign) or self.srcs(val):
            return False
        for x in val:
            if isinstance(x, _Const) and not isinstance(x.v, bool) and x.v is not None:
                return False
            if isinstance(x, Sym) or isinstance(x, Res) and x.op.startswith("op:"):
                return False
        for g in self.guards:
            for n in ast.walk(g[0]):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (o.ci.name, "cls", "self"):
                    return True
        return False

    def on_global_write(self, node, mod, name):
        self.rep.finding("stateless", "%s in %s" % (self.cur.name or self.cur.key, self.proj.funcqual(self.fr.fn)),
                         "assigns the module variable %s" % name, self.where(node))

    def on_ext(self, node, qual, recv, args, kwargs):
        self.rep.count("environment")
        if recv is None and BANNED.search(qual) and not PURE_OK.search(qual):
            self.rep.finding("environment", "%s in %s" % (self.cur.name or self.cur.key, self.proj.funcqual(self.fr.fn)),
                             "calls %s" % qual, self.where(node))
        if qual in IMPURE_METHODS and recv is not None:
            if any(isinstance(o, (Ext, Mod, Cls)) for o in recv):
                self.rep.finding("environment", "%s in %s" % (self.cur.name or self.cur.key, self.proj.funcqual(self.fr.fn)),
                                 "calls %s()" % qual, self.where(node))
        return LibInterp.on_ext(self, node, qual, recv, args, kwargs)

    def on_load_attr(self, node, obj, name):
        if isinstance(obj, Sym) and obj.root == "state" and name == "rand":
            self.rand.setdefault(self.cur, self.where(node))
        return LibInterp.on_load_attr(self, node, obj, name)


def run(rep, dump=False):
    rep.rule("stateless", "no write reaches an object that outlives the call (the function object, a class, a module variable, a default argument, the engine state)")
    rep.rule("environment", "no call reads the clock, the environment, files, object identities, hashes or a global random generator")
    rep.rule("random", "only the functions specified to be random use the engine's random number generator, and they do use it")
    p = Project()
    lib = Library(p)
    it = Effects(p, lib, rep)
    for f in lib.funcs:
        it.run_lib(f)
    for (o, field), rows in it.clsstores.items():
        # tolerated only as lazy initialisation
        if not all(r[3] for r in rows):
            for cur, fn, val, ok, where in rows:
                rep.finding("stateless", "%s in %s" % (cur.name or cur.key, p.funcqual(fn)),
                            "stores %s into %s, which outlives the call" % (",".join(sorted(symstr(x) for x in val)[:3]), symstr(o)), where)
    got = sorted(f.name for f in it.rand if f.name)
    if dump:
        with open(RANDOM_TABLE, "w") as fh:
            json.dump(got, fh, indent=1)
            fh.write("\n")
    with open(RANDOM_TABLE) as fh:
        table = json.load(fh)
    have = set(f.name for f in lib.funcs)
    for f in it.rand:
        rep.count("random")
        if f.name and f.name not in table:
            rep.finding("random", f.name, "uses the random number generator but is specified to be deterministic", it.rand[f])
    for n in table:
        if n in have and n not in got:
            f = [x for x in lib.funcs if x.name == n][0]
            rep.finding("random", n, "no longer draws from the engine's random number generator", p.where(f.ci.node, f.mod))
    rep.note("functions", len(lib.funcs))
    rep.note("random functions", got)
    rep.floor("stateless", 100)
    rep.floor("environment", 500)


if __name__ == "__main__":
    report.main("L02", lambda rep: run(rep, "--dump" in sys.argv))
