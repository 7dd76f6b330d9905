import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.engrun import explore, paths, CELLS, POOLS, SELF
from sa.interp import Interp, Sym, Alloc, Res, Fn, V, Const, EMPTY, State, symstr
from sa.lts import Client, Explorer, subterms, show

VALUE = ("attr", SELF, "value")


def methods(rep, p, em):
    base = p.cls("titus.genpy", "PFAEngine")
    gw = p.where(em.it.gen.node, em.it.gen.mod)
    everything = set(CELLS + POOLS)
    for v in em.variants():
        for name in ("action",) + (("merge",) if v.merge else ()):
            a = explore(p, em, v, name, base)

            def bad(rule, msg):
                rep.finding(rule, "%s of %s engines" % (name, v.method.lower()), msg, gw)
            ran = False
            for tr in paths(a):
                saved, restored, code, failed, order = set(), set(), False, None, []
                for l in tr:
                    k = l[1] if l[0] == "raised" else l
                    if k is None:
                        continue
                    if k[0] == "save":
                        saved.add(k[1])
                        if code:
                            bad("saved", "a backup is taken after the document's code has started")
                    elif k[0] in ("code", "fails"):
                        ran = True
                        code = True
                        rep.count("saved")
                        if saved != everything:
                            miss = "cells" if set(CELLS) - saved else "pools"
                            bad("saved", "the document's code starts before all %s are backed up" % miss)
                        if k[0] == "fails":
                            failed = k[3]
                            restored = set()
                    elif k[0] == "restore":
                        restored.add(k[1])
                    elif k[0] == "ret":
                        rep.count("restored")
                        if restored:
                            bad("restored", "a call that ends normally is rolled back")
                        if failed:
                            bad("restored", "%s is swallowed" % failed)
                    elif k[0] == "raise":
                        if failed is None:
                            if code and restored != everything:
                                bad("restored", "an exception after the document's code is not rolled back")
                            continue
                        rep.count("restored")
                        if restored != everything:
                            miss = "cells" if set(CELLS) - restored else "pools"
                            bad("restored", "%s leaves without restoring all %s" % (failed, miss))
                        if k[1][:2] != ("new", ("global", failed)):
                            bad("restored", "%s comes out as another exception" % failed)
            if not ran:
                raise AnalysisBroken("the document's code was not found in %s of %s" % (name, v.name))


class Store(Client):
    def __init__(self, p, ci, rollback):
        self.p, self.ci, self.rollback = p, ci, rollback

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "attr" and callee[1] == SELF:
            mm = self.p.method(self.ci, callee[2])
            if mm is not None:
                return mm[0], mm[1].mod, SELF
        return None

    def setattr_event(self, obj, name, val, ex):
        return ("set", name, val) if obj == SELF else None

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[1][:2] == ("attr", SELF) and callee[2] in ("clear", "update", "pop"):
            return ("mutate", callee[1], callee[2], args)
        return None

    def ret_event(self, t, ex):
        return ("ret",)

    def raise_event(self, t, ex):
        return ("raise", t)


def copyof(t, src):
    """A shallow (or deep) copy of src: True/False/None."""
    if t == src:
        return False
    if t[0] == "call":
        c = t[1]
        if c in (("global", "dict"), ("attr", ("global", "copy"), "copy"), ("attr", ("global", "copy"), "deepcopy"), ("global", "deepcopy"), ("global", "copy")):
            return bool(t[2]) and (t[2][0] == src or copyof(t[2][0], src) is True or t[2][0][0] == "call" and src in list(subterms(t[2][0])))
        if c[0] == "attr" and c[1] == src and c[2] == "copy":
            return True
    if t[:2] == ("op", "dict") or t[:1] == ("comp",) or "comp" in str(t[0:2]):
        return None
    return None


def storage(rep, p):
    g = p.mod("titus.genpy")
    for name in ("Cell", "Pool"):
        ci = p.cls("titus.genpy", name)
        # is the stored object changed in place anywhere?
        inplace = False
        for k in p.mro(ci):
            for mn, f in k.methods.items():
                for n in ast.walk(f):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.unparse(n.value) == "self.value":
                        inplace = True
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == "self.value" and n.func.attr in ("pop", "clear", "update", "setdefault", "popitem"):
                        inplace = True
        slot = None
        sm, rm = p.method(ci, "maybeSaveBackup"), p.method(ci, "maybeRestoreBackup")
        if sm is None or rm is None:
            raise AnalysisBroken("%s has no maybeSaveBackup or maybeRestoreBackup" % name)
        for rollback in (True, False):
            ro = ("const", rollback)
            env = {("heap", SELF, "rollback"): ro, ("heap", SELF, "shared"): ("const", False)}
            a = Explorer(p, Store(p, ci, rollback)).explore(sm[0], sm[1].mod, {}, SELF, env)
            where = p.where(sm[0], sm[1].mod)
            copied = None
            for tr in paths(a):
                rep.count("backup")
                sets = [l for l in tr if l[0] == "set"]
                if rollback:
                    if any(isinstance(n, (ast.DictComp, ast.ListComp, ast.GeneratorExp, ast.For)) for n in ast.walk(sm[0])) and any(l[2] in (("tuple",), ("op", "dict")) for l in sets):
                        continue        # nothing to copy
                    got = [l for l in sets if l[2] == VALUE or copyof(l[2], VALUE) is not False and any(x == VALUE for x in subterms(l[2]))]
                    if not got:
                        rep.finding("backup", "%s.maybeSaveBackup" % name, "does not keep the value of a %s with rollback" % name.lower(), where)
                    else:
                        slot = got[-1][1]
                        copied = copyof(got[-1][2], VALUE)
                if any(l[1] == "value" and l[2] != VALUE and not (copyof(l[2], VALUE)) for l in sets) or any(l[0] == "mutate" for l in tr):
                    rep.finding("backup", "%s.maybeSaveBackup" % name, "changes the value", where)
            a = Explorer(p, Store(p, ci, rollback)).explore(rm[0], rm[1].mod, {}, SELF, env)
            where = p.where(rm[0], rm[1].mod)
            for tr in paths(a):
                rep.count("backup")
                sets = [l for l in tr if l[0] == "set" and l[1] == "value"]
                muts = [l for l in tr if l[0] == "mutate"]
                if rollback and slot is not None:
                    old = ("attr", SELF, slot)
                    back = [l for l in sets if l[2] == old or copyof(l[2], old) is not False and any(x == old for x in subterms(l[2]))]
                    bm = [l for l in muts if l[1] == VALUE]
                    if not back and not ({"clear", "update"} <= set(l[2] for l in bm)):
                        rep.finding("backup", "%s.maybeRestoreBackup" % name, "does not bring back the value of a %s with rollback" % name.lower(), where)
                if not rollback and (sets or muts):
                    rep.finding("backup", "%s.maybeRestoreBackup" % name, "changes the value of a %s without rollback" % name.lower(), where)
            if rollback and inplace and copied is False:
                rep.finding("backup", "%s.maybeSaveBackup" % name, "keeps the same object, which updates change in place", where)


class NoWrite(Interp):
    def __init__(self, p, rep):
        Interp.__init__(self, p)
        self.rep, self.n = rep, 0

    def on_mutate(self, node, val, how):
        self.n += 1
        for o in val:
            if isinstance(o, Sym) and o.root == "arg:obj":
                self.rep.finding("copied", "update", "%s on the stored value, which the backup and other readers share" % how, self.where(node))

    def on_load_attr(self, node, o, name):
        return None


def copyonwrite(rep, p):
    fn, mod = p.func("titus.genpy", "update"), p.mod("titus.genpy")
    ps = [a.arg for a in fn.args.args]
    it = NoWrite(p, rep)
    r = it.run(Fn(fn, mod, None, None, None), [V(Sym("arg:obj" if k == 2 else "arg:" + q, (), None)) for k, q in enumerate(ps)], None, State())
    rep.count("copied", max(1, it.n))
    # the result is not the stored container itself when something in it is replaced
    where = p.where(fn, mod)
    for o in r or ():
        if isinstance(o, Sym) and o.root == "arg:obj" and not o.path:
            pass
    # the value handed out by cell-to / pool-to and 'get' is not copied; nothing may write to it: see L01 for library functions


def run(rep):
    rep.rule("saved", "before the document's code of an action or merge starts, all cells and all pools are backed up, and never afterwards")
    rep.rule("restored", "every exception that leaves the document's code restores all cells and all pools and goes on unchanged; a normal end restores nothing")
    rep.rule("backup", "with rollback the backup keeps the value (a copy, where values are changed in place) and restoring brings it back; without rollback nothing happens")
    rep.rule("copied", "an update builds new containers along its path")
    p = Project()
    m = AstModel(p)
    em = EngineModel(p, m)
    methods(rep, p, em)
    storage(rep, p)
    copyonwrite(rep, p)
    rep.floor("saved", 40)
    rep.floor("restored", 40)
    rep.floor("backup", 6)
    rep.floor("copied", 1)


if __name__ == "__main__":
    report.main("G03", run)
