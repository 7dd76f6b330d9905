import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.engrun import explore, paths, EngineClient, codeholes, SELF, CELLS, POOLS, dictterm
from sa.forms import FormInterp, NCHILD
from sa.interp import Sym, Alloc, V, Const, _Const, EMPTY, symstr
from sa.lts import Explorer, show, subterms

CONFIG = ("attr", SELF, "config")
NAME = {"name": [("attr", CONFIG, "name")], "instance": [("attr", SELF, "instance")], "metadata": [("attr", CONFIG, "metadata")],
        "version": [("attr", CONFIG, "version")]}
STARTED, FINISHED, TALLY = ("attr", SELF, "actionsStarted"), ("attr", SELF, "actionsFinished"), ("attr", SELF, "tally")
ONE = ("const", 1)
PLUS = [("op", "Add", STARTED, ONE), ("op", "Add", ONE, STARTED)]
FPLUS = [("op", "Add", FINISHED, ONE), ("op", "Add", ONE, FINISHED)]
SCALAR = {"name": "AvroString", "instance": "AvroInt", "version": "AvroInt", "metadata": "AvroMap(AvroString)",
          "actionsStarted": "AvroLong", "actionsFinished": "AvroLong"}


def spec(v, block):
    """name -> acceptable values at run time"""
    out = dict(NAME)
    if block == "action":
        out.update(actionsStarted=PLUS, actionsFinished=[FINISHED])
    elif block == "end":
        out.update(actionsStarted=[STARTED], actionsFinished=[FINISHED])
    elif block == "merge":
        out.update(tallyOne=[("param", "tallyOne")], tallyTwo=[("param", "tallyTwo")])
    if block in ("action", "end") and v == "FOLD":
        out["tally"] = [TALLY]
    return out


def spectypes(v, block):
    out = dict((k, SCALAR[k]) for k in ("name", "instance", "version", "metadata"))
    if block in ("action", "end"):
        out.update((k, SCALAR[k]) for k in ("actionsStarted", "actionsFinished"))
        if v == "FOLD":
            out["tally"] = "output"
    if block == "action":
        out["input"] = "input"
    if block == "merge":
        out.update(tallyOne="output", tallyTwo="output")
    return out


class Client(EngineClient):
    def branch(self, term, pol, ex):
        if ("attr", CONFIG, "version") not in list(subterms(term)):
            return None
        if term[0] == "op" and term[1] in ("is", "eq") and ("const", None) in term:
            return ("version", not pol)
        return ("version", None)


def routines(rep, p, em):
    base = p.cls("titus.genpy", "PFAEngine")
    gw = p.where(em.it.gen.node, em.it.gen.mod)
    for v in em.variants():
        em.parse(v)
        for block in ("begin", "action", "end") + (("merge",) if v.merge else ()):
            present = 2 if block in ("action", "merge") or getattr(v, block) else 0
            fn = em.func(v, block)
            c = Client(p, base, v, codeholes(v, None))
            env = {("heap", SELF, "cells"): dictterm(CELLS, "c"), ("heap", SELF, "pools"): dictterm(POOLS, "p")}
            a = Explorer(p, c).explore(fn, base.mod, {}, SELF, env)
            want = spec(v.method, block)

            def bad(rule, msg):
                rep.finding(rule, "%s of %s engines" % (block, v.method.lower()), msg, gw)
            trs = list(paths(a))
            if not trs:
                raise AnalysisBroken("no path through %s of %s" % (block, v.name))
            for tr in trs:
                ran, failed, version, started, finished, tally, checked = [], None, "unknown", None, None, None, None
                last, chk = None, None
                for l in tr:
                    k = l[1] if l[0] == "raised" else l
                    if k is None:
                        continue
                    if k[0] == "version":
                        if version == "unknown":
                            version = k[1]
                    elif k[0] == "check":
                        chk = k[1]
                        if l[0] == "raised":
                            chk = None
                    elif k[0] in ("code", "fails"):
                        rep.count("order")
                        if k[1] != block:
                            bad("order", "runs a statement of %s" % k[1])
                        if k[2] != len(ran):
                            bad("order", "statements run out of order: %r" % (ran + [k[2]],))
                        ran.append(k[2])
                        if k[0] == "fails":
                            failed = k[3]
                            continue
                        last = ("val", k[1], k[2])
                        b = dict(k[3])
                        w = dict(want)
                        if version is False:
                            w.pop("version")
                        if block == "action":
                            w["input"] = None
                        rep.count("bound", len(w))
                        for n in w:
                            if n not in b:
                                bad("bound", "%s is not bound when statement %d runs" % (n, k[2]))
                            elif w[n] is not None and b[n] not in w[n]:
                                bad("bound", "%s is bound to %s" % (n, show(b[n])))
                        for n in b:
                            if n not in w:
                                bad("bound", "%s is bound%s" % (n, " though the document has no version" if n == "version" else ""))
                        if block == "action" and "input" in b:
                            i = b["input"]
                            ok = i == ("param", "input") or (i[0] in ("call", "res", "ret") and ("global", "checkData") in list(subterms(i)) and
                                                            ("param", "input") in list(subterms(i)))
                            if not ok:
                                bad("bound", "input is bound to %s" % show(i))
                        if block == "action" and started is None:
                            bad("counters", "the document's code starts before actionsStarted is counted")
                        if finished is not None:
                            bad("counters", "actionsFinished is counted before the document's code has finished")
                        if tally is not None:
                            bad("tally", "the tally is replaced before the document's code has finished")
                    elif k[0] == "set":
                        if k[1] == "actionsStarted":
                            rep.count("counters")
                            if block != "action" or started is not None or k[2] not in PLUS:
                                bad("counters", "actionsStarted becomes %s" % show(k[2]))
                            started = k[2]
                        elif k[1] == "actionsFinished":
                            rep.count("counters")
                            if block != "action" or finished is not None or k[2] not in FPLUS:
                                bad("counters", "actionsFinished becomes %s" % show(k[2]))
                            if failed:
                                bad("counters", "actionsFinished is counted for a call that failed")
                            finished = k[2]
                        elif k[1] == "tally":
                            rep.count("tally")
                            if failed:
                                bad("tally", "the tally is replaced by a call that failed")
                            if block not in ("action", "merge") or (block == "action" and v.method != "FOLD"):
                                bad("tally", "%s replaces the tally" % block)
                            elif k[2] != last:
                                bad("tally", "the tally becomes %s" % show(k[2]))
                            tally = k[2]
                    elif k[0] == "ret":
                        rep.count("result")
                        if len(ran) != present:
                            bad("order", "%d of %d statements run" % (len(ran), present))
                        r = k[1]
                        if block in ("begin", "end") or (block == "action" and v.method == "EMIT"):
                            pass
                        elif r != last and not (tally == last and r == TALLY):
                            bad("result", "returns %s, not the value of the last statement" % show(r))
                        if block == "action" and finished is None:
                            bad("counters", "a call that ends normally does not count actionsFinished")
                        if tally is None and (block == "merge" or (block == "action" and v.method == "FOLD")):
                            bad("tally", "the tally is not replaced")
                if version is None:
                    rep.note("unjudged:" + block, "condition on the version not understood")
        fn = em.func(v, "__init__")
        a = Explorer(p, Client(p, base, v, codeholes(v, None))).explore(fn, base.mod, {}, SELF, {})
        for tr in paths(a):
            fin = {}
            for l in tr:
                k = l[1] if l and l[0] == "raised" else l
                if k and k[0] == "set":
                    fin[k[1]] = k[2]
            w = {"actionsStarted": ("const", 0), "actionsFinished": ("const", 0), "instance": ("param", "instance")}
            if v.method == "FOLD":
                w["tally"] = ("param", "zero")
            for q in sorted(w):
                rep.count("initial")
                if fin.get(q) != w[q]:
                    rep.finding("initial", "%s of %s engines" % (q, v.method.lower()),
                                "starts as %s" % (show(fin[q]) if q in fin else "nothing"), gw)
    rep.floor("initial", 30)
    rep.floor("order", 40)
    rep.floor("bound", 150)
    rep.floor("counters", 30)
    rep.floor("tally", 12)
    rep.floor("result", 40)


def typ(it, val):
    """Readable form of a type: constructor calls, or the engine's own input/output type."""
    if len(val) != 1:
        return None
    o = next(iter(val))
    if isinstance(o, Sym) and o.root == "self" and len(o.path) == 1:
        return o.path[0]
    if isinstance(o, Sym) and o.root == "self" and len(o.path) == 2 and o.path[0].endswith("Placeholder") and o.path[1] == "avroType":
        return o.path[0][:-len("Placeholder")]
    if isinstance(o, Alloc) and o.cls is not None:
        n = o.cls.name
        if n in ("AvroMap", "AvroArray"):
            for f in it.fields(o).values():
                t = typ(it, f)
                if t is not None:
                    return "%s(%s)" % (n, t)
        return n
    return None


class ScopeInterp(FormInterp):
    """Walk of the engine with the method and the presence of version fixed; records the scope each child is checked in."""
    method, version = None, True

    def on_load_attr(self, node, o, name):
        if isinstance(o, Sym) and o.root == "self" and not o.path:
            if name == "method":
                return self.class_attr(node, self.proj.cls("titus.pfaast", "Method"), self.method, None)
            if name == "version":
                return V(Const(17)) if self.version else V(Const(None))
        return FormInterp.on_load_attr(self, node, o, name)

    def on_walk(self, node, o, args, kw):
        if len(args) < 2 or not o.path:
            return
        block = o.path[0]
        names, sealed, first = {}, False, None
        s = args[1]
        depth = 0
        while s:
            if len(s) != 1:
                self.problems.append((block, "the scope is one of several"))
                return
            x = next(iter(s))
            if not isinstance(x, Alloc):
                break
            d = self.fields(x)
            tabs = d.get(("a", "symbols"), EMPTY)
            for t in tabs:
                f = self.fields(t) if isinstance(t, Alloc) else {}
                for q in f:
                    if isinstance(q, tuple) and q[0] == "k" and q[1] not in names:
                        names[q[1]] = (self.describe(f[q]), sealed)
                if any(not isinstance(q, _Const) for q in f.get("keys", EMPTY)) or len(tabs) > 1:
                    self.problems.append((block, "names of the scope are not constants"))
            above = d.get(("a", "sealedAbove"), EMPTY)
            if len(above) == 1 and isinstance(next(iter(above)), _Const) and next(iter(above)).v is True:
                sealed = True
            s = d.get(("a", "parent"))
            depth += 1
        self.scopes.setdefault(block, []).append((node, o.path, names))

    def describe(self, val):
        return typ(self, val) or ",".join(sorted(symstr(x) for x in val))


def declared(rep, p, model):
    it = ScopeInterp(p, model)
    it.generate = False
    ci = model.classes["EngineConfig"]
    m = p.method(ci, "walk")
    n = 0
    for method in ("MAP", "EMIT", "FOLD"):
        for version in (True, False):
            for merge in (True, False):
                it.method, it.version, it.inst = method, version, {("merge",): merge}
                it.scopes, it.problems = {}, []
                it.walk("EngineConfig")
                for block, why in it.problems:
                    rep.note("unjudged:%s" % block, why)
                skip = set(b for b, _ in it.problems)
                for block in ("begin", "action", "end", "merge"):
                    if block in skip or (block == "merge" and not merge):
                        continue
                    got = it.scopes.get(block, [])
                    if len(got) < NCHILD:
                        raise AnalysisBroken("statements of %s are not type-checked in the engine's walk" % block)
                    want = spectypes(method, block)
                    if not version:
                        want.pop("version")
                    for node, path, names in got:
                        c = "%s of %s engines" % (block, method.lower())
                        w = p.where(node, m[1].mod)
                        rep.count("declared", len(want))
                        n += 1
                        for k in sorted(set(want) - set(names)):
                            rep.finding("declared", c, "%s is not in scope" % k, w)
                        for k in sorted(set(names) - set(want)):
                            rep.finding("declared", c, "%s is in scope%s but is not bound when the code runs" % (k, "" if version or k != "version" else " of a document without version"), w)
                        for k in sorted(set(want) & set(names)):
                            t, sealed = names[k]
                            if t != want[k]:
                                if t is None or "(" in want[k] and "?" in t:
                                    rep.note("unjudged:type", "%s %s %s" % (block, k, t))
                                else:
                                    rep.finding("declared", c, "%s is declared as %s, expected %s" % (k, t, want[k]), w)
                            rep.count("sealed")
                            if not sealed:
                                rep.finding("sealed", c, "%s may be assigned by the document" % k, w)
    rep.floor("declared", 100)
    rep.floor("sealed", 100)


def run(rep):
    rep.rule("order", "the generated begin, action, end and merge run the routine's statements once each, in document order")
    rep.rule("bound", "when a statement runs, exactly the predefined symbols of its routine are bound, to their values")
    rep.rule("counters", "action increments actionsStarted once before the code and actionsFinished once after it ended normally; nothing else changes them")
    rep.rule("initial", "a new engine has counted no actions, and a fold engine's tally is its zero")
    rep.rule("tally", "the tally becomes the value of the last statement of action (fold) or merge when it ended normally, and never otherwise")
    rep.rule("result", "action of map and fold engines and merge return the value of the last statement")
    rep.rule("declared", "a routine is type-checked in a scope that has exactly its predefined symbols, with their types")
    rep.rule("sealed", "the predefined symbols are in a scope the routine cannot assign to")
    p = Project()
    model = AstModel(p)
    em = EngineModel(p, model)
    routines(rep, p, em)
    declared(rep, p, model)
    rep.note("engines", len(list(em.variants())))


if __name__ == "__main__":
    report.main("E01", run)
