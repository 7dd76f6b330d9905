import ast, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel
from sa.engine import EngineModel
from sa.engrun import EngineClient, codeholes, paths, SELF, CELLS, POOLS, dictterm
from sa.interp import Const, Sym, Alloc, V
from sa.lts import Client, Explorer, show, subterms
from sa.reading import DocInterp

ROUTINES = ("begin", "action", "merge", "end")
CLOCKS = {"time": 1, "monotonic": 1, "perf_counter": 1, "time_ns": 10**9, "monotonic_ns": 10**9, "perf_counter_ns": 10**9}
LIMITS = ("timeout", "timeout_begin", "timeout_action", "timeout_end")


# ---- the clock -----------------------------------------------------------------------------------------------------
class Steps(Client):
    """Paths through a method of the state, with their conditions; methods of the same class are followed."""

    def __init__(self, proj, cls, attrs=None):
        self.proj, self.cls, self.attrs = proj, cls, attrs or {}

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "attr" and callee[1] == SELF:
            m = self.proj.method(self.cls, callee[2])
            if m is not None:
                return m[0], m[1].mod, SELF
        return None

    def inline(self, fn, mod):
        return mod is self.cls.mod

    def attr_value(self, obj, name, ex):
        return self.attrs.get(name) if obj == SELF else None

    def branch(self, term, pol, ex):
        return ("if", term, pol)

    def setattr_event(self, obj, name, val, ex):
        return ("set", name, val) if obj == SELF else None

    def raise_event(self, t, ex):
        return ("raise", t)

    def ret_event(self, t, ex):
        return ("ret", t)


def clock(t):
    """name of the clock read by a term, or None"""
    if t[0] == "call" and not t[2]:
        if t[1][0] == "attr" and t[1][1] == ("global", "time") and t[1][2] in CLOCKS:
            return t[1][2]
        if t[1][0] == "global" and t[1][1] in CLOCKS and t[1][1] != "time":
            return t[1][1]
    return None


def mark(t):
    """A term computed when the state was made: clock readings in it are those of the start."""
    if not isinstance(t, tuple):
        return t
    c = clock(t) if t and isinstance(t[0], str) and len(t) == 3 else None
    if c is not None:
        return ("start", c)
    return tuple(mark(x) for x in t)


ROUND = [("global", n) for n in ("int", "round")] + [("attr", ("global", "math"), n) for n in ("floor", "ceil", "trunc")]


def whole(a):
    """a linear expression rounded to a whole number: marked when that loses more than a millisecond of a clock"""
    for k, x in (a or {}).items():
        if k is not None and k.split(":")[0] in ("now", "start") and abs(x) * CLOCKS[k.split(":")[1]] < 1000 - 1e-6:
            a = dict(a)
            a["rounded"] = 1
            break
    return a


def linear(t):
    """{atom: coefficient} for a linear expression over clock readings and the limit (None: constant term), or None"""
    if t[0] == "const":
        return {None: t[1]} if isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else None
    if t[0] == "start":
        return {"start:" + t[1]: 1}
    if clock(t) is not None:
        return {"now:" + clock(t): 1}
    if t[0] == "attr" and t[1] == ("param", "options") and t[2] in LIMITS:
        return {"limit": 1}
    if t[0] == "call" and t[1] in ROUND and len(t[2]) == 1:
        return whole(linear(t[2][0]))
    if t[0] == "call" and t[1] == ("global", "float") and len(t[2]) == 1:
        return linear(t[2][0])
    if t[0] == "item" and t[1][:2] == ("op", "dict") and t[2][0] == "const":
        kv = dict(zip(t[1][2::2], t[1][3::2]))
        return linear(kv[t[2]]) if t[2] in kv else None
    if t[0] == "op" and t[1] in ("USub",):
        a = linear(t[2])
        return a and dict((k, -x) for k, x in a.items())
    if t[0] == "op" and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        if t[1] in ("Add", "Sub"):
            s = 1 if t[1] == "Add" else -1
            out = dict(a)
            for k, x in b.items():
                out[k] = out.get(k, 0) + s * x
            return dict((k, x) for k, x in out.items() if x or k is None)
        if t[1] == "Mult" and (set(a) <= {None} or set(b) <= {None}):
            c, d = (a, b) if set(a) <= {None} else (b, a)
            f = c.get(None, 0)
            return dict((k, x * f) for k, x in d.items())
        if t[1] in ("Div", "FloorDiv") and set(b) <= {None} and b.get(None, 0):
            out = dict((k, x / b[None]) for k, x in a.items())
            return out if t[1] == "Div" else whole(out)
    return None


def literal(term, pol):
    """("off", bool): the limit is (not) positive; ("over", bool): more than the limit has (not) passed; ("bad", text); None: not understood"""
    if term[0] == "op" and term[1] in ("not",) and len(term) == 3:
        return literal(term[2], not pol)
    if term[0] != "op" or len(term) != 4 or term[1] not in ("<", "<=", "Lt", "LtE", "Gt", "GtE", ">", ">="):
        return None
    a, b = linear(term[2]), linear(term[3])
    if a is None or b is None:
        return None
    if term[1] in ("Gt", "GtE", ">", ">="):
        a, b = b, a
    strict = term[1] in ("<", "Lt", ">", "Gt")
    d = dict(b)                                                   # b - a > 0  (or >= 0)
    for k, x in a.items():
        d[k] = d.get(k, 0) - x
    d = dict((k, x) for k, x in d.items() if abs(x) > 1e-12)
    if not pol:                                                   # a >= b (or a > b)
        d, strict = dict((k, -x) for k, x in d.items()), not strict
    ks = set(d)
    if ks <= {"limit", None} and "limit" in ks:
        s = 1 if d["limit"] > 0 else -1
        c = d.get(None, 0) / abs(d["limit"])
        # s * limit + c > 0 or >= 0, over the integers
        if s > 0:
            low = (-c if strict else -c - 1)                      # limit > low
            if -1 < low - 0 < 1 and low >= 0 or low == 0:
                return ("on", True)
        else:
            top = (c if strict else c + 1)                        # limit < top
            if 0 < top <= 1:
                return ("on", False)
        return ("bad", "a limit is taken to be one when %s" % show(term))
    now = [k for k in ks if k is not None and k.startswith("now:")]
    start = [k for k in ks if k is not None and k.startswith("start:")]
    if now and "rounded" in ks:
        return ("bad", "the time gone is rounded to more than a millisecond before it is compared, in %s and %s" % (show(term[2]), show(term[3])))
    if len(now) == 1 and len(start) <= 1:
        if not start or "limit" not in ks:
            return ("bad", "%s is compared with %s" % (show(term[2]), show(term[3])))
        n = now[0][4:]
        if n != start[0][6:]:
            return ("bad", "the time since a reading of %s is taken with %s" % (start[0][6:], n))
        f = abs(d["limit"])
        if abs(abs(d[now[0]]) / f * CLOCKS[n] - 1000) > 1e-6 or d[now[0]] != -d[start[0]] or abs(d.get(None, 0)) > 1e-9:
            return ("bad", "time and limit are compared as %s with %s" % (show(term[2]), show(term[3])))
        if (d["limit"] > 0) == (d[now[0]] > 0):
            return ("bad", "time and limit are compared as %s with %s" % (show(term[2]), show(term[3])))
        return ("over", d[now[0]] > 0)
    return None


def clocks(R, p, und):
    c = p.cls("titus.genpy", "ExecutionState")
    ini, o1 = p.method(c, "__init__")
    chk, o2 = p.method(c, "checkTime")
    names = [a.arg for a in ini.args.args]
    rpos = names.index("routine") if "routine" in names else None
    if rpos is None or "options" not in names:
        raise AnalysisBroken("ExecutionState takes no options or routine")
    where = p.where(chk, o2.mod)
    for routine in ROUTINES:
        a = Explorer(p, Steps(p, c)).explore(ini, o1.mod, {"routine": ("const", routine)}, SELF, {})
        for tr in paths(a):
            if tr and tr[-1] is not None and tr[-1][0] == "raise":
                R.finding("limit", routine, "the state of a running %s cannot be made: it ends in %s" % (routine, show(tr[-1][1])), p.where(ini, o1.mod))
                continue
            attrs = dict((l[1], mark(l[2])) for l in tr if l is not None and l[0] == "set")
            R.count("limit")
            b = Explorer(p, Steps(p, c, attrs)).explore(chk, o2.mod, {}, SELF, {})
            ends = {}                                             # (on, over) -> set of endings
            skip = False
            seen = False
            for t2 in paths(b):
                lits = []
                for l in t2:
                    if l is not None and l[0] == "if":
                        x = literal(l[1], l[2])
                        seen = seen or x is not None
                        if x is None:
                            miss = set(s[2] for s in subterms(l[1]) if isinstance(s, tuple) and len(s) == 3 and s[0] == "attr" and s[1] == SELF and s[2] not in attrs)
                            if miss:
                                x = ("bad", "%s is not set when the state of %s is made" % (", ".join(sorted(miss)), routine))
                        if x is None:
                            skip = True
                            und.append("checkTime: %s" % show(l[1]))
                        elif x[0] == "bad":
                            R.finding("clock", "checkTime", x[1], where)
                            skip = True
                        else:
                            lits.append(x)
                last = t2[-1]
                end = show(last[1][1]) if last[0] == "raise" and last[1][0] == "new" else "something" if last[0] == "raise" else "ok"
                for on, over in itertools.product((True, False), repeat=2):
                    v = {"on": on, "over": over}
                    if all(v[k] == w for k, w in lits):
                        ends.setdefault((on, over), set()).add(end)
            if skip:
                continue
            R.count("clock")
            for (on, over), got in sorted(ends.items()):
                want = "PFATimeoutException" if on and over else "ok"
                if got != {want}:
                    R.finding("clock", "checkTime", "with %s limit and %s time gone, checkTime ends with %s in a running %s, not %s" % (
                        "a" if on else "no", "more than that" if over else "less", ", ".join(sorted(got)), routine, want), where)


# ---- a fresh state for each routine ----------------------------------------------------------------------------------
class Runs(EngineClient):
    def load(self, name, ex, env, fid):
        if name in self.holes:
            b, k = self.holes[name]
            st = env.get((fid, "state"))
            return [(("code", b, k, st), ("val", b, k), None)]
        return None

    def load_raises(self, name):
        return ()


def fresh(R, p, em, und):
    base = p.cls("titus.genpy", "PFAEngine")
    gw = p.where(em.it.gen.node, em.it.gen.mod)
    c = p.cls("titus.genpy", "ExecutionState")
    names = [a.arg for a in p.method(c, "__init__")[0].args.args][1:]
    for v in em.variants():
        em.parse(v)
        for block in ("begin", "action", "end") + (("merge",) if v.merge else ()):
            fn = em.func(v, block)
            env = {("heap", SELF, "cells"): dictterm(CELLS, "c"), ("heap", SELF, "pools"): dictterm(POOLS, "p")}
            a = Explorer(p, Runs(p, base, v, codeholes(v, None))).explore(fn, base.mod, {}, SELF, env)
            for tr in paths(a):
                made = None
                for l in tr:
                    if l is None:
                        continue
                    if l[0] == "state":
                        made = l[1]
                        d = dict(zip(names, l[1]))
                        r = d.get("routine")
                        if r is not None and r[0] == "const" and r[1] not in ROUTINES:
                            R.finding("fresh", "%s of %s engines" % (block, v.method.lower()), "the state is made for the routine %r" % (r[1],), gw)
                        w = d.get("options")
                        if w is not None and w != ("attr", SELF, "options"):
                            R.finding("fresh", "%s of %s engines" % (block, v.method.lower()), "the limits are taken from %s, not the engine's options" % show(w), gw)
                    if l[0] == "code":
                        R.count("fresh")
                        if made is None:
                            R.finding("fresh", "%s of %s engines" % (block, v.method.lower()),
                                      "the code runs with %s, no state having been made for this run" % (show(l[3]) if l[3] is not None else "no state"), gw)
                        elif l[3] is not None and l[3][0] in ("attr", "param") and l[3] != ("attr", SELF, "state"):
                            R.finding("fresh", "%s of %s engines" % (block, v.method.lower()), "the code runs with the state %s" % show(l[3]), gw)


# ---- the option ------------------------------------------------------------------------------------------------------
def options(R, p, model, und):
    it = DocInterp(p, model)
    it.opaque_mods = it.opaque_mods - {"titus.options"}
    c = p.cls("titus.options", "EngineOptions")
    where = p.where(c.node, c.mod)
    probe = ast.parse("def probe(a):\n    return EngineOptions(a.doc, a.host)").body[0]
    sy = lambda *r: V(Sym(r, (), None))
    D = (None, {}, {"other": sy("x")}, {"timeout": sy("document")}, {"timeout": sy("document"), "other": sy("x")})
    H = (None, {}, {"other": sy("y")}, {"timeout": sy("host")}, {"other": sy("y"), "timeout": sy("host")})
    for doc, host in itertools.product(D, H):
        want = "host" if host and "timeout" in host else "document" if doc and "timeout" in doc else None
        say = "timeout %s" % ("by the host" if want == "host" and "timeout" not in (doc or {}) else "by both" if want == "host" else "by the document" if want else "by nobody")
        pins = dict((k, v if v is not None else V(Const(None))) for k, v in (("x().doc", doc), ("x().host", host)))
        ends = it.call_in(probe, c.mod, [sy("x")], pins)
        if not ends:
            R.finding("option", say, "the options cannot be made", where)
        for v, s in ends:
            it.st = s
            for o in v:
                if not isinstance(o, Alloc):
                    und.append("options: %s" % it.sh(V(o))[:80])
                    continue
                for f in LIMITS:
                    x = it.fields(o).get(("a", f))
                    if x is None:
                        continue
                    R.count("option")
                    t = it.sh(x)
                    if want is None:
                        if len(x) == 1 and getattr(next(iter(x)), "v", x) is not x:
                            n = next(iter(x)).v
                            if isinstance(n, (int, float)) and n <= 0:
                                continue
                            R.finding("option", say, "%s is %s" % (f, t), where)
                        else:
                            und.append("%s: %s is %s" % (say, f, t[:60]))
                    elif t in ("%s()" % want, "int{%s()}" % want):
                        continue
                    elif "()" in t and want + "()" not in t or len(x) == 1 and hasattr(next(iter(x)), "v"):
                        R.finding("option", say, "%s is %s, not the one given by the %s" % (f, t, want), where)
                    else:
                        und.append("%s: %s is %s" % (say, f, t[:60]))


# ---- loops of the library --------------------------------------------------------------------------------------------
def enumerates(e, names):
    """the iterator of itertools with more than polynomially many items that an expression goes through"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if n in ("combinations", "permutations", "product", "combinations_with_replacement") and (
                    isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "itertools" or isinstance(x.func, ast.Name) and n in names):
                return n
    return None


def checks_time(body, fns, depth=0):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr == "checkTime":
                    return True
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                if depth < 3 and n in fns and any(isinstance(a, ast.Name) and a.id == "state" or isinstance(a, ast.Attribute) and a.attr == "checkTime" for a in x.args) \
                        and checks_time(fns[n].body, fns, depth + 1):
                    return True
                if any(isinstance(a, ast.Attribute) and a.attr == "checkTime" for a in x.args):
                    return True
    return False


def loops(R, p, und):
    for m in p.mods.values():
        if not m.name.startswith("titus.lib."):
            continue
        fns = dict((n.name, n) for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef))
        names = set(a.asname or a.name for n in ast.walk(m.tree) if isinstance(n, ast.ImportFrom) and n.module == "itertools" for a in n.names)
        for cls in [c for c in p.classes if c.mod is m]:
            call = cls.methods.get("__call__") if hasattr(cls, "methods") else None
            if call is None:
                continue
            for x in ast.walk(call):
                if isinstance(x, ast.For) and enumerates(x.iter, names):
                    R.count("loops")
                    if not checks_time(x.body, fns):
                        R.finding("loops", cls.name, "the loop over all %s never looks at the time" % enumerates(x.iter, names), p.where(x, m))
                elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and enumerates(x.generators[0].iter, names) and isinstance(x, ast.ListComp):
                    R.count("loops")
                    if not checks_time([ast.Expr(value=x)], fns):
                        R.finding("loops", cls.name, "the loop over all %s never looks at the time" % enumerates(x.generators[0].iter, names), p.where(x, m))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "map") and x.args and any(
                        isinstance(a, ast.Call) and enumerates(a, names) for a in x.args):
                    R.count("loops")
                    R.finding("loops", cls.name, "the loop over all %s never looks at the time" % enumerates(x, names), p.where(x, m))


def run(R):
    R.rule("limit", "the state of every routine has a limit and a start time")
    R.rule("clock", "checkTime ends in PFATimeoutException exactly when there is a limit and more milliseconds than that have gone since the state was made")
    R.rule("fresh", "each run of a routine makes its own state, from the engine's options, before any of its code runs")
    R.rule("option", "the limit is the host's, else the document's, else none")
    R.rule("loops", "library functions going through all combinations or permutations look at the time as they go")
    p = Project()
    model = AstModel(p)
    und = []
    clocks(R, p, und)
    fresh(R, p, EngineModel(p, model), und)
    options(R, p, model, und)
    loops(R, p, und)
    R.note("not judged", sorted(set(und)))
    R.floor("limit", 4)
    R.floor("fresh", 200)
    R.floor("option", 25)


if __name__ == "__main__":
    report.main("G05", run)
