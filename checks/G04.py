import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.astmodel import AstModel, AstInterp
from sa.forms import FormModel
from sa.engine import EngineModel
from sa.interp import Interp, Sym, Alloc, Res, Fn, Cls, Ext, V, Const, _Const, NONE, EMPTY, State
from sa.lts import Client, Explorer, subterms, show

SELF = ("self",)
VALUE = ("attr", SELF, "value")
MUTATORS = ("pop", "update", "clear", "setdefault", "popitem", "append", "extend", "insert", "remove", "__setitem__", "__delitem__")
EFFECTS = ("CellTo", "PoolTo", "PoolDel")
CALLERS = ("Call", "FcnRef", "FcnRefFill", "CallUserFcn")


def norm(t):
    """(table or attribute, key) of a lock term."""
    if t[0] == "attr" and t[1] == SELF:
        return (t[2], None)
    if t[0] in ("item", "elem", "index") and isinstance(t[1], tuple) and t[1][:2] == ("attr", SELF):
        return (t[1][2], t[2] if len(t) > 2 else None)
    if t[0] == "call" and t[1][0] == "attr" and t[1][1][:2] == ("attr", SELF) and t[1][2] in ("setdefault", "get", "__getitem__") and t[2]:
        return (t[1][1][2], t[2][0])
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] == SELF:
        return (t[1][2], t[2][0] if t[2] else None)
    return None


class Locks(Client):
    def __init__(self, p, ci):
        self.p, self.ci = p, ci

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "attr" and callee[1] == SELF:
            mm = self.p.method(self.ci, callee[2])
            if mm is not None and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(mm[0])):
                return mm[0], mm[1].mod, SELF
        return None

    def inline(self, fn, mod):
        return False

    def fact(self, ex, name):
        for f, v in ex.facts:
            if f == ("attr", SELF, name):
                return v
            if f[:2] == ("op", "not") and f[2] == ("attr", SELF, name):
                return not v
        return None

    def write(self, key, ex):
        return ("write", key, self.fact(ex, "shared"), self.fact(ex, "rollback"))

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr":
            if callee[2] == "acquire":
                return ("acq", callee[1])
            if callee[2] == "release":
                return ("rel", callee[1])
            if callee[1] == VALUE and callee[2] in MUTATORS:
                return self.write(args[0] if args else None, ex)
            if callee[2] in ("get", "__contains__", "__getitem__") and args:
                return self.probe(callee[1], args[0])
        if callee == ("global", "update") and any(x == VALUE for a in args for x in subterms(a)):
            ks = [x[2] for a in args for x in subterms(a) if isinstance(x, tuple) and x[:1] == ("item",) and x[1] == VALUE]
            return self.write(ks[0] if ks else None, ex)
        return None

    def raises(self, callee, args, ex):
        return callee[0] == "global" and callee[1] not in ("isinstance", "len", "list", "dict", "set", "tuple", "hasattr", "callable") or \
            callee[0] == "param" or callee[0] == "attr" and callee[1][0] in ("param",) and callee[2] not in ("items", "keys", "values", "get")

    def attr_event(self, obj, name, ex):
        if obj == SELF and name == "value" and self.ci.name == "Cell":
            return ("read", None, self.fact(ex, "shared"), self.fact(ex, "rollback"))
        return None

    def probe(self, obj, idx):
        if obj[:2] == ("attr", SELF) and obj != VALUE:
            return ("probe", obj[2], idx)
        return None

    def cmp_event(self, op, a, b, ex):
        return self.probe(b, a) if op in ("in", "notin", "not in", "In", "NotIn") else None

    def item_event(self, obj, idx, ex):
        if obj != VALUE and self.probe(obj, idx) is not None:
            return self.probe(obj, idx)
        if obj == VALUE and self.ci.name == "Pool":
            return ("read", idx, self.fact(ex, "shared"), self.fact(ex, "rollback"))
        return None

    def setattr_event(self, obj, name, val, ex):
        if obj == SELF and name == "value":
            return self.write(None, ex)
        return None

    def setitem_event(self, obj, idx, val, ex):
        if obj == VALUE:
            return self.write(idx, ex)
        if obj[:2] == ("attr", SELF) and "Lock" in repr(val):
            return ("table", obj[2], idx, val, self.fact(ex, "shared"))
        return None

    def delitem_event(self, obj, idx, ex):
        return self.write(idx, ex) if obj == VALUE else None

    def with_event(self, obj, enter, ex):
        if "nullcontext" in repr(obj):
            return None
        return ("acq" if enter else "rel", obj)

    def ret_event(self, t, ex):
        return ("ret",)

    def raise_event(self, t, ex):
        return ("raise",)


def lockstates(a, reentrant, bad):
    """Walk the automaton with the set of held locks; yields (label, held)."""
    start = (a.start, (), (), ())
    seen, work, out = {start}, [start], []
    while work:
        n, held, alias, probes = work.pop()
        for l, b in a.edges.get(n, ()):
            h, al, pr = held, alias, probes
            m = l[1] if l is not None and l[0] == "raised" else l
            if m is not None:
                if m[0] in ("acq", "rel"):
                    k = norm(m[1]) or dict(al).get(m[1]) or ("?", m[1])
                    if m[0] == "acq":
                        if k in h and k[0] not in reentrant:
                            bad("acquired twice", k)
                        h = h + (k,)
                    elif k in h:
                        i = len(h) - 1 - h[::-1].index(k)
                        h = h[:i] + h[i + 1:]
                    else:
                        bad("released but not held", k)
                elif m[0] == "table":
                    al = tuple(sorted(set(al) | {(m[3], (m[1], m[2]))}, key=repr))
                    # a lock made under another name is the one just stored
                    h = tuple((m[1], m[2]) if x == ("?", m[3]) else x for x in h)
                if m[0] == "probe":         # whether the table has the entry, seen under these locks
                    pr = tuple(sorted(set(x for x in pr if x[:2] != (m[1], m[2])) | {(m[1], m[2], h)}, key=repr))
                elif m[0] == "rel":
                    pr = tuple(x[:2] + (tuple(k for k in x[2] if k in h),) for x in pr)
                if m[0] in ("write", "table", "read"):
                    out.append((m, h, tuple(x[2] for x in pr if x[:2] == m[1:3]) if m[0] == "table" else ()))
                if m[0] in ("ret", "raise") and h:
                    bad("still held when %s" % ("the method returns" if m[0] == "ret" else "an exception leaves the method"), h[-1])
            if len(h) > 6:
                bad("acquired without bound", h[-1])
                continue
            s = (b, h, al, pr)
            if s not in seen:
                seen.add(s)
                work.append(s)
    return out


def internal(p, ci, name):
    """A method called on self by its own class and by nothing else: its callers hold the locks."""
    if name.startswith("_"):
        return True
    own = set(id(n) for k in p.mro(ci) for f in k.methods.values() for n in ast.walk(f))
    used = False
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == name:
                if id(n) in own and isinstance(n.value, ast.Name) and n.value.id == "self":
                    used = True
                else:
                    return False
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "." + name in n.value:
                return False
    return used


def storage(rep, p):
    base = p.cls("titus.genpy", "PersistentStorageItem")
    m = p.mod("titus.genpy")
    for name in ("Cell", "Pool"):
        ci = p.cls("titus.genpy", name)
        init = p.method(ci, "__init__")[0]
        reentrant = set()
        for s in ast.walk(init):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and "RLock" in ast.unparse(s.value):
                reentrant.add(s.targets[0].attr)
        common, tables, nw = None, {}, 0
        for k in p.mro(ci):
            for mn, fn in sorted(k.methods.items()):
                if mn.startswith("__") or p.method(ci, mn)[0] is not fn or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)):
                    continue
                c = Locks(p, ci)
                a = Explorer(p, c).explore(fn, k.mod, {}, SELF)
                where = p.where(fn, k.mod)

                def bad(what, lk):
                    rep.finding("released", "%s.%s" % (name, mn), "lock %s is %s" % (lk[0] if lk[0] != "?" else show(lk[1])[:60], what), where)
                rep.count("released")
                helper = internal(p, ci, mn)
                if helper:
                    bad = lambda what, lk: None          # helpers may hand a held lock to their caller
                states = lockstates(a, reentrant, bad)
                updates = any(w[0] == "write" and not (w[2] is False or w[3] is True) for w, held, seen in states)
                for w, held, seen in states:
                    if w[0] == "read":
                        if updates and not held and not (w[2] is False or w[3] is True or helper):
                            rep.finding("guarded", "%s.%s" % (name, mn), "the value of a shared %s is read for an update or its result while no lock is held" % name.lower(), where)
                    elif w[0] == "write":
                        if w[2] is False or w[3] is True or helper:
                            continue
                        nw += 1
                        rep.count("guarded")
                        ls = set((x, "own" if k2 is not None else None) for x, k2 in held if k2 is None or k2 == w[1] or w[1] is None)
                        if not ls:
                            rep.finding("guarded", "%s.%s" % (name, mn), "the value of a shared %s is changed while no lock that guards it is held" % name.lower(), where)
                        elif common is None:
                            common = ls
                        elif not common & ls:
                            rep.finding("guarded", "%s.%s" % (name, mn), "the value is changed under other locks than elsewhere", where)
                        else:
                            common &= ls
                    elif w[0] == "table" and w[4] is not False:
                        ls = set(x for x, k2 in held if x != w[1])
                        rep.count("guarded")
                        old = tables.get(w[1])
                        tables[w[1]] = ls if old is None else old & ls
                        if not tables[w[1]]:
                            rep.finding("guarded", "%s.%s" % (name, mn), "the table of locks is changed while no common lock is held", where)
                        elif not any(set(x for x, k2 in h) & tables[w[1]] for h in seen):
                            rep.finding("guarded", "%s.%s" % (name, mn), "a lock is put into the table of locks without looking, under the same hold, whether another thread has put one there", where)
        if nw == 0:
            raise AnalysisBroken("no change of the value of a %s was found" % name)
    # shared and rollback exclude each other
    for name in ("Cell", "Pool"):
        ci = p.cls("titus.pfaast", name)
        rep.count("exclusive")
        fn = ci.methods["__init__"]
        ok = False
        for s in ast.walk(fn):
            if isinstance(s, (ast.If, ast.Assert)) and {"shared", "rollback"} <= set(n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(s.test) if isinstance(n, (ast.Name, ast.Attribute))):
                ok |= isinstance(s, ast.Assert) or any(isinstance(x, ast.Raise) for b in s.body + s.orelse for x in ast.walk(b))
            if isinstance(s, ast.Call) and {"shared", "rollback"} <= set(a.id for a in s.args if isinstance(a, ast.Name)):
                ok = True
        if not ok:
            rep.finding("exclusive", name, "a %s may be both shared and rolled back" % name.lower(), p.where(fn, ci.mod))


def writes(tree):
    for n in ast.walk(tree):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            t0 = t
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute) and t.attr == "value" and not (isinstance(t.value, ast.Name) and t.value.id == "self"):
                yield n, ast.unparse(t0)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute) and b.attr == "value" and not (isinstance(b.value, ast.Name) and b.value.id == "self"):
                yield n, ast.unparse(n)[:60]


def direct(rep, p, m):
    """Nothing outside Cell and Pool changes their values."""
    gm = p.mod("titus.genpy")
    for ci in [c for c in p.classes if c.mod is gm]:
        for mn, fn in ci.methods.items():
            rep.count("direct")
            for n, t in writes(fn):
                rep.finding("direct", "%s.%s" % (ci.name, mn), "changes stored state directly: %s" % t, p.where(n, gm))
    for fn in gm.tree.body:
        if isinstance(fn, ast.FunctionDef):
            rep.count("direct")
            for n, t in writes(fn):
                rep.finding("direct", fn.name, "changes stored state directly: %s" % t, p.where(n, gm))
    where0 = p.where(p.method(p.cls("titus.genpy", "GeneratePython"), "__call__")[0], gm)
    em = EngineModel(p, m)
    for v in em.variants():
        rep.count("direct")
        for n, t in writes(em.parse(v).tree):
            rep.finding("direct", "generated engine", "changes stored state directly: %s" % t, where0)
    fm = FormModel(p, m)
    for f in fm.forms():
        if f.cls in ("CellGet", "PoolGet", "CellTo", "PoolTo", "PoolDel"):
            for t in f.templates:
                rep.count("direct")
                try:
                    tree = t.parse()
                except SyntaxError:
                    continue
                for n, x in writes(tree):
                    rep.finding("direct", f.cls, "generated code changes stored state directly: %s" % x, where0)
    return em


class Check(AstInterp):
    """checkForDeadlock with collect() recorded."""

    def __init__(self, p, m):
        AstInterp.__init__(self, p, m)
        self.collects, self.effects, self.raised = [], True, []

    def on_load_attr(self, node, o, name):
        if name == "collect" and isinstance(o, Sym):
            return V(Ext("collect", V(o)))
        if name == "hasSideEffects" and isinstance(o, Sym):
            return V(Ext("effects", V(o)))
        return AstInterp.on_load_attr(self, node, o, name)

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual == "collect":
            self.collects.append((recv, args[0] if args else EMPTY))
            return V(Sym(("collected",), (), None))
        if qual == "effects":
            return V(Const(self.effects))
        return AstInterp.on_ext(self, node, qual, recv, args, kwargs)


def decide(it, pf, node, st):
    """Does the partial function apply to the node, and what happens: "raise", "pass" or the collects it makes."""
    out = []
    for o in pf:
        it.collects = []
        s = st.copy()
        it.st = s
        n = ast.parse("x").body[0]
        f = it.getattr_(n, V(o), "isDefinedAt")
        r = EMPTY
        try:
            r = it.call(n, f, [V(node)])
        except Exception as e:
            if type(e).__name__ != "Unreach":
                raise
        t = it.truth(r) if r else False
        if t is False:
            out.append((False, None, []))
            continue
        it.collects = []
        raised = False
        try:
            it.call(n, V(o), [V(node)])
        except Exception as e:
            if type(e).__name__ != "Unreach":
                raise
            raised = True
        out.append((t, raised, list(it.collects)))
    return out


def deadlock(rep, p, m):
    fn, mod = p.func("titus.genpy", "checkForDeadlock"), p.mod("titus.genpy")
    where = p.where(fn, mod)
    ps = [a.arg for a in fn.args.args]

    def top(it):
        it.collects = []
        it.run(Fn(fn, mod, None, None, None), [V(Sym("engineConfig", (), ("inst", m.classes["EngineConfig"], "exact"))), V(Sym("engine", (), None))], None, State())
        return [pf for recv, pf in it.collects if any(isinstance(o, Sym) and o.root == "engineConfig" for o in recv)]

    def tonode(form, kind):
        o = Sym("node", (), ("inst", m.classes[form], "exact"))
        return o

    for form in ("CellTo", "PoolTo"):
        for kind in ("FcnRef", "FcnRefFill", "FcnDef"):
            for eff in (True, False):
                it = Check(p, m)
                it.effects = eff
                it.tokind = kind

                def hook(node, o, name, it=it, kind=kind, orig=it.on_load_attr):
                    if isinstance(o, Sym) and o.root == "node" and not o.path and name == "to":
                        return V(Sym("node", ("to",), ("inst", m.classes[kind], "exact")))
                    return orig(node, o, name)
                it.on_load_attr = hook
                pfs = top(it)
                if not pfs:
                    raise AnalysisBroken("checkForDeadlock collects nothing from the engine configuration")
                st = it.st
                node = tonode(form, kind)
                res = []
                st = last_state(it)
                for pf in pfs:
                    res.extend(decide(it, pf, node, st))
                raised = any(t is not False and r for t, r, c in res)
                if kind != "FcnDef":
                    rep.count("deadlock")
                    if eff and not raised:
                        rep.finding("deadlock", "%s with %s" % (form, kind), "an updater with side effects is not rejected", where)
                    if not eff and any(t is True and r for t, r, c in res):
                        rep.finding("deadlock", "%s with %s" % (form, kind), "an updater without side effects is rejected", where)
                    continue
                inner = [(recv, pf) for t, r, cs in res if t is not False for recv, pf in cs]
                if not inner:
                    if eff:
                        rep.finding("deadlock", "%s with %s" % (form, kind), "the body of an inline updater is not examined", where)
                    continue
                for n in EFFECTS + CALLERS:
                    x = Sym("inner", (), ("inst", m.classes[n], "exact"))
                    rs = []
                    for recv, pf in inner:
                        rs.extend(decide(it, pf, x, st))
                    hit = any(t is not False and r for t, r, c in rs)
                    rep.count("deadlock")
                    if (eff or n in EFFECTS) and not hit:
                        rep.finding("deadlock", "%s inside an inline updater" % n, "is not rejected although it may take a lock the updater holds", where)
                    if not eff and n not in EFFECTS and any(t is True and r for t, r, c in rs):
                        rep.finding("deadlock", "%s inside an inline updater" % n, "is rejected although the function has no side effects", where)


def last_state(it):
    return it.st


def sideeffects(rep, p):
    ci = p.cls("titus.genpy", "PFAEngine")
    fn, owner = p.method(ci, "hasSideEffects")
    where = p.where(fn, owner.mod)
    names = set()

    def gather(f, mod, depth):
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                names.add(n.id)
                if depth and not isinstance(f, ast.Name):
                    for s in mod.tree.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets):
                            gather(s.value, mod, 0)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and n.attr in owner.attrs:
                gather(owner.attrs[n.attr], mod, 0)
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.add(n.value)
    gather(fn, owner.mod, 1)
    desc = {k: p.cls("titus.pfaast", k).attrs.get("desc") for k in EFFECTS}
    for k in EFFECTS:
        rep.count("effects")
        d = desc[k].value if isinstance(desc[k], ast.Constant) else None
        if k not in names and d not in names:
            rep.finding("effects", "hasSideEffects", "does not count %s" % (d or k), where)

    class C(Client):
        def ret_event(self, t, ex):
            pos = [f for f, v in ex.facts if f[:2] == ("op", "in") and v]
            return ("ret", t, bool(pos), len([f for f, v in ex.facts if f[:2] == ("op", "in")]))
    a = Explorer(p, C()).explore(fn, owner.mod, {}, SELF)
    for es in a.edges.values():
        for l, b in es:
            if l and l[0] == "ret" and l[1][0] == "const":
                rep.count("effects")
                if l[2] and not l[1][1]:
                    rep.finding("effects", "hasSideEffects", "is false although one of the effects is reached", where)
                if not l[2] and l[1][1]:
                    rep.finding("effects", "hasSideEffects", "is true although none of the effects is reached", where)
    # calledBy: the direct calls and, through each of them, theirs
    fn, owner = p.method(ci, "calledBy")
    where = p.where(fn, owner.mod)
    pn = [x.arg for x in fn.args.args][1]

    class Reach(Interp):
        def on_load_attr(self, node, o, name):
            if isinstance(o, Sym) and o.root == "self" and name == "calledBy":
                return V(Ext("again", V(o)))
            return None

        def on_ext(self, node, qual, recv, args, kwargs):
            if qual == "again":
                self.again.append((args, kwargs))
                return V(Sym(("again",), (), None))
            return None
    it = Reach(p)
    it.again = []
    r = it.run(Fn(fn, owner.mod, owner, None, V(Sym("self", (), ("inst", ci, "exact")))), [V(Sym("arg:name", (), None))], None, State())
    got = it.srcs(r or EMPTY) if hasattr(it, "srcs") else r
    direct_ = any(isinstance(o, Sym) and o.root == "self" and o.path[:1] == ("callGraph",) for o in flat(it, r))
    rep.count("effects")
    if not direct_:
        rep.finding("effects", "calledBy", "leaves out the functions called directly", where)
    if it.again and not any(isinstance(o, Sym) and o.root == ("again",) for o in flat(it, r)):
        rep.finding("effects", "calledBy", "leaves out the functions called by functions that are called", where)
    if not it.again and not any(isinstance(n, (ast.While, ast.For)) for n in ast.walk(fn)):
        rep.finding("effects", "calledBy", "does not follow calls of calls", where)


def flat(it, val):
    seen, work, out = set(), list(val or ()), []
    while work:
        o = work.pop()
        if o in seen:
            continue
        seen.add(o)
        out.append(o)
        if isinstance(o, Alloc):
            for v in it.fields(o).values():
                if isinstance(v, frozenset):
                    work.extend(v)
        if isinstance(o, Res):
            work.extend(o.srcs)
        if hasattr(o, "recv") and getattr(o, "recv", None) is not None:
            work.extend(o.recv)
    return out


def run(rep):
    rep.rule("released", "every lock a method of Cell or Pool takes is released on every way out of it, once, and never taken twice")
    rep.rule("guarded", "every change of a shared cell's or pool item's value, and the update computed from it, happens under a lock common to all changes")
    rep.rule("exclusive", "a cell or pool is not both shared and rolled back")
    rep.rule("direct", "nothing but the methods of Cell and Pool changes their values")
    rep.rule("deadlock", "an updater that may itself update a cell or pool, directly or through any function it can call, is rejected before the engine runs; others are not")
    rep.rule("effects", "a function has side effects exactly when cell-to, pool-to or pool-del is reachable in the call graph")
    p = Project()
    m = AstModel(p)
    storage(rep, p)
    direct(rep, p, m)
    deadlock(rep, p, m)
    sideeffects(rep, p)
    rep.floor("released", 4)
    rep.floor("guarded", 3)
    rep.floor("direct", 40)
    rep.floor("deadlock", 10)
    rep.floor("effects", 4)


if __name__ == "__main__":
    report.main("G04", run)
