"""Event automata of functions.

A function is lowered to a small instruction list and explored over abstract terms (parameters, attribute reads, call
results, ...); project helpers are inlined.  The result is a finite automaton whose edges are the events a client is
interested in (calls of thunks, lock operations, backups, branch outcomes).  Two functions with the same observable
behaviour give the same language however they are written; no path condition goes to a solver."""
import ast
from .proj import AnalysisBroken

MAXDEPTHTERM = 7
COPYISH = ("list", "tuple", "iter", "sorted_")
PURE = frozenset(["len", "list", "tuple", "dict", "set", "iter", "isinstance", "hasattr", "getattr", "callable", "str", "repr",
                  "int", "float", "range", "enumerate", "zip", "type", "id", "min", "max", "abs", "sum", "bool", "bytes",
                  "map", "sorted", "reversed", "frozenset", "print", "ord", "chr"])

STABLE = frozenset(["len", "isinstance", "hasattr", "callable", "type", "ord", "chr", "abs"])


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([depth(x) for x in t] or [0])


def cut(t):
    return t if depth(t) <= MAXDEPTHTERM * 2 else ("top",)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            for y in subterms(x):
                yield y


def show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == "param" or k == "global":
        return t[1]
    if k == "const":
        return repr(t[1])
    if k == "attr":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "item":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "elem":
        return "each of %s" % show(t[1])
    if k in ("call", "new"):
        return "%s(%s)" % (show(t[1]), ", ".join(show(x) for x in t[2]))
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if k == "tuple":
        return "(%s)" % ", ".join(show(x) for x in t[1:])
    if k == "fn":
        return "function@%s" % (t[1],)
    return "(" + " ".join(show(x) for x in t) + ")"


NOT = ("op", "not")


def mknot(t):
    if isinstance(t, tuple) and t[:2] == ("op", "not"):
        return t[2]
    if isinstance(t, tuple) and t[0] == "const":
        return ("const", not t[1])
    return ("op", "not", t)


class Lower(object):
    """One function body -> instructions."""

    def __init__(self, fn):
        self.fn = fn
        self.code = []
        self.ntemp = 0
        self.loops = []          # (break label, continue label, finally depth)
        self.handlers = [None]
        self.finals = []
        if isinstance(fn, ast.Lambda):
            t = self.ex(fn.body)
            self.emit("ret", t)
        else:
            self.block(fn.body)
            t = self.tmp()
            self.emit("const", t, None)
            self.emit("ret", t)

    def tmp(self):
        self.ntemp += 1
        return "%%%d" % self.ntemp

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def here(self):
        return len(self.code)

    @property
    def h(self):
        return self.handlers[-1]

    # labels are resolved lazily through one-element lists
    def label(self):
        return [None]

    def place(self, lab):
        lab[0] = len(self.code)

    def block(self, stmts):
        for s in stmts:
            self.st(s)

    def st(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("nop", s)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        t = self.ex(s.value)
        self.emit("drop", t)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Global = s_Nonlocal = s_Import

    def s_Assign(self, s):
        t = self.ex(s.value)
        ts = [t]
        for tg in s.targets[1:]:        # storing uses its value up
            u = self.tmp()
            self.emit("same", u, t)
            ts.append(u)
        for k, (tg, u) in enumerate(zip(s.targets, reversed(ts))):
            self.store(tg, u, last=(k == len(s.targets) - 1))

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.store(s.target, self.ex(s.value))

    def s_AugAssign(self, s):
        cur = self.ex(self.loadform(s.target))
        v = self.ex(s.value)
        t = self.tmp()
        self.emit("op", t, type(s.op).__name__, [cur, v])
        self.store(s.target, t)

    def loadform(self, t):
        n = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        return n

    def store(self, tg, t, last=True):
        if isinstance(tg, ast.Name):
            self.emit("store", tg.id, t)
        elif isinstance(tg, ast.Attribute):
            o = self.ex(tg.value)
            self.emit("setattr", o, tg.attr, t, tg)
        elif isinstance(tg, ast.Subscript):
            o = self.ex(tg.value)
            i = self.ex(tg.slice)
            self.emit("setitem", o, i, t, tg, self.h)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for k, x in enumerate(tg.elts):
                u = self.tmp()
                self.emit("unpack", u, t, k)
                self.store(x, u)
        elif isinstance(tg, ast.Starred):
            self.store(tg.value, t)

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Subscript):
                o = self.ex(tg.value)
                i = self.ex(tg.slice)
                self.emit("delitem", o, i, tg, self.h)

    def s_Return(self, s):
        if s.value is None:
            t = self.tmp()
            self.emit("const", t, None)
        else:
            t = self.ex(s.value)
        self.unwind(0)
        self.emit("ret", t)

    def unwind(self, depth):
        """Run pending finally blocks down to the given depth."""
        saved_f, saved_h = list(self.finals), list(self.handlers)
        while len(self.finals) > depth:
            body, hd = self.finals.pop()
            del self.handlers[hd:]
            if callable(body):
                body()
            else:
                self.block(body)
        self.finals, self.handlers = saved_f, saved_h

    def s_Raise(self, s):
        if s.exc is None:
            self.emit("reraise", self.h, s)
        else:
            t = self.ex(s.exc)
            self.emit("raise", t, self.h, s)

    def s_If(self, s):
        lt, lf, le = self.label(), self.label(), self.label()
        self.cond(s.test, lt, lf)
        self.place(lt)
        self.block(s.body)
        self.emit("jmp", le)
        self.place(lf)
        self.block(s.orelse)
        self.place(le)

    def s_Assert(self, s):
        lt, lf = self.label(), self.label()
        self.cond(s.test, lt, lf)
        self.place(lf)
        t = self.tmp()
        self.emit("const", t, "AssertionError")
        self.emit("raise", t, self.h, s)
        self.place(lt)

    def cond(self, e, lt, lf):
        if isinstance(e, ast.BoolOp):
            for k, v in enumerate(e.values):
                if k == len(e.values) - 1:
                    self.cond(v, lt, lf)
                else:
                    n = self.label()
                    if isinstance(e.op, ast.And):
                        self.cond(v, n, lf)
                    else:
                        self.cond(v, lt, n)
                    self.place(n)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, lf, lt)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            left = e.left
            vals = []
            for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
                vals.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            self.cond(ast.copy_location(ast.BoolOp(ast.And(), vals), e), lt, lf)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            self.quant(e.func.id, e.args[0], lt, lf)
            return
        t = self.ex(e)
        self.emit("br", t, lt, lf, e)

    def quant(self, which, g, lt, lf):
        """all/any over a comprehension, as the loop it stands for."""
        def rec(i, nextl):
            if i == len(g.generators):
                n = self.label()
                if which == "all":
                    self.cond(g.elt, nextl, lf)
                else:
                    self.cond(g.elt, lt, nextl)
                return
            gen = g.generators[i]
            src = self.ex(gen.iter)
            it = self.tmp()
            self.emit("iter", it, src)
            head, body, end = self.label(), self.label(), self.label()
            self.place(head)
            x = self.tmp()
            self.emit("next", x, it, body, end, gen)
            self.place(body)
            self.store(gen.target, x)
            for c in gen.ifs:
                n = self.label()
                self.cond(c, n, head)
                self.place(n)
            rec(i + 1, head)
            self.place(end)
            self.emit("drop", it)
            self.emit("jmp", nextl)
        done = self.label()
        rec(0, done)
        self.place(done)
        self.emit("jmp", lt if which == "all" else lf)

    def s_While(self, s):
        head, body, els, end = self.label(), self.label(), self.label(), self.label()
        self.place(head)
        self.emit("loop", s)
        self.cond(s.test, body, els)
        self.place(body)
        self.loops.append((end, head, len(self.finals)))
        self.block(s.body)
        self.loops.pop()
        self.emit("jmp", head)
        self.place(els)
        self.block(s.orelse)
        self.place(end)

    def s_For(self, s):
        src = self.ex(s.iter)
        it = self.tmp()
        self.emit("iter", it, src)
        head, body, els, end = self.label(), self.label(), self.label(), self.label()
        self.place(head)
        x = self.tmp()
        self.emit("next", x, it, body, els, s)
        self.place(body)
        self.store(s.target, x)
        self.loops.append((end, head, len(self.finals)))
        self.block(s.body)
        self.loops.pop()
        self.emit("jmp", head)
        self.place(els)
        self.block(s.orelse)
        self.place(end)
        self.emit("drop", it)

    def s_Break(self, s):
        end, head, d = self.loops[-1]
        self.unwind(d)
        self.emit("jmp", end)

    def s_Continue(self, s):
        end, head, d = self.loops[-1]
        self.unwind(d)
        self.emit("jmp", head)

    def s_Try(self, s):
        lh, le = self.label(), self.label()
        fin = s.finalbody
        hd = len(self.handlers)
        if fin:
            lfin = self.label()
            self.handlers.append(lfin)
            self.finals.append((fin, hd))
        if s.handlers:
            self.handlers.append(lh)
        self.block(s.body)
        if s.handlers:
            self.handlers.pop()
        self.block(s.orelse)
        self.emit("jmp", le)
        if s.handlers:
            self.place(lh)
            for h in s.handlers:
                yes, no = self.label(), self.label()
                self.emit("match", h.type, yes, no)
                self.place(yes)
                self.emit("enter_handler")
                if h.name:
                    t = self.tmp()
                    self.emit("exc", t)
                    self.emit("store", h.name, t)
                self.block(h.body)
                self.emit("leave_handler")
                self.emit("jmp", le)
                self.place(no)
            self.emit("reraise", self.h, s)
        self.place(le)
        if fin:
            self.finals.pop()
            self.handlers.pop()
            lend = self.label()
            self.block(fin)
            self.emit("jmp", lend)
            self.place(lfin)
            self.emit("enter_handler")
            self.block(fin)
            self.emit("leave_handler")
            self.emit("reraise", self.h, s)
            self.place(lend)

    s_TryStar = s_Try

    def s_With(self, s):
        ts = []
        hd = len(self.handlers)
        lfin = self.label()
        for item in s.items:
            t = self.ex(item.context_expr)
            v = "%%with%d_%d" % (s.lineno, len(ts))
            self.emit("store", v, t)
            ts.append(v)
            self.emit("withenter", v, s, self.h)
            if item.optional_vars is not None:
                u = self.tmp()
                self.emit("load", u, v, s)
                self.store(item.optional_vars, u)

        def exits():
            for v in reversed(ts):
                self.emit("withexit", v, s)
        self.handlers.append(lfin)
        self.finals.append((exits, hd))
        self.block(s.body)
        self.finals.pop()
        self.handlers.pop()
        exits()
        lend = self.label()
        self.emit("jmp", lend)
        self.place(lfin)
        exits()
        self.emit("reraise", self.h, s)
        self.place(lend)

    def s_FunctionDef(self, s):
        t = self.tmp()
        self.emit("fn", t, s)
        self.emit("store", s.name, t)

    # ---- expressions ------------------------------------------------------------------------------------------
    def ex(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        subs = [self.ex(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        t = self.tmp()
        self.emit("op", t, type(e).__name__, subs)
        return t

    def e_Constant(self, e):
        t = self.tmp()
        self.emit("const", t, e.value)
        return t

    def e_Name(self, e):
        t = self.tmp()
        self.emit("load", t, e.id, e, self.h)
        return t

    def e_Attribute(self, e):
        o = self.ex(e.value)
        t = self.tmp()
        self.emit("attr", t, o, e.attr, e)
        return t

    def e_Subscript(self, e):
        o = self.ex(e.value)
        i = self.ex(e.slice)
        t = self.tmp()
        self.emit("item", t, o, i, e, self.h)
        return t

    def e_Slice(self, e):
        subs = []
        for x in (e.lower, e.upper, e.step):
            if x is None:
                u = self.tmp()
                self.emit("const", u, None)
                subs.append(u)
            else:
                subs.append(self.ex(x))
        t = self.tmp()
        self.emit("op", t, "slice", subs)
        return t

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.boolean(e)
        f = self.ex(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                u = self.ex(a.value)
                v = self.tmp()
                self.emit("op", v, "star", [u])
                args.append(v)
            else:
                args.append(self.ex(a))
        kws = [(k.arg, self.ex(k.value)) for k in e.keywords]
        t = self.tmp()
        self.emit("call", t, f, args, kws, self.h, e)
        return t

    def boolean(self, e):
        lt, lf, le = self.label(), self.label(), self.label()
        v = "%%b%d_%d" % (e.lineno, e.col_offset)
        self.cond(e, lt, lf)
        for lab, c in ((lt, True), (lf, False)):
            self.place(lab)
            t = self.tmp()
            self.emit("const", t, c)
            self.emit("store", v, t)
            self.emit("jmp", le)
        self.place(le)
        t = self.tmp()
        self.emit("load", t, v, e)
        return t

    def e_BoolOp(self, e):
        # value form: result of the deciding operand
        v = "%%b%d_%d" % (e.lineno, e.col_offset)
        end = self.label()
        for k, x in enumerate(e.values):
            t = self.ex(x)
            self.emit("store", v, t)
            if k < len(e.values) - 1:
                nxt = self.label()
                u = self.tmp()
                self.emit("load", u, v, x)
                if isinstance(e.op, ast.And):
                    self.emit("br", u, nxt, end, x)
                else:
                    self.emit("br", u, end, nxt, x)
                self.place(nxt)
        self.place(end)
        t = self.tmp()
        self.emit("load", t, v, e)
        return t

    def e_IfExp(self, e):
        v = "%%b%d_%d" % (e.lineno, e.col_offset)
        lt, lf, le = self.label(), self.label(), self.label()
        self.cond(e.test, lt, lf)
        self.place(lt)
        self.emit("store", v, self.ex(e.body))
        self.emit("jmp", le)
        self.place(lf)
        self.emit("store", v, self.ex(e.orelse))
        self.place(le)
        t = self.tmp()
        self.emit("load", t, v, e)
        return t

    def e_UnaryOp(self, e):
        o = self.ex(e.operand)
        t = self.tmp()
        self.emit("op", t, "not" if isinstance(e.op, ast.Not) else type(e.op).__name__, [o])
        return t

    def e_BinOp(self, e):
        a, b = self.ex(e.left), self.ex(e.right)
        t = self.tmp()
        self.emit("op", t, type(e.op).__name__, [a, b])
        return t

    def e_Compare(self, e):
        if len(e.ops) > 1:
            return self.boolean(e)
        a, b = self.ex(e.left), self.ex(e.comparators[0])
        t = self.tmp()
        self.emit("cmp", t, type(e.ops[0]).__name__, a, b)
        return t

    def e_Tuple(self, e):
        subs = [self.ex(x) for x in e.elts]
        t = self.tmp()
        self.emit("seq", t, subs)
        return t

    e_List = e_Tuple

    def e_Dict(self, e):
        subs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                subs.append(self.ex(v))
            else:
                subs.append(self.ex(k))
                subs.append(self.ex(v))
        t = self.tmp()
        self.emit("op", t, "dict", subs)
        return t

    def e_Lambda(self, e):
        t = self.tmp()
        self.emit("fn", t, e)
        return t

    def e_ListComp(self, e):
        """Comprehension: evaluated as a loop for its events; its value is an opaque term over element and source."""
        acc = "%%c%d_%d" % (e.lineno, e.col_offset)
        t0 = self.tmp()
        self.emit("seq", t0, [])
        self.emit("store", acc, t0)

        its = []

        def rec(i, cont):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    a, b = self.ex(e.key), self.ex(e.value)
                    u = self.tmp()
                    self.emit("op", u, "dict", [a, b])
                else:
                    u = self.ex(e.elt)
                v = self.tmp()
                if isinstance(e, ast.DictComp):
                    self.emit("op", v, "comp", [u])
                else:
                    self.emit("comp", v, u, acc, list(its))
                self.emit("store", acc, v)
                self.emit("jmp", cont)
                return
            g = e.generators[i]
            src = self.ex(g.iter)
            it = self.tmp()
            self.emit("iter", it, src)
            its.append(it)
            head, body, end = self.label(), self.label(), self.label()
            self.place(head)
            x = self.tmp()
            self.emit("next", x, it, body, end, g)
            self.place(body)
            self.store(g.target, x)
            for c in g.ifs:
                n = self.label()
                self.cond(c, n, head)
                self.place(n)
            rec(i + 1, head)
            self.place(end)
            self.emit("drop", it)
            self.emit("jmp", cont)
        done = self.label()
        rec(0, done)
        self.place(done)
        t = self.tmp()
        self.emit("load", t, acc, e)
        return t

    e_SetComp = e_GeneratorExp = e_DictComp = e_ListComp

    def e_NamedExpr(self, e):
        t = self.ex(e.value)
        self.emit("store", e.target.id, t)
        u = self.tmp()
        self.emit("load", u, e.target.id, e)
        return u


class Client(object):
    """What to observe.  Override in a check."""
    track_dicts = False

    def inline(self, fn, mod):
        return False

    def resolve_call(self, ex, callee, args, kws):
        """Optionally map a callee term to (FunctionDef, module, self term) to inline."""
        return None

    def event(self, callee, args, kws, ex):
        return None

    def raises(self, callee, args, ex):
        return False

    def must_raise(self, callee, args, ex):
        """Given that raises() named an exception: it is raised every time."""
        return False

    def subscript_raises(self, base, idx, ex):
        return False

    def branch(self, term, pol, ex):
        return None

    def cmp_event(self, op, a, b, ex):
        return None

    def attr_value(self, obj, name, ex):
        """Optionally the term an attribute holds."""
        return None

    def decide(self, term, ex):
        """Optionally the truth of a condition (True/False), else None."""
        return None

    def attr_event(self, obj, name, ex):
        return None

    def item_event(self, obj, idx, ex):
        return None

    def setattr_event(self, obj, name, val, ex):
        return None

    def setitem_event(self, obj, idx, val, ex):
        return None

    def delitem_event(self, obj, idx, ex):
        return None

    def with_event(self, obj, enter, ex):
        return None

    def load(self, name, ex, env, fid):
        """Optionally (event, term) for reading a name."""
        return None

    def iter_event(self, src, ex):
        return None

    def load_raises(self, name):
        """(event, exception term) alternatives for reading a name whose code may fail."""
        return ()

    def call_effect(self, callee, args, kws, env, ex):
        """Optionally update the environment for a call that is not inlined."""

    def ret_event(self, term, ex):
        return ("ret", term)

    def raise_event(self, term, ex):
        return ("raise", term)


class Auto(object):
    def __init__(self):
        self.edges = {}       # node -> list of (label or None, node)
        self.start = None
        self.final = set()
        self.where = {}       # (node, label) -> ast node

    def add(self, a, label, b, node=None):
        self.edges.setdefault(a, []).append((label, b))
        if node is not None and label is not None:
            self.where.setdefault((a, label), node)

    def closure(self, ns):
        out = set(ns)
        work = list(ns)
        while work:
            n = work.pop()
            for l, b in self.edges.get(n, ()):
                if l is None and b not in out:
                    out.add(b)
                    work.append(b)
        return frozenset(out)

    def step(self, ns, label):
        return self.closure([b for n in ns for l, b in self.edges.get(n, ()) if l == label])

    def labels(self, ns):
        return set(l for n in ns for l, b in self.edges.get(n, ()) if l is not None)


def difference(a, b, limit=4000):
    """A shortest word in exactly one of the two languages: (word, "first"|"second"), or None."""
    sa, sb = a.closure([a.start]), b.closure([b.start])
    seen = {(sa, sb)}
    work = [(sa, sb, ())]
    while work:
        x, y, w = work.pop(0)
        fa, fb = bool(x & a.final), bool(y & b.final)
        if fa != fb:
            return w, ("first" if fa else "second")
        for l in sorted(a.labels(x) | b.labels(y), key=repr):
            nx, ny = a.step(x, l), b.step(y, l)
            if (nx, ny) not in seen:
                seen.add((nx, ny))
                if len(seen) > limit:
                    raise AnalysisBroken("automata too large to compare")
                work.append((nx, ny, w + (l,)))
    return None


def trim(a):
    """Drop nodes that cannot reach a final node."""
    rev = {}
    for n, es in a.edges.items():
        for l, b in es:
            rev.setdefault(b, set()).add(n)
    ok = set(a.final)
    work = list(ok)
    while work:
        n = work.pop()
        for m in rev.get(n, ()):
            if m not in ok:
                ok.add(m)
                work.append(m)
    a.edges = {n: [(l, b) for l, b in es if b in ok] for n, es in a.edges.items() if n in ok}
    return a


class Explorer(object):
    MAXSTATES = 30000

    def __init__(self, proj, client):
        self.proj, self.client = proj, client
        self.lowered = {}
        self.fns = {}          # id -> (node, mod)
        self.node = None

    def lower(self, fn):
        if fn not in self.lowered:
            self.lowered[fn] = Lower(fn).code
        return self.lowered[fn]

    def explore(self, fn, mod, args, selfterm=None, env=None):
        """fn: FunctionDef; args: dict param -> term (missing: ("param", name)).  Returns an Auto."""
        auto = Auto()
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        e = dict(env or {})
        fid = ("top",)
        for n in names:
            e[(fid, n)] = args.get(n, ("param", n))
        if selfterm is not None and names:
            e[(fid, names[0])] = selfterm
        for a in fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x is not None]:
            e[(fid, a.arg)] = args.get(a.arg, ("param", a.arg))
        stack = ((self.reg(fn, mod), 0, fid, None, None),)
        start = (stack, frozenset(e.items()), frozenset(), ())
        ids = {start: 0}
        auto.start = 0
        FIN = -1
        auto.final = {FIN}
        work = [start]
        while work:
            s = work.pop()
            me = ids[s]
            for label, nxt, node in self.step(s):
                if nxt is None:
                    auto.add(me, label, FIN, node)
                    continue
                k = ids.get(nxt)
                if k is None:
                    k = ids[nxt] = len(ids)
                    if k > self.MAXSTATES:
                        raise AnalysisBroken("too many states exploring %s" % getattr(fn, "name", "<lambda>"))
                    work.append(nxt)
                auto.add(me, label, k, node)
        auto.nstates = len(ids)
        return trim(auto)

    def reg(self, fn, mod):
        for k, (f, m) in self.fns.items():
            if f is fn:
                return k
        k = len(self.fns)
        self.fns[k] = (fn, mod)
        return k

    # ---- one step ---------------------------------------------------------------------------------------------
    def step(self, s):
        """-> list of (label, next state or None when finished, ast node)"""
        if s[0] == "halt":
            self.facts = s[2]
            return [(self.client.raise_event(s[1], self), None, None)]
        stack, env, facts, excs = s
        fnid, pc, fid, ret, handler = stack[-1]
        fn, mod = self.fns[fnid]
        self.mod, self.fn, self.facts, self.env = mod, fn, facts, env
        code = self.lower(fn)
        e = dict(env)
        ins = code[pc]
        op = ins[0]

        def nextst(newpc, e2=None, f2=None, ex2=None, stack2=None):
            st2 = stack2 if stack2 is not None else stack[:-1] + ((fnid, newpc, fid, ret, handler),)
            return (st2, frozenset((e2 if e2 is not None else e).items()), f2 if f2 is not None else facts, ex2 if ex2 is not None else excs)

        def take(t):
            return e.pop((fid, t), ("top",)) if t.startswith("%") and t[1:].isdigit() else e.get((fid, t), ("top",))

        def peek(t):
            return e.get((fid, t), ("top",))

        def put(t, v):
            e[(fid, t)] = cut(v)

        def lab(l):
            return l[0]
        if op == "const":
            put(ins[1], ("const", ins[2]))
            return [(None, nextst(pc + 1), None)]
        if op in ("nop", "loop"):
            return [(None, nextst(pc + 1), None)]
        if op == "drop":
            take(ins[1])
            return [(None, nextst(pc + 1), None)]
        if op == "load":
            r = self.client.load(ins[2], self, e, fid)
            if isinstance(r, list):
                out = []
                for ev, term, fact in r:
                    f2 = frozenset(f for f in facts if not any(x == term for x in subterms(f[0])))
                    if fact is not None:
                        f2 = f2 | {fact}
                    put(ins[1], term)
                    out.append((ev, nextst(pc + 1, f2=f2), ins[3]))
                e.pop((fid, ins[1]), None)
                for ev, exc in self.client.load_raises(ins[2]):
                    for l, nx, nd in self.throw((stack, frozenset(e.items()), facts, excs), exc, ins[4] if len(ins) > 4 else None, ins[3]):
                        out.append((ev, nx, nd))
                return out
            if r is not None:
                put(ins[1], r[1])
                return [(r[0], nextst(pc + 1), ins[3])]
            put(ins[1], self.loadname(e, fid, fnid, ins[2]))
            return [(None, nextst(pc + 1), None)]
        if op == "store":
            e[(fid, ins[1])] = take(ins[2])
            return [(None, nextst(pc + 1), None)]
        if op == "attr":
            o = take(ins[2])
            put(ins[1], self.attr(e, o, ins[3]))
            return [(self.client.attr_event(o, ins[3], self), nextst(pc + 1), None)]
        if op == "setattr":
            v = take(ins[3])
            o = take(ins[1])
            e[("heap", o, ins[2])] = v
            f2 = frozenset(f for f in facts if not any(x == ("attr", o, ins[2]) for x in subterms(f[0])))
            ev = self.client.setattr_event(o, ins[2], v, self)
            return [(ev, nextst(pc + 1, f2=f2), ins[4])]
        if op in ("setitem", "delitem"):
            if op == "setitem":
                v = take(ins[3])
            i = take(ins[2])
            o = take(ins[1])
            h = ins[-1]
            node = ins[4] if op == "setitem" else ins[3]
            if op == "setitem":
                ev = self.client.setitem_event(o, i, v, self)
            else:
                ev = self.client.delitem_event(o, i, self)
            f2 = frozenset(f for f in facts if not any(x == ("item", o, i) or isinstance(x, tuple) and x[:2] == ("op", "in") and o in x for x in subterms(f[0])))
            lens = [("call", ("global", "len"), (o,)), ("op", "nonempty", o)]
            f2 = frozenset(f for f in f2 if not any(x in lens for x in subterms(f[0])))
            if op == "setitem" and self.client.track_dicts and self.growdict(e, fid, o, ((i, v),)):
                pass
            elif op == "setitem":
                e[("item", o, i)] = v
            else:
                e.pop(("item", o, i), None)
            out = [(ev, nextst(pc + 1, f2=f2), node)]
            if op == "delitem" and self.client.subscript_raises(o, i, self):
                out.extend(self.throw(s, ("new", ("global", "KeyError"), ()), h, node))
            return out
        if op == "item":
            i = take(ins[3])
            o = take(ins[2])
            put(ins[1], self.item(e, o, i))
            out = [(self.client.item_event(o, i, self), nextst(pc + 1), None)]
            rz = self.client.subscript_raises(o, i, self)
            if rz:
                if rz == "always":      # a key that is not there
                    out = []
                out.extend(self.throw(s, ("new", ("global", "KeyError" if rz == "always" else "LookupError"), ()), ins[5], ins[4]))
            return out
        if op == "same":
            put(ins[1], peek(ins[2]))
            return [(None, nextst(pc + 1), None)]
        if op == "unpack":
            v = peek(ins[2])
            put(ins[1], self.item(e, v, ("const", ins[3])))
            return [(None, nextst(pc + 1), None)]
        if op == "op":
            vals = [take(t) for t in ins[3]]
            put(ins[1], self.mkop(ins[2], vals))
            return [(None, nextst(pc + 1), None)]
        if op == "comp":
            u, acc = take(ins[2]), peek(ins[3])
            known = all(peek(it)[:1] == ("iterover",) and peek(it)[1][:1] == ("tuple",) for it in ins[4])
            put(ins[1], acc + (u,) if known and acc[0] == "tuple" else ("op", "comp", u))
            return [(None, nextst(pc + 1), None)]
        if op == "seq":
            vals = [take(t) for t in ins[2]]
            put(ins[1], ("tuple",) + tuple(vals))
            return [(None, nextst(pc + 1), None)]
        if op == "cmp":
            b = take(ins[4])
            a = take(ins[3])
            put(ins[1], self.mkcmp(ins[2], a, b))
            return [(self.client.cmp_event(ins[2], a, b, self), nextst(pc + 1), None)]
        if op == "fn":
            put(ins[1], ("fn", self.reg(ins[2], mod), fid))
            return [(None, nextst(pc + 1), None)]
        if op == "jmp":
            return [(None, nextst(lab(ins[1])), None)]
        if op == "br":
            t = take(ins[1])
            neg = False
            while isinstance(t, tuple) and t[:2] == ("op", "not"):
                t, neg = t[2], not neg
            tv = self.truth(t, facts)
            out = []
            for pol in (True, False):
                if tv is not None and tv != pol:
                    continue
                want = pol != neg
                f2 = facts | {(t, pol)} if tv is None and self.memo(t) else facts
                evl = self.client.branch(t, pol, self) if tv is None else None
                out.append((evl, nextst(lab(ins[2]) if want else lab(ins[3]), f2=f2), ins[4]))
            return out
        if op == "iter":
            put(ins[1], ("iterover", self.spread(self.strip(take(ins[2])))))
            e.pop((fid, ins[1] + "#"), None)
            return [(None, nextst(pc + 1), None)]
        if op == "next":
            it = peek(ins[2])
            src = it[1] if it[0] == "iterover" else it
            node = ins[5]
            ent = (fid, ins[2] + "#")
            if src[0] == "tuple":
                k = e.get(ent, ("const", 0))[1]
                if k < len(src) - 1:
                    e[ent] = ("const", k + 1)
                    put(ins[1], src[1 + k])
                    return [(None, nextst(lab(ins[3])), None)]
                e.pop(ent, None)
                return [(None, nextst(lab(ins[4])), None)]
            x = self.elem(src)
            xs = x[1:] if x[0] == "tuple" else (x,)
            f2 = frozenset(f for f in facts if not any(y in xs or y == x or isinstance(y, tuple) and y[:1] == ("elem",) and y[1] == src for y in subterms(f[0])))
            e2 = {k: v for k, v in e.items() if not (k[0] == "item" and any(y == x or y in xs for y in subterms(k)))}
            e2[(fid, ins[1])] = x
            return [(self.client.iter_event(src, self), nextst(lab(ins[3]), e2=e2, f2=f2), node), (None, nextst(lab(ins[4]), f2=f2), None)]
        if op == "ret":
            v = take(ins[1])
            if len(stack) == 1:
                return [(self.client.ret_event(v, self), None, fn)]
            e2 = {k: x for k, x in e.items() if k[0] != fid or self.captured(fid, v)}
            cfn, cpc, cfid, cret, chand = stack[-2]
            e2[(cfid, ret)] = cut(v)
            return [(None, nextst(0, e2=e2, stack2=stack[:-2] + ((cfn, cpc, cfid, cret, chand),)), None)]
        if op == "raise":
            t = take(ins[1])
            return self.throw((stack, frozenset(e.items()), facts, excs), t, ins[2], ins[3])
        if op == "reraise":
            t = excs[-1] if excs else ("exc", "unknown")
            return self.throw((stack, frozenset(e.items()), facts, excs), t, ins[1], ins[2], reraise=True)
        if op == "exc":
            put(ins[1], excs[-1] if excs else ("exc", "unknown"))
            return [(None, nextst(pc + 1), None)]
        if op == "match":
            t = excs[-1] if excs else ("exc", "unknown")
            r = self.matches(t, ins[1], mod)
            out = []
            if r is not False:
                out.append((None, nextst(lab(ins[2])), None))
            if r is not True:
                out.append((None, nextst(lab(ins[3])), None))
            return out
        if op == "enter_handler":
            return [(None, nextst(pc + 1), None)]
        if op == "leave_handler":
            return [(None, nextst(pc + 1, ex2=excs[:-1]), None)]
        if op in ("withenter", "withexit"):
            o = peek(ins[1])
            ev = self.client.with_event(o, op == "withenter", self)
            return [(ev, nextst(pc + 1), ins[2])]
        if op == "call":
            kws = tuple((k, take(v)) for k, v in reversed(ins[4]))[::-1]
            args = tuple([take(a) for a in reversed(ins[3])][::-1])
            callee = take(ins[2])
            return self.call(s, e, nextst, put, ins, callee, args, kws)
        raise AnalysisBroken("unhandled instruction " + op)

    def memo(self, t):
        return True

    def captured(self, fid, v):
        return any(isinstance(x, tuple) and x[:1] == ("fn",) and len(x) == 3 and x[2] == fid for x in subterms(v))

    def loadname(self, e, fid, fnid, name):
        if (fid, name) in e:
            return e[(fid, name)]
        f = fid
        # enclosing activations of closures
        while isinstance(f, tuple) and len(f) == 3 and f[0] == "act":
            f = f[2]
            if (f, name) in e:
                return e[(f, name)]
        if name in ("True", "False", "None"):
            return ("const", {"True": True, "False": False, "None": None}[name])
        return ("global", name)

    def attr(self, e, o, name):
        k = ("heap", o, name)
        if k in e:
            return e[k]
        v = self.client.attr_value(o, name, self)
        if v is not None:
            return v
        return ("attr", o, name)

    def spread(self, t):
        """zip and enumerate of known sequences."""
        if t[0] == "call" and t[1] in (("global", "zip"), ("global", "enumerate")) and t[2] and not any(x[0] == "kw" for x in t[2]):
            xs = [self.strip(x) for x in t[2]]
            if all(x[0] == "tuple" for x in xs):
                if t[1][1] == "zip":
                    return ("tuple",) + tuple(("tuple",) + r for r in zip(*[x[1:] for x in xs]))
                if len(xs) == 1:
                    return ("tuple",) + tuple(("tuple", ("const", i), x) for i, x in enumerate(xs[0][1:]))
        return t

    def strip(self, t):
        while isinstance(t, tuple) and t[0] == "call" and t[1] in (("global", "list"), ("global", "tuple"), ("global", "iter")) and len(t[2]) == 1:
            t = t[2][0]
        return t

    def elem(self, src):
        if src[0] == "call" and src[1] == ("global", "enumerate") and src[2]:
            return ("tuple", ("index", self.strip(src[2][0])), self.elem(self.strip(src[2][0])))
        if src[0] == "call" and src[1] == ("global", "zip"):
            return ("tuple",) + tuple(self.elem(self.strip(x)) for x in src[2])
        if src[0] == "call" and isinstance(src[1], tuple) and src[1][0] == "attr" and src[1][2] == "items":
            return ("tuple", ("key", src[1][1]), ("elem", ("call", ("attr", src[1][1], "values"), ())))
        if src[0] == "call" and isinstance(src[1], tuple) and src[1][0] == "attr" and src[1][2] == "keys":
            return ("key", src[1][1])
        return ("elem", src)

    def item(self, e, o, i):
        k = ("item", o, i)
        if k in e:
            return e[k]
        if o[0] == "tuple" and i[0] == "const" and isinstance(i[1], int) and -len(o) < i[1] < len(o) - 1:
            return o[1:][i[1]]
        if i[0] == "key" and i[1] == o:
            return ("elem", ("call", ("attr", o, "values"), ()))
        return ("item", o, i)

    def mkop(self, name, vals):
        if name == "not":
            return mknot(vals[0])
        if name == "USub" and vals[0][0] == "const" and isinstance(vals[0][1], (int, float)):
            return ("const", -vals[0][1])
        if name in ("Add", "Sub", "Mult") and all(v[0] == "const" for v in vals) and all(isinstance(v[1], (int, str)) for v in vals):
            try:
                a, b = vals[0][1], vals[1][1]
                return ("const", a + b if name == "Add" else a - b if name == "Sub" else a * b)
            except TypeError:
                pass
        if name == "Add" and all(v[0] == "tuple" for v in vals):
            return vals[0] + vals[1][1:]
        if name == "comp":
            return ("op", "comp", vals[0])
        return ("op", name) + tuple(vals)

    def mkcmp(self, name, a, b):
        def islen(t):
            return t[0] == "call" and t[1] == ("global", "len") and len(t[2]) == 1
        if name in ("NotEq", "IsNot", "NotIn"):
            return mknot(self.mkcmp({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[name], a, b))
        if name in ("Gt", "GtE"):
            return self.mkcmp({"Gt": "Lt", "GtE": "LtE"}[name], b, a)
        if a[0] == "const" and b[0] == "const":
            try:
                x, y = a[1], b[1]
                r = {"Eq": lambda: x == y, "Is": lambda: x is y or (x == y and isinstance(x, (bool, type(None), int, str))), "Lt": lambda: x < y, "LtE": lambda: x <= y,
                     "In": lambda: x in y}[name]()
                return ("const", r)
            except TypeError:
                pass
        if name == "Eq" and islen(a) and b == ("const", 0):
            return mknot(("op", "nonempty", a[2][0]))
        if name == "Eq" and islen(b) and a == ("const", 0):
            return mknot(("op", "nonempty", b[2][0]))
        if name == "Lt" and a == ("const", 0) and islen(b):
            return ("op", "nonempty", b[2][0])
        if name == "Lt" and islen(a) and b == ("const", 1):
            return mknot(("op", "nonempty", a[2][0]))
        if name == "LtE" and a == ("const", 1) and islen(b):
            return ("op", "nonempty", b[2][0])
        if name in ("Eq", "Is") and b[0] != "const" and a[0] == "const":
            a, b = b, a
        if name == "Is" and b == ("const", None) and (a[0] in ("new", "tuple", "fn") or a == ("self",)):
            return ("const", False)
        if name == "In" and b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys":
            b = b[1][1]
        if name == "In" and b[0] == "tuple" and all(x[0] == "const" for x in b[1:]) and a[0] == "const":
            return ("const", a in b[1:])
        return ("op", {"Eq": "==", "Is": "is", "Lt": "<", "LtE": "<=", "In": "in"}.get(name, name), a, b)

    def truth(self, t, facts):
        d = self.client.decide(t, self)
        if d is not None:
            return d
        for f, v in facts:
            if f == t:
                return v
        k = t[0]
        if k == "const":
            return bool(t[1])
        if k == "tuple":
            return len(t) > 1
        if k in ("new", "fn"):
            return True
        if t[:2] == ("op", "nonempty") and t[2][0] == "tuple":
            return len(t[2]) > 1
        if t[:2] == ("op", "is") and t[3] == ("const", None):
            for f, v in facts:
                if f == t[2] and v is True:
                    return False
        return None

    # ---- exceptions -------------------------------------------------------------------------------------------
    def throw(self, s, t, handler, node, reraise=False):
        stack, env, facts, excs = s
        if reraise and excs:
            excs = excs[:-1]
        fnid, pc, fid, ret, hd = stack[-1]
        if handler is not None:
            st2 = stack[:-1] + ((fnid, handler[0], fid, ret, hd),)
            return [(None, (st2, env, facts, excs + (t,)), node)]
        # propagate to callers
        st = stack
        e = dict(env)
        while True:
            fnid, pc, fid, ret, hd = st[-1]
            for k in [k for k in e if k[0] == fid]:
                del e[k]
            st = st[:-1]
            if not st:
                return [(None, ("halt", t, facts), node)]
            if hd is not None:
                a, b, c, d, g = st[-1]
                st2 = st[:-1] + ((a, hd[0], c, d, g),)
                return [(None, (st2, frozenset(e.items()), facts, excs + (t,)), node)]

    def matches(self, t, typ, mod):
        """True / False / None (may)."""
        if typ is None:
            return True
        names = [ast.unparse(x) for x in (typ.elts if isinstance(typ, ast.Tuple) else [typ])]
        if "BaseException" in names:
            return True
        if t[0] == "new" or t[0] == "call":
            c = t[1]
            cn = c[1] if c[0] == "global" else c[2] if c[0] == "attr" else None
            if cn is not None:
                if "Exception" in names:
                    return True
                if cn in names or cn in [n.split(".")[-1] for n in names]:
                    return True
                fam = {"LookupError": ("KeyError", "IndexError")}
                for n in names:
                    if n in fam.get(cn, ()):
                        return None
                    if cn in fam.get(n, ()):
                        return True
                r = self.proj.lookup(mod, cn)
                return self.subclass(r, names, mod)
        if "Exception" in names:
            return True
        return None

    def subclass(self, r, names, mod):
        from .proj import ClassInfo
        ci = r[1] if isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], ClassInfo) else r if isinstance(r, ClassInfo) else None
        if ci is None:
            return False
        anc = set()
        for k in self.proj.mro(ci):
            anc.add(k.name)
            for b in k.node.bases:
                anc.add(ast.unparse(b).split(".")[-1])
        return any(n.split(".")[-1] in anc for n in names)

    # ---- calls ------------------------------------------------------------------------------------------------
    def call(self, s, e, nextst, put, ins, callee, args, kws):
        stack, env, facts, excs = s
        fnid, pc, fid, ret, hd = stack[-1]
        fn, mod = self.fns[fnid]
        dst, handler, node = ins[1], tuple(ins[5]) if ins[5] is not None else None, ins[6]
        tgt = self.client.resolve_call(self, callee, args, kws)
        if tgt is None and callee[0] == "fn":
            f2, m2 = self.fns[callee[1]]
            tgt = (f2, m2, None)
        if tgt is None and callee[0] == "global":
            r = self.proj.lookup(mod, callee[1])
            f2 = self.fnof(r)
            if f2 is not None and self.client.inline(f2[0], f2[1]):
                tgt = (f2[0], f2[1], None)
        if tgt is not None and len(stack) < 8 and not any(self.fns[x[0]][0] is tgt[0] for x in stack):
            f2, m2, selft = tgt
            parent = callee[2] if callee[0] == "fn" else None
            nfid = ("act", (fid if not isinstance(fid, tuple) or len(stack) < 4 else ("deep",), node.lineno, node.col_offset), parent)
            k = self.reg(f2, m2)
            names = [a.arg for a in f2.args.posonlyargs + f2.args.args]
            avs = list(args)
            if selft is not None:
                avs = [selft] + avs
            e2 = dict(e)
            for key in [x for x in e2 if x[0] == nfid]:
                del e2[key]
            ok = True
            for n, v in zip(names, avs):
                e2[(nfid, n)] = v
            for kk, v in kws:
                if kk is None:
                    ok = False
                e2[(nfid, kk)] = v
            nd = len(f2.args.defaults)
            for j, n in enumerate(names):
                if (nfid, n) not in e2:
                    d = j - (len(names) - nd)
                    if d >= 0 and isinstance(f2.args.defaults[d], ast.Constant):
                        e2[(nfid, n)] = ("const", f2.args.defaults[d].value)
                    else:
                        e2[(nfid, n)] = ("top",)
            if f2.args.vararg is not None:
                e2[(nfid, f2.args.vararg.arg)] = ("tuple",) + tuple(avs[len(names):])
            if f2.args.kwarg is not None:
                e2[(nfid, f2.args.kwarg.arg)] = ("top",)
            if ok:
                st2 = stack[:-1] + ((fnid, pc + 1, fid, ret, hd), (k, 0, nfid, dst, handler))
                return [(None, (st2, frozenset(e2.items()), facts, excs), node)]
        if callee[0] == "global" and callee[1] == "getattr" and len(args) == 2 and args[1][0] == "const":
            put(dst, self.attr(e, args[0], args[1][1]))
            return [(None, nextst(pc + 1), node)]
        if callee[0] == "global" and self.isclass(mod, callee[1]):
            res = ("new", callee, args + tuple(("kw", k, v) for k, v in kws))
        else:
            res = ("call", callee, args + tuple(("kw", k, v) for k, v in kws))
        if callee[0] == "global" and callee[1] in ("list", "tuple", "iter") and len(args) == 1 and args[0][0] == "tuple":
            res = args[0]
        if callee[0] == "attr" and not args and callee[2] in ("items", "keys", "values", "iteritems", "itervalues") and callee[1][:2] == ("op", "dict"):
            prs = callee[1][2:]
            prs = [prs[i:i + 2] for i in range(0, len(prs), 2)]
            res = ("tuple",) + tuple(("tuple",) + tuple(p) if "items" in callee[2] else p[0] if callee[2] == "keys" else p[1] for p in prs)
        if callee[0] == "global" and callee[1] in STABLE:
            f2 = facts
        else:
            f2 = frozenset(f for f in facts if not any(x == res for x in subterms(f[0])))
        # methods that change a container invalidate facts about it
        if callee[0] == "attr" and callee[2] in ("append", "add", "pop", "remove", "update", "clear", "insert", "setdefault", "discard", "popitem", "extend"):
            f2 = frozenset(f for f in f2 if not any(x == callee[1] for x in subterms(f[0])))
        ev = self.client.event(callee, args, dict(kws), self)
        if self.client.track_dicts and callee[0] == "attr" and callee[2] == "update" and len(args) == 1 and args[0][:2] == ("op", "dict"):
            self.growdict(e, fid, callee[1], tuple(args[0][i:i + 2] for i in range(2, len(args[0]), 2)))
        self.client.call_effect(callee, args, kws, e, self)
        put(dst, res)
        out = [(ev, nextst(pc + 1, f2=f2), node)]
        self.kws = dict(kws)
        rz = self.client.raises(callee, args, self)
        if rz:
            # the event has happened, then the call raised
            mid = out[0][1]
            thrown = self.throw((stack, frozenset(dict((k, v) for k, v in e.items() if k != (fid, dst)).items()), facts, excs),
                                rz if isinstance(rz, tuple) else ("exc", callee), handler, node)
            if self.client.must_raise(callee, args, self):
                out = []
            for l, nx, nd in thrown:
                out.append((("raised", ev) if ev is not None else None, nx, nd))
        return out

    def growdict(self, e, fid, o, prs):
        """A dict literal held by one local variable gets new entries: the variable now holds the grown literal."""
        if o[:2] != ("op", "dict") or any(k[0] != "const" for k, v in prs):
            return False
        names = [k for k, v in e.items() if k[0] == fid and isinstance(k[1], str) and not k[1].startswith("%") and v == o]
        if len(names) != 1:
            return False
        d = [list(o[i:i + 2]) for i in range(2, len(o), 2)]
        for k, v in prs:
            for q in d:
                if q[0] == k:
                    q[1] = v
                    break
            else:
                d.append([k, v])
        e[names[0]] = ("op", "dict") + tuple(x for q in d for x in q)
        return True

    def isclass(self, mod, name):
        from .proj import ClassInfo
        r = self.proj.lookup(mod, name)
        if isinstance(r, ClassInfo) or isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], ClassInfo):
            return True
        return name.endswith("Error") or name.endswith("Exception")

    def fnof(self, r):
        if isinstance(r, tuple):
            for x in r:
                if isinstance(x, (ast.FunctionDef,)):
                    m = [y for y in r if hasattr(y, "tree")]
                    return x, (m[0] if m else self.mod)
        if isinstance(r, ast.FunctionDef):
            return r, self.mod
        return None
