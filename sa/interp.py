"""Abstract interpreter over Python syntax trees.

Domain: a value is a finite set of abstract objects (access paths of the inputs, allocation sites, functions, classes,
constants, opaque results carrying the set of inputs they were computed from).  Variables are updated strongly, the
heap weakly; branches are joined; loops run to a bounded fixpoint with widening; project functions are inlined with a
recursion cut-off, so extracting a helper, reordering statements or rewriting a loop does not change the result.
No path condition is ever handed to a solver and no code under analysis is run."""
import ast
from .proj import ClassInfo, AnalysisBroken

EMPTY = frozenset()
MAXVAL = 80
MAXPATH = 7


class Obj(object):
    __slots__ = ("_h",)


def _mk(name, fields):
    def __init__(self, *a):
        for f, v in zip(fields, a):
            object.__setattr__(self, f, v)
        object.__setattr__(self, "_h", hash((name,) + a))

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._h == o._h and
                             all(getattr(self, f) == getattr(o, f) for f in fields))

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s(%s)" % (name, ", ".join(repr(getattr(self, f)) for f in fields))
    return type(name, (Obj,), {"__slots__": tuple(fields), "__init__": __init__, "__eq__": __eq__,
                               "__hash__": __hash__, "__repr__": __repr__, "__ne__": lambda s, o: not s == o})


Sym = _mk("Sym", ("root", "path", "kind"))         # an input / unknown object named by an access path
Alloc = _mk("Alloc", ("site", "typ", "cls"))       # object created by the analysed code
Res = _mk("Res", ("op", "srcs"))                   # opaque computed value
Fn = _mk("Fn", ("node", "mod", "cls", "frame", "self_"))
Cls = _mk("Cls", ("ci",))
Mod = _mk("Mod", ("name",))
Ext = _mk("Ext", ("qual", "recv"))                 # external function/class/attr; recv: Val or None
_Const = _mk("Const", ("t", "v"))


def Const(v):
    return _Const(type(v).__name__, v)


def V(*objs):
    return frozenset(objs)


NONE = V(Const(None))
TRUE = V(Const(True))
FALSE = V(Const(False))


def symstr(o):
    if isinstance(o, Sym):
        s = o.root if isinstance(o.root, str) else _rootstr(o.root)
        for p in o.path:
            s += p if p.startswith("[") else "." + p
        return s
    if isinstance(o, _Const):
        return repr(o.v)
    if isinstance(o, Alloc):
        return "new %s@%s" % (o.cls.name if o.cls else o.typ, o.site[1])
    if isinstance(o, Res):
        return "%s(%s)" % (o.op, ",".join(sorted(symstr(x) for x in o.srcs)[:4]))
    if isinstance(o, Fn):
        return "fn:" + getattr(o.node, "name", "<lambda>")
    if isinstance(o, Cls):
        return "class:" + o.ci.name
    if isinstance(o, Mod):
        return "module:" + o.name
    if isinstance(o, Ext):
        return "ext:" + o.qual
    return repr(o)


def _rootstr(r):
    if isinstance(r, tuple):
        return "<" + " ".join(str(x) for x in r if isinstance(x, (str, int))) + ">"
    return str(r)


# ---- kinds (declared types of inputs)
def kind_child(kind, field):
    if kind is None:
        return None
    t = kind[0]
    if t in ("array", "map") and field.startswith("["):
        return kind[1]
    if t == "record" and field.startswith("["):
        for k, v in kind[1]:
            if field == "[" + repr(k) + "]":
                return v
        return None
    if t == "scalar":
        return kind
    return None


class State(object):
    __slots__ = ("vars", "heap", "aux")

    def __init__(self, vars=None, heap=None, aux=None):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.aux = aux if aux is not None else {}

    def copy(self):
        return State(dict(self.vars), dict(self.heap), dict(self.aux))

    def same(self, o):
        return self.vars == o.vars and self.heap == o.heap and self.aux == o.aux


_YES = frozenset([Const(True)])


def joinval(a, b):
    if a is b or a == b:
        return a
    return a | b


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = State(dict(a.vars), dict(a.heap), dict(a.aux))
    for k, v in b.vars.items():
        w = a.vars.get(k)
        if w is None:
            out.vars[k] = v
        elif w is not v and w != v:
            out.vars[k] = w | v
    for o, d in b.heap.items():
        e = a.heap.get(o)
        if e is None:
            out.heap[o] = d
        elif e is not d:
            m = None
            for f, v in d.items():
                w = e.get(f)
                if w is None or (w is not v and not v <= w):
                    if m is None:
                        m = dict(e)
                    m[f] = v if w is None else w | v
            if getattr(o, "typ", None) == "dict" and "#maybe" not in e and set(f for f in e if f.__class__ is tuple and f[0] == "k") != set(f for f in d if f.__class__ is tuple and f[0] == "k"):
                if m is None:
                    m = dict(e)
                m["#maybe"] = d.get("#maybe") or _YES
            if m is not None:
                out.heap[o] = m
    for k, v in b.aux.items():
        w = a.aux.get(k)
        if w is None:
            out.aux[k] = v
        elif w != v:
            out.aux[k] = w | v
    return out


def join_must(a, b, keys):
    return join(a, b)


class Unreach(Exception):
    """Evaluation cannot complete normally (the current state is bottom)."""


class FrameInfo(object):
    """Static part of an activation."""
    _n = 0

    def __init__(self, fn, parent, mod, cls, callnode, depth):
        FrameInfo._n += 1
        self.id = None
        self.fn, self.parent, self.mod, self.cls, self.callnode, self.depth = fn, parent, mod, cls, callnode, depth
        self.returns = None
        self.retval = EMPTY
        self.loops = []
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = EMPTY
        self.isgen = False
        self.locals_ = set()


_localcache = {}


def local_names(fn):
    if fn in _localcache:
        return _localcache[fn]
    out, glob, nonl, gen = set(), set(), set(), [False]

    def walk(n, top):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                out.add(ch.name)
                for d in ch.decorator_list:
                    walk(d, False)
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                out.add(ch.id)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(ch, ast.Global):
                glob.update(ch.names)
            elif isinstance(ch, ast.Nonlocal):
                nonl.update(ch.names)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            walk(ch, False)
    if isinstance(fn, ast.Lambda):
        walk(fn.body, True)
        if isinstance(fn.body, ast.Name) and isinstance(fn.body.ctx, ast.Store):
            out.add(fn.body.id)
    else:
        for s in fn.body:
            class W(object):
                pass
            wrapper = ast.Module(body=[s], type_ignores=[])
            walk(wrapper, True)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    _localcache[fn] = (out - glob - nonl, glob, nonl, gen[0])
    return _localcache[fn]


# external callables that return a new container holding the elements of their arguments
COPY_FUNCS = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "set", "sorted": "list", "dict": "dict",
              "reversed": "iter", "iter": "iter", "copy.copy": "copy", "collections.OrderedDict": "dict",
              "filter": "iter", "itertools.chain": "iter", "chain": "iter"}
LIST_MUT = {"append": 1, "extend": 1, "insert": 1, "remove": 1, "pop": 1, "popitem": 1, "clear": 1, "update": 1,
            "setdefault": 1, "sort": 1, "reverse": 1, "add": 1, "discard": 1, "__setitem__": 1, "__delitem__": 1,
            "fill": 1, "put": 1, "resize": 1, "itemset": 1, "partition": 1, "setfield": 1, "setflags": 1,
            "appendleft": 1, "extendleft": 1, "popleft": 1, "rotate": 1, "intersection_update": 1,
            "difference_update": 1, "symmetric_difference_update": 1, "__iadd__": 1, "move_to_end": 1, "subtract": 1,
            "byteswap": 1, "__setattr__": 1, "__delattr__": 1}
# external functions that mutate their n-th positional argument
EXT_MUT = {"random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "heapq.heapreplace": 0,
           "heapq.heappushpop": 0, "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0,
           "setattr": 0, "delattr": 0, "operator.setitem": 0, "operator.delitem": 0, "operator.iadd": 0,
           "operator.iconcat": 0,
           "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0, "numpy.putmask": 0,
           "numpy.random.shuffle": 0, "list.sort": 0, "list.append": 0, "list.extend": 0, "list.reverse": 0,
           "list.insert": 0, "list.pop": 0, "list.remove": 0, "list.clear": 0, "list.__setitem__": 0,
           "dict.update": 0, "dict.pop": 0, "dict.clear": 0, "dict.setdefault": 0, "dict.popitem": 0,
           "dict.__setitem__": 0, "set.add": 0, "set.discard": 0, "set.update": 0, "set.remove": 0}
ELEM_METHODS = {"get", "pop", "popitem", "setdefault", "next", "__next__", "__getitem__", "popleft"}
FRESH_METHODS = {"copy": "copy", "keys": "iter", "values": "iter", "items": "items", "tolist": "list",
                 "union": "set", "intersection": "set", "difference": "set", "symmetric_difference": "set",
                 "most_common": "list"}


class Interp(object):
    MAXDEPTH = 14
    LOOPITER = 4
    RECURSION = 1
    opaque_mods = frozenset()     # modules whose functions are summarised instead of inlined

    def __init__(self, proj):
        self.proj = proj
        self.st = State()
        self.frames = []
        self.guards = []
        self.trys = []
        self.steps = 0
        self.maxsteps = 400000
        self._frameids = {}
        self._frameinfo = {}
        self._purecache = {}

    # ---- hooks ------------------------------------------------------------------------------------------------
    def on_mutate(self, node, val, how):
        pass

    def on_call(self, node, obj, args, kwargs):
        """Called for each callee object; return a Val to override."""
        return None

    def on_ext(self, node, qual, recv, args, kwargs):
        return None

    def on_raise(self, node, val):
        pass

    def on_return(self, node, val):
        pass

    def on_load_attr(self, node, obj, name):
        return None

    def on_store(self, node, obj, field, val):
        pass

    def on_subscript(self, node, obj, idx):
        return None

    def on_stmt(self, node):
        pass

    def on_global_write(self, node, mod, name):
        pass

    def on_binop(self, node, op, left, right):
        return None

    # ---- helpers ----------------------------------------------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def where(self, node):
        return self.proj.where(node, self.fr.mod)

    def stack_desc(self):
        return " <- ".join(self.proj.funcqual(f.fn) for f in reversed(self.frames) if f.fn is not None)

    def site(self, node, extra=None):
        ctx = tuple((f.callnode.lineno, f.callnode.col_offset) for f in self.frames[1:] if f.callnode is not None)
        return (self.fr.mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), ctx[-4:], extra)

    def alloc(self, node, typ, cls=None, extra=None):
        return Alloc(self.site(node, extra), typ, cls)

    def srcs(self, val, _seen=None):
        """Leaf inputs a value was computed from (through containers)."""
        out = set()
        seen = _seen if _seen is not None else set()
        work = list(val)
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            if isinstance(o, Res):
                out |= o.srcs
            elif isinstance(o, Sym):
                out.add(o)
            elif isinstance(o, Alloc):
                for f, v in list(self.fields(o).items()):
                    if True:
                        work.extend(v)
            elif isinstance(o, Ext) and o.recv is not None:
                work.extend(o.recv)
            elif isinstance(o, _Const):
                pass
        return frozenset(out)

    def res(self, op, *vals):
        s = set()
        for v in vals:
            s |= self.srcs(v)
        if len(s) > 60:
            # collapse to roots
            s = set(Sym(o.root, o.path[:1], None) for o in s)
        return V(Res(op, frozenset(s)))

    def limit(self, val):
        if len(val) > MAXVAL:
            return self.res("top", val)
        return val

    def fields(self, o):
        return self.st.heap.get(o) or {}

    def hget(self, o, f):
        d = self.st.heap.get(o)
        return d.get(f) if d is not None else None

    def hadd(self, o, f, val):
        d = self.st.heap.get(o)
        if d is None:
            self.st.heap[o] = {f: val}
            return
        w = d.get(f)
        if w is not None:
            if val <= w:
                return
            val = self.limit(w | val)
        d = dict(d)
        d[f] = val
        self.st.heap[o] = d

    def hset(self, o, f, val):
        d = dict(self.st.heap.get(o) or {})
        d[f] = val
        self.st.heap[o] = d

    def elems(self, val):
        """Values obtained by iterating over / indexing into val."""
        out = set()
        for o in val:
            if isinstance(o, Alloc):
                if o.typ in ("dict",):
                    v = self.hget(o, "keys")
                    if v:
                        out |= v
                    continue
                for f, v in list(self.fields(o).items()):
                    if (f == "[]" or (isinstance(f, tuple) and f[0] == "i")):
                        out |= v
            elif isinstance(o, Sym):
                if o.kind is not None and o.kind[0] == "map" or (o.kind is not None and o.kind[0] == "record"):
                    out.add(self.child(o, "[key]", ("scalar",)))
                else:
                    out.add(self.child(o, "[]"))
                v = self.hget(o, "[]")
                if v:
                    out |= v
            elif isinstance(o, Res):
                out.add(Res("elem", o.srcs))
            elif isinstance(o, _Const):
                if isinstance(o.v, str):
                    out.add(Res("char", EMPTY))
                elif isinstance(o.v, tuple):
                    for x in o.v:
                        out.add(Const(x))
            elif isinstance(o, Ext):
                out.add(Res("elem", EMPTY))
            else:
                out.add(Res("elem", EMPTY))
        return frozenset(out)

    def values(self, val):
        """Values stored in a mapping."""
        out = set()
        for o in val:
            if isinstance(o, Alloc):
                for f, v in list(self.fields(o).items()):
                    if (f == "[]" or (isinstance(f, tuple) and f[0] in ("i", "k"))):
                        out |= v
            elif isinstance(o, Sym):
                out.add(self.child(o, "[]"))
                for f, v in list(self.fields(o).items()):
                    if (f == "[]" or (isinstance(f, tuple) and f[0] in ("i", "k"))):
                        out |= v
            elif isinstance(o, Res):
                out.add(Res("elem", o.srcs))
            else:
                out.add(Res("elem", EMPTY))
        return frozenset(out)

    def child(self, o, field, kind=None):
        if len(o.path) >= MAXPATH:
            if o.path and o.path[-1] == "[*]":
                return o
            return Sym(o.root, o.path[:MAXPATH - 1] + ("[*]",), None)
        return Sym(o.root, o.path + (field,), kind if kind is not None else kind_child(o.kind, field))

    def truth(self, val):
        r = set()
        for o in val:
            if isinstance(o, _Const):
                r.add(bool(o.v))
            elif isinstance(o, (Fn, Cls, Mod)):
                r.add(True)
            elif isinstance(o, Alloc) and o.typ == "inst" and not (o.cls and (self.proj.method(o.cls, "__len__") or self.proj.method(o.cls, "__bool__"))):
                r.add(True)
            else:
                return None
        if len(r) == 1:
            return r.pop()
        return None

    # ---- program entry ----------------------------------------------------------------------------------------
    def module_frame(self, mod):
        key = ("module", mod.name)
        fi = self._frameinfo.get(key)
        if fi is None:
            fi = FrameInfo(None, None, mod, None, None, 0)
            fi.id = key
            self._frameinfo[key] = fi
        return fi

    def run(self, fnobj, args, kwargs=None, state=None):
        """Analyse a function from a fresh stack.  Returns its value, or None if it never returns normally."""
        self.st = state if state is not None else State()
        self.frames, self.guards, self.trys = [], [], []
        self.steps = 0
        self.frames.append(self.module_frame(fnobj.mod))
        try:
            return self.call_fn(None, fnobj, list(args), dict(kwargs or {}))
        except Unreach:
            return None
        finally:
            self.frames.pop()

    # ---- functions --------------------------------------------------------------------------------------------
    def call_fn(self, node, fo, args, kwargs, star=None, dstar=None):
        fn = fo.node
        if fo.mod.name in self.opaque_mods and fo.frame is None and not (self.fr.mod.name == fo.mod.name and self.fr.fn is not None):
            return self.summary_call(node, fo, args, kwargs, star, dstar)
        depth = sum(1 for f in self.frames if f.fn is fn)
        if len(self.frames) > self.MAXDEPTH or depth > self.RECURSION or self.steps > self.maxsteps:
            return self.cutoff(node, fo, args, kwargs)
        mod = fo.mod
        fi = FrameInfo(fn, fo.frame, mod, fo.cls, node, len(self.frames))
        fi.id = ("f", id(fn), tuple((f.callnode.lineno, f.callnode.col_offset, f.mod.name) for f in self.frames if f.callnode is not None)[-5:],
                 (node.lineno, node.col_offset) if node is not None else None, depth)
        self._frameinfo[fi.id] = fi
        loc, glob, nonl, gen = local_names(fn)
        fi.locals_, fi.globals_, fi.nonlocals, fi.isgen = loc, glob, nonl, gen
        # a re-used activation id (loop bodies) starts clean
        for k in [k for k in self.st.vars if k[0] == fi.id]:
            del self.st.vars[k]
        if fo.self_ is not None:
            args = [fo.self_] + list(args)
        self.frames.append(fi)
        ng = len(self.guards)
        try:
            self.bind_args(fi, fn, args, kwargs, star, dstar)
            fi.returns = None
            if isinstance(fn, ast.Lambda):
                v = self.ev(fn.body)
                return v
            ok = True
            try:
                self.block(fn.body)
            except Unreach:
                ok = False
            if ok:
                self.do_return(fi, None, NONE)
            if fi.returns is None:
                raise Unreach()
            self.st = fi.returns
            if fi.isgen:
                a = self.alloc(fn, "iter", None, "gen")
                self.hadd(a, "[]", fi.yields)
                return V(a)
            return self.limit(fi.retval)
        finally:
            self.frames.pop()
            del self.guards[ng:]

    def summary_call(self, node, fo, args, kwargs, star, dstar):
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        if fo.self_ is not None:
            vals.append(fo.self_)
        return self.res("call:" + getattr(fo.node, "name", "<lambda>"), *vals)

    def do_return(self, fi, node, val):
        fi.retval = fi.retval | val
        fi.returns = join(fi.returns, self.st.copy())

    def cutoff(self, node, fo, args, kwargs):
        vals = list(args) + list(kwargs.values())
        if fo.self_ is not None:
            vals.append(fo.self_)
        return self.res("call:" + getattr(fo.node, "name", "<lambda>"), *vals)

    def bind_args(self, fi, fn, args, kwargs, star, dstar):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        bound = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        kw = dict(kwargs)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = bound.get(k, EMPTY) | v
            else:
                rest[k] = v
        for i, n in enumerate(names):
            if n not in bound:
                v = EMPTY
                if star is not None:
                    v = v | star
                if dstar is not None:
                    v = v | dstar
                j = i - (len(names) - ndef)
                if j >= 0:
                    v = v | self.defval(fi, a.defaults[j])
                if not v:
                    v = V(Sym(("unbound", n), (), None))
                bound[n] = v
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bound:
                v = EMPTY
                if dstar is not None:
                    v = v | dstar
                if d is not None:
                    v = v | self.defval(fi, d)
                bound[x.arg] = v or V(Sym(("unbound", x.arg), (), None))
        if a.vararg:
            al = self.alloc(fn, "tuple", None, "vararg")
            for i, v in enumerate(extra):
                self.hset(al, ("i", i), v)
            if star is not None:
                self.hset(al, "[]", star)
            bound[a.vararg.arg] = V(al)
        if a.kwarg:
            al = self.alloc(fn, "dict", None, "kwarg")
            for k, v in rest.items():
                self.hset(al, ("k", k), v)
                self.hadd(al, "keys", V(Const(k)))
            if dstar is not None:
                self.hset(al, "[]", dstar)
            bound[a.kwarg.arg] = V(al)
        for k, v in bound.items():
            self.st.vars[(fi.id, k)] = v

    def defval(self, fi, node):
        try:
            return self.ev(node)
        except Unreach:
            return NONE

    # ---- statements -------------------------------------------------------------------------------------------
    def block(self, stmts):
        ng = len(self.guards)
        try:
            for s in stmts:
                self.stmt(s)
        finally:
            del self.guards[ng:]

    def stmt(self, s):
        self.steps += 1
        if self.trys:
            t = self.trys[-1]
            t["snap"] = join(t["snap"], self.st.copy())
        self.on_stmt(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)
        if self.trys:
            t = self.trys[-1]
            t["snap"] = join(t["snap"], self.st.copy())

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        load = _as_load(s.target)
        old = self.ev(load)
        rhs = self.ev(s.value)
        self.augmut(s, old, rhs)
        new = self.binop(s, type(s.op).__name__, old, rhs)
        if any(isinstance(o, Alloc) and o.typ in ("list", "set", "dict", "ndarray", "copy") for o in old):
            for o in old:
                if isinstance(o, Alloc):
                    self.hadd(o, "[]", self.elems(rhs))
            new = frozenset(o for o in old if isinstance(o, Alloc)) | new
        self.assign(s.target, new, s, aug=True)

    def augmut(self, s, old, rhs):
        """x op= y mutates x in place when x is a list/set/dict/ndarray."""
        tgt = set()
        for o in old:
            if isinstance(o, Alloc) and o.typ in ("list", "set", "dict", "ndarray", "copy"):
                tgt.add(o)
            elif isinstance(o, Sym):
                if o.kind is not None and o.kind[0] in ("array",) and isinstance(s.op, (ast.Add, ast.Mult)):
                    tgt.add(o)
                elif (o.kind is None or o.kind[0] == "union") and isinstance(s.op, ast.Add) and any(
                        (isinstance(r, Alloc) and r.typ in ("list", "tuple", "iter")) or
                        (isinstance(r, Sym) and r.kind is not None and r.kind[0] == "array") for r in rhs):
                    tgt.add(o)
        if tgt:
            self.on_mutate(s, frozenset(tgt), "augmented assignment")

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.on_return(s, v)
        self.do_return(self.fr, s, v)
        raise Unreach()

    def s_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else EMPTY
        if s.cause is not None:
            self.ev(s.cause)
        self.on_raise(s, v)
        if self.trys:
            t = self.trys[-1]
            t["snap"] = join(t["snap"], self.st.copy())
            t["raised"] = t["raised"] | v
        raise Unreach()

    def s_If(self, s):
        tv = self.ev(s.test)
        t = self.truth(tv)
        base = self.st
        outs = []
        g = len(self.guards)
        if t is not False:
            self.st = base.copy()
            live = self.refine(s.test, True)
            if live:
                self.guards.append((s.test, True, tv, self.fr))
                try:
                    self.block(s.body)
                    outs.append((True, self.st))
                except Unreach:
                    pass
                del self.guards[g:]
        if t is not True:
            self.st = base.copy()
            live = self.refine(s.test, False)
            if live:
                self.guards.append((s.test, False, tv, self.fr))
                try:
                    self.block(s.orelse)
                    outs.append((False, self.st))
                except Unreach:
                    pass
                del self.guards[g:]
        if not outs:
            raise Unreach()
        if len(outs) == 1:
            self.st = outs[0][1]
            if t is None:
                self.guards.append((s.test, outs[0][0], tv, self.fr))
        else:
            self.st = join(outs[0][1], outs[1][1])

    def s_Assert(self, s):
        self.ev(s.test)
        if s.msg is not None:
            save = self.st.copy()
            try:
                self.ev(s.msg)
            except Unreach:
                pass
            self.st = save

    def s_While(self, s):
        self.loop(s, None)

    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(s, it)

    def for_elem(self, s, it):
        return self.elems(it)

    def loop(self, s, it):
        lp = {"break": None, "cont": None}
        self.fr.loops.append(lp)
        exit_ = None
        g = len(self.guards)
        try:
            for k in range(self.LOOPITER):
                pre = self.st.copy()
                if it is None:
                    try:
                        tv = self.ev(s.test)
                    except Unreach:
                        break
                    t = self.truth(tv)
                    if t is not True:
                        save = self.st.copy()
                        exit_ = join(exit_, save)
                    if t is False:
                        break
                    self.refine(s.test, True)
                    self.guards.append((s.test, True, tv, self.fr))
                else:
                    exit_ = join(exit_, self.st.copy())
                    ev = self.for_elem(s, it)
                    self.assign(s.target, ev if ev else V(Res("elem", EMPTY)), s)
                    self.guards.append((s, "for", it, self.fr))
                lp["cont"] = None
                alive = True
                try:
                    self.block(s.body)
                except Unreach:
                    alive = False
                del self.guards[g:]
                after = join(self.st if alive else None, lp["cont"])
                if after is None:
                    break
                new = join(pre, after)
                if new.same(pre):
                    self.st = new
                    if it is not None:
                        exit_ = join(exit_, new)
                    break
                if k >= 2:
                    self.widen(pre, new)
                self.st = new
            else:
                if it is not None or True:
                    exit_ = join(exit_, self.st.copy())
        finally:
            self.fr.loops.pop()
            del self.guards[g:]
        normal = exit_
        out = None
        if normal is not None:
            self.st = normal
            try:
                if it is None:
                    self.refine(s.test, False)
                self.block(s.orelse)
                out = self.st
            except Unreach:
                out = None
        out = join(out, lp["break"])
        if out is None:
            raise Unreach()
        self.st = out

    def widen(self, pre, new):
        save = self.st
        self.st = new
        for k, v in list(new.vars.items()):
            w = pre.vars.get(k)
            if w is not None and v != w and len(v) > 6:
                consts = [o for o in v if isinstance(o, _Const)]
                if len(consts) > 4:
                    new.vars[k] = frozenset(o for o in v if not isinstance(o, _Const)) | self.res("widen", v)
        self.st = save

    def s_Break(self, s):
        lp = self.fr.loops[-1]
        lp["break"] = join(lp["break"], self.st.copy())
        raise Unreach()

    def s_Continue(self, s):
        lp = self.fr.loops[-1]
        lp["cont"] = join(lp["cont"], self.st.copy())
        raise Unreach()

    def s_Pass(self, s):
        pass

    def handler_types(self, h):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            out.append(t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else "?")
        return out

    def s_Try(self, s):
        t = {"snap": None, "raised": EMPTY, "node": s,
             "handlers": [self.handler_types(h) for h in s.handlers], "final": bool(s.finalbody)}
        self.trys.append(t)
        entry = self.st.copy()
        alive = True
        try:
            self.block(s.body)
        except Unreach:
            alive = False
        finally:
            self.trys.pop()
        outs = []
        snap = join(entry, t["snap"])
        if alive:
            snap = join(snap, self.st.copy())
            try:
                if s.orelse:
                    self.block(s.orelse)
                outs.append(self.st)
            except Unreach:
                pass
        for h in s.handlers:
            self.st = snap.copy()
            if h.name:
                v = t["raised"] | V(Res("exc:" + ",".join(self.handler_types(h)), EMPTY))
                self.st.vars[(self.fr.id, h.name)] = v
            g = len(self.guards)
            self.guards.append((h, "except", EMPTY, self.fr))
            try:
                self.block(h.body)
                outs.append(self.st)
            except Unreach:
                pass
            del self.guards[g:]
        out = None
        for o in outs:
            out = join(out, o)
        if s.finalbody:
            if out is not None:
                self.st = out
                self.block(s.finalbody)
                return
            self.st = snap.copy()
            try:
                self.block(s.finalbody)
            except Unreach:
                pass
            raise Unreach()
        if self.trys and not any("*" in ts or "Exception" in ts or "BaseException" in ts for ts in t["handlers"]):
            up = self.trys[-1]
            up["snap"] = join(up["snap"], snap)
            up["raised"] = up["raised"] | t["raised"]
        if out is None:
            raise Unreach()
        self.st = out

    s_TryStar = s_Try

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            self.on_with_enter(s, it, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        try:
            self.block(s.body)
        finally:
            for it in reversed(s.items):
                self.on_with_exit(s, it)

    def on_with_enter(self, s, it, v):
        pass

    def on_with_exit(self, s, it):
        pass

    def s_FunctionDef(self, s):
        f = Fn(s, self.fr.mod, self.fr.cls, self.fr, None)
        v = V(f)
        for d in s.decorator_list:
            v = v | EMPTY
        self.st.vars[(self.fr.id, s.name)] = v

    def s_ClassDef(self, s):
        ci = self.proj._class_by_node.get(s)
        if ci is None:
            ci = ClassInfo(s, self.fr.mod, s.name)
            self.proj._class_by_node[s] = ci
        ci.frame = self.fr if self.fr.fn is not None else None
        self.st.vars[(self.fr.id, s.name)] = V(Cls(ci))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.vars.pop((self.fr.id, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.ev_index(t.slice)
                self.on_mutate(s, o, "del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.on_mutate(s, o, "del attribute " + t.attr)

    def s_Global(self, s):
        pass
    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.st.vars[(self.fr.id, nm)] = V(Mod(a.name if a.asname else nm))

    def s_ImportFrom(self, s):
        for a in s.names:
            full = (s.module or "") + "." + a.name
            if full in self.proj.mods:
                v = V(Mod(full))
            elif s.module in self.proj.mods:
                v = self.resolved(self.proj.lookup(self.proj.mods[s.module], a.name), s.module, a.name)
            else:
                v = V(Ext(full, None))
            self.st.vars[(self.fr.id, a.asname or a.name)] = v

    # ---- assignment -------------------------------------------------------------------------------------------
    def assign(self, t, v, s, aug=False):
        if isinstance(t, ast.Name):
            fi = self.fr
            if t.id in fi.globals_:
                self.on_global_write(s, fi.mod, t.id)
                self.st.vars[(self.module_frame(fi.mod).id, t.id)] = v
                return
            if t.id in fi.nonlocals:
                p = fi.parent
                while p is not None and t.id not in p.locals_:
                    p = p.parent
                if p is not None:
                    self.st.vars[(p.id, t.id)] = self.st.vars.get((p.id, t.id), EMPTY) | v
                return
            self.st.vars[(fi.id, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    a = self.alloc(e, "list")
                    self.hadd(a, "[]", self.elems(v))
                    self.assign(e.value, V(a), s)
                else:
                    self.assign(e, self.getitem(e, v, V(Const(i)), unpack=True), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr_(t, o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            idx = self.ev_index(t.slice)
            self.setitem(t, o, idx, v, s)

    def setattr_(self, node, o, name, v, s):
        self.on_mutate(s, o, "attribute assignment ." + name)
        for x in o:
            self.on_store(s, x, ("a", name), v)
            if isinstance(x, Alloc) or isinstance(x, Sym):
                c = x.cls if isinstance(x, Alloc) else (x.kind[1] if x.kind is not None and x.kind[0] == "inst" else None)
                if c is not None:
                    m = self.proj.method(c, name + "@setter")
                    if m is not None:
                        self.call_fn(node, Fn(m[0], m[1].mod, m[1], None, V(x)), [v], {})
                        continue
                if len(o) == 1 and isinstance(x, Alloc):
                    self.hset(x, ("a", name), v)
                else:
                    self.hadd(x, ("a", name), v)
            elif isinstance(x, (Cls, Mod)):
                self.hadd(x, ("a", name), v)

    def setitem(self, node, o, idx, v, s):
        self.on_mutate(s, o, "item assignment")
        c = _single_const(idx)
        for x in o:
            self.on_store(s, x, "[]", v)
            if isinstance(x, (Alloc, Sym)):
                if isinstance(x, Alloc) and x.typ in ("dict",):
                    self.hadd(x, "keys", idx)
                    if c is not None and isinstance(c.v, str):
                        self.hadd(x, ("k", c.v), v)
                        continue
                self.hadd(x, "[]", v)

    # ---- expressions ------------------------------------------------------------------------------------------
    def ev(self, e):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            vals = [self.ev(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return self.res(type(e).__name__, *vals)
        return self.limit(m(e))

    def e_Constant(self, e):
        return V(Const(e.value))

    def e_JoinedStr(self, e):
        vals = [self.ev(x) for x in e.values]
        return self.strfmt(e, "f", vals)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def strfmt(self, node, how, vals):
        return self.res("str", *vals)

    def resolved(self, r, modname, name):
        if r is None:
            return None
        if r[0] == "func":
            return V(Fn(r[1], r[2], None, None, None))
        if r[0] == "class":
            return V(Cls(r[1]))
        if r[0] == "mod":
            return V(Mod(r[1]))
        if r[0] == "ext":
            return V(Ext(r[1], None))
        if r[0] == "missing":
            return V(Ext(r[1], None))
        if r[0] == "var":
            expr = r[1]
            if expr is not None:
                c = self.constexpr(expr, r[3])
                if c is not None:
                    return c
            return V(Sym(("global", r[3].name, name), (), None))
        return None

    def constexpr(self, expr, mod, depth=0):
        """Module/class level initialisers that are plain constants or aliases of functions/classes."""
        if isinstance(expr, ast.Constant):
            return V(Const(expr.value))
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
            return V(Const(-expr.operand.value))
        if isinstance(expr, ast.Tuple):
            vs = [self.constexpr(x, mod, depth + 1) for x in expr.elts]
            if all(v is not None and _single_const(v) is not None for v in vs):
                return V(Const(tuple(_single_const(v).v for v in vs)))
            return None
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            a, b = self.constexpr(expr.left, mod, depth + 1), self.constexpr(expr.right, mod, depth + 1)
            if a is not None and b is not None:
                a, b = _single_const(a), _single_const(b)
                if a is not None and b is not None:
                    try:
                        return V(Const(a.v + b.v))
                    except Exception:
                        return None
            return None
        if isinstance(expr, ast.BinOp) and depth < 8:
            a, b = self.constexpr(expr.left, mod, depth + 1), self.constexpr(expr.right, mod, depth + 1)
            if a is not None and b is not None:
                a, b = _single_const(a), _single_const(b)
                if a is not None and b is not None and all(isinstance(x.v, (int, float)) for x in (a, b)):
                    r = _fold(type(expr.op).__name__, a.v, b.v)
                    if r is not None:
                        return V(Const(r))
            return None
        if isinstance(expr, (ast.Name, ast.Attribute)) and depth < 4:
            r = self.proj.lookup_dotted(mod, expr)
            if r is not None and r[0] in ("func", "class", "mod", "ext"):
                return self.resolved(r, mod.name, "")
            if r is not None and r[0] == "var" and r[1] is not None:
                return self.constexpr(r[1], r[3], depth + 1)
        return None

    BUILTIN_CONST = {"True": True, "False": False, "None": None}

    def e_Name(self, e):
        return self.name(e.id, e)

    def name(self, nm, node):
        fi = self.fr
        while fi is not None and fi.fn is not None:
            if nm in fi.globals_:
                break
            v = self.st.vars.get((fi.id, nm))
            if v is not None:
                return v
            if nm in fi.locals_:
                # unassigned on this path (or assigned in an enclosing activation we cut off)
                return V(Sym(("unassigned", nm), (), None))
            fi = fi.parent
        mod = self.fr.mod
        v = self.st.vars.get((("module", mod.name), nm))
        if v is not None:
            return v
        r = self.resolved(self.proj.lookup(mod, nm), mod.name, nm)
        if r is not None:
            return r
        return V(Ext(nm, None))

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr_(e, o, e.attr)

    def getattr_(self, node, val, name):
        out = set()
        for o in val:
            h = self.on_load_attr(node, o, name)
            if h is not None:
                out |= h
                continue
            out |= self.getattr1(node, o, name)
        return frozenset(out)

    def class_attr(self, node, ci, name, selfval):
        """Attribute found on the class (method, property, class constant) or None."""
        for k in self.proj.mro(ci):
            if name in k.methods:
                f = k.methods[name]
                decos = set(d.id for d in f.decorator_list if isinstance(d, ast.Name))
                if "property" in decos:
                    if selfval is None:
                        return V(Fn(f, k.mod, k, getattr(k, 'frame', None), None))
                    return self.call_fn(node, Fn(f, k.mod, k, getattr(k, 'frame', None), selfval), [], {})
                if "staticmethod" in decos:
                    return V(Fn(f, k.mod, k, getattr(k, 'frame', None), None))
                if "classmethod" in decos:
                    return V(Fn(f, k.mod, k, getattr(k, 'frame', None), V(Cls(ci))))
                return V(Fn(f, k.mod, k, getattr(k, 'frame', None), selfval))
            if name in k.attrs:
                c = self.constexpr(k.attrs[name], k.mod)
                if c is not None:
                    return c
                return V(Sym(("classattr", k.mod.name, k.qual, name), (), None))
            if name in k.inner:
                return V(Cls(k.inner[name]))
        return None

    def getattr1(self, node, o, name):
        if isinstance(o, Mod):
            m = self.proj.mods.get(o.name)
            v = self.hget(o, ("a", name))
            if m is not None:
                r = self.resolved(self.proj.lookup(m, name), m.name, name)
                if r is None and o.name + "." + name in self.proj.mods:
                    r = V(Mod(o.name + "." + name))
                if r is None:
                    r = V(Sym(("global", m.name, name), (), None))
                return r | (v or EMPTY)
            if o.name + "." + name in self.proj.mods:
                return V(Mod(o.name + "." + name))
            return V(Ext(o.name + "." + name, None))
        if isinstance(o, Cls):
            v = self.hget(o, ("a", name))
            r = self.class_attr(node, o.ci, name, None)
            if r is not None:
                return r | (v or EMPTY)
            if v is not None:
                return v
            return V(Ext("classattr." + name, V(o)))
        if isinstance(o, Ext) and o.recv is None:
            return V(Ext(o.qual + "." + name, None))
        if isinstance(o, Alloc):
            v = self.hget(o, ("a", name))
            if v is not None:
                return v
            if o.cls is not None:
                r = self.class_attr(node, o.cls, name, V(o))
                if r is not None:
                    return r
                if o.typ == "inst":
                    return V(Sym(("field", o.cls.mod.name, o.cls.qual, name), (), None))
            return V(Ext("." + name, V(o)))
        if isinstance(o, Sym):
            extra = self.hget(o, ("a", name)) or EMPTY
            if o.kind is not None and o.kind[0] == "inst":
                r = self.class_attr(node, o.kind[1], name, V(o))
                if r is not None:
                    return r | extra
            if o.kind is not None and o.kind[0] in ("array", "map"):
                return V(Ext("." + name, V(o))) | extra
            return V(self.child(o, name, self.field_kind(o, name))) | extra
        if isinstance(o, Res):
            return V(Ext("." + name, V(o)))
        if isinstance(o, (_Const, Fn, Ext)):
            return V(Ext("." + name, V(o)))
        return V(Res("attr", EMPTY))

    def field_kind(self, o, name):
        return None

    def ev_index(self, sl):
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    self.ev(x)
            return V(Res("slice", EMPTY))
        if isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            for x in sl.elts:
                self.ev_index(x)
            return V(Res("slice", EMPTY))
        return self.ev(sl)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        idx = self.ev_index(e.slice)
        h = self.on_subscript(e, o, idx)
        if h is not None:
            return h
        if any(isinstance(i, Res) and i.op == "slice" for i in idx):
            return self.slice_(e, o)
        return self.getitem(e, o, idx)

    def slice_(self, e, val):
        out = set()
        fresh = None
        for o in val:
            if isinstance(o, Alloc) and o.typ == "ndarray":
                out.add(o)
                continue
            if isinstance(o, _Const):
                out.add(Res("str", EMPTY))
                continue
            if isinstance(o, Res):
                out.add(o)
                continue
            if isinstance(o, Sym) and o.kind is not None and o.kind[0] == "scalar":
                out.add(Res("slice", frozenset([o])))
                continue
            if fresh is None:
                fresh = self.alloc(e, "list", None, "slice")
                out.add(fresh)
            self.hadd(fresh, "[]", self.elems(V(o)))
        return frozenset(out)

    def getitem(self, node, val, idx, unpack=False):
        c = _single_const(idx)
        out = set()
        for o in val:
            if isinstance(o, Alloc):
                if c is not None and isinstance(c.v, int) and not isinstance(c.v, bool):
                    i = c.v
                    if i < 0:
                        n = len([1 for f in self.fields(o) if isinstance(f, tuple) and f[0] == "i"])
                        i = n + i
                    v = self.hget(o, ("i", i))
                    if v is not None:
                        out |= v
                        w = self.hget(o, "[]")
                        if w and o.typ != "tuple":
                            out |= w
                        continue
                if c is not None and isinstance(c.v, str):
                    v = self.hget(o, ("k", c.v))
                    if v is not None:
                        out |= v
                        w = self.hget(o, "[]")
                        if w:
                            out |= w
                        continue
                if o.typ == "inst" and o.cls is not None:
                    m = self.proj.method(o.cls, "__getitem__")
                    if m is not None:
                        out |= self.call_fn(node, Fn(m[0], m[1].mod, m[1], getattr(m[1], "frame", None), V(o)), [idx], {})
                        continue
                v = self.values(V(o))
                if o.typ == "ndarray":
                    v = v | V(o)
                out |= v if v else self.res("item", V(o))
            elif isinstance(o, Sym):
                if c is not None and not unpack:
                    f = "[" + repr(c.v) + "]"
                elif c is not None:
                    f = "[" + repr(c.v) + "]"
                else:
                    f = "[]"
                if o.kind is not None and o.kind[0] == "array":
                    f = "[]" if c is None else f
                out.add(self.child(o, f))
                if c is not None:
                    for ff in (("i", c.v), ("k", c.v)):
                        v = self.hget(o, ff)
                        if v:
                            out |= v
                v = self.hget(o, "[]")
                if v:
                    out |= v
            elif isinstance(o, Res):
                out.add(Res("item", o.srcs))
            elif isinstance(o, _Const):
                if c is not None:
                    try:
                        out.add(Const(o.v[c.v]))
                        continue
                    except Exception:
                        pass
                out.add(Res("char", EMPTY))
            else:
                out.add(Res("item", EMPTY))
        return frozenset(out)

    def e_List(self, e):
        return self.seq(e, "list", e.elts)

    def e_Tuple(self, e):
        vs = None
        if e.elts and all(isinstance(x, ast.Constant) for x in e.elts):
            return V(Const(tuple(x.value for x in e.elts)))
        return self.seq(e, "tuple", e.elts)

    def e_Set(self, e):
        return self.seq(e, "set", e.elts)

    def seq(self, e, typ, elts):
        a = self.alloc(e, typ)
        vals = []
        pos = True
        for i, x in enumerate(elts):
            if isinstance(x, ast.Starred):
                v = self.elems(self.ev(x.value))
                pos = False
                self.hadd(a, "[]", v)
            else:
                v = self.ev(x)
                if pos and typ != "set":
                    self.hadd(a, ("i", i), v)
                else:
                    self.hadd(a, "[]", v)
        return V(a)

    def e_Dict(self, e):
        a = self.alloc(e, "dict")
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                self.hadd(a, "[]", self.values(vv))
                continue
            kv = self.ev(k)
            self.hadd(a, "keys", kv)
            c = _single_const(kv)
            if c is not None and isinstance(c.v, str):
                self.hadd(a, ("k", c.v), vv)
            else:
                self.hadd(a, "[]", vv)
        return V(a)

    def comp(self, e, typ, gens, eltf):
        a = self.alloc(e, typ)
        saved = {}
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    saved.setdefault(n.id, self.st.vars.get((self.fr.id, n.id)))
        ng = len(self.guards)

        def rec(i):
            if i == len(gens):
                eltf(a)
                return
            g = gens[i]
            it = self.ev(g.iter)
            ev = self.for_elem(g, it)
            self.assign(g.target, ev if ev else V(Res("elem", EMPTY)), e)
            self.guards.append((g, "for", it, self.fr))
            for c in g.ifs:
                tv = self.ev(c)
                if self.truth(tv) is False:
                    return
                if not self.refine(c, True):
                    return
                self.guards.append((c, True, tv, self.fr))
            rec(i + 1)
        try:
            rec(0)
        finally:
            del self.guards[ng:]
            for k, v in saved.items():
                if v is None:
                    self.st.vars.pop((self.fr.id, k), None)
                else:
                    self.st.vars[(self.fr.id, k)] = v
        return V(a)

    def e_ListComp(self, e):
        return self.comp(e, "list", e.generators, lambda a: self.hadd(a, "[]", self.ev(e.elt)))

    def e_SetComp(self, e):
        return self.comp(e, "set", e.generators, lambda a: self.hadd(a, "[]", self.ev(e.elt)))

    def e_GeneratorExp(self, e):
        return self.comp(e, "iter", e.generators, lambda a: self.hadd(a, "[]", self.ev(e.elt)))

    def e_DictComp(self, e):
        def f(a):
            self.hadd(a, "keys", self.ev(e.key))
            self.hadd(a, "[]", self.ev(e.value))
        return self.comp(e, "dict", e.generators, f)

    def e_Lambda(self, e):
        return V(Fn(e, self.fr.mod, self.fr.cls, self.fr, None))

    def e_IfExp(self, e):
        tv = self.ev(e.test)
        t = self.truth(tv)
        base = self.st
        out, sts = EMPTY, None
        g = len(self.guards)
        for pol, br in ((True, e.body), (False, e.orelse)):
            if t is not None and t is not pol:
                continue
            self.st = base.copy()
            if not self.refine(e.test, pol):
                continue
            self.guards.append((e.test, pol, tv, self.fr))
            try:
                out = out | self.ev(br)
                sts = join(sts, self.st)
            except Unreach:
                pass
            del self.guards[g:]
        if sts is None:
            raise Unreach()
        self.st = sts
        return out

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        out = EMPTY
        base_refined = None
        g = len(self.guards)
        acc = None
        entry = self.st.copy()
        try:
            for i, x in enumerate(e.values):
                v = self.ev(x)
                t = self.truth(v)
                if i == len(e.values) - 1:
                    out = out | v
                    break
                if t is not None and t is (not isand):
                    out = out | v
                    break
                if t is None:
                    out = out | (frozenset(o for o in v if not (isinstance(o, _Const) and bool(o.v) is isand)))
                # the next operand is evaluated only if this one is true (and) / false (or)
                self.guards.append((x, isand, v, self.fr))
                acc = join(acc, self.st.copy())
                if not self.refine(x, isand):
                    break
        finally:
            del self.guards[g:]
        # refinements made for later operands do not survive the expression
        side = join(acc, self.st)
        merged = State(dict(entry.vars), side.heap, side.aux)
        for k, v in side.vars.items():
            if k not in entry.vars:
                merged.vars[k] = v
        self.st = merged
        return out

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is None:
                return self.res("not", v)
            return FALSE if t else TRUE
        c = _single_const(v)
        if c is not None and isinstance(e.op, ast.USub) and isinstance(c.v, (int, float)):
            return V(Const(-c.v))
        return self.unop(e, type(e.op).__name__, v)

    def unop(self, e, op, v):
        return self.res(op, v)

    def e_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        return self.binop(e, type(e.op).__name__, l, r)

    def binop(self, e, op, l, r):
        h = self.on_binop(e, op, l, r)
        if h is not None:
            return h
        a, b = _single_const(l), _single_const(r)
        if a is not None and b is not None:
            f = _fold(op, a.v, b.v)
            if f is not None:
                return V(Const(f))
        if op in ("Add", "Mult", "BitOr", "Sub", "BitAnd"):
            objs = list(l) + list(r)
            if any(isinstance(o, Alloc) and o.typ in ("list", "tuple", "set", "iter") or
                   isinstance(o, Sym) and o.kind is not None and o.kind[0] == "array" for o in objs) \
                    and not any(isinstance(o, Alloc) and o.typ == "ndarray" for o in objs):
                t = [o.typ for o in objs if isinstance(o, Alloc) and o.typ in ("list", "tuple", "set")]
                al = self.alloc(e, t[0] if t else "list", None, "concat")
                if op == "Add" and all(len(x) == 1 and isinstance(next(iter(x)), Alloc) and
                                       next(iter(x)).typ in ("list", "tuple") for x in (l, r)):
                    # positional concatenation of literals
                    lo, ro = next(iter(l)), next(iter(r))
                    if not self.hget(lo, "[]") and al != lo and al != ro and not self.fields(al):
                        n = 0
                        while self.hget(lo, ("i", n)) is not None:
                            self.hset(al, ("i", n), self.hget(lo, ("i", n))); n += 1
                        m = 0
                        while self.hget(ro, ("i", m)) is not None:
                            self.hset(al, ("i", n + m), self.hget(ro, ("i", m))); m += 1
                        if self.hget(ro, "[]"):
                            self.hadd(al, "[]", self.hget(ro, "[]"))
                        return V(al)
                self.hadd(al, "[]", self.elems(l) | self.elems(r))
                return V(al)
        if op == "Mod" and a is not None and isinstance(a.v, str):
            return self.strfmt(e, "%", [l, r])
        if op == "Add" and (any(isinstance(o, _Const) and isinstance(o.v, str) for o in l | r)):
            return self.strfmt(e, "+", [l, r])
        if any(isinstance(o, Alloc) and o.typ == "ndarray" for o in l | r):
            al = self.alloc(e, "ndarray", None, "arith")
            self.hadd(al, "[]", self.res("num", l, r))
            return V(al)
        return self.res("op:" + op, l, r)

    def e_Compare(self, e):
        left = self.ev(e.left)
        vals = [left]
        verdicts = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            vals.append(right)
            verdicts.append(self.compare1(type(op).__name__, left, right))
            left = right
        if any(x is False for x in verdicts):
            return FALSE
        if all(x is True for x in verdicts):
            return TRUE
        return self.res("cmp:" + type(e.ops[0]).__name__, *vals)

    def compare1(self, op, l, r):
        a, b = _single_const(l), _single_const(r)
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            neg = op in ("IsNot", "NotEq")
            if a is not None and b is not None:
                eq = (a.v == b.v) and (op not in ("Is", "IsNot") or type(a.v) is type(b.v))
                return eq != neg
            # None against a definite non-None
            for x, y in ((l, r), (r, l)):
                c = _single_const(x)
                if c is not None and c.v is None and y and all(
                        isinstance(o, (Fn, Cls, Mod, Alloc)) or (isinstance(o, _Const) and o.v is not None)
                        or (isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst" and o.kind[2:] == ("exact",)) for o in y):
                    return neg
        elif op in ("In", "NotIn"):
            neg = op == "NotIn"
            if a is not None and b is not None and isinstance(b.v, (tuple, str)):
                try:
                    return (a.v in b.v) != neg
                except TypeError:
                    return None
            if a is not None and len(r) == 1:
                o = next(iter(r))
                if isinstance(o, Alloc) and o.typ in ("list", "tuple", "set"):
                    items = self.elems(r)
                    if all(isinstance(i, _Const) for i in items) and not self._mutable_growth(o):
                        return (a in items) != neg
        elif a is not None and b is not None and op in ("Lt", "LtE", "Gt", "GtE"):
            try:
                return {"Lt": a.v < b.v, "LtE": a.v <= b.v, "Gt": a.v > b.v, "GtE": a.v >= b.v}[op]
            except TypeError:
                return None
        return None

    def _mutable_growth(self, o):
        return self.hget(o, "[]") is not None and o.typ != "set"

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.fr.yields = self.fr.yields | v
        return NONE

    def e_YieldFrom(self, e):
        self.fr.yields = self.fr.yields | self.elems(self.ev(e.value))
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    # ---- calls ------------------------------------------------------------------------------------------------
    def e_Call(self, e):
        cal = self.ev(e.func)
        args, star, kwargs, dstar = [], None, {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value)
                o = next(iter(sv)) if len(sv) == 1 else None
                if star is None and isinstance(o, Alloc) and o.typ in ("list", "tuple") and not self.hget(o, "[]"):
                    i = 0
                    while self.hget(o, ("i", i)) is not None:
                        args.append(self.hget(o, ("i", i))); i += 1
                else:
                    star = (star or EMPTY) | self.elems(sv)
            else:
                v = self.ev(a)
                if star is not None:
                    star = star | v
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                done = False
                if len(v) == 1:
                    o = next(iter(v))
                    if isinstance(o, Alloc) and o.typ == "dict" and not self.hget(o, "[]"):
                        for f, w in list(self.fields(o).items()):
                            if isinstance(f, tuple) and f[0] == "k":
                                kwargs[f[1]] = w
                        done = True
                if not done:
                    dstar = (dstar or EMPTY) | self.values(v)
            else:
                kwargs[k.arg] = v
        return self.call(e, cal, args, kwargs, star, dstar)

    def call(self, node, cal, args, kwargs=None, star=None, dstar=None):
        kwargs = kwargs or {}
        out = EMPTY
        sts = None
        alive = False
        objs = list(cal)
        base = self.st
        multi = len(objs) > 1
        for o in objs:
            if multi:
                self.st = base.copy()
            try:
                h = self.on_call(node, o, args, kwargs)
                if h is None:
                    h = self.call1(node, o, args, kwargs, star, dstar)
                out = out | h
                alive = True
                sts = join(sts, self.st)
            except Unreach:
                if not multi:
                    raise
        if not objs:
            return V(Res("call:?", EMPTY))
        if not alive:
            raise Unreach()
        self.st = sts
        return out

    def call1(self, node, o, args, kwargs, star, dstar):
        if isinstance(o, Fn):
            return self.call_fn(node, o, args, kwargs, star, dstar)
        if isinstance(o, Cls):
            return self.instantiate(node, o.ci, args, kwargs, star, dstar)
        if isinstance(o, Ext):
            allargs = list(args)
            if star is not None:
                allargs = allargs + [star]
            if dstar is not None:
                kwargs = dict(kwargs); kwargs["**"] = dstar
            if o.qual in ("functools.partial", "partial") and args:
                a = self.alloc(node, "partial")
                self.hset(a, "fn", args[0])
                for i, v in enumerate(args[1:]):
                    self.hset(a, ("i", i), v)
                return V(a)
            return self.ext(node, o.qual, o.recv, allargs, kwargs)
        if isinstance(o, Alloc):
            if o.typ == "partial":
                pre = []
                i = 0
                while self.hget(o, ("i", i)) is not None:
                    pre.append(self.hget(o, ("i", i))); i += 1
                return self.call(node, self.hget(o, "fn"), pre + list(args), kwargs, star, dstar)
            if o.cls is not None:
                m = self.proj.method(o.cls, "__call__")
                if m is not None:
                    return self.call_fn(node, Fn(m[0], m[1].mod, m[1], getattr(m[1], "frame", None), V(o)), args, kwargs, star, dstar)
        if isinstance(o, Sym):
            if o.kind is not None and o.kind[0] == "inst":
                m = self.proj.method(o.kind[1], "__call__")
                if m is not None:
                    return self.call_fn(node, Fn(m[0], m[1].mod, m[1], getattr(m[1], "frame", None), V(o)), args, kwargs, star, dstar)
            return self.symcall(node, o, args, kwargs, star, dstar)
        return self.res("call", V(o), *(list(args) + list(kwargs.values())))

    def symcall(self, node, o, args, kwargs, star, dstar):
        """Call of an unknown object: method of an input (by access path) or an input function."""
        if o.path:
            recv = V(Sym(o.root, o.path[:-1], None)) if len(o.path) >= 1 else None
            name = o.path[-1]
            if not name.startswith("["):
                allargs = list(args) + ([star] if star is not None else [])
                return self.ext(node, "." + name, recv, allargs, kwargs, sym=o)
        return self.res("call:" + symstr(o), V(o), *(list(args) + list(kwargs.values())))

    def instantiate(self, node, ci, args, kwargs, star, dstar):
        a = self.alloc(node, "inst", ci, ci.qual)
        if ci.mod.name in self.opaque_mods:
            for i, v in enumerate(args):
                self.hset(a, ("arg", i), v)
            for k, v in kwargs.items():
                self.hset(a, ("arg", k), v)
            return V(a)
        if any(_deconame(d) == "case" for d in ci.decorators):
            return self.instantiate_case(node, a, ci, args, kwargs, star, dstar)
        m = self.proj.method(ci, "__init__")
        if m is not None:
            try:
                self.call_fn(node, Fn(m[0], m[1].mod, m[1], getattr(m[1], "frame", None), V(a)), args, kwargs, star, dstar)
            except Unreach:
                raise
        else:
            for i, v in enumerate(args):
                self.hset(a, ("arg", i), v)
        return V(a)

    def instantiate_case(self, node, a, ci, args, kwargs, star, dstar):
        """titus.util.case: the constructor stores every parameter in the field of the same name, then runs the body."""
        init = ci.methods.get("__init__")
        if init is None:
            return V(a)
        names = [x.arg for x in init.args.args[1:]]
        b = {}
        for n, v in zip(names, args):
            b[n] = v
        for k, v in kwargs.items():
            b[k] = v
        for n in names:
            v = b.get(n)
            if v is None:
                v = NONE if n == "pos" else V(Sym(("unbound", n), (), None))
                if star is not None:
                    v = v | star
            self.hset(a, ("a", n), v)
        try:
            self.call_fn(node, Fn(init, ci.mod, ci, None, V(a)), args, kwargs, star, dstar)
        except Unreach:
            raise
        return V(a)

    # ---- models of external functions -------------------------------------------------------------------------
    def ext(self, node, qual, recv, args, kwargs, sym=None):
        h = self.on_ext(node, qual, recv, args, kwargs)
        if h is not None:
            return h
        if recv is not None:
            return self.ext_method(node, qual[1:], recv, args, kwargs)
        if qual.startswith("builtins."):
            qual = qual[9:]
        if qual in EXT_MUT and len(args) > EXT_MUT[qual]:
            self.on_mutate(node, args[EXT_MUT[qual]], "call of " + qual)
            self._containment(args[EXT_MUT[qual]], args[EXT_MUT[qual] + 1:])
        if "out" in kwargs and qual.startswith("numpy."):
            self.on_mutate(node, kwargs["out"], "out= of " + qual)
        if qual in ("isinstance", "issubclass") and len(args) == 2:
            t = self.isinst(args[0], args[1])
            return self.res("isinstance", args[0]) if t is None else V(Const(t))
        if qual == "type" and len(args) == 1:
            out = set()
            for o in args[0]:
                if isinstance(o, Alloc) and o.cls is not None:
                    out.add(Cls(o.cls))
                elif isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst":
                    out.add(Cls(o.kind[1]))
                else:
                    out.add(Res("type", self.srcs(V(o))))
            return frozenset(out)
        if qual in ("getattr",) and len(args) >= 2:
            c = _single_const(args[1])
            if c is not None:
                v = self.getattr_(node, args[0], c.v)
                if len(args) > 2:
                    v = v | args[2]
                return v
            return self.res("getattr", *args)
        if qual == "setattr" and len(args) == 3:
            c = _single_const(args[1])
            if c is not None:
                self.setattr_(node, args[0], c.v, args[2], node)
            return NONE
        if qual == "hasattr":
            return self.res("hasattr", *args)
        if qual in ("callable",):
            if args and args[0] and all(isinstance(o, (Fn, Cls)) for o in args[0]):
                return TRUE
            return self.res("callable", *args)
        if qual == "super":
            fi = self.fr
            while fi is not None and fi.cls is None:
                fi = fi.parent
            selfv = None
            if fi is not None and fi.fn is not None and not isinstance(fi.fn, ast.Lambda) and fi.fn.args.args:
                selfv = self.st.vars.get((fi.id, fi.fn.args.args[0].arg))
            if fi is not None and fi.cls is not None and selfv:
                a = self.alloc(node, "super", None, "super")
                self.hset(a, "self", selfv)
                self._supers = getattr(self, "_supers", {})
                self._supers[a] = fi.cls
                return V(a)
            return V(Res("super", EMPTY))
        if qual in ("vars", "globals", "locals"):
            return self.res(qual, *args)
        if qual in ("zip", "enumerate", "map", "itertools.product", "product", "itertools.izip", "itertools.combinations", "itertools.permutations", "itertools.zip_longest", "zip_longest"):
            return self.ext_iter(node, qual, args)
        if qual in ("functools.reduce", "reduce") and len(args) >= 2:
            it = self.elems(args[1])
            acc = it if len(args) == 2 else args[2]
            for _ in range(2):
                acc = acc | self.safe_call(node, args[0], [acc, it])
            return acc
        if qual in ("next",) and args:
            v = self.elems(args[0])
            if len(args) > 1:
                v = v | args[1]
            return v or V(Res("elem", EMPTY))
        if qual in ("max", "min") and args:
            if "key" in kwargs:
                self.safe_call(node, kwargs["key"], [self.elems(args[0])])
            out = EMPTY
            if len(args) == 1:
                out = self.elems(args[0])
                return out if out else self.res(qual, args[0])
            for a in args:
                out = out | a
            return out
        if qual == "range":
            cs = [_single_const(a) for a in args]
            a = self.alloc(node, "iter", None, "range")
            if all(c is not None and isinstance(c.v, int) for c in cs) and cs and len(range(*[c.v for c in cs])) <= 12:
                for i in range(*[c.v for c in cs]):
                    self.hadd(a, "[]", V(Const(i)))
            else:
                self.hadd(a, "[]", self.res("range", *args))
            return V(a)
        if qual in ("copy.deepcopy", "deepcopy") and args:
            a = self.alloc(node, "deepcopy", None, "deepcopy")
            self.hadd(a, "[]", V(Res("deepcopy", self.srcs(args[0]))))
            return V(a)
        if qual in COPY_FUNCS:
            return self.ext_copy(node, qual, args, kwargs)
        if qual == "sum" and args:
            el = self.elems(args[0])
            start = args[1] if len(args) > 1 else V(Const(0))
            if any(isinstance(o, Alloc) and o.typ in ("list", "tuple") for o in start):
                a = self.alloc(node, "list", None, "sum")
                self.hadd(a, "[]", self.elems(el) | self.elems(start))
                return V(a)
            return self.res("sum", el, start)
        if qual in ("numpy.asarray", "numpy.array", "numpy.matrix", "numpy.asmatrix", "numpy.copy", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.eye", "numpy.identity",
                    "numpy.zeros_like", "numpy.ones_like", "numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.dot", "numpy.outer", "numpy.diag", "numpy.linalg.inv", "numpy.linalg.solve",
                    "numpy.append", "numpy.delete", "numpy.sort", "numpy.argsort", "numpy.cumsum", "numpy.linspace", "numpy.arange", "numpy.exp", "numpy.log", "numpy.sqrt", "numpy.abs",
                    "numpy.transpose", "numpy.fromiter", "numpy.frombuffer", "numpy.atleast_2d", "numpy.atleast_1d", "numpy.repeat", "numpy.tile"):
            a = self.alloc(node, "ndarray", None, qual)
            self.hadd(a, "[]", self.res("num", *args))
            if qual in ("numpy.asarray", "numpy.asmatrix", "numpy.atleast_2d", "numpy.atleast_1d", "numpy.transpose", "numpy.diag"):
                return V(a) | frozenset(o for v in args[:1] for o in v if isinstance(o, Alloc) and o.typ == "ndarray")
            return V(a)
        if qual in ("len", "int", "float", "str", "repr", "bool", "abs", "round", "ord", "chr", "hash", "id", "bytes", "bytearray", "any", "all", "divmod", "pow", "format"):
            return self.ext_scalar(node, qual, args, kwargs)
        if qual in ("json.dumps", "jsonlib.dumps"):
            return self.strfmt(node, "json.dumps", args)
        # default: opaque result; functions passed in may be called
        for v in list(args) + list(kwargs.values()):
            for o in v:
                if isinstance(o, Fn):
                    self.safe_call(node, V(o), [V(Res("elem", EMPTY))] * _nparams(o))
        if qual.startswith("numpy."):
            a = self.alloc(node, "ndarray", None, qual)
            self.hadd(a, "[]", self.res("num", *args))
            return V(a)
        return self.res("call:" + qual, *(list(args) + list(kwargs.values())))

    def ext_scalar(self, node, qual, args, kwargs):
        c = [_single_const(a) for a in args]
        if len(args) == 1 and c[0] is not None:
            try:
                if qual == "str":
                    return V(Const(str(c[0].v)))
                if qual == "repr":
                    return V(Const(repr(c[0].v)))
                if qual == "len":
                    return V(Const(len(c[0].v)))
                if qual in ("int", "float", "bool", "abs"):
                    return V(Const({"int": int, "float": float, "bool": bool, "abs": abs}[qual](c[0].v)))
            except Exception:
                pass
        if qual in ("str", "repr"):
            return self.strfmt(node, qual, args)
        return self.res(qual, *args)

    def safe_call(self, node, fn, args):
        save = self.st.copy()
        try:
            return self.call(node, fn, args)
        except Unreach:
            self.st = save
            return EMPTY

    def ext_iter(self, node, qual, args):
        a = self.alloc(node, "iter", None, qual)
        if qual == "enumerate" and args:
            t = self.alloc(node, "tuple", None, "pair")
            self.hadd(t, ("i", 0), self.res("index", args[0]))
            self.hadd(t, ("i", 1), self.elems(args[0]) or V(Res("elem", EMPTY)))
            self.hadd(a, "[]", V(t))
        elif qual == "map" and args:
            ev = [self.elems(x) for x in args[1:]]
            self.hadd(a, "[]", self.safe_call(node, args[0], ev))
        elif qual in ("zip", "product", "itertools.product", "itertools.izip", "itertools.zip_longest", "zip_longest"):
            t = self.alloc(node, "tuple", None, "zip")
            for i, x in enumerate(args):
                self.hadd(t, ("i", i), self.elems(x) or V(Res("elem", EMPTY)))
            self.hadd(a, "[]", V(t))
        else:
            t = self.alloc(node, "tuple", None, "comb")
            self.hadd(t, "[]", self.elems(args[0]) if args else EMPTY)
            self.hadd(a, "[]", V(t))
        return V(a)

    def ext_copy(self, node, qual, args, kwargs):
        typ = COPY_FUNCS[qual]
        if qual == "filter" and len(args) == 2:
            el = self.elems(args[1])
            self.safe_call(node, args[0], [el])
            a = self.alloc(node, "iter", None, qual)
            self.hadd(a, "[]", el)
            return V(a)
        if typ == "copy":
            return self.shallow(node, args[0]) if args else V(Res("copy", EMPTY))
        a = self.alloc(node, typ, None, qual)
        if "key" in kwargs and args:
            self.safe_call(node, kwargs["key"], [self.elems(args[0])])
        if typ == "dict":
            for x in args:
                for o in x:
                    if (isinstance(o, Alloc) and o.typ in ("list", "iter", "tuple", "set")) or (isinstance(o, Res)):
                        el = self.elems(V(o))
                        self.hadd(a, "keys", self.getitem(node, el, V(Const(0))) or EMPTY)
                        self.hadd(a, "[]", self.getitem(node, el, V(Const(1))) or EMPTY)
                    elif isinstance(o, Alloc):
                        for f, v in list(self.fields(o).items()):
                            if (f in ("[]", "keys") or (isinstance(f, tuple) and f[0] == "k")):
                                self.hadd(a, f, v)
                    else:
                        self.hadd(a, "[]", self.values(V(o)))
                        self.hadd(a, "keys", self.elems(V(o)))
            for k, v in kwargs.items():
                if k == "**":
                    self.hadd(a, "[]", v)
                else:
                    self.hset(a, ("k", k), v)
                    self.hadd(a, "keys", V(Const(k)))
            return V(a)
        for x in args:
            for o in x:
                if isinstance(o, Alloc) and o.typ in ("list", "tuple") and typ in ("list", "tuple") and qual in ("list", "tuple") and len(x) == 1 \
                        and not self.fields(a):
                    for f, v in list(self.fields(o).items()):
                        if (f == "[]" or isinstance(f, tuple) and f[0] == "i"):
                            self.hadd(a, f, v)
                else:
                    self.hadd(a, "[]", self.elems(V(o)))
        return V(a)

    def shallow(self, node, val):
        out = set()
        for o in val:
            if isinstance(o, (_Const, Res, Fn, Cls, Mod, Ext)):
                out.add(o)
                continue
            typ = "copy"
            cls = None
            if isinstance(o, Alloc):
                typ, cls = o.typ, o.cls
            a = self.alloc(node, typ, cls, "copy")
            if isinstance(o, Alloc):
                for f, v in list(self.fields(o).items()):
                    if True:
                        self.hadd(a, f, v)
            else:
                self.hadd(a, "[]", self.values(V(o)))
                self.hadd(a, "keys", self.elems(V(o)))
            out.add(a)
        return frozenset(out)

    def _containment(self, recv, vals):
        for o in recv:
            if isinstance(o, (Alloc, Sym)):
                for v in vals:
                    self.hadd(o, "[]", v)

    def ext_method(self, node, name, recv, args, kwargs):
        # super() proxies
        sup = [o for o in recv if isinstance(o, Alloc) and o.typ == "super"]
        if sup:
            out = EMPTY
            for o in sup:
                c = self._supers.get(o)
                selfv = self.hget(o, "self")
                found = None
                for k in self.proj.mro(c)[1:]:
                    if name in k.methods:
                        found = (k.methods[name], k)
                        break
                if found is not None:
                    out = out | self.call_fn(node, Fn(found[0], found[1].mod, found[1], None, selfv), args, kwargs)
                else:
                    out = out | NONE
            return out
        if name in LIST_MUT:
            self.on_mutate(node, recv, "call of ." + name + "()")
            if name in ("append", "add", "insert", "appendleft", "__setitem__", "put", "fill"):
                v = args[-1] if args else EMPTY
                for o in recv:
                    if isinstance(o, (Alloc, Sym)):
                        self.hadd(o, "[]", v)
            elif name in ("extend", "extendleft", "__iadd__"):
                v = self.elems(args[0]) if args else EMPTY
                for o in recv:
                    if isinstance(o, (Alloc, Sym)):
                        self.hadd(o, "[]", v)
            elif name in ("update", "setdefault"):
                for o in recv:
                    if isinstance(o, (Alloc, Sym)):
                        if name == "setdefault" and len(args) > 1:
                            self.hadd(o, "[]", args[1])
                            self.hadd(o, "keys", args[0])
                        elif name == "update":
                            for x in args:
                                self.hadd(o, "[]", self.values(x))
                                self.hadd(o, "keys", self.elems(x))
                                for y in x:
                                    if isinstance(y, Alloc):
                                        for f, v in list(self.fields(y).items()):
                                            if isinstance(f, tuple) and f[0] == "k":
                                                self.hadd(o, f, v)
                            for k, v in kwargs.items():
                                self.hadd(o, ("k", k), v)
            if name == "sort" and "key" in kwargs:
                self.safe_call(node, kwargs["key"], [self.elems(recv)])
            if name in ("pop", "popitem", "popleft", "setdefault"):
                v = self.values(recv)
                if len(args) > 1:
                    v = v | args[1]
                return v if v else V(Res("elem", EMPTY))
            return NONE
        if name == "get" and args:
            out = self.getitem(node, recv, args[0])
            return out | (args[1] if len(args) > 1 else NONE)
        if name in ("next", "__next__", "__getitem__"):
            return self.values(recv) or V(Res("elem", EMPTY))
        if name == "copy":
            return self.shallow(node, recv)
        if name in ("keys",):
            a = self.alloc(node, "iter", None, "keys")
            out = set()
            for o in recv:
                if isinstance(o, Alloc):
                    v = self.hget(o, "keys")
                    out |= v if v else frozenset([Res("key", EMPTY)])
                elif isinstance(o, Sym):
                    out.add(self.child(o, "[key]", ("scalar",)))
                else:
                    out |= self.res("key", V(o))
            self.hadd(a, "[]", frozenset(out))
            return V(a)
        if name in ("values", "itervalues"):
            a = self.alloc(node, "iter", None, "values")
            self.hadd(a, "[]", self.values(recv))
            return V(a)
        if name in ("items", "iteritems"):
            a = self.alloc(node, "iter", None, "items")
            t = self.alloc(node, "tuple", None, "item")
            ks = set()
            for o in recv:
                if isinstance(o, Alloc):
                    ks |= self.hget(o, "keys") or EMPTY
                elif isinstance(o, Sym):
                    ks.add(self.child(o, "[key]", ("scalar",)))
                else:
                    ks |= self.res("key", V(o))
            self.hadd(t, ("i", 0), frozenset(ks) or V(Res("key", EMPTY)))
            self.hadd(t, ("i", 1), self.values(recv) or V(Res("elem", EMPTY)))
            self.hadd(a, "[]", V(t))
            return V(a)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            a = self.alloc(node, "set", None, name)
            self.hadd(a, "[]", self.elems(recv))
            for x in args:
                self.hadd(a, "[]", self.elems(x))
            return V(a)
        if name == "tolist":
            a = self.alloc(node, "list", None, "tolist")
            self.hadd(a, "[]", self.res("num", recv))
            return V(a)
        if name in ("format",) and all(isinstance(o, (_Const, Res)) for o in recv):
            return self.strfmt(node, "format", [recv] + list(args) + list(kwargs.values()))
        if name == "join":
            return self.strfmt(node, "join", [recv] + [self.elems(a) for a in args])
        if any(isinstance(o, Alloc) and o.typ == "ndarray" for o in recv):
            return frozenset(o for o in recv if isinstance(o, Alloc)) | self.res("num", recv, *args)
        for v in list(args) + list(kwargs.values()):
            for o in v:
                if isinstance(o, Fn):
                    self.safe_call(node, V(o), [V(Res("elem", EMPTY))] * _nparams(o))
        return self.res("call:." + name, recv, *(list(args) + list(kwargs.values())))

    # ---- refinement -------------------------------------------------------------------------------------------
    def isinst(self, val, tval):
        classes = self.typelist(tval)
        if classes is None:
            return None
        r = set()
        for o in val:
            r.add(self.isinst1(o, classes))
        if len(r) == 1:
            return r.pop()
        return None

    def typelist(self, tval):
        out = []
        for o in tval:
            if isinstance(o, Cls):
                out.append(o.ci)
            elif isinstance(o, Ext) and o.recv is None:
                out.append(o.qual)
            elif isinstance(o, Alloc) and o.typ in ("tuple", "list"):
                sub = self.typelist(self.elems(V(o)))
                if sub is None:
                    return None
                out.extend(sub)
            elif isinstance(o, _Const) and o.v == ():
                pass
            else:
                return None
        return out

    def isinst1(self, o, classes):
        if isinstance(o, Alloc) and o.cls is not None:
            return any(c in self.proj.mro(o.cls) for c in classes if isinstance(c, ClassInfo))
        if isinstance(o, Sym) and o.kind is not None and o.kind[0] == "inst":
            if any(c in self.proj.mro(o.kind[1]) for c in classes if isinstance(c, ClassInfo)):
                return True
            # a subclass of the known class might still match
            if any(isinstance(c, ClassInfo) and o.kind[1] in self.proj.mro(c) for c in classes):
                return None if len(o.kind) < 3 or o.kind[2] != "exact" else False
            if all(isinstance(c, ClassInfo) for c in classes):
                # unrelated project classes: only a common subclass could be both
                subs = set(self.proj.subclasses(o.kind[1]))
                if len(o.kind) >= 3 and o.kind[2] == "exact" or not any(s in subs for c in classes for s in self.proj.subclasses(c)):
                    return False
            return None
        if isinstance(o, Alloc):
            t = {"list": ["list"], "dict": ["dict"], "tuple": ["tuple"], "set": ["set"]}.get(o.typ)
            if t:
                return any(c in t or c in ("object",) for c in classes if isinstance(c, str))
            return None
        if isinstance(o, _Const):
            tn = type(o.v).__name__
            names = {"bool": ("bool", "int"), "int": ("int",), "str": ("str",), "float": ("float",), "NoneType": ("NoneType",),
                     "tuple": ("tuple",), "bytes": ("bytes",)}.get(tn)
            if names is None:
                return None
            return any(c in names for c in classes if isinstance(c, str))
        if isinstance(o, (Fn, Cls)):
            if all(isinstance(c, ClassInfo) or c in ("list", "tuple", "dict", "str", "int", "float", "bytes", "set") for c in classes):
                return False
        if isinstance(o, Sym) and o.kind is not None:
            k = o.kind[0]
            table = {"array": ("list",), "map": ("dict",), "record": ("dict",)}
            if k in table and all(isinstance(c, str) for c in classes):
                if any(c in table[k] for c in classes):
                    return True
                if all(c in ("list", "tuple", "dict", "str", "int", "float", "bool", "bytes", "set") for c in classes):
                    return False
            if k == "scalar" and all(c in ("list", "tuple", "dict", "set") for c in classes):
                return False
        return None

    def refine(self, test, pol):
        """Narrow variables by a branch condition.  Returns False when the branch is infeasible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) is pol:
                return all(self.refine(x, pol) for x in test.values)
            return True
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 \
                and isinstance(test.args[0], (ast.Name, ast.Attribute)):
            try:
                tv = self.ev(test.args[1])
                cur = self.ev(test.args[0])
            except Unreach:
                return True
            classes = self.typelist(tv)
            if classes is None:
                return True
            out = set()
            for o in cur:
                r = self.isinst1(o, classes)
                if r is None:
                    if pol and isinstance(o, Sym) and (o.kind is None or o.kind[0] in ("inst", "union")):
                        k = self.narrow_kind(o, classes)
                        out.add(Sym(o.root, o.path, k) if k is not None else o)
                    else:
                        out.add(o)
                elif r is pol:
                    out.add(o)
            if not out:
                return False
            self.rebind(test.args[0], frozenset(out))
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant):
            want = isinstance(test.ops[0], (ast.Is, ast.Eq)) is pol
            cv = test.comparators[0].value
            cur = self.ev(test.left)
            out = set()
            for o in cur:
                if isinstance(o, _Const):
                    same = o.v == cv and type(o.v) is type(cv)
                    if same is want:
                        out.add(o)
                elif want and cv is None and isinstance(o, (Fn, Cls, Mod, Alloc)):
                    pass
                else:
                    out.add(o)
            if not out:
                return False
            self.rebind(test.left, frozenset(out))
            return True
        return True

    def narrow_kind(self, o, classes):
        if len(classes) == 1:
            c = classes[0]
            if isinstance(c, ClassInfo):
                return ("inst", c)
            if c in ("list",):
                return ("array", None)
            if c in ("dict",):
                return ("map", None)
            if c in ("int", "float", "str", "bool", "bytes"):
                return ("scalar",)
        elif classes and all(isinstance(c, str) for c in classes):
            if all(c in ("list", "tuple") for c in classes):
                return ("array", None)
            if all(c in ("int", "float", "str", "bool", "bytes", "long") for c in classes):
                return ("scalar",)
        return None

    def rebind(self, node, val):
        if isinstance(node, ast.Name) and (self.fr.id, node.id) in self.st.vars:
            self.st.vars[(self.fr.id, node.id)] = val


def _as_load(t):
    n = type(t)(**{f: getattr(t, f, None) for f in t._fields})
    n.ctx = ast.Load()
    return ast.copy_location(n, t)


def _single_const(val):
    if len(val) == 1:
        o = next(iter(val))
        if isinstance(o, _Const):
            return o
    return None


def _nparams(o):
    return len(o.node.args.args) - (1 if o.self_ is not None else 0)


def _deconame(d):
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Call):
        return _deconame(d.func)
    return None


def _fold(op, a, b):
    try:
        if op == "Add" and isinstance(a, str) and isinstance(b, str) and len(a) + len(b) < 4000:
            return a + b
        if isinstance(a, bool) or isinstance(b, bool):
            return None
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Pow" and abs(b) < 130 and abs(a) < 100:
                return a ** b
            if op == "Div" and b:
                return a / b
            if op == "FloorDiv" and b:
                return a // b
            if op == "LShift" and 0 <= b < 200:
                return a << b
    except Exception:
        return None
    return None
