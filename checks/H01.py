import ast, builtins, os, re, string, sys, symtable
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__path__", "__package__", "__spec__", "__loader__"}


def names(R, p, mod):
    src = mod.src
    used = []

    def visit(t, qual):
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t.get_type() == "module"):
                used.append((s.get_name(), qual, t.get_lineno()))
        for c in t.get_children():
            visit(c, (qual + "." if qual else "") + c.get_name())
    visit(symtable.symtable(src, mod.path, "exec"), "")
    made = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                made.add((a.asname or a.name.split(".")[0]))
        elif isinstance(n, ast.Global):
            made |= set(n.names)
    # any binding of the name at module level, in whatever kind of statement
    def level(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                made.add(s.name)
                continue
            for n in walk_here(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    made.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    made.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    made.add(n.name)
    level(mod.tree.body)
    ext_star = any(s not in p.mods for s in mod.star)
    first = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            first.setdefault(n.id, []).append(n)
    for name, qual, line in used:
        R.count("name")
        if name in made or name in BUILTINS or ext_star or p.lookup(mod, name) is not None:
            continue
        ns = [n.lineno for n in first.get(name, ()) if n.lineno >= line]
        R.finding("name", "%s: %s" % (qual, name), "%s is not defined anywhere" % name, "%s:%d" % (mod.path_rel, ns[0] if ns else line))


def walk_here(s):
    """Nodes of a statement outside functions and classes defined in it."""
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None])
            continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)) and n is not s:
            continue
        todo.extend(ast.iter_child_nodes(n))


def functions(mod):
    """(qualified name, function node, class node or None)"""
    out = []

    def go(body, qual, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((qual + s.name, s, cls))
                go(s.body, qual + s.name + ".", None)
            elif isinstance(s, ast.ClassDef):
                go(s.body, qual + s.name + ".", s)
            else:
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(s, f, None) or [], qual, cls)
                for h in getattr(s, "handlers", None) or []:
                    go(h.body, qual, cls)
    go(mod.tree.body, "", None)
    return out


def locals_of(fn):
    a = fn.args
    out = set(x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", []))
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    for s in fn.body:
        for n in walk_here(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= set(x.asname or x.name.split(".")[0] for x in n.names)
    return out


def fits(a, call, skip):
    """Why a call does not fit the parameters, or None."""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in getattr(a, "posonlyargs", []) + a.args][skip:]
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    if len(call.args) > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return "%s is given twice" % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return "there is no parameter %s" % k.arg
        given.add(k.arg)
    miss = [x for x in need if x not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    return "%s is missing" % ", ".join(miss) if miss else None


def deconames(fn):
    return set(d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?" for d in fn.decorator_list)


def isexc(p, c):
    seen = [c]
    for k in p.mro(c):
        for b in k.node.bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ""
            x = getattr(builtins, n, None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return True
    return False


def project_only(p, c):
    """Every base is a class of the project or object."""
    for k in p.mro(c):
        if len([b for b in p.bases(k) if b is not None]) < len([b for b in k.node.bases if not (isinstance(b, ast.Name) and b.id == "object")]):
            return False
    return True


def calls(R, p, mod):
    props = p._h01_props
    for qual, fn, cls in functions(mod) + [("<module>", None, None)]:
        body = fn.body if fn is not None else [s for s in mod.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        loc = enclosing_locals(mod, fn) if fn is not None else set()
        ci = p._h01_cls.get(cls)
        for s in body:
            for n in walk_here(s):
                if not isinstance(n, ast.Call):
                    continue
                where = "%s:%d" % (mod.path_rel, n.lineno)
                f = n.func
                root = f
                while isinstance(root, ast.Attribute):
                    root = root.value
                target, skip, label = None, 0, ast.unparse(f)[:60]
                if isinstance(root, ast.Name) and root.id not in loc:
                    r = p.lookup_dotted(mod, f)
                    if r is None and isinstance(f, ast.Attribute):
                        b = p.lookup_dotted(mod, f.value)
                        if b is not None and b[0] == "mod" and b[1] in p.mods and not p.mods[b[1]].star:
                            R.count("call")
                            R.finding("call", "%s: %s" % (qual, label), "module %s has no %s" % (b[1], f.attr), where)
                            continue
                    if r is not None and r[0] == "class":
                        if any(k.node.keywords for k in p.mro(r[1])):      # a metaclass makes its instances
                            continue
                        m = p.method(r[1], "__init__")
                        if m is None and project_only(p, r[1]) and not isexc(p, r[1]):
                            R.count("call")
                            if n.args or n.keywords:
                                R.finding("call", "%s: %s" % (qual, label), "%s takes no arguments" % label, where)
                            continue
                        if m is not None:
                            target, skip = m[0], 1
                    elif r is not None and r[0] == "func":
                        d = deconames(r[1])
                        if not d - {"staticmethod", "classmethod"}:
                            target = r[1]
                            if isinstance(f, ast.Attribute):
                                b = p.lookup_dotted(mod, f.value)
                                if b is not None and b[0] == "class":
                                    skip = 1 if "classmethod" in d else 0
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and fn is not None and ci is not None and fn.args.args \
                        and f.value.id == fn.args.args[0].arg and not deconames(fn) & {"staticmethod", "classmethod"}:
                    m = p.method(ci, f.attr)
                    if m is not None and not any(f.attr in k.attrs for k in p.mro(ci)):
                        d = deconames(m[0])
                        over = [p.method(k, f.attr) for k in p.subclasses(ci)]
                        if not d - {"staticmethod"} and all(o is None or o[0] is m[0] for o in over):
                            target, skip = m[0], 0 if "staticmethod" in d else 1
                        if "property" in d:
                            R.count("call")
                            t = [x for x in ast.walk(m[0]) if isinstance(x, ast.Return)]
                            if n.args:
                                R.finding("call", "%s: %s" % (qual, label), "%s is a property, not a method" % f.attr, where)
                            continue
                if isinstance(f, ast.Attribute) and target is None and f.attr in props and isinstance(f.value, ast.Name):
                    R.count("call")
                    if props[f.attr] and not (isinstance(root, ast.Name) and root.id not in loc and p.lookup(mod, root.id) is not None and p.lookup(mod, root.id)[0] in ("mod", "ext")):
                        R.finding("call", "%s: %s" % (qual, label), "%s is a property of every class that has it, and is called" % f.attr, where)
                    continue
                if target is not None:
                    R.count("call")
                    why = fits(target.args, n, skip)
                    if why:
                        R.finding("call", "%s: %s" % (qual, label), "the call does not fit: %s" % why, where)


def enclosing_locals(mod, fn):
    chain = mod._h01_chain
    out = set()
    while fn is not None:
        out |= locals_of(fn)
        fn = chain.get(fn)
    return out


def messages(R, p, mod, qual, fn, body):
    def const(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = const(e.left), const(e.right)
            return a + b if a is not None and b is not None else None
        return None
    formatted = set()
    for s in body:
        for n in walk_here(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
                t = const(n.func.value)
                formatted |= set(id(x) for x in ast.walk(n.func.value))
                if t is None or any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                R.count("message")
                try:
                    fields = [f for _, f, _, _ in string.Formatter().parse(t) if f is not None]
                except ValueError as err:
                    R.finding("message", "%s: %s" % (qual, t[:40]), "the format string is broken: %s" % err, "%s:%d" % (mod.path_rel, n.lineno))
                    continue
                auto = 0
                for f in fields:
                    k = re.split(r"[.\[]", f)[0]
                    if k == "":
                        k, auto = str(auto), auto + 1
                    if k.isdigit() and int(k) >= len(n.args) or not k.isdigit() and k not in [x.arg for x in n.keywords]:
                        R.finding("message", "%s: %s" % (qual, t[:40]), "the format string names {%s}, which is not given" % k, "%s:%d" % (mod.path_rel, n.lineno))
                        break
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                t = const(n.left)
                formatted |= set(id(x) for x in ast.walk(n.left))
                if t is None:
                    continue
                specs = re.findall(r"%(\(\w+\))?[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])", t)
                k = len([1 for a, b in specs if b != "%"])
                if any(a for a, b in specs) or "*" in t:
                    continue
                R.count("message")
                if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts) and len(n.right.elts) != k:
                    R.finding("message", "%s: %s" % (qual, t[:40]), "the format string takes %d values and gets %d" % (k, len(n.right.elts)), "%s:%d" % (mod.path_rel, n.lineno))
    for s in body:
        for n in walk_here(s):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
                R.count("message")
                for a in n.exc.args:
                    t = const(a)
                    if t is not None and re.search(r"\{\d+\}", t) and id(a) not in formatted:
                        R.finding("message", "%s: %s" % (qual, t[:40]), "the message has places to fill in, but is not formatted", "%s:%d" % (mod.path_rel, n.lineno))


def excepts(R, p, mod, qual, fn, body):
    loc = enclosing_locals(mod, fn) if fn is not None else set()

    def exccall(e):
        if isinstance(e, ast.Call):
            f = e.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in loc:
                r = p.lookup_dotted(mod, f)
                if r is not None and r[0] == "class" and isexc(p, r[1]):
                    return r[1].name
                if r is None and isinstance(f, ast.Name):
                    x = getattr(builtins, f.id, None)
                    if isinstance(x, type) and issubclass(x, BaseException):
                        return f.id
        return None
    returns = [n for s in body for n in walk_here(s) if isinstance(n, ast.Return) and n.value is not None]
    maker = bool(returns) and all(exccall(n.value) for n in returns)        # a function that makes exceptions for others to raise
    for s in body:
        for n in walk_here(s):
            if isinstance(n, ast.Return) and n.value is not None or isinstance(n, ast.Expr):
                x = exccall(n.value)
                if x and not (maker and isinstance(n, ast.Return)):
                    R.finding("raise", "%s: %s" % (qual, x), "the exception is made but not raised", "%s:%d" % (mod.path_rel, n.lineno))
            if isinstance(n, ast.Raise):
                R.count("raise")
                e = n.exc
                if isinstance(e, ast.Constant) or isinstance(e, ast.JoinedStr):
                    R.finding("raise", "%s: raise" % qual, "what is raised is no exception", "%s:%d" % (mod.path_rel, n.lineno))
                f = e.func if isinstance(e, ast.Call) else e
                if isinstance(f, (ast.Name, ast.Attribute)):
                    root = f
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if isinstance(root, ast.Name) and root.id not in loc:
                        r = p.lookup_dotted(mod, f)
                        if r is not None and r[0] == "class" and project_only(p, r[1]) and not isexc(p, r[1]):
                            R.finding("raise", "%s: %s" % (qual, r[1].name), "what is raised is no exception", "%s:%d" % (mod.path_rel, n.lineno))
            if isinstance(n, ast.Compare):
                R.count("raise")
                for op, a, b in zip(n.ops, [n.left] + n.comparators, n.comparators):
                    if isinstance(op, (ast.Is, ast.IsNot)):
                        for e in (a, b):
                            if isinstance(e, (ast.Tuple, ast.List, ast.Dict)) or isinstance(e, ast.Constant) and not (e.value is None or isinstance(e.value, bool) or e.value is Ellipsis):
                                R.finding("raise", "%s: %s" % (qual, ast.unparse(n)[:50]), "identity with a literal does not compare values", "%s:%d" % (mod.path_rel, n.lineno))


# ---- reads of locals that nothing can have bound -----------------------------------------------------------------------
class Bound(object):
    """Names that may be bound, along the statements of one function; a read of a local outside them fails always."""

    def __init__(self, R, mod, qual, fn):
        self.R, self.mod, self.qual, self.fn = R, mod, qual, fn
        self.loc = locals_of(fn)
        a = fn.args
        start = set(x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", []))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                start.add(x.arg)
        for s in ast.walk(fn):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                self.loc -= set(s.names)
        self.loc -= set()
        self.loop = []
        self.block(fn.body, start)

    def expr(self, e, b):
        if e is None:
            return b
        for n in self.order(e):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in self.loc:
                    self.R.count("bound")
                    if n.id not in b:
                        self.R.finding("bound", "%s: %s" % (self.qual, n.id), "%s is read before anything can have been assigned to it" % n.id, "%s:%d" % (self.mod.path_rel, n.lineno))
                        b = b | {n.id}
                elif isinstance(n.ctx, ast.Store):
                    b = b | {n.id}
            elif isinstance(n, ast.NamedExpr):
                b = b | {n.target.id}
        return b

    def order(self, e):
        """Names read in this scope (comprehension variables and lambda bodies apart)."""
        out, todo = [], [(e, frozenset())]
        while todo:
            n, hid = todo.pop(0)
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                todo.insert(0, (n.generators[0].iter, hid))
                continue
            if isinstance(n, (ast.Name, ast.NamedExpr)):
                out.append(n)
            todo = [(c, hid) for c in ast.iter_child_nodes(n)] + todo
        return out

    def block(self, body, b):
        for s in body:
            b = self.stmt(s, b)
            if b is None:
                return None
        return b

    @staticmethod
    def join(*bs):
        bs = [x for x in bs if x is not None]
        return frozenset().union(*bs) if bs else None

    def stmt(self, s, b):
        b = frozenset(b)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return b | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return b | set(a.asname or a.name.split(".")[0] for a in s.names)
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                b = self.expr(e, b)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loop:
                self.loop[-1] = self.join(self.loop[-1], b)
            return None
        if isinstance(s, ast.If):
            b = self.expr(s.test, b)
            return self.join(self.block(s.body, b), self.block(s.orelse, b))
        if isinstance(s, (ast.For, ast.While)):
            # names assigned anywhere in the loop may be bound in a later round
            more = frozenset()
            for x in s.body:
                for n in walk_here(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        more |= {n.id}
            if isinstance(s, ast.For):
                b = self.expr(s.iter, b)
                b2 = self.expr(s.target, b | more)
            else:
                b2 = self.expr(s.test, b | more)
            self.loop.append(None)
            e = self.block(s.body, b2)
            br = self.loop.pop()
            out = self.join(b, e, b2)
            o = self.block(s.orelse, out)
            return self.join(o, br)
        if isinstance(s, ast.Try):
            e = self.block(s.body, b)
            some = b
            for x in s.body:
                for n in walk_here(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        some |= {n.id}
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        some |= set(a.asname or a.name.split(".")[0] for a in n.names)
            outs = [self.block(s.orelse, e) if e is not None else None]
            for h in s.handlers:
                hb = some | ({h.name} if h.name else set())
                r = self.block(h.body, hb)
                outs.append(r - {h.name} if r is not None and h.name else r)
            out = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(out, some))
                return self.join(out, f) if out is not None and f is not None else None
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                b = self.expr(i.context_expr, b)
                b = self.expr(i.optional_vars, b)
            return self.block(s.body, b)
        if isinstance(s, ast.Assign):
            b = self.expr(s.value, b)
            for t in s.targets:
                b = self.expr(t, b)
            return b
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.loc and s.target.id not in b:
                self.R.finding("bound", "%s: %s" % (self.qual, s.target.id), "%s is updated before anything can have been assigned to it" % s.target.id, "%s:%d" % (self.mod.path_rel, s.lineno))
            b = self.expr(s.value, b)
            return self.expr(s.target, b)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return b
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                b = self.expr(e, b)
        return b


def run(R):
    R.rule("name", "every name read is defined: a local, a name of the module or what it imports, or a builtin")
    R.rule("bound", "no local is read where nothing can have been assigned to it")
    R.rule("call", "a call of a function or class of this package fits its parameters; a property is not called; what is taken from a module exists")
    R.rule("message", "format strings get the values they name, and messages with places to fill in are formatted")
    R.rule("raise", "an exception that is made is raised, what is raised is an exception, and values are not compared by identity")
    p = Project()
    p._h01_cls = dict((c.node, c) for c in p.classes) if isinstance(getattr(p, "classes", None), (list, set)) else p._class_by_node()
    props = {}
    for node, c in p._h01_cls.items():
        fields = set(c.attrs)
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                fields.add(n.attr)
        for k, m in c.methods.items():
            ok = "property" in deconames(m)
            props[k] = props.get(k, True) and ok
        for k in fields - set(c.methods):
            props[k] = False
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                props[n.attr] = False
            elif isinstance(n, (ast.FunctionDef,)) and "property" not in deconames(n):
                props[n.name] = False
    std = set(x for t in (dict, list, str, bytes, set, tuple, int, float) for x in dir(t))
    p._h01_props = dict((k, v) for k, v in props.items() if v and k not in std)
    for name in sorted(p.mods):
        mod = p.mods[name]
        mod.path_rel = p.where(mod.tree.body[0], mod).rsplit(":", 1)[0] if mod.tree.body else name
        mod._h01_chain = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for c in ast.walk(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) and c is not n:
                        mod._h01_chain[c] = n       # the innermost one comes last
        names(R, p, mod)
        calls(R, p, mod)
        for qual, fn, cls in functions(mod) + [("<module>", None, None)]:
            body = fn.body if fn is not None else [s for s in mod.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
            messages(R, p, mod, qual, fn, body)
            excepts(R, p, mod, qual, fn, body)
            if fn is not None:
                Bound(R, mod, qual, fn)
    R.floor("name", 5000)
    R.floor("bound", 5000)
    R.floor("call", 1500)
    R.floor("message", 500)
    R.floor("raise", 1000)


if __name__ == "__main__":
    report.main("H01", run)
