"""Project loader: parses /repo's current sources and resolves modules, imports, classes and methods."""
import ast, os, sys, hashlib, warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)
warnings.filterwarnings("ignore", category=DeprecationWarning)
sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished or the source cannot be analysed: error exit, never a silent pass."""


class ModInfo(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.defs = {}        # name -> list of binding descriptors, last one wins
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.star = []

    def __repr__(self):
        return "<mod %s>" % self.name


class ClassInfo(object):
    def __init__(self, node, mod, qual, outer=None):
        self.node, self.mod, self.qual, self.outer = node, mod, qual, outer
        self.name = node.name
        self.methods = {}      # name -> FunctionDef
        self.attrs = {}        # name -> expr node
        self.inner = {}
        self.decorators = node.decorator_list
        for s in node.body:
            self._stmt(s)

    def _stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # property setters keep the getter under the plain name
            decos = [d for d in s.decorator_list]
            if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in decos):
                self.methods[s.name + "@setter"] = s
            else:
                self.methods[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.attrs[s.target.id] = s.value
        elif isinstance(s, ast.ClassDef):
            self.inner[s.name] = ClassInfo(s, self.mod, self.qual + "." + s.name, self)
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                for x in getattr(s, f, []):
                    self._stmt(x)

    @property
    def key(self):
        return (self.mod.name, self.qual)

    def __repr__(self):
        return "<class %s.%s>" % (self.mod.name, self.qual)


class Project(object):
    def __init__(self, root=None, package="titus"):
        self.root = root or os.environ.get("VERIF_REPO", "/repo")
        self.mods = {}
        self.classes = []
        self.func_owner = {}    # FunctionDef node -> (mod, ClassInfo or None, qualname)
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken("no package directory %s" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        self.mods[rel] = ModInfo(rel, p, src)
                    except SyntaxError as err:
                        raise AnalysisBroken("cannot parse %s: %s" % (p, err))
        for m in self.mods.values():
            self._index(m)
        for c in self.classes:
            c.bases_resolved = None
        self._subs = None

    # ---- indexing
    def _index(self, m):
        def bind(name, what):
            m.defs.setdefault(name, []).append(what)

        def stmts(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    bind(s.name, ("func", s))
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s, m, s.name)
                    self._addclass(c)
                    bind(s.name, ("class", c))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            bind(a.asname, ("mod", a.name))
                        else:
                            bind(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        pkg = m.name.split(".")
                        if not m.is_pkg:
                            pkg = pkg[:-1]
                        pkg = pkg[:len(pkg) - (s.level - 1)]
                        base = ".".join(pkg + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == "*":
                            m.star.append(base)
                        else:
                            bind(a.asname or a.name, ("from", base, a.name))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                bind(n.id, ("var", s.value if isinstance(t, ast.Name) else None, s))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    bind(s.target.id, ("var", s.value, s))
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    bind(s.target.id, ("var", None, s))
                elif isinstance(s, (ast.If, ast.While)):
                    stmts(s.body); stmts(s.orelse)
                elif isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            bind(n.id, ("var", None, s))
                    stmts(s.body); stmts(s.orelse)
                elif isinstance(s, ast.Try):
                    stmts(s.body)
                    for h in s.handlers:
                        if h.name:
                            bind(h.name, ("var", None, s))
                        stmts(h.body)
                    stmts(s.orelse); stmts(s.finalbody)
                elif isinstance(s, ast.With):
                    for it in s.items:
                        if it.optional_vars is not None:
                            for n in ast.walk(it.optional_vars):
                                if isinstance(n, ast.Name):
                                    bind(n.id, ("var", None, s))
                    stmts(s.body)
        stmts(m.tree.body)
        for n in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        # function owners, including nested
        def own(node, cls, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    q = (qual + "." if qual else "") + getattr(ch, "name", "<lambda>")
                    self.func_owner[ch] = (m, cls, q)
                    own(ch, cls, q)
                elif isinstance(ch, ast.ClassDef):
                    c = self._class_by_node.get(ch)
                    own(ch, c, (qual + "." if qual else "") + ch.name)
                else:
                    own(ch, cls, qual)
        own(m.tree, None, "")

    @property
    def _class_by_node(self):
        return self.__dict__.setdefault("_cbn", {})

    def _addclass(self, c):
        self.classes.append(c)
        self._class_by_node[c.node] = c
        for i in c.inner.values():
            self._addclass(i)

    # ---- resolution
    def mod(self, name):
        if name not in self.mods:
            raise AnalysisBroken("module %s not found" % name)
        return self.mods[name]

    def lookup(self, mod, name, _seen=None):
        """Resolve a module-level name.  Returns ('func', node, mod) | ('class', ClassInfo) | ('mod', name) |
        ('ext', dotted) | ('var', expr, stmt, mod) | None"""
        seen = _seen if _seen is not None else set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.defs:
            d = mod.defs[name][-1]
            return self._resolve(mod, d, seen)
        for s in mod.star:
            if s in self.mods:
                r = self.lookup(self.mods[s], name, seen)
                if r is not None:
                    return r
            else:
                pass
        return None

    def _resolve(self, mod, d, seen):
        if d[0] == "func":
            return ("func", d[1], mod)
        if d[0] == "class":
            return ("class", d[1])
        if d[0] == "mod":
            return ("mod", d[1])
        if d[0] == "from":
            base, nm = d[1], d[2]
            if base + "." + nm in self.mods:
                if base in self.mods and nm in self.mods[base].defs and base != mod.name:
                    pass
                return ("mod", base + "." + nm)
            if base in self.mods:
                r = self.lookup(self.mods[base], nm, seen)
                if r is not None:
                    return r
                return ("missing", base + "." + nm)
            return ("ext", base + "." + nm)
        if d[0] == "var":
            return ("var", d[1], d[2], mod)

    def lookup_dotted(self, mod, node):
        """Resolve a Name/Attribute chain at module scope."""
        if isinstance(node, ast.Name):
            return self.lookup(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.lookup_dotted(mod, node.value)
            if b is None:
                return None
            if b[0] == "mod":
                full = b[1] + "." + node.attr
                if b[1] in self.mods:
                    r = self.lookup(self.mods[b[1]], node.attr)
                    if r is not None:
                        return r
                    if full in self.mods:
                        return ("mod", full)
                    return None
                return ("ext", full) if b[1].split(".")[0] != "titus" else None
            if b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if b[0] == "class":
                c = b[1]
                if node.attr in c.inner:
                    return ("class", c.inner[node.attr])
                for k in self.mro(c):
                    if node.attr in k.methods:
                        return ("func", k.methods[node.attr], k.mod)
                    if node.attr in k.attrs:
                        return ("var", k.attrs[node.attr], None, k.mod)
        return None

    def bases(self, c):
        if getattr(c, "_b", None) is None:
            out = []
            for b in c.node.bases:
                r = self.lookup_dotted(c.mod, b)
                if r is None and isinstance(b, ast.Name) and c.outer is not None and b.id in c.outer.inner:
                    r = ("class", c.outer.inner[b.id])
                if r is not None and r[0] == "class":
                    out.append(r[1])
                elif r is not None and r[0] == "ext":
                    out.append(r[1])
                elif isinstance(b, ast.Name):
                    out.append(b.id)
            c._b = out
        return c._b

    def mro(self, c):
        """Linearisation (left-to-right depth first, duplicates kept last: adequate for this code base)."""
        if getattr(c, "_mro", None) is None:
            seq = [c]
            for b in self.bases(c):
                if isinstance(b, ClassInfo):
                    seq.extend(self.mro(b))
            out = []
            for i, k in enumerate(seq):
                if k not in seq[i + 1:]:
                    out.append(k)
            c._mro = out
        return c._mro

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for k in self.classes:
                for m in self.mro(k)[1:]:
                    self._subs.setdefault(m, []).append(k)
        return self._subs.get(c, [])

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name], k
        return None

    def cls(self, modname, qual):
        m = self.mod(modname)
        for c in self.classes:
            if c.mod is m and c.qual == qual:
                return c
        raise AnalysisBroken("class %s.%s not found" % (modname, qual))

    def func(self, modname, name):
        m = self.mod(modname)
        d = m.defs.get(name)
        if d and d[-1][0] == "func":
            return d[-1][1]
        raise AnalysisBroken("function %s.%s not found" % (modname, name))

    def where(self, node, mod):
        return "%s:%d" % (os.path.relpath(mod.path, self.root), getattr(node, "lineno", 0))

    def funcqual(self, fn):
        m, c, q = self.func_owner.get(fn, (None, None, "?"))
        return "%s.%s" % (m.name if m else "?", q)

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.mods):
            h.update(self.mods[n].src.encode())
        return h.hexdigest()[:16]
