"""The type-checker's guards.  The walk of each special form is interpreted with an oracle in place of the questions it asks
(does this type accept that one, is this name taken, is this scope sealed, is the name valid, is there such a cell): turning
one answer bad must leave no way to a normal end."""
import ast
from .proj import AnalysisBroken
from .interp import Sym, Alloc, Res, Ext, Fn, Cls, V, EMPTY, NONE, Const, _Const, Unreach, symstr, _single_const
from .codegen import WALKARGS
from .forms import FormInterp, FormModel, variants, NCHILD

VALIDATORS = ("validSymbolName", "validFunctionName", "validEngineName")
ASKED = ("get", "writable", "cell", "pool")


SETOPS = {"intersection": "BitAnd", "difference": "Sub", "union": "BitOr"}


class GuardInterp(FormInterp):
    def __init__(self, proj, model):
        FormInterp.__init__(self, proj, model)
        self.scopecls = proj.cls("titus.pfaast", "SymbolTable")
        self.reset()

    def reset(self, bad=None, pins=None):
        self.bad = bad              # predicate: key -> None (default) or the answer (a value)
        self.pins = pins or {}      # symbol -> class name its value is an instance of
        self.asked = []             # questions, in order
        self.scopes = {"symbolTable": (None, None, None)}
        self.puts = []              # (scope, name, type)
        self.walks = []             # (child path, scope, function table)
        self.raised = []            # names of exception classes raised explicitly

    # ---- rendering --------------------------------------------------------------------------------------------
    def sh(self, v, depth=0):
        out = []
        for o in v:
            if isinstance(o, Sym):
                r = o.root
                if isinstance(r, tuple) and r[0] == "ctx":
                    out.append("<%s>%s" % (".".join(map(str, r[1])), "".join("." + str(x) for x in o.path)))
                elif isinstance(r, tuple):
                    out.append("%s(%s)%s" % (r[0], ",".join(map(str, r[1:])), "".join("." + str(x) for x in o.path)))
                else:
                    out.append(symstr(o))
            elif isinstance(o, Alloc) and depth < 4:
                f = self.fields(o)
                if o.typ in ("list", "tuple"):
                    out.append("[%s]" % ", ".join(self.sh(b, depth + 1) for a, b in sorted(f.items(), key=str) if a not in ("#n", "#maybe")))
                else:
                    out.append("%s(%s)" % (o.cls.name if o.cls else o.typ, ", ".join(self.sh(b, depth + 1) for a, b in sorted(f.items(), key=str) if a not in ("#n", "#maybe"))))
            elif isinstance(o, _Const):
                out.append(repr(o.v))
            elif isinstance(o, (Res, Ext)):
                q = o.op if isinstance(o, Res) else o.qual
                ss = o.srcs if isinstance(o, Res) else (o.recv or EMPTY)
                out.append("%s{%s}" % (q, "+".join(sorted(self.sh(V(x), depth + 1) for x in ss))) if depth < 5 else q)
            else:
                out.append(str(o)[:60])
        return "|".join(sorted(set(out)))

    # ---- questions --------------------------------------------------------------------------------------------
    def ask(self, key, default):
        self.asked.append(key)
        if self.bad is not None:
            r = self.bad(key)
            if r is not None:
                return r
        return default

    def scopeof(self, v):
        if len(v) == 1:
            o = next(iter(v))
            if isinstance(o, Sym) and not o.path and o.root in self.scopes:
                return o.root
        return None

    def scopesym(self, root):
        return V(Sym(root, (), ("inst", self.scopecls)))

    def some(self, node, what):
        return V(Alloc((id(node), "some " + what, ()), "some", None))

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef):
            name = o.node.name
            if o.self_ is not None and name == "accepts" and len(args) == 1:
                return self.ask(("accepts", o.self_, args[0]), V(Const(True)))
            if name in VALIDATORS and o.self_ is None and args:
                return self.ask(("valid", name, args[0]), V(Const(True)))
            if o.self_ is not None and o.cls is not None and o.cls.name == "SymbolTable":
                s = self.scopeof(o.self_)
                if s is not None:
                    a = list(args)
                    for p in o.node.args.args[1 + len(args):]:
                        if p.arg in kwargs:
                            a.append(kwargs[p.arg])
                    if name == "newScope" and len(a) == 2:
                        sid = ("scope", getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + tuple(self.unroll)
                        self.scopes[sid] = (s, self.sh(a[0]), self.sh(a[1]))
                        return self.scopesym(sid)
                    if name == "put" and len(a) == 2:
                        self.puts.append((s, a[0], a[1]))
                        return NONE
                    if name in ASKED and len(a) == 1:
                        return self.ask((name, s, a[0]), V(Sym((name, self.sh(a[0])), (), None)))
        return FormInterp.on_call(self, node, o, args, kwargs)

    def on_ext(self, node, qual, recv, args, kwargs):
        if qual == ".accepts" and recv is not None:
            if len(args) == 1:
                return self.ask(("accepts", recv, args[0]), V(Const(True)))
            r = self.ask(("match", recv, args[0] if args else EMPTY), None)
            if r is not None:
                return r
        if qual == ".get" and recv is not None and args and self.sh(recv) == "functionTable.functions":
            r = self.ask(("fcn", args[0]), None)
            if r is not None:
                return r
        return FormInterp.on_ext(self, node, qual, recv, args, kwargs)

    def on_load_attr(self, node, o, name):
        if isinstance(o, Alloc) and o.cls is not None and (o.cls.name, name) in (("AvroArray", "items"), ("AvroMap", "values")):
            v = self.fields(o).get(("arg", 0))      # the parts of a container just made
            if v:
                return v
        if isinstance(o, Sym):
            if not o.path and o.root in self.scopes and name == "sealedWithin":
                return self.ask(("sealedWithin", o.root), self.res("sealedWithin"))
            if self.pins:
                t = self.sh(V(o)) + "." + name
                if t in self.pins and not isinstance(self.pins[t], str):
                    return self.pinned(node, self.pins[t], ("pin", t))
                if t in self.pins:
                    return V(Sym(o.root, o.path + (name,), ("inst", self.typeclass(self.pins[t]), "exact")))
        return FormInterp.on_load_attr(self, node, o, name)

    def pinned(self, node, x, where):
        """A value from a description: a set of objects, [..] list, (..) tuple, {..} dict."""
        if isinstance(x, frozenset):
            return x
        if isinstance(x, (list, tuple)):
            return self.mklist(node, type(x).__name__, [self.pinned(node, y, where + (k,)) for k, y in enumerate(x)], where)
        if isinstance(x, dict):
            a = self.alloc(node, "dict", None, where)
            d = {"keys": frozenset(Const(k) for k in x), "#n": V(Const(len(x)))}
            for k, y in x.items():
                d[("k", k)] = self.pinned(node, y, where + (k,))
            self.st.heap[a] = d
            return V(a)
        return V(Const(x))

    def visible(self, scope):
        """[(name, type)] put so far into a scope or one it hangs from."""
        chain = []
        while scope is not None:
            chain.append(scope)
            scope = self.scopes[scope][0]
        return [(self.sh(n), self.sh(t)) for s, n, t in self.puts if s in chain]

    def chain(self, scope):
        out = []
        while scope is not None:
            out.append((scope,) + tuple(self.scopes[scope][1:]))
            scope = self.scopes[scope][0]
        return out

    def typeclass(self, name):
        return self.proj.cls("titus.datatype", name)

    def child_call(self, node, name, o, args, kwargs):
        if name == "walk" and self.isast(o):
            s = self.scopeof(args[1]) if len(args) > 1 else None
            self.walks.append((o.path, s, self.visible(s) if s is not None else None))
        return FormInterp.child_call(self, node, name, o, args, kwargs)

    def s_Raise(self, s):
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            self.raised.append(x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else "?")
        return FormInterp.s_Raise(self, s)

    def consts(self, v):
        """The constants of one collection of known elements, or None."""
        x = self.exact(v)
        if x is None or not all(len(y) == 1 and isinstance(next(iter(y)), _Const) for y in x):
            return None
        return set(next(iter(y)).v for y in x)

    def constlist(self, v):
        """The constants of one list or tuple of known elements, in order, or None."""
        o = next(iter(v)) if len(v) == 1 else None
        if isinstance(o, _Const) and isinstance(o.v, tuple):
            return o.v
        if isinstance(o, Alloc) and o.typ in ("list", "tuple"):
            x = self.exact(v)
            if x is not None and all(len(y) == 1 and isinstance(next(iter(y)), _Const) for y in x):
                return (list if o.typ == "list" else tuple)(next(iter(y)).v for y in x)
        return None

    def isset(self, v):
        return len(v) == 1 and isinstance(next(iter(v)), Alloc) and next(iter(v)).typ == "set"

    def setop(self, node, op, l, r):
        x, y = self.consts(l), self.consts(r)
        if x is None or y is None:
            return None
        return self.mklist(node, "set", [V(Const(z)) for z in sorted({"BitAnd": x & y, "Sub": x - y, "BitOr": x | y}[op], key=repr)], op)

    def on_binop(self, node, op, l, r):
        if op in ("BitAnd", "Sub", "BitOr") and self.isset(l) and self.isset(r):
            v = self.setop(node, op, l, r)
            if v is not None:
                return v
        return FormInterp.on_binop(self, node, op, l, r)

    def ext_method(self, node, name, recv, args, kwargs):
        if name in ("issubset", "issuperset") and len(args) == 1 and len(recv) == 1 and isinstance(next(iter(recv)), Alloc) and next(iter(recv)).typ == "set":
            x, y = self.consts(recv), self.consts(args[0])
            if x is not None and y is not None:
                return V(Const(x <= y if name == "issubset" else x >= y))
        if name in SETOPS and len(args) == 1 and self.isset(recv):
            v = self.setop(node, SETOPS[name], recv, args[0])
            if v is not None:
                return v
        if name in ("add", "discard", "remove") and len(args) == 1 and self.isset(recv) and _single_const(args[0]) is not None:
            x, c = self.consts(recv), _single_const(args[0])
            if x is not None:
                x = x | {c.v} if name == "add" else x - {c.v}
                self.st.heap[next(iter(recv))] = dict([(("i", k), V(Const(v))) for k, v in enumerate(sorted(x, key=repr))] + [("#n", V(Const(len(x))))])
                return NONE
        return FormInterp.ext_method(self, node, name, recv, args, kwargs)

    def compare1(self, op, l, r):
        v = FormInterp.compare1(self, op, l, r)
        if v is None and op in ("Eq", "NotEq") and l and r:
            a, b = next(iter(l)), next(iter(r))
            if isinstance(a, Alloc) and isinstance(b, Alloc) and a.typ == b.typ == "set":
                x, y = self.consts(l), self.consts(r)
                if x is not None and y is not None:
                    return (x == y) == (op == "Eq")
        if v is None and op in ("Eq", "NotEq") and l and r:
            x, y = self.constlist(l), self.constlist(r)
            if x is not None and y is not None and type(x) is type(y):
                return (x == y) == (op == "Eq")
        if v is None and op in ("LtE", "GtE", "Lt", "Gt") and len(l) == len(r) == 1:
            a, b = next(iter(l)), next(iter(r))
            if isinstance(a, Alloc) and isinstance(b, Alloc) and a.typ == b.typ == "set":
                x, y = self.consts(l), self.consts(r)
                if x is not None and y is not None:
                    return {"LtE": x <= y, "GtE": x >= y, "Lt": x < y, "Gt": x > y}[op]
        if v is None and op in ("In", "NotIn") and len(l) == 1 and isinstance(next(iter(l)), Sym) and r:
            y = self.exact(r)
            k = next(iter(l))
            if y is not None and k.kind is not None and k.kind[2:] == ("exact",):
                if any(e == l for e in y):
                    return op == "In"
                if all(len(e) == 1 and isinstance(next(iter(e)), Sym) and next(iter(e)).kind is not None and next(iter(e)).kind[2:] == ("exact",)
                       and next(iter(e)).kind[1] is not k.kind[1] for e in y):
                    return op != "In"
        if v is None and op in ("In", "NotIn") and _single_const(l) is not None and r:
            y = self.consts(r)
            if y is not None:
                return (_single_const(l).v in y) == (op == "In")
        return v

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        if recv is None and len(args) == 1:
            q = qual[9:] if qual.startswith("builtins.") else qual
            if q in ("any", "all"):
                x = self.exact(args[0])
                if x is not None:
                    ts = [self.truth(y) for y in x]
                    if q == "any" and (any(t is True for t in ts) or all(t is False for t in ts)):
                        return V(Const(any(ts)))
                    if q == "all" and (any(t is False for t in ts) or all(t is True for t in ts)):
                        return V(Const(all(t is True for t in ts)))
            if q in ("set", "frozenset"):
                x = self.exact(args[0])
                if x is not None:
                    return self.mklist(node, "set", x, "set")
        return FormInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def form(self, f, bad=None, pins=None):
        self.reset(bad, pins)
        self.inst = dict(f.inst)
        return self.walk(f.cls)

    def walk(self, name):
        ci = self.model.classes[name]
        m = self.proj.method(ci, "walk")
        if m is None:
            raise AnalysisBroken("%s has no walk method" % name)
        self.top, self.rets = m[0], []
        self.run_method(name, "walk", [self.scopesym(a) if a == "symbolTable" else V(Sym(a, (), None)) for a in WALKARGS])
        return [(n, st, v) for n, v, st in self.rets]
