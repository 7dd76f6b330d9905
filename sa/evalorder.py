"""Evaluation of the parts of a special form: which, when, how often, under what condition, with which variables bound.

The code generated for the form is explored with the run-time helpers inlined; reading a part's code is an event.  The
same exploration of the reference definition must give the same language of events."""
import ast
from .proj import AnalysisBroken
from .interp import Sym
from .lts import Client, Explorer, difference, subterms, show

OWN = ("param", "scope")
SCOPES = ("DynamicScope",)


def partname(path):
    return "_".join(x.strip("[]<>") for x in path)


def parts_of(t):
    return tuple(sorted(set(x[1] for x in subterms(t) if isinstance(x, tuple) and x[:1] == ("val",))))


class FormClient(Client):
    """names: identifier -> ("code", part) | ("data", what)."""

    def __init__(self, proj, names, sandbox, opaque, boolparts, nullparts, throwers=()):
        self.proj, self.names, self.sandbox, self.opaque = proj, names, sandbox, opaque
        self.boolparts, self.nullparts, self.throwers = boolparts, nullparts, throwers
        self.failing, self.anyret, self.nolet = (), False, False
        self.env = {}

    def kind(self, part, table):
        return any(part == x or part.rsplit("_", 1)[-1] == x or part.rsplit("_", 1)[0] == x and part.rsplit("_", 1)[1].isdigit() for x in table)

    # scopes
    def chain(self, t):
        out = []
        while isinstance(t, tuple) and t[0] == "new" and t[1][1].split(".")[-1] in SCOPES and len(t[2]) == 1:
            out.append(t)
            t = t[2][0]
        out.append(t)
        return out

    def sees(self, ex, env, fid):
        sc = ex.loadname(env, fid, None, "scope")
        ch = self.chain(sc)
        if ch[-1] != OWN:
            return ("detached",)
        return tuple(sorted(set(k for s in ch for k in env.get(("lets", s), ())), key=repr))

    def load(self, name, ex, env, fid):
        d = self.names.get(name)
        if d is None:
            return None
        if d[0] == "data":
            return None, ("data", d[1])
        if d[0] == "const":
            return None, ("const", d[1])
        part = d[1]
        term = ("val", part)
        see = self.sees(ex, env, fid)
        out = []
        if self.kind(part, self.boolparts):
            return [(("eval", part, see, pol), term, (term, pol)) for pol in (True, False)]
        if self.kind(part, self.nullparts):
            return [(("eval", part, see, "null" if pol else "value"), term, (("op", "is", term, ("const", None)), pol)) for pol in (True, False)]
        return [(("eval", part, see, None), term, None)]

    def inline(self, fn, mod):
        return fn.name not in self.opaque

    def resolve_call(self, ex, callee, args, kws):
        if callee[0] == "global" and callee[1] in self.sandbox:
            r = self.sandbox[callee[1]]
            if r is not None and r[0].name not in self.opaque:
                return r[0], r[1], None
        return None

    def load_raises(self, name):
        d = self.names.get(name)
        if d is None or d[0] != "code":
            return ()
        return [(("fails", d[1], k), ("new", ("global", k), ())) for k in self.failing]

    def keys(self, t):
        """Description of the bindings passed to let/set."""
        if t[:2] == ("op", "dict"):
            out = []
            for i in range(2, len(t), 2):
                out.append((self.key(t[i]), self.what(t[i + 1])))
            return tuple(sorted(out, key=repr))
        return (("...", parts_of(t)),)

    def key(self, t):
        return t[1] if t[0] == "const" else "the %s" % t[1] if t[0] == "data" else "a computed name"

    def what(self, t):
        if t[0] == "val":
            return t[1]
        if t[0] in ("elem", "key", "index"):
            return t[0] + " of " + "+".join(parts_of(t))
        return "some value"

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr":
            root = self.chain(callee[1])[-1]
            if root == OWN and callee[2] == "let" and self.nolet:
                return None
            if root == OWN and callee[2] in ("let", "set") and args:
                d = "own" if callee[1] == OWN else "inner"
                return (callee[2], d, self.keys(args[0]))
            if callee[1] == ("param", "state") and callee[2] == "checkTime":
                return ("time",)
        if callee[0] == "item" and callee[1][0] == "val":
            return ("run", callee[1][1], tuple(sorted((k for s in self.chain(args[1])[:-1] for k in self.env.get(("lets", s), ())), key=repr)) if len(args) > 1 else ())
        return None

    def call_effect(self, callee, args, kws, env, ex):
        self.env = env
        if callee[0] == "attr" and callee[2] == "let" and args and not self.nolet:
            root = self.chain(callee[1])[-1]
            if root == OWN:
                k = ("lets", callee[1])
                t = args[0]
                ks = [self.key(t[i]) for i in range(2, len(t), 2)] if t[:2] == ("op", "dict") else ["..."]
                env[k] = tuple(sorted(set(env.get(k, ())) | set(ks), key=repr))

    def raises(self, callee, args, ex):
        n = callee[1] if callee[0] == "global" else callee[2] if callee[0] == "attr" else None
        return ("new", ("global", self.throwers[n]), ()) if n in self.throwers else False

    def ret_event(self, t, ex):
        if self.anyret:
            return ("ret", "a value")
        if t[0] == "const" and t[1] is None:
            return ("ret", "null")
        if t[0] == "val":
            return ("ret", t[1])
        if t[0] == "call" and t[1][0] == "item" and t[1][1][0] == "val":
            return ("ret", "result of " + t[1][1][1])
        return ("ret", "other")

    def raise_event(self, t, ex):
        return ("raise",)


def words(w):
    out = []
    for l in w:
        if l is None:
            continue
        if l[0] == "eval":
            s = l[1]
            if l[3] is not None:
                s += "=%s" % l[3]
            if l[2]:
                s += " seeing " + ",".join(map(str, l[2]))
            out.append(s)
        elif l[0] == "let" or l[0] == "set":
            out.append("%s %s (%s scope)" % (l[0], ", ".join(str(k) for k, v in l[2]), l[1]))
        elif l[0] == "ret":
            out.append("yield " + l[1])
        else:
            out.append(" ".join(map(str, l)))
    return " ; ".join(out)
