import ast, json, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.strings import StrInterp, Str
from sa.interp import Sym, Alloc, Fn, Cls, V, Const, _Const, NONE, EMPTY, State, Unreach, _single_const
from sa.lts import Client, Explorer, subterms, show

SPEC = os.path.join(report.VERIF, "spec", "pack_formats.json")
REFN = ("match", "search", "fullmatch")


class Fold(StrInterp):
    """Constant folding of regular expressions and string tests on constant format words."""

    def constexpr(self, expr, mod, depth=0):
        if isinstance(expr, ast.Call):
            r = self.proj.lookup_dotted(mod, expr.func)
            if r is not None and r[0] == "ext" and r[1] == "re.compile":
                a = [self.constexpr(x, mod, depth + 1) for x in expr.args]
                if a and all(x is not None and _single_const(x) is not None for x in a):
                    try:
                        return V(Const(re.compile(*[_single_const(x).v for x in a])))
                    except Exception:
                        return None
        if isinstance(expr, ast.Name):
            # attributes of the class body seen from the class body
            pass
        return StrInterp.constexpr(self, expr, mod, depth)

    def on_ext(self, node, qual, recv, args, kwargs):
        cs = [_single_const(a) for a in args]
        if all(c is not None for c in cs) and not kwargs:
            vs = [c.v for c in cs]
            try:
                if qual == "re.compile":
                    return V(Const(re.compile(*vs)))
                if qual.startswith("re.") and qual[3:] in REFN and len(vs) >= 2:
                    return self.m(getattr(re, qual[3:])(*vs))
                r = _single_const(recv) if recv is not None else None
                if r is not None and qual.startswith("."):
                    if isinstance(r.v, re.Pattern) and qual[1:] in REFN:
                        return self.m(getattr(r.v, qual[1:])(*vs))
                    if isinstance(r.v, re.Match) and qual[1:] in ("group", "groups"):
                        return V(Const(getattr(r.v, qual[1:])(*vs)))
                    if isinstance(r.v, str) and qual[1:] in ("startswith", "endswith", "strip", "lstrip", "rstrip", "split", "lower", "replace", "count", "find"):
                        x = getattr(r.v, qual[1:])(*vs)
                        if not isinstance(x, list):
                            return V(Const(x))
                if qual == "int" and len(vs) == 1:
                    return V(Const(int(vs[0])))
            except (ValueError, TypeError, re.error, IndexError):
                return None
        return StrInterp.on_ext(self, node, qual, recv, args, kwargs)

    def m(self, x):
        return NONE if x is None else V(Const(x))


def text(v):
    o = next(iter(v)) if v is not None and len(v) == 1 else None
    if isinstance(o, _Const) and isinstance(o.v, str):
        return o.v
    if isinstance(o, Str) and all(isinstance(x, str) for x in o.parts):
        return "".join(o.parts)
    return None


def declare(it, p, word, output):
    """(code, size, type, None) of a format word, or ("rejected", exception)."""
    ci = p.cls("titus.pfaast", "BinaryFormatter")
    m = p.method(ci, "formatToDeclare")
    if m is None:
        raise AnalysisBroken("BinaryFormatter.formatToDeclare not found")
    it.raised_ = []
    v = it.run(Fn(m[0], m[1].mod, m[1], None, None), [V(Const("V")), V(Const(word)), V(Sym("pos", (), None)), V(Const(output))], None, State())
    if not v:
        return ("rejected", it.raised_)
    if len(v) != 1 or not isinstance(next(iter(v)), Alloc):
        return ("?", v)
    o = next(iter(v))
    it.frames = [it.module_frame(m[1].mod)]
    n = ast.parse("x").body[0]
    t = text(it.call(n, it.getattr_(n, V(o), "__str__"), []))
    ty = it.getattr_(n, V(o), "avroType")
    tn = sorted(set(x.cls.name if isinstance(x, Alloc) and x.cls is not None else x.kind[1].name if isinstance(x, Sym) and x.kind and x.kind[0] == "inst" else str(x) for x in ty))
    if t is None:
        return ("?", v)
    try:
        name, code, size = ast.literal_eval(t)
    except Exception:
        return ("bad", t)
    return ("ok", name, code, size, tn[0] if len(tn) == 1 else None, o.cls.name)


class FoldR(Fold):
    def __init__(self, p):
        Fold.__init__(self, p)
        self.raised_ = []

    def on_raise(self, node, val):
        self.raised_.extend(val)

    def constexpr(self, expr, mod, depth=0):
        r = Fold.constexpr(self, expr, mod, depth)
        if r is None and isinstance(expr, ast.Call) and isinstance(expr.func, (ast.Name, ast.Attribute)) and not expr.args:
            x = self.proj.lookup_dotted(mod, expr.func)
            if x is not None and x[0] == "class":
                return V(Sym(("new", x[1].name), (), ("inst", x[1], "exact")))
        return r


def dispatch(rep, p, spec):
    it = FoldR(p)
    ci = p.cls("titus.pfaast", "BinaryFormatter")
    fn = p.method(ci, "formatToDeclare")[0]
    where = p.where(fn, ci.mod)
    codes = set()
    unjudged = []
    for k in spec["kinds"]:
        for w in k["words"]:
            ends = spec["endian"] if k["endian"] else {"": ">"}
            for e, order in sorted(ends.items()):
                spaced = [e + w, "  " + e + w + "  "]
                if " " in w and not w[-1].isdigit():
                    spaced.append(e + w.replace(" ", "   "))
                    if "long long" not in w:
                        spaced.append(e + w.replace(" ", ""))
                for word in spaced:
                    for output in (True, False):
                        rep.count("formats")
                        r = declare(it, p, word, output)
                        what = "%s of \"%s\"" % ("pack" if output else "unpack", word.strip())
                        if k.get("pack_only") and not output:
                            if r[0] == "ok":
                                rep.finding("formats", what, "is accepted although nothing says how many bytes to read", where)
                            continue
                        if r[0] == "?":
                            unjudged.append(what)
                            continue
                        if r[0] == "rejected":
                            rep.finding("formats", what, "is rejected", where)
                            continue
                        if r[0] == "bad":
                            rep.finding("formats", what, "the generated format is malformed: %s" % r[1], where)
                            continue
                        _, name, code, size, ty, cn = r
                        codes.add((code, size if isinstance(size, int) and k["size"] != "number" else None))
                        want = int(w.split()[1]) if k["size"] == "number" else k["size"]
                        if len(k["code"]) > 1:
                            ok = code == k["code"]
                        else:
                            ok = code[-1:] == k["code"] and len(code) <= 2
                            if ok and want > 1:
                                ok = {"<": "<", ">": ">", "!": ">"}.get(code[0]) == order
                            if ok and size is not None and struct.calcsize(code) != size:
                                rep.finding("formats", what, "says %s bytes, but the format %s takes %d" % (size, code, struct.calcsize(code)), where)
                        if not ok:
                            rep.finding("formats", what, "uses the format %s instead of %s%s" % (code, order if len(k["code"]) == 1 and want > 1 else "", k["code"]), where)
                        elif size != want:
                            rep.finding("formats", what, "has size %s instead of %s" % (size, want), where)
                        if name != "V":
                            rep.finding("formats", what, "the value or symbol is not carried over", where)
                        if ty is not None and ty != k["type"]:
                            rep.finding("formats", what, "has type %s instead of %s" % (ty, k["type"]), where)
    for word in spec["rejected"]:
        for output in (True, False):
            rep.count("rejected")
            r = declare(it, p, word, output)
            if r[0] == "ok":
                rep.finding("rejected", "\"%s\"" % word, "is accepted (as %s)" % r[2], where)
            elif r[0] == "rejected":
                names = set(o.cls.name for o in r[1] if isinstance(o, Alloc) and o.cls is not None)
                if names and names != {"PFASemanticException"}:
                    rep.finding("rejected", "\"%s\"" % word, "is rejected with %s" % ", ".join(sorted(names)), where)
    if unjudged:
        rep.note("formats not folded to constants", sorted(set(unjudged)))
    return codes


class CL(Client):
    def __init__(self, one, clauses):
        self.one, self.clauses = one, clauses

    def event(self, callee, args, kws, ex):
        if callee == ("global", "unpackOne"):
            return ("one", args)
        if callee[0] == "param" and callee[1] in self.clauses:
            return ("clause", self.clauses[callee[1]], args, ex.facts)
        return None

    def inline(self, fn, mod):
        return getattr(fn, "name", "") != "unpackOne"

    def raises(self, callee, args, ex):
        return ("new", ("global", "MisalignedPacking"), ()) if callee == ("global", "unpackOne") else False

    def ret_event(self, t, ex):
        return ("ret", t)

    def raise_event(self, t, ex):
        return ("raise", t)


def empty(facts, rest):
    """True/False when the facts say that nothing/something is left over, else None."""
    ln = ("call", ("global", "len"), (rest,))
    for f, pol in facts:
        if f == ("op", "nonempty", rest) or f == rest or f == ln:
            return not pol
        if f[0] == "op" and len(f) == 4 and ln in f:
            other = f[3] if f[2] == ln else f[2]
            op = f[1] if f[2] == ln else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(f[1], f[1])
            if other == ("const", 0):
                r = {"==": pol, "!=": not pol, ">": not pol, "<=": pol}.get(op)
                if r is not None:
                    return r
            if other == ("const", 1) and op in ("<", ">="):
                return pol if op == "<" else not pol
        if f[0] == "op" and len(f) == 4 and rest in f and (("const", b"") in f):
            return pol if f[1] == "==" else not pol
    return None


def clauses(rep, p):
    mod = p.mod("titus.genpy")
    for name in ("unpack", "unpackElse"):
        fn = p.func("titus.genpy", name)
        where = p.where(fn, mod)
        ps = [a.arg for a in fn.args.args]
        then, els = ps[4], ps[5] if len(ps) > 5 else None
        cl = {then: "then"}
        if els:
            cl[els] = "else"
        fmt = ("tuple", ("tuple", ("param", "s"), ("param", "f"), ("param", "l")))
        a = Explorer(p, CL(None, cl)).explore(fn, mod, {ps[3]: fmt}, None)

        def bad(msg):
            rep.finding("clauses", name, msg, where)
        start = (a.start, None, False)
        seen, work = {start}, [start]
        while work:
            n, one, failed = work.pop()
            for m, b in a.edges.get(n, ()):
                o, fl = one, failed
                l = m
                if m is not None and m[0] == "raised":
                    l, fl = m[1], True
                if l is not None and l[0] == "one":
                    o = ("call", ("global", "unpackOne"), l[1])
                if l is not None and l[0] == "clause":
                    rep.count("clauses")
                    e = empty(l[3], o) if o is not None else None
                    if o is None:
                        pass
                    elif l[1] == "then":
                        if fl:
                            bad("runs the then clause after a mismatch")
                        elif e is not True:
                            bad("runs the then clause although bytes may be left over")
                    elif not fl and e is not False:
                        bad("runs the else clause although everything matched")
                    o = "done"
                if m is not None and m[0] in ("ret", "raise"):
                    if m[0] == "raise" and "MisalignedPacking" in repr(m[1]):
                        bad("a mismatch leaves it as an exception")
                    elif m[0] == "ret" and els and o != "done":
                        bad("ends without running either clause")
                if (b, o, fl) not in seen:
                    seen.add((b, o, fl))
                    work.append((b, o, fl))


# ---- run-time helpers -----------------------------------------------------------------------------------------
B = ("param", "byte_s")
BYTES0 = (("const", b"\0"), ("call", ("global", "bytes"), (("tuple", ("const", 0)),)))


class U(Client):
    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "let" and args:
            return ("let", args[0], ex.facts)
        return None

    def inline(self, fn, mod):
        return True

    def raises(self, callee, args, ex):
        return callee[0] == "attr" and callee[2] == "index"

    def ret_event(self, t, ex):
        return ("ret", t, ex.facts)

    def raise_event(self, t, ex):
        return ("raise", t, ex.facts)


def span(t, env):
    """(start, end) within the input of a slice of it, for given lengths, or None."""
    if t == B:
        return (0, env["ALL"])
    if t[0] == "call" and t[1] in (("global", "bytes"), ("global", "bytearray")) and len(t[2]) == 1:
        return span(t[2][0], env)
    if t[0] == "item" and t[2][:2] == ("op", "slice") and t[2][4] == ("const", None):
        b = span(t[1], env)
        lo, hi = [None if x == ("const", None) else measure(x, env) for x in t[2][2:4]]
        if b is None or lo is None and t[2][2] != ("const", None) or hi is None and t[2][3] != ("const", None):
            return None
        r = range(b[0], b[1])[slice(lo, hi)]
        return (r.start, max(r.start, r.stop))
    return None


def measure(t, env):
    """A number computed from the lengths, for given lengths, or None."""
    if t[0] == "const":
        return t[1] if isinstance(t[1], int) and not isinstance(t[1], bool) else None
    if t[0] == "op" and t[1] in ("Add", "Sub") and len(t) == 4:
        a, b = measure(t[2], env), measure(t[3], env)
        return None if a is None or b is None else a + b if t[1] == "Add" else a - b
    if t[0] == "call" and t[1] == ("global", "len") and len(t[2]) == 1:
        s = span(t[2][0], env)
        return None if s is None else s[1] - s[0]
    x = lin(t)
    if x is not None and len(x) == 1 and list(x.values()) == [1] and set(x) <= set(env):
        return env[list(x)[0]]
    return None


def holds(f, pol, env):
    """Whether a fact about lengths holds for given lengths; None: not known, ... : no question of lengths."""
    if f[:2] == ("op", "not") and len(f) == 3:
        return holds(f[2], not pol, env)
    if f[0] == "op" and f[1] in ("and", "or"):
        xs = [holds(x, True, env) for x in f[2:]]
        if ... in xs:
            return None
        one = f[1] == "or"
        v = one if one in xs else None if None in xs else not one
        return None if v is None else v == pol
    if f[0] == "op" and f[1] == "nonempty" and len(f) == 3:
        s = span(f[2], env)
        return None if s is None else (s[1] > s[0]) == pol
    if f[0] == "op" and f[1] in ("==", "!=", "<", "<=", ">", ">=") and len(f) == 4:
        a, b = measure(f[2], env), measure(f[3], env)
        if a is None or b is None:
            return None
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[f[1]] == pol
    if f[0] == "call" and f[1] == ("global", "isinstance"):
        return ...
    s = span(f, env) if f[0] in ("item", "param", "call") else None
    if s is not None:
        return (s[1] > s[0]) == pol
    return None


def lengths(code):
    """[(lengths, whether the input is long enough)] to try."""
    if code == "prefixed":
        return [({"ALL": n, "LEN": k}, n >= k + 1) for n in range(1, 6) for k in range(6)]
    return [({"ALL": n, "SIZE": k}, n >= k) for n in range(6) for k in range(1, 6)]


def lin(t):
    """Linear form {atom: coefficient} of a length or position term ("" is the constant), or None."""
    if t[0] == "const":
        return {"": t[1]} if isinstance(t[1], int) and not isinstance(t[1], bool) else None
    if t[0] == "op" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == "Add" else -v)
        return {k: v for k, v in out.items() if v or k == ""}
    if t[0] == "call" and t[1] == ("global", "ord") and len(t[2]) == 1:
        t = t[2][0]
    if t == ("item", B, ("const", 0)):
        return {"LEN": 1}
    if t[0] == "item" and t[2] == ("const", 0) and t[1][0] == "call" and show(t[1]).find("unpack") >= 0:
        return {"LEN": 1}
    if t == ("item", ("item", B, ("op", "slice", ("const", None), ("const", 1), ("const", None))), ("const", 0)):
        return {"LEN": 1}
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] == B and t[1][2] in ("index", "find") and t[2] and t[2][0] in BYTES0 + (("const", 0),):
        return {"NUL": 1}
    if t == ("param", "l"):
        return {"SIZE": 1}
    if t == ("call", ("global", "len"), (B,)):
        return {"ALL": 1}
    if t[0] == "call" and t[1] == ("global", "len") and len(t[2]) == 1:
        s = piece(t[2][0])
        if s is not None and s[1] is not None:
            return add(s[1], s[0], -1)
    return None


def add(a, b, k=1):
    out = dict(a)
    for x, v in b.items():
        out[x] = out.get(x, 0) + k * v
    return {x: v for x, v in out.items() if v}


def norm(a):
    return {k: v for k, v in a.items() if v}


def piece(t):
    """(low, high or None) of a slice of the input as linear forms, or None."""
    if t == B:
        return ({}, None)
    if t[0] == "call" and t[1] in (("global", "bytes"), ("global", "bytearray")) and len(t[2]) == 1:
        return piece(t[2][0])
    if t[0] == "item" and t[2][:2] == ("op", "slice") and t[2][4] == ("const", None):
        base = piece(t[1])
        if base is None:
            return None
        lo, hi = t[2][2], t[2][3]
        l = {} if lo == ("const", None) else lin(lo)
        if l is None or any(v < 0 for v in l.values()):
            return None
        h = base[1]
        if hi != ("const", None):
            h = lin(hi)
            if h is None:
                return None
            h = add(base[0], h)
        return (norm(add(base[0], l)), norm(h) if h is not None else None)
    return None


EXPECT = {"raw": ({}, {"SIZE": 1}, {"SIZE": 1}), "tonull": ({}, {"NUL": 1}, {"NUL": 1, "": 1}), "prefixed": ({"": 1}, {"LEN": 1, "": 1}, {"LEN": 1, "": 1})}
FIXED = ({}, {"SIZE": 1}, {"SIZE": 1})


def enough(facts, code):
    """Do the facts on the path say that the bytes needed are there?  True, False or None (cannot tell)."""
    hi = norm(EXPECT.get(code, FIXED)[1])
    lo = norm(EXPECT.get(code, FIXED)[0])
    odd = False
    for f, pol in facts:
        if f[:1] == ("op",) and f[1] == "not" and len(f) == 3:
            f, pol = f[2], not pol
        if f[0] == "op" and f[1] in ("==", "!=", "<", "<=", ">", ">=") and len(f) == 4:
            a, b = f[2], f[3]
            op = f[1]
            if not pol:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", "<=": ">", ">": "<="}[op]
            la, lb = lin(a), lin(b)
            if la is None or lb is None:
                if any(x == B for x in subterms(f)):
                    odd = True
                continue
            d = norm(add(la, lb, -1))
            if op == "==":
                # the slice taken has the full length
                for s in (a, b):
                    if s[0] == "call" and s[1] == ("global", "len"):
                        s1 = piece(s[2][0]) if s[2] else None
                        other = lin(b if s is a else a)
                        if s1 is not None and s1[1] is not None and s1[1] == hi and s1[0] == lo and norm(other) == norm(add(hi, lo, -1)):
                            return True
            for dd, o in ((d, op), (norm({k: -v for k, v in d.items()}), {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op))):
                # ALL - hi >= 0
                if o in (">=", ">"):
                    need = norm(add({"ALL": 1}, hi, -1))
                    r = norm(add(dd, need, -1))
                    if set(r) <= {""} and (r.get("", 0) <= (1 if o == ">" else 0)):
                        return True
            if any(x == B for x in subterms(f)) and "nonempty" not in repr(f):
                odd = odd or not ("LEN" in d or "ALL" in d or "SIZE" in d)
        elif code == "tonull" and any(isinstance(x, tuple) and x[:1] == ("call",) and x[1][:1] == ("attr",) and x[1][1:] == (B, "find") for x in subterms(f)):
            return True
        elif any(x == B for x in subterms(f)) and f[:2] not in (("op", "nonempty"),) and not (f[0] == "call" and f[1] == ("global", "isinstance")):
            odd = True
    return None if odd else False


def unpacking(rep, p, codes):
    fn, mod = p.func("titus.genpy", "unpackOne"), p.mod("titus.genpy")
    where = p.where(fn, mod)
    ps = [a.arg for a in fn.args.args]
    if len(ps) != 5:
        raise AnalysisBroken("unpackOne has other parameters")
    unjudged = []
    for code in sorted(codes):
        a = Explorer(p, U()).explore(fn, mod, {ps[0]: B, ps[1]: ("param", "scope"), ps[2]: ("param", "s"), ps[3]: ("const", code), ps[4]: ("param", "l")}, None)
        lo, hi, rest = [norm(x) for x in EXPECT.get(code, FIXED)]
        what = "unpack of format %s" % code

        def bad(msg):
            rep.finding("unpack", what, msg, where)
        # every path: exactly one let before returning
        seen, work = {(a.start, 0)}, [(a.start, 0)]
        while work:
            n, lets = work.pop()
            for l, b in a.edges.get(n, ()):
                k = lets
                m = l
                if m is not None and m[0] == "let":
                    k = min(2, lets + 1)
                    rep.count("unpack")
                    d = m[1]
                    if d[:2] == ("op", "dict") and len(d) == 4:
                        if d[2] != ("param", "s"):
                            bad("the value is bound to another name")
                        val = d[3]
                        if code == "x":
                            if val != ("const", None):
                                bad("padding is not unpacked as null")
                        elif code in EXPECT:
                            pc = piece(val)
                            if pc is None:
                                unjudged.append(what)
                            elif pc != (lo, hi):
                                bad("the value is taken from bytes %s to %s instead of %s to %s" % (pos(pc[0]), pos(pc[1]), pos(lo), pos(hi)))
                        else:
                            u = unstruct(val)
                            if u is None:
                                unjudged.append(what)
                            else:
                                if u[0] != ("const", code):
                                    bad("the value is decoded with the format %s" % show(u[0])[:40])
                                pc = piece(u[1])
                                if pc is not None and pc != (lo, hi):
                                    bad("the value is taken from bytes %s to %s instead of %s to %s" % (pos(pc[0]), pos(pc[1]), pos(lo), pos(hi)))
                        if code != "tonull":
                            for env, fits in lengths(code):
                                hs = [holds(f, pol, env) for f, pol in m[2]]
                                if not fits and all(h is True or h is ... for h in hs):
                                    bad("%d bytes are accepted when %s" % (env["ALL"], "the length byte says %d follow" % env["LEN"] if code == "prefixed" else "%d are needed" % env["SIZE"]))
                                    break
                                rep.count("lengths")
                        if code != "tonull" or "find" in repr(val):
                            e = enough(m[2], code)
                            if e is False:
                                bad("too few bytes are not noticed before the value is bound")
                            elif e is None:
                                unjudged.append(what + " (length test)")
                    else:
                        unjudged.append(what)
                if m is not None and m[0] == "ret":
                    if k != 1:
                        bad("%s value is bound on a path that goes on" % ("no" if k == 0 else "more than one"))
                    pc = piece(m[1])
                    if pc is None:
                        if m[1] == ("const", None):
                            bad("the bytes left over are not handed back")
                        else:
                            unjudged.append(what)
                    elif pc[0] != rest or pc[1] is not None:
                        bad("the bytes left over start at %s instead of %s" % (pos(pc[0]), pos(rest)))
                if m is not None and m[0] == "raise" and code != "tonull" and "MisalignedPacking" in repr(m[1]):
                    for env, fits in lengths(code):
                        hs = [holds(f, pol, env) for f, pol in m[2]]
                        if fits and hs and all(h is True or h is ... for h in hs):
                            bad("%d bytes are refused when %s" % (env["ALL"], "the length byte says %d follow" % env["LEN"] if code == "prefixed" else "%d are needed" % env["SIZE"]))
                            break
                        rep.count("lengths")
                if m is not None and m[0] == "raise" and m[1][0] == "new" and m[1][1] != ("global", "MisalignedPacking"):
                    bad("raises %s, which is not handled as a mismatch" % show(m[1][1])[:40])
                if (b, k) not in seen:
                    seen.add((b, k))
                    work.append((b, k))
    if unjudged:
        rep.note("unpack forms not judged", sorted(set(unjudged)))


def pos(d):
    if d is None:
        return "the end"
    nm = {"SIZE": "size", "NUL": "the null byte", "LEN": "the length", "ALL": "the end", "": ""}
    return " + ".join((nm[k] if k else str(v)) if v == 1 or not k else "%d*%s" % (v, nm[k]) for k, v in sorted(d.items(), reverse=True)) or "0"


def unstruct(t):
    """(format, bytes) of the first value of struct.unpack."""
    if t[0] == "item" and t[2] == ("const", 0):
        c = t[1]
        if c[0] == "call" and c[1] in (("attr", ("global", "struct"), "unpack"), ("global", "unpack_from")) and len(c[2]) == 2:
            return c[2]
    return None


class PK(Client):
    def inline(self, fn, mod):
        return True

    def event(self, callee, args, kws, ex):
        if callee[0] == "attr" and callee[2] == "append" and len(args) == 1:
            return ("app", args[0], ex.facts)
        return None

    def ret_event(self, t, ex):
        return ("ret", t, ex.facts)

    def raise_event(self, t, ex):
        return ("raise", t, ex.facts)


VAL = ("param", "value")


def isval(t):
    if t == VAL:
        return True
    if t[0] == "call" and t[1] in (("global", "bytes"), ("global", "bytearray")) and len(t[2]) == 1:
        return isval(t[2][0])
    if t[0] == "call" and t[1] == ("global", "map") and len(t[2]) == 2 and t[2][0] == ("global", "ord"):
        return isval(t[2][1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "encode":
        return isval(t[1][1])
    return False


def atoms(t):
    if t[0] == "op" and t[1] == "Add":
        return atoms(t[2]) + atoms(t[3])
    if isval(t):
        return ["VAL"]
    if t in BYTES0:
        return ["NUL"]
    if t[0] == "call" and t[1] == ("global", "bytes") and len(t[2]) == 1 and t[2][0][0] == "tuple" and len(t[2][0]) == 2:
        x = t[2][0][1]
        if x[0] == "call" and x[1] == ("global", "len") and isval(x[2][0]):
            return ["LEN"]
        if x[0] == "const":
            return ["BYTE %s" % x[1]]
        if x[0] == "op" and x[1] in ("Add", "Sub"):
            return ["LEN off by some"] if any(isinstance(y, tuple) and y[:2] == ("call", ("global", "len")) for y in subterms(x)) else ["?"]
    if t[0] == "const" and isinstance(t[1], bytes):
        return ["BYTE %d" % c for c in t[1]]
    if t[0] == "call" and t[1] == ("attr", ("global", "struct"), "pack") and len(t[2]) == 2:
        v, i = t[2][1], False
        if v[0] == "call" and v[1] == ("global", "int"):
            v, i = v[2][0], True
        f = t[2][0][1] if t[2][0][0] == "const" else None
        if v[0] == "call" and v[1] == ("global", "len") and isval(v[2][0]) and f in ("B", "<B", ">B", "=B", "!B"):
            return ["LEN"]
        if isval(v) and f is not None:
            return ["STRUCT %s%s" % (f, " int" if i else "")]
    return ["?"]


def lenfact(facts, test):
    for f, pol in facts:
        if f[0] == "op" and len(f) == 4 and f[1] in ("==", "!=", "<", "<=", ">", ">="):
            op, a, b = f[1], f[2], f[3]
            if b[0] == "call":
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not pol:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", "<=": ">", ">": "<="}[op]
            if a[0] == "call" and a[1] == ("global", "len") and isval(a[2][0]) and b[0] == "const":
                if test(op, b[1]):
                    return True
    return False


def packing(rep, p, codes):
    fn, mod = p.func("titus.genpy", "pack"), p.mod("titus.genpy")
    where = p.where(fn, mod)
    ps = [a.arg for a in fn.args.args]
    unjudged = []
    cases = []
    for code in sorted(codes):
        if code == "raw":
            cases += [(code, 3), (code, None)]
        else:
            cases.append((code, None if len(code) > 2 else struct.calcsize(code)))
    for code, l in cases:
        row = ("tuple", VAL, ("tuple", ("param", "v"), ("const", code), ("const", l)))
        a = Explorer(p, PK()).explore(fn, mod, {ps[2]: ("tuple", row)}, None)
        what = "pack of format %s%s" % (code, "" if l is None or code != "raw" else " (sized)")

        def bad(msg):
            rep.finding("pack", what, msg, where)
        want = {"raw": [["VAL"]], "tonull": [["VAL", "NUL"]], "prefixed": [["LEN", "VAL"]], "x": [["NUL"], ["BYTE 0"]]}.get(code) or \
            [["STRUCT " + code + " int"]] + ([] if code[-1] in "Q" else [["STRUCT " + code]])
        if len(code) <= 2 and code[-1:] in "fd?":
            want = [["STRUCT " + code]]
        seen, work = {(a.start, ())}, [(a.start, ())]
        while work:
            n, got = work.pop()
            for m, b in a.edges.get(n, ()):
                g = got
                if m is not None and m[0] == "app":
                    g = (got + tuple(atoms(m[1])))[:6]
                if m is not None and m[0] == "ret":
                    rep.count("pack")
                    if "?" in g:
                        unjudged.append(what)
                    elif not g:
                        if m[1][0] == "call" and len(subterms_list(m[1])) <= 6 or m[1][0] == "const":
                            bad("nothing is written on some path")
                        else:
                            unjudged.append(what)
                    elif list(g) not in want:
                        bad("writes %s instead of %s" % (", ".join(g), ", ".join(want[0])))
                    if code == "raw" and l is not None and not lenfact(m[2], lambda op, c: op == "==" and c == l):
                        bad("bytes of another length than the size given are accepted")
                    if code == "prefixed" and not lenfact(m[2], lambda op, c: (op, c) in (("<=", 255), ("<", 256))):
                        bad("more bytes than the length byte can count are accepted")
                if m is not None and m[0] == "raise" and m[1][0] == "new":
                    rep.count("pack")
                    args = m[1][2]
                    if m[1][1] != ("global", "PFARuntimeException"):
                        bad("raises %s" % show(m[1][1])[:40])
                    else:
                        wc = {"raw": 3000, "prefixed": 3001}.get(code)
                        if wc is None:
                            bad("raises an error although every value is allowed")
                        elif len(args) >= 2 and args[1] != ("const", wc):
                            bad("raises error %s instead of %d" % (show(args[1])[:20], wc))
                        if code == "raw" and l is None:
                            bad("checks the length of raw bytes without a size")
                        if code == "prefixed" and lenfact(m[2], lambda op, c: op in ("<", "<=", "==") and c <= 255) or \
                           code == "prefixed" and not lenfact(m[2], lambda op, c: (op, c) in ((">", 255), (">=", 256))):
                            bad("rejects lengths up to 255")
                if (b, g) not in seen:
                    seen.add((b, g))
                    work.append((b, g))
    if unjudged:
        rep.note("pack forms not judged", sorted(set(unjudged)))


def subterms_list(t):
    return list(subterms(t))


def run(rep):
    rep.rule("formats", "every documented format word, in every documented spelling, selects the format of its own size, byte order, signedness and type")
    rep.rule("rejected", "other words are rejected as semantic errors")
    rep.rule("unpack", "unpacking takes exactly the bytes of the format, binds exactly one value under the name given, hands back the rest, and too few bytes are a mismatch")
    rep.rule("lengths", "the tests on the way to a value or to a mismatch, decided for inputs of 0 to 5 bytes and lengths of 0 to 5")
    rep.rule("clauses", "the then clause runs only when the input matched to its last byte, the else clause only otherwise")
    rep.rule("pack", "packing writes exactly the bytes of the format; lengths that do not fit raise the coded error")
    with open(SPEC) as fh:
        spec = json.load(fh)
    p = Project()
    codes = set(c for c, s in dispatch(rep, p, spec))
    codes |= {"raw", "tonull", "prefixed", "x"}
    unpacking(rep, p, codes)
    clauses(rep, p)
    packing(rep, p, codes)
    rep.floor("formats", 100)
    rep.floor("rejected", 20)
    rep.floor("unpack", 10)
    rep.floor("lengths", 500)
    rep.floor("pack", 10)


if __name__ == "__main__":
    report.main("B01", run)
