import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
from sa.proj import Project
from sa.lts import show
from sa.typecase import runs, excname, canon
from D02 import Case, PARAMS, VALID

LEAF = ("AvroNull", "AvroBoolean", "AvroInt", "AvroLong", "AvroFloat", "AvroDouble", "AvroBytes", "AvroFixed", "AvroString", "AvroEnum")


class Cmp(Case):
    """x and y have ranks; a NaN compares false with everything; element comparisons give elem."""
    rx = ry = 0
    nx = ny = False
    elem = None
    lens = None
    order = None

    def ev(self, t):
        """int, bool, "nan" or None."""
        k = t[0]
        if k == "const":
            return t[1] if isinstance(t[1], (bool, int)) else None
        if t == ("param", "x"):
            return "nan" if self.nx else self.rx
        if t == ("param", "y"):
            return "nan" if self.ny else self.ry
        if k == "op":
            if t[1] in ("<", "<=", "=="):
                a, b = self.ev(t[2]), self.ev(t[3])
                if a is None or b is None:
                    return None
                if "nan" in (a, b):
                    return False
                return a < b if t[1] == "<" else a <= b if t[1] == "<=" else a == b
            if t[1] == "not":
                a = self.ev(t[2])
                return None if a is None or a == "nan" else not a
            if t[1] == "USub":
                a = self.ev(t[2])
                return a if a in (None, "nan") else -a
            if t[1] in ("Sub", "Add"):
                a, b = self.ev(t[2]), self.ev(t[3])
                if a is None or b is None or "nan" in (a, b):
                    return None
                return a - b if t[1] == "Sub" else a + b
        if k == "call":
            f = t[1]
            n = f[2] if f[0] == "attr" else f[1] if f[0] == "global" else None
            if n == "isnan" and len(t[2]) == 1:
                a = self.ev(t[2][0])
                return None if a is None else a == "nan"
            if n == "index" and f[0] == "attr" and f[1] == ("attr", self.tterm, "symbols") and len(t[2]) == 1:
                a = self.ev(t[2][0])      # the symbols' order is not their alphabetical order
                return a if a in (None, "nan") else -a
            if n in ("bytesToString", "stringToBytes", "float", "int", "bool") and len(t[2]) == 1:
                return self.ev(t[2][0])
            if n == "len" and self.lens is not None and t[2][0] in self.vterms:
                return self.lens[self.vterms.index(t[2][0])]
            if n == "compare" and self.elem is not None:
                return self.elem
        return None

    def scenario(self, t):
        if t[:2] == ("op", "==") and t[2] == ("attr", ("elem", ("attr", self.tterm, "fields")), "order") and t[3][0] == "const" and self.order:
            return t[3][1] == self.order
        if t[0] == "op" and t[1] in ("<", "<=", "==", "not") or t[0] == "call":
            v = self.ev(t)
            if v is not None and v != "nan":
                return bool(v)
        return Case.scenario(self, t)


def client(proj, m, T, hx, hy, inner=None):
    t = ("param", "avroType")
    c = Cmp(proj, m, {t: T, ("attr", ("elem", ("attr", t, "fields")), "avroType"): inner, ("attr", t, "items"): inner} if inner else {t: T}, {("param", "x"): hx, ("param", "y"): hy}, ())
    c.stop = ("compare", "ts", "jsonEncoder", "stringToBytes", "bytesToString")
    c.tterm, c.vterms = ("param", "avroType"), (("param", "x"), ("param", "y"))
    return c


def sign(n):
    return (n > 0) - (n < 0)


def run(R):
    R.rule("agree", "every pair of values that belong to the type is compared, whatever forms they have")
    R.rule("leaf", "values of a simple type come out in their natural order, an enum's in the order of its symbols")
    R.rule("nan", "NaN equals itself and comes after every number")
    R.rule("array", "the first differing item decides, else the shorter array comes first")
    R.rule("record", "the first differing field that is not ignored decides, reversed when it is descending")
    R.rule("values", "what is returned is -1, 0 or 1")
    R.floor("agree", 20)
    R.floor("leaf", 40)
    R.floor("nan", 6)
    R.floor("array", 6)
    R.floor("record", 6)
    R.floor("values", 40)
    proj = Project()
    m = proj.mod("titus.datatype")
    f = proj.func("titus.datatype", "compare")
    fn = f[0] if isinstance(f, tuple) else f
    where = "titus/datatype.py:%d" % fn.lineno
    und = []

    def judge(rule, con, c, o, ls, want):
        R.count(rule)
        if o[0] != "ret":
            return
        v = c.ev(o[1])
        if v is None or v == "nan":
            und.append("%s: %s" % (con, show(o[1])[:80]))
            return
        R.count("values")
        if int(v) not in (-1, 0, 1):
            R.finding("values", con, "compare returns %s" % v, where)
        if sign(int(v)) != want and ("undecided",) not in ls:
            R.finding(rule, con, "compare gives %d where %d is due" % (v, want), where)

    for T in LEAF:
        for hx, hy in itertools.product(VALID[T], repeat=2):
            c = client(proj, m, T, hx, hy)
            R.count("agree")
            rs = runs(proj, m, fn, c, {})
            if not any(o[0] == "ret" for o, ls in rs):
                R.finding("agree", "%s: %s and %s" % (T, hx, hy), "compare refuses a %s and a %s" % (hx, hy), where)
            for o, ls in rs:
                if o[0] == "raise" and ("undecided",) not in ls:
                    R.finding("agree", "%s: %s and %s" % (T, hx, hy), "compare raises %s for a %s and a %s" % (excname(o[1]), hx, hy), where)
            if T == "AvroBoolean":
                cases = [(int(hx == "True"), int(hy == "True"))]
            elif T == "AvroNull":
                cases = [(0, 0)]
            else:
                cases = [(0, 1), (1, 0), (1, 1), (0, 5), (5, 0)]
            for rx, ry in cases:
                c = client(proj, m, T, hx, hy)
                c.rx, c.ry = rx, ry
                for o, ls in runs(proj, m, fn, c, {}):
                    judge("leaf", "%s: %s %s %s" % (T, hx, "<" if rx < ry else ">" if rx > ry else "=", hy), c, o, ls, sign(ry - rx) if T == "AvroEnum" else sign(rx - ry))
            if T in ("AvroFloat", "AvroDouble"):
                for nx, ny in ((True, False), (False, True), (True, True)):
                    if nx and hx == "int" or ny and hy == "int":
                        continue
                    c = client(proj, m, T, hx, hy)
                    c.nx, c.ny = nx, ny
                    for o, ls in runs(proj, m, fn, c, {}):
                        judge("nan", "%s: %s and %s" % (T, "NaN" if nx else hx, "NaN" if ny else hy), c, o, ls, int(nx) - int(ny))
    for T in ("AvroArray", "AvroRecord"):
        for hx, hy in itertools.product(VALID[T], repeat=2):
            R.count("agree")
            rs = runs(proj, m, fn, client(proj, m, T, hx, hy), {})
            if not any(o[0] == "ret" for o, ls in rs) or any(o[0] == "raise" and ("undecided",) not in ls for o, ls in rs):
                R.finding("agree", "%s: %s and %s" % (T, hx, hy), "compare refuses a %s and a %s" % (hx, hy), where)
    for e, inner in itertools.product((-1, 0, 1), (None,) + LEAF + ("AvroArray", "AvroMap", "AvroRecord", "AvroUnion")):
        of = " of %ss" % inner[4:].lower() if inner else ""
        for lens in ((2, 2), (2, 3), (3, 2)):
            c = client(proj, m, "AvroArray", "list", "list", inner)
            c.elem, c.lens = e, lens
            for o, ls in runs(proj, m, fn, c, {}):
                looked = any(l[0] == "rec" and l[1] == "compare" for l in ls)
                want = e if looked and e else sign(lens[0] - lens[1])
                judge("array", "items%s %d, lengths %d and %d" % (of, e, lens[0], lens[1]), c, o, ls, want)
        for order in ("ascending", "descending", "ignore"):
            c = client(proj, m, "AvroRecord", "dict", "dict", inner)
            c.elem, c.order = e, order
            for o, ls in runs(proj, m, fn, c, {}):
                looked = any(l[0] == "rec" and l[1] == "compare" for l in ls)
                if order == "ignore" and looked and o[0] == "ret" and c.ev(o[1]) not in (0, None):
                    R.finding("record", "ignored field", "an ignored field decides", where)
                    continue
                want = (-e if order == "descending" else e) if looked and order != "ignore" else 0
                judge("record", "%s field%s %d" % (order, of, e), c, o, ls, want)
    # the elements compared are the ones at the same place
    T, X, Y = ("param", "avroType"), ("param", "x"), ("param", "y")
    F = ("elem", ("attr", T, "fields"))
    for K, want in (("AvroArray", {(("attr", T, "items"), ("elem", X), ("elem", Y))}),
                    ("AvroRecord", {(("attr", F, "avroType"), ("item", X, ("attr", F, "name")), ("item", Y, ("attr", F, "name")))})):
        h = "list" if K == "AvroArray" else "dict"
        c = client(proj, m, K, h, h)
        got = set()
        for o, ls in runs(proj, m, fn, c, {}):
            got |= set(tuple(canon(a) for a in l[2]) for l in ls if l[0] == "rec" and l[1] == "compare" and len(l[2]) == 3)
        for g in got:
            R.count("array" if K == "AvroArray" else "record")
            if g not in want and (g[0] not in [w[0] for w in want] or set(g[1:]) & {("elem", X), ("elem", Y)} or g[1:] == tuple(reversed(list(want)[0][1:]))):
                R.finding("array" if K == "AvroArray" else "record", "%s elements" % K, "%s and %s are compared as %s" % (
                    show(g[1]), show(g[2]), show(g[0])), where)
            elif g not in want:
                und.append("%s: %s" % (K, [show(x) for x in g]))
    R.note("results not judged", sorted(set(und))[:20])


if __name__ == "__main__":
    report.main("D03", run)
