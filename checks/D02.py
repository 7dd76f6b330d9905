import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.lts import show, subterms
from sa.typecase import TypeClient, runs, excname, canon, LEAVES, HOSTS

P = "titus.datatype"
VALID = {"AvroNull": ("None",), "AvroBoolean": ("True", "False"), "AvroInt": ("int",), "AvroLong": ("int",),
         "AvroFloat": ("int", "float"), "AvroDouble": ("int", "float"), "AvroBytes": ("str", "bytes"), "AvroFixed": ("str", "bytes"),
         "AvroString": ("str",), "AvroEnum": ("str",), "AvroArray": ("list", "tuple"), "AvroMap": ("dict",), "AvroRecord": ("dict",)}
NUM = ("AvroInt", "AvroLong", "AvroFloat", "AvroDouble")
SEQ = ("str", "bytes", "list", "tuple", "dict")
# forms a function may also take (reading JSON and foreign data is lenient); nothing is claimed about them
LENIENT = {"jsonDecoder": {t: ("float",) for t in NUM},
           "jsonEncoder": {},
           "checkData": dict([("AvroNull", ("str",)), ("AvroBoolean", ("str",)), ("AvroArray", SEQ), ("AvroMap", SEQ), ("AvroRecord", SEQ)] +
                             [(t, ("str",)) for t in NUM])}
PARAMS = {"jsonDecoder": ("avroType", "value"), "jsonEncoder": ("avroType", "value"), "checkData": ("avroType", "data"),
          "compare": ("avroType", "x", "y")}
EXC = {"jsonDecoder": "AvroException", "jsonEncoder": "AvroException", "checkData": "TypeError", "compare": "AvroException"}


class Case(TypeClient):
    """good: the value is one of the enum's symbols and has the fixed type's size; present/default: record field."""
    good = True
    present = True
    default = None
    tagged = None

    def subscript_raises(self, base, idx, ex):
        F = ("elem", ("attr", self.tterm, "fields"))
        return "always" if base in self.vterms and idx == ("attr", F, "name") and not self.present else False

    def scenario(self, t):
        if self.default is not None and t in (("attr", ("elem", ("attr", self.tterm, "fields")), "hasDefault"),
                                              ("attr", ("attr", ("elem", ("attr", self.tterm, "fields")), "schema"), "has_default")):
            return bool(self.default)
        if t == ("attr", ("elem", ("attr", self.tterm, "fields")), "default") and self.default is not None:
            return self.default is True
        if t[0] == "op" and len(t) == 4:
            T, vs = self.tterm, self.vterms
            if t[1] == "in" and t[2] in vs and t[3] == ("attr", T, "symbols"):
                return self.good
            if t[1] in ("==", "is"):
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if b == ("attr", T, "size") and a[0] == "call" and a[1] == ("global", "len") and a[2][0] in vs:
                        return self.good
            F = ("elem", ("attr", T, "fields"))
            if t[1] == "==" and self.tagged is not None:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if a == ("attr", ("elem", ("attr", T, "types")), "name") and any(x in vs for x in subterms(b)):
                        return self.tagged
            if t[1] == "in" and t[2] == ("attr", F, "name") and canon(t[3]) in vs + tuple(("call", ("attr", v, "keys"), ()) for v in vs):
                return self.present
            if t[1] in ("is", "==") and t[2] == ("attr", F, "default") and t[3] == ("const", None) and self.default is not None:
                return not self.default or self.default == "null"
        return None


def client(proj, m, name, T, hs, failing):
    tp, vps = PARAMS[name][0], PARAMS[name][1:]
    c = Case(proj, m, {("param", tp): T}, {("param", v): h for v, h in zip(vps, hs)}, ((name, EXC[name]),) if failing else ())
    c.stop = (name, "ts", "jsonEncoder", "stringToBytes", "bytesToString")
    c.tterm, c.vterms = ("param", tp), tuple(("param", v) for v in vps)
    return c


def recs(ls, name):
    """Element calls on a path: set of (type term, value term)."""
    out = set()
    for l in ls:
        if l[0] == "rec" and l[1] == name:
            args = list(l[2])
            kw = dict(l[3])
            names = list(PARAMS[name]) if name != "checkData" else ["data", "avroType"]
            d = dict(zip(names, args))
            d.update(kw)
            out.add(tuple(canon(d.get(x, ("top",))) for x in PARAMS[name]))
    return out


def run(R):
    R.rule("valid", "a value of every form that belongs to the type is taken")
    R.rule("invalid", "a value of a form that cannot belong to the type is refused")
    R.rule("declared", "a refused value is reported with the declared exception, and nothing else leaves the function")
    R.rule("kept", "what is returned has a form that belongs to the type")
    R.rule("member", "a string outside an enum's symbols and a value of another size than the fixed type's are refused")
    R.rule("elements", "items, map values and fields are taken with their own type, each from its own place")
    R.rule("union", "a union value is tagged with the type it was taken with")
    R.rule("style", "the parts of a value are encoded the way the whole is asked to be: with tagged unions or without")
    R.rule("defaults", "a field left out is taken from its default, is null, or is reported")
    R.floor("valid", 40)
    R.floor("invalid", 150)
    R.floor("declared", 300)
    R.floor("kept", 40)
    R.floor("member", 5)
    R.floor("elements", 8)
    R.floor("union", 3)
    R.floor("style", 8)
    R.floor("defaults", 3)
    proj = Project()
    m = proj.mod(P)
    und = []
    n = 0
    for name in ("jsonDecoder", "jsonEncoder", "checkData"):
        f = proj.func(P, name)
        fn = f[0] if isinstance(f, tuple) else f
        where = "titus/datatype.py:%d" % fn.lineno
        if name == "jsonEncoder":
            style(R, proj, m, fn, where)
        for T in LEAVES:
            for H in HOSTS:
                n += 1
                con = "%s(%s, %s)" % (name, T, H)
                a = runs(proj, m, fn, client(proj, m, name, T, (H,), False), {})
                b = runs(proj, m, fn, client(proj, m, name, T, (H,), True), {})
                definite = [(o, ls) for o, ls in a if ("undecided",) not in ls]
                if T in VALID and H in VALID[T]:
                    R.count("valid")
                    if not any(o[0] == "ret" for o, ls in a):
                        R.finding("valid", con, "%s refuses a %s for %s" % (name, H, T), where)
                    for o, ls in definite:
                        if o[0] == "raise":
                            R.finding("valid", con, "%s raises %s for a %s taken as %s" % (name, excname(o[1]), H, T), where)
                    for o, ls in a:
                        if o[0] == "ret":
                            R.count("kept")
                            h = Case(proj, m, {}, {("param", PARAMS[name][1]): H}).hostof(o[1])
                            if h is None:
                                und.append((con, show(o[1])[:80]))
                            elif h not in VALID[T]:
                                R.finding("kept", con, "%s returns %s (%s) for %s" % (name, show(o[1])[:80], h, T), where)
                elif T in VALID and H not in LENIENT[name].get(T, ()):
                    R.count("invalid")
                    for o, ls in definite:
                        if o[0] == "ret":
                            R.finding("invalid", con, "%s takes a %s for %s, giving %s" % (name, H, T, show(o[1])[:80]), where)
                elif T in VALID:
                    for o, ls in a:
                        if o[0] == "ret":
                            h = Case(proj, m, {}, {("param", PARAMS[name][1]): H}).hostof(o[1])
                            if h is not None and h not in VALID[T]:
                                R.finding("kept", con, "%s returns %s (%s) for %s" % (name, show(o[1])[:80], h, T), where)
                for o, ls in b:
                    R.count("declared")
                    if o[0] == "raise" and excname(o[1]) not in (EXC[name], None) and not (name == "checkData" and H not in VALID.get(T, ())
                                                                                           and excname(o[1]) == "AvroException"):
                        R.finding("declared", con + " " + str(excname(o[1])), "%s can raise %s instead of %s for a %s taken as %s" %
                                  (name, excname(o[1]), EXC[name], H, T), where)
        # membership
        for T, H in (("AvroEnum", "str"), ("AvroFixed", "str"), ("AvroFixed", "bytes")):
            if name == "checkData" and T == "AvroEnum":
                continue
            R.count("member")
            c = client(proj, m, name, T, (H,), False)
            c.good = False
            for o, ls in runs(proj, m, fn, c, {}):
                if o[0] == "ret" and ("undecided",) not in ls:
                    R.finding("member", "%s(%s, %s)" % (name, T, H), "%s takes a %s that %s" % (
                        name, H, "is none of the enum's symbols" if T == "AvroEnum" else "has another size than the fixed type"), where)
        elements(R, proj, m, name, fn, where)
        union(R, proj, m, name, fn, where, und)
    R.note("cases", n)
    R.note("returned values of unknown form", und[:20])


def elements(R, proj, m, name, fn, where):
    T = ("param", PARAMS[name][0])
    V = ("param", PARAMS[name][1])
    F = ("elem", ("attr", T, "fields"))
    each = ("elem", ("call", ("attr", V, "values"), ()))
    for K, H, want in (("AvroArray", "list", (("attr", T, "items"), ("elem", V))), ("AvroMap", "dict", (("attr", T, "values"), each))):
        R.count("elements")
        c = client(proj, m, name, K, (H,), False)
        got = set()
        for o, ls in runs(proj, m, fn, c, {}):
            if o[0] != "ret":
                continue
            r = recs(ls, name)
            got |= r
            R.count("elements")
        if want not in got:
            R.finding("elements", "%s %s" % (name, K), "no path takes each element with %s: %s" % (show(want[0]), sorted(
                "%s as %s" % (show(b), show(a)) for a, b in got)), where)
        for x in got:
            if x != want and x[0] != want[0]:
                R.finding("elements", "%s %s type" % (name, K), "elements are taken with %s" % show(x[0]), where)
    # records: value[field.name] with field.avroType, stored under field.name
    ft, fv = ("attr", F, "avroType"), ("item", V, ("attr", F, "name"))
    df = ("attr", F, "default")
    for present, default in ((True, False), (True, True), (False, True), (False, "falsy"), (False, "null"), (False, False)):
        c = client(proj, m, name, "AvroRecord", ("dict",), False)
        c.present, c.default = present, default
        rs = runs(proj, m, fn, c, {})
        tag = "%s record, field %s, default %s" % (name, "present" if present else "left out", default)
        R.count("elements")
        if present:
            for o, ls in rs:
                for l in ls:
                    if l[0] == "rec" and l[1] == name:
                        (a, b), = recs([l], name)
                        if a == ft and b == df:
                            R.finding("defaults", tag, "the default replaces a value that is present", where)
                        elif a != ft or b not in (fv, ("call", ("attr", V, "get"), (("attr", F, "name"),))) and b[0] in ("item", "attr", "elem"):
                            R.finding("elements", tag, "%s is taken as %s" % (show(b), show(a)), where)
                    if l[0] == "put" and l[1][0] == "attr" and l[1][1] == F and l[1][2] != "name":
                        R.finding("elements", tag, "a field's value is stored under %s" % show(l[1]), where)
                if o[0] == "raise" and ("undecided",) not in ls and name != "checkData":
                    R.finding("valid", tag, "a record whose fields are all present is refused", where)
            if not any((ft, fv) in recs(ls, name) for o, ls in rs if o[0] == "ret"):
                R.finding("elements", tag, "no path takes a field's own value with the field's type", where)
            continue
        for o, ls in rs:
            if o[0] == "raise" and excname(o[1]) not in (EXC[name], None):
                R.finding("declared", tag, "%s is raised for a missing field" % excname(o[1]), where)
            for a, b in recs(ls, name):
                if (a == ft or b == fv) and b != df:
                    R.finding("defaults", tag, "a missing field is taken from %s" % show(b), where)
                if b == df and not default:
                    R.finding("defaults", tag, "a default that is not there is taken", where)
        if name == "jsonDecoder":
            R.count("defaults")
            if default:
                if not any((ft, df) in recs(ls, name) for o, ls in rs if o[0] == "ret"):
                    R.finding("defaults", tag, "the default is not taken", where)
                for o, ls in rs:
                    if o[0] == "raise" and ("undecided",) not in ls:
                        R.finding("defaults", tag, "reported as missing although it has a default", where)
            else:
                if not any(o[0] == "raise" for o, ls in rs):
                    R.finding("defaults", tag, "a missing field is not reported", where)
        elif name == "jsonEncoder":
            R.count("defaults")
            if default:
                if not any(o[0] == "ret" for o, ls in rs) or any(o[0] == "raise" and ("undecided",) not in ls for o, ls in rs):
                    R.finding("defaults", tag, "reported as missing although it has a default", where)
            elif not any(o[0] == "raise" for o, ls in rs):
                R.finding("defaults", tag, "a missing field is not reported", where)


def style(R, proj, m, fn, where):
    """Whatever else the encoder is told goes along to the parts."""
    extra = [a.arg for a in fn.args.args if a.arg not in PARAMS["jsonEncoder"]]
    for K, hosts in (("AvroArray", ("list",)), ("AvroMap", ("dict",)), ("AvroRecord", ("dict",)), ("AvroUnion", HOSTS)):
        for H in hosts:
            for o, ls in runs(proj, m, fn, client(proj, m, "jsonEncoder", K, (H,), False), {}):
                for l in ls:
                    if l[0] != "rec" or l[1] != "jsonEncoder":
                        continue
                    given = dict(zip([a.arg for a in fn.args.args], l[2]))
                    given.update(dict(l[3]))
                    for x in extra:
                        R.count("style")
                        g = given.get(x)
                        if g is None:
                            R.finding("style", "%s %s" % (K, x), "the parts are encoded without %s" % x, where)
                        elif g[0] == "const" or g[:1] == ("param",) and g[1] != x:
                            R.finding("style", "%s %s" % (K, x), "the parts are encoded with %s for %s" % (show(g), x), where)


def union(R, proj, m, name, fn, where, und):
    """Every {tag: rec(T, v)} has tag == T.name, or T was found by the tag."""
    T = ("param", PARAMS[name][0])
    V = ("param", PARAMS[name][1])
    c = client(proj, m, name, "AvroUnion", ("dict",), False)
    for o, ls in runs(proj, m, fn, c, {}):
        if o[0] != "ret":
            continue
        t = o[1]
        if t[:2] == ("op", "dict") and len(t) == 4:
            R.count("union")
            k, v = canon(t[2]), canon(t[3])
            if not (v[0] == "call" and v[1] == ("global", name)):
                und.append(("%s union" % name, show(v)[:80]))
                continue
            i = 1 if name == "checkData" else 0
            ty = v[2][i]
            if k == ("attr", ty, "name"):
                continue
            if ty[0] == "item" and ty[2] == k:
                mk = [x for x in subterms(ty[1]) if isinstance(x, tuple) and x[:2] == ("op", "comp")]
                for x in mk:
                    if x[2][0] == "tuple" and not (x[2][1] == ("attr", x[2][2], "name")):
                        R.finding("union", "%s tag table" % name, "types are looked up by %s" % show(x[2][1]), where)
                continue
            if ty == ("elem", ("attr", T, "types")) and any(x == V for x in subterms(k)):
                continue          # the loop has compared the tag with the type's name: see below
            if k[0] == "attr" and k[2] == "name" and k != ("attr", ty, "name"):
                R.finding("union", "%s tag" % name, "a value taken as %s is tagged %s" % (show(ty), show(k)), where)
            else:
                und.append(("%s union" % name, show(t)[:80]))
    c.tagged = False
    for o, ls in runs(proj, m, fn, c, {}):
        if o[0] == "ret" and o[1][:2] == ("op", "dict") and len(o[1]) == 4:
            k, v = canon(o[1][2]), canon(o[1][3])
            if any(x == V for x in subterms(k)) and v[0] == "call" and v[1] == ("global", name) and \
                    v[2][1 if name == "checkData" else 0] == ("elem", ("attr", T, "types")):
                R.finding("union", "%s tag" % name, "a value taken as a type of another name keeps its tag", where)


if __name__ == "__main__":
    report.main("D02", run)
