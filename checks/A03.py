import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
from sa.interp import Const, Sym, V, Alloc
from R01 import Reader, FORMS, FCNDEF, CASE, CELL, POOL, TOP, undecided, shown

EMPTY_OF = {"exprs": [], "args": [], "exprmap": {}, "argmap": {}, "fcns": {}, "cells": {}, "pools": {}, "strmap": {}, "jsonmap": {}, "jsonmap2": {},
            "params": [], "codes": [], "strpairs": [], "exprpairs": [], "ifs": [], "cases": [], "body": []}


class Writer(Reader):
    def again(self, entry, data, con, numbers):
        """Reads, writes and reads again: [(first, second or None)] of the forms, None when the JSON written is refused."""
        it = self.it
        ends, fn = self.read(entry, data, con)
        out = []
        for v, s in ends:
            for o in v:
                if not (isinstance(o, Alloc) and o.cls is not None):
                    continue
                it.st = s
                first = it.canon(V(o))
                m = self.p.method(o.cls, "jsonNode")
                it.passed = []
                for j, s2 in it.call_on(m[0], m[1].mod, [V(Const(numbers)), self.memo], s, V(o), m[1]):
                    it.st = s2
                    self.check_passed(con, numbers, m)
                    text = it.canon(j)
                    args = [j] + [V(Const("again")) if a.arg != "avroTypeBuilder" else self.builder for a in fn.args.args[1:]]
                    seconds = []
                    for v3, s3 in it.call_on(fn, self.mod, args, s2):
                        it.st = s3
                        seconds += [it.canon(V(x)) for x in v3]
                    out.append((first, text, seconds, m))
        return out

    def check_passed(self, con, numbers, m):
        for s, args, kwargs in self.it.passed:
            vals = args + list(kwargs.values())
            where = self.p.where(m[0], m[1].mod)
            if self.memo not in vals:
                self.R.finding("passed", con, "%s is written without the names written so far" % self.it.sh(s), where)
            for v in vals:
                if v in (V(Const(True)), V(Const(False))):
                    self.R.count("passed")
                    if v != V(Const(numbers)):
                        self.R.finding("passed", con, "%s is written %s line numbers" % (self.it.sh(s), "without" if numbers else "with"), where)

    def forms(self, forms, entry):
        R, it = self.R, self.it
        for cls, req, opt in forms:
            for n in range(len(opt) + 1) if len(opt) < 5 else (0, 1, len(opt)):
                for have in itertools.combinations(sorted(opt), n):
                    spec = dict((k, v[1]) for k, v in req.items())
                    spec.update((k, opt[k][1]) for k in have)
                    vals = dict((k, ([True, False] if kind == "bool" else [x[0] for x in self.value(k, kind)]) + ([EMPTY_OF[kind]] if kind in EMPTY_OF else [])) for k, kind in spec.items())
                    for k in vals:
                        x = vals[k][0]
                        if isinstance(x, list) and len(x) > 1:
                            vals[k].append(x[:1])
                        elif isinstance(x, dict) and len(x) > 1:
                            vals[k].append(dict(list(x.items())[:1]))
                    base = dict((k, 0) for k in spec)
                    for combo in [base] + [dict(base, **{k: i}) for k in sorted(spec) for i in range(1, len(vals[k]))]:
                        data = dict((k, vals[k][combo[k]]) for k in spec)
                        what = ", ".join("%s: %s" % (k, "empty" if data[k] in ([], {}) and not isinstance(data[k], frozenset) else repr(data[k]) if isinstance(data[k], (str, bool, int)) else "otherwise") for k in sorted(spec) if combo[k])
                        for numbers in (False, True):
                            con = "%s {%s}%s%s" % (cls, ", ".join(sorted(spec)), ", " + what if what else "", " with line numbers" if numbers else "")
                            self.one(cls, entry, dict(data, **{"@": "here"}) if numbers else data, con, numbers)

    def one(self, cls, entry, data, con, numbers):
        R = self.R
        for first, text, seconds, m in self.again(entry, data, con, numbers):
            R.count("again")
            where = self.p.where(m[0], m[1].mod)
            if text[:1] and text[0] in ("some", "any", "other"):
                self.und.append("%s: written as %s" % (con, shown(text)))
                continue
            if not seconds:
                R.finding("again", con, "is written as %s, which cannot be read" % shown(text), where)
            for g in seconds:
                if g[0] != first[0]:
                    if undecided(g[:1]) or g[0] not in self.model.classes:
                        self.und.append("%s: %s" % (con, str(g)[:100]))
                    else:
                        R.finding("again", con, "is written as %s, which is read as %s" % (shown(text), g[0]), where)
                    continue
                a, b = dict(first[1:]), dict(g[1:])
                for k in sorted(set(a) | set(b)):
                    if k == "('a', 'pos')":
                        continue
                    x, y = a.get(k), b.get(k)
                    if x == y and not undecided(x):
                        R.count("part")
                    elif x is None or y is None or undecided(x) or undecided(y):
                        self.und.append("%s: %s %s/%s" % (con, k, str(x)[:60], str(y)[:60]))
                    else:
                        R.finding("again", con, "%s comes back as %s, not %s" % (k[6:-2], shown(y), shown(x)), where)
            if numbers:
                R.count("marked")
                t = dict(text[1:]) if text[0] == "dict" else None
                if t is None:
                    pass
                elif "@" not in t:
                    R.finding("marked", con, "is written without its position", where)
                elif t["@"] != dict(first[1:]).get("('a', 'pos')"):
                    R.finding("marked", con, "is written with the position %s" % shown(t["@"]), where)
            elif text[0] == "dict" and "@" in dict(text[1:]):
                R.finding("marked", con, "is written with its position", where)


def run(R):
    R.rule("again", "a form written as JSON is read as the same form with the same parts")
    R.rule("part", "parts compared")
    R.rule("passed", "the parts are written with the same choice of line numbers and the same record of type names as the whole")
    R.rule("marked", "the position is written when line numbers are asked for, and only then")
    r = Writer(R)
    r.builder = V(Sym("builder", (), None))
    r.memo = V(Sym("memo", (), None))
    r.forms([f for f in FORMS], "_readArgument")
    for x in (None, True, False, 0, -2 ** 31, 2 ** 31 - 1, 2 ** 31, -2 ** 63, 1.5, 2.0, "abc", ["abc"], ["9x"], [""]):
        for numbers in (False, True):
            r.one("", "_readArgument", x, "the value %r%s" % (x, " with line numbers" if numbers else ""), numbers)
    r.forms([FCNDEF], "_readFcnDef")
    r.forms([CASE], "_readCastCase")
    r.forms([CELL], "_readCell")
    r.forms([POOL], "_readPool")
    r.forms(TOP, "_readEngineConfig")
    R.floor("again", 300)
    R.floor("part", 2500)
    R.floor("passed", 500)
    R.floor("marked", 150)
    R.note("not judged", sorted(set(r.und))[:40])


if __name__ == "__main__":
    report.main("A03", run)
