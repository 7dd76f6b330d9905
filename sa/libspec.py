"""What the array and map functions of the library return, for containers of opaque elements: {function: [(arguments, expected, how to compare, what the function given returns)]}."""
import functools, itertools


def build(T, F, ERR, term, rank):
    def A(n, c="a"):
        return [T("%s%d" % (c, i)) for i in range(1, n + 1)]

    def M(n, c="a", first=1):
        return dict(("k%d" % i, T("%s%d" % (c, i))) for i in range(first, first + n))

    def bits(n):
        return itertools.product((True, False), repeat=n)

    SPEC = {}

    def case(name, args, expected, how="", types=None):
        SPEC.setdefault(name, []).append((args, expected, how, types))

    x, y, z = T("x9"), T("y8"), T("z7")
    lt = F("lessThan", lambda a, b: rank(a) < rank(b))

    # -- arrays: parts and places -----------------------------------------------------------------------------------
    for n in range(5):
        a = A(n)
        case("a.len", [a], n)
        case("a.head", [a], a[0] if a else ERR)
        case("a.last", [a], a[-1] if a else ERR)
        case("a.tail", [a], a[1:] if a else ERR)
        case("a.init", [a], a[:-1] if a else ERR)
        case("a.reverse", [a], a[::-1])
        case("a.append", [a, x], a + [x])
        case("a.distinct", [a + a[:2]], a, "set")
        for i in range(-n - 2, n + 3):
            k = i + n if i < 0 else i
            ok = 0 <= k < n
            case("a.insert", [a, i, x], a[:k] + [x] + a[k:] if ok else ERR)
            case("a.replace", [a, i, x], a[:k] + [x] + a[k + 1:] if ok else ERR)
            case("a.remove", [a, i], a[:k] + a[k + 1:] if ok else ERR)
            case("a.rotate", [a, i], ERR if i < 0 else (a if not a else a[i % n:] + a[:i % n]))
            case("a.cycle", [a, x, i], ERR if i < 0 else (a + [x])[-i:] if i else [])
        for s in range(-n - 1, n + 2):
            for e in range(-n - 1, n + 2):
                b, f, _ = slice(s, e).indices(n)
                f = max(b, f)
                case("a.subseq", [a, s, e], a[b:f])
                if n < 4:
                    case("a.remove", [a, s, e], a[:b] + a[f:])
                    case("a.subseqto", [a, s, e, [x, y]], a[:b] + [x, y] + a[f:])
        for m in range(3):
            b = A(m, "b")
            case("a.concat", [a, b], a + b)
            case("a.flatten", [[a, b, a[:1]]], a + b + a[:1])
        for size in range(0, n + 2):
            for step in range(0, 4):
                case("a.slidingWindow", [a, size, step], ERR if size < 1 or step < 1 else [a[i:i + size] for i in range(0, n, step) if i + size <= n])
            case("a.combinations", [a, size], ERR if size < 1 else [list(c) for c in itertools.combinations(a, size)], "bag")
        if n < 4:
            case("a.permutations", [a], [list(c) for c in itertools.permutations(a)], "bag")
    # -- arrays: searching ---------------------------------------------------------------------------------------------
    p, q, r = T("p1"), T("q2"), T("r3")
    for hay in ([], [p], [q, p], [p, q, p], [p, p, p], [q, p, q, p, q], [r, q, p, q]):
        for needle in (p, q):
            n = len(hay)
            at = [i for i in range(n) if hay[i] == needle]
            for w in (needle, F("is " + needle.key[0], lambda v, needle=needle: v == needle)):
                case("a.contains", [hay, w], bool(at))
                case("a.count", [hay, w], len(at))
                case("a.index", [hay, w], at[0] if at else -1)
                case("a.rindex", [hay, w], at[-1] if at else -1)
            case("a.startswith", [hay, needle], bool(hay) and hay[0] == needle)
            case("a.endswith", [hay, needle], bool(hay) and hay[-1] == needle)
        for needle in ([p], [p, q], [q, p], [p, p], [r, p]):
            n, m = len(hay), len(needle)
            at = [i for i in range(n - m + 1) if hay[i:i + m] == needle]
            case("a.contains", [hay, needle], bool(at))
            case("a.count", [hay, needle], len(at))
            case("a.index", [hay, needle], at[0] if at else -1)
            case("a.rindex", [hay, needle], at[-1] if at else -1)
            case("a.startswith", [hay, needle], hay[:m] == needle)
            case("a.endswith", [hay, needle], n >= m and hay[n - m:] == needle)
    # -- arrays: as sets --------------------------------------------------------------------------------------------------
    sets = [[], [p], [p, q], [q, p], [q, r], [r], [p, q, r], [p, p, q]]
    for a in sets:
        for b in sets:
            case("a.union", [a, b], a + b, "set")
            case("a.intersection", [a, b], [v for v in a if v in b], "set")
            case("a.diff", [a, b], [v for v in a if v not in b], "set")
            case("a.symdiff", [a, b], [v for v in a if v not in b] + [v for v in b if v not in a], "set")
            case("a.subset", [a, b], all(v in b for v in a))
            case("a.disjoint", [a, b], not any(v in b for v in a))
            case("a.seteq", [a, b], set(a) == set(b))
    # -- arrays: order -------------------------------------------------------------------------------------------------------
    arr = {"items": "int"}
    for a in ([], [p], [q, p], [T("b3"), T("c1"), T("d2")], [T("b1"), T("c1")], [T("b2"), T("c1"), T("d2"), T("e1")], [T("b1"), T("c2"), T("d3"), T("e3")], [T("b3"), T("c2"), T("d2"), T("e1"), T("f2")]):
        up = sorted(a, key=rank)
        down = sorted(a, key=rank, reverse=True)
        iup = sorted(range(len(a)), key=lambda i: rank(a[i]))
        idown = sorted(range(len(a)), key=lambda i: -rank(a[i]))
        t1 = [arr, arr]
        case("a.sort", [a], up, types=t1)
        case("a.sortLT", [a, lt], up, types=t1)
        for n, s, ix in (("max", down, idown), ("min", up, iup)):
            case("a.%s" % n, [a], s[0] if a else ERR, types=t1)
            case("a.%sLT" % n, [a, lt], s[0] if a else ERR, types=t1)
            case("a.arg%s" % n, [a], ix[0] if a else ERR, types=t1)
            case("a.arg%sLT" % n, [a, lt], ix[0] if a else ERR, types=t1)
            for k in (-1, 0, 1, 2, 3, 7):
                e = not a or k < 0
                case("a.%sN" % n, [a, k], ERR if e else s[:k], types=t1)
                case("a.%sNLT" % n, [a, k, lt], ERR if e else s[:k], types=t1)
                case("a.arg%sN" % n, [a, k], ERR if e else ix[:k], types=t1)
                case("a.arg%sNLT" % n, [a, k, lt], ERR if e else ix[:k], types=t1)
        m = dict(("k%d" % i, v) for i, v in enumerate(a))
        back = dict(reversed(list(m.items())))
        for mm in (m, back):
            t2 = [{"values": "int"}, {"values": "int"}]
            kup = sorted(m, key=lambda k: (rank(m[k]), k))
            kdown = sorted(m, key=lambda k: (-rank(m[k]), k))
            for n, s in (("max", kdown), ("min", kup)):
                case("map.arg%s" % n, [mm], s[0] if m else ERR, types=t2)
                case("map.arg%sLT" % n, [mm, lt], s[0] if m else ERR, types=t2)
                for k in (-1, 0, 1, 2, 7):
                    e = not m or k < 0
                    case("map.arg%sN" % n, [mm, k], ERR if e else s[:k], types=t2)
                    case("map.arg%sNLT" % n, [mm, k, lt], ERR if e else s[:k], types=t2)
    # -- arrays: given functions ----------------------------------------------------------------------------------------------
    f = term("f")
    ft = [{"items": "int"}, {"ret": ["null", "string"]}]
    mt = [{"values": "int"}, {"ret": ["null", "string"]}]
    for n in range(4):
        a = A(n)
        case("a.map", [a, f], [f(v) for v in a])
        case("a.mapWithIndex", [a, f], [f(i, v) for i, v in enumerate(a)])
        case("a.flatMap", [a, F("f", lambda v: [T("l", v), T("r", v)])], [T(s, v) for v in a for s in "lr"])
        case("a.flatMapWithIndex", [a, F("f", lambda i, v: [T("l", i, v)] * i)], [T("l", i, v) for i, v in enumerate(a) for j in range(i)])
        case("a.reduce", [a, f], functools.reduce(f, a) if a else ERR)
        case("a.reduceRight", [a, f], functools.reduce(lambda t, v: f(v, t), a[::-1]) if a else ERR)
        case("a.fold", [a, z, f], functools.reduce(f, a, z))
        case("a.foldRight", [a, z, f], functools.reduce(lambda t, v: f(v, t), a[::-1], z))
        case("map.toset", [[]], {}) if False else None
        for bs in bits(n):
            d = dict(zip(a, bs))
            yes = F("p", lambda v, d=d: d[v])
            yesi = F("p", lambda i, v, d=d, a=a: d[v] and a[i] == v)
            keep = [v for v in a if d[v]]
            case("a.filter", [a, yes], keep)
            case("a.filterWithIndex", [a, yesi], keep)
            case("a.any", [a, yes], any(bs))
            case("a.all", [a, yes], all(bs))
            case("a.takeWhile", [a, yes], list(itertools.takewhile(yes, a)))
            case("a.dropWhile", [a, yes], list(itertools.dropwhile(yes, a)))
            for tag in (False, True):
                case("a.filterMap", [a, F("f", lambda v, d=d, tag=tag: None if not d[v] else {"string": T("f", v)} if tag else T("f", v))], [T("f", v) for v in keep], types=ft)
                case("a.filterMapWithIndex", [a, F("f", lambda i, v, d=d, tag=tag: None if not d[v] else {"string": T("f", i, v)} if tag else T("f", i, v))],
                     [T("f", i, v) for i, v in enumerate(a) if d[v]], types=ft)
            case("a.groupby", [a, F("key", lambda v, d=d: "yes" if d[v] else "no")],
                 dict((k, g) for k, g in (("yes", keep), ("no", [v for v in a if not d[v]])) if g))
        for m in range(4):
            b, c, e = A(m, "b"), A(n, "c"), A(n, "d")
            al = n == m
            case("a.zipmap", [a, b, f], [f(*t) for t in zip(a, b)] if al else ERR)
            case("a.zipmap", [a, c, b, f], [f(*t) for t in zip(a, c, b)] if al else ERR)
            case("a.zipmap", [a, b, c, e, f], [f(*t) for t in zip(a, b, c, e)] if al else ERR)
            case("a.zipmapWithIndex", [a, b, f], [f(i, *t) for i, t in enumerate(zip(a, b))] if al else ERR)
            case("a.zipmapWithIndex", [a, c, b, f], [f(i, *t) for i, t in enumerate(zip(a, c, b))] if al else ERR)
            case("a.zipmapWithIndex", [a, b, c, e, f], [f(i, *t) for i, t in enumerate(zip(a, b, c, e))] if al else ERR)
            for bad in range(n + 1):
                ok = F("same", lambda v, w, bad=bad: v.key[0][1:] == w.key[0][1:] and v.key[0] != "a%d" % bad and v.key[0][0] == "a" and w.key[0][0] == "b")
                oki = F("same", lambda i, v, w, bad=bad: v.key[0] == "a%d" % (i + 1) and w.key[0] == "b%d" % (i + 1) and i + 1 != bad)
                case("a.corresponds", [a, b, ok], al and not bad)
                case("a.correspondsWithIndex", [a, b, oki], al and not bad)
    # -- maps -------------------------------------------------------------------------------------------------------------------
    for n in range(4):
        m = M(n)
        case("map.len", [m], n)
        case("map.keys", [m], list(m), "bag")
        case("map.values", [m], list(m.values()), "bag")
        case("map.fromset", [m], list(m.values()), "bag")
        case("map.split", [m], [{k: v} for k, v in m.items()], "bag")
        case("map.join", [[m, M(1, "b", 2), {"other": x}]], dict(list(m.items()) + [("k2", T("b2")), ("other", x)]))
        for k in ("k1", "k2", "no"):
            case("map.containsKey", [m, k], k in m)
            case("map.containsKey", [m, F("is", lambda v, k=k: v == k)], k in m)
            case("map.containsValue", [m, T("a" + k[1:])], "a" + k[1:] in [v.key[0] for v in m.values()])
            case("map.containsValue", [m, F("is", lambda v, k=k: v == T("a" + k[1:]))], T("a" + k[1:]) in list(m.values()))
            case("map.add", [m, k, x], dict(list(m.items()) + [(k, x)]))
            case("map.remove", [m, k], dict((j, v) for j, v in m.items() if j != k))
        for ks in ([], ["k1"], ["k2", "k1"], ["no"], ["k3", "no", "k1"]):
            case("map.only", [m, ks], dict((j, v) for j, v in m.items() if j in ks))
            case("map.except", [m, ks], dict((j, v) for j, v in m.items() if j not in ks))
        for o in range(3):
            for first in (1, 2):
                b = M(o, "b", first)
                both = dict(list(m.items()) + list(b.items()))
                case("map.update", [m, b], both)
                same = M(o, "a", first)
                case("map.union", [m, same], dict(list(m.items()) + list(same.items())))
                case("map.intersection", [m, same], dict((k, v) for k, v in m.items() if k in same))
                case("map.diff", [m, same], dict((k, v) for k, v in m.items() if k not in same))
                case("map.symdiff", [m, same], dict([(k, v) for k, v in m.items() if k not in same] + [(k, v) for k, v in same.items() if k not in m]))
                case("map.subset", [m, same], all(k in same for k in m))
                case("map.subset", [same, m], all(k in m for k in same))
                case("map.disjoint", [m, same], not any(k in same for k in m))
        case("map.map", [m, f], dict((k, f(v)) for k, v in m.items()))
        case("map.mapWithKey", [m, f], dict((k, f(k, v)) for k, v in m.items()))
        case("map.flatMap", [m, F("f", lambda v: {"l" + v.key[0]: T("l", v), "r" + v.key[0]: T("r", v)})], dict((s + v.key[0], T(s, v)) for v in m.values() for s in "lr"))
        case("map.flatMapWithKey", [m, F("f", lambda k, v: {"l" + k: T("l", k, v), "r" + v.key[0]: T("r", k, v)})],
             dict([("l" + k, T("l", k, v)) for k, v in m.items()] + [("r" + v.key[0], T("r", k, v)) for k, v in m.items()]))
        for bs in bits(n):
            d = dict(zip(m.values(), bs))
            keep = dict((k, v) for k, v in m.items() if d[v])
            case("map.filter", [m, F("p", lambda v, d=d: d[v])], keep)
            case("map.filterWithKey", [m, F("p", lambda k, v, d=d, m=m: d[v] and m[k] == v)], keep)
            for tag in (False, True):
                case("map.filterMap", [m, F("f", lambda v, d=d, tag=tag: None if not d[v] else {"string": T("f", v)} if tag else T("f", v))],
                     dict((k, T("f", v)) for k, v in keep.items()), types=mt)
                case("map.filterMapWithKey", [m, F("f", lambda k, v, d=d, tag=tag: None if not d[v] else {"string": T("f", k, v)} if tag else T("f", k, v))],
                     dict((k, T("f", k, v)) for k, v in keep.items()), types=mt)
        for o in range(4):
            for turn in (False, True):
                b, c, e = M(o, "b"), M(n, "c"), M(n, "d")
                if turn:
                    b = dict(reversed(list(b.items())))
                al = n == o
                case("map.zipmap", [m, b, f], dict((k, f(m[k], b[k])) for k in m) if al else ERR)
                case("map.zipmap", [m, c, b, f], dict((k, f(m[k], c[k], b[k])) for k in m) if al else ERR)
                case("map.zipmap", [m, b, c, e, f], dict((k, f(m[k], b[k], c[k], e[k])) for k in m) if al else ERR)
                case("map.zipmapWithKey", [m, b, f], dict((k, f(k, m[k], b[k])) for k in m) if al else ERR)
                case("map.zipmapWithKey", [m, c, b, f], dict((k, f(k, m[k], c[k], b[k])) for k in m) if al else ERR)
                case("map.zipmapWithKey", [m, b, c, e, f], dict((k, f(k, m[k], b[k], c[k], e[k])) for k in m) if al else ERR)
                for bad in range(n + 1):
                    ok = F("same", lambda v, w, bad=bad: v.key[0][1:] == w.key[0][1:] and v.key[0] != "a%d" % bad and v.key[0][0] == "a" and w.key[0][0] == "b")
                    okk = F("same", lambda k, v, w, bad=bad: v.key[0] == "a" + k[1:] and w.key[0] == "b" + k[1:] and k != "k%d" % bad)
                    case("map.corresponds", [m, b, ok], al and not bad)
                    case("map.correspondsWithKey", [m, b, okk], al and not bad)
    return SPEC
