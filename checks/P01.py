import ast, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project, AnalysisBroken
from sa.interp import Const, Sym, Alloc, Fn, V, NONE, EMPTY, _Const, _single_const
from sa.astmodel import AstModel
from sa.reading import DocInterp
from sa.strings import Str, Hole


UNSET = V(Const("<not set>"))


class Pretty(DocInterp):
    """Parts of a construct are symbols ("M", name); turning one into an expression, a type or JSON gives a symbol of that name."""
    opaque_mods = DocInterp.opaque_mods | frozenset(["titus.inspector", "titus.reader"])

    def part(self, o):
        return o.root[1] if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "M" and not o.path else None

    def view(self, name, how):
        if how == "asExpr":
            return self.READ("fcn" if name.startswith("F") else "expr", name)
        if how in ("asType", "asJson"):
            return self.J("any", how, name)
        return None

    def READ(self, kind, *name):
        if kind == "fcn":
            return V(Sym(("READ", "expr") + name, (), ("inst", self.model.find("FcnRef"), "exact")))
        return DocInterp.READ(self, kind, *name)

    def on_call(self, node, o, args, kwargs):
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef) and o.self_ is not None:
            s = o.self_ if isinstance(o.self_, frozenset) else V(o.self_)
            if len(s) == 1:
                n = self.part(next(iter(s)))
                if n is not None:
                    r = self.view(n, o.node.name)
                    if r is not None:
                        return r
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef) and o.node.name == "bytesToString" and len(args) == 1:
            return args[0]
        if isinstance(o, Fn) and isinstance(o.node, ast.FunctionDef) and o.node.name == "makePlaceholder" and args:
            return V(Sym(("PH", args[0]), (), ("inst", self.typeclass("AvroPlaceholder"), "exact")))
        return DocInterp.on_call(self, node, o, args, kwargs)

    def ext_method(self, node, name, recv, args, kwargs):
        c = _single_const(recv)
        if name == "split" and c is not None and isinstance(c.v, str) and len(args) == 1 and not kwargs:
            sep = _single_const(args[0])
            if sep is not None and isinstance(sep.v, str) and sep.v:
                return self.pinned(node, c.v.split(sep.v), ("split", c.v))
        return DocInterp.ext_method(self, node, name, recv, args, kwargs)

    def e_Compare(self, e):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            l, r = self.ev(e.left), self.ev(e.comparators[0])
            if len(l) == 1 and len(r) == 1:
                o = next(iter(l))
                m = self.proj.method(o.cls, "__eq__") if isinstance(o, Alloc) and o.cls is not None else None
                if m is not None:
                    c = _single_const(self.call_fn(e, Fn(m[0], m[1].mod, m[1], getattr(m[1], "frame", None), V(o)), [r], {}))
                    if c is not None:
                        return V(Const(bool(c.v) == isinstance(e.ops[0], ast.Eq)))
            return self.judge(e, l, r)
        return DocInterp.e_Compare(self, e)

    def judge(self, e, l, r):
        x = self.compare1(type(e.ops[0]).__name__, l, r)
        return V(Const(x)) if x is not None else self.res("cmp:" + type(e.ops[0]).__name__, l, r)

    def slice_(self, e, val):
        sl = e.slice
        x = self.exact(val)
        if x is not None and sl.step is None:
            b = []
            for y in (sl.lower, sl.upper):
                c = _single_const(self.ev(y)) if y is not None else None
                b.append(None if y is None else c.v if c is not None and isinstance(c.v, int) else "?")
            if "?" not in b:
                return self.mklist(e, "list", x[b[0]:b[1]], ("slice",) + tuple(b))
        return DocInterp.slice_(self, e, val)

    def setitem(self, node, o, idx, v, s):
        if len(o) == 1:
            x, c = next(iter(o)), _single_const(idx)
            if isinstance(x, Alloc) and x.typ == "list" and c is not None and c.v == 0 and self.hget(x, ("i", 0)) == UNSET:
                d = dict(self.st.heap[x])
                d[("i", 0)] = v
                self.st.heap[x] = d
                return
        return DocInterp.setitem(self, node, o, idx, v, s)

    def isinst1(self, o, classes):
        if self.part(o) is not None and all(isinstance(c, str) for c in classes):
            return False
        return DocInterp.isinst1(self, o, classes)

    def ext(self, node, qual, recv, args, kwargs, sym=None):
        q = qual.split(".")[-1] if qual else ""
        if q == "makePlaceholder" and args:
            return V(Sym(("PH", args[0]), (), ("inst", self.typeclass("AvroPlaceholder"), "exact")))
        if q == "uniqueEngineName":
            return V(Sym(("UNIQUE",), (), None))
        if q in ("b64decode", "bytesToString") and args:
            return args[0]
        if q in ("int", "float") and recv is None and len(args) == 1 and self.jval(args[0]) is not None:
            return self.J("int32" if q == "int" else "float", *self.jval(args[0])[1])
        return DocInterp.ext(self, node, qual, recv, args, kwargs, sym)

    def canon(self, v, depth=0):
        if len(v) == 1:
            o = next(iter(v))
            if isinstance(o, Sym) and isinstance(o.root, tuple) and o.root[0] == "PH" and not o.path:
                return ("type", self.canon(o.root[1], depth + 1))
            if self.part(o) is not None:
                return ("part", self.part(o))
            if isinstance(o, Str) and len(o.parts) == 1 and isinstance(o.parts[0], Hole) and o.parts[0].conv == "json":
                return ("dumps", self.canon(o.parts[0].val, depth + 1))
            if isinstance(o, Alloc) and o.cls is not None and depth < 6:
                return (o.cls.name,) + tuple((k[1] if isinstance(k, tuple) else str(k), self.canon(x, depth + 1)) for k, x in sorted(self.fields(o).items(), key=str) if k not in ("#n", "#maybe", ("a", "pos")))
        elif v:
            alts = set(self.canon(V(o), depth) for o in v)
            if len(alts) == 1:
                return alts.pop()
        return DocInterp.canon(self, v, depth)


BINARY = {"OR": "||", "XOR": "^^", "AND": "&&", "EQ": "==", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "BITOR": "|", "BITXOR": "^", "BITAND": "&",
          "PLUS": "+", "MINUS": "-", "TIMES": "*", "FDIV": "/", "IDIV": "//", "MOD": "%", "REM": "%%", "POW": "**"}
BINDING = [("left", "OR"), ("left", "XOR"), ("left", "AND"), ("right", "NOT"), ("nonassoc", "EQ", "NE", "LT", "LE", "GT", "GE"), ("left", "BITOR"), ("left", "BITXOR"),
           ("left", "BITAND"), ("left", "PLUS", "MINUS"), ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"), ("right", "UMINUS", "BITNOT"), ("left", "POW")]
TEXT = dict((k, v) for k, v in BINARY.items() if k != "IDIV")
TEXT.update(NOT="!", BITNOT="~", LPAREN="(", RPAREN=")", LBRACKET="[", RBRACKET="]", LCURLY="{", RCURLY="}", RARROW="->")
WORDS = dict((w, w.upper()) for w in "idiv fcn if else while do until for foreach cast as ifnotnull unpack try var to init".split())


# -- parse trees: ("tok", type, value), ("part", name) or (production, children)
def tok(t, v=None):
    return ("tok", t, v)


def part(n):
    return ("part", n)


def t(prod, *kids):
    return (prod, kids)


def seqof(lhs, item, sep, xs, lone=None):
    if not xs:
        return t("%s : empty" % lhs, t("empty :"))
    out = t("%s : %s" % (lhs, item), xs[0])
    for x in xs[1:]:
        out = t("%s : %s %s %s" % (lhs, lhs, sep, item), out, ("lit", sep[1:-1]), x) if sep else t("%s : %s %s" % (lhs, lhs, item), out, x)
    return out


def arg(x):
    return x


def args(*xs):
    return seqof("arguments", "argument", '","', [t("argument : expression", x) for x in xs])


def params(*xs):
    return seqof("parameters", "parameter", '","', xs)


def exprs(*xs):
    return seqof("expressions", "expression", '";"', xs)


def par(n, x):
    return t('parameter : DOTNAME ":" argument', name(n), ("lit", ":"), x)


def name(n):
    return tok("DOTNAME", n)


def var(n):
    return t("expression : DOTNAME", name(n))


def string(v):
    return t("expression : STRING", tok("STRING", v))


def number(v):
    return t("expression : NUMBER", tok("NUMBER", v))


LP, RP, LB, RB, LC, RC = [tok(x) for x in ("LPAREN", "RPAREN", "LBRACKET", "RBRACKET", "LCURLY", "RCURLY")]
EQ, COMMA, SEMI = ("lit", "="), ("lit", ","), ("lit", ";")


def block(*xs):
    return t("expression : block", t("block : LCURLY expressions RCURLY", LC, exprs(*xs), RC))


def jsonblock(*xs):
    return t("block : LCURLY parameters RCURLY", LC, params(*xs), RC)


def call(f, *xs):
    return t("expression : DOTNAME LPAREN arguments RPAREN", name(f), LP, args(*xs), RP)


def assigns(*xs):
    return seqof("assignments", "assignment", '","', [t('assignment : DOTNAME "=" expression', name(n), EQ, x) for n, x in xs])


def assign(*xs):
    return t("expression : assignments", assigns(*xs))


def index(n, *xs):
    return t("expression : DOTNAME LBRACKET arguments RBRACKET", name(n), LB, args(*xs), RB)


def ifthen(c, a, b=None):
    if b is None:
        return t("expression : IF LPAREN expression RPAREN expression", tok("IF"), LP, c, RP, a)
    return t("expression : IF LPAREN expression RPAREN expression ELSE expression", tok("IF"), LP, c, RP, a, tok("ELSE"), b)


def E(n):
    return ("read", "expr", n)


def J(n):
    return ("json", "asJson", n)


def ty(n):
    return ("type", ("dumps", ("json", "asType", n)))


def plain(n):
    return ("type", ("dumps", ("const", n)))


def K(c):
    return ("const", c)


def S(*xs):
    return ("seq",) + xs


def D(**kv):
    return ("dict",) + tuple(sorted(kv.items()))


def F(cls, **fields):
    return ("form", cls, fields)


def text(v):
    return F("LiteralString", value=K(v))


A, B, C, G, H = [part(x) for x in "ABCGH"]


def cases():
    """(what, parse tree, method, expected)"""
    out = []

    def c(what, tree, want, how="asExpr"):
        out.append((what, tree, how, want))
    for op, f in sorted(BINARY.items()):
        c("operator " + f, t("expression : expression %s expression" % op, A, tok(op), B), F("Call", name=K(f), args=S(E("A"), E("B"))))
    for prod, op, f in (("MINUS expression %prec UMINUS", "MINUS", "u-"), ("BITNOT expression", "BITNOT", "~"), ("NOT expression", "NOT", "!")):
        c("operator " + f, t("expression : " + prod, tok(op), A), F("Call", name=K(f), args=S(E("A"))))
    c("parentheses", t("expression : LPAREN expression RPAREN", LP, A, RP), E("A"))
    for n in (0, 1, 2, 3):
        ps = [A, B, C][:n]
        c("call with %d arguments" % n, call("x.f", *ps), F("Call", name=K("x.f"), args=S(*[E(x) for x in "ABC"[:n]])))
    c("partial call", call("u.f", t("argument : parameter", par("x", A)), t("argument : parameter", par("y", B))), F("FcnRefFill", name=K("u.f"), fill=D(x=E("A"), y=E("B"))))
    for f, cls in (("int", "LiteralInt"), ("long", "LiteralLong")):
        c(f + "()", call(f, A), F(cls, value=("json", "asJson", "A")))
        c("json(%s)" % f, call("json", var(f), A), F(cls, value=("json", "asJson", "A")))
    for f, cls in (("float", "LiteralFloat"), ("double", "LiteralDouble")):
        c(f + "()", call(f, A), F(cls, value=("json", "asJson", "A")))
        c("json(%s)" % f, call("json", var(f), A), F(cls, value=("json", "asJson", "A")))
    c("string()", call("string", A), F("LiteralString", value=J("A")))
    c("json(string)", call("json", var("string"), A), F("LiteralString", value=J("A")))
    c("json(null)", call("json", var("null"), A), F("LiteralNull"))
    c("json(other)", call("json", var("boolean"), A), F("Literal", avroPlaceholder=plain("boolean"), value=("dumps", J("A"))))
    c("bytes()", call("bytes", A), F("LiteralBase64", value=J("A")))
    c("json(bytes)", call("json", var("bytes"), A), F("LiteralBase64", value=J("A")))
    c("block", block(A, B), F("Do", body=S(E("A"), E("B"))))
    c("do()", call("do", A, B), F("Do", body=S(E("A"), E("B"))))
    c("apply()", call("apply", A, B, C), F("CallUserFcn", name=E("A"), args=S(E("B"), E("C"))))
    c("update()", call("update", A, t("argument : parameter", par("x", B))), F("AttrTo", expr=E("A"), path=S(text("x")), to=E("B")))
    c("new record", call("new", var("n.Rec"), t("argument : parameter", par("x", B)), t("argument : parameter", par("y", C))), F("NewObject", fields=D(x=E("B"), y=E("C")), avroPlaceholder=plain("n.Rec")))
    c("new array", call("new", call("array", var("int")), B, C), F("NewArray", items=S(E("B"), E("C")), avroPlaceholder=("type", ("dumps", D(type=K("array"), items=K("int"))))))
    c("upcast()", call("upcast", A, B), F("Upcast", expr=E("B"), avroPlaceholder=ty("A")))
    c("pack()", call("pack", t("argument : parameter", par("int", A)), t("argument : parameter", par("pad", B))), F("Pack", exprs=S(S(K("int"), E("A")), S(K("pad"), E("B")))))
    c("doc()", call("doc", string("hey")), F("Doc", comment=K("hey")))
    c("error()", call("error", string("bad")), F("Error", message=K("bad"), code=K(None)))
    c("error() with code", call("error", string("bad"), t("argument : parameter", par("code", number(-5)))), F("Error", message=K("bad"), code=K(-5)))
    c("log()", call("log", A, B), F("Log", exprs=S(E("A"), E("B")), namespace=K(None)))
    c("log() with namespace", call("log", A, t("argument : parameter", par("namespace", string("n"))), B), F("Log", exprs=S(E("A"), E("B")), namespace=K("n")))
    for what, body, want in (("expression", A, S(E("A"))), ("block", t("block : LCURLY expressions RCURLY", LC, exprs(A, B), RC), S(E("A"), E("B")))):
        ps = F("FcnDef", paramsPlaceholder=S(D(x=ty("G")), D(y=ty("H"))), retPlaceholder=ty("C"), body=want)
        ret = t("rettype : RARROW expression", tok("RARROW"), C)
        c("function with " + what, t("fcndef : FCN LPAREN parameters rettype RPAREN " + what, tok("FCN"), LP, params(par("x", G), par("y", H)), ret, RP, body), ps)
        c("named function with " + what, t('namedfcndef : DOTNAME "=" FCN LPAREN parameters rettype RPAREN ' + what, name("f"), EQ, tok("FCN"), LP, params(par("x", G), par("y", H)), ret, RP, body),
          S(K("f"), ps), "asFcn")
    BL, BW = block(G, H), S(E("G"), E("H"))
    for body, want, w in ((B, S(E("B")), ""), (BL, BW, " (block)")):
        c("if" + w, ifthen(A, body), F("If", predicate=E("A"), thenClause=want, elseClause=K(None)))
        c("if else" + w, ifthen(A, C, body), F("If", predicate=E("A"), thenClause=S(E("C")), elseClause=want))
        c("if else then" + w, ifthen(A, body, C), F("If", predicate=E("A"), thenClause=want, elseClause=S(E("C"))))
        c("while" + w, t("expression : WHILE LPAREN expression RPAREN expression", tok("WHILE"), LP, A, RP, body), F("While", predicate=E("A"), body=want))
        c("do until" + w, t("expression : DO expression UNTIL LPAREN expression RPAREN", tok("DO"), body, tok("UNTIL"), LP, A, RP), F("DoUntil", predicate=E("A"), body=want))
        c("for" + w, t('expression : FOR LPAREN assignments ";" expression ";" assignments RPAREN expression', tok("FOR"), LP, assigns(("x", part("I")), ("y", part("L"))), SEMI, A, SEMI,
                       assigns(("y", C), ("x", part("N"))), RP, body),
          F("For", init=D(x=E("I"), y=E("L")), predicate=E("A"), step=D(x=E("N"), y=E("C")), body=want))
        c("foreach" + w, t("expression : FOREACH LPAREN parameter RPAREN expression", tok("FOREACH"), LP, par("x", A), RP, body), F("Foreach", name=K("x"), array=E("A"), body=want, seq=K(False)))
        for b in (True, False):
            c("foreach seq %s%s" % (b, w), t('expression : FOREACH LPAREN parameter "," parameter RPAREN expression', tok("FOREACH"), LP, par("x", A), COMMA, par("seq", var(str(b).lower())), RP, body),
              F("Foreach", name=K("x"), array=E("A"), body=want, seq=K(b)))
        for k in ("STRING", "RAWSTRING", "DOTNAME"):
            c("foreach key, value (%s)%s" % (k, w), t('expression : FOREACH LPAREN %s "," parameter RPAREN expression' % k, tok("FOREACH"), LP, tok(k, "k"), COMMA, par("v", A), RP, body),
              F("Forkeyval", forkey=K("k"), forval=K("v"), map=E("A"), body=want))
        case = t("asblock : AS LPAREN parameter RPAREN expression", tok("AS"), LP, par("x", A), RP, body)
        case2 = t("asblock : AS LPAREN parameter RPAREN expression", tok("AS"), LP, par("y", part("Q")), RP, part("R"))
        wants = S(F("CastCase", avroPlaceholder=ty("A"), named=K("x"), body=want), F("CastCase", avroPlaceholder=ty("Q"), named=K("y"), body=S(E("R"))))
        two = t("asblocks : asblocks asblock", t("asblocks : asblock", case), case2)
        c("cast" + w, t("expression : CAST LPAREN expression RPAREN LCURLY asblocks RCURLY", tok("CAST"), LP, C, RP, LC, two, RC), F("CastBlock", expr=E("C"), castCases=wants, partial=K(False)))
        for b in (True, False):
            c("cast partial %s%s" % (b, w), t('expression : CAST LPAREN expression "," parameter RPAREN LCURLY asblocks RCURLY', tok("CAST"), LP, C, COMMA, par("partial", var(str(b).lower())), RP, LC, two, RC),
              F("CastBlock", expr=E("C"), castCases=wants, partial=K(b)))
        vs, wv = params(par("x", A), par("y", part("Q"))), D(x=E("A"), y=E("Q"))
        c("ifnotnull" + w, t("expression : IFNOTNULL LPAREN parameters RPAREN expression", tok("IFNOTNULL"), LP, vs, RP, body), F("IfNotNull", exprs=wv, thenClause=want, elseClause=K(None)))
        c("ifnotnull else" + w, t("expression : IFNOTNULL LPAREN parameters RPAREN expression ELSE expression", tok("IFNOTNULL"), LP, vs, RP, body, tok("ELSE"), C),
          F("IfNotNull", exprs=wv, thenClause=want, elseClause=S(E("C"))))
        c("ifnotnull then else" + w, t("expression : IFNOTNULL LPAREN parameters RPAREN expression ELSE expression", tok("IFNOTNULL"), LP, vs, RP, C, tok("ELSE"), body),
          F("IfNotNull", exprs=wv, thenClause=S(E("C")), elseClause=want))
        fs, wf = params(par("x", var("int")), par("y", string("raw 4"))), S(S(K("x"), K("int")), S(K("y"), K("raw 4")))
        c("unpack" + w, t('expression : UNPACK LPAREN expression "," parameters RPAREN expression', tok("UNPACK"), LP, A, COMMA, fs, RP, body),
          F("Unpack", bytes=E("A"), format=wf, thenClause=want, elseClause=K(None)))
        c("unpack else" + w, t('expression : UNPACK LPAREN expression "," parameters RPAREN expression ELSE expression', tok("UNPACK"), LP, A, COMMA, fs, RP, body, tok("ELSE"), C),
          F("Unpack", bytes=E("A"), format=wf, thenClause=want, elseClause=S(E("C"))))
        c("unpack then else" + w, t('expression : UNPACK LPAREN expression "," parameters RPAREN expression ELSE expression', tok("UNPACK"), LP, A, COMMA, fs, RP, C, tok("ELSE"), body),
          F("Unpack", bytes=E("A"), format=wf, thenClause=S(E("C")), elseClause=want))
        c("try" + w, t("expression : TRY expression", tok("TRY"), body), F("Try", exprs=want, filter=K(None)))
        c("try with filter" + w, t("expression : TRY LPAREN arguments RPAREN expression", tok("TRY"), LP, args(string("bad"), number(-3), var("worse")), RP, body),
          F("Try", exprs=want, filter=S(K("bad"), K(-3), K("worse"))))
        c("try with one filter" + w, t("expression : TRY LPAREN expression RPAREN expression", tok("TRY"), LP, string("bad"), RP, body), F("Try", exprs=want, filter=S(K("bad"))))
    c("else if", ifthen(A, B, ifthen(C, G, H)), F("Cond", ifthens=S(F("If", predicate=E("A"), thenClause=S(E("B")), elseClause=K(None)), F("If", predicate=E("C"), thenClause=S(E("G")), elseClause=K(None))), elseClause=S(E("H"))))
    c("else if without else", ifthen(A, B, ifthen(C, G)), F("Cond", ifthens=S(F("If", predicate=E("A"), thenClause=S(E("B")), elseClause=K(None)), F("If", predicate=E("C"), thenClause=S(E("G")), elseClause=K(None))), elseClause=K(None)))
    c("let", t("expression : VAR assignments", tok("VAR"), assigns(("x", A), ("y", B))), F("Let", values=D(x=E("A"), y=E("B"))))
    c("set one", assign(("x", A)), F("SetVar", values=D(x=E("A"))))
    c("set two", assign(("x", A), ("y", B)), F("SetVar", values=D(x=E("A"), y=E("B"))))
    c("let a cell's name", t("expression : VAR assignments", tok("VAR"), assigns(("c", A))), F("Let", values=D(c=E("A"))))
    ref = F("Ref", name=K("x"))
    c("set cell", assign(("c", A)), F("CellTo", cell=K("c"), path=S(), to=E("A")))
    c("set in symbol", assign(("x.a.b", A)), F("AttrTo", expr=ref, path=S(text("a"), text("b")), to=E("A")))
    c("set in cell", assign(("c.a.b", A)), F("CellTo", cell=K("c"), path=S(text("a"), text("b")), to=E("A")))
    c("set in pool", assign(("p.a.b", A)), F("PoolTo", pool=K("p"), path=S(text("a"), text("b")), to=E("A"), init=E("A")))
    c("general path", t("expression : expression LBRACKET arguments RBRACKET", A, LB, args(B, C), RB), F("AttrGet", expr=E("A"), path=S(E("B"), E("C"))))
    c("general path assignment", t('expression : expression LBRACKET arguments RBRACKET "=" expression', A, LB, args(B, C), RB, EQ, G), F("AttrTo", expr=E("A"), path=S(E("B"), E("C")), to=E("G")))
    for n, get, to in (("x", dict(cls="AttrGet", expr=ref), dict(cls="AttrTo", expr=ref)), ("c", dict(cls="CellGet", cell=K("c")), dict(cls="CellTo", cell=K("c"))),
                       ("p", dict(cls="PoolGet", pool=K("p")), dict(cls="PoolTo", pool=K("p")))):
        if n != "p":
            c("read " + n, var(n), ref if n == "x" else F(path=S(), **get))
        for nm, dots in ((n, ()), (n + ".a.b", (text("a"), text("b")))):
            if dots:
                c("read " + nm, var(nm), F(path=S(*dots), **get))
            c("read %s[]" % nm, index(nm, A, B), F(path=S(*(dots + (E("A"), E("B")))), **get))
            ini = dict(init=E("G")) if n == "p" else {}
            c("assign %s[]" % nm, t('expression : DOTNAME LBRACKET arguments RBRACKET "=" expression', name(nm), LB, args(A, B), RB, EQ, G), F(path=S(*(dots + (E("A"), E("B")))), to=E("G"), **dict(to, **ini)))
            if n != "p":
                c("assign %s[] to function" % nm, t("expression : DOTNAME LBRACKET arguments RBRACKET TO argument", name(nm), LB, args(A, B), RB, tok("TO"), part("Fun")), F(path=S(*(dots + (E("A"), E("B")))), to=E("Fun"), **to))
                if dots or n == "c":
                    c("assign %s to function" % nm, t("expression : DOTNAME TO argument", name(nm), tok("TO"), part("Fun")), F(path=S(*dots), to=E("Fun"), **to))
            else:
                c("assign %s[] to function with init" % nm, t("expression : DOTNAME LBRACKET arguments RBRACKET TO argument INIT expression", name(nm), LB, args(A, B), RB, tok("TO"), part("Fun"), tok("INIT"), H),
                  F(path=S(*(dots + (E("A"), E("B")))), to=E("Fun"), init=E("H"), **to))
                if dots:
                    c("assign %s to function with init" % nm, t("expression : DOTNAME TO argument INIT expression", name(nm), tok("TO"), part("Fun"), tok("INIT"), H), F(path=S(*dots), to=E("Fun"), init=E("H"), **to))
    c("enum symbol", t('expression : DOTNAME "@" DOTNAME', name("n.E"), ("lit", "@"), name("one")), F("Literal", avroPlaceholder=plain("n.E"), value=("dumps", K("one"))))
    c("function name", var("u.f"), F("FcnRef", name=K("u.f")))
    c("null", var("null"), F("LiteralNull"))
    c("true", var("true"), F("LiteralBoolean", value=K(True)))
    c("false", var("false"), F("LiteralBoolean", value=K(False)))
    c("whole number", number(12), F("LiteralInt", value=K(12)))
    c("other number", number(1.5), F("LiteralDouble", value=K(1.5)))
    c("string", string("hey"), F("LiteralString", value=K("hey")))
    c("raw string", t("expression : RAWSTRING", tok("RAWSTRING", "hey")), F("LiteralString", value=K("hey")))
    # -- types and JSON
    c("array type", call("array", A), D(type=K("array"), items=("json", "asType", "A")), "asType")
    c("map type", call("map", A), D(type=K("map"), values=("json", "asType", "A")), "asType")
    c("union type", call("union", A, B), S(("json", "asType", "A"), ("json", "asType", "B")), "asType")
    c("named type", var("n.T"), K("n.T"), "asType")
    c("fixed type", call("fixed", number(16), var("a.b.F")), D(type=K("fixed"), size=K(16), name=K("F"), namespace=K("a.b")), "asType")
    c("enum type", call("enum", t("argument : bracketedargs", t("bracketedargs : LBRACKET arguments RBRACKET", LB, args(var("one"), var("two")), RB)), var("a.b.E")),
      D(type=K("enum"), symbols=S(K("one"), K("two")), name=K("E"), namespace=K("a.b")), "asType")
    c("record type", call("record", t("argument : parameter", par("x", A)), var("Rec"), t("argument : parameter", par("y", B))),
      D(type=K("record"), name=K("Rec"), fields=S(D(name=K("x"), type=("json", "asType", "A")), D(name=K("y"), type=("json", "asType", "B")))), "asType")
    c("JSON object", jsonblock(par("x", A), par("y", B)), D(x=J("A"), y=J("B")), "asJson")
    c("JSON array", t("bracketedargs : LBRACKET arguments RBRACKET", LB, args(A, B), RB), S(J("A"), J("B")), "asJson")
    for n, v in (("null", None), ("true", True), ("false", False), ("some", "some")):
        c("JSON " + n, var(n), K(v), "asJson")
    c("JSON number", number(12), K(12), "asJson")
    c("JSON string", string("hey"), K("hey"), "asJson")
    # -- cells and pools
    for how, cls in (("asCell", "Cell"), ("asPool", "Pool")):
        for b in (True, False):
            flags = (t("argument : parameter", par("shared", var(str(b).lower()))), t("argument : parameter", par("source", string("json"))), t("argument : parameter", par("rollback", var(str(not b).lower()))))
            for what, ts in (("type first", (A,) + flags), ("type named", flags + (t("argument : parameter", par("type", A)),))):
                ini = D(one=("dumps", J("B")), two=("dumps", J("C"))) if cls == "Pool" else ("dumps", D(one=J("B"), two=J("C")))
                c("%s, shared %s, %s" % (cls, b, what), t('cellpool : DOTNAME LPAREN arguments RPAREN "=" block', name("it"), LP, args(*ts), RP, EQ, jsonblock(par("one", B), par("two", C))),
                  S(K("it"), F(cls, avroPlaceholder=ty("A"), init=ini, shared=K(b), rollback=K(not b), source=K("json"))), how)
    for k, v in (("NUMBER", 12), ("STRING", "hey"), ("RAWSTRING", "hey"), ("DOTNAME", "some")):
        c("cell from " + k, t('cellpool : DOTNAME LPAREN arguments RPAREN "=" ' + k, name("it"), LP, args(A), RP, EQ, tok(k, v)),
          S(K("it"), F("Cell", avroPlaceholder=ty("A"), init=("dumps", K(v)), shared=K(False), rollback=K(False), source=K("embedded"))), "asCell")
    return out


def section(k, title, x, n=0):
    return t("section : SECTION_HEADER_START anything" if not n else "section : SECTION_HEADER anything", tok("SECTION_HEADER_START" if not n else "SECTION_HEADER", title), x)


def anything(kind, x):
    return t("anything : " + kind, x)


def documents():
    """(what, parse tree, expected EngineConfig)"""
    ex = lambda x: anything("expression", x)
    several = anything("expressions", exprs(part("A1"), part("A2")))
    plain2 = S(E("A1"), E("A2"))
    need = [("input", ex(part("I"))), ("output", ex(part("O"))), ("action", several)]
    base = dict(inputPlaceholder=ty("I"), outputPlaceholder=ty("O"), action=plain2, begin=S(), end=S(), fcns=D(), cells=D(), pools=D(), zero=K(None), merge=K(None), randseed=K(None), doc=K(None), version=K(None),
                metadata=D(), options=D(), method=K("map"))
    out = []

    def doc(what, more, **want):
        secs = need + more
        w = dict(base)
        w.update(want)
        for order in (secs, secs[::-1]):
            d = None
            for k, (n, x) in enumerate(order):
                sx = section(k, n, x, k)
                d = t("sections : section", sx) if d is None else t("sections : sections section", d, sx)
            out.append((what + ("" if order is secs else ", sections reversed"), t("document : sections", d), F("EngineConfig", **w)))
    doc("input, output and action", [])
    doc("name", [("name", ex(var("MyEngine")))], name=K("MyEngine"))
    for m in ("map", "emit"):
        doc("method %s" % m, [("method", ex(var(m)))], method=K(m))
    doc("method fold, zero and merge", [("method", ex(var("fold"))), ("zero", ex(part("Z"))), ("merge", anything("expressions", exprs(part("M1"), part("M2"))))],
        method=K("fold"), zero=("dumps", J("Z")), merge=S(E("M1"), E("M2")))
    for n in ("begin", "end"):
        doc(n, [(n, anything("expressions", exprs(part("M1"), part("M2"))))], **{n: S(E("M1"), E("M2"))})
        doc(n + " with one expression", [(n, ex(part("M1")))], **{n: S(E("M1"))})
    doc("randseed", [("randseed", ex(number(17)))], randseed=K(17))
    doc("version", [("version", ex(number(17)))], version=K(17))
    doc("doc", [("doc", ex(string("all about it")))], doc=K("all about it"))
    doc("metadata", [("metadata", ex(part("Z")))], metadata=J("Z"))
    doc("options", [("options", ex(part("Z")))], options=J("Z"))
    cell = lambda n, x: t('cellpool : DOTNAME LPAREN arguments RPAREN "=" block', name(n), LP, args(x), RP, EQ, jsonblock(par("one", part("C1"))))
    two = t('cellpools : cellpools ";" cellpool', t("cellpools : cellpool", cell("c1", A)), SEMI, cell("c2", B))
    wc = dict((n, F("Cell", avroPlaceholder=ty(x), init=("dumps", D(one=J("C1"))))) for n, x in (("c1", "A"), ("c2", "B")))
    wp = dict((n, F("Pool", avroPlaceholder=ty(x), init=D(one=("dumps", J("C1"))))) for n, x in (("c1", "A"), ("c2", "B")))
    doc("cells", [("cells", anything("cellpools", two))], cells=D(**wc))
    doc("pools", [("pools", anything("cellpools", two))], pools=D(**wp))
    fd = lambda n, x: t('namedfcndef : DOTNAME "=" FCN LPAREN parameters rettype RPAREN expression', name(n), EQ, tok("FCN"), LP, params(par("x", G)), t("rettype : RARROW expression", tok("RARROW"), C), RP, x)
    wf = lambda x: F("FcnDef", paramsPlaceholder=S(D(x=ty("G"))), retPlaceholder=ty("C"), body=S(E(x)))
    doc("fcns", [("fcns", anything("namedfcndefs", t('namedfcndefs : namedfcndefs ";" namedfcndef', t("namedfcndefs : namedfcndef", fd("f1", A)), SEMI, fd("f2", B))))], fcns=D(f1=wf("A"), f2=wf("B")))
    return out


class Trees(object):
    """A parse tree as a function that runs the actions of its productions from the leaves up."""
    def __init__(self, it, mod, acts, part):
        self.it, self.mod, self.acts, self.part = it, mod, acts, part

    def run(self, tree, how, state):
        lines, params, vals = [], ["state"], [state]
        names = {}

        def param(key, v):
            if key not in names:
                names[key] = "v%d" % len(names)
                params.append(names[key])
                vals.append(v)
            return names[key]

        def go(x):
            if x[0] == "tok":
                return "Token(%r, %r, 3)" % (x[1], x[2])
            if x[0] == "lit":
                return repr(x[1])
            if x[0] == "part":
                return param(x, self.part(x[1]))
            if x[0] not in self.acts:
                raise KeyError(x[0])
            if x[0] == "empty :":
                return "None"
            kids = [go(k) for k in x[1]]
            a = param(("act", x[0]), V(Fn(self.acts[x[0]], self.mod, None, None, None)))
            n = "p%d" % len(lines)
            lines.append(" %s = [%s]" % (n, ", ".join(["'<not set>'"] + kids)))
            lines.append(" %s(%s)" % (a, n))
            return n + "[0]"
        e = go(tree)
        src = "def probe(%s):\n%s\n return %s%s\n" % (", ".join(params), "\n".join(lines + [" pass"]), e, "" if how is None else ".%s(%s)" % (how, "" if how == "asJson" else "state"))
        return self.it.call_in(ast.parse(src).body[0], self.mod, vals)


def fits(got, want):
    """None, or what differs; Unclear when the part that differs is not known."""
    if isinstance(want, tuple) and want and want[0] == "form":
        if got[0] != want[1]:
            return differs(got, want[1])
        f = dict(got[1:])
        for k, w in want[2].items():
            if k not in f:
                return "%s has no %s" % (want[1], k)
            d = fits(f[k], w)
            if d:
                return "%s of %s: %s" % (k, want[1], d)
        return None
    if isinstance(want, tuple) and want and want[0] in ("seq", "dict", "type", "dumps") and got and got[0] == want[0] and len(got) == len(want):
        for g, w in zip(got[1:], want[1:]):
            if want[0] == "dict":
                if g[0] != w[0]:
                    return differs(g[0], w[0])
                g, w = g[1], w[1]
            d = fits(g, w)
            if d:
                return d
        return None
    return None if got == want else differs(got, want)


class Unclear(Exception):
    pass


def differs(got, want):
    if any(x in str(got) for x in ("'other'", "'any'", "'some'")):
        raise Unclear(str(got)[:300])
    return "%s instead of %s" % (say(got), say(want))


def say(x):
    return str(x)[:90]


def productions(mod):
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.FunctionDef) and n.name.startswith("p_") and ast.get_docstring(n):
            lhs = None
            for alt in re.split(r"\n\s*\||\n(?=\s*\w+\s*:)", ast.get_docstring(n).strip()):
                m = re.match(r"\s*(\w+)\s*:(.*)", alt, re.S)
                if m:
                    lhs, alt = m.group(1), m.group(2)
                out[(lhs + " : " + " ".join(alt.split())).strip()] = n
    return out


def run(R):
    R.rule("form", "each construct of the grammar, built from its parts by the actions of its productions, becomes the PFA form, type, JSON value, cell or pool it stands for, every part from its own place")
    R.rule("document", "each section of a document becomes the part of the engine it names")
    R.rule("binding", "operators bind in the documented order")
    R.rule("token", "operators, brackets and reserved words are read as the tokens they stand for")
    p = Project()
    it = Pretty(p, AstModel(p))
    mod = p.mod("titus.prettypfa")
    mini = p.cls("titus.prettypfa", "MiniAst")
    stcls = p.cls("titus.prettypfa", "InterpretationState")
    acts = productions(mod)

    def M(n):
        return V(Sym(("M", n), (), ("inst", mini, "exact")))

    def state(it, fn):
        a = Alloc(("state", 0, 0, (), "state"), "inst", stcls)
        d = {}
        for k, xs in (("functionNames", ["u.f", "m.f"]), ("cellNames", ["c"]), ("poolNames", ["p"])):
            d[("a", k)] = it.pinned(fn, xs, (k,))
        d[("a", "avroTypeAlias")] = it.pinned(fn, {}, ("alias",))
        d[("a", "avroTypeMemo")] = V(Sym(("memo",), (), None))
        d[("a", "avroTypeBuilder")] = V(Sym(("builder",), (), None))
        it.st.heap[a] = d
        return V(a)
    trees = Trees(it, mod, acts, M)
    unjudged = []

    def judge(rule, what, tree, how, want):
        try:
            out = trees.run(tree, how, state)
        except KeyError as e:
            unjudged.append("%s: no production %s" % (what, e))
            return
        except AnalysisBroken as e:
            unjudged.append("%s: %s" % (what, e))
            return
        if not out:
            R.count(rule)
            R.finding(rule, what, "is refused", "titus/prettypfa.py")
        for v, s in out:
            it.st = s
            got = it.canon(v)
            try:
                d = fits(got, want)
            except Unclear as e:
                unjudged.append("%s: %s" % (what, e))
                continue
            R.count(rule)
            if d:
                R.finding(rule, what, d, "titus/prettypfa.py")
    for what, tree, how, want in cases():
        judge("form", what, tree, how, want)
    for what, tree, want in documents():
        judge("document", "document with " + what, tree, None, want)
    binding(R, mod, acts, unjudged)
    tokens(R, mod, trees, it, unjudged)
    R.floor("form", 60)
    R.floor("document", 10)
    R.floor("binding", 15)
    R.floor("token", 35)
    R.note("constructs", [c[0] for c in cases()])
    R.note("not judged", unjudged)


def binding(R, mod, acts, unjudged):
    """How tightly each operator binds: the precedence of its production (that of its last terminal, unless %prec says otherwise) in the table."""
    tab = None
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "precedence" for x in n.targets):
            try:
                tab = ast.literal_eval(n.value)
            except ValueError:
                tab = None
    if tab is None:
        unjudged.append("the table of precedences is not a literal")
        return
    level = dict((x, (k, row[0])) for k, row in enumerate(tab) for x in row[1:])
    prods = {}
    for key in acts:
        w = key.split()
        if w[:2] == ["expression", ":"]:
            prec = None
            if "%prec" in w:
                prec, w = w[w.index("%prec") + 1], w[:w.index("%prec")]
            rhs = tuple(w[2:])
            terms = [x for x in rhs if x.isupper()]
            prods[rhs] = prec or (terms[-1] if terms else None)
    got = {}
    for k, row in enumerate(BINDING):
        for op in row[1:]:
            rhs = ("MINUS", "expression") if op == "UMINUS" else (op, "expression") if op in ("NOT", "BITNOT") else ("expression", op, "expression")
            if rhs not in prods:
                unjudged.append("no production for " + op)
                continue
            got[op] = (k, row[0]) + level.get(prods[rhs], (None, None))
    for op, (k, assoc, lv, as2) in sorted(got.items()):
        R.count("binding")
        where = "titus/prettypfa.py"
        if lv is None:
            R.finding("binding", op, "has no precedence", where)
            continue
        if as2 != assoc:
            R.finding("binding", op, "groups %s instead of %s" % (as2, assoc), where)
        for o2, (k2, _, lv2, _) in sorted(got.items()):
            if lv2 is not None and o2 > op and (k > k2) - (k < k2) != (lv > lv2) - (lv < lv2):
                R.finding("binding", "%s against %s" % (op, o2), "%s binds %s %s" % (op, "as tightly as" if lv == lv2 else "tighter than" if lv > lv2 else "less tightly than", o2), where)


def tokens(R, mod, trees, it, unjudged):
    """The first rule, in the order written, whose pattern matches, and the type of token its action makes."""
    rules = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.FunctionDef) and re.match(r"t_[A-Z_]+$", n.name) and ast.get_docstring(n, clean=False):
            try:
                rules.append((n.lineno, n.name[2:], re.compile(ast.get_docstring(n, clean=False), re.VERBOSE), n))
            except re.error:
                unjudged.append("pattern of " + n.name)
    rules.sort(key=lambda x: x[0])
    words = None
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "reserved" for x in n.targets):
            try:
                words = ast.literal_eval(n.value)
            except ValueError:
                pass
    where = "titus/prettypfa.py"

    def first(text):
        for _, name, pat, n in rules:
            m = None if name.startswith("SECTION") else pat.match(text)
            if m and m.end():
                return name, m.group(0), n
        return None, None, None

    def made(n):
        """Types of the tokens the action makes."""
        return set(c.args[0].value for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "Token" and c.args and isinstance(c.args[0], ast.Constant))
    for want, text in sorted(TEXT.items()):
        for after in (" a", "a", "(", "'s'", '"s"', "<<s>>"):
            if want == "BITAND" and after.startswith("&") or want in ("LT",) and after.startswith("<"):
                continue
            name, m, n = first(text + after)
            R.count("token")
            if name != want or m != text:
                R.finding("token", text, "is read as %s %r before %r" % (name, m, after), where)
            elif made(n) - {want}:
                R.finding("token", text, "makes a token %s" % sorted(made(n)), where)
    if words is None:
        unjudged.append("the table of reserved words is not a literal")
    else:
        for w in sorted(set(WORDS) | set(words)):
            R.count("token")
            if words.get(w) != WORDS.get(w):
                R.finding("token", w, "is reserved as %s instead of %s" % (words.get(w), WORDS.get(w)), where)
    for text, want, m0 in (("abc.d_1 x", "DOTNAME", "abc.d_1"), ("_x", "DOTNAME", "_x"), ("'it \\'", "RAWSTRING", "'it \\'"), ('"it \\" is" + "b"', "STRING", '"it \\" is"'), ("12.5e-3 x", "NUMBER", "12.5e-3"), ("-3", "NUMBER", "-3"),
                           ("0", "NUMBER", "0"), ("1e5", "NUMBER", "1e5"), ("<<x_1>>", "REPLACEMENT", "<<x_1>>"), ("// all of this -> {", "COMMENT", "// all of this -> {")):
        name, m, n = first(text)
        R.count("token")
        if name != want or m != m0:
            R.finding("token", text, "is read as %s %r" % (name, m), where)


if __name__ == "__main__":
    report.main("P01", run)
