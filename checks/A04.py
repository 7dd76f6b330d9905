import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import report
from sa.proj import Project
from sa.interp import Const, Sym, V, NONE
from sa.astmodel import AstModel
from sa.forms import Form, variants
from sa.guards import GuardInterp, FormModel

AVRO = ("AvroNull", "AvroBoolean", "AvroInt", "AvroLong", "AvroFloat", "AvroDouble", "AvroBytes", "AvroFixed", "AvroString", "AvroEnum",
        "AvroArray", "AvroMap", "AvroRecord", "AvroUnion")
BOOL, STR = r"AvroBoolean\(\)", r"AvroString\(\)"
FALSE = V(Const(False))


def ret(path):
    return r"<%s>\.retType" % re.escape(path)


REC = {"self.avroPlaceholder.avroType": "AvroRecord",
       "self.avroPlaceholder.avroType.fieldsDict": dict((k, V(Sym(("fieldtype", k), (), None))) for k in ("k0", "k1"))}

# class -> [(what, expected type, given type, pins)]: the expected type must accept the given one.
# Patterns are matched against canonical renderings: <child>.retType is the type found for a child.
ACCEPTS = {
    "If": [("the condition", BOOL, ret("predicate"), {})],
    "While": [("the condition", BOOL, ret("predicate"), {})],
    "DoUntil": [("the condition", BOOL, ret("predicate"), {})],
    "Cond": [("condition %d" % k, BOOL, ret("ifthens.[%d].predicate" % k), {}) for k in (0, 1)],
    "For": [("the condition", BOOL, ret("predicate"), {})] + [("the new value of variable %d" % k, r"get\('k%d'\)" % k, ret("step.[%d]" % k), {}) for k in (0, 1)],
    "SetVar": [("the new value of variable %d" % k, r"get\('k%d'\)" % k, ret("values.[%d]" % k), {}) for k in (0, 1)],
    "NewArray": [("item %d" % k, r"self\.\w+\.avroType\.items", ret("items.[%d]" % k), {}) for k in (0, 1)],
    "NewObject": [("map value %d" % k, r"self\.\w+\.avroType\.values|call:values\{self\.\w+\.avroType\}", ret("fields.[%d]" % k), {"self.avroPlaceholder.avroType": "AvroMap"}) for k in (0, 1)] +
                 [("field %d" % k, r"fieldtype\(k%d\)\.avroType" % k, ret("fields.[%d]" % k), REC) for k in (0, 1)],
    "Upcast": [("the expression", r"self\.\w+\.avroType", ret("expr"), {})],
    "FcnDef": [("the last expression", r"self\.\w+\.avroType", ret("body.[1]"), {"<body.[1]>.retType": "AvroInt"})],
    "PoolDel": [("the key", STR, ret("dell"), {})],
    "CastBlock": [("case %d" % k, ret("expr"), r"self\.castCases\[%d\]\..*avroType" % k, {}) for k in (0, 1)] +
                 [("coverage", r"self\.castCases\[\d\]\..*avroType", r".*%s.*" % ret("expr"), {"self.partial": FALSE, "<expr>.retType": "AvroInt"})],
    "Pack": [("value %d" % k, r".*", ret("exprs.[%d]" % k), {}) for k in (0, 1)],
    "PoolTo": [("the initial value", r"pool\(self\.pool\)\.avroType", ret("init"), {})],
    "EngineConfig": [("the action's result", r"self\.\w+\.avroType", ret("action.[1]"), {"self.method": V(Const("map"))}),
                     ("the action's result", r"self\.\w+\.avroType", ret("action.[1]"), {"self.method": V(Const("fold"))}),
                     ("the merge's result", r"self\.\w+\.avroType", ret("merge.[1]"), {"self.method": V(Const("fold"))})],
}
ROOTS = {"AttrTo": "<expr>.retType", "CellTo": "cell(self.cell).avroType", "PoolTo": "pool(self.pool).avroType"}

# class -> [(what, pinned type, classes that must be accepted, extra pins)]: every other class must be refused.
CONT = ("AvroArray", "AvroMap", "AvroRecord")
KINDS = {
    "Foreach": [("the sequence", "<array>.retType", ("AvroArray",), {})],
    "Forkeyval": [("the map", "<map>.retType", ("AvroMap",), {})],
    "Unpack": [("the bytes", "<bytes>.retType", ("AvroBytes",), {})],
    "CallUserFcn": [("the function name", "<name>.retType", ("AvroEnum",), {})],
    "IfNotNull": [("expression %d" % k, "<exprs.[%d]>.retType" % k, ("AvroUnion",), {}) for k in (0, 1)],
    "Let": [("value %d" % k, "<values.[%d]>.retType" % k, AVRO, {}) for k in (0, 1)],
    "NewObject": [("the type", "self.avroPlaceholder.avroType", ("AvroMap", "AvroRecord"), {})],
    "NewArray": [("the type", "self.avroPlaceholder.avroType", ("AvroArray",), {})],
    "AttrGet": [("the container", "<expr>.retType", CONT, {})],
    "AttrTo": [("the container", "<expr>.retType", CONT, {})],
    "CellGet": [("the container", "cell(self.cell).avroType", CONT, {})],
    "CellTo": [("the container", "cell(self.cell).avroType", CONT, {})],
}
PATHS = [("AvroArray", ("AvroInt", "AvroLong")), ("AvroMap", ("AvroString",)), ("AvroRecord", ("AvroString",))]
for _c, _root in (("AttrGet", "<expr>.retType"), ("AttrTo", "<expr>.retType"), ("CellGet", "cell(self.cell).avroType"), ("CellTo", "cell(self.cell).avroType")):
    for _t, _ok in PATHS:
        KINDS[_c] = KINDS[_c] + [("the index of %s" % _t[4:].lower(), "<path.[0]>.retType", _ok, {_root: _t})]
for _c in ("PoolGet", "PoolTo"):
    KINDS[_c] = [("the key", "<path.[0]>.retType", ("AvroString",), {})]


def run(R):
    R.rule("reachable", "the walk of each special form, interpreted with every question about types answered yes, reaches a normal end")
    R.rule("expected-type", "when the type a part must have does not accept the type found for it, no path of the walk reaches a normal end")
    R.rule("signature", "when no signature accepts the types of all the arguments, no path of the walk of a call reaches a normal end")
    R.rule("kind", "a part whose type is of another kind than the form takes leaves no path to a normal end; each allowed kind leaves one")
    p = Project()
    model = AstModel(p)
    it = GuardInterp(p, model)

    def ends(f, bad=None, pins=None):
        return len(it.form(f, bad, pins))

    def where(cls):
        m = p.method(model.classes[cls], "walk")
        return "%s:%d" % (m[1].mod.path, m[0].lineno) if hasattr(m[1].mod, "path") else m[1].mod.name

    for n in sorted(set(ACCEPTS) | set(KINDS) | set(ROOTS) | {"Call"}):
        if n not in model.classes:
            R.note("class " + n, "absent, not judged")
            continue
        fs = [Form(n, "", {})] if n == "EngineConfig" else variants(model, n)
        for f in fs:
            obligations = list(ACCEPTS.get(n, ()))
            if not ends(f):
                R.finding("reachable", f.name, "no document with this form passes the type-check", where(n))
                continue
            R.count("reachable")
            for what, want, given, pins in obligations:
                asked = []

                def bad(key):
                    if key[0] != "accepts":
                        return None
                    x, y = it.sh(key[1]), it.sh(key[2])
                    if re.fullmatch(given, y) and re.fullmatch(want, x):
                        asked.append(x)
                        return FALSE
                    return None
                k = ends(f, bad, pins)
                R.count("expected-type")
                if not asked:
                    R.finding("expected-type", "%s: %s" % (f.name, what), "the type found for this part is never compared with the type it must have", where(n))
                elif k:
                    R.finding("expected-type", "%s: %s" % (f.name, what), "a part of a type that is not accepted still passes the type-check", where(n))
            if n in ROOTS:
                to = f.inst.get(("to",))
                what = "the new value" if to == "Expression" else "the update function"
                asked = []
                root = ROOTS[n]

                def bad(key):
                    if key[0] != "accepts":
                        return None
                    x, y = it.sh(key[1]), it.sh(key[2])
                    if to == "Expression" and y == "<to>.retType" and root in x and "FcnType" not in x:
                        asked.append(x)
                        return FALSE
                    if to != "Expression" and y == "<to>.fcnType":
                        m = re.fullmatch(r"FcnType\(\[(.*)\], (.*)\)", x, re.S)
                        if m and m.group(1) == m.group(2) and root in m.group(1):
                            asked.append(x)
                            return FALSE
                    return None
                k = ends(f, bad, {})
                R.count("expected-type")
                if not asked:
                    R.finding("expected-type", "%s: %s" % (f.name, what), "the type of the update is never compared with the type of the part it replaces", where(n))
                elif k:
                    R.finding("expected-type", "%s: %s" % (f.name, what), "an update of a type that is not accepted still passes the type-check", where(n))
            if n in ("Call", "CallUserFcn"):
                asked = []

                def bad(key):
                    if key[0] == "match":
                        asked.append(it.sh(key[2]))
                        return NONE
                    return None
                k = ends(f, bad, {"<name>.retType": "AvroEnum", "<name>.retType.symbols": [V(Const("f"))]})
                R.count("signature")
                if not asked:
                    R.note("call " + n, "no signature match found, not judged")
                elif k:
                    R.finding("signature", f.name, "a call no signature accepts still passes the type-check", where(n))
                if asked and not all("<args.[%d]>.retType" % i in a for a in asked for i in (0, 1)):
                    R.finding("signature", f.name, "the types of all the arguments are not handed to the signature", where(n))
            for what, keys in (("a field the record does not have", ("k0",)), ("a field left out", ("k0", "k1", "k2"))) if n == "NewObject" else ():
                P = dict(REC)
                P["self.avroPlaceholder.avroType.fieldsDict"] = dict((k, V(Sym(("fieldtype", k), (), None))) for k in keys)
                R.count("kind")
                if ends(f, None, P):
                    R.finding("kind", "%s: %s" % (f.name, what), "a record built with it passes the type-check", where(n))
            for what, target, ok, pins in KINDS.get(n, ()) if f.inst.get(("to",), "Expression") == "Expression" else ():
                for t in AVRO + ("ExceptionType",):
                    P = dict(pins)
                    P[target] = t
                    k = ends(f, None, P)
                    R.count("kind")
                    if t in ok and not k:
                        R.finding("kind", "%s: %s" % (f.name, what), "a part of type %s never passes the type-check" % t, where(n))
                    if t not in ok and k and n != "NewObject":
                        R.finding("kind", "%s: %s" % (f.name, what), "a part of type %s passes the type-check" % t, where(n))
                    if t not in ok and k and n == "NewObject" and t != "ExceptionType":
                        R.finding("kind", "%s: %s" % (f.name, what), "type %s passes the type-check" % t, where(n))
    R.floor("reachable", 20)
    R.floor("expected-type", 20)
    R.floor("kind", 200)


if __name__ == "__main__":
    report.main("A04", run)
