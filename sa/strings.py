"""String-template domain: strings built by format/+/%/join/f-strings are kept as literal text with holes."""
import string
from .interp import Interp, _mk, Const, _Const, Sym, Alloc, Res, Fn, V, EMPTY, _single_const, symstr

Str = _mk("Str", ("parts",))            # parts: tuple of str | Hole
Hole = _mk("Hole", ("conv", "val"))     # conv: raw | repr | str | json | join:<sep> ; val: frozenset of objects

MAXPARTS = 400


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def mkstr(parts):
    parts = norm(parts)
    if all(isinstance(p, str) for p in parts):
        return Const("".join(parts))
    return Str(parts)


def holes(o):
    """All holes of a template, recursively through joined element templates."""
    if isinstance(o, Str):
        for p in o.parts:
            if isinstance(p, Hole):
                yield p


class StrInterp(Interp):
    MAXALT = 40

    def pieces(self, val, conv="raw"):
        """Alternatives (tuples of parts) for a value used as text."""
        out = []
        rest = set()
        for o in val:
            if isinstance(o, _Const):
                if conv == "repr":
                    out.append((repr(o.v),))
                elif conv == "raw" or conv == "str":
                    out.append((str(o.v),))
                else:
                    out.append((Hole(conv, V(o)),))
            elif isinstance(o, Str) and conv in ("raw", "str"):
                out.append(o.parts)
            else:
                rest.add(o)
        if rest:
            out.append((Hole(conv, frozenset(rest)),))
        if not out:
            out.append((Hole(conv, EMPTY),))
        return out

    def combine(self, node, seqs):
        """seqs: list of lists of alternatives; cartesian product, bounded."""
        acc = [()]
        for alts in seqs:
            if len(acc) * len(alts) > self.MAXALT:
                alts = [(Hole("raw", frozenset(self._mix(alts))),)]
            acc = [a + b for a in acc for b in alts]
            if any(len(a) > MAXPARTS for a in acc):
                return None
        return frozenset(mkstr(a) for a in acc)

    def _mix(self, alts):
        for a in alts:
            yield mkstr(a)

    def srcs(self, val, _seen=None):
        seen = _seen if _seen is not None else set()
        extra = set()
        work = list(val)
        flat = []
        while work:
            o = work.pop()
            if isinstance(o, Str):
                if o in seen:
                    continue
                seen.add(o)
                for p in o.parts:
                    if isinstance(p, Hole):
                        work.extend(p.val)
            else:
                flat.append(o)
        out = set()
        fl = []
        for o in flat:
            fl.append(o)
        # containers may hold templates
        seen2 = seen
        stack = list(fl)
        while stack:
            o = stack.pop()
            if o in seen2:
                continue
            seen2.add(o)
            if isinstance(o, Res):
                out |= o.srcs
            elif isinstance(o, Sym):
                out.add(o)
            elif isinstance(o, Alloc):
                for f, v in self.fields(o).items():
                    stack.extend(v)
            elif isinstance(o, Str):
                for p in o.parts:
                    if isinstance(p, Hole):
                        stack.extend(p.val)
            elif hasattr(o, "recv") and getattr(o, "recv", None) is not None:
                stack.extend(o.recv)
        return frozenset(out)

    def strfmt(self, node, how, vals):
        r = self._strfmt(node, how, vals)
        return r if r is not None else self.res("str", *vals)

    def _strfmt(self, node, how, vals):
        if how == "f":
            return self.combine(node, [self.pieces(v) for v in vals])
        if how == "+":
            if any(isinstance(o, Alloc) for v in vals for o in v):
                return None
            return self.combine(node, [self.pieces(v) for v in vals])
        if how == "repr":
            return self.combine(node, [self.pieces(vals[0], "repr")]) if vals else None
        if how == "str":
            return self.combine(node, [self.pieces(vals[0], "str")]) if vals else None
        if how == "json.dumps":
            return self.combine(node, [[(Hole("json", vals[0]),)]]) if vals else None
        return None

    def on_binop(self, node, op, l, r):
        if op == "Add":
            if any(isinstance(o, Str) or (isinstance(o, _Const) and isinstance(o.v, str)) for o in l | r) \
                    and not any(isinstance(o, Alloc) for o in l | r):
                x = self.combine(node, [self.pieces(l), self.pieces(r)])
                if x is not None:
                    return x
        if op == "Mult":
            a, b = _single_const(l), _single_const(r)
            if a is not None and isinstance(a.v, str) and not (b is not None and isinstance(b.v, int)):
                return V(Str((Hole("repeat", l | r),)))
            if a is not None and b is not None and isinstance(a.v, str) and isinstance(b.v, int) and b.v < 100:
                return V(Const(a.v * b.v))
        if op == "Mod":
            a = _single_const(l)
            if a is not None and isinstance(a.v, str):
                x = self.percent(node, a.v, r)
                if x is not None:
                    return x
        return None

    def percent(self, node, fmt, r):
        args = []
        o = next(iter(r)) if len(r) == 1 else None
        if isinstance(o, Alloc) and o.typ == "tuple":
            i = 0
            while self.hget(o, ("i", i)) is not None:
                args.append(self.hget(o, ("i", i))); i += 1
        elif isinstance(o, _Const) and isinstance(o.v, tuple):
            args = [V(Const(x)) for x in o.v]
        else:
            args = [r]
        seqs, i, n, lit = [], 0, 0, ""
        while i < len(fmt):
            c = fmt[i]
            if c == "%":
                j = i + 1
                while j < len(fmt) and fmt[j] in "-+ #0123456789.*":
                    j += 1
                if j >= len(fmt):
                    return None
                t = fmt[j]
                if t == "%":
                    lit += "%"
                elif t == "(":
                    return None
                else:
                    seqs.append([(lit,)]); lit = ""
                    if n >= len(args):
                        return None
                    seqs.append(self.pieces(args[n], "repr" if t == "r" else "str"))
                    n += 1
                i = j + 1
            else:
                lit += c
                i += 1
        seqs.append([(lit,)])
        return self.combine(node, seqs)

    def ext_method(self, node, name, recv, args, kwargs):
        if name == "format":
            out = EMPTY
            ok = True
            for o in recv:
                if isinstance(o, _Const) and isinstance(o.v, str):
                    x = self.fmt(node, o.v, args, kwargs)
                elif isinstance(o, Str):
                    x = self.fmt_parts(node, o, args, kwargs)
                else:
                    x = None
                if x is None:
                    ok = False
                else:
                    out = out | x
            if ok and recv:
                return out
            return out | self.res("str", recv, *(list(args) + list(kwargs.values())))
        if name == "join" and args:
            sep = _single_const(recv)
            if sep is not None and isinstance(sep.v, str):
                o = next(iter(args[0])) if len(args[0]) == 1 else None
                if isinstance(o, Alloc) and o.typ in ("list", "tuple") and not self.hget(o, "[]"):
                    items, i = [], 0
                    while self.hget(o, ("i", i)) is not None:
                        items.append(self.hget(o, ("i", i))); i += 1
                    seqs = []
                    for k, v in enumerate(items):
                        if k:
                            seqs.append([(sep.v,)])
                        seqs.append(self.pieces(v))
                    x = self.combine(node, seqs)
                    if x is not None:
                        return x
                el = self.elems(args[0])
                return V(Str((Hole("join:" + sep.v, el),)))
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "encode", "decode", "title", "capitalize", "zfill", "ljust", "rjust"):
            if name == "replace" and len(args) == 2 and all(isinstance(o, _Const) for o in recv):
                a, b = _single_const(args[0]), _single_const(args[1])
                if a is not None and b is not None and all(isinstance(o.v, str) for o in recv):
                    return frozenset(Const(o.v.replace(a.v, b.v)) for o in recv)
            if any(isinstance(o, (Str, _Const)) for o in recv):
                return V(Str((Hole("." + name, recv),)))
        return Interp.ext_method(self, node, name, recv, args, kwargs)

    def fmt(self, node, s, args, kwargs):
        try:
            items = list(string.Formatter().parse(s))
        except ValueError:
            return None
        seqs = []
        auto = 0
        for lit, field, spec, conv in items:
            if lit:
                seqs.append([(lit,)])
            if field is None:
                continue
            import re
            m = re.match(r"^(\w*)(.*)$", field, re.S)
            base, rest = m.group(1), m.group(2)
            if base == "":
                idx = auto; auto += 1
                v = args[idx] if idx < len(args) else None
            elif base.isdigit():
                v = args[int(base)] if int(base) < len(args) else None
            else:
                v = kwargs.get(base)
            if v is None:
                v = kwargs.get("**")
                if v is None:
                    seqs.append([(Hole("missing-format-argument", EMPTY),)])
                    continue
            while rest:
                m = re.match(r"^\.(\w+)|^\[([^\]]*)\]", rest)
                if not m:
                    return None
                if m.group(1):
                    v = self.getattr_(node, v, m.group(1))
                else:
                    k = m.group(2)
                    v = self.getitem(node, v, V(Const(int(k) if k.isdigit() else k)))
                rest = rest[m.end():]
            seqs.append(self.pieces(v, "repr" if conv == "r" else "raw"))
        return self.combine(node, seqs)

    def fmt_parts(self, node, o, args, kwargs):
        """format applied to a template: only the literal parts carry fields."""
        seqs = []
        for p in o.parts:
            if isinstance(p, str):
                x = self.fmt(node, p, args, kwargs)
                if x is None:
                    return None
                seqs.append(self.pieces(x))
            else:
                seqs.append([(p,)])
        return self.combine(node, seqs)

    def isinst1(self, o, classes):
        if isinstance(o, Str):
            if all(isinstance(c, str) for c in classes):
                return "str" in classes or "basestring" in classes
            if "str" not in classes:
                return False
            return True
        return Interp.isinst1(self, o, classes)

    def truth(self, val):
        r = set()
        for o in val:
            if isinstance(o, Str):
                if any(isinstance(p, str) and p for p in o.parts):
                    r.add(True)
                    continue
                return None
            t = Interp.truth(self, V(o))
            if t is None:
                return None
            r.add(t)
        return r.pop() if len(r) == 1 else None


def render(o, namer):
    """Turn a template into text, naming each hole with namer(hole)."""
    if isinstance(o, _Const):
        return str(o.v)
    return "".join(p if isinstance(p, str) else namer(p) for p in o.parts)
