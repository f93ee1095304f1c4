"""Shared by the checks that compare kernels with the quantities they stand for."""
import re

from sa.frontend import AnalysisBroken
from sa.checks.kern import (Kern, Obj, Cell, View, Ten, S, F, vec, atom, padd, pmul, pinv, pconst, peq, pstr, psubst, hasatom, Arr, Sym, Fun, Unsup)
from sa.checks.i05 import fn_named

AX = "xyz"


def names(label, field, cls):
    """names of quantities: by class and field; values at the nodes carry the step they belong to (@0 current, @1 next)"""
    cls = cls or ""
    if cls.endswith("Tet") and field in ("weight",):
        return "wT"
    if cls.endswith("Tri") and field in ("weight",):
        return "wS"
    if cls == "Triangle::prm" and field in ("uk",):
        return "ukS"
    if "@" in (label or "") and field in ("u", "v", "phi", "phiv"):
        return field + label[label.index("@"):]
    return field


def P(*ts):
    """sum of terms; a term is a coefficient, then names or (name, power)"""
    r = {}
    for t in ts:
        m = pconst(t[0])
        for x in t[1:]:
            if isinstance(x, tuple):
                a = atom(x[0])
                if x[1] < 0:
                    a = pinv(a)
                for _ in range(abs(x[1])):
                    m = pmul(m, a)
            else:
                m = pmul(m, atom(x))
        r = padd(r, m)
    return r


def setfield(prog, obj, cls, name, val):
    rec = prog.records.get(cls) if hasattr(prog, "records") else None
    if rec is None:
        raise AnalysisBroken("class %s is gone" % cls)
    for f in rec.fields if hasattr(rec, "fields") else rec["fields"]:
        if f["n"] == name:
            obj.f[f["d"]] = Cell(val, f["t"])
            return f["d"]
    raise AnalysisBroken("%s::%s is gone" % (cls, name))


def zeros(facts):
    """quantities that are zero in this partition"""
    out = []
    for k, v in facts:
        if k[0] == "eq" and v and k[1] == "0" and k[2].startswith("1*") and "*" not in k[2][2:] and "^" not in k[2] and " " not in k[2]:
            out.append(k[2][2:])
    f = dict(facts)
    for k, v in facts:
        if k[0] == "gt" and k[2] == "0" and not v and f.get(("gt", "0", k[1])) is False and re.match(r"1\*\w+$", k[1]):
            out.append(k[1][2:])
    return out


def drop(p, zs):
    return {m: c for m, c in p.items() if not any(x in zs for x, _ in m)}


def frame(p):
    """in the frame of the cubic axes"""
    for i, a in enumerate(("ex", "ey", "ez")):
        for j in range(3):
            p = psubst(p, "%s_%d" % (a, j), pconst(1.0 if i == j else 0.0))
    return p


def short(p, n=3):
    ms = sorted(p.items())
    return pstr(dict(ms[:n])) + (" + … (%d terms)" % len(ms) if len(ms) > n else "")


def diff(got, want):
    """what is there and should not be; what should be there and is not"""
    d = padd(got, want, -1.0)
    d = {m: c for m, c in d.items() if abs(c) > 1e-9 * max(abs(got.get(m, 0.0)), abs(want.get(m, 0.0)))}
    m = sorted(d)[0]
    return "the term in %s has coefficient %.6g, expected %.6g" % ("·".join(x + ("^%g" % e if e != 1 else "") for x, e in m) or "1",
                                                                  got.get(m, 0.0), want.get(m, 0.0))


def same(a, b):
    d = padd(a, b, -1.0)
    return all(abs(c) <= 1e-9 * max(abs(a.get(m, 0.0)), abs(b.get(m, 0.0))) for m, c in d.items())
