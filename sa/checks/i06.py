"""I06: settings that are ill formed or contradict each other are refused, with a failure status.

Abstract interpretation of the settings reader over every YAML document: the kinds a node can still have, and the
outcome of the tests on the values read, are the facts; what reaches the end of the reader is accepted."""
from sa.checks.settings_model import ALL, run_reader
from sa.interp import NOC

GUARD = {("Bext",): "a map without both 'space' and 'time'", ("mesh", "length_unit"): "a value that is not positive", ("recentering", "direction"): "a value other than X, Y or Z",
         ("outputs", "mag_config_every"): "the value 'true'"}
PAIRS = [(("mesh", "volume_regions", "*"), "Ms", "Js"), (("mesh", "surface_regions", "*"), "jn", "V")]


def nm(k):
    return ".".join(str(x) for x in k)


def run(ctx):
    prog = ctx.program()
    ctx.rule("no path through the settings reader accepts: a section that is no map or a list that is no sequence, a vector that is no sequence of three elements, "
             "a length unit that is not positive, both Ms and Js in a region, both a current and a potential on a surface, an unknown recentering direction, "
             "mag_config_every: true, a Bext map without space and time; axes are normalised; a refusal ends with a failure status")
    ctx.assume("YAML::Node::as and operator[] throw when the node has not the kind they need (yaml-cpp)")
    r = run_reader(prog)
    ctx.need(r is not None, "Settings::read(YAML::Node) is not found")
    end = {}
    for st in r.endstates:
        for k, v in st.items():
            if k[0] == "k":
                end.setdefault(k[1], set()).update(v)
            elif k[0] == "z":
                end.setdefault(("z",) + k[1], set()).update(v)

    for k, want in sorted(r.WANT.items()):
        z = end.get(("z",) + k)
        if z is None:
            continue
        if "raw" in z:
            ctx.violation("kind|%s" % nm(k), r.keys.get(k, "?"), "'%s' given as a %s is accepted" % (nm(k), " or ".join(sorted(ALL - want))))
        else:
            ctx.ok("sections and lists of the wrong kind refused", nm(k))
    # vectors
    vec = {}
    for f, comp, y, tr, wh, kn, pk, size in r.stores:
        if y and isinstance(y[-1], int):
            vec.setdefault(y[:-1], []).append((pk, size, wh))
    for k, us in sorted(vec.items(), key=str):
        bad = None
        for pk, size, wh in us:
            if pk != frozenset(["seq"]):
                bad = (wh, "'%s' given as a %s is used as a vector" % (nm(k), "/".join(sorted(pk - {"seq"}))))
            elif ("==", 3) not in size:
                bad = (wh, "'%s' is used as a vector although it may not have exactly three elements" % nm(k))
        left = set()
        for y, facts, wh in r.iters:
            if k[:len(y)] == y and ("k", k) in facts:
                left |= facts[("k", k)]
        if "*" not in k:
            left = set()
        if bad is None and left - {"undef", "null", "seq"}:
            bad = (us[0][2], "'%s' given as a %s is silently ignored" % (nm(k), "/".join(sorted(left - {"undef", "null", "seq"}))))
        if bad:
            ctx.violation("vector|%s" % nm(k), *bad)
        else:
            ctx.ok("vectors that are not sequences of three refused", nm(k))
    for k, what in GUARD.items():
        z = end.get(("z",) + k)
        if z is None:
            continue
        if "raw" in z:
            ctx.violation("value|%s" % nm(k), r.keys.get(k, "?"), "%s is accepted for '%s'" % (what, nm(k)))
        else:
            ctx.ok("bad values refused", nm(k))
    for sec, a, b in PAIRS:
        if sec + (a,) not in r.keys or sec + (b,) not in r.keys:
            continue
        bad = False
        n = 0
        for y, facts, wh in r.iters:
            if y != sec:
                continue
            n += 1
            if "scalar" in facts.get(("k", sec + (a,)), ALL) and "scalar" in facts.get(("k", sec + (b,)), ALL):
                bad = True
        if not n:
            ctx.undecide("the iteration over %s was not followed" % nm(sec[:-1]))
        elif bad:
            ctx.violation("pair|%s" % nm(sec + (a,)), r.keys[sec + (b,)], "a region of '%s' with both %s and %s is accepted" % (nm(sec[:-1]), a, b))
        else:
            ctx.ok("contradictions refused", "%s: %s and %s" % (nm(sec[:-1]), a, b))
    axes = [("mesh", "volume_regions", "*", a) for a in ("uk", "ex", "ey", "ez")] + [("mesh", "surface_regions", "*", a) for a in ("uk", "uP")]
    fld = {}
    for f, comp, y, *_ in r.stores:
        if y and isinstance(y[-1], int):
            fld.setdefault(y[:-1], (f, _[1]))
    for a in axes:
        if a in fld:
            if fld[a][0] in r.normed:
                ctx.ok("axes normalised", nm(a))
            else:
                ctx.violation("axis|%s" % nm(a), fld[a][1], "the axis '%s' is not normalised" % nm(a))
    for c, wh, ch in r.refused:
        if c is not NOC and c == 0:
            ctx.violation("status|%s" % wh, wh, "a refused setting ends the program with a success status")
        else:
            ctx.ok("refusals with a failure status", wh)
    ctx.cov["paths_refused"] = len(r.refused)
    ctx.min("sections and lists of the wrong kind refused", 3)
