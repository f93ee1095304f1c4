"""I03: the evolution file: under each column name, the documented quantity.

Abstract interpretation of Fem::saver, partitioned by the outcome of the comparisons of the column name; the values
written are known as terms over access paths and calls, and compared with the quantity the name stands for."""
from sa.interp import V, NOC, Domain, strip, is_class
from sa.lib import fieldname, loc, walk
from sa.checks.textio import Text, names, cat, WS
from sa.checks.i05 import fn_named, stream_test

AX = "xyz"


def term(v):
    if v.f.get("val") is not None:
        return v.f["val"]
    if v.c is not NOC and isinstance(v.c, (int, float)):
        return ("c", v.c)
    if v.f.get("org") is not None:
        return ("o", v.f["org"])
    return None


def rng(v, eng):
    """a loop counter, or a loop counter plus a constant"""
    s = v.sym
    if s in eng.ranges:
        return True
    return isinstance(s, tuple) and len(s) >= 4 and s[0] == "b" and s[1] == "+" and (s[2] in eng.ranges or s[3] in eng.ranges)


class Val(Domain):
    name = "val"

    def bin(self, eng, op, a, b, node, S):
        if op not in ("+", "-", "*", "/", "%"):
            return None
        x, y = term(a), term(b)
        if x is None or y is None:
            return None
        if op in ("+", "*"):
            x, y = sorted((x, y), key=str)
        return (op, x, y)

    def cast(self, eng, a, node):
        return a.f.get("val")

    def un(self, eng, op, a, node, S):
        t = term(a)
        if op == "-" and t is not None:
            return ("c", -t[1]) if t[0] == "c" else ("neg", t)
        return None


class Q(Domain):
    """q: tests"""
    name = "q"

    def bin(self, eng, op, a, b, node, S):
        if op in ("==", "!="):
            x, y = term(a), term(b)
            for p, r, v in ((x, y, b), (y, x, a)):
                if p and p[0] == "rfind" and (v.c == -1 or "npos" in str(v.sym) or "npos" in str(r) or (isinstance(v.c, int) and v.c > 10**18)):
                    return ("colon", op == "!=")
                if p and p[0] == "%" and r == ("c", 0):
                    return ("mod", op == "==")
                if p and p[0] == "region" and r == ("c", -1):
                    return ("regmiss", op == "==")
            if rng(a, eng) or rng(b, eng):
                i, o = (a, b) if rng(a, eng) else (b, a)
                if "size" in str(o.sym):
                    return ("last", op == "==")
        if op in ("<", ">=") and term(a) and term(a)[0] == "region" and term(b) == ("c", 0):
            return ("regmiss", op == "<")
        if op in ("<", ">=", ">", "<=") and (rng(a, eng) or rng(b, eng)) and node is not None:
            i, o = (a, b) if rng(a, eng) else (b, a)
            if "size" in str(o.sym) and ("'-'" in str(o.sym) or "'+'" in str(i.sym)):
                lt = (op in ("<", "<=")) == (i is a)
                return ("last", not lt)
        if op in (">", "!=", "==") and term(a) and term(a)[0] == "o" and term(b) == ("c", 0) and "save_period" in str(term(a)):
            return ("per", op != "==")
        return None

    def un(self, eng, op, a, node, S):
        q = a.f.get("q")
        if op == "!" and q:
            return (q[0], not q[1])
        if op == "!" and term(a) and term(a)[0] == "%":
            return ("mod", True)
        return None

    def cast(self, eng, a, node):
        if a.f.get("q"):
            return a.f["q"]
        t = term(a)
        if t and t[0] == "o" and "save_period" in str(t[1][-1]):
            return ("per", True)
        if t and t[0] == "%":
            return ("mod", False)
        return None


class Saver(Text):
    def __init__(self, prog):
        Text.__init__(self, prog, [Val(), Q()], nonempty=True)
        self.max_parts = 400
        self.recs = []
        self.refused = []
        self.sols = []
        self.ends = []
        self.field_lambda = []

    def part_key(self, S):
        return tuple(sorted(((k, v) for k, v in S.facts.items() if k in ("col", "colon", "last", "mod", "per", "saved", "field", "regmiss") or (isinstance(k, tuple) and k[0] == "buf")), key=str))

    def by_line(self, st, S):
        return False

    def piece(self, v):
        if v.f.get("str") is not None or isinstance(v.c, str):
            return Text.piece(self, v)
        t = term(v)
        return (("t", t),) if t is not None and v.sym not in self.ranges else Text.piece(self, v)

    def on_call(self, name, fn, obj, args, e, S, fr):
        sn = name.rsplit("::", 1)[-1]
        op = e.get("op")
        if name in ("Mesh::mesh::avg", "Mesh::mesh::thiele", "Mesh::mesh::max_angle"):
            return [(V(self.fresh(e, fr), f={"val": (sn,) + tuple(self.argterm(a) for a in args)}), S)]
        if name == "Settings::getField" and args:
            p = (("x", ("field", term(args[0].v))),)
            tp = (("t", id(e), fr.fid),)
            S.drop(tp)
            v = V(self.fresh(e, fr), f={"org": p})
            S.put(tp, v)
            for k in range(3):
                S.put(tp + (("[", k),), V(self.fresh(e, fr, "f%d" % k), f={"org": p + (("[", k),)}))
            return [(v.with_(obj=tp), S)]
        if name == "Mesh::mesh::savesol":
            self.sols.append((dict(S.facts), self.piece(args[1].v) if len(args) > 1 else (), loc(e)))
            S.facts["saved"] = True
            return [(V(self.fresh(e, fr)), S)]
        if name == "Settings::solMetadata" and args:
            return [(V(self.fresh(e, fr), f={"str": (("t", ("meta", term(args[0].v))),)}), S)]
        if sn == "findRegionIdx" and args:
            return [(V(self.fresh(e, fr), f={"val": ("region", self.colpart(args[-1], S))}), S)]
        if sn in ("rfind", "find_last_of", "find", "find_first_of") and "basic_string" in name and obj is not None and args:
            if args[0].v.c == 58 or args[0].v.c == ":" or args[0].v.f.get("str") == (("c", ":"),):
                return [(V(self.bounded(("rf", obj.v.sym), e, fr), f={"val": ("rfind" if sn in ("rfind", "find_last_of") else "lfind", self.colpart(obj, S))}), S)]
        if sn == "substr" and "basic_string" in name and obj is not None:
            base = self.colpart(obj, S)
            a = [term(x.v) for x in args]
            part = None
            if a and a[0] == ("c", 0) and len(a) > 1 and a[1] and a[1][0] in ("rfind", "lfind"):
                part = ("pre", base)
            elif a and a[0] and a[0][0] == "+" and any(x == ("c", 1) for x in a[0][1:]) and any(isinstance(x, tuple) and x[0] in ("rfind", "lfind") for x in a[0][1:]):
                part = ("post", base)
            v = V(self.fresh(e, fr), f={"val": part} if part else {})
            p = (("t", id(e), fr.fid),)
            S.drop(p)
            S.put(p, v)
            return [(v.with_(obj=p), S)]
        if (op in ("==", "!=") or sn in ("operator==", "operator!=")) and name.startswith("std::"):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 2:
                for a, b in ((ops[0], ops[1]), (ops[1], ops[0])):
                    lit = b.v.f.get("str") or ((("c", b.v.c),) if isinstance(b.v.c, str) else None)
                    c = self.colpart(a, S)
                    if lit is not None and len(lit) == 1 and lit[0][0] == "c" and c is not None:
                        return [(V(self.fresh(e, fr), f={"q": (("col", lit[0][1], c), (op or sn[8:]) == "==")}), S)]
        if sn == "compare" and "basic_string" in name and obj is not None and len(args) == 1:
            c = self.colpart(obj, S)
            lit = args[0].v.f.get("str") or ((("c", args[0].v.c),) if isinstance(args[0].v.c, str) else None)
            if c is not None and lit and len(lit) == 1 and lit[0][0] == "c":
                return [(V(self.fresh(e, fr), f={"q": (("col", lit[0][1], c), False)}), S)]
        if sn in ("any_of", "find_if", "count_if") and name.startswith("std::"):
            for a in args:
                for c in a.v.clo or ():
                    self.field_lambda.append((c, loc(e)))
            return [(V(self.fresh(e, fr), f={"q": ("field", True)}), S)]
        return Text.on_call(self, name, fn, obj, args, e, S, fr)

    def colpart(self, a, S):
        """which part of the column name a string is"""
        v = a.v
        for x in [v] + [S.get(p) for p in a.p or ()] + ([S.get(v.obj)] if v.obj else []):
            if x is None:
                continue
            if x.f.get("val") and x.f["val"][0] in ("pre", "post"):
                return x.f["val"]
        o = v.f.get("org") or (a.p[0] if a.p else None)
        for p in (a.p or ()) + ((o,) if o else ()):
            if p and "evol_columns" in str(p):
                return ("all",)
        return None

    def argterm(self, a):
        n = strip(a.node) if a.node is not None else {}
        for x in walk(n):
            if x.get("k") == "Ref" and x.get("dk") == "fn":
                return ("fn", str(x.get("d")))
        return term(a.v)

    def on_branch(self, cond, v, taken, S, fr):
        q = v.f.get("q")
        if not q:
            t = term(v)
            if t and t[0] == "o" and "save_period" in str(t[1]):
                q = ("per", True)
            elif t and t[0] == "%":
                q = ("mod", False)
            else:
                return None
        what, pol = q
        if isinstance(what, tuple):
            if pol == taken:
                if S.facts.get("col") and S.facts["col"] != what[1]:
                    return False
                if what[1] in S.facts.get("notcol", ()):
                    return False
                S.facts["col"] = what[1]
                S.facts["part"] = what[2]
            else:
                if S.facts.get("col") == what[1]:
                    return False
                S.facts["notcol"] = S.facts.get("notcol", frozenset()) | {what[1]}
        else:
            val = pol == taken
            if what == "field":
                return None if val else False
            if S.facts.get(what) is not None and S.facts[what] != val:
                return False
            S.facts[what] = val
        return None

    def join_facts(self, a, b):
        out = {k: a[k] for k in set(a) & set(b) if a[k] == b[k]}
        if "notcol" in a and "notcol" in b:
            out["notcol"] = a["notcol"] & b["notcol"]
        return out

    def on_loop(self, kind, node, S, fr):
        if kind != "back":
            return
        if not any("evol_columns" in str(n.get("d") or n.get("m") or n.get("f") or "") for n in walk([node.get("c"), node.get("r"), node.get("range"), node.get("inc"), node.get("init")])) and S.facts.get("col") is None:
            return
        bufs = {k[1]: v for k, v in S.facts.items() if isinstance(k, tuple) and k[0] == "buf" and k[1][0][0] == "p"}
        self.recs.append((S.facts.get("col"), S.facts.get("part"), S.facts.get("colon"), S.facts.get("last"), bufs, loc(node), S.facts.get("notcol", frozenset()), S.facts.get("regmiss")))
        for k in list(S.facts):
            if k in ("col", "part", "colon", "last", "notcol", "regmiss") or (isinstance(k, tuple) and k[0] == "buf"):
                del S.facts[k]

    def on_exit(self, name, args, node, S, fr):
        self.refused.append((args[0].v.c if args else NOC, loc(node), S.facts.get("col"), S.facts.get("notcol", frozenset())))

    def on_return(self, v, node, S, fr):
        if fr.parent is None:
            self.ends.append(dict(S.facts))


def path_is(t, *fs):
    """t is a load of the member path fs (names, or constant indices)"""
    if t is None or t[0] != "o":
        return False
    n = [x if isinstance(x, str) else x[1] for x in names(t[1])]
    return n[-len(fs):] == list(fs) if len(n) >= len(fs) else False


def param(t, name):
    return t is not None and t[0] == "o" and str(t[1]).find(name) >= 0


def expect(col, t, part, energies, colon):
    """None if t is the documented quantity, else what it should be"""
    ent = ["exchange", "anisotropy", "demag", "zeeman"]
    if col == "iter":
        return None if t[0] == "o" and len(t[1]) == 1 and "nt" in str(t[1][0][-1]) + str(t[1][0][1:2]) else "the number of the output (nt)"
    if col == "t":
        return None if is_time(t) else "the time"
    if col == "dt":
        return None if is_dt(t) else "the time step"
    if col == "max_dm":
        return None if t[0] == "*" and sorted(("vmax" in str(x), is_dt(x)) for x in t[1:]) == [(False, True), (True, False)] else "vmax times the time step"
    if col == "max_angle":
        return None if t[0] == "max_angle" else "Mesh::max_angle()"
    if col == "Thiele_length":
        if t[0] != "thiele":
            return "Mesh::thiele()"
        return region_ok(t[1] if len(t) > 1 else None, colon)
    for g, pat in (("get_u_comp", "<M%s>"), ("get_v_comp", "<dM%s/dt>")):
        for k, a in enumerate(AX):
            if col == pat % a:
                if t[0] != "avg":
                    return "an average over the magnetic elements"
                if t[1] and t[1][0] == "fn" and ("get_u_comp" in t[1][1] or "get_v_comp" in t[1][1]) and g not in t[1][1]:
                    return "the average of %s" % ("the magnetisation" if g == "get_u_comp" else "the change rate of the magnetisation")
                if t[2] and t[2][0] == "c" and t[2][1] != k:
                    return "the %s component" % a
                return region_ok(t[3] if len(t) > 3 else None, colon)
    if col in ("Hx", "Hy", "Hz"):
        if t[0] != "o" or t[1][0][0] != "x" or t[1][0][1][0] != "field":
            return "a component of the applied field"
        if not is_time(t[1][0][1][1] or ("?",)):
            return "the applied field at the time of the row"
        if t[1][1:] != (("[", AX.index(col[1])),):
            return "the %s component of the applied field" % col[1]
        return None
    if col == "E_tot":
        return None if path_is(t, "Etot") else "the total energy"
    e = {"E_ex": "exchange", "E_aniso": "anisotropy", "E_demag": "demag", "E_zeeman": "zeeman"}.get(col)
    if e:
        n = names(t[1]) if t[0] == "o" else []
        if len(n) < 2 or n[-2] != "E" or not isinstance(n[-1], tuple):
            return "the %s energy" % e
        got = energies.get(n[-1][1], set())
        if got and got != {e}:
            return "the %s energy" % e
        return None
    return None


def region_ok(t, colon):
    if t is None:
        return None
    if t == ("c", -1):
        return "the quantity restricted to the region" if colon else None
    if t[0] == "region":
        if t[1] is not None and t[1][0] != "pre":
            return "the quantity restricted to the region named before the colon"
        return None if colon is not False else "the quantity over all regions"
    if t[0] == "c":
        return "the quantity over all regions, or over the region named"
    return None


def is_time(t):
    return path_is(t, "t")


def is_dt(t):
    return path_is(t, "dt")


def energy_terms(prog):
    """index of Fem::E -> kinds of energy added to it"""
    f = fn_named(prog, "Fem::energy")
    res = {}
    if f is None:
        return res

    class En(Domain):
        name = "en"

        def bin(self, eng, op, a, b, node, S):
            x, y = a.f.get("en"), b.f.get("en")
            return (x or frozenset()) | (y or frozenset()) or None if op in ("+", "+=", "-", "*") else None

        def cast(self, eng, a, node):
            return a.f.get("en")

        def join(self, a, b):
            return (a or frozenset()) | (b or frozenset()) or None

        def call(self, eng, name, obj, args, node, S):
            return None

    class E(Text):
        def on_call(self, name, fn, obj, args, e, S, fr):
            sn = name.rsplit("::", 1)[-1]
            if sn.endswith("Energy") and fn is not None and fn.repo:
                k = next((x for x in ("exchange", "nisotropy", "demag", "zeeman") if x in sn), None)
                return [(V(self.fresh(e, fr), f={"en": frozenset([k.replace("nisotropy", "anisotropy")])} if k else {}), S)]
            if sn == "interpolation":
                return [(V(self.fresh(e, fr)), S)]
            return None

        def store(self, path, v, S, node, fr, weak=False, quiet=False):
            n = names(path)
            if len(n) >= 2 and n[-2] == "E" and isinstance(n[-1], tuple) and v.f.get("en"):
                res.setdefault(n[-1][1], set()).update(v.f["en"])
                v = v.with_(f={k: x for k, x in v.f.items() if k != "en"})
            return Text.store(self, path, v, S, node, fr, weak, quiet)
    E(prog, [En()], nonempty=True).run(f, (("o", "Fem"),), {})
    return res


COLS = ["iter", "t", "dt", "max_dm", "max_angle", "Thiele_length", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz"] + \
    ["<M%s>" % a for a in AX] + ["<dM%s/dt>" % a for a in AX]


def char_test(prog, clo, text):
    """value of the closure clo for the column name text, by constant propagation"""
    f = prog.fns.get(clo.fn)
    if f is None or not f.params:
        return None

    class K(Text):
        def on_call(self, name, fn, obj, args, e, S, fr):
            sn = name.rsplit("::", 1)[-1]
            if obj is not None and sn in ("operator[]", "at") and "basic_string" in name and args and isinstance(args[0].v.c, int):
                i = args[0].v.c
                c = ord(text[i]) if i < len(text) else 0
                return [(V(("c", "n", c), c), S)]
            if obj is not None and sn == "front" and "basic_string" in name:
                return [(V(("c", "n", ord(text[0])), ord(text[0])), S)]
            if obj is not None and sn in ("size", "length") and "basic_string" in name:
                return [(V(("c", "n", len(text)), len(text)), S)]
            if sn in ("operator==", "operator!=") and name.startswith("std::"):
                ops = ([obj] if obj is not None else []) + args
                for a in ops:
                    if isinstance(a.v.c, str):
                        r = (a.v.c == text) == (sn == "operator==")
                        return [(V(("c", "n", r), r), S)]
            return None

        def on_return(self, v, node, S, fr):
            if fr.parent is None:
                out.append(v.c)
    out = []
    K(prog).run(f, clo.this, {})
    if out and all(x is not NOC for x in out) and len({bool(x) for x in out}) == 1:
        return bool(out[0])
    return None


def run(ctx):
    prog = ctx.program()
    ctx.rule("for every outcome of the comparisons of a column name, exactly one value and one separator are written: the quantity the name stands for, over all magnetic "
             "regions or over the region named before the colon; a name that equals none of the documented ones, and an unknown region, end the run with a failure status; "
             "the magnetisation is saved exactly on the outputs whose number is a multiple of mag_config_every")
    ctx.assume("Mesh::avg, Mesh::thiele and Mesh::max_angle compute what their names say (S03 decides the averages and the energies)")
    f = fn_named(prog, "Fem::saver")
    ctx.need(f is not None, "Fem::saver is not found")
    en = energy_terms(prog)
    eng = Saver(prog)
    eng.ends += [dict(S.facts) for _, S in eng.run(f, (("o", "Fem"),), {})]
    seen = set()
    known = [r for r in eng.recs if r[0] is not None]
    for col, part, colon, last, bufs, wh, notcol, regmiss in eng.recs:
        if col is None:
            if known and len(notcol) >= 3:
                ctx.violation("unknown", wh, "a column name that is none of the documented ones is accepted")
            continue
        seen.add(col)
        if colon and part is not None and part[0] == "all":
            ctx.violation("prefix|%s" % col, wh, "the name '%s' is compared with the whole column name, region included" % col)
            continue
        if len(bufs) != 1:
            if not bufs:
                ctx.violation("value|%s" % col, wh, "nothing is written for the column '%s'" % col)
            continue
        ps = list(bufs.values())[0]
        if colon and regmiss is not False and any("region" in str(p) for p in ps):
            ctx.violation("region", wh, "a column of a region that does not exist is accepted")
            continue
        if ps and ps[0][0] == "?":
            continue
        unk = any(p[0] == "?" for p in ps)
        vals = [p for p in ps if p[0] not in ("c", "?")]
        txt = "".join(p[1] for p in ps if p[0] == "c")
        if not vals:
            ctx.violation("value|%s" % col, wh, "no value is written for the column '%s'" % col)
            continue
        if len(vals) > 1 or ps[0][0] == "c":
            if all(v[0] in ("t", "o", "i") for v in vals):
                ctx.violation("value|%s" % col, wh, "more than one value is written for the column '%s'" % col)
            continue
        if last is not None and not unk:
            want = "\n" if last else "\t"
            if txt != want:
                ctx.violation("sep|%s" % last, wh, "after the %s column, %r is written instead of %r" % ("last" if last else "other than last", txt, want))
            else:
                ctx.ok("separators", "last" if last else "not last")
        t = vals[0][1] if vals[0][0] == "t" else ("o", vals[0][1]) if vals[0][0] == "o" else None
        if t is None:
            continue
        bad = expect(col, t, part, en, colon)
        if bad:
            ctx.violation("col|%s" % col, wh, "the column '%s' is not %s" % (col, bad))
        else:
            ctx.ok("columns", col + (" of a region" if colon else ""))
    if known:
        for c in COLS:
            if c not in seen:
                ctx.violation("missing|%s" % c, f.name, "the documented column '%s' is not recognised" % c)
    for c, wh, col, nc in eng.refused:
        if c == 0:
            ctx.violation("exit|0", wh, "an invalid column ends the program with a success status")
        elif col in COLS and not nc - set(COLS) and False:
            pass
        else:
            ctx.ok("refusals end with a failure status", wh)
    for clo, wh in eng.field_lambda:
        for h in ("Hx", "Hy", "Hz"):
            r = char_test(prog, clo, h)
            if r is False:
                ctx.violation("field|%s" % h, wh, "the applied field is not evaluated for the column '%s'" % h)
            elif r:
                ctx.ok("applied field evaluated when needed", h)
    for facts, ps, wh in eng.sols:
        if facts.get("mod") is False or facts.get("per") is False:
            ctx.violation("sol|when", wh, "the magnetisation is saved on an output whose number is not a multiple of mag_config_every")
        elif facts.get("mod") is None:
            ctx.violation("sol|when", wh, "the magnetisation is saved whatever the number of the output")
        else:
            ctx.ok("saving of the magnetisation", "saver")
        if ps and not any("nt" in str(p) for p in ps if p[0] != "c"):
            ctx.violation("sol|name", wh, "the name of the file does not depend on the number of the output: files overwrite each other")
    for facts in eng.ends:
        if not facts.get("saved") and facts.get("mod") is not False and facts.get("per") is not False and any(x[0].get("mod") for x in eng.sols):
            ctx.violation("sol|missed", f.name, "the magnetisation is not saved on an output whose number is a multiple of mag_config_every")
    ctx.min("columns", 1)
