"""What Settings::read(YAML::Node) takes from which YAML key, what it refuses, and what Settings::toYaml prints
under which key: two abstract interpretations shared by I01 and I06."""
import re

from sa.interp import Engine, V, NOC, Domain, State, strip
from sa.lib import fieldname, loc, walk

KINDS = ("undef", "null", "scalar", "seq", "map")
ALL = frozenset(KINDS)
TESTS = {"IsNull": frozenset(["null"]), "IsScalar": frozenset(["scalar"]), "IsSequence": frozenset(["seq"]), "IsMap": frozenset(["map"]),
         "IsDefined": ALL - {"undef"}, "operator bool": ALL - {"undef"}}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def fields(path):
    """name of a settings field: the members on the access path"""
    if not path or path[0] != ("o", "Settings"):
        return None
    fs = []
    for s in path[1:]:
        if s[0] == ".":
            n = str(s[1]).rsplit("@", 1)[-1]
            fs.append({"#0": "first", "#1": "second"}.get(n, n))
    return ".".join(fs) or None


def comp(path):
    """(path of a vector, component) for the access path of a component"""
    if path and path[-1][0] == "[" and isinstance(path[-1][1], int):
        return path[:-1], path[-1][1]
    return path, None


class YDom(Domain):
    """y: the YAML node a value of class YAML::Node stands for (a path of keys)"""
    name = "y"

    def elem(self, eng, v, key):
        y = v.f.get("y")
        if y is None:
            return None
        for s in key:
            if s[0] == "[" :
                y = y + ("*",)
            elif fieldname(s) == "first":
                y = y[:-1] + ("@key",)
            elif fieldname(s) == "second":
                pass
            elif fieldname(s) in ("#deref",):
                y = y + ("*",)
        return y

    def call(self, eng, name, obj, args, node, S):
        if node.get("k") == "Construct" and "YAML" in node.get("cls", "") and len(args) == 1:
            return args[0].v.f.get("y")
        return None


class SrcDom(Domain):
    """src: the YAML node a scalar was read from, and whether it was transformed on the way"""
    name = "src"

    def bin(self, eng, op, a, b, node, S):
        x, y = a.f.get("src"), b.f.get("src")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return None
        if x and not y:
            return (x[0], True)
        if y and not x:
            return (y[0], True)
        return None

    def cast(self, eng, a, node):
        return a.f.get("src")

    def call(self, eng, name, obj, args, node, S):
        if node.get("k") == "Construct" and "basic_string" in node.get("cls", "") and args:
            return args[0].v.f.get("src")
        return None

    def join(self, a, b):
        return a if a == b else None


class CmpDom(Domain):
    """t: the value is a test: (what, op, constant)"""
    name = "t"

    def subj(self, v):
        if v.f.get("src") and not v.f["src"][1]:
            return ("val", v.f["src"][0])
        return v.f.get("q")

    def bin(self, eng, op, a, b, node, S):
        if op not in NEG:
            return None
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            s = self.subj(x)
            if s is not None:
                c = y.c if y.c is not NOC else None
                if c is None:
                    st = y.f.get("str")
                    if st is not None and len(st) == 1 and st[0][0] == "c":
                        c = st[0][1]
                    elif st == ():
                        c = ""
                if c is not None:
                    return (s, o, c)
        return None

    def un(self, eng, op, a, node, S):
        t = a.f.get("t")
        if op == "!" and t:
            return (t[0], NEG[t[1]] if t[1] in NEG else "not " + t[1] if not t[1].startswith("not ") else t[1][4:], t[2])
        return None

    def join(self, a, b):
        return a if a == b else None


class QDom(Domain):
    """q: a quantity derived from a YAML node or from a settings field (its size, its kind, its emptiness)"""
    name = "q"

    def join(self, a, b):
        return a if a == b else None


class LDom(Domain):
    """lab: the settings field a value is loaded from"""
    name = "lab"

    def default(self, eng, path, t):
        p, k = comp(path)
        f = fields(p)
        return (f, k) if f else None

    def elem(self, eng, v, key):
        return None

    def join(self, a, b):
        return a if a == b else None


def nan(v):
    return v.f.get("nan")


class NanDom(Domain):
    name = "nan"

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if "nan" in sn and "isnan" not in sn:
            return True
        if node.get("k") == "Construct" and node.get("cls", "").startswith("Eigen::") and args and all(a.v.f.get("nan") for a in args):
            return True
        return None

    def cast(self, eng, a, node):
        return a.f.get("nan")

    def join(self, a, b):
        return a or b


class StrLit(Domain):
    """str: parts of a text: ('c', literal), ('f', settings field) or ('?',)"""
    name = "str"

    def lit(self, eng, node, c):
        if node.get("lk") == "str":
            return (("c", c),) if c else ()
        if node.get("lk") == "char":
            return (("c", chr(c)),)
        return None

    def cast(self, eng, a, node):
        return a.f.get("str")

    def bin(self, eng, op, a, b, node, S):
        if op in ("+", "+="):
            x, y = a.f.get("str"), b.f.get("str")
            if x is None and y is None:
                return None
            return cat(x if x is not None else eng.piece(a), y if y is not None else eng.piece(b))
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if node.get("k") == "Construct" and "basic_string" in node.get("cls", ""):
            real = [a for a in args if "allocator" not in str(a.node.get("t").s if a.node is not None and a.node.get("t") is not None else "")]
            if not real:
                return ()
            if len(real) == 1:
                return real[0].v.f.get("str")
            if len(real) == 2 and isinstance(real[0].v.c, int) and isinstance(real[1].v.c, int):
                return (("c", chr(real[1].v.c) * real[0].v.c),)
            return None
        if sn in ("c_str", "str", "data", "string_view") and obj is not None:
            return obj.v.f.get("str")
        if sn == "to_string" and args:
            return eng.piece(args[0].v)
        return None

    def join(self, a, b):
        return a if a == b else None


def cat(a, b):
    out = list(a)
    for p in b:
        if out and p[0] == "c" and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


class Base(Engine):
    def piece(self, v):
        if isinstance(v.c, str):
            return (("c", v.c),) if v.c else ()
        s = v.f.get("str")
        if s is not None:
            return s
        if v.f.get("lab"):
            return (("f", v.f["lab"][0], v.f["lab"][1]),)
        if v.c is not NOC:
            return (("c", str(v.c)),)
        return (("?",),)

    def q_call(self, name, obj, args, e):
        """tests on settings fields: emptiness and NaN"""
        sn = name.rsplit("::", 1)[-1]
        if sn in ("hasNaN", "allFinite") and obj is not None and obj.v.f.get("lab"):
            return ((("nan", obj.v.f["lab"][0]), "true" if sn == "hasNaN" else "not true", None), None)
        if sn == "empty" and obj is not None and obj.v.f.get("lab"):
            return ((("empty", obj.v.f["lab"][0]), "true", None), None)
        if sn in ("size", "length") and obj is not None and obj.v.f.get("lab"):
            return (None, ("size", obj.v.f["lab"][0]))
        if sn in ("isnan", "isfinite", "hasNaN", "allFinite"):
            a = args[0].v if args else obj.v if obj is not None else None
            if a is not None and a.f.get("lab"):
                return ((("nan", a.f["lab"][0]), "true" if sn in ("isnan", "hasNaN") else "not true", None), None)
        return None


# ---------------------------------------------------------------------------------------------- reader
class Reader(Base):
    """facts: ('k', node path) -> kinds the node can still have; ('z', what) -> set of outcomes of a value test"""

    def __init__(self, prog, altfields=()):
        self.altfields = set(altfields)
        self.endstates = []
        self.raw = {}
        self.rng = {}
        self.pnorm = set()
        self.normed = set()
        self.entered = {}       # section -> kinds it can have where its content is used
        Engine.__init__(self, prog, [YDom(), SrcDom(), StrLit(), QDom(), CmpDom(), LDom(), NanDom()], max_depth=24, unroll=4)
        self.max_parts = 400
        self.stores = []        # (field, component, node path, transformed, where, known kinds)
        self.consts = []        # (field, constant, tests that hold)
        self.nans = set()
        self.keys = {}
        self.refused = []
        self.ends = []
        self.iters = []
        self.appends = []

    # facts are sets of possibilities
    def join_facts(self, a, b):
        out = {}
        for k in set(a) & set(b):
            if a[k] == b[k]:
                out[k] = a[k]
            elif k[0] in ("k", "z") :
                out[k] = a[k] | b[k]
        for k in set(a) ^ set(b):
            if k[0] == "k":
                continue
            if k[0] == "z":
                out[k] = (a.get(k) or frozenset(["absent"])) | (b.get(k) or frozenset(["absent"]))
        return out

    PAIRS = ("Ms", "Js", "jn", "V")

    def part_key(self, S):
        d = []
        for k, v in S.facts.items():
            if k[0] == "k" and k[1][-1] in self.PAIRS:
                d.append((k[1], tuple(sorted(v & {"scalar"})) if "scalar" not in v or len(v) == 1 else "?"))
            elif k[0] == "alt" and k[1] in self.altfields:
                d.append((k, v))
        return tuple(sorted(d, key=str))

    # ---- values that have to be refused: 'raw' until a test excludes the bad ones
    def guards(self, S):
        def cs(w):
            return S.facts.get(("c", w), ())

        def has(w, *alts):
            return any(a in cs(w) for a in alts)

        def bext(y):
            ks = self.kinds(S, y)
            return "map" not in ks or ("undef" not in self.kinds(S, y + ("space",)) and "undef" not in self.kinds(S, y + ("time",)))

        def positive(y):
            return any(o == ">" and isinstance(c, (int, float)) and c >= 0 or o == ">=" and isinstance(c, (int, float)) and c > 0 for o, c in cs(("val", y)))

        def direction(y):
            if any(o == "==" and c in ("X", "Y", "Z") for o, c in cs(("val", y))):
                return True
            if not has(("len", y), ("==", 1)):
                return False
            t = cs(("chr", y, 0))
            return any(o == "==" and c in (88, 89, 90) for o, c in t) or (any(o in (">=",) and c >= 88 or o == ">" and c >= 87 for o, c in t) and
                                                                        any(o == "<=" and c <= 90 or o == "<" and c <= 91 for o, c in t))

        def every(y):
            return has(("val", y), ("!=", "true")) or any(o == "==" and c != "true" for o, c in cs(("val", y)))
        return {("Bext",): bext, ("mesh", "length_unit"): positive, ("recentering", "direction"): direction, ("outputs", "mag_config_every"): every}

    WANT = {("outputs",): {"undef", "null", "map"}, ("mesh",): {"undef", "null", "map"}, ("outputs", "metadata"): {"undef", "null", "map"},
            ("mesh", "volume_regions"): {"undef", "null", "map"}, ("mesh", "surface_regions"): {"undef", "null", "map"},
            ("outputs", "evol_columns"): {"undef", "null", "seq"}, ("initial_magnetization",): {"undef", "null", "scalar", "seq"}}
    GUARDED = tuple(WANT) + (("Bext",), ("mesh", "length_unit"), ("recentering", "direction"), ("outputs", "mag_config_every"))

    def zraw(self, y, S):
        if y in self.GUARDED and ("z", y) not in S.facts:
            S.facts[("z", y)] = frozenset(["raw"])
            self.raw[y] = True

    def zupdate(self, S):
        for y, want in self.WANT.items():
            z = S.facts.get(("z", y))
            if z and "raw" in z and self.kinds(S, y) <= want:
                S.facts[("z", y)] = frozenset(["ok"])
        for y, g in self.guards(S).items():
            z = S.facts.get(("z", y))
            if z and "raw" in z and ((y != ("Bext",) and y != ("recentering", "direction") and "scalar" not in self.kinds(S, y)) or g(y)):
                S.facts[("z", y)] = frozenset(["ok"])

    def on_leave(self, fn, S, fr):
        if fr.parent is None:
            self.endstates.append(dict(S.facts))

    def kinds(self, S, y):
        return S.facts.get(("k", y), ALL)

    def on_call(self, name, fn, obj, args, e, S, fr):
        sn = name.rsplit("::", 1)[-1]
        if name.startswith("YAML::"):
            r = self.yaml(name, sn, fn, obj, args, e, S, fr)
            if r is not None:
                return r
        if name.startswith("ExpressionParser::") or name in ("isOrthogonal",):
            return [(V(self.fresh(e, fr)), S)]
        if name.startswith("Eigen::") and sn in ("normalize", "stableNormalize") and obj is not None:
            self.normed |= {fields(p) for p in obj.p or ()} - {None}
        if name.startswith("Eigen::") and sn in ("normalized", "stableNormalized") and obj is not None:
            self.pnorm.add(id(strip(e)))
        if name.startswith("Eigen::") and sn == "operator=" and obj is not None and args and any(id(n) in self.pnorm for n in walk(args[0].node)):
            self.normed |= {fields(p) for p in obj.p or ()} - {None}
        if sn == "isnan" and args:
            if args[0].v.f.get("nan"):
                return [(V(self.fresh(e, fr), c=True), S)]
            if args[0].v.f.get("src"):
                return [(V(self.fresh(e, fr), c=False), S)]
        q = self.q_call(name, obj, args, e)
        if q is not None:
            return [(V(self.fresh(e, fr), f={k: v for k, v in zip(("t", "q"), q) if v is not None}), S)]
        if name.startswith("std::basic_string") and obj is not None and obj.v.f.get("src"):
            y = obj.v.f["src"][0]
            if sn in ("length", "size"):
                return [(V(self.fresh(e, fr), f={"q": ("len", y)}), S)]
            if sn in ("operator[]", "at", "front") and (sn == "front" or args):
                i = 0 if sn == "front" else args[0].v.c
                return [(V(("chr", y, i), f={"q": ("chr", y, i)}), S)]
        return None

    def yaml(self, name, sn, fn, obj, args, e, S, fr):
        y = obj.v.f.get("y") if obj is not None else None
        if "iterator" in name:
            ops = ([obj] if obj is not None else []) + args
            if sn in ("operator->", "operator*"):
                y = ops[0].v.f.get("y")
                if y is None:
                    return None
                p = (("yp", y),)
                S.put(p, V(("y", y), f={"y": y}))
                return [(V(("y", y), ptr=(p,), f={"y": y}), S)]
            if sn == "operator++":
                if y is not None:
                    self.iter_end(y, S, e, fr)
                return [(V(("y", y), f={"y": y} if y else {}, ptr=obj.p), S)]
            return [(V(self.fresh(e, fr)), S)]
        if e["k"] == "Construct":
            return None
        if sn == "Load" or sn == "LoadFile":
            return [(V(self.fresh(e, fr), f={"y": ()}), S)]
        if y is None:
            return None
        if sn == "operator=":
            return None
        if sn == "operator[]":
            a = args[0].v
            k = a.c if a.c is not NOC else (a.f.get("str") or ((None, None),))[0][1] if a.f.get("str") else None
            if k is None:
                k = "?"
            self.use(y, S)
            yy = y + (k,)
            if isinstance(k, str):
                self.keys.setdefault(yy, loc(e))
            if yy != ("mesh", "length_unit"):
                self.zraw(yy, S)
            return [(V(("y", yy), f={"y": yy}), S)]
        if sn in TESTS:
            return [(V(("ykind", sn, y), f={"t": (("kind", y), sn, None)}), S)]
        if sn in ("as", "Scalar"):
            dflt = sn == "as" and bool(args)
            return [(V(("val", y), f={"src": (y, False)}), S)]
        if sn == "size":
            return [(V(("ysize", y), f={"q": ("size", y)}), S)]
        if sn in ("begin", "end"):
            self.use(y, S)
            return [(V(("yit", y, sn), f={"y": y + ("*",)}), S)]
        if sn == "Type":
            return [(V(("ytype", y), f={"q": ("type", y)}), S)]
        return None

    def use(self, y, S):
        self.entered.setdefault(y, set()).update(self.kinds(S, y))

    def load_missing(self, path, S, t):
        if path[0][0] == "yp":
            y = path[0][1]
            for s in path[1:]:
                if fieldname(s) == "first":
                    y = y[:-1] + ("@key",)
            return V(("y", y), f={"y": y})
        return Engine.load_missing(self, path, S, t)

    def iter_end(self, y, S, e, fr):
        self.iters.append((y, dict(S.facts), loc(e)))
        for k in list(S.facts):
            if k[0] in ("k", "z") and k[1][:len(y)] == y:
                S.facts.pop(k)

    def on_iter(self, s, eps, S, fr):
        # a range-for over a YAML node
        for ep in eps or ():
            y = (S.get(ep) or self.load_missing(ep, S, None)).f.get("y")
            if y is not None:
                self.rng[id(s)] = y
                self.use(y[:-1], S)

    def on_loop(self, kind, node, S, fr):
        if kind == "back" and id(node) in self.rng:
            self.iter_end(self.rng[id(node)], S, node, fr)

    def on_branch(self, cond, v, taken, S, fr):
        t = v.f.get("t")
        if t:
            return self.refine(t, taken, S)
        q = v.f.get("q")
        if v.f.get("lab"):
            pass

    def refine(self, t, taken, S):
        what, op, c = t
        if op.startswith("not "):
            op, taken = op[4:], not taken
        if what[0] == "kind":
            y = what[1]
            ks = self.kinds(S, y)
            ks = ks & TESTS[op] if taken else ks - TESTS[op]
            if not ks:
                return False
            # children of a node that is no map are undefined
            S.facts[("k", y)] = ks
            self.zupdate(S)
            return None
        if what[0] in ("val", "size", "len", "chr", "type"):
            o = op if taken else NEG.get(op, "?")
            key = ("c", what)
            cs = S.facts.get(key, ()) + ((o, c),)
            if what[0] == "type" and isinstance(c, int) and o in ("==", "!="):
                kn = dict(zip(range(5), KINDS)).get(c)
                ks = self.kinds(S, what[1])
                ks = ks & {kn} if o == "==" else ks - {kn}
                if not ks:
                    return False
                S.facts[("k", what[1])] = ks
                return None
            if what[0] == "val" and o == "==" and isinstance(c, str) and c:
                ks = self.kinds(S, what[1]) & {"scalar"}
                if not ks:
                    return False
                S.facts[("k", what[1])] = ks
            if not consistent(cs):
                return False
            S.facts[key] = tuple(sorted(set(cs), key=str))
            self.zupdate(S)
        return None

    def on_store(self, path, v, S, node, fr):
        p, k = comp(path)
        f = fields(p)
        if f is None:
            return
        src = v.f.get("src")
        if src is None and v.obj is not None:
            subs = [x.f.get("src") for sub, x in S.under(v.obj) if len(sub) == 1 and sub[0][0] == "["]
            for sub, x in S.under(v.obj):
                if len(sub) == 1 and x.f.get("src"):
                    if sub[0][0] == "[" and isinstance(sub[0][1], int):
                        self.note(f, sub[0][1], x.f["src"], S, node, fr)
                    elif sub[0][0] == ".":
                        self.note(fields(path + sub), None, x.f["src"], S, node, fr)
        if src:
            self.note(f, k, src, S, node, fr)
        elif v.f.get("nan"):
            self.nans.add(f)
        elif v.c is not NOC:
            self.consts.append((f, v.c, tests(S), loc(node or {})))
            S.facts[("alt", f)] = ("const", v.c)

    def note(self, f, k, src, S, node, fr):
        y, tr = src
        S.facts[("alt", f)] = ("from", y)
        self.zraw(y, S)
        self.zupdate(S)
        size = S.facts.get(("c", ("size", y[:-1])), ())
        self.stores.append((f, k, y, tr, loc(node or {}), self.kinds(S, y), self.kinds(S, y[:-1]), size))

    def on_append(self, path, v, S, e, fr):
        f = fields(path)
        if f and v.f.get("src"):
            self.note(f, None, v.f["src"], S, e, fr)

    def on_clear(self, path, S, e, fr):
        f = fields(path)
        if f:
            S.facts[("alt", f)] = ("const", "")

    def on_case(self, cond, v, cv, taken, S, fr):
        q = v.f.get("q")
        if q and q[0] == "chr":
            if taken:
                return self.refine((q, "==", cv), True, S)
            for c in cv:
                if self.refine((q, "!=", c), True, S) is False:
                    return False
        return None

    def on_exit(self, name, args, node, S, fr):
        self.refused.append((args[0].v.c if args else NOC, loc(node), fr.chain() if hasattr(fr, "chain") else ""))


def tests(S):
    return {k[1]: v for k, v in S.facts.items() if k[0] == "c"}


def consistent(cs):
    for o, c in cs:
        for o2, c2 in cs:
            try:
                if o == "==" and o2 == "==" and c != c2:
                    return False
                if o == "==" and o2 == "!=" and c == c2:
                    return False
                if o == "==" and ((o2 == "<" and not c < c2) or (o2 == ">" and not c > c2) or (o2 == "<=" and not c <= c2) or (o2 == ">=" and not c >= c2)):
                    return False
                if o == ">" and o2 in ("<", "<=") and c >= c2:
                    return False
                if o == "<=" and o2 == ">=" and c == c2 and ("!=", c) in cs:
                    return False
                if o == ">=" and (o2 == "<" and c >= c2 or o2 == "<=" and c > c2):
                    return False
            except TypeError:
                pass
    return True


# ---------------------------------------------------------------------------------------------- writer
class Writer(Base):
    """facts: ('buf', stream) -> pieces of the unfinished text of a stream (for the output: of the current line);
    'stack' -> enclosing keys; ('c', what) -> tests that hold"""

    def __init__(self, prog):
        Engine.__init__(self, prog, [StrLit(), QDom(), CmpDom(), LDom(), NanDom()], max_depth=24, nonempty=True)
        self.lines = []
        self.helpers = {}

    def join_facts(self, a, b):
        out = {}
        for k in set(a) & set(b):
            if a[k] == b[k]:
                out[k] = a[k]
            elif k == "stack":
                n = 0
                while n < len(a[k]) and n < len(b[k]) and a[k][n] == b[k][n]:
                    n += 1
                out[k] = a[k][:n]
        return out

    def part_key(self, S):
        return tuple(sorted(((k, v) for k, v in S.facts.items() if isinstance(k, tuple) and k[0] == "buf"), key=str))

    def stringy(self, fn, args):
        """a formatting helper: text of its first argument"""
        if fn is None or fn.method or not fn.repo or not args or not args[0].v.f.get("lab"):
            return False
        r = fn.ret
        if r is None or not ("basic_string" in (r.rec or "") or (r.ptr and "char" in r.s)):
            return False
        return all(not a.v.f.get("lab") and a.v.f.get("str") is None for a in args[1:])

    def sid(self, a):
        p = a.p[0] if a.p else None
        if p and p[0][0] == "g" and "cout" in str(p[0][1]):
            return "out"
        if p and p[0][0] in ("p", "x", "v", "t", "o"):
            return p
        return None

    def on_call(self, name, fn, obj, args, e, S, fr):
        sn = name.rsplit("::", 1)[-1]
        if sn == "operator<<" and name.startswith("std::"):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 2:
                st = self.sid(ops[0])
                self.emit(st, self.manip(ops[1], S), S, e, fr)
                return [(V(self.fresh(e, fr), ptr=ops[0].p), S)]
        if name in ("std::endl",) and args:
            self.emit(self.sid(args[0]), (("c", "\n"),), S, e, fr)
            return [(V(self.fresh(e, fr), ptr=args[0].p), S)]
        if sn in ("put", "write") and name.startswith("std::basic_ostream") and obj is not None and args:
            self.emit(self.sid(obj), self.piece(args[0].v), S, e, fr)
            return [(V(self.fresh(e, fr), ptr=obj.p), S)]
        if sn == "str" and "stringstream" in name and obj is not None and not args:
            return [(V(self.fresh(e, fr), f={"str": S.facts.get(("buf", self.sid(obj)), ())}), S)]
        if sn in ("sprintf", "snprintf") and len(args) >= 2:
            n = strip(args[0].node)
            while n.get("k") == "Cast":
                n = strip(n["e"])
            dst = args[0].p or self.lv(n, S, fr)[0][0]
            i = 1 if sn == "sprintf" else 2
            fmt = self.piece(args[i].v)
            if len(fmt) == 1 and fmt[0][0] == "c":
                ps, vals = (), [self.piece(a.v) for a in args[i + 1:]]
                for t in re.split(r"(%[-+ #0-9.]*(?:l|ll|h|L)?[a-zA-Z%])", fmt[0][1]):
                    if t.startswith("%") and t != "%%":
                        ps = cat(ps, vals.pop(0) if vals else (("?",),))
                    elif t:
                        ps = cat(ps, (("c", t.replace("%%", "%")),))
                p = dst[0] if dst else (("t", "?", 0),)
                if p[-1][0] == "[":
                    p = p[:-1]
                self.store(p, V(self.fresh(e, fr), f={"str": ps}), S, e, fr, quiet=True)
                return [(V(self.fresh(e, fr)), S)]
        if self.stringy(fn, args):
            l = args[0].v.f["lab"]
            whole = (("f", l[0], l[1]),)
            t = fn.params[0]["t"]
            if "Eigen" in (t.rec or t.s) or "Vector3d" in t.s:
                out = []
                for v, S2 in self.inline(fn, None, args, e, S, fr):
                    ps = v.f.get("str")
                    out.append((v if ps and ("?",) not in ps and ps != whole else v.with_(f={"str": whole}), S2))
                return out
            self.helpers[fn.id] = fn
            return [(V(self.fresh(e, fr), f={"str": whole}), S)]
        if name.startswith("Eigen::") and sn in ("norm", "squaredNorm", "sum") and obj is not None and obj.v.f.get("lab"):
            return [(V(self.bounded(("norm", obj.v.sym), e, fr), f={"lab": (obj.v.f["lab"][0], sn)}), S)]
        q = self.q_call(name, obj, args, e)
        if q is not None:
            sym = self.bounded(("qc", sn, obj.v.sym if obj is not None else None, tuple(a.v.sym for a in args)), e, fr)
            return [(V(sym, f={k: v for k, v in zip(("t", "q"), q) if v is not None}), S)]
        return None

    def manip(self, a, S):
        n = a.node
        n = strip(n) if n is not None else {}
        while n.get("k") == "Cast":
            n = strip(n["e"])
        if n.get("k") == "Ref" and n.get("dk") == "fn":
            return (("c", "\n"),) if "endl" in str(n.get("d")) else ()
        t = n.get("t")
        if a.v.c is not NOC and isinstance(a.v.c, int) and t is not None and t.s.replace("const ", "") == "char":
            return (("c", chr(a.v.c)),)
        return self.piece(a.v)

    def emit(self, st, ps, S, e, fr):
        if st is None:
            return
        k = ("buf", st)
        buf = cat(S.facts.get(k, ()), ps)
        if st != "out":
            S.facts[k] = buf
            return
        cur = []
        for p in buf:
            if p[0] == "c" and "\n" in p[1]:
                *done, rest = p[1].split("\n")
                for d in done:
                    self.line(cat(tuple(cur), (("c", d),) if d else ()), S, e, fr)
                    cur = []
                if rest:
                    cur.append(("c", rest))
            else:
                cur.append(p)
        S.facts[k] = tuple(cur)

    def line(self, ps, S, e, fr):
        if not ps:
            return
        ps = list(ps)
        if ps[0][0] == "c":
            txt = ps[0][1]
            ind = len(txt) - len(txt.lstrip(" "))
            ps[0] = ("c", txt.lstrip(" "))
            if not ps[0][1]:
                ps.pop(0)
        else:
            ind = 0
        stack = [x for x in S.facts.get("stack", ()) if x[0] < ind]
        key, val = None, []
        if ps and ps[0][0] == "c" and ps[0][1].startswith("- "):
            key = "-"
            r = ps[0][1][2:]
            val = ([("c", r)] if r else []) + ps[1:]
        else:
            kp = []
            for i, p in enumerate(ps):
                if p[0] == "c" and ":" in p[1]:
                    a, b = p[1].split(":", 1)
                    if a:
                        kp.append(("c", a))
                    if b and not b.startswith(" "):
                        self.bad_line(ps, e, fr)
                    b = b.strip(" ")
                    val = ([("c", b)] if b else []) + ps[i + 1:]
                    break
                kp.append(p)
            else:
                self.bad_line(ps, e, fr)
                return
            if len(kp) == 1 and kp[0][0] == "c":
                key = kp[0][1]
            elif len(kp) == 1 and kp[0][0] == "f":
                key = ("f", kp[0][1])
            else:
                key = "?"
        stack.append((ind, key))
        S.facts["stack"] = tuple(stack)
        val = [("c", p[1].strip(" ")) if p[0] == "c" else p for p in val]
        val = [p for p in val if p != ("c", "")]
        self.lines.append((tuple(k for _, k in stack), tuple(val), conds(S), loc(e), tuple(i for i, _ in stack)))

    def bad_line(self, ps, e, fr):
        self.lines.append((("!",), tuple(ps), frozenset(), loc(e), ()))

    def on_branch(self, cond, v, taken, S, fr):
        t = v.f.get("t")
        if t is None:
            l = v.f.get("lab")
            if l:
                t = (("field", l[0]), "!=", 0)
            else:
                return None
        what, op, c = t
        if op.startswith("not "):
            op, taken = op[4:], not taken
        S.facts[("c", what)] = (op, c) if taken else (NEG[op], c) if op in NEG else ("not " + op, c)
        return None

    def on_case(self, cond, v, cv, taken, S, fr):
        l = v.f.get("lab")
        if l and taken and cv is not None:
            S.facts[("c", ("field", l[0]))] = ("==", cv)
        if l and not taken and len(cv) > 1:
            return False            # the enumerators are all listed (the check compares them with those read)
        return None


def conds(S):
    return frozenset((k[1],) + v for k, v in S.facts.items() if isinstance(k, tuple) and k[0] == "c")


def subj_patch(cls):
    """comparisons of a settings field with a constant"""
    def subj(self, v):
        if v.f.get("src") and not v.f["src"][1]:
            return ("val", v.f["src"][0])
        if v.f.get("q"):
            return v.f["q"]
        if v.f.get("lab"):
            return ("field", v.f["lab"][0])
        return None
    cls.subj = subj


subj_patch(CmpDom)


def find_read(prog):
    for f in prog.fns.values():
        if f.name == "Settings::read" and f.body is not None and f.params and "YAML::Node" in f.params[0]["t"].s:
            return f
    return None


def run_reader(prog, altfields=()):
    f = find_read(prog)
    if f is None:
        return None
    r = Reader(prog, altfields)
    S = State()
    for c in prog.fns.values():
        if c.ctor and c.clsn == "Settings":
            for i in c.inits or []:
                t = r.field_type(i.get("f")) if i.get("f") else None
                x = strip(i["e"])
                v = r.const_of(x) if isinstance(x, dict) else NOC
                if v is NOC and x.get("k") == "Lit":
                    v = x.get("v", NOC)
                if t is not None and t.const and v is not NOC:
                    S.put((("o", "Settings"), (".", i["f"])), V(("c", "n", v), v))
    p0 = f.params[0]
    fid = r.fids.setdefault(("root", f.id), len(r.fids) + 1)
    if p0["ref"]:
        root = (("yn", ()),)
        S.put(root, V(("y", ()), f={"y": ()}))
        r.ends = r.run(f, binds={0: root}, S=S)
    else:
        r.ends = r.run(f, binds={0: V(("y", ()), f={"y": ()})}, S=S)
    return r


def run_writer(prog):
    f = next((f for f in prog.fns.values() if f.name == "Settings::toYaml" and f.body is not None), None)
    if f is None:
        return None
    w = Writer(prog)
    w.run(f)
    return w
