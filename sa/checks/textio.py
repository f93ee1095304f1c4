"""Abstract interpretation of text written to and read from streams, shared by I03 and I05.

Written text is a sequence of pieces: literal text, values known by the access path they were loaded from, or an
unknown piece.  Read values are known by their rank in the line (token) or by the tag they follow."""
from sa.interp import Engine, V, NOC, Domain, strip, is_class, sel_is_sym
from sa.lib import fieldname, loc, walk

WS = " \t"


class Org(Domain):
    """org: the access path a value was loaded from (unchanged since)"""
    name = "org"

    def default(self, eng, path, t):
        return path

    def un(self, eng, op, a, node, S):
        return a.f.get("org") if op == "+" else None

    def elem(self, eng, v, key):
        o = v.f.get("org")
        return o + tuple(key) if o else None

    def call(self, eng, name, obj, args, node, S):
        if node.get("k") == "Construct" and len(args) == 1 and "basic_string" in node.get("cls", ""):
            return args[0].v.f.get("org")
        return None


class Str(Domain):
    """str: the text of a string value, as a tuple of pieces"""
    name = "str"

    def lit(self, eng, node, c):
        if node.get("lk") == "str":
            return (("c", c),) if c else ()
        if node.get("lk") == "char" and isinstance(c, int):
            return (("c", chr(c)),)
        return None

    def default(self, eng, path, t):
        if len(path) == 1 and path[0][0] == "g":
            return eng.gstr(path[0][1])
        return None

    def bin(self, eng, op, a, b, node, S):
        if op in ("+", "+="):
            x, y = a.f.get("str"), b.f.get("str")
            if x is None and y is None:
                return None
            return cat(eng.piece(a) if x is None else x, eng.piece(b) if y is None else y)
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if node.get("k") == "Construct" and "basic_string" in node.get("cls", ""):
            return args[0].v.f.get("str") if args else ()
        if sn in ("c_str", "data") and obj is not None:
            return obj.v.f.get("str")
        if sn == "to_string" and args:
            return eng.piece(args[0].v)
        return None

    def join(self, a, b):
        return a if a == b else None


def cat(a, b):
    out = list(a)
    for p in b:
        if p[0] == "c" and out and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + p[1])
        elif p != ("c", ""):
            out.append(p)
    return tuple(out) if len(out) <= 60 else (("?", "long"),)


class Text(Engine):
    """facts ('buf', stream): the text written to a stream (for files: of the current line)"""

    def __init__(self, prog, domains=(), **k):
        self._g = {}
        Engine.__init__(self, prog, [Org(), Str()] + list(domains), **k)
        self.lines = []
        self.formats = []

    def gstr(self, did):
        if did not in self._g:
            self._g[did] = None
            g = self.prog.globals.get(did)
            init = g.get("init") if g else None
            if init is not None:
                ss = [n.get("v") for n in walk(init) if n.get("k") == "Lit" and n.get("lk") == "str"]
                if len(ss) == 1:
                    self._g[did] = (("c", ss[0]),) if ss[0] else ()
        return self._g[did]

    def piece(self, v):
        if v.f.get("str") is not None:
            return v.f["str"]
        if isinstance(v.c, str):
            return (("c", v.c),)
        if v.sym in self.ranges:
            return (("i", v.sym),)
        if v.f.get("val") is not None:
            return (("v", v.f["val"]),)
        if v.f.get("org") is not None:
            return (("o", v.f["org"]),)
        return (("?", "value"),)

    def sid(self, a):
        if a is None or not a.p:
            return None
        p = a.p[0]
        if p[0][0] == "g" and ("cout" in str(p[0][1]) or "cerr" in str(p[0][1]) or "clog" in str(p[0][1])):
            return None
        return p

    def file_stream(self, st, a):
        return True

    def on_call(self, name, fn, obj, args, e, S, fr):
        sn = name.rsplit("::", 1)[-1]
        if sn == "operator<<" and (name.startswith("std::") or name.startswith("Eigen::")):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 2 and not (name.startswith("Eigen::") and obj is not None):
                st = self.sid(ops[0])
                if st is not None:
                    self.emit(st, self.manip(ops[1], S, st, e), S, e, fr)
                return [(V(self.fresh(e, fr), ptr=ops[0].p), S)]
        if name == "std::endl" and args and self.sid(args[0]):
            self.emit(self.sid(args[0]), (("c", "\n"),), S, e, fr)
            return [(V(self.fresh(e, fr), ptr=args[0].p), S)]
        if name in ("std::scientific", "std::fixed", "std::flush") and args:
            if self.sid(args[0]):
                self.on_manip(name[5:], None, S, self.sid(args[0]), e)
            return [(V(self.fresh(e, fr), ptr=args[0].p), S)]
        if name == "std::setprecision" and args:
            return [(V(self.fresh(e, fr), f={"str": (), "prec": args[0].v.f.get("org") or ("c", args[0].v.c)}), S)]
        if sn == "precision" and name.startswith("std::ios_base") and args and obj is not None and self.sid(obj):
            self.on_manip("precision", args[0].v.f.get("org") or ("c", args[0].v.c), S, self.sid(obj), e)
            return [(V(self.fresh(e, fr)), S)]
        if sn in ("put", "write") and name.startswith("std::basic_ostream") and obj is not None and args:
            if self.sid(obj):
                self.emit(self.sid(obj), self.manip(args[0], S, self.sid(obj), e), S, e, fr)
            return [(V(self.fresh(e, fr), ptr=obj.p), S)]
        if sn == "str" and "stringstream" in name and obj is not None and not args:
            return [(V(self.fresh(e, fr), f={"str": S.facts.get(("buf", self.sid(obj)), ())}), S)]
        if sn == "format" and name.startswith("Eigen::") and obj is not None:
            o = obj.v.f.get("org") or (obj.p[0] if obj.p else None)
            fmt = None
            if args:
                src = args[0].v.obj or (args[0].p[0] if args[0].p else None)
                fv = S.get(args[0].p[0]) if args[0].p else None
                for v in (fv, S.get(fv.obj) if fv is not None and fv.obj else None, S.get(src) if src else None):
                    fmt = fmt or (v.f.get("fmt") if v is not None else None)
            sep = fmt[3] if fmt and len(fmt) > 3 else (("c", "\n"),)
            pre = fmt[4] if fmt and len(fmt) > 4 else ()
            ps = ()
            for k in range(3):
                c = S.get(obj.p[0] + (("[", k),)) if obj.p else None
                if c is not None:
                    x = self.piece(c)
                else:
                    x = (("o", o + (("[", k),)),) if o else (("?", "vector"),)
                ps = cat(ps, (sep if k else ()) + x)
            if fmt:
                self.formats.append((fmt, loc(e)))
            return [(V(self.fresh(e, fr), f={"str": ps}), S)]
        return None

    def manip(self, a, S, st, e):
        if a.v.f.get("prec") is not None:
            self.on_manip("precision", a.v.f["prec"], S, st, e)
            return ()
        n = a.node
        n = strip(n) if n is not None else {}
        while n.get("k") == "Cast":
            n = strip(n["e"])
        if n.get("k") == "Ref" and n.get("dk") == "fn":
            d = str(n.get("d"))
            for m in ("scientific", "fixed", "defaultfloat", "flush"):
                if m in d:
                    self.on_manip(m, None, S, st, e)
            return (("c", "\n"),) if "endl" in d else ()
        t = n.get("t")
        if a.v.c is not NOC and isinstance(a.v.c, int) and t is not None and t.s.replace("const ", "") == "char":
            return (("c", chr(a.v.c)),)
        if is_class(t) and a.p and a.v.f.get("str") is None and S.get(a.p[0]) is not None:
            return self.piece(S.get(a.p[0]))
        return self.piece(a.v)

    def on_manip(self, what, arg, S, st, e):
        S.facts[("manip", st, "precision" if what == "precision" else "flush" if what == "flush" else "float")] = arg if what == "precision" else what

    def on_construct(self, cls, p, args, e, S, fr):
        if cls == "Eigen::IOFormat":
            v = S.get(p)
            fmt = tuple((a.v.f.get("org") or ("c", a.v.c)) if i < 2 else self.piece(a.v) for i, a in enumerate(args))
            S.put(p, v.with_(f=dict(v.f, fmt=fmt)))
        if "stringstream" in cls:
            S.facts[("buf", p)] = ()

    def emit(self, st, ps, S, e, fr):
        k = ("buf", st)
        buf = cat(S.facts.get(k, ()), ps)
        if "\n" not in "".join(p[1] for p in buf if p[0] == "c") or not self.by_line(st, S):
            S.facts[k] = buf
            return
        cur = ()
        for p in buf:
            if p[0] == "c" and "\n" in p[1]:
                *done, rest = p[1].split("\n")
                for d in done:
                    self.line(st, cat(cur, (("c", d),)), S, e, fr)
                    cur = ()
                cur = (("c", rest),) if rest else ()
            else:
                cur = cat(cur, (p,))
        S.facts[k] = cur

    def by_line(self, st, S):
        return True

    def line(self, st, ps, S, e, fr):
        self.lines.append((st, ps, dict(S.facts), loc(e)))

    def part_key(self, S):
        return tuple(sorted(((k, v) for k, v in S.facts.items() if isinstance(k, tuple) and k[0] == "buf"), key=str))

    def join_facts(self, a, b):
        return {k: a[k] for k in set(a) & set(b) if a[k] == b[k]}


def names(path):
    """fields on an access path with the constant indices: node[..].d[0].u"""
    out = []
    for s in path[1:]:
        if s[0] == ".":
            out.append(str(fieldname(s)))
        elif s[0] == "[":
            out.append(("[", s[1]))
    return out
