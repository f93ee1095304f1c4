"""helpers shared by the checks"""
from sa.interp import NOC, V, Arg, Domain, strip


def walk(n):
    """every node of a statement / expression tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def fn_nodes(f):
    yield from walk(f.body)
    yield from walk(f.inits)


def callees(prog, f):
    """ids of the functions f may call or hand over (lambdas included)"""
    out = set()
    for n in fn_nodes(f):
        if n.get("fn"):
            out.add(n["fn"])
        if n.get("k") == "Ref" and n.get("dk") == "fn":
            out.add(n["d"])
    for o in list(out):
        out |= set(prog.overriders.get(o, ()))
    return out


def call_graph(prog):
    g = {}
    for f in prog.fns.values():
        if f.body is not None:
            g[f.id] = callees(prog, f)
    return g


def reachable(g, roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(g.get(x, ()))
    return seen


def loc(node):
    l = node.get("l") if isinstance(node, dict) else None
    return "%s:%d" % (l[0], l[1]) if l else "?"


def fieldname(sel):
    return sel[1].rsplit("@", 1)[-1] if sel[0] == "." else None


def outer_fn(fr):
    """the named function (not lambda) enclosing frame fr"""
    f = fr
    while f.fn.is_lambda and f.parent is not None:
        f = f.parent
    return f.fn


class StrDom(Domain):
    """string provenance: a tuple of parts, each a literal ('c', text) or a source ('s', label)"""
    name = "str"
    LIM = 40

    def norm(self, parts):
        out = []
        for p in parts:
            if p[0] == "c" and p[1] == "":
                continue
            if out and p[0] == "c" and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + p[1])
            else:
                out.append(p)
        return tuple(out) if len(out) <= self.LIM else None

    def default(self, eng, path, t):
        if t is not None and ((t.rec or "").endswith("basic_string") or (t.ptr and "char" in t.c)):
            return (("s", self.label(path)),)
        return None

    def label(self, path):
        fs = [fieldname(s) for s in path if s[0] == "."]
        if fs:
            return "." + fs[-1]
        r = path[0]
        return str(r[1]).rsplit(":", 1)[-1] if r[0] == "v" else str(r[-1])

    def lit(self, eng, node, c):
        if node.get("lk") == "str":
            return (("c", c),) if c else ()
        if node.get("lk") == "char":
            return (("c", chr(c)),)
        return None

    def parts(self, v):
        p = v.f.get("str")
        if p is None and isinstance(v.c, str):
            return (("c", v.c),)
        return p

    def bin(self, eng, op, a, b, node, S):
        if op in ("+", "+="):
            x, y = self.parts(a), self.parts(b)
            if x is None and y is None:
                return None
            return self.norm((x if x is not None else (("s", "?"),)) + (y if y is not None else (("s", "?"),)))
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if node.get("k") == "Construct" and "basic_string" in node.get("cls", "") and args:
            return self.parts(args[0].v)
        if node.get("k") == "Construct" and "path" in node.get("cls", "") and args:
            return self.parts(args[0].v)
        if sn in ("c_str", "str", "data", "string", "native", "string_view") and obj is not None:
            return self.parts(obj.v)
        if sn == "to_string":
            return (("s", "num"),)
        if sn in ("append", "push_back", "operator+="):
            return None
        return None

    def join(self, a, b):
        return a if a == b else None


class LabDom(Domain):
    """where a scalar comes from: the access path it was loaded from"""
    name = "lab"

    def default(self, eng, path, t):
        return path

    def un(self, eng, op, a, node, S):
        return None
