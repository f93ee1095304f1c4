"""Normal forms of the finite-element kernels.

An abstract interpreter for the numeric kernels (element integrals, energies, charges): the value of a number is a Laurent
polynomial over named quantities (material constants, components of the magnetisation, weights, shape functions and their gradients);
nodes, Gauss points and elements are smashed into one generic node, point and element (a loop over them stands for a sum), components
along x, y, z and the blocks of the element matrices are kept apart. Two pieces of code with the same normal form compute the same quantity,
however they are written. Unknown values are None and decide nothing."""
import re

from sa.interp import strip, is_class
from sa.lib import fieldname, walk

EPS = 1e-9


class Unsup(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Stop(Exception):
    """the program ends"""


# ---------------------------------------------------------------- polynomials
def padd(a, b, s=1.0):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0.0) + s * c
        if abs(x) <= 1e-12 * max(abs(c), 1e-300):
            r.pop(m, None)
        else:
            r[m] = x
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
        if x == "δ":
            d[x] = 1
    return tuple(sorted((x, e) for x, e in d.items() if e))


def pmul(a, b, matrix=False):
    r = {}
    if len(a) * len(b) > 40000:
        raise Unsup("polynomial too large")
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            if matrix and any(x == "δ" for x, _ in k) and not (any(x == "δ" for x, _ in m) and any(x == "δ" for x, _ in n)):
                k = tuple(y for y in k if y[0] != "δ")
            x = r.get(k, 0.0) + c * d
            if abs(x) <= 1e-12 * abs(c * d):
                r.pop(k, None)
            else:
                r[k] = x
    return r


def pinv(a):
    if len(a) == 1:
        (m, c), = a.items()
        if c:
            return {tuple((x, -e) for x, e in m): 1.0 / c}
    if not a:
        return None
    return {(("inv(%s)" % pstr(a), 1),): 1.0}


def pstr(a):
    return " + ".join("%.10g%s" % (c, "".join("*%s%s" % (x, "^%g" % e if e != 1 else "") for x, e in m)) for m, c in sorted(a.items())) or "0"


def pconst(c):
    return {(): float(c)} if c else {}


def atom(n):
    return {((n, 1),): 1.0}


def peq(a, b):
    for m in set(a) | set(b):
        x, y = a.get(m, 0.0), b.get(m, 0.0)
        if abs(x - y) > EPS * max(abs(x), abs(y)):
            return False
    return True


def pdiff(p, x):
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.get(x, 0)
        if e:
            d[x] = e - 1
            r = padd(r, {tuple(sorted((k, v) for k, v in d.items() if v)): c * e})
    return r


def psubst(p, x, q):
    """replace atom x (non-negative powers) by polynomial q"""
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(x, 0)
        t = {tuple(sorted(d.items())): c}
        for _ in range(int(e)):
            t = pmul(t, q)
        r = padd(r, t)
    return r


def hasatom(p, x):
    return any(y == x for m in p for y, _ in m)


class F:
    """a number: contributions, by the place that made them (None: plain value)"""
    __slots__ = ("parts", "_t")

    def __init__(self, p=None, parts=None):
        self.parts = parts if parts is not None else {None: p}
        self._t = None

    def total(self):
        if self._t is None:
            r = {}
            for p in self.parts.values():
                r = padd(r, p)
            self._t = r
        return self._t

    def acc(self, key, p):
        d = dict(self.parts)
        d[(key, pstr(p))] = p
        return F(parts=d)


ZERO = F({})


class Ten:
    """a block matrix of numbers (R x C blocks)"""
    __slots__ = ("R", "C", "e", "cw")

    def __init__(self, R, C, e, cw=None):
        self.R, self.C, self.e, self.cw = R, C, list(e), cw

    def at(self, r, c):
        return self.e[r * self.C + c]

    def tot(self, r=0, c=0):
        x = self.at(r, c)
        return None if x is None else x.total()


def S(p):
    return Ten(1, 1, [None if p is None else F(p)])


def vec(ps):
    return Ten(len(ps), 1, [None if p is None else F(p) for p in ps])


class Cond:
    def __init__(self, key, pos=True):
        self.key, self.pos = key, pos


class LoopInt(int):
    """a value of a loop counter that runs over 0..hi-1"""
    hi = None


class Sym:
    """an integer that is not known: a generic index (of a loop over 0..hi-1), plus a constant"""

    def __init__(self, name, off=0, hi=None):
        self.name, self.off, self.hi = name, off, hi


class Tab:
    """a table whose entries are named by their indices"""

    def __init__(self, label):
        self.label = label


def symstr(x):
    if isinstance(x, Sym):
        return "%s+%d" % (x.name, x.off)
    if isinstance(x, int):
        return "%d" % x
    return "?"


class Cell:
    __slots__ = ("val", "t", "label")

    def __init__(self, val, t=None, label=None):
        self.val, self.t, self.label = val, t, label


class View:
    __slots__ = ("cell", "rows", "cols", "diag", "amb", "conv")

    def __init__(self, cell, rows=None, cols=None, diag=False, amb=False, conv=None):
        self.cell, self.rows, self.cols, self.diag, self.amb, self.conv = cell, rows, cols, diag, amb, conv


class Obj:
    def __init__(self, label, cls=None):
        self.label, self.cls, self.f = label, cls, {}


class Arr:
    def __init__(self, label, et):
        self.label, self.et, self.e, self.init = label, et, {}, None


class It:
    def __init__(self, arr):
        self.arr = arr


class Clo:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


class Fun:
    """a function given by its name only"""

    def __init__(self, name):
        self.name = name


SMALL = re.compile(r"std::array<double, (\d+)>")
MAT = re.compile(r"Matrix<double, (-?\d+), (-?\d+)|Array<double, (-?\d+), (-?\d+)")
FIX = re.compile(r"FixedBlockXpr<(\d+), (\d+)>")


def nb(d):
    return {3: 3, 6: 2, 8: 2, 9: 3, 12: 3}.get(d, 1)


def dims(c):
    m = MAT.search(c or "")
    if not m:
        return None
    g = [int(x) for x in m.groups() if x is not None]
    return g[0], g[1]


def shape(r, c):
    R = nb(r)
    C = 1 if r == 3 else nb(c)
    return R, C, max(r // R, 1) if r > 0 else 1, max(c // C, 1) if c > 0 else 1


class Kern:
    def __init__(self, prog, names=None, stubs=None, label=None):
        self.prog = prog
        self.stubs = stubs or {}
        self.globals = {}
        self.script, self.pos, self.memo, self.facts = [], 0, {}, []
        self.chain = ()
        self.depth = 0
        self.called = set()
        self.rename = names or (lambda label, field, cls: field)
        self.sets = []
        self.partial = set()
        self._small = {}
        self.exact = False  # constant loops unrolled, array elements kept apart by their index

    # ---------------------------------------------------------- runs
    def runs(self, go, limit=256):
        """all partitions by the outcomes of the tests that are not decided"""
        todo = [[]]
        out = []
        while todo and len(out) < limit:
            self.script = todo.pop()
            self.pos, self.memo, self.facts, self.globals, self.chain, self.depth = 0, {}, [], {}, (), 0
            self.trace = []
            try:
                r = go()
            except Stop:
                r = None
            out.append((r, list(self.facts)))
            for i in range(len(self.script), len(self.trace)):
                todo.append(self.trace[:i] + [False])
        return out

    def decide(self, key):
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        v = self.script[i] if i < len(self.script) else True
        self.trace.append(v)
        self.memo[key] = v
        self.facts.append((key, v))
        return v

    # ---------------------------------------------------------- values
    def default(self, t, label, field, cls=None):
        """a value of type t that nothing has written: named after where it is"""
        c = t.c if t is not None else ""
        n = self.rename(label, field, cls)
        if t is not None and (t.b in ("double", "float") or c.replace("const ", "").strip(" &") in ("double", "float")) and not t.ptr and not t.arr:
            return S(atom(n))
        if "std::function" in c and "vector" not in c:
            return Fun(n)
        if t is not None and (t.arr or t.rec in ("std::vector", "std::array")):
            return Arr(n, None)
        if t is not None and t.ptr:
            return View(Cell(Obj(n, None)))
        d = dims(c) if (t is not None and (t.rec or "").startswith("Eigen::")) or "Eigen::Matrix" in c else None
        if d:
            R, C, _, _ = shape(*d)
            if R * C == 1:
                return S(atom(n))
            return Ten(R, C, [F(atom("%s_%d" % (n, i))) for i in range(R * C)])
        if t is not None and t.b in ("int", "bool") or (t is not None and t.enum):
            return Sym(n)
        return Obj(n, t.rec if t is not None else None)

    def elem(self, arr, k, t):
        if k not in arr.e:
            if arr.init is not None:
                arr.e[k] = Cell(arr.init, t)
            else:
                lab = arr.label if k == "*" or not is_class(t) else "%s@%s" % (arr.label, k)
                arr.e[k] = Cell(self.default(t, lab, lab if is_class(t) and not dims(t.c) else arr.label, None), t)
        return View(arr.e[k])

    def field(self, o, did, t):
        if did not in o.f:
            o.f[did] = Cell(self.default(t, o.label, fieldname((".", did)), o.cls), t)
        return View(o.f[did])

    def val(self, x):
        while isinstance(x, View):
            x = self.vget(x)
        return x

    def vget(self, v):
        x = v.cell.val
        if v.rows is None:
            return x
        if not isinstance(x, Ten):
            return None
        if x.R * x.C == 1:
            r = Ten(1, 1, x.e)
            if v.diag and x.e[0] is not None:
                return S(self.undelta(x.e[0].total()))
            return r
        if v.amb:
            f = x.e[0]
            same = all((a is None and f is None) or (a is not None and f is not None and peq(a.total(), f.total())) for a in x.e)
            return Ten(1, 1, [f if same else None])
        e = []
        for r in v.rows:
            for c in v.cols:
                f = x.at(min(r, x.R - 1), min(c, x.C - 1)) if r < x.R and c < x.C else None
                if v.diag and f is not None:
                    f = F(self.undelta(f.total()))
                e.append(f)
        return Ten(len(v.rows), len(v.cols), e)

    def undelta(self, p):
        return {tuple(y for y in m if y[0] != "δ"): c for m, c in p.items()}

    def conform(self, x, R, C):
        """x as an R x C tensor"""
        if not isinstance(x, Ten):
            return Ten(R, C, [None] * (R * C))
        if (x.R, x.C) == (R, C):
            return x
        if x.R * x.C == 1:
            return Ten(R, C, [x.e[0]] * (R * C))
        if (x.C, x.R) == (R, C):
            return self.transpose(x)
        if R * C == 1 and None not in x.e and all(peq(f.total(), x.e[0].total()) for f in x.e):
            return Ten(1, 1, [F(x.e[0].total())])  # the three nodes of a triangle
        return Ten(R, C, [None] * (R * C))

    def vset(self, v, x, op="=", key=None):
        cur = v.cell.val
        x = self.val(x)
        if op == "=" and v.rows is None and not isinstance(cur, Ten):
            v.cell.val = x.val if isinstance(x, Cell) else x
            return
        if v.rows is None and op == "=":
            d = dims(v.cell.t.c) if v.cell.t is not None else None
            if isinstance(x, Ten) and d:
                R, C, _, _ = shape(*d)
                x = self.conform(x, R, C)
            v.cell.val = Ten(x.R, x.C, x.e) if isinstance(x, Ten) else x
            return
        if not isinstance(cur, Ten):
            if isinstance(cur, (int, Sym)) and not isinstance(cur, bool):
                v.cell.val = self.num(op.rstrip("="), cur, x) if op != "=" else x
                return
            d = dims(v.cell.t.c) if v.cell.t is not None else None
            if not d:
                v.cell.val = None
                return
            R, C, _, _ = shape(*d)
            cur = Ten(R, C, [None] * (R * C))
        new = Ten(cur.R, cur.C, cur.e)
        rows = range(cur.R) if v.rows is None else v.rows
        cols = range(cur.C) if v.cols is None else v.cols
        if v.amb and cur.R * cur.C > 1:
            new.e = [None] * len(new.e)
            v.cell.val = new
            return
        rows = [min(r, cur.R - 1) for r in rows]
        cols = [min(c, cur.C - 1) for c in cols]
        x = self.conform(x, len(rows), len(cols))
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                f = x.at(i, j)
                o = cur.at(r, c)
                p = None if f is None else f.total()
                if p is not None and v.diag:
                    p = pmul(p, atom("δ"))
                if op == "=":
                    n = None if p is None else F(p)
                    if v.diag and n is not None and o is not None:
                        n = F(padd({m: k for m, k in o.total().items() if not any(y == "δ" for y, _ in m)}, p))
                elif p is None or o is None:
                    n = None
                elif op == "+=":
                    n = o.acc(key, p)
                elif op == "-=":
                    n = o.acc(key, {m: -k for m, k in p.items()})
                elif op == "*=":
                    n = F(pmul(o.total(), p))
                elif op == "/=":
                    q = pinv(p)
                    n = None if q is None else F(pmul(o.total(), q))
                else:
                    n = None
                new.e[r * cur.C + c] = n
        v.cell.val = new

    def transpose(self, x):
        return Ten(x.C, x.R, [x.at(r, c) for c in range(x.C) for r in range(x.R)])

    def ten(self, x):
        x = self.val(x)
        if isinstance(x, Ten):
            return x
        if isinstance(x, bool) or isinstance(x, (int, float)):
            if x != x:
                return S(None)
            return S(pconst(x))
        return S(None)

    def map2(self, a, b, f):
        a, b = self.ten(a), self.ten(b)
        if (a.R, a.C) != (b.R, b.C):
            if a.R * a.C == 1:
                a = Ten(b.R, b.C, a.e * (b.R * b.C))
            elif b.R * b.C == 1:
                b = Ten(a.R, a.C, b.e * (a.R * a.C))
            elif (a.R, a.C) == (b.C, b.R) and 1 in (a.R, a.C):
                b = self.transpose(b)
            else:
                return S(None)
        e = []
        for x, y in zip(a.e, b.e):
            if x is None or y is None:
                e.append(None)
            else:
                p = f(x.total(), y.total())
                e.append(None if p is None else F(p))
        return Ten(a.R, a.C, e)

    def matmul(self, a, b):
        a, b = self.ten(a), self.ten(b)
        if a.R * a.C == 1 or b.R * b.C == 1:
            return self.map2(a, b, lambda x, y: pmul(x, y, True))
        if a.C != b.R:
            return S(None)
        e = []
        for r in range(a.R):
            for c in range(b.C):
                s = {}
                for k in range(a.C):
                    x, y = a.at(r, k), b.at(k, c)
                    if x is None or y is None:
                        s = None
                        break
                    s = padd(s, pmul(x.total(), y.total(), True))
                e.append(None if s is None else F(s))
        return Ten(a.R, b.C, e)

    def dot(self, a, b):
        a, b = self.ten(a), self.ten(b)
        n, m = a.R * a.C, b.R * b.C
        if n != m:
            return S(None)
        s = {}
        for x, y in zip(a.e, b.e):
            if x is None or y is None:
                return S(None)
            s = padd(s, pmul(x.total(), y.total()))
        return S(s)

    def num(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, Sym) and isinstance(b, int) and op in ("+", "-"):
            return Sym(a.name, a.off + (b if op == "+" else -b))
        if isinstance(b, Sym) and isinstance(a, int) and op == "+":
            return Sym(b.name, b.off + a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op == "/":
                    return a / b if isinstance(a, float) or isinstance(b, float) else int(a / b)
                if op == "%":
                    return a % b
            except Exception:
                return None
        if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)) and not any(isinstance(x, Sym) and x.name == "?" for x in (a, b)):
            if op == "*" and (isinstance(a, int) or isinstance(b, int)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                if k in (0, 1):
                    return x if k else 0
                return Sym("%d*%s" % (k, x.name), k * x.off)
            if op in ("+", "-") and isinstance(a, Sym) and isinstance(b, Sym):
                if op == "-" and a.name == b.name:
                    return a.off - b.off
                return Sym(" + ".join(sorted((a.name, b.name))) if op == "+" else "%s - (%s)" % (a.name, b.name), a.off + b.off if op == "+" else a.off - b.off)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return Sym("?")
        if not isinstance(a, (Ten, int, float)) or not isinstance(b, (Ten, int, float)):
            return None
        if op == "+":
            return self.map2(a, b, padd)
        if op == "-":
            return self.map2(a, b, lambda x, y: padd(x, y, -1.0))
        if op == "*":
            return self.map2(a, b, pmul)
        if op == "/":
            return self.map2(a, b, lambda x, y: None if pinv(y) is None else pmul(x, pinv(y)))
        return None

    def cmp(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

        def k(x):
            if isinstance(x, Sym):
                return "%s+%d" % (x.name, x.off)
            if isinstance(x, (int, float)):
                return pstr(pconst(x))
            if isinstance(x, Ten) and x.R * x.C == 1 and x.e[0] is not None:
                return pstr(x.e[0].total())
            return "?%s" % (self.cursite,)
        x, y = k(a), k(b)
        if op in ("==", "!="):
            x, y = sorted((x, y))
            return Cond(("eq", x, y), op == "==")
        if op in ("<", ">="):
            x, y, op = y, x, ">" if op == "<" else "<="
        m = re.match(r"1\*f?abs\((.*)\)$", x)
        if m and y == "0":
            return Cond(("eq",) + tuple(sorted(("0", m.group(1)))), op != ">")
        if op in (">", "<="):
            return Cond(("gt", x, y), op == ">")
        return Cond(("gt", y, x), op == "<")

    def truth(self, x):
        x = self.val(x)
        if isinstance(x, bool) or isinstance(x, (int, float)):
            return bool(x)
        if isinstance(x, Cond):
            return self.decide(x.key) == x.pos
        if isinstance(x, Sym):
            return not self.decide(("eq",) + tuple(sorted(("%s+%d" % (x.name, x.off), "0"))))
        return self.decide(("?", self.cursite))

    # ---------------------------------------------------------- statements
    def ex(self, s, env):
        if s is None:
            return
        m = getattr(self, "x_" + s["k"], None)
        if m:
            return m(s, env)
        self.ev(s, env)

    def x_Null(self, s, env):
        pass

    def x_Compound(self, s, env):
        for x in s["s"]:
            self.ex(x, env)

    def x_Decl(self, s, env):
        for d in s["d"]:
            self.decl(d, env)

    def decl(self, d, env):
        if d.get("decomp"):
            raise Unsup("structured binding")
        init = d.get("init")
        t = d["t"]
        if init is None:
            env[d["d"]] = View(Cell(Arr(d["n"], None) if t.arr or t.rec in ("std::array", "std::vector") else None, t))
            return
        x = self.ev(init, env)
        if d["ref"] or t.rec == "Eigen::Ref":
            env[d["d"]] = x if isinstance(x, View) else View(Cell(x, t))
            return
        x = self.val(x)
        dm = dims(t.c) if (t.rec or "") == "Eigen::Matrix" else None
        if isinstance(x, Tab):
            dm = None
        if dm:
            if isinstance(x, Ten):
                R, C, _, _ = shape(*dm)
                x = self.conform(x, R, C)
            else:
                x = None
        if isinstance(x, Ten):
            x = Ten(x.R, x.C, x.e)
        if isinstance(x, int) and t.b in ("double",):
            x = S(pconst(x))
        env[d["d"]] = View(Cell(x, t))

    def x_If(self, s, env):
        if s.get("init"):
            self.ex(s["init"], env)
        if s.get("var"):
            self.decl(s["var"], env)
        self.cursite = (id(s), self.chain)
        if self.truth(self.ev(s["c"], env)):
            self.ex(s["a"], env)
        elif s.get("b"):
            self.ex(s["b"], env)

    def count(self, s, env):
        """(variable, start, bound) of a counting loop"""
        c, inc = s.get("c"), s.get("inc")
        if not c or not inc:
            return None
        c = strip(c)
        if c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
            return None

        def un(n):
            n = strip(n)
            while n["k"] == "Cast":
                n = strip(n["e"])
            return n
        a, b = un(c["a"]), c["b"]
        if a["k"] != "Ref" or a.get("dk") not in ("local", "parm"):
            a, b = un(c["b"]), c["a"]
        if a["k"] != "Ref":
            return None
        lo = env.get(a["d"])
        hi = self.val(self.ev(b, env))
        lo = self.val(lo) if lo is not None else None
        return a["d"], lo, hi, c["op"]

    def body(self, s, env):
        try:
            self.ex(s, env)
        except Cont:
            pass

    def x_For(self, s, env):
        self.ex(s.get("init"), env)
        r = self.count(s, env)
        if r is None:
            raise Unsup("loop")
        d, lo, hi, op = r
        if (self.exact or self.small(s["b"])) and isinstance(lo, int) and isinstance(hi, int) and abs(hi - lo) <= 16:
            try:
                for _ in range(64):
                    if not self.truth(self.ev(s["c"], env)):
                        return
                    self.body(s["b"], env)
                    self.ev(s["inc"], env)
            except Brk:
                return
            raise Unsup("loop")
        inc = strip(s["inc"])
        up = "++" in str(inc.get("op")) or inc.get("op") == "+="
        if isinstance(lo, It):
            env[d] = View(Cell(lo))
            try:
                self.body(s["b"], env)
            except Brk:
                pass
            return
        if op in ("<=",) and isinstance(hi, int):
            hi += 1
        try:
            if isinstance(lo, int) and isinstance(hi, int) and up and (hi - lo == 3 or (self.exact and 0 < hi - lo <= 16)):
                for i in range(lo, hi):
                    i = LoopInt(i)
                    i.hi = hi if lo == 0 else None
                    env[d] = View(Cell(i))
                    self.body(s["b"], env)
            elif isinstance(lo, int) and isinstance(hi, int) and up and hi <= lo:
                pass
            else:
                if isinstance(lo, int) and lo > 0:
                    raise Unsup("loop that does not start at 0")
                env[d] = View(Cell(Sym("i%d" % (id(s) % 100000), 0, hi if lo == 0 and isinstance(hi, int) else None)))
                self.body(s["b"], env)
                if op in ("<", "!=") and lo == 0 and up:
                    env[d] = View(Cell(hi))
        except Brk:
            pass

    def small(self, b):
        """a table of numbers of a fixed, small size is used: its elements are kept apart"""
        k = id(b)
        if k not in self._small:
            self._small[k] = any(n.get("t") is not None and SMALL.search(n["t"].c or "") for n in walk(b) if isinstance(n, dict) and hasattr(n.get("t"), "c"))
        return self._small[k]

    def x_RangeFor(self, s, env):
        arr = self.val(self.ev(s["range"], env))
        d = s["v"]
        if not isinstance(arr, Arr):
            raise Unsup("range")
        t = d["t"]
        m = SMALL.search(s["range"]["t"].c or "") if s["range"].get("t") is not None else None
        if m and int(m.group(1)) <= 16:
            try:
                for i in range(int(m.group(1))):
                    e = self.index(arr, [i], t)
                    env[d["d"]] = e if d["ref"] else View(Cell(self.val(e), t))
                    self.body(s["b"], env)
            except Brk:
                pass
            return
        e = self.elem(arr, "*", t)
        env[d["d"]] = e if d["ref"] else View(Cell(self.val(e), t))
        try:
            self.body(s["b"], env)
        except Brk:
            pass

    def x_Switch(self, s, env):
        v = self.val(self.ev(s["c"], env))
        body = s["b"]["s"] if s["b"]["k"] == "Compound" else [s["b"]]
        flat = []

        def add(x):
            if x and x["k"] in ("Case", "Default"):
                flat.append(("L", x))
                add(x["b"])
            else:
                flat.append(("S", x))
        for x in body:
            add(x)
        start = None
        for i, (t, x) in enumerate(flat):
            if t == "L" and x["k"] == "Case":
                if self.truth(self.cmp("==", v, x.get("cv"))):
                    start = i
                    break
        if start is None:
            start = next((i for i, (t, x) in enumerate(flat) if t == "L" and x["k"] == "Default"), None)
        if start is None:
            return
        try:
            for t, x in flat[start:]:
                if t == "S":
                    self.ex(x, env)
        except Brk:
            pass

    def x_Break(self, s, env):
        raise Brk()

    def x_Continue(self, s, env):
        raise Cont()

    def x_Return(self, s, env):
        if s.get("e") is None:
            raise Ret(None)
        raise Ret(self.ev(s["e"], env))

    def x_Try(self, s, env):
        raise Unsup("try")

    def x_While(self, s, env):
        r = self.count(dict(s, inc=True), env)
        if r is None:
            raise Unsup("while")
        d, lo, hi, op = r
        if not isinstance(lo, int) or op not in ("<", "!=") or d not in env or not isinstance(env[d], View):
            raise Unsup("while")
        try:
            if isinstance(hi, int) and 0 <= hi - lo <= 16 and (hi - lo == 3 or self.exact or self.small(s["b"])):
                for _ in range(64):
                    if not self.truth(self.ev(s["c"], env)):
                        return
                    self.body(s["b"], env)
                raise Unsup("while")
            if lo != 0:
                raise Unsup("while")
            c = env[d].cell
            c.val = Sym("i%d" % (id(s) % 100000), 0, hi if isinstance(hi, int) else None)
            self.body(s["b"], env)
            if not (isinstance(c.val, Sym) and c.val.off == 1):
                raise Unsup("while")
            c.val = hi
        except Brk:
            pass

    def x_Do(self, s, env):
        raise Unsup("do")

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        if e is None:
            return None
        self.cursite = (id(e), self.chain, e.get("l"))
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsup(e["k"])
        return m(e, env)

    def e_Lit(self, e, env):
        v = e["v"]
        if e["lk"] == "float":
            return S(pconst(float(v)))
        return bool(v) if e["lk"] == "bool" else (v if isinstance(v, int) else v)

    def cst(self, e):
        if "cv" in e:
            return e["cv"]
        if "cvf" in e:
            x = float(e["cvf"])
            return S(pconst(x) if x == x and abs(x) < 1e300 else None)
        return None

    def e_This(self, e, env):
        return env.get("this")

    ATOMS = {"mu0": "mu0", "gamma0": "gamma0", "BOHRS_MUB": "muB", "CHARGE_ELECTRON": "e"}

    def e_Ref(self, e, env):
        dk = e.get("dk")
        if dk == "fn":
            return Clo(e["d"], None, None)
        if dk == "enum":
            return e["cv"]
        if dk == "global":
            if e.get("n") in self.ATOMS:
                return S(atom(self.ATOMS[e["n"]]))
            if e.get("n") in ("a", "eigen_a", "pds", "u", "v", "w"):
                ns = "T" if "Tetra" in e["d"] else "S"
                n = e["n"]
                if n in ("a", "eigen_a"):
                    at = S(atom("a" + ns))
                    return at
        c = self.cst(e)
        if c is not None:
            return c
        if e["d"] in env:
            return env[e["d"]]
        if dk == "global":
            if e["d"] not in self.globals:
                self.globals[e["d"]] = View(Cell(self.default(e["t"], e["n"], e["n"]), e["t"]))
            return self.globals[e["d"]]
        return View(Cell(None, e.get("t")))

    def e_Member(self, e, env):
        c = self.cst(e)
        if e.get("dk") == "static":
            return c
        b = self.val(self.ev(e["b"], env))
        if not isinstance(b, Obj):
            return View(Cell(None, e["t"]))
        return self.field(b, e["d"], e["t"])

    def e_Sub(self, e, env):
        a = self.ev(e["a"], env)
        i = self.val(self.ev(e["b"], env))
        return self.index(a, [i], e["t"])

    def index(self, a, idx, t):
        b = self.val(a)
        if isinstance(b, It):
            b = b.arr
        if isinstance(b, Tab):
            return S(atom("%s[%s]" % (b.label, ",".join(symstr(x) for x in idx))))
        if isinstance(b, Arr) and self.exact:
            if b.init is not None or symstr(idx[0]) in b.e:
                return self.elem(b, symstr(idx[0]), t)
            n = ("%s@%s" if is_class(t) and not dims(t.c) else "%s[%s]") % (b.label, symstr(idx[0]))
            b.e[symstr(idx[0])] = Cell(self.default(t, n, n, None), t)
            return View(b.e[symstr(idx[0])])
        if isinstance(b, Arr):
            k = idx[0] if isinstance(idx[0], int) else ("+%d" % idx[0].off if isinstance(idx[0], Sym) and idx[0].off else "*")
            return self.elem(b, k, t)
        if isinstance(b, Ten) or (isinstance(a, View) and a.cell.t is not None and dims(a.cell.t.c)):
            return self.sub(a, idx)
        return View(Cell(None, t))

    def tshape(self, v):
        """R, C, block sizes of the matrix a view looks at"""
        x = v.cell.val
        d = dims(v.cell.t.c) if v.cell.t is not None else None
        if d:
            return shape(*d)
        if isinstance(x, Ten):
            return x.R, x.C, 1, 1
        return None

    def place(self, x):
        if isinstance(x, View):
            return x
        return View(Cell(x, None))

    def sub(self, a, idx, which=None):
        """element, row or column of a"""
        v = self.place(a)
        if v.rows is not None:
            t = self.vget(v)
            v = View(Cell(t, None)) if not (len(v.rows) == 1 and len(v.cols) == 1) else v
            if v.rows is not None:
                return v
        sh = self.tshape(v)
        if sh is None:
            return View(Cell(None))
        R, C, rs, cs = sh
        x = v.cell.val
        if isinstance(x, Ten) and (x.R, x.C) != (R, C):
            R, C = x.R, x.C
        amb = False
        rows, cols = list(range(R)), list(range(C))

        def pick(i, n, size):
            h = getattr(i, "hi", None)
            if h is not None and h < n * size < 2 * h and (not isinstance(i, Sym) or not i.off):
                self.partial.add((self.cursite[2] if len(self.cursite) > 2 else None, h, n * size))
            if n == 1:
                return [0], False
            if isinstance(i, Sym) and i.name != "?" and size > 1:
                return ([i.off // size], False) if i.off // size < n else (None, True)
            if isinstance(i, int) and 0 <= i // size < n:
                return [i // size], False
            return list(range(n)), True
        if which == "col":
            cols, amb = pick(idx[0], C, cs)
        elif which == "row":
            rows, amb = pick(idx[0], R, rs)
        elif len(idx) == 2:
            rows, a1 = pick(idx[0], R, rs)
            cols, a2 = pick(idx[1], C, cs)
            amb = a1 or a2
        elif len(idx) == 1:
            if R > 1 and C == 1:
                rows, amb = pick(idx[0], R, rs)
            elif C > 1 and R == 1:
                cols, amb = pick(idx[0], C, cs)
            elif R * C > 1:
                amb = True
        if rows is None or cols is None:
            return View(Cell(None))
        return View(v.cell, rows, cols, v.diag, amb)

    def e_Lambda(self, e, env):
        ne = {}
        for c in e["caps"]:
            if c.get("this"):
                ne["this"] = env.get("this")
            elif "init" in c:
                ne[c["d"]] = self.place(self.ev(c["init"], env))
            elif c["d"] in env:
                ne[c["d"]] = env[c["d"]]
        return Clo(e["fn"], ne, env.get("this"))

    def e_Bin(self, e, env):
        op = e["op"]
        if op == "&&":
            return self.truth(self.ev(e["a"], env)) and self.truth(self.ev(e["b"], env))
        if op == "||":
            return self.truth(self.ev(e["a"], env)) or self.truth(self.ev(e["b"], env))
        if op == ",":
            self.ev(e["a"], env)
            return self.ev(e["b"], env)
        if e.get("t") is not None and e["t"].b == "int":
            c = self.cst(e)
            if c is not None:
                return c
        a, b = self.ev(e["a"], env), self.ev(e["b"], env)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b)
        return self.num(op, a, b)

    def key(self, e):
        return (e.get("l"), self.chain)

    def e_Assign(self, e, env):
        b = self.val(self.ev(e["b"], env))
        a = self.place(self.ev(e["a"], env))
        op = e["op"]
        if op == "=":
            r = strip(e["b"])
            if r["k"] == "Bin" and r["op"] in ("+", "-"):
                for x, y in ((r["a"], r["b"]), (r["b"], r["a"])):
                    if self.text(x) is not None and self.text(x) == self.text(e["a"]) and not (r["op"] == "-" and x is r["b"]):
                        self.vset(a, self.tn(self.ev(y, env), a), r["op"] + "=", self.key(e))
                        return a
        self.vset(a, self.tn(b, a), op, self.key(e))
        return a

    def tn(self, x, a):
        x = self.val(x)
        if isinstance(x, (int, float)) and not isinstance(x, bool) and (isinstance(a.cell.val, Ten) or (a.cell.t is not None and a.cell.t.b == "double")):
            return S(pconst(x))
        return x

    def text(self, n):
        """a variable or a member of one, as text"""
        n = strip(n)
        while n["k"] == "Cast":
            n = strip(n["e"])
        if n["k"] == "Ref":
            return n.get("d")
        if n["k"] == "Member":
            b = self.text(n["b"])
            return None if b is None else b + "." + n["d"]
        if n["k"] == "This":
            return "this"
        if n["k"] == "Lit":
            return str(n["v"])
        if n["k"] == "Sub":
            a, b = self.text(n["a"]), self.text(n["b"])
            return None if a is None or b is None else "%s[%s]" % (a, b)
        if n["k"] == "Call" and n.get("obj") is not None:
            a = [self.text(n["obj"])] + [self.text(x) for x in n.get("args", [])]
            return None if None in a else "%s(%s)" % (n.get("fn"), ",".join(a))
        return None

    def e_Un(self, e, env):
        op = e["op"]
        if op in ("++", "--", "post++", "post--"):
            v = self.place(self.ev(e["e"], env))
            o = self.val(v)
            v.cell.val = self.num("+" if "+" in op else "-", o, 1)
            return o if op.startswith("post") else v
        x = self.ev(e["e"], env)
        if op == "*":
            x = self.val(x)
            if isinstance(x, It):
                return self.elem(x.arr, "*", e["t"])
            return x
        if op == "&":
            return x
        x = self.val(x)
        if op == "-":
            return -x if isinstance(x, (int, float)) and not isinstance(x, bool) else self.num("*", S(pconst(-1)), x)
        if op == "!":
            if isinstance(x, Cond):
                return Cond(x.key, not x.pos)
            return not self.truth(x)
        if op == "+":
            return x
        return None

    def e_Cond(self, e, env):
        return self.ev(e["a"], env) if self.truth(self.ev(e["c"], env)) else self.ev(e["b"], env)

    def e_Cast(self, e, env):
        ck = e.get("ck")
        x = self.ev(e["e"], env)
        if ck in ("IntegralToFloating", "FloatingCast"):
            v = self.val(x)
            return S(pconst(v)) if isinstance(v, (int, float)) else v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.val(x)
            return v if isinstance(v, (bool, Cond)) else (bool(v) if isinstance(v, (int, float)) else self.cmp("!=", v, 0))
        if ck in ("FloatingToIntegral",):
            v = self.val(x)
            return Sym("?") if not isinstance(v, int) else v
        return x

    def e_InitList(self, e, env):
        a = [self.val(self.ev(x, env)) for x in e["args"]]
        t = e["t"]
        d = dims(t.c) if t is not None and (t.rec or "").startswith("Eigen::") else None
        if d or (t is not None and (t.rec or "").startswith("Eigen::")):
            return self.fromlist(a, t)
        if len(a) == 1 and not is_class(t) and not t.arr:
            return a[0]
        r = Arr("#init", None)
        for i, x in enumerate(a):
            r.e[i] = Cell(x, None)
        rec = self.prog.records.get(t.recid) if t is not None and t.recid else None
        if rec and rec.get("fields") and t.rec != "std::array":
            o = Obj("#init", t.rec)
            for i, x in enumerate(a):
                if i < len(rec["fields"]):
                    o.f[rec["fields"][i]["d"]] = Cell(x, rec["fields"][i]["t"])
            return o
        return r

    def fromlist(self, a, t):
        if len(a) == 3 and all(isinstance(x, (Ten, int, float)) for x in a) and dims(t.c) and dims(t.c)[0] == 3:
            ts = [self.ten(x) for x in a]
            return Ten(3, 1, [x.e[0] if x.R * x.C == 1 else None for x in ts])
        if all(isinstance(x, int) for x in a):
            return tuple(a)
        return S(None)

    def e_New(self, e, env):
        raise Unsup("new")

    def e_Delete(self, e, env):
        pass

    def e_Throw(self, e, env):
        raise Stop()

    def e_ArrayCopy(self, e, env):
        return self.ev(e["e"], env)

    def e_Other(self, e, env):
        return self.cst(e)

    def e_Construct(self, e, env):
        args = e.get("args", [])
        t = e["t"]
        cls = e.get("cls", "") or ""
        if cls == "Eigen::Ref" and args:
            return self.ev(args[0], env)
        if cls.startswith("std::function") and args:
            return self.ev(args[0], env)
        if e.get("copy") and args:
            x = self.val(self.ev(args[0], env))
            return Ten(x.R, x.C, x.e) if isinstance(x, Ten) else x
        if cls == "Eigen::Matrix" or cls == "Eigen::Array":
            a = [self.val(self.ev(x, env)) for x in args]
            if not a:
                d = dims(t.c)
                if d:
                    R, C, _, _ = shape(*d)
                    return Ten(R, C, [None] * (R * C))
                return None
            if len(a) == 1:
                d = dims(t.c)
                if isinstance(a[0], Tab):
                    return a[0]
                if isinstance(a[0], Ten) and d:
                    R, C, _, _ = shape(*d)
                    return self.conform(a[0], R, C)
                return a[0]
            return self.fromlist(a, t)
        if cls == "Eigen::PermutationMatrix":
            return Obj("perm", cls)
        if cls in ("std::vector", "std::array"):
            a = [self.val(self.ev(x, env)) for x in args]
            r = Arr("#vec", None)
            if len(a) == 1 and isinstance(a[0], Arr):
                return a[0]
            nums = [x for x in a[1:2] if isinstance(x, (Ten, int, float))]
            if nums:
                r.init = self.ten(nums[0])
            elif len(a) <= 2:
                r.init = S(pconst(0)) if "double" in t.c and "Eigen" not in t.c and a else None
            return r
        fn = self.prog.fns.get(e.get("fn"))
        if fn is not None and fn.repo and fn.body is not None and fn.ctor:
            o = Obj("#obj", cls)
            a = [self.ev(x, env) for x in args]
            self.inline(fn, o, a, e)
            return o
        a = [self.val(self.ev(x, env)) for x in args]
        if "Point" in cls and len(a) == 3 and all(isinstance(x, (Ten, int, float)) for x in a):
            ts = [self.ten(x) for x in a]
            return Ten(3, 1, [x.e[0] if len(x.e) == 1 else None for x in ts])
        return Obj("#" + cls, cls)

    # ---------------------------------------------------------- calls
    def e_Call(self, e, env):
        fn = self.prog.fns.get(e.get("fn")) if e.get("fn") else None
        name = fn.name if fn else "?"
        sn = name.rsplit("::", 1)[-1]
        op = e.get("op")
        obj = self.ev(e["obj"], env) if e.get("obj") is not None else None
        nodes = e.get("args", [])
        if op == "<<" and obj is not None and "basic_ostream" in name:
            return obj
        args = [self.ev(a, env) for a in nodes]
        key = fn.name if fn else None
        if key in self.stubs:
            r = self.stubs[key](self, obj, args, e)
            if r is not NotImplemented:
                return r
        self.called.add(name)
        # function objects
        if e.get("ce") is not None or op == "()":
            c = self.val(self.ev(e["ce"], env)) if e.get("ce") is not None else self.val(obj)
            if e.get("ce") is not None and obj is not None and isinstance(self.val(obj), (Clo, Fun)):
                c = self.val(obj)
            if isinstance(c, (Clo, Fun)):
                return self.apply(c, args, e)
        if fn is not None and fn.noreturn:
            raise Stop()
        if fn is not None and fn.repo and fn.body is not None:
            o = self.val(obj) if obj is not None else None
            targets = [fn]
            return self.inline(fn, o, args, e)
        if op is None and sn.startswith("operator") and sn[8:] in ("=", "+=", "-=", "*=", "/="):
            op = sn[8:]
        eig = "Eigen::" in name.split("(")[0] and not name.startswith("std::")
        if eig:
            return self.eigen(name, sn, op, obj, args, e, env)
        return self.library(name, sn, op, obj, args, e, env, fn)

    def apply(self, c, args, e):
        if isinstance(c, Fun):
            if c.name in self.stubs:
                return self.stubs[c.name](self, None, args, e)
            t = e.get("t")
            if t is not None and t.s.strip() == "void":
                for a in args:
                    if isinstance(a, View) and isinstance(a.cell.val, Ten):
                        x = a.cell.val
                        self.vset(a, Ten(x.R, x.C, [F(atom("%s_%d" % (c.name, i) if x.R * x.C > 1 else c.name)) for i in range(x.R * x.C)]), "+=", (c.name,))
                return None
            return self.default(t, c.name, c.name)
        fn = self.prog.fns.get(c.fn)
        if fn is None or fn.body is None:
            return None
        return self.inline(fn, self.val(c.this) if c.this is not None else (self.val(args[0]) if False else None), args, e, env0=c.env)

    def inline(self, fn, obj, args, e, env0=None):
        if self.depth > 30:
            raise Unsup("depth")
        env = dict(env0) if env0 else {}
        if obj is not None and "this" not in env:
            env["this"] = View(Cell(obj)) if not isinstance(obj, View) else obj
        for i, p in enumerate(fn.params):
            if i >= len(args):
                continue
            a = args[i]
            t = p["t"]
            if p["ref"] or t.rec == "Eigen::Ref":
                env[p["d"]] = a if isinstance(a, View) else View(Cell(a, t))
            else:
                x = self.val(a)
                if isinstance(x, Ten):
                    x = Ten(x.R, x.C, x.e)
                if isinstance(x, (int, float)) and not isinstance(x, bool) and t.b == "double":
                    x = S(pconst(x))
                env[p["d"]] = View(Cell(x, t))
        oc = self.chain
        self.chain = oc + (e.get("l"),)
        self.depth += 1
        try:
            if fn.ctor:
                for i in fn.inits:
                    if i.get("f"):
                        x = self.val(self.ev(i["e"], env))
                        obj.f[i["f"]] = Cell(x, None)
                    else:
                        self.ev(i["e"], env)
            self.ex(fn.body, env)
        except Ret as r:
            x = r.v
            if fn.ret is not None and not fn.ret.ref:
                x = self.val(x)
                if isinstance(x, int) and not isinstance(x, bool) and fn.ret.b == "double":
                    x = S(pconst(x))
            return x
        finally:
            self.chain = oc
            self.depth -= 1
        return None

    SAME = {"noalias", "array", "matrix", "derived", "eval", "real", "const_cast_derived", "finished", "replicate", "toDenseMatrix", "colwise", "rowwise"}

    def eigen(self, name, sn, op, obj, args, e, env):
        if op in ("=", "+=", "-=", "*=", "/=") and obj is not None:
            v = self.place(obj)
            x = self.val(args[0])
            if isinstance(v.cell.val, Obj) and v.cell.val.cls == "Eigen::PermutationMatrix":
                v.cell.val.f["idx"] = Cell(x)
                return v
            self.vset(v, self.tn(x, v) if not isinstance(x, (int, float)) else S(pconst(x)), op, self.key(e))
            return v
        if op in ("+", "-", "*", "/"):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 1:
                return self.num("*", S(pconst(-1)), ops[0]) if op == "-" else self.val(ops[0])
            a, b = self.val(ops[0]), self.val(ops[1])
            if op == "*":
                if isinstance(a, Obj) and a.cls == "Eigen::PermutationMatrix":
                    return self.permute(a, b)
                if isinstance(b, Obj) and b.cls == "Eigen::PermutationMatrix":
                    return S(None)
                aw = "ArrayWrapper" in name or "ArrayBase" in name
                sc = [isinstance(x, (int, float)) or (strip(n).get("t") is not None and strip(n)["t"].b in ("double", "int")) for x, n in
                      zip((a, b), ([e["obj"]] if obj is not None else []) + e["args"])]
                if any(sc) or aw:
                    return self.map2(a, b, pmul)
                return self.matmul(a, b)
            return self.num(op, a, b)
        if op == "<<" and args:
            v = self.place(obj)
            x = self.val(args[0])
            if isinstance(x, Ten) and x.R * x.C > 1:
                self.vset(v, x)
            else:
                self.vset(v, S(None))
            return v
        if op == ",":
            return obj
        x = self.val(obj)
        if isinstance(x, Tab) and sn in ("operator()", "operator[]", "coeff"):
            return self.index(x, [self.val(a) for a in args], e["t"])
        if isinstance(x, Tab):
            if sn == "col":
                return vec([atom("%s[%d,%s]" % (x.label, i, symstr(self.val(args[0])))) for i in range(3)])
            return S(None) if sn not in self.SAME else x
        if sn in ("setZero", "setConstant", "setOnes", "fill"):
            v = self.place(obj)
            val = S({}) if sn == "setZero" else S(pconst(1)) if sn == "setOnes" else self.ten(args[0])
            if v.rows is None:
                sh = self.tshape(v)
                if sh:
                    v.cell.val = Ten(sh[0], sh[1], [val.e[0]] * (sh[0] * sh[1]))
            else:
                self.vset(v, val)
            return v
        if sn == "Zero" or sn == "Ones" or sn == "Constant":
            d = dims(name)
            R, C, _, _ = shape(*d) if d else (1, 1, 1, 1)
            return Ten(R, C, [F({}) if sn == "Zero" else F(pconst(1)) if sn == "Ones" else self.ten(args[-1]).e[0]] * (R * C))
        if sn in ("operator()", "operator[]", "coeff", "coeffRef") and args:
            return self.sub(obj, [self.val(a) for a in args])
        if sn in ("x", "y", "z") and not args:
            return self.sub(obj, ["xyz".index(sn)])
        if sn in ("col", "row") and args:
            return self.sub(obj, [self.val(args[0])], sn)
        if sn == "block" and args:
            return self.block(obj, args, e, env)
        if sn == "diagonal":
            v = self.place(obj)
            if v.rows is None:
                R, C = (v.cell.val.R, v.cell.val.C) if isinstance(v.cell.val, Ten) else (self.tshape(v) or (1, 1))[:2]
                return View(v.cell, list(range(R)), list(range(C)), True)
            return View(v.cell, v.rows, v.cols, True, v.amb)
        if sn == "indices":
            if isinstance(x, Obj):
                if "idx" not in x.f:
                    x.f["idx"] = Cell(None)
                return View(x.f["idx"])
            return None
        if sn in ("colwise", "rowwise", "replicate") or sn in self.SAME:
            if isinstance(obj, View) and sn in ("noalias", "derived", "colwise", "rowwise", "array", "matrix"):
                return View(obj.cell, obj.rows, obj.cols, obj.diag, obj.amb)
            if isinstance(x, Ten):
                return Ten(x.R, x.C, x.e)
            return x
        if sn == "transpose":
            return self.transpose(x) if isinstance(x, Ten) else S(None)
        if sn == "reshaped":
            if isinstance(x, Ten) and (x.R == 1 or "order" in name or "reshaped" in name):
                # row-major order keeps the rows of a DIM x N matrix as blocks
                fid = e.get("fn") or ""
                rowmajor = "VI1" in fid.rsplit("reshaped", 1)[-1]
                if x.R * x.C > 1 and not rowmajor:
                    return Ten(x.R, x.C, [F(pmul(f.total(), atom("interleaved"))) if f is not None else None for f in x.e])
                return Ten(x.R, x.C, x.e)
            return x
        if sn == "asDiagonal":
            return self.map2(x, S(atom("δ")), pmul)
        if sn in ("cwiseProduct",):
            return self.map2(x, args[0], pmul)
        if sn in ("cwiseQuotient",):
            return self.num("/", x, args[0])
        if sn in ("square", "cwiseAbs2", "abs2"):
            return self.map2(x, x, pmul)
        if sn == "squaredNorm":
            return self.dot(x, x)
        if sn == "dot":
            return self.dot(x, args[0])
        if sn == "sum":
            t = self.ten(x)
            s = {}
            for f in t.e:
                if f is None:
                    return S(None)
                s = padd(s, f.total())
            return S(s)
        if sn == "cross" and isinstance(x, Ten):
            y = self.val(args[0])
            if isinstance(y, Ten) and x.R * x.C == 3 and y.R * y.C == 3 and None not in x.e and None not in y.e:
                a, b = [f.total() for f in x.e], [f.total() for f in y.e]
                return vec([padd(pmul(a[(i + 1) % 3], b[(i + 2) % 3]), pmul(a[(i + 2) % 3], b[(i + 1) % 3]), -1.0) for i in range(3)])
            return vec([None] * 3)
        if sn == "unaryExpr" and isinstance(x, Ten) and isinstance(self.val(args[0]), Clo):
            out = []
            for f in x.e:
                r = self.apply(self.val(args[0]), [Ten(1, 1, [f])], e) if f is not None else None
                r = self.val(r)
                out.append(r.e[0] if isinstance(r, Ten) else None)
            return Ten(x.R, x.C, out)
        if sn in ("norm", "stableNorm", "determinant", "trace", "maxCoeff", "minCoeff"):
            t = self.ten(x)
            if None in t.e:
                return S(None)
            return S(atom("%s(%s)" % (sn, ";".join(pstr(f.total()) for f in t.e))))
        if sn == "normalize":
            v = self.place(obj)
            t = self.ten(x)
            if v.rows is None and None not in t.e and t.C == 1:
                n = pinv(atom("norm(%s)" % ";".join(pstr(f.total()) for f in t.e)))
                v.cell.val = Ten(t.R, t.C, [F(pmul(f.total(), n)) for f in t.e])
            elif v.rows is None:
                v.cell.val = Ten(t.R, t.C, [None] * len(t.e))
            else:
                self.vset(v, S(None))
            return v
        if sn == "normalized":
            t = self.ten(x)
            if None in t.e:
                return Ten(t.R, t.C, [None] * len(t.e))
            n = pinv(atom("norm(%s)" % ";".join(pstr(f.total()) for f in t.e)))
            return Ten(t.R, t.C, [F(pmul(f.total(), n)) for f in t.e])
        if isinstance(x, Ten):
            return Ten(x.R, x.C, [None] * len(x.e))
        return S(None)

    def permute(self, p, m):
        idx = p.f["idx"].val if "idx" in p.f else None
        if not isinstance(idx, tuple) or not isinstance(m, Ten) or len(idx) % m.R:
            return Ten(m.R, m.C, [None] * len(m.e)) if isinstance(m, Ten) else S(None)
        n = len(idx) // m.R
        out = [None] * len(m.e)
        for b in range(m.R):
            blk = {idx[b * n + j] // n for j in range(n)}
            if len(blk) != 1 or [idx[b * n + j] % n for j in range(n)] != list(range(n)):
                return Ten(m.R, m.C, [F(atom("shuffled%d" % i)) for i in range(len(m.e))])
            d = blk.pop()
            if d >= m.R:
                return S(None)
            for c in range(m.C):
                out[d * m.C + c] = m.at(b, c)
        return Ten(m.R, m.C, out)

    def block(self, obj, args, e, env):
        v = self.place(obj)
        m = FIX.search(e["t"].s) or FIX.search(e["t"].c)
        a = [self.val(x) for x in args]
        sh = self.tshape(v)
        if sh is None or v.rows is not None or len(a) < 2 or not all(isinstance(x, int) for x in a[:2]):
            return View(Cell(None))
        R, C, rs, cs = sh
        nr, nc = (int(m.group(1)), int(m.group(2))) if m else (a[2], a[3]) if len(a) == 4 and all(isinstance(x, int) for x in a) else (rs, cs)
        rows = list(range(a[0] // rs, max((a[0] + nr) // rs, a[0] // rs + 1)))
        cols = list(range(a[1] // cs, max((a[1] + nc) // cs, a[1] // cs + 1)))
        if max(rows) >= R or max(cols) >= C or a[0] % rs or a[1] % cs:
            return View(Cell(None))
        return View(v.cell, rows, cols)

    MATH = {"sqrt", "log", "exp", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "fabs", "abs", "min", "max", "fmin", "fmax", "hypot"}

    def library(self, name, sn, op, obj, args, e, env, fn):
        x = self.val(obj) if obj is not None else None
        if sn in ("operator[]", "at") and isinstance(x, Arr):
            return self.index(x, [self.val(args[0])], e["t"])
        if sn in ("begin", "cbegin", "data", "end", "cend") and isinstance(x, Arr):
            return It(x)
        if sn == "size":
            return Sym("size(%s)" % x.label if isinstance(x, Arr) else "size")
        if op == "=" and obj is not None:
            v = self.place(obj)
            v.cell.val = self.val(args[0])
            return v
        vals = [self.val(a) for a in args]
        if sn in ("fill", "assign") and isinstance(x, Arr) and vals:
            x.e = {}
            x.init = self.ten(vals[-1])
            return None
        if sn in ("fill", "fill_n") and vals and isinstance(vals[0], (It, Arr)):
            a = vals[0].arr if isinstance(vals[0], It) else vals[0]
            a.e = {}
            a.init = self.ten(vals[-1])
            return None
        its = [v for v in vals if isinstance(v, It)]
        clos = [v for v in vals if isinstance(v, (Clo, Fun))]
        if sn == "for_each" and its and clos:
            f = self.prog.fns.get(clos[-1].fn)
            p = f.params[0] if f is not None and f.params else None
            el = self.elem(its[0].arr, "*", p["t"] if p else None)
            self.apply(clos[-1], [el], e)
            return None
        if sn in ("transform_reduce", "reduce", "accumulate") and its:
            arr = its[0].arr
            k = [i for i, v in enumerate(vals) if v is its[1]][0] if len(its) > 1 else 0
            rest = vals[k + 1:]
            init = rest[0] if rest and not isinstance(rest[0], (Clo, Fun)) else S({})
            if sn == "transform_reduce" and clos:
                f = self.prog.fns.get(clos[-1].fn)
                el = self.elem(arr, "*", f.params[0]["t"])
                r = self.apply(clos[-1], [el], e)
                return self.num("+", init, self.val(r))
            s = self.ten(init)
            if sn in ("reduce", "accumulate") and not clos:
                n = re.search(r"array<[^,]*, (\d+)>", "")
                ks = [kk for kk in arr.e if isinstance(kk, int)]
                for kk in sorted(ks):
                    s = self.num("+", s, arr.e[kk].val)
                self.reduced = getattr(self, "reduced", [])
                self.reduced.append((arr.label, tuple(sorted(ks))))
                return s
            return S(None)
        if sn in self.MATH or sn == "pow":
            t = [self.ten(v) for v in vals]
            if any(len(y.e) != 1 or y.e[0] is None for y in t):
                return S(None)
            if sn == "pow":
                ex = t[1].e[0].total()
                n = ex.get((), 0.0) if set(ex) <= {()} else None
                if n is not None and n == int(n) and 0 <= n <= 8:
                    r = pconst(1)
                    for _ in range(int(n)):
                        r = pmul(r, t[0].e[0].total())
                    return S(r)
            if sn in ("min", "fmin", "max", "fmax") and len(t) == 2:
                a, b = t
                return a if self.truth(self.cmp("<" if "min" in sn else ">", a, b)) else b
            return S(atom("%s(%s)" % (sn, ";".join(pstr(y.e[0].total()) for y in t))))
        if sn in ("isfinite", "isnan", "isinf"):
            t = self.ten(vals[0])
            k = ";".join(pstr(f.total()) if f is not None else "?" for f in t.e)
            return Cond((sn, k), True)
        if sn in ("move", "forward", "ref", "cref", "as_const") and args:
            return args[0]
        if sn in ("lock", "unlock", "push_back", "resize", "clear", "reserve"):
            return None
        if fn is not None:
            for i, a in enumerate(args):
                pt = fn.params[i]["t"] if i < len(fn.params) else None
                if pt is not None and pt.ref and not pt.const and isinstance(a, View):
                    a.cell.val = None
        t = e.get("t")
        if t is not None and t.b in ("double",):
            return S(None)
        if t is not None and (t.b in ("int", "bool")):
            return Sym("call%d" % (id(e) % 100000))
        return None
