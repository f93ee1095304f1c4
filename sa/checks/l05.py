"""L05: a solve reported as converged satisfies the system it was given.

Affine-relation domain over the vectors of the iterative solvers: every vector is a linear combination of opaque vectors, with the matrix A and the
mask M as formal linear operators.  At joins the relation  w = M (rhs - A x)  is kept for the vectors that satisfy it on both sides.  On every exit
after a passed convergence test, the tested vector must be the residual of the x that is returned."""
import re
from fractions import Fraction
from sa.interp import Engine, V, NOC, Domain, State, gen, strip
from sa.lib import loc

LIN = (".", "#lin")


def poly_key(p):
    return frozenset((m, c) for m, c in p.items() if c != 0)


def cancel(m):
    """x * 1/x = 1 inside a monomial"""
    m = list(m)
    for x in list(m):
        if isinstance(x, tuple) and x[:1] == ("inv",) and x[1] in m and x in m:
            m.remove(x)
            m.remove(x[1])
    return tuple(sorted(m, key=str))


class Sc(Domain):
    """scalar polynomials over value numbers"""
    name = "sc"

    @staticmethod
    def poly(v):
        if v.c is not NOC and isinstance(v.c, (int, float)) and not isinstance(v.c, bool):
            try:
                return {(): Fraction(v.c)}
            except Exception:
                return {(("c", v.c),): Fraction(1)}
        if "sc" in v.f:
            return dict(v.f["sc"])
        return {(v.sym,): Fraction(1)}

    def bin(self, eng, op, a, b, node, S):
        o = op.rstrip("=") if op in ("+=", "-=", "*=", "/=") else op
        if o not in ("+", "-", "*", "/"):
            return None
        x, y = self.poly(a), self.poly(b)
        r = {}
        if o in ("+", "-"):
            for m, c in x.items():
                r[m] = r.get(m, 0) + c
            for m, c in y.items():
                r[m] = r.get(m, 0) + (c if o == "+" else -c)
        else:
            if o == "/":
                if len(y) == 1 and () in y and y[()] != 0:
                    y = {(): 1 / y[()]}
                elif len(y) == 1 and list(y.values())[0] != 0:
                    (m0, c0), = y.items()
                    y = {tuple(sorted((x[1] if isinstance(x, tuple) and x[:1] == ("inv",) and not isinstance(x[1], frozenset) else ("inv", x) for x in m0), key=str)): 1 / c0}
                else:
                    y = {(("inv", poly_key(y)),): Fraction(1)}
            for m, c in x.items():
                for n, d in y.items():
                    k = cancel(m + n)
                    r[k] = r.get(k, 0) + c * d
        if len(r) > 12 or any(len(m) > 12 for m in r):
            return None
        return poly_key(r)

    def un(self, eng, op, a, node, S):
        if op == "-":
            return poly_key({m: -c for m, c in self.poly(a).items()})
        if op == "+":
            return a.f.get("sc")
        return None

    def cast(self, eng, a, node):
        return a.f.get("sc")

    def join(self, a, b):
        return None


def fadd(f, g, k=None):
    """f + k g, with k a polynomial"""
    r = {t: dict(p) for t, p in f}
    for t, p in g:
        q = r.setdefault(t, {})
        for m, c in p:
            for n, d in (k.items() if k is not None else (((), Fraction(1)),)):
                mm = tuple(sorted(m + n, key=str))
                q[mm] = q.get(mm, 0) + c * d
    return freeze(r)


def freeze(r):
    out = []
    for t, p in r.items():
        q = poly_key(p)
        if q:
            out.append((t, q))
    return frozenset(out)


def atom(base, ops=()):
    return frozenset([((ops, base), frozenset([((), Fraction(1))]))])


def apply(op, f):
    r = {}
    for (ops, base), p in f:
        o = ops if ops[:1] == (op,) and op[0] == "M" else (op,) + ops
        q = r.setdefault((o, base), {})
        for m, c in p:
            q[m] = q.get(m, 0) + c
    return freeze(r)


def masked(f):
    return all(ops[:1] and ops[0][0] == "M" for (ops, _), _ in f)


def unknown(f):
    return any(base[0] == "?" for (_, base), _ in f)


NEG1 = {(): Fraction(-1)}


class Eng(Engine):
    def __init__(self, prog, ctx, fn):
        Engine.__init__(self, prog, [Sc()])
        self.ctx, self.fn = ctx, fn
        vec, self.mask, self.x = [], None, None
        for i, p in enumerate(fn.params):
            t = p["t"]
            root = (("p", fn.name, i, p["n"]),)
            if re.search(r"vector<int", t.c):
                self.mask = root
            elif re.search(r"vector<(double|float)", t.c):
                if t.const:
                    vec.append(root)
                else:
                    self.x = root
        self.rhs = vec[0] if vec else None
        self.xd = vec[1] if len(vec) > 1 else None
        self.n = 0
        self.exits = 0

    # ---- forms
    def form(self, p, S):
        v = S.get(p + (LIN,))
        if v is None:
            f = atom(("in", p))
            S.put(p + (LIN,), V(("lin",), f={"lin": f}))
            return f
        return v.f["lin"]

    def setf(self, p, f, S, node=None, fr=None):
        if p == self.x and self.mask:
            d = fadd(f, self.form(p, S), NEG1)
            if self.xd and d == atom(("in", self.xd)):
                pass
            elif not unknown(d) and not masked(d):
                self.ctx.violation("imposed|%s" % self.sig(), "%s in %s" % (loc(node) if node else "?", self.fn.name), "an update of the unknowns changes components whose value is imposed")
            elif d:
                self.ctx.ok("updates that leave imposed components alone", "%s in %s" % (loc(node) if node else "?", self.sig()))
        S.put(p + (LIN,), V(("lin",), f={"lin": f}))

    def sig(self):
        return "%s(%d)" % (self.fn.name, len(self.fn.params))

    def fresh_vec(self, node, fr, tag="n"):
        return atom((tag, id(node), fr.fid))

    def resid(self, xf):
        b = atom(("in", self.rhs))
        r = fadd(b, apply(("A",), xf), NEG1)
        if self.mask:
            r = apply(("M", self.mask), r)
        return r

    def effective_rhs(self):
        b = atom(("in", self.rhs))
        if self.xd:
            b = fadd(b, apply(("A",), atom(("in", self.xd))), NEG1)
        if self.mask:
            b = apply(("M", self.mask), b)
        return b

    def vecpath(self, a):
        t = strip(a.node).get("t") if a.node is not None else None
        if t is not None and re.search(r"vector<(double|float)", t.c) and a.p and len(a.p) == 1:
            return a.p[0]
        return None

    # ---- calls
    def on_call(self, name, fn, obj, args, node, S, fr):
        sn = name.rsplit("::", 1)[-1].split("<")[0]
        vp = [self.vecpath(a) for a in args]
        void = [(V(("void",)), S)]
        if name.startswith("algebra::") and obj is None:
            if sn == "mult" and len(args) == 3 and vp[1] and vp[2]:
                self.setf(vp[2], apply(("A",), self.form(vp[1], S)), S, node, fr)
                return void
            if sn in ("add", "sub") and len(args) == 2 and vp[0] and vp[1]:
                self.setf(vp[1], fadd(self.form(vp[1], S), self.form(vp[0], S), None if sn == "add" else NEG1), S, node, fr)
                return void
            if sn == "scaled" and len(args) == 2 and vp[1]:
                self.setf(vp[1], fadd(frozenset(), self.form(vp[1], S), Sc.poly(args[0].v)), S, node, fr)
                return void
            if sn == "scaled_add" and len(args) == 3 and vp[0] and vp[2]:
                self.setf(vp[2], fadd(self.form(vp[2], S), self.form(vp[0], S), Sc.poly(args[1].v)), S, node, fr)
                return void
            if sn == "p_direct" and len(args) == 3 and vp[2]:
                m = any(p and self.form(p, S) and masked(self.form(p, S)) for p in vp[:2])
                self.n += 1
                a = ("had", id(node), fr.fid)
                self.setf(vp[2], atom(a, (("M", self.mask),) if m and self.mask else ()), S, node, fr)
                return void
            if sn == "applyMask" and len(args) == 2 and vp[1] and args[0].p:
                if self.mask and args[0].p[0] != self.mask:
                    return void
                self.setf(vp[1], apply(("M", self.mask), self.form(vp[1], S)), S, node, fr)
                return void
            if sn == "norm" and len(args) == 1 and vp[0]:
                return [(V(self.fresh(node, fr), f={"nv": self.form(vp[0], S)}), S)]
            if sn == "dot" and len(args) == 2:
                return [(V(self.fresh(node, fr)), S)]
        if obj is not None and obj.p and "SparseMatrix" in (fn.clsn if fn is not None and fn.clsn else ""):
            if sn == "mult" and len(args) == 2 and vp[0] and vp[1]:
                self.setf(vp[1], apply(("A",), self.form(vp[0], S)), S, node, fr)
                return void
            if sn == "build_diag_precond" and vp and vp[0]:
                self.setf(vp[0], atom(("diag", 0)), S, node, fr)
                return void
        if fn is not None and "iteration" in (fn.clsn or ""):
            if sn == "set_rhsnorm":
                f = args[0].v.f.get("nv")
                if f is not None and not unknown(f):
                    if f != self.effective_rhs():
                        self.ctx.violation("norm|%s" % self.sig(), "%s in %s" % (loc(node), self.fn.name), "the reference of the convergence test is not the norm of the right-hand side of the system")
                    else:
                        self.ctx.ok("convergence test relative to the right-hand side", self.sig())
            if sn == "finished" and args:
                f = args[0].v.f.get("nv")
                S2 = S.copy()
                S.facts["conv"] = f if f is not None else atom(("?", "norm"))
                S2.facts.pop("conv", None)
                return [(V(("c", "bool", True), True), S), (V(("c", "bool", False), False), S2)]
        if obj is not None and obj.p and len(obj.p) == 1 and name.startswith("std::vector"):
            t = strip(obj.node).get("t") if obj.node is not None else None
            if t is not None and re.search(r"vector<(double|float)", t.c):
                p = obj.p[0]
                if sn == "assign":
                    src = args[0].v.ptr
                    if src and len(src) == 1:
                        self.setf(p, self.form(src[0][:-1], S), S, node, fr)
                    elif args[-1].v.c == 0 and args[-1].v.c is not NOC:
                        self.setf(p, frozenset(), S, node, fr)
                    else:
                        self.setf(p, atom(("?", id(node))), S, node, fr)
                    return void
                if sn == "swap" and vp and vp[0]:
                    a, b = self.form(p, S), self.form(vp[0], S)
                    self.setf(p, b, S, node, fr)
                    self.setf(vp[0], a, S, node, fr)
                    return void
        if name in ("std::swap",) and len(vp) == 2 and vp[0] and vp[1]:
            a, b = self.form(vp[0], S), self.form(vp[1], S)
            self.setf(vp[0], b, S, node, fr)
            self.setf(vp[1], a, S, node, fr)
            return void
        if name in ("std::copy", "std::fill", "std::transform", "std::for_each") and args:
            its = [a for a in args if a.v.ptr]
            if name == "std::copy" and len(its) == 3:
                self.setf(its[2].v.ptr[0][:-1], self.form(its[0].v.ptr[0][:-1], S), S, node, fr)
                return void
            if name == "std::fill" and its:
                self.setf(its[0].v.ptr[0][:-1], frozenset() if args[-1].v.c == 0 and args[-1].v.c is not NOC else atom(("?", id(node))), S, node, fr)
                return void
            for a in its:
                for p in a.v.ptr:
                    S.put(p[:-1] + (LIN,), V(("lin",), f={"lin": atom(("?", id(node)))}))
        return None

    def on_construct(self, cls, p, args, e, S, fr):
        if cls == "std::vector" and e.get("t") is not None and re.search(r"vector<(double|float)", e["t"].c):
            if len(args) >= 2 and args[0].v.ptr:
                S.put(p + (LIN,), V(("lin",), f={"lin": self.form(args[0].v.ptr[0][:-1], S)}))
                return
            val = [a for a in args[1:2] if not (a.node is not None and a.node.get("t") is not None and "allocator" in a.node["t"].c)]
            k = val[0].v.c if val else 0
            f = frozenset() if k is not NOC and k == 0 and not (args and args[0].v.ptr) else atom(("?", id(e)))
            S.put(p + (LIN,), V(("lin",), f={"lin": f}))

    def on_decl(self, d, S, fr):
        pass

    def on_store(self, path, v, S, node, fr):
        # an element is written: the whole vector is unknown
        if path[-1][0] == "[" and len(path) > 1 and (path[:-1] in (self.x, self.rhs) or S.get(path[:-1] + (LIN,)) is not None):
            S.put(path[:-1] + (LIN,), V(("lin",), f={"lin": atom(("?", "store"))}))

    def e_Construct(self, e, S, fr):
        # copying a vector: the form of the source has to exist
        if e.get("copy") and e["args"] and e.get("t") is not None and re.search(r"vector<(double|float)", e["t"].c):
            for ps, S2 in self.lv(e["args"][0], S, fr)[:1]:
                for p in ps or ():
                    self.form(p, S2)
        return Engine.e_Construct(self, e, S, fr)

    # ---- joins
    def join_states(self, A, B, site):
        if A is B:
            return A
        if self.x is None:
            return Engine.join_states(self, A, B, site)
        xa, xb = self.form(self.x, A), self.form(self.x, B)
        N = Engine.join_states(self, A, B, site)
        paths = [(r,) + k for r, d in N.roots.items() for k in d if k and k[-1] == LIN]
        nx = xa
        if xa != xb:
            nx = atom(("?", "join")) if unknown(xa) or unknown(xb) else atom(("phi", site, "x"))
            N.put(self.x + (LIN,), V(("lin",), f={"lin": nx}))
        for p in paths:
            if p == self.x + (LIN,):
                continue
            a, b = A.get(p), B.get(p)
            if a is None or b is None:
                N.put(p, a or b)
                continue
            fa, fb = a.f["lin"], b.f["lin"]
            if fa == self.resid0(xa) and fb == self.resid0(xb):
                f = self.resid0(nx)
            elif fa == fb:
                f = fa
            elif unknown(fa) or unknown(fb):
                f = atom(("?", "join"))
            else:
                f = atom(("phi", site, p), (("M", self.mask),) if self.mask and masked(fa) and masked(fb) else ())
            N.put(p, V(("lin",), f={"lin": f}))
        return N

    def resid0(self, xf):
        """residual inside the solver, where x does not contain the imposed values yet"""
        r = self.effective_rhs()
        d = apply(("A",), xf)
        if self.mask:
            d = apply(("M", self.mask), d)
        return fadd(r, d, NEG1)

    def part_key(self, S):
        return tuple(sorted(((k, str(sorted(map(str, v))) if isinstance(v, frozenset) else v) for k, v in S.facts.items()), key=str))


def show(f):
    out = []
    for (ops, base), p in sorted(f, key=str):
        n = {"in": lambda: base[1][0][3], "phi": lambda: "x" if base[2] == "x" else "v", "had": lambda: "h", "?": lambda: "?"}.get(base[0], lambda: base[0])()
        out.append("".join(o[0] for o in ops) + n)
    return " ; ".join(out) or "0"


def run(ctx):
    prog = ctx.program()
    ctx.rule("on every exit of a solver after a passed convergence test, the tested vector equals M (rhs - A x) for the returned x, where M masks the imposed unknowns; "
             "every update of x is zero on the imposed unknowns")
    n = 0
    for fn in prog.fns.values():
        if fn.body is None or not fn.repo or fn.is_lambda or fn.method:
            continue
        cs = [p["t"].c for p in fn.params]
        if not (any(re.search(r"\biteration<", c) for c in cs) and any("SparseMatrix" in c for c in cs)):
            continue
        eng = Eng(prog, ctx, fn)
        if eng.x is None or eng.rhs is None:
            ctx.assume("%s has no recognised unknown / right-hand side" % fn.name)
            continue
        n += 1
        out = eng.run(fn)
        for v, S in out:
            f = S.facts.get("conv")
            if f is None:
                ctx.ok("exits without convergence", eng.sig())
                continue
            xf = eng.form(eng.x, S)
            if unknown(f) or unknown(xf):
                ctx.assume("%s: a vector is written element by element; the residual relation is not decided on that exit" % eng.sig())
                continue
            want = eng.resid(xf)
            if f != want:
                ctx.violation("residual|%s" % eng.sig(), loc(fn.body), "%s can report convergence for an x of which the tested vector is not the residual (tested: %s; residual: %s)" % (fn.name, show(f), show(want)))
            else:
                ctx.ok("converged exits whose tested vector is the residual of the returned x", eng.sig())
    ctx.need(n, "no solver found")
