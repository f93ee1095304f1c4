"""P02: the linear system of a time step is that of the linearised Landau-Lifshitz-Gilbert equation for the fields of the energy functional."""
from sa.lib import loc
from sa.checks.kspec import *  # noqa
from sa.checks.kspec import P, names
from sa.checks.p01 import partials

R3 = range(3)
U = ["u@0_%d" % k for k in R3]
V = ["v@0_%d" % k for k in R3]
I = (("mu0", -1), ("Ms", -1))


def unit(p):
    """interpolated magnetisation of norm one: (aT u_2)^2 = 1 - (aT u_0)^2 - (aT u_1)^2"""
    for _ in range(6):
        r, done = {}, True
        for m, c in p.items():
            d = dict(m)
            if d.get(U[2], 0) >= 2 and d.get("aT", 0) >= 2:
                done = False
                d[U[2]] -= 2
                d["aT"] -= 2
                b = {tuple(sorted((k, v) for k, v in d.items() if v)): c}
                r = padd(r, pmul(b, padd(pconst(1.0), padd(P((-1, ("aT", 2), (U[0], 2))), P((-1, ("aT", 2), (U[1], 2)))))))
            else:
                r = padd(r, {m: c})
        p = r
        if done:
            break
    return p


def equal(a, b):
    return same(a, b) or same(unit(a), unit(b))


def spec(hext, th):
    """fields at a Gauss point, right-hand side of the element, u.Heff"""
    Hd = [P((-1, "phi@0", "da_%d" % k)) for k in R3]
    Hv = [P((-th, "dt", "phiv@0", "da_%d" % k)) for k in R3]
    Hst = [P((1, "extraField_%d" % k)) for k in R3]
    an = []
    for k in R3:
        p = P(*[(2, "K") + I + ("uk_%d" % k, "uk_%d" % j, "aT", U[j]) for j in R3])
        p = padd(p, P(*[(2 * th, "K") + I + ("uk_%d" % k, "uk_%d" % j, "aT", "dt", V[j]) for j in R3]))
        p = padd(p, P((-2, "K3") + I + ("aT", U[k]), (2, "K3") + I + (("aT", 3), (U[k], 3))))
        p = padd(p, P((-2 * th, "K3") + I + ("dt", "aT", V[k]), (6 * th, "K3") + I + ("dt", ("aT", 3), (U[k], 2), V[k])))
        an.append(p)
    be = []
    su = {}
    for k in R3:
        su = padd(su, pmul(Hst[k], P((1, "aT", U[k]))))
    for k in R3:
        h = padd(padd(padd(padd(Hd[k], hext[k]), Hst[k]), Hv[k]), an[k])
        p = pmul(P((1, "wT", "aT")), h)
        p = padd(p, pmul(pmul(P((-th, "dt", "wT", "aT")), su), P((1, "aT", V[k]))))
        p = padd(p, P(*[(-2, "A") + I + ("wT", ("da_%d" % d, 2), U[k]) for d in R3]))
        be.append(p)
    uh = P(*[(-2, "A") + I + (("da_%d" % d, 2), (U[k], 2)) for d in R3 for k in R3])
    uh = padd(uh, P(*[(2, "K") + I + (("aT", 2), "uk_%d" % i, "uk_%d" % j, U[i], U[j]) for i in R3 for j in R3]))
    uh = padd(uh, P(*[(-2, "K3") + I + (("aT", 2), (U[i], 2)) for i in R3] + [(2, "K3") + I + (("aT", 4), (U[i], 4)) for i in R3]))
    for k in R3:
        uh = padd(uh, pmul(P((1, "aT", U[k])), padd(padd(Hd[k], hext[k]), Hst[k])))
    return be, uh


def kspec(th):
    AE = [[{} for _ in R3] for _ in R3]
    for k in R3:
        AE[k][k] = padd(P(*[(2 * th, "prefactor", "dt", "gamma0", "A") + I + ("wT", ("da_%d" % d, 2)) for d in R3]), P((1, "δ", "aT", "wT", "aeff")))
        i, j = (k + 1) % 3, (k + 2) % 3
        AE[i][j] = P((-1, "δ", "aT", "wT", U[k]))
        AE[j][i] = P((1, "δ", "aT", "wT", U[k]))
    b = [["ep_%d" % k for k in R3], ["eq_%d" % k for k in R3]]
    out = []
    for r in (1, 0):
        for c in (0, 1):
            s = {}
            for k in R3:
                for m in R3:
                    s = padd(s, pmul(pmul(P((1, b[r][k])), AE[k][m]), P((1, b[c][m]))))
            out.append(s)
    return out


def theta(K, got):
    """the weight of the implicit part, from the exchange block of the matrix"""
    for m, c in got.items():
        n = [x for x, _ in m]
        if "prefactor" in n and "A" in n and c:
            return abs(c) / 2.0
    return None


def element(obj, arr):
    """the element the loop works on"""
    for c in arr.e.values():
        if isinstance(c.val, Obj):
            return c.val
    return None


def tens(K, o, name):
    for d, c in o.f.items():
        if d.rsplit("@", 1)[-1] == name:
            x = K.val(c.val)
            return x if isinstance(x, Ten) else None
    return None


def run(ctx):
    prog = ctx.program()
    ctx.rule("normal forms: the element matrix and right-hand side made by prepareElements, as polynomials over material constants, weights, shape functions "
             "and nodal values of the current step, are those of the tangent plane scheme for the fields of the energy functional")
    ctx.assume("sums over nodes, Gauss points and elements are represented by one generic node, point and element")
    ctx.assume("the cubic term is compared in the frame of the cubic axes (an orthonormal frame), and where the interpolated magnetisation has norm one")
    damping(ctx, prog)
    fns = [f for f in prog.fns.values() if f.name == "LinAlgebra::prepareElements" and f.body is not None]
    ctx.need(len(fns) >= 2, "prepareElements is gone")
    for fn in fns:
        where = loc(fn.body)
        uniform = any(dims3(p["t"]) for p in fn.params)
        what = "uniform field" if uniform else "field of space"
        alpha = []

        def aeff(k, obj, args, e):
            alpha.append([k.ten(a) for a in args])
            return S(atom("aeff"))
        K = Kern(prog, names, {"Tetra::calc_alpha_eff": aeff, "Mesh::mesh::isMagnetic": lambda k, o, a, e: True})

        def go():
            del alpha[:]
            o = Obj("la", "LinAlgebra")
            setfield(prog, o, "c:@S@LinAlgebra", "idx_dir", -1)
            args = []
            for p in fn.params:
                if dims3(p["t"]):
                    args.append(vec([atom("H_%d" % i) for i in R3]))
                elif p["t"].b == "double" or p["t"].c.replace("const ", "").strip(" &") == "double":
                    args.append(S(atom("Ht")))
                else:
                    args.append(View(Cell(Obj("timing", p["t"].rec))))
            K.inline(fn, o, args, {"l": ("root",)})
            msh = None
            for d, c in o.f.items():
                if d.endswith("@msh"):
                    msh = K.val(c.val)
            res = {}
            for d, c in (msh.f.items() if isinstance(msh, Obj) else ()):
                n = d.rsplit("@", 1)[-1]
                if n in ("tet", "tri") and isinstance(c.val, Arr):
                    el = element(None, c.val)
                    if el is not None:
                        res[n] = {x: tens(K, el, x) for x in ("Kp", "Lp")}
            res["alpha"] = [list(x) for x in alpha]
            return res
        try:
            rs = K.runs(go)
        except Unsup as x:
            ctx.undecide("%s: a construct is not followed (%s)" % (what, x))
            continue
        hext = [P((1, "H_%d" % k)) if uniform else P((1, "Ht", "extSpaceField_%d" % k)) for k in R3]
        for r, facts in rs:
            if r is None:
                continue
            decide(ctx, K, r, facts, hext, what, where)
        partials(ctx, K)


def crate(ctx, got, want, base, what, where, th):
    """contribution of the rate of change to the cubic anisotropy field"""
    if equal(got, want):
        ctx.ok("cubic anisotropy, rate of change", "along %s, %s" % (base, what))
        return
    bad = P((-2 * th, "K3") + I + ("dt", ("aT", 2), "wT", V[0], "%s_0" % base), (6 * th, "K3") + I + ("dt", ("aT", 4), "wT", (U[0], 2), V[0], "%s_0" % base))
    key = "product by the components of ex" if same(got, bad) else "other"
    ctx.violation("cubic rate|%s" % key, where, "the contribution of the rate of change to the cubic anisotropy field (%s) is not its derivative: %s" % (what, diff(got, want)))


def dims3(t):
    return "Matrix<double, 3, 1" in t.c and "function" not in t.c


def decide(ctx, K, r, facts, hext, what, where):
    zs = zeros(facts)

    def compare(kind, name, got, want, msg):
        g, w = drop(frame(got), zs), drop(want, zs)
        if equal(g, w):
            ctx.ok(kind, "%s, %s" % (name, what))
        else:
            ctx.violation("%s|%s" % (kind, name), where, "%s (%s): %s" % (msg, what, diff(unit(g), unit(w)) if not same(unit(g), unit(w)) else diff(g, w)))
    tet = r.get("tet")
    if tet is None or tet["Lp"] is None or tet["Kp"] is None or (tet["Kp"].R, tet["Kp"].C) != (2, 2) or tet["Lp"].R * tet["Lp"].C != 2:
        ctx.undecide("the element matrix of a tetrahedron is not followed (%s)" % what)
    else:
        th = None
        for i in range(4):
            if tet["Kp"].e[i] is not None:
                th = theta(K, tet["Kp"].e[i].total())
                if th:
                    break
        if th is None:
            if all(x is not None for x in tet["Kp"].e):
                ctx.violation("matrix|exchange", where, "the element matrix has no exchange part")
            else:
                ctx.undecide("the weight of the implicit part is not known")
            return
        if not 0.5 - 1e-12 <= th <= 1:
            ctx.violation("theta", where, "the weight of the implicit part is %.6g, not between 1/2 and 1" % th)
        be, uh = spec(hext, th)
        if len(r["alpha"]) == 1:
            al = r["alpha"][0]
            if len(al) == 3 and all(x.e[0] is not None for x in al):
                if same(al[0].e[0].total(), atom("dt")) and same(al[1].e[0].total(), atom("alpha_LLG")):
                    compare("damping", "projection of the field on the magnetisation", al[2].e[0].total(), uh, "the damping is not corrected by the projection of the effective field on the magnetisation")
                else:
                    ctx.violation("damping|arguments", where, "the damping is not computed from the time step and the damping constant of the region")
            else:
                ctx.undecide("the arguments of the corrected damping are not followed")
            kp = kspec(th)
            for i in range(4):
                g = tet["Kp"].e[i]
                n = "block %d,%d" % (i // 2, i % 2)
                if g is None:
                    ctx.undecide("matrix, %s" % n)
                else:
                    compare("matrix", n, g.total(), kp[i], "the element matrix, %s, is not that of the scheme" % n)
        else:
            ctx.undecide("the corrected damping is not found")
        for b, base in enumerate(("eq", "ep")):
            want = {}
            for k in R3:
                want = padd(want, pmul(P((1, "%s_%d" % (base, k))), be[k]))
            g = tet["Lp"].e[b]
            if g is None:
                ctx.undecide("right-hand side along %s" % base)
            else:
                def part(p, yes):
                    return {m: c for m, c in p.items() if (any(x == "K3" for x, _ in m) and any(x in V for x, _ in m)) == yes}
                gg = drop(frame(g.total()), zs)
                crate(ctx, part(gg, True), drop(part(want, True), zs), base, what, where, th)
                compare("right-hand side", "along " + base, part(gg, False), part(want, False), "the right-hand side along %s is not the effective field" % base)
    tri = r.get("tri")
    ks = any(k[0] == "eq" and "1*Ks" in k and v for k, v in facts)
    if ks:
        return
    if tri is None or tri["Lp"] is None or tri["Lp"].R * tri["Lp"].C != 2:
        ctx.undecide("the right-hand side of a triangle is not followed (%s)" % what)
        return
    for b, base in enumerate(("eq", "ep")):
        want = P(*[(2, "Ks", ("mu0", -1), ("dMs", -1), "wS", ("aS", 2), "%s_%d" % (base, k), "ukS_%d" % k, "ukS_%d" % j, U[j]) for k in R3 for j in R3])
        g = tri["Lp"].e[b]
        if g is None:
            ctx.undecide("right-hand side of a triangle along %s" % base)
        else:
            compare("surface", "along " + base, g.total(), want, "the right-hand side of a triangle along %s is not the surface anisotropy field" % base)


def damping(ctx, prog):
    """the corrected damping, by cases of the projection h of the field: alpha + x/2 for 0 < x, alpha / (1 - x / (2 alpha)) for x < 0, x = gamma0 dt h cut at 2 r alpha"""
    fn = fn_named(prog, "Tetra::calc_alpha_eff")
    if fn is None or len(fn.params) != 3:
        ctx.undecide("the corrected damping is not found")
        return
    K = Kern(prog, names, {})

    def go():
        return K.val(K.inline(fn, None, [S(atom("dt")), S(atom("alpha")), View(Cell(S(atom("h")), fn.params[2]["t"]))], {"l": ("root",)}))
    try:
        rs = K.runs(go)
    except Unsup as x:
        ctx.undecide("the corrected damping (%s)" % x)
        return
    where = loc(fn.body)
    half = P((0.5, "gamma0", "dt", "h"))
    lim = P((0.1, "alpha"))
    one = pconst(1.0)
    inva = P((1, ("alpha", -1)))

    def neg(x):
        return pmul(P((1, "alpha")), pinv(padd(one, pmul(x, inva), -1.0)))
    W = {"positive": padd(P((1, "alpha")), half), "positive, large": padd(P((1, "alpha")), lim), "negative": neg(half), "negative, large": neg({m: -c for m, c in lim.items()}),
         "zero": P((1, "alpha"))}
    M = pstr(P((0.2, "alpha", ("gamma0", -1), ("dt", -1))))
    nM = pstr(P((-0.2, "alpha", ("gamma0", -1), ("dt", -1))))
    for r, facts in rs:
        x = r.e[0] if isinstance(r, Ten) and len(r.e) == 1 else None
        if x is None:
            ctx.undecide("the corrected damping")
            continue
        f = dict(facts)
        known = {("gt", "1*h", "0"), ("gt", "0", "1*h"), ("gt", "1*h", M), ("gt", M, "1*h"), ("gt", nM, "1*h"), ("gt", "1*h", nM)}
        if not set(f) <= known:
            ctx.undecide("the corrected damping: other cases")
            continue
        pts = {"zero": 0.0, "positive": 0.5, "positive, large": 2.0, "negative": -0.5, "negative, large": -2.0}

        def holds(k, v, h):
            a = {"1*h": h, "0": 0.0, M: 1.0, nM: -1.0}
            return (a[k[1]] > a[k[2]]) == v
        for c, h in pts.items():
            if not all(holds(k, v, h) for k, v in f.items()):
                continue
            got, want = x.total(), W[c]
            if c == "zero":
                got = psubst(got, "h", {}) if not any(a.startswith("inv(") for m in got for a, _ in m) else want
            if same(got, want) or same(simp(got), simp(want)):
                ctx.ok("corrected damping", c)
            else:
                ctx.violation("damping|%s" % c, where, "for a projection of the field that is %s: %s" % (c, diff(got, want)))


def simp(p):
    """inv(...) atoms of constant polynomials are numbers"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a, e in m:
            k = None
            if a.startswith("inv(") and e > 0:
                try:
                    k = 1.0 / float(a[4:-1])
                except ValueError:
                    k = None
            t = pmul(t, {(): k ** e} if k is not None else {((a, e),): 1.0})
        r = padd(r, t)
    return r
