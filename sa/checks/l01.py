"""L01: every iterative linear solve ends within its iteration limit and reports its outcome honestly.

1. each solver routine is interpreted with the monitor's status as typestate (partitioned states);
2. each solver class is interpreted with the three possible outcomes of the routine forked."""
from sa.interp import Engine, V, NOC, Domain, State, gen
from sa.lib import call_graph, fn_nodes, loc, walk, callees
from sa.checks.l02 import find_solvers

CONV, OVER, CANT, UNDEF = "CONVERGED", "ITER_OVERFLOW", "CANNOT_CONVERGE", "UNDEFINED"


class Mon:
    """the monitor class, recognised by its status enumeration"""

    def __init__(self, prog, ctx):
        en = [e for e in prog.enums.values() if {x[0] for x in e["c"]} >= {CONV, OVER, CANT}]
        ctx.need(len(en) == 1, "status enumeration of the solvers not found")
        self.val = {x[0]: x[1] for x in en[0]["c"]}
        self.name = {v: k for k, v in self.val.items()}
        rec = [r for r in prog.records.values() if any(f["t"].enum == en[0]["n"] for f in r.get("fields", []))]
        ctx.need(len(rec) >= 1, "monitor class not found")
        self.status = set()
        self.role = {}
        for r in rec:
            for f in r["fields"]:
                t = f["t"]
                if t.enum == en[0]["n"]:
                    self.status.add(f["d"])
                elif t.b == "int":
                    self.role[f["d"]] = "MX" if t.const else "IT"
                elif t.b == "float":
                    self.role[f["d"]] = "T" if t.const else "N"


class Role(Domain):
    """N: a norm, T: the tolerance, NT: tolerance x norm, IT: iteration counter, MX: iteration limit,
    ('conv', polarity): truthy iff residual within tolerance, ('nan', polarity), ('tick', polarity)"""
    name = "role"

    def __init__(self, mon):
        self.mon = mon

    def default(self, eng, path, t):
        return self.mon.role.get(path[-1][1]) if path[-1][0] == "." else None

    def bin(self, eng, op, a, b, node, S):
        x, y = a.f.get("role"), b.f.get("role")
        if op in ("*", "*="):
            if {x, y} == {"N", "T"}:
                return "NT"
            return None
        if op == "/":
            if x == "N" and y == "N":
                return "NN"
            return None
        if op in ("<", "<=", ">", ">="):
            l, r, o = x, y, op
            if (r, l) in (("N", "NT"), ("NN", "T")):
                l, r = r, l
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o]
            if (l, r) in (("N", "NT"), ("NN", "T")):
                return ("conv", o in ("<", "<="))
            if x == "IT" and y == "MX":
                return ("tick", op == ">=") if op in (">=", "<") else None
            if x == "MX" and y == "IT":
                return ("tick", op == "<=") if op in ("<=", ">") else None
        if op in ("==", "!=") and {x, y} == {"IT", "MX"}:
            return ("tick", op == "==")
        if op in ("+", "+=") and x == "IT" and b.c == 1:
            return "IT"
        if op in ("==", "!=") and x == "N" and y == "N" and a.sym == b.sym:
            return ("nan", op == "!=")
        return None

    def un(self, eng, op, a, node, S):
        x = a.f.get("role")
        if op == "!" and isinstance(x, tuple):
            return (x[0], not x[1])
        return None

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn in ("fabs", "abs"):
            return args[0].v.f.get("role")
        if sn == "sqrt":
            return "N"
        if sn == "isnan" and args[0].v.f.get("role") in ("N", "NN"):
            return ("nan", True)
        if sn == "isfinite" and args[0].v.f.get("role") in ("N", "NN"):
            return ("nan", False)
        return None

    def cast(self, eng, a, node):
        return a.f.get("role")


class SolverEng(Engine):
    def __init__(self, prog, ctx, mon, root):
        Engine.__init__(self, prog, [Role(mon)])
        self.ctx, self.mon, self.root = ctx, mon, root

    def bad(self, what, node, fr, msg):
        self.ctx.violation("%s/%d|%s" % (self.root.name, len(self.root.params), what), "%s (path %s)" % (loc(node), " > ".join(fr.chain())), msg)

    def on_store(self, path, v, S, node, fr):
        if path[-1][0] != ".":
            return
        f = path[-1][1]
        if f in self.mon.status:
            n = self.mon.name.get(v.c) if v.c is not NOC else None
            S.facts["status"] = n or "?"
            if n == CONV:
                if S.facts.get("conv") is not True:
                    self.bad("unjustified success", node, fr, "the solve is declared converged on a path where 'residual <= tolerance x norm of the right-hand side' was not established")
                else:
                    self.ctx.ok("successes justified by the residual", "%s %s" % (self.root.name, loc(node)))
            S.facts["set"] = True
        elif self.mon.role.get(f) == "IT":
            if v.f.get("role") == "IT":
                S.facts["inc"] = True
                S.facts.pop("tick", None)
            elif S.facts.get("inloop"):
                self.bad("counter reset", node, fr, "the iteration counter is overwritten inside the iteration")
        elif self.mon.role.get(f) == "N":
            S.facts.pop("conv", None)
            S.facts.pop("nonan", None)

    def on_branch(self, cond, v, taken, S, fr):
        r = v.f.get("role")
        if isinstance(r, tuple):
            t = taken == r[1]
            if r[0] == "conv":
                if t and (r[1] or S.facts.get("nonan")):
                    S.facts["conv"] = True
                else:
                    S.facts["conv"] = False
            elif r[0] == "nan":
                if not t:
                    S.facts["nonan"] = True
                else:
                    S.facts["conv"] = False
                    S.facts["isnan"] = True
            elif r[0] == "tick":
                S.facts["tick"] = t
        return True

    def on_loop(self, kind, node, S, fr):
        if fr.fn.id != self.root.id:
            return
        st = S.facts.get("status")
        if S.facts.get("head") == OVER:
            self.bad("no stop at limit", node, fr, "the iteration goes on after the iteration limit was reached")
        if S.facts.get("head") == CANT:
            self.bad("no stop at breakdown", node, fr, "the iteration goes on after a breakdown or a NaN residual")
        if not S.facts.get("inc"):
            self.bad("uncounted iteration", node, fr, "an iteration can be repeated without counting it against the limit")
        elif "tick" not in S.facts:
            self.bad("limit not tested", node, fr, "an iteration can be repeated without testing the iteration limit")
        elif S.facts["tick"] and st != OVER:
            self.bad("limit not reported", node, fr, "the iteration limit is reached without the status saying so")
        else:
            self.ctx.ok("counted and limited iterations", "%s/%d" % (self.root.name, len(self.root.params)))
        S.facts["head"] = st
        S.facts["inloop"] = True
        for k in ("inc", "tick", "conv", "nonan", "isnan"):
            S.facts.pop(k, None)

    def join_facts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}


class CallerEng(Engine):
    """forks the outcome of the solver routine"""

    def __init__(self, prog, ctx, mon, solvers, root):
        Engine.__init__(self, prog, [Sol(self)], nonempty=True)
        self.ctx, self.mon, self.solvers, self.root = ctx, mon, solvers, root
        self.seen = []
        self.xpaths = set()

    def on_call(self, name, fn, obj, args, e, S, fr):
        if fn is None or fn.id not in self.solvers:
            return None
        it = [i for i, p in enumerate(fn.params) if "iteration" in (p["t"].rec or "")][0]
        xi = [i for i, p in enumerate(fn.params) if p["t"].rec == "std::vector" and p["ref"] and not p["t"].const][0]
        self.seen.append(loc(e))
        for p in args[it].p or ():
            st = {(S.get(p + ((".", f),)) or V(None)).c for f in self.mon.status}
            n = {(S.get(p + ((".", f),)) or V(None)).c for f, r in self.mon.role.items() if r == "IT"}
            if st != {self.mon.val[UNDEF]} or n != {0}:
                self.ctx.violation("%s|monitor not reset" % self.root.name, loc(e), "%s starts a solve whose iteration count and status are left over from an earlier solve" % self.root.name)
            else:
                self.ctx.ok("solves started with a reset monitor", loc(e))
        out = []
        for n in (CONV, OVER, CANT):
            S2 = S.copy()
            S2.facts["outcome"] = n
            for p in args[it].p or ():
                for f in self.mon.status:
                    S2.put(p + ((".", f),), V(("c", "int", self.mon.val[n]), self.mon.val[n]))
                for f, r in self.mon.role.items():
                    S2.drop(p + ((".", f),))
            for p in args[xi].p or ():
                self.xpaths.add(p)
                S2.drop(p)
                S2.put(p, V(("x", id(e), n), f={"sol": "failed"} if n != CONV else {"sol": "ok"}))
                S2.put(p + (("[", "*"),), V(("x*", id(e), n), f={"sol": "failed"} if n != CONV else {"sol": "ok"}))
            out.append((V(self.fresh(e, fr)), S2))
        return out

    def on_store(self, path, v, S, node, fr):
        # a loop over all the elements overwrites the container: forget the old summary
        keys = [(s[1], path[:i]) for i, s in enumerate(path) if s[0] == "[" and isinstance(s[1], tuple)]
        if keys and v.f.get("sol") != "failed" and all(self.full_key(k, c) is not False for k, c in keys):
            S.drop(gen(path))

    def on_exit(self, name, args, e, S, fr):
        if S.facts.get("outcome") not in (None, CONV):
            c = args[0].v.c if args else NOC
            if name.rsplit("::", 1)[-1] in ("exit", "_Exit", "_exit", "quick_exit") and c is not NOC and c == 0:
                self.ctx.violation("%s|exit 0" % self.root.name, loc(e), "a failed solve ends the program with a success status")
            self.exits = getattr(self, "exits", set()) | {loc(e)}


class Sol(Domain):
    name = "sol"

    def __init__(self, eng):
        self.eng = eng

    def u(self, *vs):
        xs = [v.f.get("sol") for v in vs if v is not None]
        return "failed" if "failed" in xs else "ok" if "ok" in xs else None

    def bin(self, eng, op, a, b, node, S):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return None
        return self.u(a, b)

    def un(self, eng, op, a, node, S):
        return a.f.get("sol") if op != "!" else None

    def call(self, eng, name, obj, args, node, S):
        return self.u(*([obj.v] if obj else []), *[a.v for a in args])

    def join(self, a, b):
        return "failed" if "failed" in (a, b) else a or b


def run(ctx):
    prog = ctx.program()
    ctx.rule("in every solver routine: success only under 'residual <= tolerance x rhs norm' (false for NaN); every loop-back counts an iteration and tests the limit; "
             "no loop-back after limit or breakdown; status decided at every exit")
    ctx.rule("in every solver class: after a failed solve no persistent data depends on the failed solution, and the caller is told (distinct result, tested) or the program ends with failure")
    mon = Mon(prog, ctx)
    solvers = find_solvers(prog, ctx)
    for fid in solvers:
        f = prog.fns[fid]
        eng = SolverEng(prog, ctx, mon, f)
        S = State()
        it = [i for i, p in enumerate(f.params) if "iteration" in (p["t"].rec or "")][0]
        base = (("p", f.name, it, f.params[it]["n"]),)
        for d in mon.status:
            S.put(base + ((".", d),), V(("c", "int", mon.val[UNDEF]), mon.val[UNDEF]))
        S.facts["status"] = UNDEF
        rets = eng.run(f, S=S)
        ctx.need(rets, "solver routine %s never returns" % f.name)
        for v, S2 in rets:
            st = S2.facts.get("status")
            if st not in (CONV, OVER, CANT):
                ctx.violation("%s/%d|undecided exit" % (f.name, len(f.params)), loc(f.body), "%s can return with status %s" % (f.name, st))
            else:
                ctx.ok("exits with a decided status", "%s/%d %s" % (f.name, len(f.params), st))
        if not any(S2.facts.get("status") == CONV for _, S2 in rets):
            ctx.violation("%s/%d|never succeeds" % (f.name, len(f.params)), loc(f.body), "%s can never report success" % f.name)
        for want in (OVER, CANT):
            if not any(S2.facts.get("status") == want for _, S2 in rets):
                ctx.violation("%s/%d|never reports %s" % (f.name, len(f.params), want), loc(f.body), "%s never reports %s" % (f.name, want))
    # solver classes
    g = call_graph(prog)
    users = {i for i in g if g[i] & set(solvers) and i not in solvers}
    clss = {prog.fns[i].cls for i in users if prog.fns[i].cls}
    ctx.need(users, "no solver class found")
    rootids = set()
    for cid in clss:
        meth = {i for i, f in prog.fns.items() if f.body is not None and f.cls == cid and not f.is_lambda}
        reach = {i for i in users if i in meth}
        grow = True
        while grow:
            grow = False
            for i in meth:
                if i not in reach and (g[i] & reach):
                    reach.add(i)
                    grow = True
        for i in reach:
            if prog.fns[i].ctor:
                rootids.add(i)
                continue
            outside = [j for j in g if i in g[j] and (j not in meth or prog.fns[j].ctor) and prog.fns[j].tu is not None]
            if outside or not any(i in g[j] for j in meth):
                rootids.add(i)
    booleans = {}
    for i in sorted(rootids):
        f = prog.fns[i]
        eng = CallerEng(prog, ctx, mon, solvers, f)
        rets = eng.run(f)
        ctx.need(eng.seen, "%s does not reach its linear solve" % f.name)
        conv = [(v, S) for v, S in rets if S.facts.get("outcome") == CONV]
        fail = [(v, S) for v, S in rets if S.facts.get("outcome") in (OVER, CANT)]
        if f.ret.b == "bool":
            cs = {v.c for v, S in conv if v.c is not NOC}
            fs = {v.c for v, S in fail if v.c is not NOC}
            unk = [1 for v, S in fail if v.c is NOC]
            if unk or (fail and not (cs - fs)):
                ctx.violation("%s|indistinct failure" % f.name, loc(f.body), "%s returns the same value after a failed solve as after a successful one" % f.name)
            else:
                ctx.ok("failure reported to the caller", "%s -> %s" % (f.name, sorted(map(str, fs))))
            booleans[i] = True
        elif fail:
            ctx.violation("%s|failure swallowed" % f.name, loc(f.body), "%s returns normally after a failed solve" % f.name)
        else:
            ctx.ok("failure ends the program", f.name)
        for v, S in fail:
            for r, d in S.roots.items():
                if r[0] in ("v", "t"):
                    continue
                for k, x in d.items():
                    p = (r,) + k
                    if x.f.get("sol") == "failed" and not any(p[:len(q)] == q for q in eng.xpaths):
                        ctx.violation("%s|failed solution kept" % f.name, loc(f.body), "after a failed solve, %s leaves data computed from the failed solution in %s" % (f.name, ".".join(s[1].rsplit("@", 1)[-1] for s in p if s[0] == ".")))
        ctx.ok("solver entry points", f.name)
    # the callers test the result
    for i in booleans:
        for j in g:
            if i not in g[j]:
                continue
            h = prog.fns[j]
            used = False
            for n in fn_nodes(h):
                if n.get("k") == "Compound":
                    for s in n["s"]:
                        if s and s.get("k") == "Call" and s.get("fn") == i:
                            ctx.violation("%s|result of %s ignored" % (h.name, prog.fns[i].name), loc(s), "%s ignores whether the linear solve succeeded" % h.name)
                            used = None
            if used is not None:
                ctx.ok("results not ignored", "%s in %s" % (prog.fns[i].name, h.name))
    ctx.min("exits with a decided status", 9)
    ctx.min("counted and limited iterations", 2)
    ctx.min("solver entry points", 3)
