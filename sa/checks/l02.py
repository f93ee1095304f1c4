"""L02: every linear solve works on a system assembled for that solve only.

Typestate of every matrix and right-hand side handed to an iterative solver, on every history:
  CLEAR --accumulate--> CLEAR(building) --solve--> USED --overwrite all with 0--> CLEAR ; accumulate in USED is a violation.
An accumulation is a store whose value depends on what the object held; a clear is a store of the constant zero over the
whole container (range loop, counting loop 0..size, std::fill(begin,end), assign)."""
from sa.interp import Engine, V, NOC, Domain, State, gen
from sa.lib import call_graph, fn_nodes, loc, walk, callees


class Dep(Domain):
    name = "dep"

    def __init__(self, eng_box):
        self.box = eng_box

    def default(self, eng, path, t):
        for r in self.box["tracked"]:
            if path[:len(r)] == r and len(path) > len(r):
                return frozenset([r])
        return None

    def u(self, *vs):
        s = frozenset().union(*[v.f.get("dep") or () for v in vs])
        return s or None

    def bin(self, eng, op, a, b, node, S):
        return self.u(a, b)

    def call(self, eng, name, obj, args, node, S):
        return self.u(*([obj.v] if obj else []), *[a.v for a in args])

    def join(self, a, b):
        return (a or frozenset()) | (b or frozenset()) or None

    def elem(self, eng, v, key):
        return v.f.get("dep")


class Eng(Engine):
    def __init__(self, prog, ctx, solvers, root):
        self.box = {"tracked": set()}
        Engine.__init__(self, prog, [Dep(self.box)], nonempty=True)
        self.ctx, self.solvers, self.root = ctx, solvers, root
        self.viol = []
        self.solved = []

    def st(self, S, r):
        return S.facts.get(("mx", r))

    def tracked_of(self, path):
        for r in self.box["tracked"]:
            if path[:len(r)] == r:
                return r
        return None

    def on_call(self, name, fn, obj, args, e, S, fr):
        if fn is not None and fn.id in self.solvers:
            mi, ri = self.solvers[fn.id]
            for i in (mi, ri):
                for p in args[i].p or ():
                    S.facts[("mx", p)] = "USED"
                    self.box["tracked"].add(p)
            self.solved.append((loc(e), name))
            # the unknown is overwritten, the monitor status is unknown
            return [self.opaque(e, fn, name, obj, args, S, fr)]
        return None

    def on_store(self, path, v, S, node, fr):
        r = self.tracked_of(path)
        if r is None:
            return
        stt = self.st(S, r)
        if v.c is not NOC and not isinstance(v.c, str) and v.c == 0:
            keys = [(k, path[:i]) for i, (t, *k) in enumerate(path) if t == "[" and i >= len(r)]
            whole = path == r or all((k[0] == "*" or self.full_key(k[0], c) is not False) for k, c in keys)
            if whole:
                S.facts[("mx", r)] = "CLEAR"
                self.clears.add((loc(node), fr.fn.name))
                return
        if path == r:
            # whole object replaced
            if not (v.f.get("dep") and r in v.f["dep"]):
                S.facts[("mx", r)] = "CLEAR"
                self.clears.add((loc(node), fr.fn.name))
            return
        acc = (node.get("op") in ("+=", "-=") if isinstance(node, dict) else False) or r in (v.f.get("dep") or ())
        if acc:
            if stt == "USED":
                self.viol.append((r, node, fr))
            else:
                self.accs.add((loc(node), fr.fn.name))

    def on_fill(self, cont, v, sn, S, e, fr, whole):
        r = self.tracked_of(cont)
        if r is not None and cont == r:
            if whole and v.c is not NOC and v.c == 0 and sn == "fill":
                S.facts[("mx", r)] = "CLEAR"
                self.clears.add((loc(e), fr.fn.name))
            else:
                S.facts[("mx", r)] = "USED"

    def on_decl(self, d, S, fr):
        p = self.vpath(d["d"], fr)
        for r in self.box["tracked"]:
            if r[:1] == p:
                S.facts[("mx", r)] = "CLEAR"

    def on_clear(self, path, S, e, fr):
        if path in self.box["tracked"]:
            S.facts[("mx", path)] = "CLEAR"

    def part_key(self, S):
        return tuple(sorted((str(k), v) for k, v in S.facts.items() if k[0] == "mx"))


def find_solvers(prog, ctx):
    """iterative solver routines: take the monitor and a sparse matrix, and loop"""
    out = {}
    for f in prog.fns.values():
        if f.body is None or not f.repo or f.is_lambda:
            continue
        mi = [i for i, p in enumerate(f.params) if (p["t"].rec or "").endswith("SparseMatrix") and p["ref"]]
        it = [i for i, p in enumerate(f.params) if "iteration" in (p["t"].rec or "") and p["ref"]]
        vec = [i for i, p in enumerate(f.params) if p["t"].rec == "std::vector" and p["ref"] and p["t"].const and "double" in p["t"].c]
        if mi and it and vec:
            out[f.id] = (mi[0], vec[0])
    # wrappers of another solver are analysed through
    base = {i for i in out if not (callees(prog, prog.fns[i]) & set(out) - {i})}
    ctx.need(base, "no iterative solver routine found")
    return {i: out[i] for i in base}


def run(ctx):
    prog = ctx.program()
    ctx.rule("on every history of an object, between two linear solves with the same matrix / right-hand side the object is overwritten with zeros in full "
             "before anything is accumulated into it")
    ctx.assume("a mesh has at least one element, node and matrix row (loops over them run at least once)")
    solvers = find_solvers(prog, ctx)
    g = call_graph(prog)
    users = [prog.fns[i] for i in g if g[i] & set(solvers) and i not in solvers]
    ctx.need(users, "no call of an iterative solver found")
    singles = {}

    def analyse(f, twice):
        # first pass discovers the tracked objects, second pass analyses histories
        eng = Eng(prog, ctx, solvers, f)
        eng.clears, eng.accs = set(), set()
        eng.run(f)
        eng.viol, eng.clears, eng.accs, n = [], set(), set(), len(eng.box["tracked"])
        S0 = State()
        if twice:
            for r in eng.box["tracked"]:
                if r[0][0] != "v":
                    S0.facts[("mx", r)] = "USED"
        eng.solved = []
        eng.run(f, S=S0)
        return eng

    for f in users:
        m = f
        eng = analyse(m, True)
        ctx.need(eng.solved, "the solver call in %s is never reached" % m.name)
        for w in eng.clears:
            ctx.ok("clears before assembly", "%s in %s" % w)
        if not eng.viol:
            for w in eng.accs:
                ctx.ok("accumulations into a cleared system", "%s in %s" % w)
            ctx.ok("solve call sites", "%s" % (eng.solved[0],))
            continue
        # is the object used for one solve only?  Look at every place that creates it.
        cls = m.clsn
        cid = m.cls
        makers = []
        for h in prog.fns.values():
            if h.body is None or h.is_lambda:
                continue
            for n in fn_nodes(h):
                if n.get("k") == "Construct" and not n.get("copy") and n.get("fn") in prog.fns and prog.fns[n["fn"]].cls == cid:
                    makers.append(h)
                    break
        fields = [r for r in prog.records.values() for fl in r.get("fields", []) if fl["t"].recid == cid]
        bad = None
        once = bool(makers) and not fields
        if once:
            for h in makers:
                e2 = Eng(prog, ctx, solvers, h)
                e2.clears, e2.accs = set(), set()
                e2.run(h)
                e2.viol, e2.solved = [], []
                e2.clears, e2.accs = set(), set()
                e2.run(h)
                if e2.viol:
                    once = False
                    bad = e2
                    break
                mine = [s for s in e2.solved]
                if not mine:
                    once = None
                for w in e2.accs:
                    ctx.ok("accumulations into a freshly constructed system", "%s in %s (created in %s)" % (w + (h.name,)))
        if once:
            ctx.ok("solve call sites", "%s (object created and solved once)" % (eng.solved[0],))
            continue
        for r, node, fr in eng.viol:
            what = "matrix" if any("K" == x or "at" in x for x in [s[1].rsplit("@", 1)[-1] for s in r if s[0] == "."][-1:]) else "right-hand side"
            fld = [s[1].rsplit("@", 1)[-1] for s in r if s[0] == "."][-1:] or ["?"]
            ctx.violation("%s|%s" % (m.name, fld[0]), "%s (path %s)" % (loc(node), " > ".join(fr.chain())),
                          "%s accumulates into '%s', which still holds the system of an earlier solve of the same object" % (m.name, fld[0]))
    ctx.min("solve call sites", 3)
    ctx.min("clears before assembly", 2)
