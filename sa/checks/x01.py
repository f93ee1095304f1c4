"""X01: user script evaluation keeps the interpreter stack consistent, passes and returns values in order,
and every script failure ends the program.

Abstract interpretation of every function that uses the Duktape API with the abstract Duktape stack of each
interpreter object as typestate: a tuple of item descriptions. """
from sa.interp import Engine, V, NOC, Domain, fields_of
from sa.lib import LabDom, StrDom, call_graph, fn_nodes, loc, walk

SAFE = 1 << 7


class ChkDom(Domain):
    """(call id, polarity): the value is truthy exactly when the call succeeded (polarity True) / failed (False)"""
    name = "chk"

    def un(self, eng, op, a, node, S):
        x = a.f.get("chk")
        if x and op == "!":
            return (x[0], not x[1])
        return None

    def bin(self, eng, op, a, b, node, S):
        for p, q, flip in ((a, b, False), (b, a, True)):
            x = p.f.get("chk")
            if x and q.c is not NOC and not isinstance(q.c, str):
                if q.c == 0:
                    o = op if not flip else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                    if o == "==" or o == "<=":
                        return (x[0], not x[1])
                    if o in ("!=", ">"):
                        return x
                if q.c is True or (q.c == 1 and x[1]):
                    if op == "==":
                        return x
                    if op == "!=":
                        return (x[0], not x[1])
        return None


class Eng(Engine):
    def __init__(self, prog, ctx):
        Engine.__init__(self, prog, [LabDom(), StrDom(), ChkDom()], unroll=8)
        self.ctx = ctx
        self.uses = {}
        self.formals = {}
        self.cur = None

    # ---- typestate
    def owner(self, args):
        p = args[0].v.ptr
        if p:
            q = p[0]
        else:
            s = args[0].v.sym
            q = s[1] if isinstance(s, tuple) and s and s[0] == "ld" else ("?",)
        if q and q[-1][0] == ".":
            q = q[:-1]
        return q

    def stk(self, S, o):
        return S.facts.get(("stk", o), (("f", "entry"),))

    def setstk(self, S, o, st):
        S.facts[("stk", o)] = tuple(st)

    def bad(self, what, node, fr, msg):
        key = "%s|%s" % (self.root.name, what)
        self.ctx.violation(key, "%s in %s (analysed from %s)" % (loc(node), fr.fn.name, self.root.name), msg)

    def at(self, st, i):
        if isinstance(i, int):
            j = i if i >= 0 else len(st) + i
            if 0 <= j < len(st):
                return j
        return None

    def on_call(self, name, fn, obj, args, e, S, fr):
        if not name.startswith("duk_"):
            return None
        if name in ("duk_create_heap",):
            return None
        n = name[4:]
        o = self.owner(args)
        st = list(self.stk(S, o))
        self.ctx.ok("Duktape API calls", "%s %s" % (loc(e), name))
        c = [a.v.c for a in args]
        cid = (id(e), fr.fid)
        ret = V(self.fresh(e, fr, "duk"))
        if n.startswith("destroy"):
            return [(ret, S)]
        if self.native:
            return None

        def pop(k):
            for _ in range(k):
                if not st:
                    self.bad(name + " underflow", e, fr, "%s pops from an empty interpreter stack" % name)
                    return
                st.pop()

        def item(i):
            j = self.at(st, i)
            if j is None:
                self.bad(name + " index", e, fr, "%s reads stack index %s but the stack holds %d item(s)" % (name, i if i is not NOC else "?", len(st)))
                return ("?",)
            return st[j]

        def checked(it):
            if it[0] in ("res", "prop") and S.facts.get(("st", it[1])) != "ok":
                self.bad(name + " unchecked", e, fr, "%s uses the outcome of a script operation whose failure was not excluded" % name)
        if n in ("push_number", "push_int", "push_uint", "push_string", "push_array", "push_object", "push_undefined", "push_boolean", "push_c_function", "push_lstring"):
            lab = args[1].v.f.get("lab") if len(args) > 1 else None
            st.append((n[5:], (args[1].v.c if args[1].v.c is not NOC else self.plab(lab)) if len(args) > 1 and n != "push_c_function" else None))
            if n == "push_array":
                ret = V(self.fresh(e, fr), c=len(st) - 1)
        elif n in ("dup", "dup_top"):
            st.append(item(c[1] if len(c) > 1 else -1))
        elif n in ("pop", "pop_2", "pop_3"):
            pop({"pop": 1, "pop_2": 2, "pop_3": 3}[n])
        elif n == "pop_n":
            pop(c[1])
        elif n == "set_top":
            k = c[1]
            if k is NOC or k < 0:
                k = max(0, len(st) + (k if k is not NOC else 0))
            st = st[:k] + [("undef",)] * max(0, k - len(st))
        elif n == "get_top":
            ret = V(self.fresh(e, fr), c=len(st))
        elif n in ("compile_raw", "eval_raw"):
            fl = c[3]
            if fl is NOC or not (fl & SAFE):
                self.bad(name + " unprotected", e, fr, "a script is compiled or evaluated without error protection")
            if fl is not NOC and fl & (1 << 9) and not fl & 7:
                pass
            st.append(("res", cid, "fn" if n == "compile_raw" else "value"))
            S.facts.pop(("st", cid), None)
            ret = V(self.fresh(e, fr), f={"chk": (cid, False)})
            self.src = args[1].v.f.get("str")
            if n == "compile_raw":
                self.on_source(o, args[1].v, e, fr)
        elif n in ("pcall", "call"):
            k = c[1]
            if n == "call":
                self.bad(name + " unprotected", e, fr, "the user function is called without error protection")
            if k is NOC:
                self.bad(name + " arity", e, fr, "the number of arguments of a script call is not determined")
            elif len(st) < k + 1:
                self.bad(name + " arity", e, fr, "a script call with %d argument(s) finds only %d item(s) on the stack" % (k, len(st)))
                st = []
            else:
                a = st[len(st) - k:] if k else []
                f = st[len(st) - k - 1]
                if f[0] not in ("f",) and not (f[0] == "res" and f[2] == "fn"):
                    self.bad(name + " callee", e, fr, "the value called with %d argument(s) is not the compiled function but %s" % (k, f[0]))
                self.on_args(o, a, e, fr)
                st = st[:len(st) - k - 1]
            st.append(("res", cid, "value"))
            S.facts.pop(("st", cid), None)
            ret = V(self.fresh(e, fr), f={"chk": (cid, False)})
        elif n == "get_prop":
            it = item(c[1])
            checked(it)
            keyi = st[-1] if st else ("?",)
            pop(1)
            st.append(("prop", cid, keyi[1] if keyi[0] == "push_int"[5:] or keyi[0] == "int" else None))
            S.facts.pop(("st", cid), None)
            ret = V(self.fresh(e, fr), f={"chk": (cid, True)})
        elif n in ("get_prop_index", "get_prop_string"):
            it = item(c[1])
            checked(it)
            st.append(("prop", cid, c[2] if c[2] is not NOC else None))
            S.facts.pop(("st", cid), None)
            ret = V(self.fresh(e, fr), f={"chk": (cid, True)})
        elif n in ("put_prop_index", "put_prop_string"):
            tgt = item(c[1])
            if tgt[0] not in ("array", "object"):
                self.bad(name + " target", e, fr, "%s stores into %s, not into an array" % (name, tgt[0]))
            pop(1)
        elif n == "put_global_string":
            pop(1)
        elif n in ("get_number", "to_number", "require_number", "get_int", "to_int"):
            it = item(c[1])
            checked(it)
            ret = V(self.fresh(e, fr), f={"lab": ("jsval",) + tuple(it[2:3]) if it[0] == "prop" else ("jsval", it[0])})
        elif n in ("get_length", "safe_to_lstring", "safe_to_string", "to_string", "is_number", "is_function", "is_array", "get_string"):
            item(c[1])
        else:
            self.ctx.undecide("unmodelled interpreter call %s at %s" % (name, loc(e)))
        if len(st) > 30:
            self.bad("growth", e, fr, "the interpreter stack grows without bound")
            st = st[:2]
        self.setstk(S, o, st)
        return [(ret, S)]

    def plab(self, lab):
        return lab

    def on_branch(self, cond, v, taken, S, fr):
        x = v.f.get("chk")
        if x:
            S.facts[("st", x[0])] = "ok" if taken == x[1] else "failed"
        return True

    def on_source(self, o, v, e, fr):
        if v.f.get("str"):
            self.sources.setdefault(self.oname(o), set()).add(v.f["str"])

    def oname(self, o):
        fs = fields_of(o)
        return fs[-1] if fs else str(o[0][1])

    def on_args(self, o, a, e, fr):
        self.argl.setdefault(self.oname(o), set()).add(tuple(a))

    def part_key(self, S):
        return tuple(sorted(((str(k), v) for k, v in S.facts.items()), key=str))


def comp(item):
    """('number', path) -> (vector label, component)"""
    if item[0] not in ("number",):
        return None
    p = item[1]
    if isinstance(p, tuple) and p and p[-1][0] == "[" and isinstance(p[-1][1], int):
        return (p[:-1], p[-1][1])
    return (p, None)


def run(ctx):
    prog = ctx.program()
    ctx.rule("on every path of every function using the script interpreter, the abstract interpreter stack at exit equals the stack at entry "
             "(sole compiled function), every index/arity is within it, every protected call's status is tested before its result is used, "
             "arguments are the parameters in order, vector components are returned in order")
    g = call_graph(prog)
    duk = {i for i, f in prog.fns.items() if f.name.startswith("duk_")}
    ctx.need(len(duk) >= 8, "the interpreter API is no longer used")
    users = {i for i in g if g[i] & duk}
    cls = {prog.fns[i].clsn for i in users if prog.fns[i].clsn and not prog.fns[i].is_lambda}
    ctx.need(len(cls) >= 1, "no class wraps the interpreter")
    native = [i for i in users if prog.fns[i].clsn not in cls and not prog.fns[i].is_lambda]
    methods = [f for f in prog.fns.values() if f.body is not None and f.clsn in cls and not f.implicit and f.name != f.clsn]
    ext = set()
    inner = set()
    for f in prog.fns.values():
        if f.body is None:
            continue
        for c in g[f.id]:
            if c in prog.fns and prog.fns[c].clsn in cls:
                own = f
                (inner if f.clsn in cls else ext).add(c)
    eng = None
    allargs, allsrc = {}, {}
    roots = [f for f in methods if (f.id in ext or f.id not in inner or f.ctor)]
    ctx.need(len(roots) >= 5, "fewer than five entry points of the script interpreter wrapper")
    for f in roots:
        eng = Eng(prog, ctx)
        eng.root, eng.argl, eng.sources, eng.native = f, {}, {}, False
        S = None
        from sa.interp import State
        S = State()
        o = (("o", f.clsn),)
        if f.ctor:
            S.facts[("stk", o)] = ()
        rets = eng.run(f, this=o, S=S)
        if f.dtor:
            continue
        compiles = False
        if not rets:
            ctx.violation("%s|never returns" % f.name, loc(f.body), "%s never returns when a function is already compiled" % f.name)
        for v, S2 in rets:
            st = S2.facts.get(("stk", o), (("f", "entry"),))
            want1 = (("f", "entry"),) if not f.ctor else ()
            if st == want1:
                ctx.ok("balanced exits", f.name + " " + ",".join(p["t"].s for p in f.params))
            elif len(st) == 1 and st[0][0] == "res" and st[0][2] == "fn":
                compiles = True
                if S2.facts.get(("st", st[0][1])) != "ok":
                    ctx.violation("%s|compile unchecked" % f.name, loc(f.body), "%s can return with a function whose compilation failed" % f.name)
                else:
                    ctx.ok("compiled function left alone on the stack", f.name)
            else:
                ctx.violation("%s|unbalanced exit" % f.name, loc(f.body), "%s can return with interpreter stack %s instead of the compiled function alone" % (f.name, [x[0] for x in st]))
            for k, x in S2.facts.items():
                if k[0] == "st" and x != "ok":
                    ctx.violation("%s|failure ignored" % f.name, loc(f.body), "%s can return normally after a failed script operation" % f.name)
            if isinstance(f.ret.rec, str) and f.ret.rec.startswith("Eigen"):
                base = v.obj
                comps = []
                if base is not None:
                    for i in range(3):
                        x = S2.get(base + (("[", i),))
                        comps.append(x.f.get("lab") if x is not None else None)
                if comps == [("jsval", 0), ("jsval", 1), ("jsval", 2)]:
                    ctx.ok("vector components returned in order", f.name + " " + ",".join(p["t"].s for p in f.params))
                else:
                    ctx.violation("%s/%d|component order" % (f.name, len(f.params)), loc(f.body), "%s does not return the script's components 0,1,2 as x,y,z: %s" % (f.name, comps))
            elif f.ret.b == "float" and not f.ctor:
                lab = v.f.get("lab")
                if lab == ("jsval", "res"):
                    ctx.ok("scalar result returned", f.name)
                else:
                    ctx.violation("%s|scalar result" % f.name, loc(f.body), "%s does not return the script's result (%s)" % (f.name, lab))
        # argument order
        pars = [(p["d"], p["t"]) for p in f.params]
        for on, argsets in eng.argl.items():
            for a in argsets:
                flat = []
                for it in a:
                    if it[0] == "array":
                        flat.append("array")
                    else:
                        c = comp(it)
                        flat.append(c)
                exp = []
                okk = True
                k = 0
                for d, t in pars:
                    if t.b == "float":
                        exp.append((d, None))
                    elif t.rec and t.rec.startswith("Eigen"):
                        exp += [(d, 0), (d, 1), (d, 2)]
                    elif t.rec == "std::vector":
                        exp.append("array")
                got = []
                for c in flat:
                    if c == "array" or c is None:
                        got.append(c)
                    else:
                        p, i = c
                        r = p[0] if p else None
                        got.append(((r[1] if r and r[0] == "v" else (f.params[r[2]]["d"] if r and r[0] == "p" else str(r))), i))
                if got == exp:
                    ctx.ok("arguments passed in order", "%s(%d)" % (f.name, len(exp)))
                else:
                    ctx.violation("%s/%d|argument order" % (f.name, len(f.params)), loc(f.body), "%s passes %s to the script instead of its parameters %s in order" % (f.name, got, exp))
        for on, ss in eng.sources.items():
            for s in ss:
                pn = [p["n"] for p in f.params]
                srcs = [x[1] for x in s if x[0] == "s"]
                if srcs == pn or (f.ctor and not srcs):
                    ok = True
                    if len(pn) > 1:
                        # function(PARAMS) { return [(X), (Y), (Z)]; }
                        txt = "".join(x[1].replace(" ", "") if x[0] == "c" else "\x00" for x in s)
                        ok = txt == "function(\x00){return[(\x00),(\x00),(\x00)];}"
                    if ok:
                        ctx.ok("script text built from its parameters in order", f.name)
                        continue
                ctx.violation("%s|script text" % f.name, loc(f.body), "%s compiles a text that does not consist of its parameters in order, each expression parenthesised: %s" % (f.name, s))
    # callers: formal parameters of the expressions against the arguments of the evaluations
    formals, evals = {}, {}
    meth_args = {}
    for f in prog.fns.values():
        if f.body is None or f.clsn in cls:
            continue
        for n in fn_nodes(f):
            if n.get("k") == "Call" and n.get("fn") in prog.fns and prog.fns[n["fn"]].clsn in cls and n.get("obj") is not None:
                callee = prog.fns[n["fn"]]
                ob = n["obj"]
                while ob.get("k") == "Cast":
                    ob = ob["e"]
                on = ob.get("n", "?")
                if len(callee.params) == 4:
                    lit = [x for x in walk(n["args"][0]) if x.get("lk") == "str"]
                    if lit:
                        formals.setdefault(on, set()).add((lit[0]["v"], loc(n)))
                elif callee.ret.b == "float" or (callee.ret.rec or "").startswith("Eigen"):
                    cnt = sum(3 if (p["t"].rec or "").startswith("Eigen") else 1 for p in callee.params)
                    evals.setdefault(on, set()).add(cnt)
    for on, fs in formals.items():
        for txt, where in fs:
            k = len([x for x in txt.split(",") if x.strip()])
            if on in evals and min(evals[on]) != k:
                ctx.violation("%s|formals" % on, where, "expressions of '%s' are compiled with parameters (%s) but evaluated with %d argument(s)" % (on, txt, min(evals[on])))
            elif k == 3 and [x.strip() for x in txt.split(",")] != ["x", "y", "z"]:
                ctx.violation("%s|formals" % on, where, "position expressions are compiled with parameters (%s)" % txt)
            else:
                ctx.ok("formal parameters match evaluations", on)
    ctx.min("balanced exits", 4)
    ctx.min("compiled function left alone on the stack", 1)
    ctx.min("vector components returned in order", 3)
    ctx.min("arguments passed in order", 3)
    ctx.min("formal parameters match evaluations", 2)
