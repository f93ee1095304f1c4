"""L04: parallel loops are free of data races.

Effect analysis of every closure handed to a standard algorithm with an execution policy: each store, load and call reached from the closure is classified by the
place it touches - private to the invocation (its own variables and temporaries), the element of the invocation, or shared with the other invocations."""
from sa.interp import Engine, V, NOC, strip, Closure
from sa.lib import loc, fn_nodes, call_graph, fieldname, walk

# library functions with hidden shared state
UNSAFE = {"rand", "srand", "random", "drand48", "lrand48", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "strerror", "getenv", "setenv", "tmpnam", "signal"}
EIG_MUT = {"normalize", "stableNormalize", "transposeInPlace", "swap", "resize", "conservativeResize", "setRandom", "setIdentity", "setLinSpaced", "reverseInPlace", "setUnit", "noalias"}
CONT_MUT = {"push_back", "emplace_back", "insert", "emplace", "push", "clear", "resize", "assign", "reserve", "erase", "pop_back", "swap", "shrink_to_fit", "pop", "append",
            "open", "close", "write", "seed", "discard"}
COMM = {"plus", "multiplies", "logical_and", "logical_or", "bit_and", "bit_or", "bit_xor"}


def is_policy(a):
    return a.node is not None and a.node.get("t") is not None and "execution" in (a.node["t"].c or "")


class Region:
    def __init__(self, sn, e, fr, fn):
        self.sn, self.e, self.fr, self.fn = sn, e, fr, fn
        self.own_w, self.sh_r, self.sh_w = {}, {}, {}


class Eng(Engine):
    def __init__(self, prog, ctx):
        Engine.__init__(self, prog, [])
        self.ctx = ctx
        self.reg = None
        self.xcls = {}
        self.sto = None
        self.binding = 0     # > 0: a reference is being bound, nothing is read

    def deflt(self, path, t):
        v = Engine.deflt(self, path, t)
        if t is not None and t.ptr and v.ptr is None and not t.ref:
            v = v.with_(ptr=(path + ((".", "#deref"),),))
        return v

    # ---- regions
    def model_algo(self, sn, name, e, fn, args, S, fr):
        par = bool(args) and is_policy(args[0])
        if not par or self.reg is not None:
            return Engine.model_algo(self, sn, name, e, fn, args, S, fr)
        r = Region(sn, e, fr, fr.fn)
        if sn in ("transform_reduce", "reduce", "inner_product", "inclusive_scan", "exclusive_scan"):
            self.reduction(sn, args, e, S, fr)
        self.reg = r
        try:
            S.facts["locks"] = frozenset()
            out = Engine.model_algo(self, sn, name, e, fn, args, S, fr)
        finally:
            self.reg = None
        self.conflicts(r)
        return out

    def on_algo(self, sn, par, its, clos, e, S, fr):
        if self.reg is None or self.reg.e is not e:
            return
        if clos:
            self.ctx.ok("parallel loops analysed", "%s in %s at %s" % (sn, fr.fn.name, loc(e)))
        else:
            self.ctx.ok("parallel library algorithms without user code", "%s in %s at %s" % (sn, fr.fn.name, loc(e)))

    def on_algo_iter(self, sn, par, e, S, fr):
        if self.reg is not None and self.reg.e is e and S.facts.get("locks"):
            self.bad("locked", e, "an iteration can end with a mutex locked, the next one that needs it waits forever")

    def reduction(self, sn, args, e, S, fr):
        ops = [a for a in args[1:] if not a.v.ptr or a.v.clo]
        cands = []
        for a in ops:
            t = a.node.get("t") if a.node is not None else None
            c = (t.c if t is not None else "") or ""
            if a.v.clo:
                cands.append((a, c))
            elif "std::" in c and any(x in c for x in ("std::plus", "std::minus", "std::multiplies", "std::divides", "std::modulus", "std::logical", "std::bit_")):
                cands.append((a, c))
        if not cands:
            self.ctx.ok("reductions whose order does not matter", "%s at %s" % (sn, loc(e)))
            return
        a, c = cands[0]
        if a.v.clo:
            for cl in a.v.clo:
                f = self.prog.fns.get(cl.fn)
                if f is None or f.body is None or len(f.params) != 2:
                    self.ctx.ok("reductions whose order does not matter", "%s at %s" % (sn, loc(e)))
                    continue
                ids = {p["d"] for p in f.params}
                badn = None
                for n in fn_nodes(f):
                    if n.get("k") == "Bin" and n.get("op") in ("-", "/", "%"):
                        l, r = strip(n["a"]), strip(n["b"])
                        if (l.get("k") == "Ref" and l.get("d") in ids) or (r.get("k") == "Ref" and r.get("d") in ids):
                            badn = n
                if badn is not None:
                    self.bad("reduce", badn, "the values of a parallel loop are combined by an operation that depends on the order")
                else:
                    self.ctx.ok("reductions whose order does not matter", "%s at %s" % (sn, loc(e)))
        elif any("std::" + x in c for x in COMM):
            self.ctx.ok("reductions whose order does not matter", "%s at %s" % (sn, loc(e)))
        else:
            self.bad("reduce", e, "the values of a parallel loop are combined by an operation that depends on the order")

    def bad(self, key, node, msg):
        r = self.reg
        where = loc(node) if node is not None and node.get("l") is not None else loc(r.e if r else node)
        fn = r.fn.name if r is not None else "?"
        self.ctx.violation("%s|%s|%s" % (key, fn, where.split(":")[0]), where, msg + " (parallel loop in %s)" % fn)

    # ---- classification of places
    def inside(self, fid, fr):
        """frame fid was created by the running parallel loop"""
        f = fr
        while f is not None and f is not self.reg.fr:
            if f.fid == fid:
                return True
            f = f.parent
        return False

    def mentions_el(self, x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] == "el" and x[1] == id(self.reg.e):
                return True
            return any(self.mentions_el(y) for y in x)
        return False

    def own_index(self, k):
        """selector that is different in each invocation: the position of its element, or the (distinct) value of the element of an index list"""
        if not isinstance(k, tuple):
            return False
        if k[0] == "el" and k[1] == id(self.reg.e):
            return True
        if k[0] == "s":
            s = k[1]
            while isinstance(s, tuple) and len(s) == 2 and s[0] in ("cast", "conv"):
                s = s[1]
            if isinstance(s, tuple) and s[:1] == ("ld",) and isinstance(s[1], tuple) and s[1] and s[1][-1][0] == "[" and self.own_index(s[1][-1][1]):
                return True
        return False

    def cls(self, path, fr):
        r = path[0]
        if r[0] in ("v", "t"):
            if isinstance(r[1], str) and r[1].startswith("static:"):
                return "shared"
            if len(r) > 2 and self.inside(r[2], fr):
                return "private"
            if r[0] == "t":
                # temporaries of the algorithm call itself
                if len(r) > 1 and (r[1] == id(self.reg.e) or (isinstance(r[1], tuple) and id(self.reg.e) in r[1])):
                    return "private"
        if r[0] == "x" and self.xcls.get(r[1], "shared") != "shared":
            return self.xcls[r[1]]
        for s in path[1:]:
            if s[0] == "[" and self.own_index(s[1]):
                return "own"
        return "shared"

    def gpath(self, path):
        out = []
        for s in path:
            if s[0] == "[":
                out.append(("[", "*" if not (isinstance(s[1], tuple) and s[1][0] == "el") else "el"))
            elif s[0] == ".":
                out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def fields(self, path):
        """fields after the selector of the element"""
        for i in range(1, len(path)):
            if path[i][0] == "[" and self.own_index(path[i][1]):
                return tuple(s[1] for s in path[i + 1:] if s[0] == ".")
        return tuple(s[1] for s in path[1:] if s[0] == ".")

    def container(self, path):
        for i in range(1, len(path)):
            if path[i][0] == "[" and self.own_index(path[i][1]):
                return self.gpath(path[:i])
        return None

    def show(self, path):
        return (fieldname(path[-1]) if path[-1][0] == "." else None) or next((fieldname(s) for s in reversed(path) if s[0] == "."), None) or self.vname(path[0])

    def vname(self, r):
        if r[0] == "p" and len(r) > 3:
            return r[3]
        return str(r[1]).split("@")[-1] if len(r) > 1 else "?"

    def protects(self, locks, path):
        """a mutex that belongs to the object that holds the place, or to every invocation"""
        for m in locks:
            base = m
            while base and base[-1][0] == ".":
                base = base[:-1]
            if not any(s[0] == "[" for s in m):
                return m
            if path[:len(base)] == base:
                return m
        return None

    def on_store(self, path, v, S, node, fr):
        if self.reg is None:
            return
        c = self.cls(path, fr)
        if c == "private":
            return
        if c == "own":
            self.reg.own_w.setdefault((self.container(path), self.fields(path)[:1]), node)
            self.ctx.ok("writes to the element of the iteration", "%s at %s" % (self.show(path), loc(node) if node is not None and node.get("l") else "?"))
            return
        m = self.protects(S.facts.get("locks") or (), path)
        if m is not None:
            self.reg.sh_w.setdefault((self.gpath(path)), []).append((m, node))
            self.ctx.ok("shared writes under a mutex", "%s at %s" % (self.show(path), loc(node)))
            return
        if self.atomic(node):
            return
        self.bad("write", node or self.reg.e, "%s is shared by the iterations of a parallel loop and written without protection" % self.show(path))

    def atomic(self, node):
        n = node
        for k in ("a", "obj", "e"):
            x = n.get(k) if n is not None else None
            if isinstance(x, dict) and x.get("t") is not None and "atomic" in (x["t"].c or ""):
                return True
        return False

    def on_load(self, path, v, S, node, fr):
        if self.reg is None:
            return
        c = self.cls(path, fr)
        if c == "private":
            return
        if c == "own":
            return
        if self.binding:
            return
        m = self.protects(S.facts.get("locks") or (), path)
        self.reg.sh_r.setdefault(self.gpath(path), []).append((m, node))

    def conflicts(self, r):
        self.reg = r
        for (cont, flds), wn in r.own_w.items():
            for g, rs in r.sh_r.items():
                # a read of another element of the written container, of the same field
                if cont is None or g[:len(cont)] != cont or len(g) <= len(cont):
                    continue
                gf = tuple(s[1] for s in g[len(cont):] if s[0] == ".")
                if (not flds) or gf[:1] == flds:
                    self.bad("read", rs[0][1] or wn, "an iteration of a parallel loop reads what another one writes (%s)" % (fieldname((".", flds[0])) if flds else self.show(g)))
        for g, ws in r.sh_w.items():
            ms = {self.gpath(m) for m, _ in ws}
            for m, n in r.sh_r.get(g, ()):
                if m is None or self.gpath(m) not in ms:
                    self.bad("unlocked read", n or r.e, "%s is written under a mutex but read without it" % self.show(g))
            if len(ms) > 1:
                self.bad("mutexes", ws[0][1], "%s is written under different mutexes" % self.show(g))
        self.reg = None

    # ---- calls
    def on_call(self, name, fn, obj, args, node, S, fr):
        if self.reg is None:
            return None
        sn = name.rsplit("::", 1)[-1]
        if obj is not None and obj.p and name.startswith("std::") and ("mutex" in name):
            locks = S.facts.get("locks") or frozenset()
            if sn == "lock":
                if any(p in locks for p in obj.p):
                    self.bad("deadlock", node, "a mutex already held is locked again")
                S.facts["locks"] = locks | set(obj.p)
                self.ctx.ok("locks", loc(node))
                return [(V(("void",)), S)]
            if sn == "unlock":
                S.facts["locks"] = locks - set(obj.p)
                return [(V(("void",)), S)]
        if fn is not None and fn.ctor and any(k in name for k in ("lock_guard", "unique_lock", "scoped_lock")) and args and args[0].p:
            S.facts["locks"] = (S.facts.get("locks") or frozenset()) | set(args[0].p)
            S.facts["scoped"] = (S.facts.get("scoped") or frozenset()) | {(fr.fid, p) for p in args[0].p}
            self.ctx.ok("locks", loc(node))
        return None

    def stored_closures(self):
        """lambdas assigned to data members of type std::function, by member"""
        if self.sto is None:
            self.sto = {}
            for f in self.prog.fns.values():
                if f.body is None or not f.repo:
                    continue
                for n in fn_nodes(f):
                    if n.get("k") in ("Assign", "Call") and n.get("op") == "=":
                        tgt = strip(n.get("obj") or n.get("a")) if (n.get("obj") or n.get("a")) else None
                        if tgt is None or tgt.get("k") != "Member" or tgt.get("t") is None or "function<" not in (tgt["t"].c or ""):
                            continue
                        src = (n.get("args") or [n.get("b")])[-1]
                        for m in walk(src) if src is not None else ():
                            if m.get("k") == "Lambda":
                                self.sto.setdefault(tgt["d"], []).append((f, m))
        return self.sto

    def call1(self, e, fn, name, obj, args, S, fr):
        if self.reg is not None and e.get("op") == "()" and name.startswith("std::function") and obj is not None and obj.p and not obj.v.clo:
            for p in obj.p:
                if p[-1][0] == "." and p[-1][1] in self.stored_closures():
                    for f, m in self.stored_closures()[p[-1][1]]:
                        caps = {c["d"]: (("cap", c["d"]),) for c in m["caps"] if c.get("d")}
                        cl = Closure(m["fn"], caps, (("o", f.clsn),) if any(c.get("this") for c in m["caps"]) else None)
                        self.invoke(cl, args, e, S.copy(), fr)
                        self.ctx.ok("stored function objects called by parallel loops", "%s from %s" % (fieldname(p[-1]), f.name))
        return Engine.call1(self, e, fn, name, obj, args, S, fr)

    def on_leave(self, fn, S, fr):
        sc = S.facts.get("scoped")
        if sc:
            gone = {x for x in sc if x[0] == fr.fid}
            if gone:
                S.facts["locks"] = (S.facts.get("locks") or frozenset()) - {p for _, p in gone}
                S.facts["scoped"] = sc - gone

    def join_facts(self, a, b):
        r = dict(a)
        r["locks"] = (a.get("locks") or frozenset()) & (b.get("locks") or frozenset())
        r["scoped"] = (a.get("scoped") or frozenset()) & (b.get("scoped") or frozenset())
        return r

    def part_key(self, S):
        return S.facts.get("locks")

    def model(self, name, e, fn, obj, args, S, fr):
        if self.reg is not None:
            sn = name.rsplit("::", 1)[-1]
            if obj is not None and obj.p and name.startswith(("std::", "Eigen::")):
                mut = (name.startswith("Eigen::") and sn in EIG_MUT) or (name.startswith("std::") and sn in CONT_MUT)
                if mut:
                    for p in obj.p:
                        if self.cls(p, fr) == "shared" and self.protects(S.facts.get("locks") or (), p) is None:
                            self.bad("call", e, "%s changes an object shared by the iterations of a parallel loop (%s)" % (sn, self.show(p)))
            if obj is None and sn in UNSAFE and (name == sn or name == "std::" + sn):
                self.bad("unsafe", e, "%s is not safe to call from the iterations of a parallel loop" % sn)
        return Engine.model(self, name, e, fn, obj, args, S, fr)

    def opaque(self, e, fn, name, obj, args, S, fr):
        if self.reg is not None:
            sn = name.rsplit("::", 1)[-1]
            if obj is not None and obj.p and fn is not None and fn.method and not fn.const and not fn.static and not fn.ctor and not self.harmless(name, sn, e):
                for p in obj.p:
                    if self.cls(p, fr) == "shared" and self.protects(S.facts.get("locks") or (), p) is None:
                        self.bad("call", e, "%s changes an object shared by the iterations of a parallel loop (%s)" % (sn, self.show(p)))
            if fn is not None and not name.startswith(("std::", "Eigen::", "__")) and not fn.method:
                # a C library handle shared by the iterations
                for i, a in enumerate(args):
                    pt = fn.params[i]["t"] if i < len(fn.params) else None
                    if pt is not None and pt.ptr and not pt.pconst and not a.p and self.shared_value(a.v, fr):
                        self.bad("handle", e, "%s works on an object shared by the iterations of a parallel loop" % sn)
        r = Engine.opaque(self, e, fn, name, obj, args, S, fr)
        if self.reg is not None and r[0].ptr:
            # a reference to something inside the receiver
            c = "shared"
            if obj is not None and obj.p:
                cs = {self.cls(p, fr) for p in obj.p}
                c = "shared" if "shared" in cs else "own" if "own" in cs else "private"
            for p in r[0].ptr:
                if p[0][0] == "x":
                    self.xcls[p[0][1]] = c
        return r

    def decl(self, d, S, fr):
        if not d.get("ref"):
            return Engine.decl(self, d, S, fr)
        self.binding += 1
        try:
            return Engine.decl(self, d, S, fr)
        finally:
            self.binding -= 1

    def x_Return(self, s, states, fr):
        if fr.fn.ret is None or not fr.fn.ret.ref:
            return Engine.x_Return(self, s, states, fr)
        self.binding += 1
        try:
            return Engine.x_Return(self, s, states, fr)
        finally:
            self.binding -= 1

    def inline(self, *a, **k):
        b, self.binding = self.binding, 0
        try:
            return Engine.inline(self, *a, **k)
        finally:
            self.binding = b

    def shared_value(self, v, fr):
        s = v.sym
        if isinstance(s, tuple) and s[:1] == ("ld",) and isinstance(s[1], tuple) and s[1]:
            return self.cls(s[1], fr) == "shared"
        return bool(v.ptr) and any(self.cls(p, fr) == "shared" for p in v.ptr)

    def harmless(self, name, sn, e):
        if name.startswith("Eigen::"):
            return sn not in EIG_MUT
        if name.startswith(("std::mutex", "std::atomic", "std::basic_ostream", "std::function", "std::__atomic", "std::lock_guard", "std::unique_lock", "std::shared_mutex", "std::recursive_mutex")):
            return True
        if name.startswith("std::") and (sn in ("begin", "end", "data", "front", "back", "operator[]", "at", "operator->", "operator*", "get", "find", "lower_bound", "upper_bound", "equal_range", "count", "size")):
            return True
        return False


def run(ctx):
    ctx.rule("in every closure run by a standard algorithm with an execution policy, and in everything it calls: a store or a non-const call may reach only variables of "
             "the invocation, the element of the invocation, atomics, or places guarded by a mutex of the same object; what one invocation writes no other reads; locks are "
             "released on every path; no function with hidden state; reductions use operations whose order does not matter")
    ctx.assume("the lists of indices magTet and magTri hold each index once; two reference parameters of one function refer to different objects unless a caller in the program passes the same one")
    prog = ctx.program()
    g = call_graph(prog)
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    direct = set()
    for f in prog.fns.values():
        if f.body is None or not f.repo:
            continue
        for n in fn_nodes(f):
            if n.get("k") == "Call" and n.get("args") and n["args"][0] is not None and n["args"][0].get("t") is not None and "execution::" in (n["args"][0]["t"].c or ""):
                direct.add(f.id)
    ctx.need(direct, "no parallel algorithm found")
    roots = set()
    for d in direct:
        f = prog.fns[d]
        if not f.is_lambda:
            roots.add(d)
        for c in rev.get(d, ()):
            if prog.fns[c].repo and not prog.fns[c].is_lambda:
                roots.add(c)
                for c2 in rev.get(c, ()):
                    if c not in direct and len(prog.fns[c].params) and prog.fns[c2].repo and not prog.fns[c2].is_lambda and prog.fns[c].name.startswith("algebra::"):
                        roots.add(c2)
    if ctx.tier == "thorough":
        roots |= {c for r in list(roots) for c in rev.get(r, ()) if prog.fns[c].repo and not prog.fns[c].is_lambda}
    n = 0
    for r in sorted(roots, key=lambda r: prog.fns[r].name):
        f = prog.fns[r]
        if f.body is None:
            continue
        eng = Eng(prog, ctx)
        eng.max_depth = 14
        eng.run(f)
        n += 1
        ctx.cov["roots"] = n
    ctx.min("parallel loops analysed", 1)
