"""A context-sensitive abstract interpreter over the resolved program exported by the clang frontend.

It never runs the program: statements transform abstract states, branches are joined, loops are
iterated to a fixpoint, calls of functions of the repository (lambdas, function objects and virtual
overriders included) are analysed in the caller's context.  Memory is a map from access paths to
abstract values; every abstract value carries a value-number, an optional constant, an optional set
of pointed-to paths, an optional set of callables, and the facets of the domains plugged in.
"""
import sys

sys.setrecursionlimit(20000)

NOC = type("NoConst", (), {"__repr__": lambda s: "-"})()


class V:
    __slots__ = ("sym", "c", "ptr", "obj", "clo", "f")

    def __init__(self, sym=None, c=NOC, ptr=None, obj=None, clo=None, f=None):
        self.sym = sym
        self.c = c
        self.ptr = ptr
        self.obj = obj
        self.clo = clo
        self.f = f or {}

    def key(self):
        return (self.sym, repr(self.c), self.ptr, self.clo, tuple(sorted(self.f.items(), key=lambda kv: kv[0])) if self.f else ())

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, V) or self.sym != o.sym or self.ptr != o.ptr or self.clo != o.clo or self.f != o.f:
            return False
        return self.c is o.c or (type(self.c) == type(o.c) and (self.c == o.c or self.c != self.c))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def with_(self, **k):
        d = dict(sym=self.sym, c=self.c, ptr=self.ptr, obj=self.obj, clo=self.clo, f=self.f)
        d.update(k)
        return V(**d)

    def __repr__(self):
        s = []
        if self.c is not NOC:
            s.append("c=%r" % (self.c,))
        if self.ptr:
            s.append("ptr=%s" % (self.ptr,))
        if self.clo:
            s.append("clo")
        if self.f:
            s.append(str(self.f))
        return "V(%s)" % ",".join(s)


class Closure:
    __slots__ = ("fn", "caps", "this")

    def __init__(self, fn, caps, this):
        self.fn, self.caps, self.this = fn, caps, this

    def _k(self):
        return (self.fn, self.this)

    def __eq__(self, o):
        return isinstance(o, Closure) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())


class State:
    __slots__ = ("roots", "own", "assumed", "facts")

    def __init__(self):
        self.roots = {}
        self.own = set()
        self.assumed = {}
        self.facts = {}

    def copy(self):
        n = State()
        n.roots = dict(self.roots)
        self.own = set()
        n.assumed = dict(self.assumed)
        n.facts = dict(self.facts)
        return n

    def get(self, path):
        r = self.roots.get(path[0])
        return r.get(path[1:]) if r is not None else None

    def put(self, path, v):
        r = path[0]
        if r not in self.own:
            self.roots[r] = dict(self.roots.get(r, ()))
            self.own.add(r)
        self.roots[r][path[1:]] = v

    def drop(self, path):
        r = path[0]
        d = self.roots.get(r)
        if not d:
            return
        n = len(path) - 1
        sub = path[1:]
        ks = [k for k in d if k[:n] == sub]
        if ks:
            if r not in self.own:
                d = self.roots[r] = dict(d)
                self.own.add(r)
            for k in ks:
                del d[k]

    def under(self, path):
        d = self.roots.get(path[0])
        if not d:
            return []
        n = len(path) - 1
        sub = path[1:]
        if n == 0:
            return [(k, v) for k, v in d.items() if k]
        return [(k[n:], v) for k, v in d.items() if len(k) > n and k[:n] == sub]


class Domain:
    """facet plug-in; every method may return None for 'unknown'"""
    name = "?"

    def default(self, eng, path, t):
        return None

    def lit(self, eng, node, c):
        return None

    def bin(self, eng, op, a, b, node, S):
        return None

    def un(self, eng, op, a, node, S):
        return a.f.get(self.name)

    def cast(self, eng, a, node):
        return a.f.get(self.name)

    def call(self, eng, name, obj, args, node, S):
        return None

    def join(self, a, b):
        return a if a == b else None

    def elem(self, eng, v, key):
        """facet of an element of an aggregate value"""
        return v.f.get(self.name)


class Frame:
    def __init__(self, fn, this, fid, depth, site, parent=None):
        self.fn, self.this, self.fid, self.depth, self.site, self.parent = fn, this, fid, depth, site, parent
        self.brk, self.cont = [], []
        self.rets = []
        self.gotos = {}
        self.env = {}
        self.loops = []

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.fn.name)
            f = f.parent
        return out[::-1]


class Arg:
    __slots__ = ("v", "p", "node")

    def __init__(self, v, p, node):
        self.v, self.p, self.node = v, p, node

    @property
    def c(self):
        return self.v.c

    @property
    def f(self):
        return self.v.f


def strip(n):
    while n is not None and n.get("k") == "Cast" and n.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "Opaque", "LValueToRValue"):
        n = n["e"]
    return n


def is_class(t):
    return t is not None and t.rec is not None and not t.ptr


def idx_key(v):
    if v.c is not NOC and isinstance(v.c, (int, str)):
        return v.c if not isinstance(v.c, bool) else int(v.c)
    return ("s", v.sym)


def sel_is_sym(s):
    return s[0] == "[" and isinstance(s[1], tuple)


def gen(path):
    """the summary path: every symbolic index replaced"""
    for s in path[1:]:
        if sel_is_sym(s):
            return (path[0],) + tuple(("[", "*") if sel_is_sym(x) else x for x in path[1:])
    return path


EIG_SAME = {"noalias", "array", "matrix", "derived", "eval", "transpose", "real", "const_cast_derived", "template", "asDiagonal"}
EIG_SUB = {"col", "row", "head", "tail", "segment", "block", "diagonal", "topRows", "leftCols", "colwise", "rowwise", "corner"}
VEC3 = {"x": 0, "y": 1, "z": 2, "w": 3}
BEGINS = {"begin", "cbegin", "end", "cend", "rbegin", "rend", "front", "back", "data", "find", "at", "operator[]", "operator()", "coeff", "coeffRef"}


class Engine:
    algo_split = False

    def __init__(self, prog, domains=(), max_depth=24, unroll=0, nonempty=False):
        self.nonempty = nonempty
        self.ranges = {}
        self.prog = prog
        self.doms = list(domains)
        self.max_depth = max_depth
        self.max_parts = 24
        self.unroll = unroll
        self.fids = {}
        self.throws = []
        self.genidx = {}
        self.stats = {"functions": set(), "calls_inlined": 0, "calls_opaque": 0, "stores": 0, "branches": 0}
        self.loop_syms = set()
        self.stop_inline = set()

    # ------------------------------------------------------------------ hooks (overridden by checks)
    def on_store(self, path, v, S, node, fr):
        pass

    def on_call(self, name, fn, obj, args, node, S, fr):
        """return None to go on, or a list [(V,S)] replacing the call"""
        return None

    def on_branch(self, cond, val, taken, S, fr):
        """refine S; return False when the branch is infeasible"""
        return True

    def on_exit(self, name, args, node, S, fr):
        pass

    def on_return(self, v, node, S, fr):
        pass

    def on_decl(self, d, S, fr):
        pass

    def on_enter(self, fn, S, fr):
        pass

    def on_leave(self, fn, S, fr):
        pass

    def on_load(self, path, v, S, node, fr):
        pass

    def on_throw(self, node, S, fr):
        pass

    def on_loop(self, kind, node, S, fr):
        """called with the state at every arrival at a loop head through the back edge"""
        pass

    def part_key(self, S):
        return tuple(sorted(S.facts.items(), key=lambda kv: str(kv[0])))

    def join_facts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}

    def inline_ok(self, fn, fr):
        return True

    # ------------------------------------------------------------------ values
    def mk(self, sym, c=NOC, **f):
        return V(sym, c, f=f)

    def fresh(self, node, fr, tag="n"):
        return (tag, id(node) if node is not None else 0, fr.fid if fr else 0)

    def bounded(self, sym, node, fr):
        def size(s, lim):
            if lim <= 0:
                return 0
            lim -= 1
            if isinstance(s, tuple):
                for x in s:
                    lim = size(x, lim)
                    if lim <= 0:
                        return 0
            return lim
        return sym if size(sym, 60) > 0 else self.fresh(node, fr)

    def deflt(self, path, t):
        f = {}
        for d in self.doms:
            x = d.default(self, path, t)
            if x is not None:
                f[d.name] = x
        v = V(("ld", path), f=f)
        return v

    def joinv(self, a, b, phi):
        if a is b or a == b:
            return a
        f = {}
        for d in self.doms:
            x, y = a.f.get(d.name), b.f.get(d.name)
            j = x if x == y and x is not None else d.join(x, y)
            if j is not None:
                f[d.name] = j
        c = NOC
        if a.c is not NOC and b.c is not NOC and type(a.c) == type(b.c) and a.c == b.c:
            c = a.c
        ptr = a.ptr
        if a.ptr != b.ptr:
            if a.ptr and b.ptr:
                ptr = tuple(sorted(set(a.ptr) | set(b.ptr), key=str))
                if len(ptr) > 6:
                    ptr = None
            else:
                ptr = a.ptr or b.ptr
        clo = a.clo
        if a.clo != b.clo:
            clo = tuple(dict.fromkeys((a.clo or ()) + (b.clo or ()))) or None
        sym = a.sym if a.sym == b.sym else phi
        return V(sym, c, ptr, a.obj if a.obj == b.obj else None, clo, f)

    # ------------------------------------------------------------------ memory
    def load(self, path, S, t=None, node=None, fr=None):
        v = S.get(path)
        if v is None:
            v = self.load_missing(path, S, t)
        if is_class(t):
            v = v.with_(obj=path)
        self.on_load(path, v, S, node, fr)
        return v

    def load_missing(self, path, S, t):
        g = gen(path)
        if g is not path:
            v = S.get(g)
            if v is not None:
                return v.with_(sym=("ld", path), obj=None)
        # an enclosing aggregate stored as one value
        for k in range(len(path) - 1, 0, -1):
            for pp in ((path[:k], g[:k]) if g is not path else (path[:k],)):
                pv = S.get(pp)
                if pv is None:
                    continue
                rest = path[k:]
                if pv.obj is not None:          # copied from another symbolic object
                    return self.deflt(pv.obj + rest, t).with_(sym=("ld", path))
                if all(s[0] == "[" for s in rest):
                    star = S.get(pp + (("[", "*"),))
                    if star is not None:
                        return star.with_(sym=("ld", path), obj=None)
                    f = {}
                    for d in self.doms:
                        x = d.elem(self, pv, rest)
                        if x is not None:
                            f[d.name] = x
                    if f:
                        return V(("ld", path), f=f)
                if pv.f:
                    f = {}
                    for d in self.doms:
                        x = d.elem(self, pv, rest)
                        if x is not None:
                            f[d.name] = x
                    v = self.deflt(path, t)
                    f2 = dict(v.f)
                    for kk, x in f.items():
                        f2.setdefault(kk, x)
                    return v.with_(f=f2)
        if path[-1][0] == "[" and len(path) > 1:
            star = S.get(path[:-1] + (("[", "*"),))
            if star is not None:
                return star.with_(sym=("ld", path), obj=None)
        return self.deflt(path, t)

    def store(self, path, v, S, node, fr, weak=False, quiet=False):
        if not quiet:
            self.stats["stores"] += 1
            self.on_store(path, v, S, node, fr)
        src = v.obj
        if weak:
            old = S.get(path)
            if old is None:
                old = self.load_missing(path, S, None)
            nv = self.joinv(old, v, ("w", path))
            S.put(path, nv.with_(obj=None) if nv.obj is not None and nv.obj == path else nv)
            if src is not None and src != path:
                for sub, x in S.under(src):
                    o = S.get(path + sub)
                    S.put(path + sub, x if o is None else self.joinv(o, x, ("w", path + sub)))
            return
        if src is not None and src == path:
            return
        subs = S.under(src) if src is not None else []
        S.drop(path)
        S.put(path, v)
        for sub, x in subs:
            S.put(path + sub, x)
        g = gen(path)
        if g is not path:
            old = S.get(g)
            S.put(g, v.with_(sym=("w", g), obj=None) if old is None and path[0][0] in ("v", "t") else
                  self.joinv(old if old is not None else self.deflt(g, None), v, ("w", g)))
            for sub, x in subs:
                o = S.get(g + sub)
                S.put(g + sub, x if o is None else self.joinv(o, x, ("w", g + sub)))
            al = self.genidx.setdefault(g, set())
            al.add(path)
            for p in al:
                if p != path:
                    o = S.get(p)
                    if o is not None:
                        S.put(p, self.joinv(o, v, ("w", p)))
        elif path[-1][0] == "[" and len(path) > 1 and not isinstance(path[-1][1], tuple) and path[-1][1] != "*":
            sp = path[:-1] + (("[", "*"),)
            old = S.get(sp)
            S.put(sp, v.with_(sym=("w", sp), obj=None) if old is None else self.joinv(old, v, ("w", sp)))

    def drop_frame(self, S, fid):
        for r in [r for r in S.roots if r[0] in ("v", "t") and r[2] == fid]:
            del S.roots[r]

    # ------------------------------------------------------------------ joins
    def join_states(self, A, B, site):
        if A is B:
            return A
        N = State()
        for r in set(A.roots) | set(B.roots):
            a, b = A.roots.get(r), B.roots.get(r)
            if a is None or b is None or a is b:
                N.roots[r] = a if a is not None else b
                continue
            d = {}
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if x is None:
                    x = self.load_missing((r,) + k, A, None) if k else y
                if y is None:
                    y = self.load_missing((r,) + k, B, None) if k else x
                d[k] = self.joinv(x, y, ("phi", site, r, k))
            N.roots[r] = d
        N.assumed = {k: v for k, v in A.assumed.items() if B.assumed.get(k) == v}
        N.facts = A.facts if A.facts == B.facts else self.join_facts(A.facts, B.facts)
        return N

    def states_eq(self, A, B):
        if A.facts != B.facts:
            return False
        if set(A.roots) != set(B.roots):
            return False
        for r, a in A.roots.items():
            b = B.roots[r]
            if a is b:
                continue
            if set(a) != set(b):
                return False
            for k, v in a.items():
                if v != b[k]:
                    return False
        return A.assumed == B.assumed

    def merge(self, states, site):
        states = [s for s in states if s is not None]
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.part_key(s), []).append(s)
        out = []
        for k, g in groups.items():
            j = g[0]
            for s in g[1:]:
                j = self.join_states(j, s, site)
            out.append(j)
        if len(out) > self.max_parts:
            j = out[0]
            for s in out[1:]:
                j = self.join_states(j, s, site)
            out = [j]
        return out

    # ------------------------------------------------------------------ statements
    def ex(self, s, states, fr):
        if s is None or not states:
            return states
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m:
            return m(s, states, fr)
        out = []
        for S in states:
            out += [S2 for _, S2 in self.ev(s, S, fr)]
        return self.merge(out, id(s)) if len(out) > 1 else out

    def x_Null(self, s, states, fr):
        return states

    def x_Compound(self, s, states, fr):
        labels = [i for i, x in enumerate(s["s"]) if x and x["k"] == "Label"]
        if not labels:
            for x in s["s"]:
                states = self.ex(x, states, fr)
            return states
        body = s["s"]
        pend = {}
        for it in range(5):
            st = states if it == 0 else []
            start = 0
            for i, x in enumerate(body):
                if x and x["k"] == "Label":
                    extra = fr.gotos.get(x["n"], [])
                    st = self.merge(st + list(pend.get(x["n"], [])) + extra, id(x))
                    pend[x["n"]] = list(st)
                    fr.gotos[x["n"]] = []
                    st = self.ex(x["b"], st, fr)
                else:
                    st = self.ex(x, st, fr)
            if not any(fr.gotos.get(body[i]["n"]) for i in labels):
                return st
        return st

    def x_Label(self, s, states, fr):
        extra = fr.gotos.pop(s["n"], [])
        return self.ex(s["b"], self.merge(states + extra, id(s)), fr)

    def x_Goto(self, s, states, fr):
        fr.gotos.setdefault(s["n"], []).extend(states)
        return []

    def x_Decl(self, s, states, fr):
        for d in s["d"]:
            out = []
            for S in states:
                out += self.decl(d, S, fr)
            states = self.merge(out, id(d)) if len(out) > 1 else out
        return states

    def vpath(self, did, fr):
        return (("v", did, fr.fid),)

    def decl(self, d, S, fr):
        if d.get("static"):
            return [S]
        p = self.vpath(d["d"], fr)
        S.drop(p)
        init = d.get("init")
        out = []
        if d.get("decomp"):
            for v, S in self.ev(init, S, fr):
                paths = v.ptr or ((v.obj,) if v.obj else None)
                for i, b in enumerate(d["bind"]):
                    bp = self.vpath(b, fr)
                    if paths:
                        S.put(bp, V(("bind", bp), ptr=tuple(x + ((".", "#%d" % i),) for x in paths), f={"ref": True}))
                    else:
                        S.put(bp, V(self.fresh(d, fr, "b%d" % i), f=v.f))
                out.append(S)
            return out
        if init is None:
            self.on_decl(d, S, fr)
            return [S]
        if d["ref"]:
            for paths, S in self.lv(init, S, fr):
                if paths is None:
                    paths = ((("t", id(d), fr.fid),),)
                S.put(p, V(("ref", p), ptr=paths, f={"ref": True}))
                out.append(S)
            return out
        for v, S in self.ev(init, S, fr):
            if v.obj is not None and v.obj[0][0] == "ct" or (v.obj == p):
                pass
            self.assign_to(p, v, S, d, fr, d["t"])
            self.on_decl(d, S, fr)
            out.append(S)
        return out

    def assign_to(self, p, v, S, node, fr, t=None):
        self.store(p, v, S, node, fr)

    def x_If(self, s, states, fr):
        if s.get("init"):
            states = self.ex(s["init"], states, fr)
        if s.get("var"):
            out = []
            for S in states:
                out += self.decl(s["var"], S, fr)
            states = out
        t, f = [], []
        for S in states:
            a, b = self.branch(s["c"], S, fr)
            t += a
            f += b
        t = self.merge(t, ("t", id(s)))
        f = self.merge(f, ("f", id(s)))
        t = self.ex(s["a"], t, fr)
        f = self.ex(s["b"], f, fr) if s.get("b") else f
        return self.merge(t + f, id(s))

    def branch(self, c, S, fr):
        """split S on condition c -> (true states, false states)"""
        c = self.unbool(c)
        k = c["k"]
        if k == "Un" and c["op"] == "!":
            a, b = self.branch(c["e"], S, fr)
            return b, a
        if k == "Bin" and c["op"] in ("&&", "||"):
            a, b = self.branch(c["a"], S, fr)
            t, f = [], []
            if c["op"] == "&&":
                f += b
                for S2 in a:
                    x, y = self.branch(c["b"], S2, fr)
                    t += x
                    f += y
            else:
                t += a
                for S2 in b:
                    x, y = self.branch(c["b"], S2, fr)
                    t += x
                    f += y
            return self.merge(t, id(c)), self.merge(f, ("f", id(c)))
        t, f = [], []
        self.stats["branches"] += 1
        for v, S1 in self.ev(c, S, fr):
            for taken, acc in ((True, t), (False, f)):
                if v.c is not NOC and not isinstance(v.c, str):
                    if bool(v.c) != taken:
                        continue
                known = S1.assumed.get(v.sym)
                if known is not None and known != taken:
                    continue
                S2 = S1.copy()
                if v.sym is not None:
                    S2.assumed[v.sym] = taken
                if self.on_branch(c, v, taken, S2, fr) is False:
                    continue
                acc.append(S2)
        return t, f

    def unbool(self, c):
        while c["k"] == "Cast" and c.get("ck") in ("IntegralToBoolean", "NoOp", "PointerToBoolean", "UserDefinedConversion"):
            c = c["e"]
        return c

    # loops
    def loop(self, s, states, fr, cond, body, inc, post_test=False, counted=False, ind=None):
        cur = states
        exits = []
        brk_all = []
        site = (id(s), fr.fid)
        unrolled = 0
        it = 0
        while True:
            it += 1
            if cond is None or (post_test and it == 1):
                t, f = cur, []
            else:
                t, f = [], []
                for S in cur:
                    a, b = self.branch(cond, S, fr)
                    t += a
                    f += b
                t = self.merge(t, ("lt",) + site)
            f = [x for x in f]
            fr.brk.append([])
            fr.cont.append([])
            b = self.ex(body, [x.copy() for x in t], fr) if not callable(body) else body([x.copy() for x in t])
            brks = fr.brk.pop()
            b = self.merge(b + fr.cont.pop(), ("lc",) + site)
            if inc is not None:
                b = self.ex(inc, b, fr)
            if ind is not None:
                for S in b:
                    S.put(ind[0], ind[1])
            decided = not f and t
            if decided and not brks and unrolled < self.unroll and b:
                # the condition is decided by constants: analyse the next iteration separately
                unrolled += 1
                cur = b
                continue
            exits = f if not (self.nonempty and it == 1 and counted and b) else []
            first_f = f
            brk_all += brks
            for S in b:
                self.on_loop("back", s, S, fr)
            for S in b:
                self.fold(S, site)
                for kk in [kk for kk in S.assumed if not any(kk in c0.assumed for c0 in cur)]:
                    del S.assumed[kk]
            if self.nonempty and counted:
                # at least one iteration: leave through the state after the body
                nxt = self.merge(([] if it == 1 else cur) + b, ("phi",) + site)
                if it > 1 and (self.same(nxt, cur) or it > 12 or not b):
                    break
                if not b:
                    break
                cur = nxt
                continue
            nxt = self.merge(cur + b, ("phi",) + site)
            if self.same(nxt, cur) or it > 12 or not b:
                break
            cur = nxt
        return self.merge(exits + brk_all, ("lx",) + site)

    def full_key(self, key, cont):
        """the symbolic index key runs over the whole container at path cont"""
        if not isinstance(key, tuple):
            return False
        if key[0] == "el":
            return "part" not in key
        if key[0] == "s" and key[1] in self.ranges:
            lo, op, hi = self.ranges[key[1]]
            if lo.c is NOC or lo.c != 0:
                return False
            h = hi.sym
            if isinstance(h, tuple) and h and h[0] == "b" and h[1] in ("-", "/", "%"):
                return False
            sz = isinstance(h, tuple) and "size" in str(h[1] if len(h) > 1 else "") or (isinstance(h, tuple) and "::size" in str(h))
            return op in ("<", "!=") and (bool(sz) or None)
        return False

    def fold(self, S, site):
        """forget per-iteration element identities of this loop"""
        def mentions(x):
            if isinstance(x, tuple):
                if x[:1] == ("el",) and x[1:3] == site:
                    return True
                if len(x) >= 2 and x[0] == "phi" and isinstance(x[1], tuple) and x[1][1:] == site:
                    return True
                return any(mentions(y) for y in x)
            return False
        for r in list(S.roots):
            d = S.roots[r]
            ks = [k for k in d if any(sel_is_sym(x) and mentions(x[1]) for x in k)]
            if ks:
                if r not in S.own:
                    d = S.roots[r] = dict(d)
                    S.own.add(r)
                for k in ks:
                    del d[k]

    def same(self, a, b):
        if len(a) != len(b):
            return False
        ka = {self.part_key(x): x for x in a}
        kb = {self.part_key(x): x for x in b}
        return set(ka) == set(kb) and all(self.states_eq(ka[k], kb[k]) for k in ka)

    def counting(self, c, inc, body):
        """c: condition, inc: increment, body: statements that must not write the variable  ->  (variable, op, bound expression)"""
        if not c or not inc:
            return None
        c = strip(c)
        if c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=", ">"):
            return None
        a, b = self.uncast(c["a"]), self.uncast(c["b"])
        op = c["op"]
        if op == ">":
            a, b, op = b, a, "<"
        if a["k"] != "Ref" or a.get("dk") in ("fn", "enum") or a.get("t") is None or a["t"].b != "int" or not a.get("d"):
            return None
        inc = strip(inc)
        ok = inc["k"] == "Un" and inc["op"] in ("++", "post++") and strip(inc["e"]).get("d") == a["d"]
        ok = ok or (inc["k"] == "Assign" and inc["op"] == "+=" and strip(inc["a"]).get("d") == a["d"] and self.const_of(self.uncast(inc["b"])) == 1)
        ok = ok or (inc["k"] == "Assign" and inc["op"] == "+=" and strip(inc["a"]).get("d") == a["d"] and self.uncast(inc["b"]).get("v") == 1)
        if not ok:
            return None
        # the body must not write the variable
        for x in body:
            for n in self.walk(x):
                if n.get("k") == "Assign" and strip(n["a"]).get("d") == a["d"]:
                    return None
                if n.get("k") == "Un" and n.get("op") in ("++", "--", "post++", "post--", "&") and strip(n["e"]).get("d") == a["d"]:
                    return None
        return a["d"], op, b

    def uncast(self, n):
        n = strip(n)
        while n is not None and n.get("k") == "Cast" and n.get("ck") in ("IntegralCast", "NoOp"):
            n = strip(n["e"])
        return n

    @staticmethod
    def walk(n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                yield x
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(v for v in x if isinstance(v, (dict, list)))

    def x_For(self, s, states, fr):
        states = self.ex(s.get("init"), states, fr)
        r = self.counting(s.get("c"), s.get("inc"), [s["b"]])
        ind = self.induction(s, r, states, fr) if r is not None else None
        return self.loop(s, states, fr, s.get("c"), s["b"], s.get("inc"), counted=ind is not None, ind=ind)

    def induction(self, s, r, states, fr):
        did, op, hi = r
        site = ("phi", id(s), fr.fid)
        vp = self.vpath(did, fr)
        sym = ("phi", site, vp[0], ())
        ind = None
        for S in states:
            v = S.get(vp)
            if v is None or v.f.get("ref"):
                continue
            h = self.ev(hi, S.copy(), fr)
            hv = h[0][0] if h else V(None)
            if self.unroll and v.c is not NOC and hv.c is not NOC and isinstance(hv.c, int) and hv.c - v.c <= self.unroll:
                continue
            self.ranges[sym] = (v, op, hv)
            pv = V(sym, f=dict(v.f))
            S.put(vp, pv)
            ind = (vp, pv)
        return ind

    def x_While(self, s, states, fr):
        b = s["b"]
        if b and b.get("k") == "Compound" and b["s"] and not any(n.get("k") in ("Continue", "Goto") for n in self.walk(b)):
            r = self.counting(s["c"], b["s"][-1], b["s"][:-1])
            if r is not None:
                ind = self.induction(s, r, states, fr)
                if ind is not None:
                    return self.loop(s, states, fr, s["c"], b.setdefault("_lead", dict(b, s=b["s"][:-1])), b["s"][-1], counted=True, ind=ind)
        return self.loop(s, states, fr, s["c"], s["b"], None)

    def x_Do(self, s, states, fr):
        return self.loop(s, states, fr, s["c"], s["b"], None, post_test=True)

    def x_RangeFor(self, s, states, fr):
        out = []
        for S in states:
            for paths, S2 in self.lv(s["range"], S, fr):
                out.append((paths, S2))
        res = []
        for paths, S in out:
            res += self.range_loop(s, paths, S, fr)
        return self.merge(res, id(s))

    def range_loop(self, s, paths, S, fr):
        site = (id(s), fr.fid)
        d = s["v"]
        p = self.vpath(d["d"], fr)

        def body(states):
            o = []
            for S in states:
                eps = tuple(x + (("[", ("el",) + site),) for x in paths) if paths else ((("t", id(s), fr.fid),),)
                S.drop(p)
                if s.get("bind"):
                    for i, b in enumerate(s["bind"]):
                        S.put(self.vpath(b, fr), V(("ref", b), ptr=tuple(x + ((".", "#%d" % i),) for x in eps), f={"ref": True}))
                elif d["ref"]:
                    S.put(p, V(("ref", p), ptr=eps, f={"ref": True}))
                else:
                    v = self.load(eps[0], S, d["t"], s, fr)
                    for e in eps[1:]:
                        v = self.joinv(v, self.load(e, S, d["t"], s, fr), ("phi", id(s)))
                    self.store(p, v, S, d, fr)
                self.on_iter(s, eps, S, fr)
                o.append(S)
            return self.ex(s["b"], o, fr)
        cur = [S]
        brk_all = []
        for it in range(12):
            fr.brk.append([])
            fr.cont.append([])
            b = body([x.copy() for x in cur])
            brk_all += fr.brk.pop()
            b = self.merge(b + fr.cont.pop(), ("lc",) + site)
            for S1 in b:
                self.on_loop("back", s, S1, fr)
                self.fold(S1, site)
                for kk in [kk for kk in S1.assumed if not any(kk in c0.assumed for c0 in cur)]:
                    del S1.assumed[kk]
            nxt = self.merge((cur if not (self.nonempty and it == 0) else []) + b, ("phi",) + site)
            if not b:
                if self.nonempty:
                    cur = [] if it == 0 else cur
                break
            if self.same(nxt, cur):
                break
            cur = nxt
        return self.merge(cur + brk_all, ("lx",) + site)

    def on_iter(self, s, eps, S, fr):
        pass

    def x_Switch(self, s, states, fr):
        states = self.ex(s.get("init"), states, fr) if s.get("init") else states
        body = s["b"]["s"] if s["b"]["k"] == "Compound" else [s["b"]]
        # flatten the labels
        flat = []

        def add(x):
            if x and x["k"] in ("Case", "Default"):
                flat.append(("L", x))
                add(x["b"])
            else:
                flat.append(("S", x))
        for x in body:
            add(x)
        labels = [x for t, x in flat if t == "L" and x["k"] == "Case"]
        entry = {}
        dflt = []
        for S in states:
            for v, S1 in self.ev(s["c"], S, fr):
                S1 = S1
                rest = S1
                hit = False
                for lab in labels:
                    cv = lab.get("cv")
                    if v.c is not NOC:
                        if v.c == cv:
                            entry.setdefault(id(lab), []).append(S1.copy())
                            hit = True
                    else:
                        sy = ("eqc", v.sym, cv)
                        if S1.assumed.get(sy) is False:
                            continue
                        S2 = S1.copy()
                        S2.assumed[sy] = True
                        if self.on_case(s["c"], v, cv, True, S2, fr) is not False:
                            entry.setdefault(id(lab), []).append(S2)
                        rest.assumed[sy] = False
                if not hit:
                    if self.on_case(s["c"], v, [l.get("cv") for l in labels], False, rest, fr) is not False:
                        dflt.append(rest)
        fr.brk.append([])
        cur = []
        hasdef = False
        for t, x in flat:
            if t == "L":
                if x["k"] == "Case":
                    cur = self.merge(cur + entry.get(id(x), []), id(x))
                else:
                    hasdef = True
                    cur = self.merge(cur + dflt, id(x))
            else:
                cur = self.ex(x, cur, fr)
        out = cur + fr.brk.pop() + ([] if hasdef else dflt)
        return self.merge(out, id(s))

    def on_case(self, cond, v, cv, taken, S, fr):
        return True

    def x_Case(self, s, states, fr):
        return self.ex(s["b"], states, fr)

    x_Default = x_Case

    def x_Break(self, s, states, fr):
        if fr.brk:
            fr.brk[-1].extend(states)
        return []

    def x_Continue(self, s, states, fr):
        if fr.cont:
            fr.cont[-1].extend(states)
        return []

    def x_Return(self, s, states, fr):
        for S in states:
            if s.get("e") is None:
                self.on_return(None, s, S, fr)
                fr.rets.append((V(("void",)), S))
                continue
            if fr.fn.ret.ref:
                for paths, S2 in self.lv(s["e"], S, fr):
                    v = V(self.fresh(s, fr), ptr=paths)
                    self.on_return(v, s, S2, fr)
                    fr.rets.append((v, S2))
            else:
                for v, S2 in self.ev(s["e"], S, fr):
                    self.on_return(v, s, S2, fr)
                    fr.rets.append((v, S2))
        return []

    def x_Try(self, s, states, fr):
        begin = [S.copy() for S in states]
        self.throws.append([])
        out = self.ex(s["b"], states, fr)
        thrown = self.throws.pop()
        hs = self.merge(begin + thrown + [x.copy() for x in out], ("try", id(s)))
        for h in s["h"]:
            st = [x.copy() for x in hs]
            for x in st:
                self.on_catch(h, x, fr)
            out = out + self.ex(h["b"], st, fr)
        return self.merge(out, id(s))

    def on_catch(self, h, S, fr):
        pass

    def x_OtherStmt(self, s, states, fr):
        for x in s.get("s", []):
            states = self.ex(x, states, fr)
        return states

    # ------------------------------------------------------------------ expressions
    def ev(self, e, S, fr):
        if e is None:
            return [(V(("void",)), S)]
        return getattr(self, "e_" + e["k"])(e, S, fr)

    def facets(self, meth, *a):
        f = {}
        for d in self.doms:
            x = getattr(d, meth)(self, *a)
            if x is not None:
                f[d.name] = x
        return f

    def e_Lit(self, e, S, fr):
        lk = e["lk"]
        c = e["v"]
        if lk == "float":
            c = float(c)
        elif lk == "bool":
            c = bool(c)
        elif lk in ("null",):
            c = 0
        return [(V(("c", lk, c), c, f=self.facets("lit", e, c)), S)]

    def const_of(self, e):
        if "cv" in e:
            return e["cv"]
        if "cvf" in e:
            return float(e["cvf"])
        return NOC

    def e_This(self, e, S, fr):
        return [(V(("this", fr.this), ptr=(fr.this,) if fr.this else None), S)]

    def load_set(self, paths, S, e, fr):
        t = e.get("t") if e else None
        if not paths:
            return V(self.fresh(e, fr), f=self.facets("default", (("t", id(e), 0),), t))
        v = self.load(paths[0], S, t, e, fr)
        for p in paths[1:]:
            v = self.joinv(v, self.load(p, S, t, e, fr), ("phi", id(e)))
        return v

    def e_Ref(self, e, S, fr):
        dk = e.get("dk")
        if dk == "fn":
            return [(V(("fn", e["d"]), clo=(Closure(e["d"], {}, None),)), S)]
        if dk == "enum":
            return [(V(("c", "int", e["cv"]), e["cv"], f=self.facets("lit", e, e["cv"])), S)]
        c = self.const_of(e)
        if c is not NOC:
            f = self.facets("lit", e, c)
            g = self.facets("default", self.ref_path(e, fr, S)[0], e.get("t")) if dk == "global" else {}
            f.update(g)
            return [(V(("c", "n", c), c, f=f), S)]
        return [(self.load_set(self.ref_path(e, fr, S), S, e, fr), S)]

    def ref_path(self, e, fr, S):
        did = e["d"]
        if e.get("dk") == "global":
            return ((("g", did),),)
        if did in fr.env:
            p = fr.env[did]
            if isinstance(p, tuple) and p and p[0] == "ptrs":
                return p[1]
            base = p
        else:
            base = self.vpath(did, fr)
        v = S.get(base)
        if v is not None and v.f.get("ref") is True:
            return v.ptr
        return (base,)

    def e_Member(self, e, S, fr):
        if e.get("dk") == "static":
            c = self.const_of(e)
            if c is not NOC:
                return [(V(("c", "n", c), c, f=self.facets("lit", e, c)), S)]
            return [(self.load((("g", e["d"]),), S, e["t"], e, fr), S)]
        return [(self.load_set(p, S2, e, fr), S2) for p, S2 in self.lv(e, S, fr)]

    def e_Sub(self, e, S, fr):
        return [(self.load_set(p, S2, e, fr), S2) for p, S2 in self.lv(e, S, fr)]

    def e_Lambda(self, e, S, fr):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            if "init" in c:
                for v, S in self.ev(c["init"], S, fr)[:1]:
                    p = (("v", c["d"], fr.fid),)
                    self.store(p, v, S, e, fr, quiet=True)
                    caps[c["d"]] = p
                continue
            d = c["d"]
            if d in fr.env:
                caps[d] = fr.env[d]
            else:
                caps[d] = self.vpath(d, fr)
        return [(V(self.fresh(e, fr, "lam"), clo=(Closure(e["fn"], caps, this),)), S)]

    def binv(self, op, a, b, e, S, fr):
        c = self.const_of(e) if e is not None and e.get("k") == "Bin" else NOC
        if c is NOC and a.c is not NOC and b.c is not NOC and not (isinstance(a.c, str) ^ isinstance(b.c, str)):
            try:
                x, y = a.c, b.c
                if op in ("+", "+="):
                    c = x + y
                elif op in ("-", "-="):
                    c = x - y
                elif op in ("*", "*="):
                    c = x * y
                elif op in ("/", "/="):
                    c = x / y if isinstance(x, float) or isinstance(y, float) else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
                elif op == "%":
                    c = abs(x) % abs(y) * (1 if x >= 0 else -1)
                elif op == "==":
                    c = x == y
                elif op == "!=":
                    c = x != y
                elif op == "<":
                    c = x < y
                elif op == ">":
                    c = x > y
                elif op == "<=":
                    c = x <= y
                elif op == ">=":
                    c = x >= y
                elif op == "&":
                    c = int(x) & int(y)
                elif op == "|":
                    c = int(x) | int(y)
                elif op == "<<":
                    c = int(x) << int(y)
                elif op == ">>":
                    c = int(x) >> int(y)
            except Exception:
                c = NOC
        sa, sb = a.sym, b.sym
        o = op.rstrip("=") if op in ("+=", "-=", "*=", "/=") else op
        if o in ("+", "*", "==", "!=", "&", "|") and str(sb) < str(sa):
            sa, sb = sb, sa
        if o in (">", ">="):
            o = "<" if o == ">" else "<="
            sa, sb = sb, sa
        sym = self.bounded(("b", o, sa, sb), e, fr)
        if c is not NOC:
            sym = ("c", "n", c)
        f = {}
        for d in self.doms:
            x = d.bin(self, op, a, b, e, S)
            if x is not None:
                f[d.name] = x
        return V(sym, c, f=f)

    def e_Bin(self, e, S, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a, b = self.branch(e, S, fr)
            out = []
            if a:
                out += [(V(("c", "bool", True), True), x) for x in a]
            if b:
                out += [(V(("c", "bool", False), False), x) for x in b]
            return out
        if op == ",":
            return [r for _, S1 in self.ev(e["a"], S, fr) for r in self.ev(e["b"], S1, fr)]
        out = []
        for a, S1 in self.ev(e["a"], S, fr):
            for b, S2 in self.ev(e["b"], S1, fr):
                v = self.binv(op, a, b, e, S2, fr)
                if op in ("+", "-") and e["t"].ptr:
                    pv = a if a.ptr else b
                    if pv.ptr:
                        v = v.with_(ptr=tuple(self.adv(p, v.sym) for p in pv.ptr))
                out.append((v, S2))
        return out

    def adv(self, p, sym):
        if p and p[-1][0] == "[":
            return p[:-1] + (("[", ("s", sym)),)
        return p + (("[", ("s", sym)),)

    def e_Assign(self, e, S, fr):
        out = []
        op = e["op"]
        for b, S1 in self.ev(e["b"], S, fr):
            for paths, S2 in self.lv(e["a"], S1, fr):
                if op != "=":
                    a = self.load_set(paths, S2, e["a"], fr)
                    v = self.binv(op, a, b, e, S2, fr)
                    if a.ptr and op in ("+=", "-="):
                        v = v.with_(ptr=tuple(self.adv(p, v.sym) for p in a.ptr))
                else:
                    v = b
                self.store_set(paths, v, S2, e, fr)
                out.append((v.with_(obj=None) if v.obj is None else v, S2))
        return out

    def store_set(self, paths, v, S, node, fr):
        if not paths:
            return
        weak = len(paths) > 1
        for p in paths:
            self.store(p, v, S, node, fr, weak=weak)

    def e_Un(self, e, S, fr):
        op = e["op"]
        c = self.const_of(e)
        if op == "*":
            return [(self.load_set(p, S2, e, fr), S2) for p, S2 in self.lv(e, S, fr)]
        if op == "&":
            t = strip(e["e"])
            if t["k"] == "Ref" and t.get("dk") == "fn":
                return self.ev(t, S, fr)
            return [(V(self.fresh(e, fr) if not p else ("addr", p), ptr=p), S2) for p, S2 in self.lv(e["e"], S, fr)]
        if op in ("++", "--", "post++", "post--"):
            out = []
            for paths, S2 in self.lv(e["e"], S, fr):
                a = self.load_set(paths, S2, e["e"], fr)
                one = V(("c", "int", 1), 1, f=self.facets("lit", e, 1))
                v = self.binv("+" if "+" in op else "-", a, one, None, S2, fr)
                if a.ptr:
                    v = v.with_(ptr=tuple(self.adv(p, v.sym) for p in a.ptr))
                self.store_set(paths, v, S2, e, fr)
                out.append((a if op.startswith("post") else v, S2))
            return out
        out = []
        for a, S2 in self.ev(e["e"], S, fr):
            cc = c
            if cc is NOC and a.c is not NOC and not isinstance(a.c, str):
                if op == "-":
                    cc = -a.c
                elif op == "!":
                    cc = not a.c
                elif op == "+":
                    cc = a.c
                elif op == "~":
                    cc = ~a.c
            f = {}
            for d in self.doms:
                x = d.un(self, op, a, e, S2)
                if x is not None:
                    f[d.name] = x
            sym = ("c", "n", cc) if cc is not NOC else self.bounded(("u", op, a.sym), e, fr)
            out.append((V(sym, cc, f=f), S2))
        return out

    def e_Cond(self, e, S, fr):
        a, b = self.branch(e["c"], S, fr)
        out = []
        for x in a:
            out += self.ev(e["a"], x, fr)
        for x in b:
            out += self.ev(e["b"], x, fr)
        return self.merge_vals(out, e, fr)

    def merge_vals(self, out, e, fr):
        if len(out) <= 1:
            return out
        groups = {}
        for v, S in out:
            k = (self.part_key(S), repr(v.c) if v.c is not NOC and isinstance(v.c, bool) else None)
            groups.setdefault(k, []).append((v, S))
        res = []
        for k, g in groups.items():
            v, S = g[0]
            for v2, S2 in g[1:]:
                v = self.joinv(v, v2, ("phi", id(e), fr.fid))
                S = self.join_states(S, S2, ("mv", id(e), fr.fid))
            res.append((v, S))
        return res

    def e_Cast(self, e, S, fr):
        ck = e.get("ck")
        c = self.const_of(e)
        out = []
        for v, S2 in self.ev(e["e"], S, fr):
            if ck in ("IntegralToFloating", "FloatingToIntegral", "IntegralCast", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean"):
                f = {}
                for d in self.doms:
                    x = d.cast(self, v, e)
                    if x is not None:
                        f[d.name] = x
                cc = c
                if cc is NOC and v.c is not NOC and not isinstance(v.c, str):
                    cc = {"IntegralToFloating": float, "FloatingToIntegral": int, "IntegralToBoolean": bool, "FloatingToBoolean": bool}.get(ck, lambda z: z)(v.c) if v.c == v.c and abs(v.c) < 1e300 else NOC
                if ck in ("FloatingToIntegral",):
                    sym = ("toint", v.sym)
                else:
                    sym = v.sym
                out.append((v.with_(c=cc, f=f, sym=sym), S2))
            else:
                out.append((v, S2))
        return out

    def e_InitList(self, e, S, fr):
        t = e["t"]
        if len(e["args"]) == 1 and t is not None and t.rec == "std::array" and strip(e["args"][0])["k"] == "InitList":
            return self.e_InitList(strip(e["args"][0]), S, fr)
        res = [([], S)]
        for a in e["args"]:
            nxt = []
            for vs, S1 in res:
                for v, S2 in self.ev(a, S1, fr):
                    nxt.append((vs + [v], S2))
            res = nxt
        out = []
        for vs, S1 in res:
            if len(vs) == 1 and not is_class(t) and not t.arr:
                out.append((vs[0], S1))
                continue
            p = (("t", id(e), fr.fid),)
            S1.drop(p)
            rec = self.prog.records.get(t.recid) if t.recid else None
            v0 = V(self.fresh(e, fr))
            for d in self.doms:
                x = d.call(self, "{init-list}", None, [Arg(v, None, None) for v in vs], e, S1)
                if x is not None:
                    v0.f[d.name] = x
            S1.put(p, v0)
            for i, v in enumerate(vs):
                if rec and rec.get("fields") and i < len(rec["fields"]):
                    sp = p + ((".", rec["fields"][i]["d"]),)
                else:
                    sp = p + (("[", i),)
                self.store(sp, v, S1, e, fr, quiet=True)
            out.append((v0.with_(obj=p), S1))
        return out

    def e_New(self, e, S, fr):
        out = []
        for v, S2 in (self.ev(e["e"], S, fr) if e.get("e") else [(V(self.fresh(e, fr)), S)]):
            p = (("h", id(e)),)
            self.store(p, v, S2, e, fr, quiet=True)
            out.append((V(("new", id(e), fr.fid), ptr=(p,)), S2))
        return out

    def e_Delete(self, e, S, fr):
        return [(V(("void",)), S2) for _, S2 in self.ev(e["e"], S, fr)]

    def e_Throw(self, e, S, fr):
        for _, S2 in (self.ev(e["e"], S, fr) if e.get("e") else [(None, S)]):
            self.on_throw(e, S2, fr)
            if self.throws:
                self.throws[-1].append(S2)
        return []

    def e_ArrayCopy(self, e, S, fr):
        return [(self.load_set(p, S2, e["e"], fr).with_(obj=p[0] if p else None), S2) for p, S2 in self.lv(e["e"], S, fr)]

    def e_Other(self, e, S, fr):
        res = [(V(self.fresh(e, fr), self.const_of(e), f=self.facets("default", (("t", id(e), 0),), e.get("t"))), S)]
        for a in e.get("args", []):
            res = [(v, S2) for v, S1 in res for _, S2 in self.ev(a, S1, fr)]
        return res

    def e_Construct(self, e, S, fr):
        if e.get("copy") and e["args"]:
            a = e["args"][0]
            out = []
            for v, S2 in self.ev(a, S, fr):
                if v.ptr and v.obj is None and is_class(e["t"]):
                    r = self.load_set(v.ptr, S2, e, fr)
                    out.append((r.with_(obj=v.ptr[0]), S2))
                else:
                    out.append((v, S2))
            return out
        return self.call(e, S, fr)

    def e_Call(self, e, S, fr):
        return self.call(e, S, fr)

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, S, fr):
        e = strip(e)
        k = e["k"]
        if k == "Ref" and e.get("dk") not in ("fn", "enum"):
            return [(self.ref_path(e, fr, S), S)]
        if k == "This":
            return [((fr.this,) if fr.this else None, S)]
        if k == "Member":
            if e.get("dk") == "static":
                return [(((("g", e["d"]),),), S)]
            out = []
            if e.get("arrow"):
                for v, S2 in self.ev(e["b"], S, fr):
                    ps = v.ptr
                    out.append((self.member(ps, e["d"], S2), S2))
            else:
                for ps, S2 in self.lv(e["b"], S, fr):
                    out.append((self.member(ps, e["d"], S2), S2))
            return out
        if k == "Sub":
            out = []
            base = strip(e["a"])
            for i, S1 in self.ev(e["b"], S, fr):
                if base.get("t") is not None and base["t"].ptr:
                    for v, S2 in self.ev(base, S1, fr):
                        self.on_index(v.ptr, i, e, S2, fr)
                        out.append((tuple(self.adv2(p, i) for p in v.ptr) if v.ptr else None, S2))
                else:
                    for ps, S2 in self.lv(base, S1, fr):
                        self.on_index(ps, i, e, S2, fr)
                        out.append((tuple(p + (("[", idx_key(i)),) for p in ps) if ps else None, S2))
            return out
        if k == "Un" and e["op"] == "*":
            return [(v.ptr, S2) for v, S2 in self.ev(e["e"], S, fr)]
        if k == "Un" and e["op"] in ("++", "--"):
            return [r for _, S2 in self.ev(e, S, fr) for r in self.lv(e["e"], S2, fr)]
        if k == "Assign":
            return [r for _, S2 in self.ev(e, S, fr) for r in self.lv(e["a"], S2, fr)]
        if k == "Cond":
            a, b = self.branch(e["c"], S, fr)
            out = []
            for x in a:
                out += self.lv(e["a"], x, fr)
            for x in b:
                out += self.lv(e["b"], x, fr)
            if len(out) > 1:
                ps = tuple(dict.fromkeys(p for o, _ in out for p in (o or ())))
                st = out[0][1]
                for _, x in out[1:]:
                    st = self.join_states(st, x, ("lvc", id(e), fr.fid))
                return [(ps or None, st)]
            return out
        if k == "Cast" and not (e["t"].b):
            return self.lv(e["e"], S, fr)
        out = []
        for v, S2 in self.ev(e, S, fr):
            if k == "Call" and v.ptr and not (e["t"] is not None and e["t"].ptr):
                out.append((v.ptr, S2))
            elif v.obj is not None and v.obj[0][0] == "t":
                out.append(((v.obj,), S2))
            else:
                p = (("t", id(e), fr.fid),)
                S2.drop(p)
                self.store(p, v, S2, e, fr, quiet=True)
                out.append(((p,), S2))
        return out

    def member(self, ps, did, S):
        if not ps:
            return None
        out = []
        ft = self.field_type(did)
        for p in ps:
            q = p + ((".", did),)
            if ft is not None and ft.ref:
                v = S.get(q)
                if v is not None and v.f.get("ref") is True and v.ptr:
                    out.extend(v.ptr)
                    continue
            out.append(q)
        return tuple(out)

    def adv2(self, p, i):
        if i.c == 0 and i.c is not NOC:
            return p
        if p and p[-1][0] == "[":
            return p[:-1] + (("[", ("s", ("off", p[-1], i.sym))),)
        return p + (("[", idx_key(i)),)

    # ------------------------------------------------------------------ calls
    def eval_args(self, args, params, S, fr):
        res = [([], S)]
        for i, a in enumerate(args):
            nxt = []
            pt = params[i] if i < len(params) else None
            want_ref = pt is not None and pt.get("ref")
            for vs, S1 in res:
                if want_ref or (pt is None and a is not None and is_class(a.get("t"))):
                    for ps, S2 in self.lv(a, S1, fr):
                        v = self.load_set(ps, S2, strip(a), fr) if ps else V(self.fresh(a, fr))
                        nxt.append((vs + [Arg(v, ps, a)], S2))
                else:
                    for v, S2 in self.ev(a, S1, fr):
                        nxt.append((vs + [Arg(v, v.ptr if v.ptr else ((v.obj,) if v.obj else None), a)], S2))
            res = nxt
        return res

    def call(self, e, S, fr):
        fn = self.prog.fns.get(e.get("fn")) if e.get("fn") else None
        name = fn.name if fn else "?"
        objs = [(None, S)]
        if e.get("obj") is not None:
            o = e["obj"]
            objs = []
            if o.get("t") is not None and o["t"].ptr and not e.get("op"):
                for v, S2 in self.ev(o, S, fr):
                    objs.append((Arg(self.load_set(v.ptr, S2, None, fr) if v.ptr else V(self.fresh(o, fr)), v.ptr, o), S2))
            else:
                for ps, S2 in self.lv(o, S, fr):
                    objs.append((Arg(self.load_set(ps, S2, strip(o), fr), ps, o), S2))
        out = []
        for obj, S1 in objs:
            for args, S2 in self.eval_args(e.get("args", []), fn.params if fn else [], S1, fr):
                out += self.call1(e, fn, name, obj, args, S2, fr)
        return self.merge_vals(out, e, fr) if len(out) > 1 else out

    def call1(self, e, fn, name, obj, args, S, fr):
        r = self.on_call(name, fn, obj, args, e, S, fr)
        if r is not None:
            return r
        # function objects
        if e.get("ce") is not None or (e.get("op") == "()" and obj is not None and obj.v.clo) or (fn is not None and fn.is_lambda):
            outs = []
            src = None
            if obj is not None and obj.v.clo:
                src = [(obj.v, S)]
            elif e.get("ce") is not None:
                src = self.ev(e["ce"], S, fr)
            if src:
                for v, S2 in src:
                    if v.clo:
                        for c in v.clo:
                            outs += self.invoke(c, args, e, S2.copy() if len(v.clo) > 1 else S2, fr)
                    else:
                        outs.append(self.opaque(e, fn, name, obj, args, S2, fr))
                return outs
            if args and args[0].v.clo and e.get("op") == "()":
                for c in args[0].v.clo:
                    outs += self.invoke(c, args[1:], e, S.copy(), fr)
                return outs
        if fn is not None and fn.noreturn:
            self.on_exit(name, args, e, S, fr)
            return []
        if fn is not None and fn.body is not None and fn.repo and fn.id not in self.stop_inline and self.inline_ok(fn, fr):
            targets = [fn]
            if fn.virtual:
                seen, todo = set(), [fn.id]
                while todo:
                    x = todo.pop()
                    for y in self.prog.overriders.get(x, []):
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
                # a receiver whose dynamic type is its declared (value) type
                if obj is not None and obj.p and obj.node is not None and not (obj.node["k"] == "This"):
                    ot = strip(obj.node)["t"]
                    if ot is not None and not ot.ref and not ot.ptr:
                        seen = set()
                targets += [self.prog.fns[y] for y in seen if self.prog.fns[y].body is not None]
            outs = []
            for f in targets:
                outs += self.inline(f, obj, args, e, S.copy() if len(targets) > 1 else S, fr)
            return outs
        if fn is not None and fn.virtual and fn.repo and self.prog.overriders.get(fn.id):
            outs = []
            for y in self.prog.overriders[fn.id]:
                g = self.prog.fns[y]
                if g.body is not None:
                    outs += self.inline(g, obj, args, e, S.copy(), fr)
            if outs:
                return outs
        m = self.model(name, e, fn, obj, args, S, fr)
        if m is not None:
            return m
        return [self.opaque(e, fn, name, obj, args, S, fr)]

    def invoke(self, c, args, e, S, fr):
        fn = self.prog.fns.get(c.fn)
        if fn is None or fn.body is None:
            return [self.opaque(e, fn, fn.name if fn else "?", None, args, S, fr)]
        return self.inline(fn, Arg(V(("clo", c.fn)), (c.this,) if c.this else None, None), args, e, S, fr, caps=c.caps, this=c.this)

    def frame_id(self, fr, site, fnid):
        k = (fr.fid if fr else 0, id(site), fnid)
        return self.fids.setdefault(k, len(self.fids) + 1)

    def inline(self, fn, obj, args, e, S, fr, caps=None, this=None):
        depth = fr.depth + 1
        f = fr
        while f is not None:
            if f.fn.id == fn.id and not fn.is_lambda:
                return [self.opaque(e, fn, fn.name, obj, args, S, fr)]
            f = f.parent
        if depth > self.max_depth:
            return [self.opaque(e, fn, fn.name, obj, args, S, fr)]
        fid = self.frame_id(fr, e, fn.id)
        outs = []
        thiss = (this,) if (caps is not None) else (obj.p if obj is not None and obj.p else (None,))
        temp_this = None
        if fn.ctor:
            temp_this = (("t", id(e), fr.fid),)
            S.drop(temp_this)
            thiss = (temp_this,)
        elif fn.method and not fn.static and caps is None and thiss[0] is None:
            thiss = ((("t", id(e), fr.fid), (".", "?this")),)
        self.stats["calls_inlined"] += 1
        for th in thiss:
            S1 = S.copy() if len(thiss) > 1 else S
            nf = Frame(fn, th, fid, depth, e, fr)
            if caps:
                nf.env = dict(caps)
            for i, p in enumerate(fn.params):
                pp = self.vpath(p["d"], nf)
                S1.drop(pp)
                if i >= len(args):
                    continue
                a = args[i]
                if p["ref"]:
                    ps = a.p
                    if a.v.clo and (not ps):
                        S1.put(pp, a.v)
                        continue
                    if not ps:
                        tp = (("t", ("arg", id(e), i), fid),)
                        self.store(tp, a.v, S1, a.node, fr, quiet=True)
                        ps = (tp,)
                    S1.put(pp, V(("ref", pp), ptr=tuple(ps), f={"ref": True}, clo=a.v.clo))
                else:
                    self.store(pp, a.v, S1, a.node, fr, quiet=True)
            for v, S2 in self.run_body(fn, nf, S1):
                if temp_this is not None:
                    v = V(self.fresh(e, fr), obj=temp_this, f=dict(v.f))
                    tv = S2.get(temp_this)
                    if tv is not None:
                        v = v.with_(f=dict(tv.f))
                elif v.obj is not None and v.obj[0][0] in ("v", "t") and v.obj[0][2] == fid:
                    tp = (("t", ("ret", id(e)), fr.fid),)
                    S2.drop(tp)
                    self.store(tp, v, S2, e, fr, quiet=True)
                    v = v.with_(obj=tp)
                elif v.ptr and any(p[0][0] == "t" and p[0][2] == fid for p in v.ptr):
                    v = v.with_(ptr=None)
                self.drop_frame(S2, fid)
                outs.append((v, S2))
        return self.merge_vals(outs, e, fr)

    def run_body(self, fn, nf, S):
        self.stats["functions"].add(fn.name)
        self.on_enter(fn, S, nf)
        states = [S]
        if fn.ctor:
            for i in fn.inits:
                out = []
                for S1 in states:
                    for v, S2 in self.ev(i["e"], S1, nf):
                        if i.get("f") and nf.this:
                            fld = i["f"]
                            ft = self.field_type(fld)
                            tgt = nf.this + ((".", fld),)
                            if ft is not None and ft.ref:
                                ee = strip(i["e"])
                                for ps, S3 in self.lv(ee, S2, nf)[:1]:
                                    S3.put(tgt, V(("ref", tgt), ptr=ps, f={"ref": True}))
                            else:
                                self.store(tgt, v, S2, i, nf)
                        elif (i.get("base") or i.get("deleg")) and nf.this and v.obj is not None:
                            for sub, x in S2.under(v.obj):
                                S2.put(nf.this + sub, x)
                        out.append(S2)
                states = out
        states = self.ex(fn.body, states, nf)
        rets = nf.rets + [(V(("void",)), S1) for S1 in states]
        for _, S1 in rets:
            self.on_leave(fn, S1, nf)
        return self.merge_vals(rets, fn.body or {"k": "none"}, nf)

    def field_type(self, did):
        if not hasattr(self, "_ft"):
            self._ft = {}
            for r in self.prog.records.values():
                for f in r.get("fields", []):
                    self._ft[f["d"]] = f["t"]
        return self._ft.get(did)

    def opaque(self, e, fn, name, obj, args, S, fr):
        self.stats["calls_opaque"] += 1
        f = {}
        for d in self.doms:
            x = d.call(self, name, obj, args, e, S)
            if x is not None:
                f[d.name] = x
        # out-parameters
        for i, a in enumerate(args):
            pt = fn.params[i]["t"] if fn is not None and i < len(fn.params) else None
            if pt is None or not a.p:
                continue
            out = (pt.ref and not pt.const and not pt.s.endswith("&&")) or (pt.ptr and not pt.pconst and not pt.const)
            if out:
                self.havoc(a.p, e, ("out", i), S, fr, name)
        for a in args:
            if a.v.clo and not name.startswith("std::function") and name not in ("std::forward", "std::move"):
                for c in a.v.clo:
                    if c.caps or c.this:
                        # an unknown callee may call the closure: analyse it once with unknown arguments
                        fc = self.prog.fns.get(c.fn)
                        if fc is not None and fc.body is not None:
                            rs = self.invoke(c, [], e, S.copy(), fr)
                            for n, (_, S2) in enumerate(rs):
                                J = self.join_states(S, S2, ("cb", id(e), fr.fid)) if n or not self.nonempty else S2
                                S.roots, S.own, S.assumed, S.facts = J.roots, set(), J.assumed, J.facts
        if obj is not None and obj.p and fn is not None and fn.method and not fn.const and not fn.static and not fn.ctor:
            self.havoc_obj(obj, name, args, e, S, fr)
        sym = self.fresh(e, fr, "call")
        if fn is not None and (fn.const or (not fn.method and self.pure(name))):
            sym = self.bounded(("call", name, tuple(p for p in (obj.p if obj and obj.p else ())), tuple(a.v.sym for a in args)), e, fr)
            if obj is not None and obj.p:
                sym = self.bounded(("callv", sym, obj.v.sym), e, fr)
        v = V(sym, f=f)
        t = e.get("t")
        rt = fn.ret if fn else None
        if rt is not None and rt.ref:
            p = (("x", sym),)
            v = v.with_(ptr=(p,))
            if f:
                S.put(p, V(sym, f=f))
        return (v, S)

    PURE = {"sqrt", "fabs", "abs", "exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "pow", "floor", "ceil", "fmin", "fmax",
            "isnan", "isfinite", "min", "max", "round", "operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=", "operator+", "operator-", "operator*", "operator/", "clamp", "hypot"}

    def pure(self, name):
        return name.rsplit("::", 1)[-1] in self.PURE

    def havoc(self, paths, e, tag, S, fr, name):
        for p in paths:
            f = self.facets("default", (("t", id(e), 0),), None)
            S.drop(p)
            self.store(p, V(self.fresh(e, fr, "hv") + (tag,), f=f), S, e, fr)

    def havoc_obj(self, obj, name, args, e, S, fr):
        pass

    # -- library models ------------------------------------------------
    def model(self, name, e, fn, obj, args, S, fr):
        sn = name.rsplit("::", 1)[-1]
        op = e.get("op")
        if op is None and obj is not None and sn.startswith("operator") and sn[8:] in ("=", "+=", "-=", "*=", "/=", "=="):
            op = sn[8:]
        if e["k"] == "Construct":
            return self.model_construct(name, e, fn, args, S, fr)
        eig = name.startswith("Eigen::")
        if sn in ("move", "forward", "as_const", "ref", "cref", "addressof", "get") and name.startswith("std::") and len(args) == 1 and obj is None:
            a = args[0]
            return [(V(a.v.sym, a.v.c, ptr=a.p, obj=a.v.obj, clo=a.v.clo, f=a.v.f), S)]
        if op == "=" and obj is not None:
            v = args[0].v
            if args[0].p and is_class(strip(args[0].node).get("t")) and v.obj is None:
                v = v.with_(obj=args[0].p[0])
            self.store_set(obj.p, v, S, e, fr)
            return [(v.with_(ptr=obj.p), S)]
        if op in ("+=", "-=", "*=", "/=") and obj is not None:
            v = self.binv(op, obj.v, args[0].v, e, S, fr)
            if obj.v.ptr:
                v = v.with_(ptr=tuple(self.adv(p, v.sym) for p in obj.v.ptr))
            self.store_set(obj.p, v, S, e, fr)
            return [(v.with_(ptr=obj.p), S)]
        if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 2:
                v = self.binv(op, ops[0].v, ops[1].v, e, S, fr)
                if ops[0].v.ptr and op in ("+", "-"):
                    v = v.with_(ptr=tuple(self.adv(p, v.sym) for p in ops[0].v.ptr))
                return [(v, S)]
            if len(ops) == 1:
                if op == "*":
                    ps = ops[0].v.ptr
                    return [(V(self.fresh(e, fr), ptr=ps), S)] if ps else None
                f = {}
                for d in self.doms:
                    x = d.un(self, op, ops[0].v, e, S)
                    if x is not None:
                        f[d.name] = x
                return [(V(self.bounded(("u", op, ops[0].v.sym), e, fr), f=f), S)]
        if op == "->" and obj is not None:
            return [(V(self.fresh(e, fr), ptr=obj.v.ptr if obj.v.ptr else tuple(p + ((".", "#deref"),) for p in obj.p or ()) or None), S)]
        if op in ("++", "--") and obj is not None:
            v = V(self.fresh(e, fr), ptr=tuple(self.adv(p, self.fresh(e, fr)) for p in obj.v.ptr) if obj.v.ptr else None)
            self.store_set(obj.p, v, S, e, fr)
            return [(v, S)]
        if op == "!" and len(args) + (obj is not None) == 1:
            return None
        if obj is not None and obj.p:
            if eig and op == "<<" and args:
                p = obj.p[0]
                self.store(p + (("[", 0),), args[0].v, S, e, fr)
                self.eig_update(p, S)
                return [(V(("comma", p, 1), ptr=obj.p, f={"#comma": 1}), S)]
            if eig and op == "," and args:
                n = obj.v.f.get("#comma") or 1
                cv = None
                # the comma initialiser object: its value is not in memory, look at the sub expression
                n = self.comma_count(e["obj"])
                p = obj.p[0]
                self.store(p + (("[", n),), args[0].v, S, e, fr)
                self.eig_update(p, S)
                return [(V(("comma", p, n + 1), ptr=obj.p), S)]
            if sn in ("operator[]", "operator()", "at", "coeff", "coeffRef") and args:
                if len(args) == 1:
                    self.on_index(obj.p, args[0].v, e, S, fr)
                    k = idx_key(args[0].v)
                else:
                    ks = [idx_key(a.v) for a in args]
                    k = ks[0] if False else ("s", tuple(ks)) if any(isinstance(x, tuple) for x in ks) else ",".join(map(str, ks))
                ps = tuple(p + (("[", k),) for p in obj.p)
                return self.ref_result(ps, e, fn, S, fr)
            if sn in VEC3 and eig and not args:
                return self.ref_result(tuple(p + (("[", VEC3[sn]),) for p in obj.p), e, fn, S, fr)
            if eig and sn in EIG_SAME and not args:
                return [(V(obj.v.sym, obj.v.c, ptr=obj.p, f=obj.v.f), S)]
            if eig and sn in EIG_SUB:
                k = ("s", (sn,) + tuple(idx_key(a.v) for a in args))
                return [(self.load_set(tuple(p + (("[", k),) for p in obj.p), S, None, fr).with_(ptr=tuple(p + (("[", k),) for p in obj.p)), S)]
            if eig and sn in ("setZero", "setConstant", "setOnes", "fill"):
                v = args[0].v if args and sn in ("setConstant", "fill") else V(("c", "n", 0.0), 0.0, f=self.facets("lit", e, 0.0))
                self.store_set(obj.p, v.with_(c=NOC), S, e, fr)
                return [(V(self.fresh(e, fr), ptr=obj.p), S)]
            if sn in ("begin", "cbegin", "rbegin", "data"):
                return [(V(("it", obj.p, 0), ptr=tuple(p + (("[", ("s", "begin")),) for p in obj.p)), S)]
            if sn in ("end", "cend", "rend"):
                return [(V(("it", obj.p, 1), ptr=tuple(p + (("[", ("s", "end")),) for p in obj.p)), S)]
            if sn == "front":
                return self.ref_result(tuple(p + (("[", 0),) for p in obj.p), e, fn, S, fr)
            if sn == "back":
                return self.ref_result(tuple(p + (("[", ("s", "back")),) for p in obj.p), e, fn, S, fr)
            if name.startswith("std::") and sn in ("push_back", "insert", "emplace", "push") and args:
                v = args[-1].v
                if args[-1].p and v.obj is None and is_class(strip(args[-1].node).get("t")):
                    v = v.with_(obj=args[-1].p[0])
                for p in obj.p:
                    self.on_append(p, v, S, e, fr)
                    self.store(p + (("[", ("s", ("new", id(e), fr.fid))),), v, S, e, fr)
                return [(V(self.fresh(e, fr)), S)]
            if name.startswith("std::") and sn == "emplace_back":
                for p in obj.p:
                    ep = p + (("[", ("s", ("new", id(e), fr.fid))),)
                    self.on_append(p, args[0].v if args else V(self.fresh(e, fr)), S, e, fr)
                    if len(args) == 1:
                        v = args[0].v
                        if args[0].p and v.obj is None and is_class(strip(args[0].node).get("t")):
                            v = v.with_(obj=args[0].p[0])
                        self.store(ep, v, S, e, fr)
                    else:
                        for i, a in enumerate(args):
                            self.store(ep + ((".", "#%d" % i),), a.v, S, e, fr)
                return [(V(self.fresh(e, fr), ptr=tuple(p + (("[", ("s", ("new", id(e), fr.fid))),) for p in obj.p)), S)]
            if name.startswith("std::") and sn in ("clear",):
                for p in obj.p:
                    S.drop(p)
                    self.on_clear(p, S, e, fr)
                return [(V(self.fresh(e, fr)), S)]
            if name.startswith("std::") and sn in ("resize", "assign", "reserve", "swap", "erase", "pop_back"):
                if sn in ("resize", "assign") and args and not args[0].v.ptr:
                    self.on_resize(obj.p, args[0].v, e, S, fr)
                if sn == "assign" or (sn == "resize" and len(args) > 1):
                    for p in obj.p:
                        if sn == "assign":
                            S.drop(p)
                        self.store(p + (("[", "*"),), args[-1].v, S, e, fr, weak=(sn == "resize"))
                return [(V(self.fresh(e, fr)), S)]
            if sn in ("operator bool", "size", "empty", "good", "fail", "is_open", "eof"):
                return None
            if sn in ("value", "operator*") and name.startswith("std::optional"):
                return self.ref_result(tuple(p + ((".", "#deref"),) for p in obj.p), e, fn, S, fr)
        if name.startswith("std::") and obj is None:
            return self.model_algo(sn, name, e, fn, args, S, fr)
        return None

    def comma_count(self, n):
        """how many values precede in  m << a , b , c"""
        n = strip(n)
        c = 0
        while n is not None and n.get("k") == "Call" and n.get("op") == ",":
            c += 1
            n = strip(n["obj"]) if n.get("obj") is not None else None
        return c + 1

    def eig_update(self, p, S):
        old = S.get(p)
        vs = [v for sub, v in S.under(p) if len(sub) == 1]
        if vs:
            j = vs[0]
            for v in vs[1:]:
                j = self.joinv(j, v, ("w", p))
            S.put(p, V(("w", p, j.sym), f=dict(j.f)))

    def on_append(self, path, v, S, e, fr):
        pass

    def on_index(self, paths, idx, e, S, fr):
        """a container or array at one of paths is indexed by the value idx"""

    def on_resize(self, paths, n, e, S, fr):
        """a container at one of paths gets n elements"""

    def on_clear(self, path, S, e, fr):
        pass

    def ref_result(self, ps, e, fn, S, fr):
        v = self.load_set(ps, S, {"k": "x", "t": e.get("t"), "l": e.get("l")}, fr)
        return [(V(v.sym, v.c, ptr=ps if not (v.ptr and e["t"].ptr) else v.ptr, obj=v.obj, clo=v.clo, f=v.f), S)]

    def model_construct(self, name, e, fn, args, S, fr):
        cls = e.get("cls", "")
        if cls.startswith("std::function") or cls.startswith("std::reference_wrapper"):
            if args:
                return [(args[0].v, S)]
            return None
        if len(args) == 1 and (args[0].v.obj or args[0].p) and is_class(strip(args[0].node).get("t")) and \
                strip(args[0].node)["t"].rec == e["t"].rec:
            v = args[0].v
            return [(v.with_(obj=args[0].p[0] if args[0].p else v.obj), S)]
        f = {}
        for d in self.doms:
            x = d.call(self, name, None, args, e, S)
            if x is not None:
                f[d.name] = x
        p = (("t", id(e), fr.fid),)
        S.drop(p)
        v = V(self.fresh(e, fr, "ctor"), f=f)
        if len(args) == 1 and args[0].v.c is not NOC and cls.startswith("std::") and "string" in cls:
            v = v.with_(c=args[0].v.c)
        S.put(p, v)
        if cls.startswith("Eigen::") and len(args) > 1:
            for i, a in enumerate(args):
                S.put(p + (("[", i),), a.v)
        elif len(args) == 1 and args[0].v.obj is not None:
            for sub, x in S.under(args[0].v.obj):
                S.put(p + sub, x)
        elif cls in ("std::pair", "std::tuple"):
            for i, a in enumerate(args):
                self.store(p + ((".", "#%d" % i),), a.v, S, e, fr, quiet=True)
        elif cls == "std::vector" and len(args) >= 2 and not args[0].v.ptr:
            S.put(p + (("[", "*"),), args[1].v)
        self.on_construct(cls, p, args, e, S, fr)
        return [(v.with_(obj=p), S)]

    def on_construct(self, cls, p, args, e, S, fr):
        pass

    ALGO1 = {"for_each", "for_each_n", "any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "remove_if", "partition", "transform",
             "transform_reduce", "reduce", "accumulate", "generate", "replace_if", "copy_if", "sort", "stable_sort", "max_element", "min_element",
             "lower_bound", "upper_bound", "inner_product", "adjacent_find", "unique", "stable_partition", "is_sorted"}

    def model_algo(self, sn, name, e, fn, args, S, fr):
        if sn in ("min", "max", "fmin", "fmax", "clamp"):
            return None
        if sn in ("begin", "cbegin", "end", "cend") and args and args[0].p:
            return [(V(("it", args[0].p, sn), ptr=tuple(p + (("[", ("s", "begin" if sn.endswith("begin") else "end")),) for p in args[0].p)), S)]
        if sn in ("distance", "next", "prev", "advance", "back_inserter", "inserter"):
            if sn in ("next", "prev") and args[0].v.ptr:
                return [(V(self.fresh(e, fr), ptr=tuple(self.adv(p, self.fresh(e, fr)) for p in args[0].v.ptr)), S)]
            if sn in ("back_inserter", "inserter"):
                return [(V(self.fresh(e, fr), ptr=tuple(p + (("[", ("s", ("new", id(e), fr.fid))),) for p in args[0].p or ())), S)]
            return None
        if sn in ("fill", "iota", "fill_n"):
            its = [a for a in args if a.v.ptr]
            if its:
                for p in its[0].v.ptr:
                    cont = p[:-1]
                    S.drop(cont)
                    v = args[-1].v
                    self.store(cont + (("[", "*"),), v if sn != "iota" else V(self.fresh(e, fr), f=v.f), S, e, fr)
                    whole = p[-1] == ("[", ("s", "begin")) and len(its) > 1 and all(q[-1] == ("[", ("s", "end")) for q in its[1].v.ptr)
                    self.on_fill(cont, v, sn, S, e, fr, whole)
                return [(V(("void",)), S)]
            return None
        if sn in ("copy", "swap", "reverse", "copy_n"):
            its = [a for a in args if a.v.ptr]
            if sn == "copy" and len(its) >= 3:
                for p in its[-1].v.ptr:
                    v = self.load_set(tuple(q[:-1] + (("[", ("el", id(e), fr.fid)),) for q in its[0].v.ptr), S, None, fr)
                    self.store(p[:-1] + (("[", ("el", id(e), fr.fid)),), v, S, e, fr)
                return [(V(("void",)), S)]
            return None
        if sn not in self.ALGO1:
            return None
        clos = [a for a in args if a.v.clo]
        its = [a for a in args if a.v.ptr and not a.v.clo]
        if not its:
            return None
        site = (id(e), fr.fid)

        whole = len(its) >= 2 and all(p[-1] == ("[", ("s", "begin")) for p in its[0].v.ptr) and all(p[-1] == ("[", ("s", "end")) for p in its[1].v.ptr)

        def el(a, tag=0):
            return tuple(p[:-1] + (("[", ("el",) + site + ((tag,) if whole else ("part", tag))),) for p in a.v.ptr)

        def el_arg(a, tag=0):
            ps = el(a, tag)
            return Arg(self.load_set(ps, S, None, fr), ps, None)

        par = bool(args) and args[0].node is not None and args[0].node.get("t") is not None and "execution" in (args[0].node["t"].c or "")
        self.on_algo(sn, par, its, clos, e, S, fr)
        cur = S
        ret = V(self.fresh(e, fr, "algo"))
        if self.algo_split and sn in ("for_each", "for_each_n") and clos:
            # as below, but states with different facts are kept apart
            states = [S]
            for it in range(12):
                nxt = []
                for S0 in states:
                    S1 = S0.copy()
                    a = [Arg(self.load_set(el(its[0]), S1, None, fr), el(its[0]), None)]
                    for c in clos[-1].v.clo:
                        for _, x in self.invoke(c, a, e, S1.copy(), fr):
                            self.on_algo_iter(sn, par, e, x, fr)
                            self.fold(x, site)
                            for kk in [kk for kk in x.assumed if kk not in S0.assumed]:
                                del x.assumed[kk]
                            nxt.append(x)
                if not nxt:
                    return []
                new = self.merge(([] if self.nonempty and it == 0 else states) + nxt, ("alj",) + site)
                if it and self.same(new, states):
                    break
                states = new
            return [(ret.with_(), x) for x in states]
        for it in range(4):
            before = cur.copy()
            S1 = cur.copy()
            outs = []
            if sn in ("for_each", "for_each_n", "any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "remove_if", "partition", "copy_if", "generate", "stable_partition"):
                if not clos:
                    return None
                a = [] if sn == "generate" else [Arg(self.load_set(el(its[0]), S1, None, fr), el(its[0]), None)]
                for c in clos[-1].v.clo:
                    outs += self.invoke(c, a, e, S1.copy(), fr)
                if sn in ("find_if", "find_if_not"):
                    ret = V(self.fresh(e, fr), ptr=el(its[0], "found"))
                elif sn in ("remove_if", "partition", "stable_partition"):
                    ret = V(self.fresh(e, fr), ptr=el(its[0], "found"))
            elif sn == "transform":
                if not clos:
                    return None
                nin = len(its) - 2
                a = [Arg(self.load_set(el(x, 0), S1, None, fr), el(x, 0), None) for x in ([its[0]] if nin <= 1 else [its[0], its[2]])]
                outp = its[-1]
                for c in clos[-1].v.clo:
                    for v, S2 in self.invoke(c, a, e, S1.copy(), fr):
                        self.store_set(el(outp, 0), v, S2, e, fr)
                        outs.append((v, S2))
            elif sn in ("transform_reduce", "inner_product"):
                init = next((x for x in args if not x.v.ptr and not x.v.clo and not (x.node is not None and x.node.get("t") is not None and "execution" in (x.node["t"].c or ""))), None)
                two = len(its) >= 3
                a = [Arg(self.load_set(el(x, 0), S1, None, fr), el(x, 0), None) for x in ([its[0], its[2]] if two else [its[0]])]
                res = []
                if len(clos) >= 1 and (not two or len(clos) >= 2):
                    for c in clos[-1].v.clo:
                        res += self.invoke(c, a, e, S1.copy(), fr)
                else:
                    v = self.binv("*", a[0].v, a[1].v, None, S1, fr) if len(a) > 1 else a[0].v
                    res = [(v, S1)]
                for v, S2 in res:
                    acc = v
                    if init is not None:
                        acc = self.binv("+", init.v, v, {"k": "x", "t": e["t"], "l": e.get("l")}, S2, fr)
                    ret = acc.with_(sym=self.fresh(e, fr, "algo"), c=NOC, obj=None) if it == 0 else self.joinv(ret, acc.with_(sym=ret.sym, c=NOC, obj=None), ret.sym)
                    outs.append((acc, S2))
            elif sn in ("reduce", "accumulate"):
                init = next((x for x in args if not x.v.ptr and not x.v.clo and not (x.node is not None and "execution" in (x.node["t"].c or ""))), None)
                x = Arg(self.load_set(el(its[0], 0), S1, None, fr), el(its[0], 0), None)
                if clos:
                    for c in clos[-1].v.clo:
                        for v, S2 in self.invoke(c, [init or x, x], e, S1.copy(), fr):
                            ret = v.with_(sym=self.fresh(e, fr, "algo"), c=NOC)
                            outs.append((v, S2))
                else:
                    acc = self.binv("+", init.v if init else x.v, x.v, {"k": "x", "t": e["t"], "l": e.get("l")}, S1, fr)
                    ret = acc.with_(sym=self.fresh(e, fr, "algo"), c=NOC)
                    outs.append((acc, S1))
            elif sn in ("sort", "stable_sort", "max_element", "min_element", "lower_bound", "upper_bound", "is_sorted", "unique", "adjacent_find"):
                if clos:
                    a = [Arg(self.load_set(el(its[0], j), S1, None, fr), el(its[0], j), None) for j in (0, 1)]
                    for c in clos[-1].v.clo:
                        outs += self.invoke(c, a, e, S1.copy(), fr)
                else:
                    outs.append((V(None), S1))
                if sn in ("max_element", "min_element", "lower_bound", "upper_bound", "unique", "adjacent_find"):
                    ret = V(self.fresh(e, fr), ptr=el(its[0], "found"))
            else:
                return None
            if not outs:
                break
            st = self.merge([x for _, x in outs], ("al",) + site)
            for x in st:
                self.on_algo_iter(sn, par, e, x, fr)
                self.fold(x, site)
                for kk in [kk for kk in x.assumed if kk not in before.assumed]:
                    del x.assumed[kk]
            allst = self.merge(([before] if not (self.nonempty and it == 0) else []) + st, ("alj",) + site)
            if len(allst) > 1:
                j = allst[0]
                for x in allst[1:]:
                    j = self.join_states(j, x, ("alk",) + site)
                allst = [j]
            if self.states_eq(allst[0], before):
                cur = before
                break
            cur = allst[0]
        f = dict(ret.f)
        for d in self.doms:
            x = d.call(self, name, None, args, e, cur)
            if x is not None and d.name not in f:
                f[d.name] = x
        return [(ret.with_(f=f), cur)]

    def on_algo(self, sn, par, its, clos, e, S, fr):
        pass

    def on_algo_iter(self, sn, par, e, S, fr):
        pass

    def on_fill(self, cont, v, sn, S, e, fr, whole):
        pass

    # ------------------------------------------------------------------ roots
    def run(self, fn, this=None, binds=None, S=None):
        """analyse fn from a state where everything reachable is symbolic"""
        S = S or State()
        if fn.method and not fn.static and this is None:
            this = (("o", fn.clsn),)
        fid = self.fids.setdefault(("root", fn.id), len(self.fids) + 1)
        fr = Frame(fn, this, fid, 0, None, None)
        for i, p in enumerate(fn.params):
            pp = self.vpath(p["d"], fr)
            t = p["t"]
            if binds and i in binds:
                b = binds[i]
                if isinstance(b, V):
                    self.store(pp, b, S, None, fr, quiet=True)
                else:
                    S.put(pp, V(("ref", pp), ptr=(b,), f={"ref": True}))
            elif p["ref"]:
                S.put(pp, V(("ref", pp), ptr=((("p", fn.name, i, p["n"]),),), f={"ref": True}))
            elif t.ptr:
                S.put(pp, V(("ptr", pp), ptr=((("p", fn.name, i, p["n"]),),)))
        return self.run_body(fn, fr, S)


def path_str(p):
    out = []
    for s in p:
        if s[0] == ".":
            out.append("." + str(s[1]).rsplit("@", 1)[-1])
        elif s[0] == "[":
            out.append("[%s]" % (s[1] if not isinstance(s[1], tuple) else "·"))
        else:
            out.append(str(s[1]).rsplit("@", 1)[-1] if len(s) > 1 else str(s))
    return "".join(out)


def fields_of(path):
    return [s[1].rsplit("@", 1)[-1] for s in path if s[0] == "."]
