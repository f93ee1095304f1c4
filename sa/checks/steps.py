"""Abstract interpretation of the time integration, shared by S02 (a step is accepted completely or not at all) and S06 (bounds of the time step).

Events are recognised by their effect: stores into timing::t / dt / prefactor, into the two copies of the node data (Node::d[CURRENT], d[NEXT]), the local
bases (ep, eq) and the energies.  The partitioned state carries the phase of the current trial step; values are polynomials over value numbers, so that
'the same dt' and 't + dt' are compared exactly."""
import re
from fractions import Fraction
from sa.interp import Engine, V, NOC, Domain, gen, strip
from sa.lib import loc, fn_nodes, call_graph, reachable, fieldname, walk
from sa.checks.l05 import Sc, poly_key, cancel

INTEREST = {"t", "dt", "prefactor", "d", "u", "v", "phi", "phiv", "E", "Etot", "v_max", "vmax", "soft_max", "hard_max", "hard_min", "ep", "eq"}


class Cmp(Domain):
    """the comparison a boolean stands for"""
    name = "cmp"

    def bin(self, eng, op, a, b, node, S):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return (op, poly_key(Sc.poly(a)), poly_key(Sc.poly(b)))
        return None

    def join(self, a, b):
        return None


class Ub(Domain):
    """value numbers (polynomials) known to be >= the value; 'MAX' is the largest step allowed"""
    name = "ub"

    def default(self, eng, path, t):
        n = fieldname(path[-1])
        if n in ("soft_max", "hard_max"):
            return frozenset(["MAX"])
        return None

    @staticmethod
    def of(v):
        return (v.f.get("ub") or frozenset()) | frozenset([poly_key(Sc.poly(v))])

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn in ("min", "fmin") and len(args) == 2:
            return self.of(args[0].v) | self.of(args[1].v)
        if sn in ("max", "fmax") and len(args) == 2:
            return (self.of(args[0].v) & self.of(args[1].v)) or None
        return None

    def bin(self, eng, op, a, b, node, S):
        return None

    def cast(self, eng, a, node):
        return a.f.get("ub")

    def join(self, a, b):
        return ((a or frozenset()) & (b or frozenset())) or None


class Lb(Domain):
    """value numbers (polynomials) known to be <= the value"""
    name = "lb"

    @staticmethod
    def of(v):
        return (v.f.get("lb") or frozenset()) | frozenset([poly_key(Sc.poly(v))])

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn in ("max", "fmax") and len(args) == 2:
            return self.of(args[0].v) | self.of(args[1].v)
        return None

    def cast(self, eng, a, node):
        return a.f.get("lb")

    def join(self, a, b):
        return ((a or frozenset()) & (b or frozenset())) or None


def psub(a, b):
    r = dict(a)
    for m, c in b:
        r[m] = r.get(m, 0) - c
    return poly_key(r)


def pmul(a, b):
    r = {}
    for m, c in a:
        for n, d in b:
            k = cancel(m + n)
            r[k] = r.get(k, 0) + c * d
    return poly_key(r)


def ratio(a, b):
    """a = k b for a constant k (or None)"""
    a, b = dict(a), dict(b)
    if not a or set(a) != set(b):
        return None
    ks = {a[m] / b[m] for m in a}
    return ks.pop() if len(ks) == 1 else None


def mentions(s, name):
    if isinstance(s, tuple):
        return any(mentions(x, name) for x in s)
    return isinstance(s, str) and s.endswith("@" + name)


class Eng(Engine):
    def __init__(self, prog, ctx, root):
        Engine.__init__(self, prog, [Sc(), Cmp(), Ub(), Lb()], nonempty=True)
        self.ctx, self.root = ctx, root
        self.found = []          # (property, key, where, message)
        self.count = {}
        self.tp = {}
        self.ubmap = {}
        self.leaves = {}
        self.maxvars = set()
        self.maxother = set()
        self.lost = []
        self.smp = None
        g = call_graph(prog)
        rev = {}
        for a, bs in g.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        touch = {f.id for f in prog.fns.values() if f.body is not None and any("std::function" in p["t"].c or "function<" in p["t"].c for p in f.params)}
        touch |= {f.id for f in prog.fns.values() if f.body is not None and any(n.get("k") == "Member" and n.get("n") in INTEREST for n in fn_nodes(f))}
        self.rel = reachable(rev, touch)
        self.writers = {f.id for f in prog.fns.values() if f.body is not None and f.repo and f.id != root.id and
                        (any("ofstream" in p["t"].c for p in f.params) or
                         any(n.get("k") in ("Var", "Construct") and n.get("t") is not None and "ofstream" in n["t"].c for n in fn_nodes(f)))}

    # ---- reporting
    def bad(self, prop, key, node, msg, fr=None):
        self.found.append((prop, key, loc(node) if node is not None else loc(self.root.body), msg))

    def ok(self, prop, kind, what):
        self.count.setdefault((prop, kind), set()).add(what)

    # ---- state
    def part_key(self, S):
        return tuple((k, S.facts.get(k)) for k in ("cyc", "evo", "adv", "below", "rb", "small", "sv", "upq", "cond"))

    def join_facts(self, a, b):
        r = dict(a)
        for k, v in b.items():
            if k in ("upd", "asm", "pend"):
                r[k] = max(r.get(k, 0), v)
            elif k in ("dem", "ene", "bas"):
                r[k] = min(r.get(k, 0), v)
            elif k in r and r[k] is not None and v is not None and r[k] != v:
                r[k] = "mixed"
            elif r.get(k) is None:
                r[k] = v
        for k in ("dem", "ene", "bas"):
            if k in r and k not in b:
                r[k] = 0
        return r

    def tval(self, name, S):
        p = self.tp.get(name)
        if p is None:
            return None
        v = S.get(p)
        return v if v is not None else self.load_missing(p, S, None)

    def poly(self, v):
        return poly_key(Sc.poly(v))

    def inside(self, fr, ids):
        f = fr
        while f is not None:
            if f.fn.id in ids:
                return f.fn
            f = f.parent
        return None

    def in_energy(self, fr):
        f = fr
        while f is not None:
            if any(n.get("k") == "Member" and n.get("n") == "Etot" for n in fn_nodes(f.fn)) and f.fn.id != self.root.id:
                return True
            f = f.parent
        return False

    def leaf(self, fn):
        if fn.id not in self.leaves:
            ns = list(fn_nodes(fn)) if fn.body is not None else []
            self.leaves[fn.id] = bool(ns) and len(ns) < 60 and not any(n.get("k") in ("While", "For", "Do", "RangeFor") or n.get("fn") for n in ns)
        return self.leaves[fn.id]

    # ---- hooks
    def on_call(self, name, fn, obj, args, node, S, fr):
        if fn is None:
            return None
        sn = name.rsplit("::", 1)[-1]
        if sn == "integrales" and fn.repo:
            if any("timing" in p["t"].c for p in fn.params):
                self.assemble(node, S, fr)
            return [(V(("void",)), S)]
        if sn in ("getField", "getFieldTime") and args and fn.repo:
            self.field(args[0].v, node, S, fr)
            return [(V(self.fresh(node, fr)), S)]
        if sn == "saver" or (fn.id in self.writers and fr.fn.id == self.root.id and any("ofstream" in p["t"].c for p in fn.params)):
            if S.facts.get("sv"):
                self.bad("S02", "twice", node, "an output instant can be written twice")
            S.facts["sv"] = 1
            self.checkpoint(node, S, "output")
        if obj is not None or args:
            w = self.inside(fr, self.writers)
            if w is not None:
                for a in ([obj] if obj is not None else []) + args:
                    for p in a.p or ():
                        self.observe(p, w, node, S)
        if fn.repo and fn.id not in self.rel and not fn.ctor and not self.leaf(fn):
            return [(V(self.fresh(node, fr)), S)]
        return None

    def on_load(self, path, v, S, node, fr):
        n = fieldname(path[-1])
        if n in ("t", "dt", "prefactor") and "timing" in path[-1][1]:
            self.tp.setdefault(n, path)
        w = self.inside(fr, self.writers)
        if w is not None:
            self.observe(path, w, node, S)

    def observe(self, path, w, node, S):
        i = self.dpos(path)
        if i is None or S.facts.get("cyc") is None:
            return
        k = path[i + 1][1] if len(path) > i + 1 else None
        if k == 1:
            if S.facts.get("pend"):
                self.bad("S02", "saved|%s" % w.name, node, "%s can write a trial magnetisation that was not accepted (time and state on file disagree)" % w.name)
            else:
                self.ok("S02", "states written to files are accepted states", "%s at %s" % (w.name, loc(node)))
        elif k == 0:
            self.ok("S02", "states written to files are accepted states", "%s at %s" % (w.name, loc(node)))

    @staticmethod
    def dpos(path):
        for i, s in enumerate(path):
            if s[0] == "." and s[1].endswith("Node@FI@d"):
                return i
        return None

    def on_return(self, v, node, S, fr):
        if v is None:
            return
        if fr.parent is not None and fr.parent.fn.id == self.root.id and isinstance(v.c, bool):
            S.facts["rb"] = (fr.fn.name, v.c)
        if fr.fn.id == self.root.id:
            self.checkpoint(node, S, "end of the integration")
            if S.facts.get("small"):
                if v.c is NOC or v.c == 0:
                    self.bad("S06", "status", node, "the integration can end because the step is too small and still return success")
                else:
                    self.ok("S06", "failure status when the step is too small", loc(node))

    def assemble(self, node, S, fr):
        S.facts["asm"] = 1
        dt, pf = self.tval("dt", S), self.tval("prefactor", S)
        if dt is not None:
            S.facts["adt"] = self.poly(dt)
        if not S.facts.get("bas") and S.facts.get("cyc"):
            self.bad("S02", "basis", node, "the element matrices can be computed with local bases that do not belong to the current magnetisation")
        if S.facts.get("cyc"):
            self.ok("S02", "assemblies with the basis of the current magnetisation", loc(node))
            if S.facts.get("pff") is None:
                self.bad("S02", "prefactor", node, "the relaxation prefactor does not belong to the time step the element matrices are computed with")
            self.small_guard(node, S)

    def small_guard(self, node, S):
        dt = self.tval("dt", S)
        if dt is None:
            return
        d = self.poly(dt)
        if S.facts.get("small") is False or self.known(S, d, "DTMIN"):
            self.ok("S06", "no step below the minimum is integrated", loc(node))
        else:
            self.bad("S06", "minimum", node, "a time step below the minimum can be integrated")

    def known(self, S, d, name):
        for k, val in S.assumed.items():
            if not (isinstance(k, tuple) and k[0] == "cmp"):
                continue
            _, op, a, b = k
            if a == d and self.is_field(b, name) and ((op in ("<", "<=") and not val) or (op in (">", ">=") and val)):
                return True
            if b == d and self.is_field(a, name) and ((op in (">", ">=") and not val) or (op in ("<", "<=") and val)):
                return True
        return False

    @staticmethod
    def is_field(p, name):
        return len(p) == 1 and all(len(m) == 1 and c == 1 and mentions(m[0], name) for m, c in p)

    def field(self, v, node, S, fr):
        t = self.tval("t", S)
        if t is None:
            return
        a = self.poly(v)
        if S.facts.get("upd") and not S.facts.get("adv"):
            good = a == self.target_time(S) or (S.facts.get("eqt") and a == S.facts.get("eqt"))
            if not self.in_energy(fr):
                good = True
        else:
            good = a == self.poly(t)
        if good:
            self.ok("S02", "applied field evaluated at the time of the state", loc(node))
        else:
            self.bad("S02", "field|%s" % fr.fn.name, node, "the applied field is evaluated at another time than that of the magnetisation it is used with")

    def target_time(self, S):
        t, dt = self.tval("t", S), self.tval("dt", S)
        r = dict(self.poly(t))
        for m, c in self.poly(dt):
            r[m] = r.get(m, 0) + c
        return poly_key(r)

    def checkpoint(self, node, S, what):
        if not S.facts.get("cyc"):
            return
        e, a = S.facts.get("evo", 0), S.facts.get("adv", 0)
        if e and not a:
            self.bad("S02", "noadvance", node, "a new magnetisation can be accepted without the time being advanced")
        elif a and not e:
            self.bad("S02", "noaccept", node, "the time can advance without the new magnetisation being accepted")
        elif e and not S.facts.get("ene"):
            self.bad("S02", "energy", node, "a step can be accepted without its energies being computed")
        elif e:
            self.ok("S02", "accepted steps", "%s at %s" % (what, loc(node)))
        else:
            self.ok("S02", "rejected steps that leave no trace", "%s at %s" % (what, loc(node)))

    def on_store(self, path, v, S, node, fr):
        n = fieldname(path[-1])
        last = path[-1]
        if n in ("t", "dt", "prefactor") and "timing" in last[1]:
            self.tp.setdefault(n, path)
            if n == "dt":
                self.set_dt(v, node, S, fr)
                if S.facts.get("pff") != fr.fid:
                    S.facts.pop("pff", None)
            elif n == "prefactor":
                S.facts["pff"] = fr.fid
            else:
                self.advance(v, node, S, fr)
            return
        i = self.dpos(path)
        if i is not None:
            k = path[i + 1][1] if len(path) > i + 1 else None
            f = fieldname(path[i + 2]) if len(path) > i + 2 else None
            if k == 1 and f in ("u", None) and not (v.c is not NOC):
                self.update(v, node, S, fr)
            elif k == 1 and f == "phi":
                S.facts["dem"] = 1
                S.facts["ene"] = 0
            elif k == 0 and f in ("u", None):
                S.facts["bas"] = 0
                if self.from_next(v, path, i):
                    self.promote(node, S, fr)
                else:
                    self.ok("S02", "other writes of the current magnetisation", loc(node))
            return
        if n in ("ep", "eq") and "Node" in last[1]:
            if S.facts.get("asm") and S.facts.get("cyc") and not S.facts.get("upd"):
                self.bad("S02", "rebase", node, "the local bases can change between the computation of the element matrices and the use of their solution")
            S.facts["bas"] = 1
        if n == "Etot" or (len(path) > 1 and fieldname(path[-2]) == "E" and "Fem" in str(path[-2][1])):
            S.facts["ene"] = 1
        if n == "v_max" and S.facts.get("cyc"):
            S.facts["vm"] = self.poly(v)
            if any(self.has_root(v.sym, r) for r in S.roots if r[0] == "v"):
                if self.lost and not self.maxother:
                    self.bad("S02", "vmax", node, "the largest speed does not take every node that moves into account")
                elif any(self.has_root(v.sym, r) for r in self.maxvars):
                    self.ok("S02", "largest speed taken over every node that moves", loc(node))
        if n == "soft_max":
            self.smp = path
            if S.facts.get("ctor") is None and not fr.fn.ctor:
                if "MAX" in self.bounds(v, S):
                    self.ok("S06", "step limit never raised above the maximum", loc(node))
                else:
                    self.bad("S06", "maximum", node, "the step limit can be raised above the maximum time step")
        if n in ("hard_max", "hard_min") and fr.fn.ctor:
            want = {"hard_max": "DTMAX", "hard_min": "DTMIN"}[n]
            p = self.poly(v)
            if len(p) == 1:
                (m, c), = p
                if len(m) == 1 and any(mentions(m[0], w) for w in ("DTMAX", "DTMIN", "tf")):
                    if mentions(m[0], want) and abs(c - 1) < Fraction(1, 10000):
                        self.ok("S06", "limits of the step from the settings", n)
                    else:
                        self.bad("S06", "limits|" + n, node, "the %s time step is not the one of the settings" % ("maximum" if n == "hard_max" else "minimum"))

    def has_root(self, s, r):
        if s == r:
            return True
        return isinstance(s, tuple) and any(self.has_root(x, r) for x in s)

    def from_next(self, v, path, i):
        src = v.obj or (v.sym[1] if isinstance(v.sym, tuple) and v.sym[:1] == ("ld",) else None)
        if not src:
            return False
        j = self.dpos(src)
        return j is not None and len(src) > j + 1 and src[j + 1][1] == 1 and src[:j] == path[:i]

    def update(self, v, node, S, fr):
        if not S.facts.get("cyc"):
            return
        dt = self.tval("dt", S)
        if S.facts.get("evo") or S.facts.get("adv"):
            return
        d = self.poly(dt) if dt is not None else None
        if not S.facts.get("asm"):
            self.bad("S02", "noassembly", node, "a new magnetisation can be computed from element matrices of another time step")
        elif d != S.facts.get("adt"):
            self.bad("S02", "assembly-dt", node, "the element matrices were computed with another time step than the one of the update")
        else:
            self.ok("S02", "updates with the time step of the element matrices", loc(node))
        # the step length used by the update
        self.update_dt(node, S, fr, d)
        self.speed(fr, S)
        S.facts["upd"] = S.facts["pend"] = 1
        S.facts["dem"] = S.facts["ene"] = 0

    def update_dt(self, node, S, fr, d):
        for i, p in enumerate(fr.fn.params):
            if p["n"] == "dt" or p["n"].endswith("dt"):
                v = S.get((("p", fr.fn.name, i, p["n"]),)) or S.get(self.vpath(p["d"], fr)) if p.get("d") else None
                if v is not None and d is not None and self.poly(v) != d:
                    self.bad("S02", "update-dt", node, "the magnetisation is moved by another time step than the one by which the time advances")
                elif v is not None:
                    self.ok("S02", "updates with the time step of the integration", loc(node))

    def speed(self, fr, S):
        """squared speed given to this node"""
        ps = [p for p in fr.fn.params if p.get("d")]
        if len(ps) < 2:
            return
        sq = {}
        for p in ps[:2]:
            v = S.get(self.vpath(p["d"], fr))
            if v is None:
                return
            for m, c in pmul(self.poly(v), self.poly(v)):
                sq[m] = sq.get(m, 0) + c
        S.facts["upq"] = poly_key(sq)

    def keeps(self, v, r, b):
        """the running maximum also keeps its earlier value"""
        return any(x != b and (x == frozenset() or any(self.has_root(m, r) for m, _ in x)) for x in v.f.get("lb") or ())

    def lower(self, v, S):
        r = set(Lb.of(v))
        p = self.poly(v)
        for k, val in S.assumed.items():
            if isinstance(k, tuple) and k[0] == "cmp":
                _, op, a, b = k
                if op in (">", ">="):
                    small, big = (b, a) if val else (a, b)
                elif op in ("<", "<="):
                    small, big = (a, b) if val else (b, a)
                else:
                    continue
                if big == p:
                    r.add(small)
        return frozenset(r)

    def promote(self, node, S, fr):
        if not S.facts.get("cyc"):
            return
        if not S.facts.get("upd"):
            self.bad("S02", "unsolved", node, "a step can be accepted although no new magnetisation was computed for it (failed solve)")
            return
        if not S.facts.get("dem"):
            self.bad("S02", "potential", node, "a step can be accepted without the demagnetising potential of the new magnetisation")
        if not S.facts.get("evo"):
            self.angle_guard(node, S)
        S.facts["evo"] = 1
        S.facts["pend"] = 0

    def angle_guard(self, node, S):
        dt = self.tval("dt", S)
        if S.facts.get("adv"):
            dtp = S.facts.get("odt")
        else:
            dtp = self.poly(dt)
        for k, val in S.assumed.items():
            if not (isinstance(k, tuple) and k[0] == "cmp"):
                continue
            _, op, a, b = k
            if op in ("<", "<="):
                small, big = (a, b) if val else (b, a)
            elif op in (">", ">="):
                small, big = (b, a) if val else (a, b)
            else:
                continue
            if any(mentions(m, "DUMAX") for m, _ in big) and len(big) == 1:
                # small <= c DUMAX  with small = dt * vmax
                if self.is_dt_times_vmax(small, big, dtp, S):
                    self.ok("S02", "accepted steps move the magnetisation by at most the allowed amount", loc(node))
                    return
        self.bad("S02", "dumax", node, "a step can be accepted although it moves the magnetisation by more than the largest change allowed")

    def is_dt_times_vmax(self, small, big, dtp, S):
        """small / big <= 1  says  dt * vmax <= DUMAX"""
        (bm, bc), = big
        # move everything to the left: small - ... only pure products are recognised
        if len(small) != 1 or dtp is None or len(dtp) != 1:
            return False
        (sm, sc), = small
        (dm, dc), = dtp
        vm = S.facts.get("vm")
        if vm is not None and vm != "mixed":
            k = ratio(small, pmul(dtp, vm))
            if k is not None and len(bm) == 1:
                return k / Fraction(bc) >= 1
            # dt <= DUMAX / vmax
            if small == dtp:
                k = ratio(pmul(big, vm), frozenset([(tuple(x for x in bm if mentions(x, "DUMAX")), Fraction(1))]))
                return k is not None and k <= 1
            return False
        if len(bm) == 1 and mentions(bm[0], "DUMAX"):
            rest = list(sm)
            for x in dm:
                if x not in rest:
                    return False
                rest.remove(x)
            return len(rest) == 1 and bc <= 1
        return False

    def advance(self, v, node, S, fr):
        if not S.facts.get("cyc"):
            return
        t = self.tval("t", S)
        dt = self.tval("dt", S)
        if S.facts.get("adv"):
            self.bad("S02", "advance-twice", node, "the time can advance twice for one step")
            return
        if not S.facts.get("upd"):
            self.bad("S02", "advance-unsolved", node, "the time can advance although no new magnetisation was computed (failed solve)")
        new = self.poly(v)
        good = new == self.target_time(S)
        if not good:
            # set exactly to the target: allowed when dt is known to be the distance to it
            dist = psub(new, self.poly(t))
            for k, val in S.assumed.items():
                if isinstance(k, tuple) and k[0] == "cmp" and val and k[1] in ("==",):
                    if {k[2], k[3]} == {self.poly(dt), dist} or psub(k[2], k[3]) in (psub(self.poly(dt), dist), psub(dist, self.poly(dt))):
                        good = True
                if isinstance(k, tuple) and k[0] == "cmp" and not val and k[1] in ("!=",):
                    if {k[2], k[3]} == {self.poly(dt), dist}:
                        good = True
        if good:
            self.ok("S02", "time advances by the step of the update", loc(node))
        else:
            self.bad("S02", "advance-by", node, "the time can advance by something else than the time step the new magnetisation was computed with")
        S.facts["adv"] = 1
        S.facts["odt"] = self.poly(dt)
        S.facts["below"] = None

    def set_dt(self, v, node, S, fr):
        if fr.fn.ctor or self.inside(fr, {self.root.id}) is None:
            return
        if S.facts.get("upd") and S.facts.get("evo") and not S.facts.get("adv"):
            self.bad("S02", "dt-changed", node, "the time step is changed between the acceptance of the magnetisation and the advance of the time")
        self.checkpoint(node, S, "next step")
        for k in ("evo", "adv", "upd", "asm", "dem", "rb", "vm", "odt", "small", "cond"):
            S.facts.pop(k, None)
        S.facts["cyc"] = 1
        # bounds
        t = self.tval("t", S)
        if t is not None:
            below = S.facts.get("below")
            ubs = self.bounds(v, S)
            if below is not None and below != "mixed":
                if psub(below, self.poly(t)) in ubs:
                    self.ok("S06", "steps do not overshoot the next output instant", loc(node))
                else:
                    self.bad("S06", "overshoot", node, "a time step can go beyond the next output instant")
            if "MAX" in ubs:
                self.ok("S06", "steps not larger than the maximum", loc(node))
            else:
                self.bad("S06", "larger", node, "a time step larger than the current limit can be taken")

    def bounds(self, v, S):
        r = set(Ub.of(v))
        p = self.poly(v)
        for k, val in S.assumed.items():
            if isinstance(k, tuple) and k[0] == "cmp":
                _, op, a, b = k
                if op in (">", ">="):
                    small, big = (b, a) if val else (a, b)
                elif op in ("<", "<="):
                    small, big = (a, b) if val else (b, a)
                else:
                    continue
                if small == p:
                    r.add(big)
                    r |= set(self.ubmap.get(big) or ())
                    if self.is_field(big, "soft_max") or self.is_field(big, "hard_max"):
                        r.add("MAX")
                    if self.smp is not None and S.get(self.smp) is not None and self.poly(S.get(self.smp)) == big:
                        r |= set(S.get(self.smp).f.get("ub") or ())
        return frozenset(r)

    def on_branch(self, cond, val, taken, S, fr):
        c = val.f.get("cmp")
        if c is not None:
            op, a, b = c
            S.assumed[("cmp",) + c] = taken
            if op in ("<", "<=", ">", ">="):
                small, big = (a, b) if (op[0] == "<") == taken else (b, a)
                for r, d in S.roots.items():
                    if r[0] == "v" and () in d and r[2:] == (fr.fid,) and d[()].f.get("ub") and self.poly(d[()]) == big:
                        self.ubmap[big] = d[()].f["ub"]
                more = {big} | set(self.ubmap.get(big) or ())
                if self.is_field(big, "soft_max") or self.is_field(big, "hard_max"):
                    more.add("MAX")
                cells = [((r,), d[()]) for r, d in S.roots.items() if r[0] == "v" and () in d and r[2:] == (fr.fid,)]
                if self.smp is not None and S.get(self.smp) is not None:
                    sm = S.get(self.smp)
                    cells.append((self.smp, sm))
                    if self.poly(sm) == big:
                        more |= set(sm.f.get("ub") or ())
                for p0, v0 in cells:
                    if self.poly(v0) == small and small:
                        S.put(p0, v0.with_(f=dict(v0.f, ub=Ub.of(v0) | frozenset(more))))
                for r, d in list(S.roots.items()):
                    if r[0] == "v" and () in d and r[2:] == (fr.fid,) and self.poly(d[()]) == big:
                        S.put((r,), d[()].with_(f=dict(d[()].f, lb=Lb.of(d[()]) | frozenset([small]))))
            t = self.tval("t", S)
            if t is not None and fr.fn.id == self.root.id:
                tp = self.poly(t)
                other, rel = (b, op) if a == tp else (a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)) if b == tp else (None, None)
                if other is not None and rel in ("<", ">="):
                    lt = taken if rel == "<" else not taken
                    if lt:
                        S.facts["below"] = other
                    elif S.facts.get("below") == other and not S.facts.get("adv"):
                        return False
            dt = self.tval("dt", S)
            if dt is not None and S.facts.get("cyc"):
                d = self.poly(dt)
                for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                    if x == d and self.is_field(y, "DTMIN"):
                        small = taken if o in ("<", "<=") else (not taken if o in (">", ">=") else None)
                        if small is not None:
                            S.facts["small"] = small
        return True

    def e_Cond(self, e, S, fr):
        if not self.isnum(e) or not (fr.fn.id == self.root.id or (fr.parent is not None and fr.parent.fn.id == self.root.id)):
            return Engine.e_Cond(self, e, S, fr)
        a, b = self.branch(e["c"], S, fr)
        for i, xs in enumerate((a, b)):
            for x in xs:
                x.facts["cond"] = (loc(e), i)
        return [r for x in a for r in self.ev(e["a"], x, fr)] + [r for x in b for r in self.ev(e["b"], x, fr)]

    def join_states(self, A, B, site):
        return Engine.join_states(self, A, B, site)

    def store(self, path, v, S, node, fr, weak=False, quiet=False):
        if fr.fn.ctor and fieldname(path[-1]) in ("soft_max", "hard_max"):
            v = v.with_(f=dict(v.f, ub=self.bounds(v, S) | frozenset(["MAX"])))
        # bounds known from the path taken are attached to the value that is stored
        if not quiet and "ub" in [d.name for d in self.doms] and v.obj is None and v.c is NOC and self.isnum(node):
            b = self.bounds(v, S)
            self.ubmap[self.poly(v)] = b
            if len(b) > 1:
                v = v.with_(f=dict(v.f, ub=b))
            b = self.lower(v, S)
            if len(b) > 1:
                v = v.with_(f=dict(v.f, lb=b))
        return Engine.store(self, path, v, S, node, fr, weak, quiet)

    @staticmethod
    def isnum(node):
        t = node.get("t") if isinstance(node, dict) else None
        return t is not None and t.b in ("float", "double", "int") or (t is not None and t.c in ("double", "float"))

    def on_loop(self, kind, node, S, fr):
        q = S.facts.pop("upq", None)
        if fr.fn.id != self.root.id:
            S.facts.pop("cond", None)
        if q is not None and kind == "back":
            hit = False
            for r, d in S.roots.items():
                if r[0] != "v" or () not in d:
                    continue
                lb = self.lower(d[()], S)
                for b in lb:
                    k = ratio(q, b)
                    if k is not None and k > 0 and self.keeps(d[()], r, b):
                        hit = True
                        self.maxvars.add(r)
            if not hit:
                self.lost.append(loc(node))
        elif kind == "back" and q is None:
            for r, d in S.roots.items():
                if r[0] == "v" and () in d and d[()].f.get("lb"):
                    for b in d[()].f["lb"]:
                        if len(b) == 2 and all(len(m) == 2 and m[0] == m[1] for m, _ in b) and self.keeps(d[()], r, b):
                            self.maxother.add(r)
        if fr.fn.id != self.root.id or kind != "back":
            return
        if any(n.get("k") == "Call" and n.get("fn") in self.writers for n in walk(node)) :
            if S.facts.get("sv") != 1 and not any(n.get("k") in ("While", "Do") and any(m.get("k") == "Call" and m.get("fn") in self.writers and self.prog.fns[m["fn"]].name.endswith("saver") for m in walk(n)) for n in walk(node) if n is not node):
                if any(n.get("k") == "Call" and n.get("fn") in self.writers and any("ofstream" in p["t"].c for p in self.prog.fns[n["fn"]].params) for n in walk(node)):
                    self.bad("S02", "unwritten", node, "an output instant can pass without being written")
            S.facts["sv"] = None
        elif S.facts.get("cyc") and not S.facts.get("evo") and not S.facts.get("adv"):
            self.rejected(node, S)

    def rejected(self, node, S):
        if self.smp is None:
            return
        v = S.get(self.smp)
        dt = self.tval("dt", S)
        if v is None or dt is None:
            return
        d = self.poly(dt)
        for b in self.bounds(v, S):
            if b == "MAX":
                continue
            k = ratio(b, d)
            if k is not None and 0 < k < 1:
                self.ok("S06", "a rejected step is retried with a smaller one", "fraction of the failed step")
                return
            for key, val in S.assumed.items():
                if not (isinstance(key, tuple) and key[0] == "cmp"):
                    continue
                _, op, x, y = key
                if op in (">", ">="):
                    small, big = (y, x) if val else (x, y)
                elif op in ("<", "<="):
                    small, big = (x, y) if val else (y, x)
                else:
                    continue
                # small < big = dt * X ;  b * X = k small
                if len(big) != 1 or len(d) != 1:
                    continue
                (bm, bc), = big
                (dm, dc), = d
                rest = list(bm)
                if not all(x in rest for x in dm):
                    continue
                for x in dm:
                    rest.remove(x)
                X = frozenset([(tuple(rest), Fraction(bc) / Fraction(dc))])
                k = ratio(pmul(b, X), small)
                if k is not None and 0 < k <= 1:
                    self.ok("S06", "a rejected step is retried with a smaller one", "limit from the largest change allowed")
                    return
        self.bad("S06", "retry", node, "a rejected step can be tried again without a smaller time step")


CACHE = {}


def analyse(ctx):
    prog = ctx.program()
    roots = [f for f in prog.fns.values() if f.body is not None and f.repo and not f.is_lambda and any("timing" in p["t"].c and not p["t"].const for p in f.params)
             and any(n.get("k") in ("While", "For", "Do") for n in fn_nodes(f)) and any(n.get("k") == "Call" and (prog.fns.get(n.get("fn")) is not None) and prog.fns[n["fn"]].name == "timing::set_dt" for n in fn_nodes(f))]
    ctx.need(roots, "no time integration found")
    eng = Eng(prog, ctx, roots[0])
    eng.run(roots[0])
    return eng


def report(ctx, prop):
    eng = analyse(ctx)
    seen = set()
    for p, key, where, msg in eng.found:
        if p == prop and (key, where) not in seen:
            seen.add((key, where))
            ctx.violation(key, where, msg)
    n = 0
    for (p, kind), whats in sorted(eng.count.items()):
        if p == prop:
            for w in sorted(whats):
                ctx.ok(kind, w)
                n += 1
    ctx.need(n or seen, "nothing was analysed")
    return eng
