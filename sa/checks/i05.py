"""I05: a saved magnetisation can be restored: what readSol puts in each node is what savesol wrote for it.

The rows written by savesol are abstractly executed into (index, values by access path); the tokens read by readSol
are followed into the node they are stored in; both layouts are compared, as are the tag of the time and its reader."""
from sa.interp import V, NOC, State, Domain, strip, is_class
from sa.lib import fieldname, loc, walk
from sa.checks.textio import Text, names, cat, WS

CONV = {"strtod", "stod", "atof", "stof", "stold", "strtold", "strtof", "stoi", "stol", "stoul", "stoull", "atoi", "atol", "strtol", "strtoul"}
MESH = (("o", "Mesh::mesh"),)


class Tok(Domain):
    """tok: ('n', rank) the rank-th word of a line of the file; ('after', tag) what follows a tag"""
    name = "tok"

    def call(self, eng, name, obj, args, node, S):
        sn = name.rsplit("::", 1)[-1]
        if sn in ("c_str", "data") and obj is not None:
            return obj.v.f.get("tok")
        if sn in CONV and args:
            return args[0].v.f.get("tok")
        if node.get("k") == "Construct" and "basic_string" in node.get("cls", "") and args:
            return args[0].v.f.get("tok")
        return None

    def un(self, eng, op, a, node, S):
        return a.f.get("tok") if op == "+" else None


class Cmp(Domain):
    name = "cmp"

    def bin(self, eng, op, a, b, node, S):
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if x.f.get("tok") == ("n", 0) and y.sym in eng.ranges:
                    return ("row", op == "==")
                if x.f.get("found") and (y.f.get("npos") or y.c == -1 or "npos" in str(y.sym)):
                    return ("tag", op == "!=")
        return None

    def un(self, eng, op, a, node, S):
        c = a.f.get("cmp")
        if op == "!" and c:
            return (c[0], not c[1])
        return None

    def cast(self, eng, a, node):
        return a.f.get("cmp")


class Ok(Domain):
    """ok: (streams, polarity) a test of the state of a stream"""
    name = "ok"

    def un(self, eng, op, a, node, S):
        c = a.f.get("ok")
        return (c[0], not c[1]) if op == "!" and c else None

    def cast(self, eng, a, node):
        return a.f.get("ok")


def rowkey(key, ranges):
    """'row' | ('node_index', 'row') | None for the index of a node"""
    if isinstance(key, tuple) and key[0] == "s":
        s = key[1]
        if s in ranges:
            return "row"
        if isinstance(s, tuple) and s and s[0] == "ld":
            p = s[1]
            if len(p) >= 2 and p[-1][0] == "[" and p[-2][0] == "." and rowkey(p[-1][1], ranges) == "row":
                return (str(fieldname(p[-2])), "row")
    return None


def rowsym(key, ranges):
    if isinstance(key, tuple) and key[0] == "s":
        s = key[1]
        if s in ranges:
            return s
        if isinstance(s, tuple) and s and s[0] == "ld" and s[1][-1][0] == "[":
            return rowsym(s[1][-1][1], ranges)
    return None


def shape(path, ranges):
    """(index of the node, slot, field, component) of a value of a node of the mesh"""
    n = names(path)
    if path[:1] != MESH or len(n) < 5 or n[0] != "node" or n[2] != "d":
        return None
    comp = n[5][1] if len(n) > 5 and isinstance(n[5], tuple) else None
    return rowkey(n[1][1], ranges), n[3][1] if isinstance(n[3], tuple) else None, n[4], comp


class Save(Text):
    def __init__(self, prog):
        Text.__init__(self, prog, [Ok()], nonempty=True, unroll=8)
        self.exits = []
        self.assumes = []

    def on_construct(self, cls, p, args, e, S, fr):
        Text.on_construct(self, cls, p, args, e, S, fr)
        if "ofstream" in cls or "basic_fstream" in cls:
            S.facts[("open", p)] = "unchecked" if args else "closed"

    def on_call(self, name, fn, obj, args, e, S, fr):
        r = stream_test(self, name, obj, e, S, fr)
        return r or Text.on_call(self, name, fn, obj, args, e, S, fr)

    def sid(self, a):
        p = Text.sid(self, a)
        return p

    def on_branch(self, cond, v, taken, S, fr):
        o = v.f.get("ok")
        if o:
            if o[1] == taken:
                S.facts["opened"] = True
            else:
                S.facts["failed"] = True
        return None

    def part_key(self, S):
        return Text.part_key(self, S) + (("opened", S.facts.get("opened")), ("failed", S.facts.get("failed")))

    def line(self, st, ps, S, e, fr):
        Text.line(self, st, ps, S, e, fr)


def stream_test(eng, name, obj, e, S, fr):
    sn = name.rsplit("::", 1)[-1]
    if obj is None or not name.startswith("std::basic_"):
        return None
    if sn in ("fail", "bad", "eof", "operator!"):
        return [(V(eng.fresh(e, fr), f={"ok": (obj.p, False)}), S)]
    if sn in ("good", "is_open", "operator bool"):
        return [(V(eng.fresh(e, fr), f={"ok": (obj.p, True)}), S)]
    return None


class Restore(Text):
    """facts ('n', stream): words read since the beginning of the line; ('unchecked', stream): the state of the stream was
    not tested since the last read; 'idx': the first word was compared with the number of the row"""

    def __init__(self, prog):
        Text.__init__(self, prog, [Tok(), Cmp(), Ok()], nonempty=True, unroll=8)
        self.viol = {}
        self.rows = []
        self.rets = []
        self.exits = []
        self.raw = []
        self.seen = set()

    def part_key(self, S):
        f = S.facts
        return tuple(sorted(((k, v) for k, v in f.items() if k in ("idx", "tf", "opened") or (isinstance(k, tuple) and k[0] in ("n", "unchecked"))), key=str))

    def on_construct(self, cls, p, args, e, S, fr):
        if "ifstream" in cls or "basic_fstream" in cls:
            self.seen.add("file")
        if "istringstream" in cls or "basic_stringstream" in cls:
            S.facts[("n", p)] = 0
            S.facts[("split", p)] = True

    def decl(self, d, S, fr):
        t = d.get("t")
        if t is not None and t.rec and "stringstream" in t.rec and not d.get("ref"):
            p = self.vpath(d["d"], fr)
            if S.facts.get(("unchecked", p)):
                self.flag("unchecked", loc(d), "the words of a line are used without testing that they are all there")
            S.facts.pop(("unchecked", p), None)
            S.facts[("n", p)] = 0
            S.facts[("split", p)] = True
        return Text.decl(self, d, S, fr)

    def flag(self, key, where, msg):
        self.viol.setdefault(key, (where, msg))

    def on_call(self, name, fn, obj, args, e, S, fr):
        sn = name.rsplit("::", 1)[-1]
        r = stream_test(self, name, obj, e, S, fr)
        if r:
            return r
        if sn == "operator>>" and name.startswith("std::"):
            ops = ([obj] if obj is not None else []) + args
            if len(ops) == 2 and ops[0].p:
                st = ops[0].p[0]
                n = strip(ops[1].node) if ops[1].node is not None else {}
                if n.get("k") == "Ref" and n.get("dk") == "fn":
                    return [(V(self.fresh(e, fr), ptr=ops[0].p), S)]
                k = S.facts.get(("n", st), 0)
                t = n.get("t")
                S.facts[("n", st)] = k + 1 if isinstance(k, int) else k
                S.facts[("unchecked", st)] = loc(e)
                if k == 0:
                    S.facts["idx"] = False
                f = {"tok": ("n", k)}
                if t is not None and t.b == "float" and k:
                    f["raw"] = True
                    self.raw.append((k, loc(e)))
                if ops[1].p:
                    self.store_set(ops[1].p, V(self.fresh(e, fr, "tok"), f=f), S, e, fr)
                return [(V(self.fresh(e, fr), ptr=ops[0].p, f={"ok": (ops[0].p, True)}), S)]
        if sn == "getline" and name.startswith("std::") and len(args) >= 2 and args[0].p:
            st = args[0].p[0]
            S.facts[("n", st)] = 0      # (a line that cannot be read is empty: its words are tested where they are read)
            if args[1].p:
                self.store_set(args[1].p, V(self.fresh(e, fr, "line"), f={"ln": True}), S, e, fr)
            return [(V(self.fresh(e, fr), ptr=args[0].p, f={"ok": (args[0].p, True)}), S)]
        if sn == "ignore" and name.startswith("std::basic_istream") and obj is not None and obj.p:
            if len(args) == 2 and (args[1].v.c == 10 or args[1].v.f.get("str") == (("c", "\n"),)):
                n = args[0].v.c
                if n is NOC or not isinstance(n, int) or n > 10000:
                    S.facts[("n", obj.p[0])] = 0
            return [(V(self.fresh(e, fr), ptr=obj.p), S)]
        if sn == "find" and "basic_string" in name and obj is not None and args:
            return [(V(self.fresh(e, fr), f={"found": args[0].v.f.get("str") or ("?",)}), S)]
        if sn in ("length", "size") and "basic_string" in name and obj is not None:
            return [(V(self.bounded(("len", obj.v.sym), e, fr), f={"len": obj.v.f.get("str")}), S)]
        if sn == "substr" and obj is not None and args:
            a = args[0].v.f.get("aftr")
            return [(V(self.fresh(e, fr), f={"tok": ("after",) + (a or ("?",))}), S)]
        if sn == "exit" or sn == "_Exit":
            self.exits.append((args[0].v.c if args else NOC, loc(e)))
        return None

    def binv(self, op, a, b, e, S, fr):
        v = Text.binv(self, op, a, b, e, S, fr)
        if op == "+":
            for x, y in ((a, b), (b, a)):
                if x.f.get("found"):
                    L = y.f.get("len")
                    n = y.c if isinstance(y.c, int) else None
                    tag = x.f["found"]
                    if L is not None and L == tag:
                        return v.with_(f=dict(v.f, aftr=(tag, 0)))
                    if n is not None and len(tag) == 1 and tag[0][0] == "c":
                        return v.with_(f=dict(v.f, aftr=(tag, n - len(tag[0][1]))))
                    if L is not None:
                        return v.with_(f=dict(v.f, aftr=(tag, "length of another string")))
        return v

    def on_branch(self, cond, v, taken, S, fr):
        o = v.f.get("ok")
        if o and o[1] == taken:
            for p in o[0] or ():
                S.facts.pop(("unchecked", p), None)
            S.facts["opened"] = True
        c = v.f.get("cmp")
        if c and c[0] == "row":
            S.facts["idx"] = c[1] == taken
        return None

    def on_store(self, path, v, S, node, fr):
        if v.f.get("tok") and v.f["tok"][0] == "after" and path[0][0] == "v":
            t = (strip(node) if node else {}).get("t") or (node or {}).get("t")
            if t is None or t.b == "float":
                S.facts["tf"] = True

    def on_loop(self, kind, node, S, fr):
        if kind != "back":
            return
        site = ("phi", id(node), fr.fid)
        r = S.roots.get(MESH[0]) or {}
        got = {}
        for k in list(r):
            sh = shape(MESH + k, self.ranges)
            if not sh or sh[0] is None:
                continue
            rs = rowsym(names(MESH + k)[1][1], self.ranges)
            if rs is None or rs[1] != site:
                continue
            v = r[k]
            if sh[2] == "u" and sh[3] is None:
                for c in range(3):
                    x = S.get(MESH + k + (("[", c),))
                    if x is None and v.obj is not None:
                        x = S.get(v.obj + (("[", c),))
                    if x is not None:
                        got.setdefault((sh[0], sh[1], "u", c), x)
            else:
                got[sh] = v
        if got:
            left = [s for s in S.facts if isinstance(s, tuple) and s[0] == "n" and S.facts[s] not in (0,) and not S.facts.get(("split", s[1]))]
            self.rows.append((got, S.facts.get("idx"), [S.facts[s] for s in left], loc(node)))
        for s in [s for s in S.facts if isinstance(s, tuple) and s[0] == "n"]:
            S.facts[s] = 0

    def on_return(self, v, node, S, fr):
        if fr.depth == 0 or fr.parent is None:
            un = [S.facts[k] for k in S.facts if isinstance(k, tuple) and k[0] == "unchecked"]
            self.rets.append((v, S.facts.get("tf"), un, S.facts.get("opened"), loc(node or {})))


def fn_named(prog, name, need=None):
    for f in prog.fns.values():
        if f.name == name and f.body is not None:
            return f
    return None


def run(ctx):
    prog = ctx.program()
    ctx.rule("every row written by savesol is the number i of the row, then u.x u.y u.z phi of the current state of node[node_index[i]], then optional columns, "
             "separated by white space; readSol stores words 1, 2, 3, 4 of row i in u and phi of the state the integration starts from of the same node, "
             "compares word 0 with i, skips the optional columns, parses what is written for undefined values, "
             "and ends with a failure status on a missing time, on a wrong number and on a line that is not complete")
    ctx.assume("std::strtod, std::stod read back every text an ostream writes for a double, 'nan' included; operator>>(double) does not read 'nan' (libstdc++)")
    ctx.assume("the numeric precision of the text is that of outputs.precision")
    w = fn_named(prog, "Mesh::mesh::savesol")
    r = fn_named(prog, "Mesh::mesh::readSol")
    ctx.need(w is not None and r is not None, "Mesh::mesh::savesol or readSol is not found")

    # ---------------------------------------------------------------- writer
    W = Save(prog)
    W.run(w, MESH, {})
    rows = [x for x in W.lines if any(p[0] in ("o", "i") and (p[0] == "i" or shape(p[1], W.ranges)) for p in x[1])]
    layout = None
    for st, ps, facts, wh in rows:
        toks, sepok = [], True
        while len(ps) > 1 and ps[0][0] == "o" and len(ps[0][1]) == 1 and ps[0][1][0][0] == "p":
            ps = ps[1:]             # the header, given by the caller
        glued = False
        prev = False
        for p in ps:
            if p[0] == "c":
                prev = False
                if p[1].strip(WS) or not p[1]:
                    toks.append(p)
            else:
                if prev:
                    sepok = False
                toks.append(p)
                prev = True
        if not sepok:
            ctx.violation("row|separator", wh, "two values of a row are written without white space between them")
            continue
        if any(t[0] == "?" for t in toks[:5]) or not toks:
            continue
        if toks[0][0] != "i":
            sh = shape(toks[0][1], W.ranges) if toks[0][0] == "o" else None
            if sh or rowkey(("s", ("ld", toks[0][1])), W.ranges) if toks[0][0] == "o" else False:
                ctx.violation("row|index", wh, "the first word of a row is not the number of the row")
            continue
        lo, op, hi = W.ranges[toks[0][1]]
        lay = []
        for k, t in enumerate(toks[1:5]):
            sh = shape(t[1], W.ranges) if t[0] == "o" else None
            lay.append(sh)
        want = [("u", 0), ("u", 1), ("u", 2), ("phi", None)]
        for k, sh in enumerate(lay):
            if sh is None:
                continue
            what = "word %d of a row" % (k + 1)
            if (sh[2], sh[3]) != want[k]:
                ctx.violation("row|%d" % (k + 1), wh, "%s is %s%s, not %s%s" % (what, sh[2], sh[3] if sh[3] is not None else "", want[k][0], "" if want[k][1] is None else "xyz"[want[k][1]]))
            elif sh[0] is not None and sh[0] != ("node_index", "row"):
                ctx.violation("row|node", wh, "%s is taken from node[%s], not from the node with that number in the mesh file" % (what, sh[0]))
            elif sh[1] is not None and sh[1] != 0:
                ctx.violation("row|slot", wh, "%s is not taken from the current state" % what)
            else:
                ctx.ok("words of the rows written", "%s: %s of node[node_index[i]]" % (what, sh[2]))
        if len(toks) < 5:
            ctx.violation("row|short", wh, "a row has %d words instead of 5 or more" % len(toks))
        for t in toks[5:]:
            if t[0] == "o":
                n = names(t[1])
                ks = [rowkey(x[1], W.ranges) for x in n if isinstance(x, tuple)]
                ks = [k for k in ks if k]
                if "row" in ks:
                    ctx.violation("row|optional", wh, "an optional column is not taken from the node of the row")
        if lo.c not in (0, NOC) or op == "<=":
            ctx.violation("row|range", wh, "the rows do not start with node 0 or end after the last node")
        hs = str(hi.sym)
        if hi.c is NOC and ("'-'" in hs or "'/'" in hs) and "size" in hs:
            ctx.violation("row|range", wh, "the rows do not cover all the nodes")
        pr = facts.get(("manip", st, "precision"))
        if pr is None:
            ctx.violation("row|precision", wh, "the numbers are written with the default precision, not with outputs.precision")
        else:
            ctx.ok("precision of the rows", "%s" % (pr,))
        if facts.get(("manip", st, "float")) == "fixed":
            ctx.violation("row|fixed", wh, "the numbers are written in fixed notation: small values are lost")
        if facts.get("opened") is not True or facts.get("failed"):
            ctx.violation("open|savesol", wh, "rows are written although the file may not be open: nothing is saved and no error is reported")
        else:
            ctx.ok("opening of the file tested", "savesol")
    for fmt, wh in W.formats:
        if fmt and isinstance(fmt[0], tuple) and fmt[0][0] == "c" and isinstance(fmt[0][1], int) and fmt[0][1] > 0 and fmt[0][1] < 6:
            ctx.violation("row|precision", wh, "the vectors are written with %d digits only" % fmt[0][1])

    # ---------------------------------------------------------------- slot of the initial state
    init_slots = set()
    f0 = fn_named(prog, "Mesh::mesh::init_distrib")
    if f0 is not None:
        class Init(Text):
            def on_store(self, path, v, S, node, fr):
                sh = shape(path, {})
                if path[:1] == MESH:
                    n = names(path)
                    if len(n) >= 5 and n[0] == "node" and n[2] == "d" and n[4] == "phi" and isinstance(n[3], tuple):
                        init_slots.add(n[3][1])
        Init(prog, nonempty=True).run(f0, MESH, {})

    # ---------------------------------------------------------------- reader
    R = Restore(prog)
    R.run(r, MESH, {})
    for key, (wh, msg) in R.viol.items():
        ctx.violation("read|" + key, wh, msg)
    want = {("u", 0): 1, ("u", 1): 2, ("u", 2): 3, ("phi", None): 4}
    for got, idx, left, wh in R.rows:
        for (node, slot, field, comp), v in got.items():
            k = want.get((field, comp))
            if k is None:
                continue
            nm = field + ("" if comp is None else "." + "xyz"[comp])
            t = v.f.get("tok")
            if t is None or t[0] != "n":
                if v.c is not NOC:
                    ctx.violation("read|%s" % nm, wh, "%s of a node is restored with a constant, not from the file" % nm)
                continue
            if t[1] is None or not isinstance(t[1], int):
                continue
            if t[1] != k:
                ctx.violation("read|%s" % nm, wh, "%s of a node is restored from word %d of the row, it is written as word %d" % (nm, t[1], k))
            elif node != ("node_index", "row"):
                ctx.violation("read|node", wh, "row i is restored in node[%s], it is written from node[node_index[i]]" % (node,))
            elif init_slots and slot is not None and slot not in init_slots:
                ctx.violation("read|slot", wh, "the state restored is not the one the integration starts from")
            elif v.f.get("raw"):
                ctx.violation("read|nan", wh, "%s is read with operator>>, which does not read the 'nan' written for undefined values" % nm)
            else:
                ctx.ok("words of the rows restored", "%s of node[node_index[i]] from word %d" % (nm, k))
        miss = [k for k in want if not any((f, c) == k for (_, _, f, c) in got)]
        full = any(f == "u" for (_, _, f, c) in got) and any(f == "phi" for (_, _, f, c) in got)
        for f, c in miss:
            ctx.violation("read|missing|%s" % f, wh, "%s of a node is not restored" % (f + ("" if c is None else "." + "xyz"[c])))
        if idx is not True:
            ctx.violation("read|index", wh, "a row is restored without checking that it is the row of that node")
        else:
            ctx.ok("numbers of the rows tested", "readSol")
        if left:
            ctx.violation("read|columns", wh, "the optional columns of a row are not skipped: the next row is misread")
        else:
            ctx.ok("optional columns skipped", "readSol")
    tags = set()
    for v, tf, un, op, wh in R.rets:
        for u in un:
            ctx.violation("read|unchecked", u, "readSol returns without having tested that this read succeeded: a truncated file is accepted")
        if not un:
            ctx.ok("state of the stream tested", "readSol")
        t = v.f.get("tok") if v is not None else None
        if t and t[0] == "after" and t[1] != "?":
            tags.add(t[1])
            if t[2] != 0:
                ctx.violation("read|time", wh, "the time is not parsed from the end of its tag (offset %s)" % (t[2],))
            else:
                ctx.ok("time restored", "text after %s" % (t[1],))
        elif not tf:
            ctx.violation("read|time", wh, "readSol returns although no time was found in the file")
    for c, wh in R.exits:
        if c == 0:
            ctx.violation("exit|0", wh, "a file that cannot be restored ends the program with a success status")
        else:
            ctx.ok("refusals end with a failure status", wh)

    # ---------------------------------------------------------------- the tag of the time
    m = fn_named(prog, "Settings::solMetadata")
    if m is not None and tags:
        M = Text(prog, nonempty=False)

        out = []

        class Meta(Text):
            def by_line(self, st, S):
                return False

            def emit(self, st, ps, S, e, fr):
                if any(q[0] == "o" and q[1][0][0] in ("p", "v") for q in ps) and S.facts.get(("manip", st, "float")) == "fixed":
                    ctx.violation("tag|fixed", loc(e), "the time is written in fixed notation: times below a microsecond are lost")
                Text.emit(self, st, ps, S, e, fr)

            def on_return(self, v, node, S, fr):
                if fr.parent is None and v is not None:
                    out.append((v.f.get("str"), loc(node or {})))
        Meta(prog).run(m, (("o", "Settings"),), {})
        for ps, wh in out:
            if ps is None:
                continue
            for tag in tags:
                if len(tag) != 1 or tag[0][0] != "c":
                    continue
                hit = None
                for i, p in enumerate(ps):
                    if p[0] == "c" and tag[0][1] in p[1]:
                        after = p[1].split(tag[0][1], 1)[1]
                        start = p[1].split(tag[0][1], 1)[0]
                        nx = ps[i + 1] if i + 1 < len(ps) else None
                        hit = (start, after, nx)
                if hit is None:
                    ctx.violation("tag", wh, "the header written does not contain the tag %r readSol looks for" % tag[0][1])
                elif hit[1].strip(WS) or hit[2] is None or not (hit[2][0] == "o" and hit[2][1][0][0] in ("p", "v")):
                    ctx.violation("tag|value", wh, "the tag of the time is not followed by the time")
                elif hit[0] and not hit[0].endswith("\n"):
                    ctx.violation("tag|line", wh, "the tag of the time is not at the beginning of a line")
                else:
                    ctx.ok("tag of the time written", tag[0][1])

    # ---------------------------------------------------------------- use
    for f in prog.fns.values():
        if f.body is None or not f.repo:
            continue
        for n in walk(f.body):
            for k, x in n.items():
                for y in (x if isinstance(x, list) else [x]):
                    c = strip(y) if isinstance(y, dict) and y.get("k") else None
                    if c is None or c.get("k") != "Call" or c.get("fn") != r.id:
                        continue
                    if n.get("k") == "Compound" or (n.get("k") in ("If", "For", "While", "Do", "RangeFor") and k in ("then", "else", "b", "a")):
                        ctx.violation("use|time", loc(c), "the time of the restored state is dropped")
                    else:
                        ctx.ok("time of the restored state used", f.name)
    for k in ("words of the rows written", "words of the rows restored"):
        ctx.min(k, 1)
