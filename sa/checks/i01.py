"""I01: the settings printed are the settings in force: reading the print-out gives them back.

Compares two maps extracted by abstract interpretation (settings_model): YAML key -> field, from the reader, and
printed key -> field with the conditions it is printed under, from the printer."""
from sa.checks.settings_model import Writer, find_read, run_reader, run_writer
from sa.interp import V, strip
from sa.lib import fn_nodes, loc, walk

R3 = ("mesh", "volume_regions", "*")
T3 = ("mesh", "surface_regions", "*")
# a key may be left out when the feature it belongs to is off: gate key
GATES = {R3 + ("uk",): R3 + ("K",), R3 + ("ex",): R3 + ("K3",), R3 + ("ey",): R3 + ("K3",), R3 + ("ez",): R3 + ("K3",), T3 + ("uk",): T3 + ("Ks",),
         T3 + ("uP",): ("spin_accumulation", "enable"), T3 + ("s",): ("spin_accumulation", "enable"), ("spin_accumulation", "V_file"): ("spin_accumulation", "enable"),
         ("recentering", "direction"): ("recentering", "enable"), ("recentering", "threshold"): ("recentering", "enable")}


def nm(k):
    return ".".join(str(x) for x in k)


def value(ps):
    """what a printed value denotes: a field, a list of fields, a literal"""
    if not ps:
        return ("null",)
    if len(ps) == 1 and ps[0][0] == "f" and ps[0][2] is None:
        return ("field", ps[0][1])
    if len(ps) == 3 and ps[0] in (("c", '"'), ("c", "'")) and ps[2] == ps[0] and ps[1][0] == "f":
        return ("field", ps[1][1])
    if all(p[0] == "c" for p in ps):
        return ("text", "".join(p[1] for p in ps))
    if ps[0][0] == "c" and ps[0][1].startswith("[") and ps[-1][0] == "c" and ps[-1][1].endswith("]"):
        items, ok = [], True
        for i, p in enumerate(ps):
            if p[0] == "f":
                items.append((p[1], p[2]))
            elif p[0] == "c" and 0 < i < len(ps) - 1 and p[1].strip(' "\'') != ",":
                ok = False
        if ok and len(items) == 3:
            if all(c is not None for _, c in items) and len({f for f, _ in items}) == 1:
                return ("field", items[0][0]) if [c for _, c in items] == [0, 1, 2] else ("shuffled", items[0][0], tuple(c for _, c in items))
            return ("list", tuple(f for f, _ in items))
    fs = tuple(p[1] for p in ps if p[0] == "f")
    return ("other", fs)


def run(ctx):
    prog = ctx.program()
    ctx.rule("every key the reader stores into a field is printed with that field, under the same sections, and every key printed is read into the field printed; "
             "a key is left out only when its feature is off; a field the reader sets to NaN for a missing value is not printed as a number; "
             "of several forms of a key, the one printed is the one read last")
    ctx.assume("strings printed without quotes are plain YAML scalars; numbers are printed with the precision of the stream")
    w = run_writer(prog)
    ctx.need(w is not None, "Settings::toYaml is not found")
    # ---- what is printed
    W = {}
    for key, val, cond, where, ind in w.lines:
        if key == ("!",):
            ctx.violation("line|%s" % (str(val),), where, "a line is printed that is no 'key: value' line: %s" % "".join(p[1] if p[0] == "c" else "<%s>" % p[1] if p[0] == "f" else "?" for p in val))
            continue
        k = tuple("*" if isinstance(x, tuple) or x == "-" else x for x in key)
        names = tuple(x[1] for x in key if isinstance(x, tuple))
        W.setdefault(k, {}).setdefault((value(val), cond, names), where)
    multi = {}
    for k, recs in W.items():
        vs = {v for v, c, n in recs if v[0] in ("field", "list")}
        kids = [k2 for k2 in W if len(k2) == len(k) + 1 and k2[:len(k)] == k]
        if len(vs) + bool(kids) > 1:
            multi[k] = (vs, kids)
    altf = set()
    for k, (vs, kids) in multi.items():
        for kk in [k] + kids:
            for v, cond, n in W[kk]:
                altf |= {v[1]} if v[0] == "field" else set(v[1]) if v[0] == "list" else set()
                altf |= {c[0][1] for c in cond if c[0][0] in ("empty", "field")}
    r = run_reader(prog, altf)
    ctx.need(r is not None, "Settings::read(YAML::Node) is not found")
    # ---- what is read
    R, seqs, keyf, where = {}, {}, {}, {}
    for f, comp, y, tr, wh, *_ in r.stores:
        if y and y[-1] == "@key":
            keyf.setdefault(y[:-1], set()).add(f)
            continue
        where.setdefault(y, wh)
        if y and isinstance(y[-1], int):
            seqs.setdefault(y[:-1], {}).setdefault(f, set()).add((y[-1], comp))
            where.setdefault(y[:-1], wh)
            continue
        R.setdefault(y, set()).add((("field", f), tr))
    for k, fs in seqs.items():
        vec = {f for f, s in fs.items() if any(c is not None for _, c in s)}
        for f in vec:
            s = sorted(fs[f])
            if all(i == c for i, c in s) and len(s) == 3:
                R.setdefault(k, set()).add((("field", f), False))
            else:
                ctx.violation("components|%s" % nm(k), where[k], "the components of '%s' are not read in order: element i goes to component c for (i, c) in %s" % (nm(k), s))
        sc = [(min(i for i, _ in s), f) for f, s in fs.items() if f not in vec]
        if sc and sorted(i for i, _ in sc) != list(range(len(sc))):
            ctx.violation("components|%s" % nm(k), where[k], "the elements of '%s' are not read one each: %s" % (nm(k), ["element %d into %s" % x for x in sorted(sc)]))
        elif sc:
            R.setdefault(k, set()).add((("list", tuple(f for _, f in sorted(sc))), False))
    const = {}
    for f, c, tests, wh in r.consts:
        for t, cs in tests.items():
            if t[0] == "chr":
                for o, x in cs:
                    if o == "==":
                        const.setdefault(t[1], {}).setdefault(chr(x), set()).add((f, c))
            if t[0] == "val":
                for o, x in cs:
                    if o == "==" and isinstance(x, str):
                        const.setdefault(t[1], {}).setdefault(x, set()).add((f, c))
    # ---- every key read is printed
    for k, alts in sorted(R.items(), key=str):
        direct = {v for v, tr in alts if not tr}
        if not direct:
            others = {v for k2, a2 in R.items() if k2 != k for v, tr in a2 if not tr}
            if all(v in others for v, _ in alts):
                ctx.ok("aliases of another key", nm(k))
                continue
        got = {v for v, c, n in W.get(k, {})}
        for v in direct:
            if v in got:
                ctx.ok("keys read that are printed with the same field", "%s = %s" % (nm(k), v[1]))
            elif k in const and k in W:
                pass
            else:
                sh = [g for g in got if g[0] == "shuffled" and g[1] == v[1]]
                at = next(iter(W[k].values())) if W.get(k) else where[k]
                elsewhere = sorted(nm(k2) for k2, a in W.items() for g, c, n in a if g == v)
                if any(g[0] == "other" and v[1] in g[1] for g in got):
                    ctx.undecide("%s is printed in a form that is not recognised" % nm(k))
                    continue
                ctx.violation("notprinted|%s" % nm(k), at, "the setting '%s' is read into %s, but %s" % (
                    nm(k), v[1], "its components are printed in the order %s" % (sh[0][2],) if sh else "it is printed under '%s'" % elsewhere[0] if elsewhere and not got - {("null",)} else
                    "what is printed under that key is %s" % sorted(str(g[1]) for g in got if len(g) > 1) if got - {("null",)} else "it is not printed"))
    # ---- every key printed is read
    region = {}
    for k, recs in sorted(W.items(), key=str):
        kids = any(len(k2) == len(k) + 1 and k2[:len(k)] == k for k2 in W)
        for (v, cond, names), wh in recs.items():
            for i, part in enumerate(k):
                pass
            if v[0] in ("field", "list"):
                if (v, False) in R.get(k, ()):
                    ctx.ok("keys printed that are read into the same field", "%s (%s)" % (nm(k), wh))
                else:
                    ctx.violation("notread|%s" % nm(k), wh, "%s is printed under the key '%s', which %s" % (
                        v[1], nm(k), "is read into %s" % sorted(str(x[0][1]) for x in R[k]) if k in R else "the reader does not know"))
            elif v[0] == "shuffled":
                ctx.violation("shuffled|%s" % nm(k), wh, "the components of '%s' are printed in the order %s" % (nm(k), v[2]))
            elif v[0] == "null" and not kids and k not in R and k not in const:
                ctx.violation("notread|%s" % nm(k), wh, "the key '%s' is printed, which the reader does not know" % nm(k))
            elif v[0] == "text" and k in const:
                text = v[1].strip("\"'")
                ce = [c for c in cond if c[0][0] == "field" and c[1] == "=="]
                if not ce:
                    continue
                f, val = ce[0][0][1], ce[0][2]
                rd = const[k].get(text)
                if rd and (f, val) not in rd and any(g == f for g, _ in rd):
                    ctx.violation("enum|%s|%s" % (nm(k), text), wh, "'%s' is printed for %s = %s, but read as %s" % (text, f, val, sorted(rd)))
                elif rd:
                    ctx.ok("enumerated values read back as printed", "%s: %s" % (nm(k), text))
        for i in range(len(k)):
            if k[i] == "*" and i == len(k) - 1:
                for (v, cond, names), wh in recs.items():
                    if names and k in [kk + ("*",) for kk in keyf]:
                        f = names[-1]
                        if f in keyf[k[:-1]]:
                            ctx.ok("names of the entries printed as read", nm(k))
                        else:
                            ctx.violation("entryname|%s" % nm(k), wh, "the name of an entry of '%s' is printed from %s but read into %s" % (nm(k[:-1]), f, sorted(keyf[k[:-1]])))
    for k, table in const.items():
        if k not in W:
            if any(f == f2 for t in table.values() for f, _ in t for v in () for f2 in ()):
                pass
            if k[-1] == "direction":
                ctx.violation("notprinted|%s" % nm(k), next(iter(where.values())), "the setting '%s' is not printed" % nm(k))
            continue
        texts = {v[1].strip("\"'") for v, c, n in W[k] if v[0] == "text"}
        if not texts:
            continue
        for t, fc in table.items():
            if t not in texts:
                ctx.violation("enum|%s|%s" % (nm(k), t), next(iter(W[k].values())), "the value '%s' of '%s' is never printed" % (t, nm(k)))
    # ---- conditions
    nans = set(r.nans)
    for f in prog.fns.values():
        if f.ctor and f.clsn == "Settings":
            for i in f.inits or []:
                if i.get("f") and any(n.get("k") == "Call" and n.get("fn") and prog.fns.get(n["fn"]) is not None and "builtin_nan" in prog.fns[n["fn"]].name for n in walk(i["e"])):
                    nans.add(i["f"].rsplit("@", 1)[-1])
    for k, recs in sorted(W.items(), key=str):
        for (v, cond, names), wh in recs.items():
            if v[0] not in ("field", "list", "text"):
                continue
            own = {v[1]} if v[0] == "field" else set(v[1]) if v[0] == "list" else set()
            gate = GATES.get(k)
            gf = {a[0][1] for a in R.get(gate, ()) if a[0][0] == "field"} if gate else set()
            par = next((m for m in multi if k[:len(m)] == m), None)
            for c in cond:
                what, op, cv = c
                if what[0] == "field" and what[1].endswith("regName") and op == "!=" and cv == "__default__":
                    continue
                if what[0] == "nan" and what[1] in own and op == "not true":
                    continue
                if what[0] == "field" and what[1] in gf and op == "!=" and cv in (0, False):
                    continue
                if what[0] in ("empty", "field") and what[1] in own and (op in ("not true",) or (op == "!=" and cv == "")):
                    continue
                if v[0] == "text" and k in const and what[0] == "field" and op in ("==", "!="):
                    continue
                if par is not None and what[0] in ("empty", "field"):
                    continue
                if what[0] == "field" and op == "!=" and isinstance(cv, str):
                    continue
                if what[0] in ("field", "empty", "nan"):
                    comp = [c2 for (v2, cond2, n2), _ in recs.items() if (v2 == v or v2[0] == "null") for c2 in cond2 if c2[0] == what and c2[1:] != (op, cv)]
                    if any(v2 == v for (v2, cond2, n2) in recs if any(c2 in cond2 for c2 in comp)):
                        continue
                    ctx.violation("condition|%s" % nm(k), wh, "'%s' is printed only when %s %s %s" % (nm(k), what[1], {"not true": "is not " + what[0], "true": "is " + what[0]}.get(op, op), "" if cv is None else cv))
            for f in own & nans:
                if any(c[0] == ("nan", f) and c[1] == "not true" for c in cond):
                    ctx.ok("fields that may be NaN printed as numbers only when they are", f)
                else:
                    ctx.violation("nan|%s" % nm(k), wh, "'%s' is printed as a number even when %s is NaN, which cannot be read back" % (nm(k), f))
    # fields whose emptiness decides, outside of the settings class
    ext = {}
    for f in prog.fns.values():
        if f.body is None or not f.repo or f.clsn == "Settings":
            continue
        for n in fn_nodes(f):
            if n.get("k") != "Call" or not n.get("fn") or prog.fns.get(n["fn"]) is None:
                continue
            sn = prog.fns[n["fn"]].name.rsplit("::", 1)[-1]
            ops = ([n["obj"]] if n.get("obj") else []) + n.get("args", [])
            if sn == "empty" and len(ops) == 1 or sn in ("operator==", "operator!=") and len(ops) == 2 and any(x.get("k") == "Lit" and x.get("lk") == "str" and not x.get("v") for o in ops for x in walk(o)):
                for o in ops:
                    o = strip(o)
                    if o.get("k") == "Member" and "@S@Settings@" in str(o.get("d")):
                        ext[o["d"].rsplit("@", 1)[-1]] = "%s in %s" % (loc(n), f.name)
    # ---- alternatives: what is printed is the form read last
    for k, (vs, kids) in sorted(multi.items(), key=str):
        forms = []
        for v in vs:
            for (v2, cond, n), wh in W[k].items():
                if v2 == v:
                    forms.append((frozenset([v[1]] if v[0] == "field" else v[1]), cond, wh))
        if kids:
            fs = frozenset(v[1] for kk in kids for v, c, n in W[kk] if v[0] == "field")
            forms.append((fs, next(c for kk in kids for v, c, n in W[kk]), next(iter(W[kids[0]].values()))))
        for st in r.endstates:
            alt = {x[1]: v for x, v in st.items() if x[0] == "alt"}
            chosen = frozenset(f for f, v in alt.items() if v[0] == "from" and v[1][:len(k)] == k)
            if not chosen:
                continue
            cand = [(c, wh) for fs, c, wh in forms if fs == chosen or (kids and fs >= chosen and fs == forms[-1][0])]
            if not cand:
                ctx.undecide("%s: the fields %s are set together" % (nm(k), sorted(chosen)))
                continue
            bad = None
            for cond, wh in cand:
                bad = None
                for what, op, cv in cond:
                    if what[0] == "empty":
                        a = alt.get(what[1])
                        if op == "true" and a != ("const", ""):
                            bad = (what[1], wh)
                        if op == "not true" and not (a and a[0] == "from"):
                            bad = (what[1], wh)
                    elif what[0] == "field" and what[1] in altf:
                        a = alt.get(what[1])
                        if op == "==" and a != ("const", cv) or op == "!=" and (a is None or a == ("const", cv) or a[0] not in ("const", "from")):
                            bad = (what[1], wh)
                if bad is None:
                    break
            for f in sorted(ext):
                if bad is None and f not in chosen and any(f in fs for fs, c, wh in forms) and alt.get(f) != ("const", ""):
                    bad = (f, ext[f])
            if bad:
                ctx.violation("alternative|%s|%s" % (nm(k), sorted(chosen)), bad[1],
                              "after '%s' was read into %s, a value of %s from settings read earlier survives, and selects another form of the setting" % (nm(k), sorted(chosen), bad[0]))
            else:
                ctx.ok("forms of a setting that replace each other", "%s: %s" % (nm(k), sorted(chosen)))
    # ---- formatting helpers
    for f in w.helpers.values():
        t = f.params[0]["t"]
        if t.s.replace("const ", "") == "bool":
            for c, want in ((True, "true"), (False, "false")):
                e = Writer(prog)
                res = {v.c if isinstance(v.c, str) else "".join(p[1] for p in v.f["str"]) if v.f.get("str") else None for v, S in e.run(f, binds={0: V(("c", c), c)})}
                if res == {want}:
                    ctx.ok("truth values printed as read", want)
                elif None in res:
                    ctx.undecide("%s(%s)" % (f.name, c))
                else:
                    ctx.violation("bool|%s" % want, "%s in %s" % (loc(f.body), f.name), "the truth value %s is printed as %s" % (want, sorted(map(str, res))))
    ctx.cov["keys_read"] = len(R)
    ctx.cov["keys_printed"] = len(W)
    ctx.min("keys read that are printed with the same field", 20)
