"""python3 -m sa.run <property id> [--tier quick|thorough]

exit 0: the property held on everything analysed; 1: VIOLATION line(s); 2: the analysis could not decide
(a unit does not parse, an anchor of the rule is gone)."""
import importlib
import json
import os
import sys
import time
import traceback

from sa.frontend import AnalysisBroken, REPO, VERIF, load

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.repo = REPO
        self.viol = {}
        self.cov = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.obl = {}
        self.undecided = []
        self._prog = {}

    def program(self, **opts):
        k = tuple(sorted(opts.items()))
        if k not in self._prog:
            self._prog[k] = load(self.repo, opts)
            p = self._prog[k]
            self.cov["translation_units"] = len(p.tus)
            self.cov["functions_with_body"] = sum(1 for f in p.fns.values() if f.body is not None)
        return self._prog[k]

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def ok(self, kind, what=None):
        self.obl.setdefault(kind, set()).add(what if what is not None else len(self.obl.get(kind, ())))

    def undecide(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def violation(self, key, where, msg):
        """key: stable identity of the failing construct (no line numbers)"""
        self.viol.setdefault(key, (where, msg))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def min(self, kind, n):
        c = len(self.obl.get(kind, ()))
        bad = sum(1 for k in self.viol)
        if c + bad < n:
            raise AnalysisBroken("only %d instances of '%s' were found, at least %d are expected: an anchor of the rule is gone" % (c, kind, n))


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    man = {}
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as h:
            for c in json.load(h)["checks"]:
                man[c["property"]] = c
    except Exception:
        pass
    mod = importlib.import_module("sa.checks." + pid.lower())
    ctx = Ctx(pid, tier)
    rc = 0
    err = None
    try:
        mod.run(ctx)
    except AnalysisBroken as x:
        err = str(x)
    except Exception:
        err = traceback.format_exc()
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as h:
            for k in json.load(h)["findings"]:
                if k["property"] == pid and k.get("status") == "known":
                    known[k["key"]] = k
    evdir = os.environ.get("FG_EVDIR") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    vio = []
    for key, (where, msg) in sorted(ctx.viol.items(), key=lambda kv: str(kv[0])):
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
        else:
            vio.append({"key": key, "where": where, "message": msg})
    kinds = {k: len(v) for k, v in sorted(ctx.obl.items())}
    done = sum(kinds.values())
    cov = {"explanation": "static analysis of the resolved program (clang AST of /repo/src, this run); rules: " + "; ".join(ctx.rules),
           "obligations": done + len(ctx.viol) + len(ctx.undecided), "discharged": done, "obligations_by_kind": kinds,
           "samples": [{"kind": k, "sites": sorted(map(str, v))[:60]} for k, v in sorted(ctx.obl.items())],
           "undecided": ctx.undecided[:40], "known_findings": sorted(k for k in ctx.viol if k in known)}
    cov.update(ctx.cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": man.get(pid, {}).get("level", "?"), "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(vio)}
    cov["violation_list"] = vio
    if err:
        ev["coverage"]["broken"] = err
    with open(os.path.join(evdir, pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1, default=str)
    if vio:
        rp = os.path.join(evdir, pid + ".violation.json")
        with open(rp, "w") as h:
            json.dump(vio, h, indent=1, default=str)
        for v in vio:
            print("%s: %s: %s" % (pid, v["where"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("%s: cannot decide: %s" % (pid, err), file=sys.stderr)
        return 2
    print("%s: held; %d obligations (%s) in %.1f s" % (pid, done, ", ".join("%s %d" % kv for kv in kinds.items()), ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
