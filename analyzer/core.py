"""Shared frame of the checks: facts of the current tree, findings, known findings, evidence, exit status."""
import json, os, sys, time, traceback
import dump as dumper
from facts import Facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self._F = None
        self._L = None

    @property
    def F(self):
        if self._F is None:
            self._F = Facts(dumper.dump())
        return self._F

    @property
    def L(self):
        if self._L is None:
            from lang import Lang

            self._L = Lang(self.F)
        return self._L


class Report:
    """obligations: what had to hold; each is discharged, undecided (the analysis gives up, no verdict) or violated"""

    def __init__(self, prop):
        self.prop = prop
        self.obl = []  # (name, status, how)
        self.findings = []  # dict(key, msg, where, detail)
        self.counts = {}
        self.assumptions = []
        self.explanation = ""
        self.bounded = None
        self.samples = []

    def ok(self, name, how=""):
        self.obl.append((name, "discharged", how))

    def undecided(self, name, why):
        self.obl.append((name, "undecided", str(why)[:300]))

    def bad(self, key, msg, where="", **detail):
        if any(f["key"] == key for f in self.findings):
            return
        self.obl.append((key, "violated", msg[:300]))
        self.findings.append(dict(key=key, msg=msg, where=where, **detail))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def known_findings():
    """lines 'known: property=C12 key=<key> <text>' ('fixed:' lines record repairs and suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                w = line[len("known: "):].split(" ", 2)
                out[(w[0].split("=", 1)[1], w[1].split("=", 1)[1])] = w[2] if len(w) > 2 else ""
    return out


def finish(rep, ctx, level):
    known = known_findings()
    new = [f for f in rep.findings if (rep.prop, f["key"].replace(" ", "_")) not in known]
    old = [f for f in rep.findings if (rep.prop, f["key"].replace(" ", "_")) in known]
    n = len(rep.obl)
    dis = sum(1 for o in rep.obl if o[1] == "discharged")
    und = [o for o in rep.obl if o[1] == "undecided"]
    cov = {
        "obligations": n, "discharged": dis, "undecided": len(und),
        "explanation": rep.explanation, "analysed": rep.counts,
        "checker_cmd": "python3 analyzer/check.py %s --tier %s" % (rep.prop, ctx.tier),
        "trusted_base": ["rustc front end and MIR construction (nightly)", "analyzer/*.py: abstract interpreter, models of std and nom, reference contract",
                         "nom 7.1.3, nom_locate and std behave as modelled"],
        "obligation_list": [{"obligation": o[0], "status": o[1], "by": o[2]} for o in rep.obl[:400]],
    }
    if rep.bounded:
        cov["bounded_part"] = rep.bounded
    if rep.samples:
        cov["samples"] = rep.samples[:20]
    if und:
        cov["undecided_list"] = [{"obligation": o[0], "why": o[2]} for o in und[:60]]
    if old:
        cov["known_findings"] = [f["key"] for f in old]
    lv = level
    ev = {"property": rep.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lv, "coverage": cov,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    d = os.environ.get("PDDL_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, f["msg"]))
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %s; %.1fs" % (rep.prop, ctx.tier, n, dis, len(und), len(new), rep.counts, time.time() - ctx.t0))
    for o in und[:12]:
        print("  undecided: %s (%s)" % (o[0], o[2][:160]))
    if not new:
        return 0
    rp = os.path.join(d, rep.prop + ".violation.json")
    with open(rp, "w") as fh:
        json.dump({"property": rep.prop, "violations": new}, fh, indent=1, default=str)
    for f in new[:20]:
        print("  %s: %s" % (f["where"], f["msg"]))
    print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
    return 1
