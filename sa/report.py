"""Collects findings, compares them with the known findings, writes evidence and the verdict."""
import json, os, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.counts, self.findings, self.rules, self.notes, self.sites = {}, {}, [], [], []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def site(self, text):
        self.sites.append(text)

    def finding(self, rule, func, construct, message, node=None, path=None):
        where = path or (func.module.path if func is not None else "")
        fn = func.qual if func is not None else ""
        key = "|".join((rule, where, fn, construct))
        if key not in self.findings:
            self.findings[key] = dict(key=key, rule=rule, file=where, function=fn, construct=construct, message=message,
                                      line=getattr(node, "lineno", None))


def known(pid):
    """keys of the recorded findings of a property: lines `finding: property=<id> key=<key> :: <what fails>`"""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=%s key=" % pid):
                    k, _, w = l[len("finding: property=%s key=" % pid):].partition(" :: ")
                    res[k.strip()] = w.strip()
    return res


def conclude(rep, technique, note):
    kn = known(rep.pid)
    new = [f for k, f in rep.findings.items() if k not in kn]
    old = [f for k, f in rep.findings.items() if k in kn]
    ev = os.path.join(os.environ.get("SLDR_EVIDENCE", os.path.join(ROOT, "evidence")))
    os.makedirs(ev, exist_ok=True)
    cov = dict(explanation="; ".join(rep.rules) or technique)
    cov.update({k: v for k, v in sorted(rep.counts.items())})
    if rep.notes:
        cov["notes"] = rep.notes
    if rep.tier == "thorough" or len(rep.sites) <= 60:
        cov["sites"] = rep.sites[:400]
    data = dict(property=rep.pid, tier=rep.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                technique=technique, coverage=cov, assumptions=[note], wall_s=round(time.time() - rep.t0, 3),
                known_findings=[f["key"] for f in old], violations=len(new), violation_details=new)
    with open(os.path.join(ev, rep.pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, kn[f["key"]] or f["message"]))
    rp = os.path.join(ev, rep.pid + ".violation.json")
    if new:
        with open(rp, "w", encoding="utf-8") as f:
            json.dump(new, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for f in new:
            print("%s:%s: [%s] %s: %s" % (f["file"], f["line"], f["rule"], f["function"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, os.path.relpath(rp, ROOT) if rp.startswith(ROOT) else rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("OK property=%s %s" % (rep.pid, ", ".join("%s=%s" % kv for kv in sorted(rep.counts.items()))))
    return 0
