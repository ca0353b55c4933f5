"""Reporting harness shared by every check."""
import os, sys, json, time, traceback
from .front import AnalysisBroken, VERIF
from .core import Program

class Check:
    def __init__(self, pid, level="other"):
        self.pid = pid; self.level = level; self.t = time.time()
        self.viol = []          # (key, message)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.discharged = 0; self.oblig = 0
        self.fnset = set()
        self.floors = []
        self.sitekeys = set()
        self._viokeys = set()
        self._seenkeys = set()
    def rule(self, text): self.rules.append(text)
    def fn(self, f): self.fnset.add(f if isinstance(f, str) else f.u)
    def ok(self, sample=None):
        self.oblig += 1; self.discharged += 1
        if sample and len(self.samples) < 12 and sample not in self.samples: self.samples.append(sample)
    def bad(self, key, msg):
        """key identifies rule + construct (no line numbers)"""
        self.oblig += 1
        if key in self._viokeys: return
        self._viokeys.add(key)
        self.viol.append((key, msg))
    def judge(self, cond, key, msg, sample=None):
        if cond: self.ok(sample)
        else: self.bad(key, msg)
        return cond
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def floor(self, name, n):
        """fewer instances than confirmed by reading => the analysis lost its subject"""
        self.floors.append((name, n))
    def finish(self):
        for name, n in self.floors:
            if self.counts.get(name, 0) < n:
                # a rule that lost instances while reporting violations is still a verdict
                if not self.viol:
                    raise AnalysisBroken("rule instances '%s': %d, at least %d were confirmed by reading" % (name, self.counts.get(name, 0), n))
        if self.oblig == 0: raise AnalysisBroken("no obligations")
        known = {}
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)).get("known", []):
                if e["property"] == self.pid: known[e["key"]] = e["what"]
        new = [(k, m) for k, m in self.viol if k not in known]
        old = [(k, m) for k, m in self.viol if k in known]
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"): tier = "quick"
        if "--thorough" in sys.argv: tier = "thorough"
        ev = dict(property=self.pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level,
                  coverage=dict(explanation="Static analysis of the resolved program (clang AST/CFG of every translation unit of the library, re-parsed from /repo on this run). Rules: " + " | ".join(self.rules),
                                obligations=self.oblig, discharged=self.discharged,
                                functions_analysed=len(self.fnset), counts=self.counts,
                                functions=sorted(self.fnset)[:60], samples=self.samples,
                                known_findings=[k for k, m in old]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t, 3), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions, counts %s, %.1fs" % (self.pid, self.oblig, self.discharged, len(self.fnset), self.counts, time.time() - self.t))
        for k, m in old: print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + "-violation.txt")
            with open(rp, "w") as f:
                for k, m in new: f.write("[%s]\n%s\n\n" % (k, m))
            for k, m in new: print("  [%s] %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        rp = os.path.join(VERIF, "evidence", self.pid + "-violation.txt")
        if os.path.exists(rp): os.unlink(rp)
        return 0

def main(pid, run):
    try:
        c = Check(pid)
        prog = Program()
        c.count("units", len(prog.units)); c.count("functions_parsed", len(prog.fns))
        run(prog, c)
        rc = c.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); rc = 3
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s: internal error" % pid); rc = 4
    sys.stdout.flush()
    os._exit(rc)
