"""Collects what a check did, writes the evidence file and decides the exit code."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []   # (key, text, replay path, has input)
        self.known = []
        self.evaluations = 0
        self.kinds = {}
        self.samples = []
        self.obligations = []  # dicts
        self.assumptions = []
        self.functions = {}
        self.bounded = []      # bounded obligations
        self.undecided = []
        self.notes = {}
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            self.findings = [k for k in json.load(f)["findings"] if k["property"] == pid]
        self.replay_dir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        for old in os.listdir(self.replay_dir):
            if old.startswith(pid + "-"):
                os.unlink(os.path.join(self.replay_dir, old))

    def count(self, kind, n):
        self.kinds[kind] = self.kinds.get(kind, 0) + n
        self.evaluations += n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])

    def violation(self, key, text, replay=None, has_input=True):
        """key identifies the failing input or obligation (matched against the known findings)"""
        for k in self.findings:
            if k["key"] == key:
                if key not in self.known:
                    self.known.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        n = len(self.violations) + 1
        path = os.path.join(self.replay_dir, f"{self.pid}-{n}.txt")
        if n <= 25:
            with open(path, "w") as f:
                f.write(f"property {self.pid}\ncase: {key}\n\n{text}\n")
                if replay:
                    f.write("\nTo replay (python3-vt, from /verif):\n" + replay + "\n")
        self.violations.append((key, text, path, has_input))

    def cases(self, kind, make_cases, check, describe=None, limit=5, workers=None):
        """Runs check over all cases in parallel; a returned string is a violation."""
        from vlib import par
        n, fails = par.run(make_cases, check, workers=workers, limit=limit)
        self.count(kind, n)
        for k, f in fails[:limit]:
            if isinstance(f, tuple):
                key, text = f
            else:
                key, text = f"{kind}#{k}", f
            self.violation(key, text)
        return n

    # deductive part
    def obligation(self, name, function, status, backend, detail="", seconds=0.0):
        if "(bounded)" in name and status == "discharged":
            # of inputs up to a size: not counted as proved
            self.bounded.append(dict(name=name, function=function, seconds=seconds))
            self.functions.setdefault(function, [0, 0])
            return
        self.obligations.append(dict(name=name, function=function, status=status, backend=backend, detail=detail, seconds=seconds))
        fn = self.functions.setdefault(function, [0, 0])
        fn[0] += 1
        fn[1] += status == "discharged"

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def finish(self, level, explanation):
        obl = len(self.obligations)
        dis = sum(o["status"] == "discharged" for o in self.obligations)
        back = {}
        for o in self.obligations:
            if o["status"] == "discharged":
                back[o["backend"]] = back.get(o["backend"], 0) + 1
        cov = {
            "obligations": obl,
            "discharged": dis,
            "checker_cmd": f"python3-vt check.py {self.pid} --tier {self.tier}",
            "trusted_base": TRUSTED,
            "explanation": explanation,
            "by_backend": back,
            "solver_seconds": round(sum(o["seconds"] for o in self.obligations), 2),
            "functions_under_contract": {k: f"{v[1]}/{v[0]}" for k, v in sorted(self.functions.items())},
            "undischarged": [dict(name=o["name"], status=o["status"], detail=o["detail"][:300]) for o in self.obligations if o["status"] != "discharged"][:60],
            "bounded": {"evaluations_by_kind": self.kinds, "obligations": [b["name"] for b in self.bounded], "label": "bounded: cross-check against the running code, never counted as proved"},
            "evaluations": self.evaluations,
            "samples": self.samples or [o["name"] for o in self.obligations[:8]] or ["none"],
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        path = os.path.join(ROOT, "evidence", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        concrete = [v for v in self.violations if v[3]]
        for key, text, rp, has in concrete or self.violations[:3]:
            print("  ", key, "::", text[:600].replace("\n", "\\n"))
        if self.violations:
            key, text, rp, has = (concrete or self.violations)[0]
            print(f"VIOLATION property={self.pid} replay={rp}" + ("" if has else " no-failing-input-found"))
            return 1
        print(f"{self.pid} {self.tier}: obligations {dis}/{obl} discharged {back}, {len(self.bounded)} bounded ones, {self.evaluations} bounded evaluations, "
              f"{ev['wall_s']} s, no violation")
        return 0


TRUSTED = [
    "CPython 3.12 executing the concrete parts, the attrs-generated __init__ (its documented semantics: converters, defaults, __attrs_post_init__)",
    "pydv, the verifier in /verif/pydv (interprets the AST of the functions as read from /repo on each run)",
    "z3 4.x (python3-vt z3-solver)",
    "the ANTLR 4.9 runtime and the generated parser in treeno/grammar/gen",
]
