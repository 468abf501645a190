"""Reporting shared by all checks: obligations, violations, evidence, known findings."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "engine"))


class CheckError(Exception):
    """The check can not give an answer (missing anchor, extraction failure, ...)."""


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.rules = {}  # rule -> [obligations, discharged]
        self.violations = []
        self.undecided = []
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.floors = []

    def ok(self, rule, sample=None, n=1):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n
        if sample is not None and sum(1 for s in self.samples if s["rule"] == rule) < 3:
            self.samples.append({"rule": rule, "instance": sample})

    def violation(self, rule, where, instance, msg):
        """rule + instance identify the finding; where is file:line and may move."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        v = {"rule": rule, "where": where, "instance": instance, "message": msg}
        if v not in self.violations:
            self.violations.append(v)

    def unknown(self, rule, where, instance, why):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        v = {"rule": rule, "where": where, "instance": instance, "why": why}
        if v not in self.undecided:
            self.undecided.append(v)

    def floor(self, what, counted, least):
        """Fail closed when the analysis finds suspiciously little to analyse."""
        self.floors.append({"what": what, "counted": counted, "least": least})

    def check_floors(self):
        for f in self.floors:
            if f["counted"] >= f["least"]:
                continue
            text = f"only {f['counted']} {f['what']} found, expected at least {f['least']}"
            if self.undecided or self.violations:
                # part of the source was not followed: the shortfall is explained and stays visible
                self.unknown("enough found to analyse", "-", f["what"], text)
            else:
                raise CheckError(text)

    def finish(self, explanation):
        self.check_floors()
        known, _ = load_known()
        fresh, old = [], []
        for v in self.violations:
            k = key(v)
            if k in known.get(self.prop, {}):
                old.append((v, known[self.prop][k]))
            else:
                fresh.append(v)
        total = sum(r[0] for r in self.rules.values())
        done = sum(r[1] for r in self.rules.values())
        cov = {
            "explanation": explanation,
            "obligations": total,
            "discharged": done,
            "rules": {k: {"obligations": a, "discharged": b} for k, (a, b) in sorted(self.rules.items())},
            "undecided": self.undecided[:40],
            "undecided_count": len(self.undecided),
            "floors": self.floors,
            "samples": self.samples[:12],
        }
        cov.update(self.coverage)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "violations": len(fresh),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print(f"{self.prop}: {total} obligations, {done} discharged, {len(self.undecided)} undecided, "
              f"{len(fresh)} violations ({ev['wall_s']} s)")
        for k, (a, b) in sorted(self.rules.items()):
            print(f"  {k}: {b}/{a}")
        for u in self.undecided[:10]:
            print(f"  undecided: {u['rule']} at {u['where']} [{u['instance']}]: {u['why']}")
        for v, d in old:
            print(f"KNOWN-FINDING: property={self.prop} {d}")
        if not fresh:
            return 0
        replay = os.path.join(EVIDENCE, f"{self.prop}.violation.json")
        with open(replay, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
            f.write("\n")
        for v in fresh[:20]:
            print(f"  {v['where']}: {v['rule']}: {v['message']} [{v['instance']}]")
        print(f"VIOLATION property={self.prop} replay={replay}")
        return 1


def key(v):
    return f"{v['rule']}|{v['instance']}"


def load_known():
    known, fixed = {}, []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=<([^>]*)> (.*)", l)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


class Ctx:
    """Lazily loaded facts about the current source."""

    def __init__(self, ir):
        self.ir = ir
        self._c = {}

    def _json(self, n):
        if n not in self._c:
            self._c[n] = json.load(open(os.path.join(self.ir, n)))
        return self._c[n]

    @property
    def items(self):
        return self._json("items.json")

    @property
    def items_serde(self):
        return self._json("items_serde.json")

    @property
    def db(self):
        if "db" not in self._c:
            from mirdb import Db

            self._c["db"] = Db(os.path.join(self.ir, "mir.json"))
        return self._c["db"]

    @property
    def db_serde(self):
        """Predicates and functions without arguments, compiled with the serialisation feature."""
        if "db_serde" not in self._c:
            from mirdb import Db

            self._c["db_serde"] = Db(os.path.join(self.ir, "mir_serde.json"))
        return self._c["db_serde"]


def rel(at):
    return at.replace("/repo/", "")
