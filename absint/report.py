"""Obligations, verdicts and evidence of one check."""

from __future__ import annotations

import functools
import json
import os
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("SLATE_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS")


def known_findings(prop):
    """key -> description of the defects recorded (not repaired) for a property."""

    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as file:
            for line in file:
                line = line.strip()
                if not line.startswith("finding: "):
                    continue
                fields = line[len("finding: "):].split(" ", 2)
                head = dict(f.split("=", 1) for f in fields[:2])
                if head.get("property") == prop:
                    out[head["key"]] = fields[2] if len(fields) > 2 else ""
    return out


class Report:
    """Collects the obligations of one property and turns them into a verdict."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.obligations = []  # (status, what, where, detail, key)
        self.recorded = set()
        self.counts = {}
        self.functions = set()
        self.paths = 0
        self.start = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # -- recording -----------------------------------------------------------------------

    def saw(self, interp, results=None):
        """Accounts for what an exploration analysed."""

        self.functions |= {f for f in interp.functions_seen if not f.startswith("<")}
        if results is not None:
            self.paths += len(results)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what, where="", detail=""):
        self.obligations.append(("ok", what, where, detail, ""))

    def bad(self, what, where, detail="", key=""):
        entry = ("violation", what, str(where), str(detail), key or what)
        if entry[:3] not in self.recorded:
            self.recorded.add(entry[:3])
            self.obligations.append(entry)

    def undecided(self, what, where="", detail=""):
        entry = ("undecided", what, str(where), str(detail), "")
        if entry not in self.recorded:
            self.recorded.add(entry)
            self.obligations.append(entry)

    def judge(self, cond, what, where="", detail="", key=""):
        """cond: True (proved), False (refuted) or None (undecided)."""

        if cond is True:
            self.ok(what, where, detail)
        elif cond is False:
            self.bad(what, where, detail, key)
        else:
            self.undecided(what, where, detail)

    # -- verdict -------------------------------------------------------------------------

    def finish(self):
        known = known_findings(self.prop)
        bad = [o for o in self.obligations if o[0] == "violation"]
        listed = [o for o in bad if o[4] in known]
        fresh = [o for o in bad if o[4] not in known]
        good = sum(1 for o in self.obligations if o[0] == "ok")
        und = [o for o in self.obligations if o[0] == "undecided"]
        os.makedirs(EVIDENCE, exist_ok=True)
        replay = os.path.join(EVIDENCE, f"{self.prop}.violations.txt")
        if fresh:
            with open(replay, "w", encoding="utf-8") as file:
                for _, what, where, detail, key in fresh:
                    file.write(f"{where}: {what}\n    rule: {self.rule}\n"
                               f"    path: {detail}\n    key: {key}\n")
        elif os.path.exists(replay):
            os.unlink(replay)
        evidence = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions),
                "paths": self.paths,
                "obligations": len(self.obligations),
                "discharged": good,
                "undecided": len(und),
                "undecided_list": [f"{o[2]} {o[1]}: {o[3]}"[:300] for o in und][:40],
                "obligation_kinds": _kinds(self.obligations),
                **self.counts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 3),
            "violations": len(fresh),
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w", encoding="utf-8") as file:
            json.dump(evidence, file, indent=1)
        for key in sorted({o[4] for o in listed}):
            print(f"KNOWN-FINDING: property={self.prop} {known[key]}")
        for _, what, where, detail, _ in und[:20]:
            print(f"UNDECIDED {where} {what}: {detail}"[:300])
        print(f"{self.prop}: {len(self.functions)} functions, {self.paths} paths, "
              f"{len(self.obligations)} obligations, {good} discharged, {len(und)} undecided, "
              f"{len(listed)} known, {len(fresh)} violations "
              f"({time.time() - self.start:.1f}s)")
        if fresh:
            for _, what, where, detail, _ in fresh[:12]:
                print(f"  {where}: {what}\n      when {detail}"[:700])
            print(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        if not good:
            print(f"ERROR {self.prop}: nothing was decided")
            return 2
        return 0


def _kinds(obligations):
    out = {}
    for status, what, *_ in obligations:
        out.setdefault(what[:80], {}).setdefault(status, 0)
        out[what[:80]][status] += 1
    return dict(list(out.items())[:80])


def guard_parts(run):
    """A part of a check that cannot be completed leaves the others to decide what they can."""

    space = run.__globals__
    for name in run.__code__.co_names:
        part = space.get(name)
        if isinstance(part, types.FunctionType) and part.__code__.co_varnames[:1] == (
                "report",) and (part.__module__ == run.__module__ or name == "judge_screens"):
            space[name] = guarded(part)


def guarded(part):
    @functools.wraps(part)
    def call(report, *args, **kwargs):
        try:
            return part(report, *args, **kwargs)
        except Exception:  # noqa: BLE001 - this part of the analysis failed
            traceback.print_exc()
            report.undecided("the analysis could not be completed", part.__name__,
                             traceback.format_exc(limit=1))
            return None
    return call


def main(run, prop, rule, assumptions=()):
    """Runs `run(report)`; the process exit code is the verdict."""

    report = Report(prop, rule, assumptions)
    sys.setrecursionlimit(20000)
    guard_parts(run)
    try:
        run(report)
    except Exception:  # noqa: BLE001 - the analysis itself failed
        if any(o[0] == "violation" for o in report.obligations):
            traceback.print_exc()
            return report.finish()
        traceback.print_exc()
        report.undecided("the analysis could not be completed", "", traceback.format_exc(limit=1))
        return report.finish()
    return report.finish()
