"""Runs one check: builds, generates cases from the seed, runs them in parallel, writes evidence."""
import argparse
import importlib
import json
import os
import random
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import core
from .core import Ctx, HarnessError, Violation

QUICK_CAP_S = 300
THOROUGH_CAP_S = 3000


def load_known():
    p = os.path.join(core.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", help="only cases whose name contains this")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.monotonic()
    pid = a.property.upper()
    try:
        mod = importlib.import_module("vmon.checks." + pid.lower())
        bins = core.build()
        t_build = time.monotonic() - t0
        ctx = Ctx(pid, a.tier, a.seed, bins)
        rng = random.Random("%s/%d" % (pid, a.seed))
        cases = list(mod.cases(rng, a.tier))
        for i, c in enumerate(cases):
            c.setdefault("name", "case%d" % i)
            c["index"] = i
        if a.case:
            cases = [c for c in cases if a.case in c["name"] or a.case == str(c["index"])]
    except HarnessError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    cap = float(os.environ.get("VERIF_CAP_S", QUICK_CAP_S if a.tier == "quick" else THOROUGH_CAP_S))
    violations, errors, not_run = [], [], []
    lock = threading.Lock()
    stop = threading.Event()

    def one(c):
        if stop.is_set() or time.monotonic() - t0 > cap:
            with lock:
                not_run.append(c["name"])
            return
        tries = getattr(mod, "CONFIRM", {}).get(c.get("kind"), 0)
        err = None
        for attempt in range(2):
            crng = random.Random("%s/%d/%s" % (pid, a.seed, c["name"]))
            tc = time.monotonic()
            try:
                mod.run(ctx, c, crng)
                ctx.count("cases")
                err = None
            except Violation as v:
                # where the verdict depends on timing, it has to repeat before it counts
                confirmed = True
                for _ in range(tries):
                    try:
                        mod.run(ctx, c, random.Random("%s/%d/%s" % (pid, a.seed, c["name"])))
                        confirmed = False
                        ctx.skip("not repeated: %s: %s" % (c["name"], v))
                        break
                    except Violation as v2:
                        v = v2
                ctx.count("cases")
                if confirmed:
                    with lock:
                        violations.append((c, v))
                        if len(violations) >= 3 and not a.verbose:
                            stop.set()
                err = None
            except Exception as e:  # noqa: BLE001 - harness trouble, retried once
                err = "%s: %s" % (c["name"], traceback.format_exc())
                continue
            finally:
                if a.verbose:
                    print("case %s %.2fs" % (c["name"], time.monotonic() - tc), file=sys.stderr)
            break
        if err:
            with lock:
                errors.append(err)

    workers = a.jobs or getattr(mod, "WORKERS", 8)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, cases))

    known = {(k["property"], k["key"]): k for k in load_known() if k.get("status") == "known"}
    real, reported = [], {}
    for c, v in violations:
        key = (pid, v.detail.get("finding"))
        if v.detail.get("finding") and key in known:
            reported[key] = known[key]["what"]
        else:
            real.append((c, v))
    for key in sorted(reported):
        print("KNOWN-FINDING: property=%s %s" % (pid, reported[key]))
    for e in errors[:5]:
        print("ERROR in case " + e, file=sys.stderr)
    if a.verbose:
        for s in ctx.inconclusive:
            print("inconclusive: " + s, file=sys.stderr)
    rdir = os.path.join(core.WORK, "replay", pid)
    os.makedirs(rdir, exist_ok=True)
    for i, (c, v) in enumerate(real[:5]):
        rp = os.path.join(rdir, "%s-%d-%d.json" % (a.tier, a.seed, i))
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "what": str(v),
                    "detail": v.detail,
                    "case": c,
                    "rerun": "cd %s && bin/check %s --tier %s --seed %d --case %s" % (core.VERIF, pid, a.tier, a.seed, c["name"]),
                },
                f,
                indent=1,
                default=lambda o: o.hex() if isinstance(o, bytes) else repr(o),
            )
        print("  %s: %s" % (c["name"], str(v)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    ndist = sum(len(s) for s in ctx.seen.values())
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ctx.counts.get("evaluations", ctx.counts.get("cases", 0)),
            "distinct_nontrivial": len(ctx.seen.get("nontrivial", ())) or ndist,
            "rule": mod.RULE,
            "samples": ctx.samples or [c["name"] for c in cases[:3]],
            "cases_run": ctx.counts.get("cases", 0),
            "cases_not_run": len(not_run),
            "observed": {k: v for k, v in sorted(ctx.counts.items()) if k not in ("cases", "evaluations")},
            "distinct_observed": {k: len(v) for k, v in sorted(ctx.seen.items())},
            "inconclusive": ctx.inconclusive[:20],
            "build_s": round(t_build, 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    core.cleanup()
    if real:
        return 1
    if errors or ctx.counts.get("cases", 0) == 0:
        print("ERROR: %d cases could not be judged" % len(errors), file=sys.stderr)
        return 2
    print(
        "OK property=%s tier=%s seed=%d cases=%d evaluations=%s distinct=%s wall=%.1fs%s"
        % (pid, a.tier, a.seed, ctx.counts.get("cases", 0), ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], " (not run: %d)" % len(not_run) if not_run else "")
    )
    return 0
