"""C08: timeouts are computed and enforced as documented."""
import math
import os

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring in virtual time: the program's monotonic clock is sped up, hung and slow cargo runs are scripted, and the recorded and observed ends are judged"
RULE = "one evaluation is one run; non-trivial elements are distinct (which rule set the limit, phase, killed or finished) observations"
ASSUMPTIONS = ["limits are judged in the program's own (sped-up) time, with a margin of 0.35 s of real time above and nothing below", "verdicts on time must repeat twice before they count"]
CONFIRM = {"time": 2}


def cases(rng, tier):
    out = []

    def add(name, **k):
        d = {"name": name, "kind": "time", "clock": 40, "args": [], "config": "", "env": {}, "base_test": 30, "base_build": 10, "jobs": 1}
        d.update(k)
        out.append(d)

    r = rng.choice
    add("default-min", want=("auto", 20, 5), base_test=r([5, 20, 40]))
    add("default-mult", want=("auto", 20, 5), base_test=r([250, 300]), clock=50)
    add("mult-cli", want=("auto", 20, 2.5), args=["--timeout-multiplier=2.5"], base_test=500, clock=40)
    add("mult-small", want=("auto", 20, 0.1), args=["--timeout-multiplier=0.1"], base_test=200)
    add("mult-config", want=("auto", 20, 3), config="timeout_multiplier = 3\n", base_test=400)
    add("mult-cli-over-config", want=("auto", 20, 2), config="timeout_multiplier = 9\n", args=["--timeout-multiplier=2"], base_test=600)
    add("mult-half", want=("auto", 1, 0.5), args=["--timeout-multiplier=0.5", "--minimum-test-timeout=1"], base_test=1500, clock=10)
    add("mult-tenth-config", want=("auto", 2, 0.25), config="timeout_multiplier = 0.25\nminimum_test_timeout = 2\n", base_test=1600, clock=10)
    add("mult-min-both", want=("auto", 30, 2), args=["--timeout-multiplier=2", "--minimum-test-timeout=30"], base_test=50, clock=20)
    add("min-cli", want=("auto", 45, 5), args=["--minimum-test-timeout=45"], base_test=20)
    add("min-small", want=("auto", 3, 5), args=["--minimum-test-timeout=3"], base_test=150, clock=10)
    add("min-frac", want=("auto", 10.5, 5), args=["--minimum-test-timeout=10.5"], base_test=5, clock=10)
    add("min-config", want=("auto", 33, 5), config="minimum_test_timeout = 33\n", base_test=20)
    add("min-cli-over-config", want=("auto", 28, 5), config="minimum_test_timeout = 60\n", args=["--minimum-test-timeout=28"], base_test=20)
    add("min-env", want=("auto", 37, 5), env={"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": "37"}, base_test=20)
    add("explicit", want=("explicit", 12), args=["--timeout=12"], clock=10)
    add("explicit-short", want=("explicit", 6.5), args=["--timeout", "6.5"], base_test=20, clock=5)
    add("explicit-tiny", want=("explicit", 0.3), args=["--timeout=0.3"], base_test=5, clock=1)
    add("explicit-tiny-min", want=("explicit", 0.4), args=["--timeout=0.4"], config="minimum_test_timeout = 5\ntimeout_multiplier = 50\n", base_test=5, clock=1, jobs=2)
    add("skip-build-explicit", build=("explicit", 8), args=["--baseline=skip", "--build-timeout=8", "--timeout=40"], clock=5)
    add("skip-check-build-explicit", build=("explicit", 8), args=["--baseline=skip", "--check", "--build-timeout=8"], clock=5)
    add("build-not-test", want=("explicit", 20), args=["--build-timeout=6", "--timeout=20"], clock=10)
    add("test-not-build", build=("none",), slow_build=1500, args=["--timeout=5"], clock=8)
    add("build-mult-small", build=("mult", 0.5), args=["--build-timeout-multiplier=0.5"], base_build=1500, clock=8)
    add("mult-not-build", want=("auto", 1, 2), args=["--timeout-multiplier=2", "--minimum-test-timeout=1"], base_build=1500, base_test=150, clock=10)
    add("explicit-below-min", want=("explicit", 10), args=["--timeout=10", "--minimum-test-timeout=100"], clock=10)
    add("explicit-over-config-mult", want=("explicit", 15), args=["--timeout=15"], config="timeout_multiplier = 100\nminimum_test_timeout = 50\n", clock=10)
    add("skip-default", want=("explicit", 300), args=["--baseline=skip"], clock=150)
    add("skip-min", want=("explicit", 300), args=["--baseline=skip", "--minimum-test-timeout=30"], clock=150)
    add("skip-explicit", want=("explicit", 30), args=["--baseline=skip", "--timeout=30"], clock=20)
    add("skip-mult", want=("explicit", 300), args=["--baseline=skip"], config="timeout_multiplier = 3\n", clock=150)
    add("build-none", build=("none",), slow_build=1200, args=["--timeout=20"], clock=20)
    add("build-explicit", build=("explicit", 8), args=["--build-timeout=8"], clock=5)
    add("build-explicit-frac", build=("explicit", 7.5), args=["--build-timeout", "7.5", "--timeout=100"], clock=5)
    add("build-mult", build=("mult", 4), args=["--build-timeout-multiplier=4"], base_build=300, clock=10)
    add("build-mult-short", build=("mult", 3), args=["--build-timeout-multiplier=3"], base_build=250, clock=1)
    add("jobs-auto", want=("auto", 20, 5), base_test=r([5, 300]), clock=20, jobs=r([3, 4, 8]))
    add("jobs-mult", want=("auto", 3, 2), args=["--timeout-multiplier=2", "--minimum-test-timeout=3"], base_test=r([400, 700]), clock=10, jobs=r([3, 6]))
    add("jobs-build", build=("mult", 4), args=["--build-timeout-multiplier=4"], base_build=300, clock=10, jobs=4)
    add("build-mult-config", build=("mult", 3), config="build_timeout_multiplier = 3\n", base_build=400, clock=10)
    add("build-mult-over-config", build=("mult", 2.5), config="build_timeout_multiplier = 50\n", args=["--build-timeout-multiplier=2.5"], base_build=500, clock=10)
    add("build-skip-mult", build=("none",), config="build_timeout_multiplier = 1\n", args=["--baseline=skip", "--timeout=30"], slow_build=900, clock=20)
    add("build-explicit-over-config", build=("explicit", 9), config="build_timeout_multiplier = 100\n", args=["--build-timeout=9"], clock=5)
    add("check-build-timeout", build=("explicit", 9), args=["--check", "--build-timeout=9"], clock=5)
    add("check-none", build=("none",), args=["--check"], slow_build=1000, clock=40)
    add("baseline-test", base=("explicit", 8), args=["--timeout=8"], clock=5)
    add("baseline-build-none", base=("nobuild",), args=["--timeout=8", "--build-timeout=8"], base_build=2200, clock=5)
    add("group", want=("explicit", 8), args=["--timeout=8"], clock=5, gc=True, jobs=2)
    add("group2", want=("explicit", 9), args=["--timeout=9", "--test-tool=nextest"], clock=6, gc=True, jobs=3)
    add("group-ignores", want=("explicit", 8), args=["--timeout=8"], clock=6, gci=True, jobs=2)
    add("group-ignores-build", build=("explicit", 8), args=["--build-timeout=8"], clock=6, gci=True)
    add("igterm", want=("explicit", 8), args=["--timeout=8"], clock=5, igterm=True)
    for k, code in enumerate([0, 101, 4]):
        add("termexit%d" % code, want=("explicit", 8), args=["--timeout=8"] + (["--test-tool=nextest"] if k == 2 else []), clock=6, termexit=code, jobs=r([1, 2]))
        add("termexit-build%d" % code, build=("explicit", 8), args=["--build-timeout=8"], clock=6, termexit=code, jobs=r([1, 2]))
    add("termexit-base", base=("explicit", 8), args=["--timeout=8"], clock=6, termexit=0)
    add("within", want=("explicit", 20), args=["--timeout=20"], clock=10, within=True, jobs=4)
    add("within-auto", want=("auto", 20, 5), clock=20, within=True, jobs=2)
    if True:
        for k in range(8 if tier == "quick" else 120):
            m = round(rng.uniform(0.5, 8), 2)
            mn = rng.choice([1, 5, 20, 31.5, 60])
            out.append({"name": "auto%d" % k, "kind": "time", "clock": 20, "args": ["--timeout-multiplier=%s" % m, "--minimum-test-timeout=%s" % mn], "config": "", "env": {}, "base_test": rng.choice([10, 100, 300, 600]), "base_build": 10, "jobs": rng.choice([1, 2]), "want": ("auto", mn, m), "within": rng.random() < 0.3})
        for k in range(4 if tier == "quick" else 40):
            b = round(rng.uniform(1, 10), 1)
            out.append({"name": "b%d" % k, "kind": "time", "clock": 5, "args": ["--build-timeout-multiplier=%s" % b], "config": "", "env": {}, "base_test": 10, "base_build": rng.choice([150, 300]), "jobs": 2, "build": ("mult", b)})
    return out


def run(ctx, c, rng):
    tree = {"Cargo.toml": proj.manifest(), "src/lib.rs": "".join(proj.fn_text(k, n) for n, k in enumerate(rng.choice([["bool", "unit"], ["unit", "bool"], ["bool", "int"]])))}
    hangs = "has:" + core.tohex("true /* ~")
    if c["config"]:
        tree[".cargo/mutants.toml"] = c["config"]
    clock = c["clock"]
    args = list(c["args"]) + ["--jobs", str(c["jobs"]), "--no-shuffle"]
    check = "--check" in args
    seed = rng.randrange(1 << 30)
    gc = "gc=60000;" if c.get("gc") else "gci=60000;" if c.get("gci") else ""
    ig = "igterm;" if c.get("igterm") else ""
    if "termexit" in c:
        ig += "termexit=%d;" % c["termexit"]
    plan = ["rule test base sleep=%d;exit=0" % c["base_test"], "rule build base sleep=%d;exit=0" % c["base_build"], "rule * base exit=0"]
    if c.get("base"):
        if c["base"][0] == "explicit":
            plan = ["rule test base %shang" % (gc + ig), "rule * base exit=0"]
        plan += ["rule * mut exit=0"]
    elif c.get("build"):
        if c["build"][0] == "none":
            plan += ["rule build mut sleep=%d;exit=0" % c["slow_build"], "rule check mut sleep=%d;exit=0" % c["slow_build"], "rule * mut exit=1"]
        else:
            plan += ["rule build %s %shang" % (hangs, gc + ig), "rule build mut exit=0", "rule check %s %shang" % (hangs, gc + ig), "rule check mut exit=0", "rule * mut exit=1"]
    else:
        slow = "sleep=%d;exit=%d" % (int(0.45 * c["want"][1] / clock * 1000), rng.choice([0, 1])) if c.get("within") else gc + ig + "hang"
        plan += ["rule test mut " + slow] if c.get("within") or c.get("gc") else ["rule test %s %s" % (hangs, slow), "rule test mut exit=1"]
        plan += ["rule * mut exit=0"]
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, without=("no-config", "timeout", "timeout-multiplier", "build-timeout-multiplier", "minimum-test-timeout"), want_list=False, pre={"clock": clock}, env=c["env"], timeout=60, sleepcap=2000)
        if o.run.hung:
            raise Violation("a phase that should have timed out was not ended", run=o.run.brief(), invocations=[i.short() for i in o.invs])
        lab.need_outputs(o)
        if c.get("base"):
            b = [i for i in o.invs if i.key() is None]
            if c["base"][0] == "explicit":
                if o.run.rc != 4 or not b[-1].killed:
                    raise Violation("a hung baseline test was not timed out", run=o.run.brief())
                d = [p["duration"] for x in o.outcomes["outcomes"] for p in x["phase_results"] if p["process_status"] == "Timeout"]
                judge_time(ctx, c, d[0] if d else None, c["base"][1], clock, o, b[-1])
            elif any(i.killed for i in b):
                raise Violation("the baseline build was ended by a timeout", run=o.run.brief())
            ctx.saw("nontrivial", ("baseline",) + tuple(c["base"]))
            return
        base = [x for x in o.outcomes["outcomes"] if x["scenario"] == "Baseline"]
        bd = {p["phase"]: p["duration"] for p in base[0]["phase_results"]} if base else {}
        for n, i in (("Build", [i for i in o.invs if i.key() is None and i.phase == "build"]), ("Test", [i for i in o.invs if i.key() is None and i.phase == "test"])):
            if i and bd.get(n) is not None and i[0].end and bd[n] / clock + 0.005 < (i[0].end - i[0].t) / 1e9:
                raise Violation("the recorded baseline %s time is shorter than it took" % n, run=o.run.brief())
        phase = "Build" if c.get("build") else "Test"
        if check:
            phase = "Check"
        spec = c.get("build") or c["want"]
        if spec[0] == "none":
            limit = None
        elif spec[0] == "explicit":
            limit = spec[1]
        elif spec[0] == "mult":
            limit = bd["Build"] * spec[1]
        else:
            limit = max(spec[1], math.ceil(bd["Test"] * spec[2]))
        pairs = lab.outcome_pairs(o)
        n_kill = 0
        for x, s in pairs:
            if x["scenario"] == "Baseline":
                continue
            for p, i in zip(x["phase_results"], s.invs):
                to = p["process_status"] == "Timeout"
                if to != i.killed:
                    raise Violation("reported %s, but the process %s" % (p["process_status"], "was ended by the program" if i.killed else "ended by itself"), run=o.run.brief())
                if p["phase"] != phase:
                    continue
                if "hang" in i.actions and limit is not None and not to:
                    raise Violation("a hung %s phase was not timed out" % phase, run=o.run.brief())
                if to:
                    if limit is None:
                        raise Violation("%s was timed out after %.2f s although there is no limit" % (phase, p["duration"]), run=o.run.brief())
                    n_kill += 1
                    judge_time(ctx, c, p["duration"], limit, clock, o, i)
                    if x["summary"] != "Timeout":
                        raise Violation("a timed out mutant is reported as %s" % x["summary"], run=o.run.brief())
                    ctx.saw("nontrivial", (spec[0], phase, "killed", c["name"]))
                else:
                    ctx.saw("nontrivial", (spec[0], phase, "finished", c["name"]))
                    ctx.count("finished_within_limit")
        if len([1 for x, s in pairs if x["scenario"] != "Baseline"]) != len(o.mutants):
            raise Violation("the run did not go on after a timeout", run=o.run.brief())
        ctx.count("timeouts_observed", n_kill)
        if limit is not None and not n_kill and not c.get("within"):
            ctx.skip("no timeout seen in " + c["name"])
        if c.get("gc") or c.get("gci"):
            left = [n for n in o.run.left_names.values() if "__gc" in n]
            if left:
                raise Violation("processes in the group of a timed out test are still running: %s" % left, run=o.run.brief())
            ctx.count("groups_ended", n_kill)
        ctx.sample({"case": c["name"], "limit_s": limit, "timeouts": n_kill})


def judge_time(ctx, c, dur, limit, clock, o, inv):
    if dur is None:
        raise Violation("the timeout is not recorded", run=o.run.brief())
    grace = 5 if c.get("igterm") or c.get("gci") else 0
    if dur < limit:
        raise Violation("%s: ended after %.2f s, before its limit of %.2f s" % (c["name"], dur, limit), run=o.run.brief())
    if dur > limit + grace + 1.0 + 0.35 * clock:
        raise Violation("%s: ended after %.2f s, long after its limit of %.2f s" % (c["name"], dur, limit), run=o.run.brief())
    real = ((inv.term or inv.last(None) or 0) - inv.t) / 1e9 * clock
    if inv.term and real > limit + 1.0 + 0.6 * clock:
        raise Violation("%s: the process was signalled after %.2f s, limit %.2f s" % (c["name"], real, limit), run=o.run.brief())
    ctx.count("limits_judged")
