"""C24: parallelism never exceeds --jobs and is really used; one shared jobserver."""
import os

from .. import lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: overlap of cargo process lifetimes, barriers inside the scripted cargo, and token counting on the jobserver"
RULE = "one evaluation is one run; non-trivial elements are distinct (jobs, largest number of cargo processes seen at once, jobserver tokens)"
ASSUMPTIONS = ["a cargo process counts as alive from its first to its last instruction, or to the arrival of the terminating signal", "not reaching full parallelism within 4 s at a barrier must repeat twice before it counts"]
CONFIRM = {"barrier": 2, "js": 1}


def cases(rng, tier):
    out = []
    for j in [1, 2, 3, 4, 5, 8, 12] + ([6, 7, 10, 16, 24] if tier == "thorough" else []):
        out.append({"name": "barrier%d" % j, "kind": "barrier", "jobs": j, "nmut": j + rng.choice([0, 1, 5]), "args": rng.choice([[], ["--check"], ["--baseline=skip"]]), "how": rng.choice(["--jobs", "-j", "env"])})
    out.append({"name": "few", "kind": "barrier", "jobs": 6, "nmut": 3, "args": [], "how": "--jobs"})
    out.append({"name": "equal", "kind": "barrier", "jobs": 4, "nmut": 4, "args": [], "how": "--jobs"})
    out.append({"name": "two", "kind": "barrier", "jobs": 3, "nmut": 2, "args": ["--check"], "how": "-j"})
    out.append({"name": "default", "kind": "max", "jobs": None, "nmut": 6, "args": [], "how": "--jobs", "hang": 0})
    n = 50 if tier == "quick" else 120
    for k in range(n):
        out.append({"name": "max%d" % k, "kind": "max", "jobs": rng.choice([1, 2, 3, 4, 7]), "nmut": rng.choice([6, 12, 25]), "args": rng.choice([[], ["--check"], ["--baseline=skip"], ["--in-place"], ["--shuffle"], ["--test-tool=nextest"]]), "how": "--jobs", "hang": rng.choice([0, 0, 1])})
    for k, (t, a) in enumerate([(None, []), (1, ["--jobserver-tasks=1"]), (3, ["--jobserver-tasks=3"]), (7, ["--jobserver-tasks=7"]), ("off", ["--jobserver=false"]), ("off", ["--jobserver=false", "--jobserver-tasks=5"]), (13, ["--jobserver=true", "--jobserver-tasks", "13"])]):
        out.append({"name": "js%d" % k, "kind": "js", "jobs": rng.choice([1, 2, 3]), "nmut": 5, "tokens": t, "args": a, "how": "--jobs"})
        out.append({"name": "js-check%d" % k, "kind": "js", "jobs": rng.choice([1, 2, 3]), "nmut": 4, "tokens": t, "args": a + ["--check"] + rng.choice([[], ["--baseline=skip"]]), "how": "--jobs"})
    for k, (j, a, t) in enumerate([(1, [], None), (24, [], None), (2, ["--jobserver-tasks=4"], 4), (3, ["--jobserver-tasks=2"], 2), (4, ["--jobserver-tasks=5"], 5), (3, [], None)]):
        out.append({"name": "pool%d" % k, "kind": "pool", "jobs": j, "nmut": max(4, min(j, 12)), "tokens": t, "args": a, "how": "--jobs"})
    return out


def ncpu():
    try:
        return len(os.sched_getaffinity(0))
    except Exception:
        return os.cpu_count()


def overlap(invs):
    ev = []
    for i in invs:
        e = i.last(None)
        if e is None:
            continue
        ev += [(i.t, 1), (e, -1)]
    n = mx = 0
    for t, d in sorted(ev):
        n += d
        mx = max(mx, n)
    return mx


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], 2, kinds=["unit", "bool", "int"])
    seed = rng.randrange(1 << 30)
    jobs = c["jobs"] or 1
    env = {}
    args = list(c["args"])
    if c["jobs"] and "--in-place" not in args:
        if c["how"] == "env":
            env["CARGO_MUTANTS_JOBS"] = str(jobs)
        else:
            args += [c["how"], str(jobs)]
    if "--in-place" in args:
        jobs = 1
    args += ["--timeout", "2" if c.get("hang") else "60"]
    if c["kind"] == "barrier":
        n = min(jobs, c["nmut"])
        plan = ["rule * base exit=0", "rule build mut barrier=%d:4000;exit=0" % n, "rule check mut barrier=%d:4000;exit=0" % n, "rule test mut exit=1"]
        # only the first wave has to be together
        plan = ["rule * base exit=0", "rule * mut barrier=%d:4000;sleep=30;exit=1" % n]
    elif c["kind"] == "js":
        plan = ["rule * base jobserver=60;exit=0", "rule build mut exit=0", "rule * mut jobserver=60;exit=1"]
        if "--baseline=skip" in args:
            jobs = 1
            args[args.index("--jobs") + 1] = "1"
        if jobs > 1:
            plan = ["rule * base jobserver=60;exit=0", "rule * mut sleep=5;exit=1"]
    elif c["kind"] == "pool":
        n = min(jobs, 4)
        plan = ["rule * base jobserver=60;exit=0", "rule build mut barrier=%d:1500;jobserver=150;exit=1" % n, "rule * mut exit=1"]
    else:
        plan = lab.plan_mix(rng, seed, hang=c["hang"], sleeps=(5, 20, 40))
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, without=("jobserver", "jobserver-tasks"), want_list=False, env=env)
        lab.need_outputs(o)
        mx = overlap(o.invs)
        if mx > jobs:
            raise Violation("%d cargo processes at once with %d jobs" % (mx, jobs), run=o.run.brief())
        base = [i for i in o.invs if i.key() is None]
        if base and overlap(base) > 1:
            raise Violation("the baseline ran more than one cargo at once", run=o.run.brief())
        ctx.count("invocations", len(o.invs))
        ctx.saw("nontrivial", (c["kind"], jobs, mx, str(c.get("tokens", ""))))
        if c["kind"] == "barrier":
            n = min(jobs, len(o.mutants))
            got = max([e["seen"] for i in o.invs for e in i.extra if e["ev"] == "barrier"] or [0])
            if got < n:
                raise Violation("only %d cargo processes ever ran at once, with %d jobs and %d mutants" % (got, jobs, len(o.mutants)), run=o.run.brief())
            ctx.count("barriers_met")
        if c["kind"] == "pool":
            probes = [e for i in o.invs for e in i.extra if e["ev"] == "jobserver"]
            if not probes or any(e["tokens"] < 0 for e in probes):
                raise Violation("no usable jobserver is offered: %s" % [e["tokens"] for e in probes], run=o.run.brief())
            total = [e["tokens"] for i in base for e in i.extra if e["ev"] == "jobserver"]
            if c["tokens"] and set(total) != {c["tokens"]}:
                raise Violation("the jobserver has %s tokens, configured %d" % (total, c["tokens"]), run=o.run.brief())
            if len(set(total)) != 1 or not c["tokens"] and total[0] > ncpu():
                raise Violation("the jobserver has %s tokens by default, there are %d CPUs" % (total, ncpu()), run=o.run.brief())
            # tokens held at one time by all cargo processes together
            for e in probes:
                held = sum(f["tokens"] for f in probes if f["ta"] <= e["ta"] < f["tr"])
                if held > total[0]:
                    raise Violation("cargo processes together held %d tokens of a pool of %d" % (held, total[0]), run=o.run.brief())
            ctx.count("probes_overlapping", sum(1 for e in probes for f in probes if e is not f and f["ta"] <= e["ta"] < f["tr"]))
        if c["kind"] == "js":
            t = c["tokens"]
            toks = [e["tokens"] for i in o.invs for e in i.extra if e["ev"] == "jobserver"]
            if not toks:
                raise Violation("no jobserver probe", run=o.run.brief())
            if t == "off":
                if any(x != -1 for x in toks):
                    raise Violation("a jobserver is offered with --jobserver=false: %s" % toks, run=o.run.brief())
            else:
                want = t or os.cpu_count()
                try:
                    if not t:
                        want = len(os.sched_getaffinity(0))
                except Exception:
                    pass
                # cargo itself holds one implicit token: the pool has n tokens, or n-1 with make's convention
                if any(x < 0 for x in toks):
                    raise Violation("no usable jobserver is offered: %s" % toks, run=o.run.brief())
                if t and any(x != want for x in toks):
                    raise Violation("the jobserver has %s tokens, configured %d" % (toks, want), run=o.run.brief())
                if len(set(toks)) > 1:
                    raise Violation("the token pool changes between cargo runs: %s" % toks, run=o.run.brief())
                ctx.count("tokens_counted", sum(toks))
        ctx.sample({"case": c["name"], "jobs": jobs, "max_at_once": mx})
