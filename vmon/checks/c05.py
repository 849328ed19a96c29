"""C05: a mutant's outcome follows from what its cargo runs did."""
from .. import lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline checker of the recorded cargo invocations against the reported outcomes"
RULE = "one evaluation is one run; non-trivial elements are distinct (phase, exit status, baseline?) triples whose recorded result was compared with what the scripted cargo really did"
ASSUMPTIONS = ["the summary of a mutant whose cargo died of a signal is not judged (the documentation does not say what it is)", "a phase that ends close to its timeout is not judged"]


def cases(rng, tier):
    out = []
    n = 110 if tier == "quick" else 800
    for k in range(n):
        out.append({
            "name": "run%d" % k, "jobs": [1, 2, 4][k % 3], "nmut": rng.choice([6, 12, 20]), "hang": rng.choice([0, 0, 1, 2]), "buildhang": rng.random() < 0.2, "check": rng.random() < 0.25, "base": rng.choice(["exit=0"] * 8 + ["exit=1", "exit=101", "exit=77", "hang"]),
            "basephase": rng.choice(["build", "test"]), "tool": rng.choice([None, "cargo", "nextest", "nextest"]), "skip": rng.random() < 0.2, "in_place": k % 3 == 0 and rng.random() < 0.3, "sig": rng.choice([0, 0, 1]),
            "codes": [rng.choice([1, 2, 3, 4, 5, 37, 99, 100, 101, 102, 103, 104, 105, 124, 126, 127, 128, 130, 137, 143, 200, 254, 255]) for _ in range(6)],
        })
    return out


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2]))
    seed = rng.randrange(1 << 30)
    w = lab.weights
    codes = c["codes"]
    t = "sleep=%d;" % rng.choice([0, 2, 9])
    tests = [(4, t + "exit=0")] + [(1, "exit=%d" % x) for x in codes] + ([(c["hang"], rng.choice(["", "", "termexit=0;", "termexit=101;", "termexit=4;"]) + "hang")] if c["hang"] else []) + ([(1, "sig=%d" % rng.choice([9, 11, 6, 15, 15, 2, 1]))] if c["sig"] else [])
    builds = [(8, t + "exit=0")] + [(1, "exit=%d" % x) for x in codes[:2]] + ([(1, rng.choice(["", "termexit=0;", "termexit=101;"]) + "hang")] if c["buildhang"] else []) + ([(1, "sig=%d" % rng.choice([9, 11, 6, 15, 15, 2, 1]))] if c["sig"] else [])
    base = c["base"]
    if base == "hang":
        basep = ["rule test base hang", "rule * base exit=0"]
    elif base == "exit=0" or c["check"]:
        basep = ["rule * base " + base]
    else:
        basep = ["rule %s base %s" % (c["basephase"], base), "rule * base exit=0"]
    if base == "hang" and c["check"]:
        basep = ["rule * base exit=0"]
    plan = basep + ["rule build mut " + w(seed, builds), "rule check mut " + w(seed, builds), "rule test mut " + w(seed, tests)]
    args = ["--in-place"] if c["in_place"] else ["--jobs", str(c["jobs"])]
    args += ["--timeout", "2"]
    if c["buildhang"]:
        args += ["--build-timeout", "2"]
    if c["check"]:
        args.append("--check")
    if c["tool"]:
        args.append("--test-tool=" + c["tool"])
    if c["skip"]:
        args.append("--baseline=skip")
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False)
        lab.need_outputs(o)
        lab.mon_class(ctx, o, check_only=c["check"], timeout_s=2)
        # no tests after a failed build
        for s in o.scens:
            ph = s.phases
            if c["check"] and ph != ["check"]:
                raise Violation("--check ran %s" % ph, run=o.run.brief())
            if not c["check"] and ph not in (["build"], ["build", "test"]):
                raise Violation("phases %s were run for one tree" % ph, run=o.run.brief())
        ctx.sample({"case": c["name"], "args": args, "outcomes": [x["summary"] for x in o.outcomes["outcomes"]][:12]})
