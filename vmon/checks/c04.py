"""C04: every selected mutant is tested exactly once and reported exactly once."""
from .. import lab, proj
from ..lab import weights

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exactly-once checker over the recorded cargo invocations and outcomes, over varied schedules"
RULE = "one evaluation is a full run over a generated project with scripted cargo; a case is non-trivial if it tested mutants, distinct by (jobs, shuffle, tool, mutant count, order in which mutants were started)"
ASSUMPTIONS = ["mutated trees are identified by content, so mutants with identical resulting text are matched as a multiset"]


def cases(rng, tier):
    n = 70 if tier == "quick" else 600
    out = []
    for k in range(n):
        jobs = [1, 2, 3, 4, 8, 5][k % 6]
        out.append({
            "name": "run%d" % k, "jobs": jobs, "nmut": rng.choice([1, 2, 3, jobs, 7, 13, 20, 30] + ([90, 180] if k % 8 == 0 else [])),
            "shuffle": rng.choice([None, "--shuffle", "--no-shuffle"]), "check": rng.random() < 0.2,
            "baseline": rng.choice(["run", "run", "skip"]), "tool": rng.choice(["cargo", "cargo", "nextest"]),
            "delay": rng.choice([0, 0, 3000]), "nfiles": rng.choice([1, 2, 4]), "timeouts": rng.random() < 0.25,
            "in_place": jobs == 1 and rng.random() < 0.3,
        })
    out += lab.fault_cases(rng, 32 if tier == "quick" else 240)
    return out


def run(ctx, c, rng):
    if c.get("kind") == "fault":
        return lab.run_fault(ctx, c, rng)
    tree = proj.pkg(rng, c["nmut"], c["nfiles"])
    seed = rng.randrange(1 << 30)
    t = ["sleep=%d;" % x for x in (0, 1, 5, 20)]
    w = [(3, rng.choice(t) + "exit=0"), (3, rng.choice(t) + "exit=101"), (1, rng.choice(t) + "exit=4")]
    wt = w + ([(1, "hang")] if c["timeouts"] else [])
    plan = [
        "rule * base exit=0",
        "rule build mut " + weights(seed, [(6, rng.choice(t) + "exit=0"), (1, "exit=101")] + ([(1, "hang")] if c["timeouts"] else [])),
        "rule check mut " + weights(seed, w),
        "rule test mut " + weights(seed, wt),
    ]
    args = ["--jobs", str(c["jobs"])] if not c["in_place"] else ["--in-place"]
    if c["shuffle"]:
        args.append(c["shuffle"])
    if c["check"]:
        args.append("--check")
    if c["baseline"] == "skip":
        args.append("--baseline=skip")
    if c["tool"] != "cargo":
        args.append("--test-tool=" + c["tool"])
    args += ["--timeout", "2", "--build-timeout", "2"]
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, pre={"delay": "%d:%d" % (c["delay"], seed)} if c["delay"] else None)
        lab.need_outputs(o)
        lab.mon_once(ctx, o, baseline=c["baseline"] == "run")
        if len(o.mutants) != len(o.listing):
            raise lab.Violation("mutants.json has %d mutants, --list shows %d" % (len(o.mutants), len(o.listing)), run=o.run.brief())
        order = tuple(hash(s.key) for s in o.scens if s.key)
        ctx.saw("nontrivial", (c["jobs"], c["shuffle"] or "", c["tool"], len(o.mutants), hash(order)))
        ctx.saw("start_orders", hash(order))
        ctx.sample({"args": args, "mutants": len(o.mutants), "invocations": len(o.invs), "rc": o.run.rc})
