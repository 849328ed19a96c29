"""C03: each cargo run sees the pristine tree plus exactly its one mutation."""
from .. import core, lab, model, proj
from ..core import Violation
from . import c02

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: full tree comparison inside every cargo invocation, over varied interleavings"
RULE = "one evaluation is one run; non-trivial elements are distinct mutated trees that were compared byte by byte with the expected tree"
ASSUMPTIONS = ["a file with CRLF line ends is mutated with its line ends normalised to LF; that is accepted as part of the edit", "files added by the scripted cargo below target/ are cargo's own"]


def cases(rng, tier):
    out = []
    n = 34 if tier == "quick" else 260
    odd = list(c02.ODD) + [None] * 8
    for k in range(n):
        jobs = [1, 2, 4, 8, 3][k % 5]
        out.append({
            "name": "run%d" % k, "jobs": jobs, "in_place": jobs == 1 and rng.random() < 0.4, "nmut": rng.choice([5, 10, 16, 24]), "nfiles": rng.choice([1, 1, 2, 5]), "hang": rng.choice([0, 0, 0, 1]),
            "opt": rng.choice([[], [], ["--check"], ["--baseline=skip"], ["--shuffle"], ["--no-shuffle"], ["--test-tool=nextest"]]), "odd": rng.choice(odd), "delay": rng.choice([0, 0, 500, 5000]), "unviable": rng.choice([0, 1, 6]), "sig": rng.choice([0, 0, 1]), "dep": rng.random() < 0.2, "same": rng.random() < 0.3,
        })
    return out


def run(ctx, c, rng):
    kinds = ["op", "match"] if c["same"] else None
    tree = proj.pkg(rng, c["nmut"], c["nfiles"], kinds=kinds)
    if rng.random() < 0.4:
        tree["src/lib.rs"] += "\n" + proj.fn_text("equal", 700)
    tree.update(proj.extras(rng))
    if rng.random() < 0.12:
        proj.big(rng, tree)
    if c["odd"]:
        tree["src/odd.rs"] = {"hex": c02.ODD[c["odd"]].hex()}
        tree["src/lib.rs"] = "mod odd;\n" + tree["src/lib.rs"]
    seed = rng.randrange(1 << 30)
    args = (["--in-place"] if c["in_place"] else ["--jobs", str(c["jobs"])]) + ["--timeout", "1.5", "--build-timeout", "1.5"] + c["opt"]
    plan = lab.plan_mix(rng, seed, hang=c["hang"], bhang=c["hang"], unviable=c["unviable"], sig=c["sig"])
    # gitignored or vcs files take no part here: the copy itself is judged by C11
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False, pre={"delay": "%d:%d" % (c["delay"], seed)} if c["delay"] else {}, timeout=60)
        lab.need_outputs(o)
        lab.mon_trees(ctx, o, in_place=c["in_place"])
        base = [s for s in o.scens if s.key is None]
        if "--baseline=skip" in c["opt"]:
            if base:
                raise Violation("an unmutated tree was built with --baseline=skip", run=o.run.brief())
        elif len(base) != 1:
            raise Violation("%d unmutated scenarios were run, expected the baseline only" % len(base), run=o.run.brief(), scens=[i.short() for s in base for i in s.invs])
        # phases of one mutant are consecutive in one directory, with the same tree
        for s in o.scens:
            if len({i.cwd for i in s.invs}) != 1:
                raise Violation("the phases of one mutant ran in different directories", run=o.run.brief())
        conc = 0
        for a in o.invs:
            conc = max(conc, sum(1 for b in o.invs if b.t <= a.t < b.last(1 << 62)))
        ctx.saw("max_concurrency", conc)
        ctx.saw("interleavings", hash(tuple((i.cwd, i.phase, i.key()) for i in o.invs)))
        ctx.sample({"case": c["name"], "jobs": c["jobs"], "invocations": len(o.invs), "concurrency": conc})
