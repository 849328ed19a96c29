"""C07: no mutant is tested unless the unmutated tree passes first."""
import itertools

from .. import core, lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: ordering checker over recorded cargo invocations"
RULE = "one evaluation is one run; non-trivial elements are distinct (baseline behaviour, phase, options, exit code) combinations"
ASSUMPTIONS = []


def cases(rng, tier):
    out = []
    for b, ph in [("exit=1", "build"), ("exit=101", "build"), ("exit=101", "test"), ("exit=1", "test"), ("exit=4", "test"), ("hang", "test"), ("hang", "build"), ("sig=9", "build"), ("sig=11", "test"), ("exit=255", "test"), ("exit=128", "test"), ("exit=100", "build"), ("out=fffe0a;exit=101", "test"), ("termexit=0;hang", "test"), ("sig=6", "test"), ("exit=2", "test"), ("exit=0", "test"), ("sleep=200;exit=0", "build"), ("sleep=200;exit=0", "test")]:
        for j in (1, 4):
            out.append({"name": "%s-%s-j%d" % (b, ph, j), "base": b, "phase": ph, "jobs": j, "opt": rng.choice([[], [], ["--test-tool=nextest"], ["--shuffle"], ["--test-workspace=true"], ["--iterate"], ["--all-logs"]]), "in_place": j == 1 and rng.random() < 0.4, "ws": rng.random() < 0.3})
    for b in ("exit=1", "exit=101", "exit=0", "sig=9"):
        out.append({"name": "check-" + b, "base": b, "phase": "check", "jobs": 2, "opt": ["--check"], "in_place": False, "ws": False})
        out.append({"name": "skip-" + b, "base": b, "phase": "*", "jobs": 3, "opt": ["--baseline=skip"], "in_place": False, "ws": rng.random() < 0.5})
    out.append({"name": "skip-check", "base": "exit=0", "phase": "*", "jobs": 3, "opt": ["--baseline=skip", "--check"], "in_place": False, "ws": False})
    first = list(out)
    for k in range(40 if tier == "quick" else 400):
        c = dict(rng.choice(first))
        c["name"] = "more%d" % k
        c["jobs"] = rng.choice([1, 2, 3, 8]) if not c["in_place"] else 1
        c["opt"] = c["opt"] + rng.choice([[], ["--jobserver=false"], ["--cap-lints=true"], ["--shard", "1/2"], ["--shard", "0/2"], ["--re", "bool|unit|int|op|str|mat|opt"], ["--iterate"] if "--iterate" not in c["opt"] else []])
        c["hist"] = rng.random() < 0.5
        out.append(c)
    return out


def run(ctx, c, rng):
    if c["ws"]:
        tree = {"Cargo.toml": '[workspace]\nmembers = ["a", "b"]\nresolver = "2"\n'}
        tree.update(proj.pkg(rng, 3, 1, name="a", prefix="a/", base=0))
        tree.update(proj.pkg(rng, 3, 1, name="b", prefix="b/", base=100))
    else:
        tree = proj.pkg(rng, 5, 2)
    skip = "--baseline=skip" in c["opt"]
    check = "--check" in c["opt"]
    plan = ["rule %s base %s" % (c["phase"], c["base"]), "rule * base exit=0", "rule test mut " + lab.weights(rng.randrange(1 << 30), [(1, "exit=0"), (1, "exit=1")]), "rule * mut exit=0"]
    args = (["--in-place"] if c["in_place"] else ["--jobs", str(c["jobs"])]) + c["opt"] + ["--timeout", "1.5", "--build-timeout", "1.5"]
    hang_build = "hang" in c["base"] and c["phase"] == "build"
    with ctx.box(tree) as box:
        if c.get("hist"):
            # results of an earlier run
            core.write_tree(box.src, {"mutants.out/caught.txt": "src/lib.rs:1:1: replace gone with ()\n", "mutants.out/previously_caught.txt": "x\n", "mutants.out/outcomes.json": "{}", "mutants.out/lock.json": "{}"})
        if hang_build:
            # documented: no timeout for the baseline build; stop it ourselves
            r = box.start(args, plan=plan, pre={})
            r.wait_event(lambda e: e["ev"] == "start" and e["phase"] == "build")
            r.wait(4)
            ev = [e for e in r.read_events() if e["ev"] == "start"]
            muts = [e for e in ev if any(b"changed by cargo-mutants".hex() in d.get("d", "") for d in e["diff"])]
            r.signal(15)
            r.wait(20).finish()
            if muts:
                raise Violation("a mutant was built while the baseline build had not finished", run=r.brief())
            ctx.saw("nontrivial", ("hang-build", r.rc))
            return
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False)
        lab.need_outputs(o)
        base = [i for i in o.invs if i.key() is None]
        mut = [i for i in o.invs if i.key() is not None]
        if skip:
            if base:
                raise Violation("--baseline=skip, but the unmutated tree was built or tested", run=o.run.brief())
            if not mut:
                raise Violation("--baseline=skip, and no mutant was tested", run=o.run.brief())
            if any(x["scenario"] == "Baseline" for x in o.outcomes["outcomes"]):
                raise Violation("--baseline=skip, but a baseline outcome is reported", run=o.run.brief())
            ctx.saw("nontrivial", ("skip", c["name"], o.run.rc))
            return
        phases = [i.phase for i in base]
        okay = all(i.end is not None and i.code == 0 and not i.sig for i in base)
        want = ["check"] if check else ["build", "test"]
        if okay:
            if phases != want:
                raise Violation("baseline ran phases %s, expected %s" % (phases, want), run=o.run.brief())
            if not mut:
                raise Violation("the baseline passed but no mutant was tested", run=o.run.brief())
            if o.run.rc == 4:
                raise Violation("the baseline passed but the exit code is 4", run=o.run.brief())
            # what was built and tested includes every package that is to be mutated
            pk = {m["package"] for m in o.mutants}
            for i in base:
                got = {a.split("=", 1)[1].split("@")[0] for a in i.argv if a.startswith("--package=")}
                if "--workspace" not in i.argv and pk - got:
                    raise Violation("the baseline did not cover the packages %s, which have mutants" % sorted(pk - got), run=o.run.brief())
            ctx.count("packages_covered", len(pk))
            t = max(i.end for i in base)
            for i in mut:
                if i.t < t:
                    raise Violation("a mutant was started before the baseline had finished", mutant=i.short(), run=o.run.brief())
        else:
            if phases != want[: len(phases)] or any(i.end is None or i.code != 0 or i.sig for i in base[:-1]):
                raise Violation("baseline went on after a failed phase: %s" % phases, run=o.run.brief())
            if mut:
                raise Violation("mutants were tested although the baseline failed", run=o.run.brief())
            if o.run.rc != 4:
                raise Violation("the baseline failed but the exit code is %s" % o.run.rc, run=o.run.brief())
            outs = o.outcomes["outcomes"]
            if len(outs) != 1 or outs[0]["scenario"] != "Baseline" or outs[0]["summary"] not in ("Failure", "Timeout"):
                raise Violation("the failed baseline is not what outcomes.json records", outcomes=outs, run=o.run.brief())
            if any(o.lists[n] for n in o.lists):
                raise Violation("mutants are listed although the baseline failed", run=o.run.brief())
        ctx.count("invocations", len(o.invs))
        ctx.saw("nontrivial", (c["base"], c["phase"], " ".join(c["opt"]), c["in_place"], o.run.rc))
        ctx.sample({"case": c["name"], "rc": o.run.rc, "baseline_phases": phases, "mutant_invocations": len(mut)})
