"""C06: exit code, counts and lists agree with the outcomes."""
import re

from .. import core, lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline consistency checker over all result files and the exit code of monitored runs"
RULE = "one evaluation is one run whose result files were cross-checked; non-trivial elements are distinct combinations of outcome kinds present, baseline result and exit code"
ASSUMPTIONS = []

KINDS = ["missed", "caught", "timeout", "unviable"]


def cases(rng, tier):
    out = []
    # every subset of outcome kinds
    for mask in range(16):
        out.append({"name": "mask%d" % mask, "mask": mask, "jobs": rng.choice([1, 2, 4]), "check": False, "nmut": rng.choice([8, 12, 16]) if mask else 0, "base": "exit=0", "opt": rng.choice([[], ["--shuffle"], ["--no-shuffle"], ["--baseline=skip"], ["--test-tool=nextest"]])})
    for k, b in enumerate(["exit=1", "exit=101", "hang", "buildfail", "exit=4"]):
        out.append({"name": "base-%s" % b, "mask": 15, "jobs": rng.choice([1, 3]), "check": False, "nmut": 5, "base": b, "opt": []})
    for k in range(3):
        out.append({"name": "check%d" % k, "mask": [1, 8, 9][k], "jobs": 2, "check": True, "nmut": 7, "base": "exit=0", "opt": []})
    for k in range(4):
        # mutants that are only checked, and how many builds of them never end
        out.append({"name": "check-hang%d" % k, "mask": [4, 12, 12, 4][k], "jobs": [2, 4][k % 2], "check": True, "nmut": [1, 3, 4, 6][k], "base": "exit=0", "opt": [], "allhang": True})
    for k in range(2):
        out.append({"name": "many%d" % k, "mask": [3, 11][k], "jobs": 8, "check": k == 1, "nmut": rng.choice([70, 140, 260]), "base": "exit=0", "opt": []})
    out.append({"name": "none-filter", "mask": 0, "jobs": 1, "check": False, "nmut": 4, "base": "exit=0", "opt": ["--re", "nothing_matches_this"]})
    out.append({"name": "none-skip", "mask": 0, "jobs": 1, "check": False, "nmut": 4, "base": "exit=0", "opt": ["--baseline=skip", "--re", "nothing_matches_this"]})
    out.append({"name": "none-shard", "mask": 0, "jobs": 1, "check": False, "nmut": 2, "base": "exit=0", "opt": ["--shard", "7/9"]})
    out.append({"name": "none-check", "mask": 0, "jobs": 1, "check": True, "nmut": 0, "base": "exit=1", "opt": []})
    out.append({"name": "dups", "mask": 15, "jobs": 4, "check": False, "nmut": 6, "base": "exit=0", "opt": [], "dup": True})
    n = 26 if tier == "quick" else 500
    for k in range(n):
        out.append({"name": "rand%d" % k, "mask": rng.randrange(1, 16), "jobs": rng.choice([1, 2, 5, 8]), "check": rng.random() < 0.2, "nmut": rng.choice([1, 2, 3, 5, 9, 20, 40]), "base": "exit=0", "opt": rng.choice([[], ["--in-place"], ["--baseline=skip"], ["--iterate"], ["--shard", "0/2"], ["--shard", "1/2"], ["-v"], ["-V"], ["--all-logs"], ["--no-times"], ["--json"][:0], ["--output", "OUT"]])})
    out += lab.fault_cases(rng, 32 if tier == "quick" else 240)
    return out


def run(ctx, c, rng):
    if c.get("kind") == "fault":
        return lab.run_fault(ctx, c, rng)
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2, 3])) if c["nmut"] else {"Cargo.toml": proj.manifest(), "src/lib.rs": "// nothing\n"}
    if c.get("dup"):
        body = "pub fn same(a: i32) -> bool {\n    a == 1\n}\n"
        tree["src/a__b.rs"] = body
        tree["src/a/b.rs"] = body
        tree["src/a.rs"] = "mod b;\n"
        tree["src/lib.rs"] = "mod a;\nmod a__b;\n" + tree["src/lib.rs"]
    elif c["nmut"] and rng.random() < 0.25:
        # names of files that a list must show as they are
        odd = rng.choice(["two  spaces.rs", "tab\there.rs", "été.rs", "#hash.rs", "q\"uote.rs", "back\\\\slash.rs", "a, b.rs", "%20.rs", "[x].rs", "trail .rs", "a: b.rs", "-dash.rs"])
        tree["src/" + odd.replace("\\\\", "\\")] = "pub fn odd(a: i32) -> bool {\n    a == 1\n}\n"
        tree["src/lib.rs"] = "#[path = \"%s\"]\nmod odd_file;\n" % odd.replace('"', '\\"') + tree["src/lib.rs"]
    seed = rng.randrange(1 << 30)
    k = [KINDS[i] for i in range(4) if c["mask"] >> i & 1] or ["missed"]
    tests = [(1, {"missed": "exit=0", "caught": "exit=101", "timeout": rng.choice(["hang", "hang", "termexit=0;hang", "termexit=101;hang"])}[x]) for x in k if x != "unviable"] or [(1, "exit=0")]
    builds = ([(1, "exit=101")] if "unviable" in k else []) + ([(3, "exit=0")] if k != ["unviable"] else [])
    b = c["base"]
    basep = {"hang": ["rule test base hang", "rule * base exit=0"], "buildfail": ["rule * base exit=101"]}.get(b, ["rule test base " + b, "rule check base " + b, "rule * base exit=0"])
    if c["check"]:
        builds = ([(1, "exit=101")] if "unviable" in k else []) + ([(2, "exit=0")] if k != ["unviable"] else [])
    if "timeout" in k and rng.random() < 0.5:
        builds.append((1, "hang"))
    if c.get("allhang"):
        builds = [(1, "hang")] + ([(1, "exit=101")] if "unviable" in k else [])
    plan = basep + ["rule build mut " + lab.weights(seed, builds), "rule check mut " + lab.weights(seed, builds), "rule test mut " + lab.weights(seed, tests)]
    args = list(c["opt"])
    if "--in-place" not in args:
        args += ["--jobs", str(c["jobs"])]
    args += ["--timeout", "1.5", "--build-timeout", "1.5"]
    if c["check"]:
        args.append("--check")
    with ctx.box(tree) as box:
        if "OUT" in args:
            args[args.index("OUT")] = box.dir + "/outp"
        listing = lab.list_names(box, [x for x in args if x not in ("--iterate", "--in-place", "-v", "-V", "--all-logs", "--no-times")])
        if rng.random() < 0.4:
            args += lab.noise(rng, args, rng.choice([1, 2, 3]), without=("shard",))
        o = lab.Obs()
        o.src, o.before = box.src, core.snapshot(box.src)
        if "--output" in args:
            o.out_parent = box.dir + "/outp"
        o.run = box.run(args, plan=plan, pre={}).finish()
        lab.finish_obs(o)
        lab.no_hang(o)
        if not listing:
            if o.run.rc != 0:
                raise Violation("no mutants selected, but exit code %s" % o.run.rc, run=o.run.brief())
            if o.invs:
                raise Violation("no mutants selected, but cargo was run", run=o.run.brief())
            if o.mutants != []:
                raise Violation("no mutants selected, but mutants.json is not an empty list", run=o.run.brief())
            for n, l in o.lists.items():
                if l:
                    raise Violation("no mutants selected, but %s.txt is not empty" % n, run=o.run.brief())
            ctx.saw("nontrivial", ("none", o.run.rc))
            return
        lab.need_outputs(o)
        lab.mon_reports(ctx, o, listing=listing)
        line = [l for l in o.run.stdout.splitlines() if " tested" in l and "mutant" in l and ":" in l]
        want = {k: v for k, v in (("missed", o.outcomes["missed"]), ("caught", o.outcomes["caught"]), ("unviable", o.outcomes["unviable"]), ("timeouts", o.outcomes["timeout"]), ("succeeded", o.outcomes["success"])) if v}
        if line:
            got = {w: int(n) for n, w in re.findall(r"(\d+) (missed|caught|unviable|timeouts?|succeeded)\b", line[-1].split(":", 1)[1])}
            if "timeout" in got:
                got["timeouts"] = got.pop("timeout")
            first = re.match(r"\s*(\d+) mutants? tested", line[-1])
            if got != want or first and int(first[1]) != o.outcomes["total_mutants"]:
                raise Violation("the final summary line differs from the outcomes: %r" % line[-1], run=o.run.brief())
            ctx.count("summary_lines")
        # the totals also agree with what really ran
        if not c["check"]:
            ran = sum(1 for s in o.scens if s.key)
            if c["base"] == "exit=0" and ran != o.outcomes["total_mutants"]:
                raise Violation("%d mutants were tested, total_mutants says %d" % (ran, o.outcomes["total_mutants"]), run=o.run.brief())
            hung = sum(1 for i in o.invs if i.killed and i.key())
            if hung and o.run.rc != 3 and c["base"] == "exit=0":
                raise Violation("a mutant timed out but the exit code is %s" % o.run.rc, run=o.run.brief())
        ctx.sample({"case": c["name"], "rc": o.run.rc, "total": o.outcomes["total_mutants"]})
