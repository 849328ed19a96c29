"""C10: scratch directories are cleaned up; at most one per job."""
import os
import signal
import time

from .. import core, lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the temporary directory is watched at every cargo invocation and at exit, with injected faults and signals"
RULE = "one evaluation is one run; non-trivial elements are distinct (options, ending, number of scratch directories seen at once, exit code)"
ASSUMPTIONS = ["nothing is claimed for a run ended by SIGKILL, or when removing files is itself made to fail"]


def cases(rng, tier):
    out = []
    n = 90 if tier == "quick" else 220
    for k in range(n):
        jobs = [1, 2, 3, 5, 8][k % 5]
        out.append({"name": "run%d" % k, "kind": "run", "jobs": jobs, "in_place": jobs == 1 and rng.random() < 0.5, "leak": rng.random() < 0.3, "nmut": rng.choice([1, 2, 4, 9, 14]), "base": rng.choice(["exit=0"] * 8 + ["exit=1", "exit=1", "hang"]), "hang": rng.choice([0, 0, 1]), "opt": rng.choice([[], [], ["--check"], ["--baseline=skip"], ["--re", "nomatch"], ["--list"], ["--test-tool=nextest"]]), "junk": rng.random() < 0.5})
    n = 60 if tier == "quick" else 130
    for k in range(n):
        out.append({"name": "fault%d" % k, "kind": "fault", "jobs": rng.choice([1, 2, 4]), "in_place": False, "leak": False, "nmut": 6, "base": "exit=0", "hang": 0, "opt": [], "junk": False, "ops": rng.choice(["create", "trunc", "write", "mkdir", "symlink", "append", "copy_file_range", "rename", "fchmod"]), "sub": rng.choice(["/tmp/cargo-mutants", "mutants.out", "/tmp/cargo-mutants", "/"]), "nth": rng.choice([1, 2, 3, 5, 9, 15, 25]), "what": rng.choice(["e28", "e13", "e5", "S2"])})
    n = 24 if tier == "quick" else 60
    for k in range(n):
        # the paths in the copies of the manifest and the config are corrected before the copy is used
        out.append({"name": "rel%d" % k, "kind": "fault", "jobs": rng.choice([1, 2, 4]), "in_place": False, "leak": False, "nmut": 6, "base": "exit=0", "hang": 0, "opt": [], "junk": False, "rel": True, "ops": ["openr", "trunc", "write", "openw", "opendir", "readlink"][k % 6], "sub": rng.choice([".tmp/Cargo.toml", ".tmp/.cargo/config.toml", ".tmp/"]), "nth": rng.choice([1, 1, 2, 3, 4]), "what": rng.choice(["e28", "e13", "e5"])})
    n = 30 if tier == "quick" else 60
    for k in range(n):
        out.append({"name": "sig%d" % k, "kind": "sig", "jobs": rng.choice([1, 2, 4]), "in_place": False, "leak": rng.random() < 0.4, "nmut": 8, "base": "exit=0", "hang": 0, "opt": [], "junk": True, "at": rng.choice([0, 1, 2, 3, 5]), "sig": rng.choice(["SIGINT", "SIGTERM", "SIGHUP"])})
    for c in lab.hup_cases(rng, 25 if tier == "quick" else 80):
        out.append(dict(c, jobs=rng.choice([1, 2, 4]), in_place=False, leak=False, nmut=8, base="exit=0", hang=0, opt=[], junk=True))
    return out


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2]))
    tree.update(proj.extras(rng))
    if rng.random() < 0.3:
        tree["ro_dir/f.txt"] = "x"
        tree["ro_dir/sub/g.txt"] = "y"
    if c.get("rel"):
        tree["Cargo.toml"] += '\n[patch.crates-io]\nout = { path = "../out" }\n'
        tree[".cargo/config.toml"] = 'paths = ["../other"]\n'
        tree["link"] = {"link": "Cargo.toml"}
    seed = rng.randrange(1 << 30)
    plan = lab.plan_mix(rng, seed, hang=c["hang"], bhang=c["hang"], base=c["base"], writes=False)
    if c["junk"]:
        # cargo leaves files, including read-only ones, in its target directory
        plan = [p.replace("exit=", "write=target/debug/deps/x%d.o:00;exit=" % rng.randrange(5)) for p in plan]
    args = (["--in-place"] if c["in_place"] else ["--jobs", str(c["jobs"])]) + c["opt"] + (["--leak-dirs"] if c["leak"] else []) + ["--timeout", "1.5", "--build-timeout", "1.5"]
    pre, started = {}, None
    if c["kind"] == "fault":
        pre["fault"] = "%s:%s:%d:%s" % (c["ops"], c["sub"], c["nth"], c["what"])
    if c["kind"] == "sig":
        plan = ["rule * base exit=0", "rule build mut sleep=60;exit=0", "rule test mut sleep=300;exit=1"]

        def started(r):
            for _ in range(4000):
                if len([e for e in r.read_events() if e["ev"] == "start"]) > c["at"] or r.p.poll() is not None:
                    break
                time.sleep(0.002)
            r.signal(getattr(signal, c["sig"]))

    kw = {}
    if c["kind"] == "hup":
        plan, started = lab.hup_plan(c), lab.hup_started(c)
        kw = {"streams": lab.hup_streams(c), "env": {"TERM": "xterm"}}
        args += ["--level=" + c["level"]] if c["level"] else []
    with ctx.box(tree) as box:
        for n in ("out", "other") if c.get("rel") else ():
            core.write_tree(os.path.join(os.path.dirname(box.src), n), proj.pkg(rng, 1, 1, name=n))
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False, strict=False, pre=pre, started=started, timeout=45, **kw)
        if o.run.hung or (o.run.rc is not None and o.run.rc < 0):
            ctx.skip("no exit by itself: " + c["name"])
            return
        left = lab.tmp_left(box)
        dirs = {i.cwd for i in o.invs}
        mx = 0
        for i in o.invs:
            ctx.count("temp_dir_observed")
            mx = max(mx, len(i.tmp or []))
            if c["in_place"] and i.tmp:
                raise Violation("a scratch copy was made with --in-place: %s" % i.tmp, run=o.run.brief())
            if len(i.tmp or []) > max(1, c["jobs"]):
                raise Violation("%d scratch directories with %d jobs: %s" % (len(i.tmp), c["jobs"], i.tmp), run=o.run.brief())
            if not c["in_place"] and os.path.dirname(i.cwd) != os.path.realpath(box.tmp):
                raise Violation("the scratch copy %s is not in the temporary directory" % i.cwd, run=o.run.brief())
        if len(dirs) > max(1, c["jobs"]):
            raise Violation("%d scratch directories were used with %d jobs" % (len(dirs), c["jobs"]), run=o.run.brief())
        if "--list" in c["opt"] and left:
            raise Violation("--list left scratch directories: %s" % left, run=o.run.brief())
        if not c["leak"] and left:
            raise Violation("scratch directories left behind: %s" % left, run=o.run.brief())
        if c["leak"]:
            if {os.path.basename(d) for d in dirs if not c["in_place"]} - set(left):
                raise Violation("--leak-dirs, but a scratch directory is gone", run=o.run.brief())
            for n in left:
                got = core.snapshot(os.path.join(box.tmp, n), ignore=("target",))
                d = core.snap_diff(o.before, got)
                if d and os.path.join(os.path.realpath(box.tmp), n) in dirs:
                    raise Violation("a leaked scratch directory is not the original tree: %s" % d[:4], run=o.run.brief())
                ctx.count("leaked_trees_compared")
        ctx.saw("nontrivial", (c["kind"], c["jobs"], c["leak"], c["in_place"], mx, o.run.rc, c.get("ops", "") if c["kind"] == "fault" else c.get("ends") or "", " ".join(c["opt"])))
        ctx.sample({"case": c["name"], "jobs": c["jobs"], "most_at_once": mx, "left": len(left), "rc": o.run.rc})
