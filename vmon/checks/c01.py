"""C01: without --in-place the source tree is never modified, not even temporarily."""
import os
import signal

from .. import core, lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: tree snapshots at every cargo invocation and a system-call monitor (LD_PRELOAD), with injected faults and signals"
RULE = "one evaluation is one run of the program on a generated tree; non-trivial if at least one source snapshot was compared, distinct by (tree features, options, fault or signal, exit code)"
ASSUMPTIONS = ["writes by cargo itself are not the program's", "file system calls go through libc, where the monitor sees them; the snapshots do not depend on that"]


def cases(rng, tier):
    out = []
    n = 120 if tier == "quick" else 900
    for k in range(n):
        out.append({
            "name": "run%d" % k, "kind": "run", "jobs": rng.choice([1, 1, 2, 4]), "nmut": rng.choice([2, 4, 8]),
            "links": ["abs_file", "abs_dir", "rel_file", "self_up", "abs_manifest", "hard", "out_file", "abs_config", "up_config"][k // 2 % 9] if k % 2 == 0 else None,
            "opt": rng.choice([[], [], ["--check"], ["--baseline=skip"], ["--copy-vcs=true"], ["--gitignore=false"], ["--leak-dirs"], ["--shuffle"], ["--test-tool=nextest"], ["--iterate"], ["--output", "OUT"], ["--cap-lints=true"], ["--test-workspace=true"]]),
            "base": rng.choice(["exit=0"] * 5 + ["exit=1", "hang"]), "hang": rng.choice([0, 0, 1]),
            "git": rng.random() < 0.3, "sub": rng.random() < 0.2, "ro": rng.random() < 0.3, "crlf": rng.random() < 0.2, "cwd_in": rng.random() < 0.3,
        })
    ops = ["create", "trunc", "write", "openw", "unlinkat,unlink", "mkdir,mkdirat", "symlink", "fchmod,chmod", "rename", "copy_file_range"]
    m = 70 if tier == "quick" else 2000
    for k in range(m):
        out.append({"name": "fault%d" % k, "kind": "fault", "jobs": rng.choice([1, 2]), "ops": rng.choice(ops), "nth": rng.choice([1, 2, 3, 5, 8, 13, 21]), "what": rng.choice(["e28", "e13", "k", "K", "S2", "S15", "e5"])})
    m = 24 if tier == "quick" else 40
    for k in range(m):
        out.append({"name": "sig%d" % k, "kind": "sig", "jobs": rng.choice([1, 3]), "sig": rng.choice(["SIGINT", "SIGTERM", "SIGKILL", "SIGHUP"]), "at": rng.choice([0, 1, 2, 3, 5]), "phase": rng.choice(["build", "test"])})
    return out


def make_tree(c, rng):
    t = proj.pkg(rng, c.get("nmut", 4), rng.choice([1, 2, 3]), crlf=c.get("crlf", False))
    t.update(proj.extras(rng))
    if rng.random() < 0.15:
        proj.big(rng, t)
    if rng.random() < 0.5:
        t[".cargo/config.toml"] = 'paths = ["../elsewhere"]\n[build]\njobs = 1\n'
    if c.get("ro"):
        t["src/lib.rs"] = {"data": t["src/lib.rs"], "mode": 0o444}
    return t


def add_links(box, kind, rng):
    s = box.src
    lib = os.path.join(s, "src/lib.rs")
    with open(lib) as f:
        text = f.read()
    fn = "pub fn linked(a: i32) -> i32 {\n    a + 1\n}\n"
    if kind == "abs_file":
        os.makedirs(os.path.join(s, "real"))
        open(os.path.join(s, "real/x.rs"), "w").write(fn)
        os.symlink(os.path.join(s, "real/x.rs"), os.path.join(s, "src/lnk.rs"))
    elif kind == "abs_dir":
        os.makedirs(os.path.join(s, "realdir"))
        open(os.path.join(s, "realdir/mod.rs"), "w").write(fn)
        os.symlink(os.path.join(s, "realdir"), os.path.join(s, "src/lnk"))
    elif kind == "rel_file":
        os.makedirs(os.path.join(s, "real"))
        open(os.path.join(s, "real/x.rs"), "w").write(fn)
        os.symlink("../real/x.rs", os.path.join(s, "src/lnk.rs"))
    elif kind == "self_up":
        os.symlink("..", os.path.join(s, "src/up"))
        open(os.path.join(s, "src/lnk.rs"), "w").write(fn)
    elif kind == "abs_manifest":
        m = os.path.join(s, "Cargo.toml")
        body = open(m).read() + '\n[dependencies]\ndep = { path = "../dep" }\n'
        os.makedirs(os.path.join(s, "manifests"))
        open(os.path.join(s, "manifests/Cargo.toml.in"), "w").write(body)
        os.unlink(m)
        os.symlink(os.path.join(s, "manifests/Cargo.toml.in"), m)
        core.write_tree(os.path.join(box.dir, "dep"), {"Cargo.toml": proj.manifest("dep"), "src/lib.rs": ""})
        open(os.path.join(s, "src/lnk.rs"), "w").write(fn)
    elif kind in ("abs_config", "up_config"):
        # the config that cargo reads has to be rewritten in the copy, but not through the link
        p = os.path.join(s, ".cargo", rng.choice(["config.toml", "config"]))
        for q in ("config.toml", "config"):
            if os.path.exists(os.path.join(s, ".cargo", q)):
                os.unlink(os.path.join(s, ".cargo", q))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        d = os.path.join(s, "conf") if kind == "abs_config" else os.path.join(box.dir, "outside")
        core.write_tree(d, {"cargo.toml": 'paths = ["../dep"]\n[build]\njobs = 1\n'})
        os.symlink(os.path.join(d, "cargo.toml") if kind == "abs_config" else os.path.relpath(d, os.path.dirname(p)) + "/cargo.toml", p)
        core.write_tree(os.path.join(box.dir, "dep"), {"Cargo.toml": proj.manifest("dep"), "src/lib.rs": ""})
        open(os.path.join(s, "src/lnk.rs"), "w").write(fn)
    elif kind == "hard":
        open(os.path.join(s, "src/lnk.rs"), "w").write(fn)
        os.link(os.path.join(s, "src/lnk.rs"), os.path.join(s, "twin.rs"))
    elif kind == "out_file":
        core.write_tree(os.path.join(box.dir, "outside"), {"o.rs": fn})
        os.symlink(os.path.join(box.dir, "outside/o.rs"), os.path.join(s, "src/lnk.rs"))
    if kind and "mod lnk;" not in text:
        mode = os.stat(lib).st_mode
        os.chmod(lib, 0o644)
        open(lib, "w").write("mod lnk;\n" + text)
        os.chmod(lib, mode & 0o7777)


def judge(ctx, c, o, box, outside):
    lab.mon_source(ctx, o)
    for p, snap in outside.items():
        d = core.snap_diff(snap, core.snapshot(p))
        if d:
            raise Violation("files outside of the scratch copy changed: %s %s" % (p, d), run=o.run.brief())
    ctx.saw("nontrivial", (c["kind"], c.get("links") or "", " ".join(c.get("opt", [])), c.get("ops", ""), c.get("what", ""), c.get("sig", ""), o.run.rc, min(len(o.invs), 5)))
    ctx.count("invocations", len(o.invs))
    ctx.sample({"case": c["name"], "links": c.get("links"), "rc": o.run.rc, "invocations": len(o.invs), "calls_watched": len(o.run.prelines())})


def run(ctx, c, rng):
    with ctx.box(make_tree(c, rng)) as box:
        if c.get("links"):
            add_links(box, c["links"], rng)
        if c.get("git"):
            core.write_tree(box.src, {".git/HEAD": "ref: refs/heads/main\n", ".git/config": "", ".git/objects/x": "1", ".gitignore": "/target\n*.tmp\n", "a.tmp": "x"})
        outside = {p: core.snapshot(p) for p in (os.path.join(box.dir, "dep"), os.path.join(box.dir, "outside"), box.home) if os.path.isdir(p)}
        args = ["--jobs", str(c["jobs"]), "--timeout", "1.5", "--build-timeout", "1.5"]
        opt = list(c.get("opt", []))
        if "OUT" in opt:
            opt[opt.index("OUT")] = os.path.join(box.dir, "outdir")
        args += opt
        seed = rng.randrange(1 << 30)
        plan = lab.plan_mix(rng, seed, hang=c.get("hang", 0), bhang=c.get("hang", 0), base=c.get("base", "exit=0"))
        pre = {}
        started = None
        if c["kind"] == "fault":
            pre["fault"] = "%s:/:%d:%s" % (c["ops"], c["nth"], c["what"])
        if c["kind"] == "sig":
            plan = ["rule * base exit=0", "rule test mut sleep=150;exit=1", "rule build mut sleep=150;exit=0"]

            def started(r):
                for _ in range(2000):
                    n = [e for e in r.read_events() if e["ev"] == "start"]
                    if len(n) > c["at"] or r.p.poll() is not None:
                        break
                    __import__("time").sleep(0.003)
                r.signal(getattr(signal, c["sig"]))

        kw = {}
        if c.get("cwd_in"):
            kw = {"cwd": os.path.join(box.src, "src"), "dir_arg": False}
        # watch the source while the program runs, as well as at each cargo invocation
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False, strict=False, timeout=40, pre=pre, started=started, **kw)
        if o.run.hung:
            ctx.skip("the program did not finish: " + c["name"])
        judge(ctx, c, o, box, outside)
        if c["kind"] == "run" and not c.get("links") and not o.invs and "--iterate" not in opt:
            raise core.HarnessError("nothing was observed: %s" % o.run.brief())
