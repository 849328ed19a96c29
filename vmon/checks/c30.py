"""C30: bad input is refused cleanly before anything is tested."""
import os

from .. import core, proj, syn
from ..core import HarnessError, Violation
from . import c25

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring of the real binary on invalid and mutated inputs: exit code, stderr, signals, child processes and file effects judged for every run"
RULE = "one evaluation is one run on bad or arbitrary input; non-trivial elements are distinct (kind of bad input, position among other options, list or run, refused or handled)"
ASSUMPTIONS = ["source text is nested less than 100 levels deep (the parser is recursive, as rustc's is)"]

BADARGS = [
    ["--no-such-option"], ["-q"], ["positional"], ["--list=x"], ["--jobs=abc"], ["--jobs=-1"], ["--jobs", ""], ["-j", "1.5"], ["--jobs=99999999999999999999999"], ["--shard=0/0"], ["--shard=3/3"], ["--shard=4/3"], ["--shard=1"], ["--shard=a/b"],
    ["--shard=1/2/3"], ["--shard=-1/2"], ["--shard="], ["--shard=1/"], ["--shard=/2"], ["--shard=1/-2"], ["--shard", "0.5/2"], ["--shard=18446744073709551616/2"], ["--re=("], ["--re=[a"], ["-F*"], ["--exclude-re=(?P<"], ["-E", "a{2,1}"], ["--re=\\"],
    ["--file=["], ["-f", "a{b"], ["--exclude=[z-a]"], ["-e", "{"], ["--error=1 +"], ["--error="], ["--error=)("], ["--error=let x"], ["--baseline=maybe"], ["--baseline"], ["--test-tool=make"], ["--test-tool="], ["--level=loud"], ["--colors=red"], ["--timeout=abc"], ["--timeout=-1"],
    ["--timeout=nan"], ["--timeout=1e40"], ["-t", ""], ["--timeout=inf"], ["--minimum-test-timeout=-5"], ["--minimum-test-timeout=x"], ["--minimum-test-timeout=inf"], ["--build-timeout=-2"], ["--build-timeout=NaN"], ["--timeout-multiplier=-1"], ["--timeout-multiplier=nan"],
    ["--timeout-multiplier=inf"], ["--build-timeout-multiplier=-3"], ["--build-timeout-multiplier=x"], ["--timeout=3", "--timeout-multiplier=2"], ["--build-timeout=3", "--build-timeout-multiplier=2"], ["--in-place", "--jobs=2"], ["--in-place", "--gitignore=false"], ["--in-place", "--no-copy-target"],
    ["--jobserver=perhaps"], ["--jobserver-tasks=x"], ["--gitignore=2"], ["--copy-vcs=no way"], ["--cap-lints=1"], ["--line-col=x"], ["--skip-calls-defaults=q"], ["--test-workspace=x"], ["--dir"], ["--manifest-path=@SRC@/nope/Cargo.toml", "@NODIR@"], ["--manifest-path=@SRC@", "@NODIR@"],
    ["--manifest-path=@SRC@/Cargo.toml"], ["--in-diff=@DIR@/nope.diff"], ["--in-diff=@DIR@"], ["--in-diff=@DIR@/garbage.diff"], ["--in-diff=@DIR@/bytes.diff"], ["--in-diff=@DIR@/mismatch.diff"], ["--in-diff="], ["--features"], ["--profile"], ["--completions=tcsh"], ["--output"], ["-o", "@SRC@/Cargo.toml"],
    ["--list", "--list"], ["--timeout=1", "--timeout=2"], ["--iterate=yes"], ["--package"], ["-d", "@DIR@/nope", "@NODIR@"], ["-d", "@SRC@/Cargo.toml", "@NODIR@"], ["-d", "@DIR@/empty", "@NODIR@"], ["-d", "", "@NODIR@"], ["--dir=@SRC@\n", "@NODIR@"],
]
BADENV = [{"CARGO_MUTANTS_JOBS": "abc"}, {"CARGO_MUTANTS_JOBS": "-2"}, {"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": "x"}, {"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": "-1"}, {"CARGO_MUTANTS_TRACE_LEVEL": "zzz"}, {"CARGO": "/no/such/cargo"}]
BADTREE = [
    ("no-manifest", {"src/lib.rs": "pub fn a() {}\n"}), ("empty", {"x": ""}), ("bad-toml", {"Cargo.toml": "[package\nname"}), ("no-section", {"Cargo.toml": "[dependencies]\n"}), ("no-name", {"Cargo.toml": "[package]\nversion = '1'\n", "src/lib.rs": ""}),
    ("bad-version", {"Cargo.toml": "[package]\nname = 'a'\nversion = 'x.y'\n", "src/lib.rs": ""}), ("no-target", {"Cargo.toml": proj.manifest()}), ("missing-member", {"Cargo.toml": "[workspace]\nmembers = ['a', 'b']\n", "a/Cargo.toml": proj.manifest("a"), "a/src/lib.rs": ""}),
    ("bytes-manifest", {"Cargo.toml": {"hex": "fffe5b00"}}), ("manifest-dir", {"Cargo.toml/x": "1"}), ("bad-target-path", {"Cargo.toml": proj.manifest(extra="[lib]\npath = 'nope.rs'\n")}), ("dup-names", {"Cargo.toml": "[workspace]\nmembers = ['a', 'b']\n", "a/Cargo.toml": proj.manifest("a"), "a/src/lib.rs": "", "b/Cargo.toml": proj.manifest("a"), "b/src/lib.rs": ""}),
    ("not-in-workspace", {"Cargo.toml": "[workspace]\nmembers = ['a']\n", "a/Cargo.toml": proj.manifest("a"), "a/src/lib.rs": "", "@start": "b", "b/Cargo.toml": proj.manifest("b"), "b/src/lib.rs": "pub fn x() {y()}"}),
]
GOOD = [["--no-shuffle"], ["-v"], ["--caught"], ["-V"], ["--all-logs"], ["--leak-dirs"], ["--no-times"], ["--error=X"], ["-F", "replace|delete"], ["-E", "zzz"], ["-f", "*.rs"], ["--test-workspace=true"], ["--cap-lints=true"], ["--profile=dev"], ["--no-config"], ["--diff"], ["--json"], ["--workspace"], ["--skip-calls=foo"]]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for rep in range(2 if q else 12):
        for k, b in enumerate(BADARGS):
            out.append({"name": "arg%d-%d" % (k, rep), "what": "arg", "bad": b})
    for k, e in enumerate(BADENV * (2 if q else 6)):
        out.append({"name": "env%d" % k, "what": "env", "env": e})
    for rep in range(2 if q else 4):
        for n, t in BADTREE:
            out.append({"name": "tree-%s-%d" % (n, rep), "what": "tree", "tree": t})
    for k, b in enumerate(c25.BAD):
        out.append({"name": "badcfg%d" % k, "what": "badcfg", "text": rng.choice(["", "", "profile = 'dev'\n" if "profile" not in b else "", "# filler\n" * rng.choice([500, 20000])]) + b})
    for what, n in (("source", 600), ("diff", 250), ("config", 150), ("modules", 60), ("history", 60)):
        out += [{"name": "%s%d" % (what, k), "what": what} for k in range(n if q else n * 15)]
    for k, e in enumerate(EXTREME * (2 if q else 10)):
        out.append({"name": "extreme%d" % k, "what": "extreme", "args": e})
    rng.shuffle(out)
    return out


# values at the edges of what is allowed: the run has to go through, whatever is made of them
EXTREME = [
    ["--timeout-multiplier=1e300"], ["--timeout-multiplier=1e18"], ["--build-timeout-multiplier=1e300"], ["--build-timeout-multiplier=1e19", "--timeout-multiplier=1e-300"], ["--timeout-multiplier=0"], ["--timeout-multiplier=0", "--minimum-test-timeout=0.9"], ["--minimum-test-timeout=1e15"], ["--minimum-test-timeout=1.8e19"],
    ["--timeout=1e15"], ["--timeout=1.8e19"], ["--timeout=9.3e18", "--build-timeout=9.3e18"], ["--build-timeout=1e18"], ["--build-timeout=1.8e19"], ["--timeout=1e9", "--baseline=skip"], ["--timeout=1e18", "--baseline=skip", "--build-timeout=1e18"], ["--timeout-multiplier=1.7976931348623157e308", "--jobs=3"],
    ["--jobs=120"], ["--jobserver-tasks=5000"], ["--jobs=3", "--jobserver-tasks=1"], ["--shard=0/18446744073709551615"], ["--shard=18446744073709551614/18446744073709551615"], ["--re=" + ".*" * 200], ["--re=" + "(a|b)" * 300], ["--exclude-re=zz{1,200}"], ["-f", "**/" * 60 + "*.rs"], ["-e", "{" + ",".join("x%d" % i for i in range(300)) + "}"],
    ["--error=" + "(" * 60 + "1" + ")" * 60], [x for i in range(80) for x in ("--error", "E%d" % i)], ["--features=" + "f" * 5000], ["--profile=" + "p" * 200], ["--cargo-arg=" + "x" * 50000], ["--re=" + "x" * 20000], ["--test-package=" + "q" * 3000],
    ["--", "--"], ["--", "\u00e9" * 3000], ["--skip-calls=" + "," * 500], ["--skip-calls=\u00e9::<>"], ["-o", "@DIR@/a/b/c/d/e"], ["--colors=always", "-L", "debug"], ["-L", "trace"],
]


TOKENS = [b"{", b"}", b"(", b")", b"[", b"]", b"\"", b"'", b"/*", b"*/", b"//", b"r#\"", b"#", b"!", b"\x00", b"\xff", b"\xc3", b"\xe2\x80\xa8", b"\r", b"\r\n", b"\n", b"\t", b"\xef\xbb\xbf", b"fn ", b"impl ", b"mod x {", b"->", b"=>", b"match ", b"if ", b"&&", b"||", b"<", b">", b"'a", b"async ", b"unsafe ", b"const ", b"macro_rules! m {", b"#![cfg(test)]", b"#[test]", b"#[mutants::skip]", b"#[path=\"x\"]", b"1e999", b"0xffffffffffffffffffffffff", b"b'\\xff'", b"..=", b"?", b"@", b"$", b"\\", b"dyn ", b"where ", b"-", b"@@ -1 +1 @@\n", b"+++ b/src/lib.rs\n", b"--- a/x\n", b"@@ -1,9999999999999999999 +1,1 @@\n", b"\\ No newline at end of file\n", b"GIT binary patch\n", b"rename from x\n", b"+", b"= [", b"= '", b"inf", b"nan", b"'''", b"[[x]]\n"]


def fuzz(rng, data, n=None):
    b = bytearray(data)
    for _ in range(n or rng.choice([1, 1, 2, 4, 10])):
        k = rng.randrange(7)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] = rng.randrange(256)
        elif k == 1:
            j = min(len(b), i + rng.choice([1, 1, 3, 20]))
            del b[i:j]
        elif k in (2, 3):
            b[i:i] = rng.choice(TOKENS)
        elif k == 4:
            j = min(len(b), i + rng.choice([1, 10, 80]))
            b[i:i] = b[i:j] * rng.choice([1, 2, 5])
        elif k == 5:
            del b[i:]
        else:
            j = rng.randrange(len(b) + 1)
            i, j = min(i, j), max(i, j)
            b[i:j] = b[i:j][::-1] if rng.random() < 0.2 else b[j : j + (j - i)]
    return bytes(b)


OLD = {"mutants.out/outcomes.json": "old", "mutants.out/lock.json": "{}", "mutants.out/caught.txt": "x\n", "mutants.out/missed.txt": "", "mutants.out/unviable.txt": "", "mutants.out.old/outcomes.json": "older"}


def judge(ctx, c, box, r, must_fail, before, kind, ignore=()):
    ev = [e for e in r.events if e["ev"] == "start"]
    if r.hung:
        raise Violation("the program did not finish on bad input", run=r.brief())
    if r.panicked or r.rc is None or r.rc < 0 or r.rc not in (0, 1, 2, 3, 4):
        raise Violation("the program crashed (exit code %s)" % r.rc, run=r.brief())
    if must_fail and r.rc != 1:
        raise Violation("invalid input was not refused: exit code %s" % r.rc, run=r.brief())
    if r.rc == 1:
        if ev:
            raise Violation("cargo %s was run although the input is refused" % " ".join(ev[0]["argv"][1:]), run=r.brief())
        if not r.stderr.strip():
            raise Violation("no error message on stderr", run=r.brief())
        after = core.snapshot(box.src, ignore)
        d = core.snap_diff(before, after)
        if d:
            raise Violation("files changed although the input is refused: %s" % d[:4], run=r.brief())
        if os.listdir(box.tmp):
            raise Violation("scratch files left although the input is refused: %s" % os.listdir(box.tmp), run=r.brief())
    ctx.count("evaluations")
    ctx.count("refused" if r.rc == 1 else "handled")
    ctx.saw("nontrivial", (c["what"], kind, r.rc == 1))
    if must_fail or c["index"] % 40 == 0:
        ctx.sample({"case": c["name"], "argv": r.argv[1:], "rc": r.rc, "stderr": r.stderr[-160:]})


def run(ctx, c, rng):
    what = c["what"]
    mode = rng.choice([[], ["--list"], ["--list", "--json"]]) if rng.random() < 0.6 else []
    plan = ["rule test mut exit=101", "rule * * exit=0"]
    good = lambda k: [x for g in rng.sample(GOOD, k) for x in g]
    if what in ("arg", "env"):
        tree = proj.pkg(rng, 4, 1)
        lib = tree["src/lib.rs"]
        if rng.random() < 0.7:
            tree.update(OLD)
        with ctx.box(tree) as box:
            os.makedirs(os.path.join(box.dir, "empty"))
            w = lambda n, t: open(os.path.join(box.dir, n), "wb").write(t)
            w("garbage.diff", b"this is not a diff\nat all\n")
            w("bytes.diff", b"\xff\xfe--\x80 a/x\n\x00++ b/x\n")
            l1 = lib.split("\n")[0]
            w("mismatch.diff", ("--- a/src/lib.rs\n+++ b/src/lib.rs\n@@ -1,1 +1,1 @@\n-old\n+%s altered\n" % l1).encode())
            before = core.snapshot(box.src, ())
            if what == "env":
                args, env, nodir = good(rng.choice([0, 2])) + mode, c["env"], False
            else:
                bad = [x.replace("@SRC@", box.src).replace("@DIR@", box.dir) for x in c["bad"] if x != "@NODIR@"]
                nodir = "@NODIR@" in c["bad"]
                pre, post = good(rng.choice([0, 1, 3])), good(rng.choice([0, 2]))
                # the same option twice would be another error than the one meant
                pre = [] if set(pre) & set(post) else pre
                env = {}
                if c["bad"] == ["--list", "--list"]:
                    mode = []
                if bad[0] == "-o":
                    mode = []  # an output place that cannot be used is only an error of a run
                last = bad[-1] in ("--dir", "--features", "--profile", "--output", "--package", "--baseline")
                args = pre + post + mode + bad if last else pre + bad + post + mode
            r = box.run(args, plan=plan, env=env, dir_arg=not nodir, cwd=box.dir).finish()
            judge(ctx, c, box, r, True, before, c["name"].split("-")[0])
    elif what == "tree":
        tree = dict(c["tree"])
        start = tree.pop("@start", "")
        tree.update({k: v for k, v in OLD.items()} if rng.random() < 0.6 else {})
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            r = box.run(good(rng.choice([0, 2])) + mode, plan=plan, dir_arg=False, cwd=os.path.join(box.src, start)).finish()
            judge(ctx, c, box, r, True, before, c["name"])
    elif what == "extreme":
        tree = dict(proj.pkg(rng, 3, 1), **OLD)
        with ctx.box(tree) as box:
            os.makedirs(os.path.join(box.dir, "a/b/c/d"))
            before = core.snapshot(box.src, ())
            args = [a.replace("@DIR@", box.dir) for a in c["args"]]
            pre = [] if any(a.startswith("--profile") for a in args) else good(rng.choice([0, 1]))
            r = box.run(pre + args, plan=plan, timeout=60).finish()
            judge(ctx, c, box, r, False, before, c["name"].split("-")[0])
            if r.rc not in (0, 2, 3):
                raise Violation("a run with an allowed, extreme value ended with exit code %s" % r.rc, run=r.brief())
    elif what == "source":
        g = syn.project(rng, files=2, items=rng.choice([1, 3]), depth=2, crlf=0.2)
        tree = dict(g.tree, **OLD)
        f = rng.choice(["src/lib.rs", "src/m1.rs"])
        if rng.random() < 0.15:
            data = bytes(rng.choice([rng.randrange(256), 10, 40, 123]) for _ in range(rng.choice([0, 1, 10, 300])))
        elif rng.random() < 0.15:
            data = b"".join(rng.choice(TOKENS) + b" " for _ in range(rng.choice([3, 20, 60])))
        else:
            data = fuzz(rng, tree[f].encode())
        tree[f] = {"hex": data.hex()}
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            args = mode or rng.choice([[], ["--check"], ["--baseline=skip"]])
            if not mode:
                args = args + ["--shard=0/%d" % rng.choice([5, 9])]
            r = box.run(args, plan=plan).finish()
            judge(ctx, c, box, r, False, before, "fuzz")
    elif what == "diff":
        g = syn.project(rng, files=2, items=2, depth=1, crlf=0)
        tree = dict(g.tree, **OLD)
        d = b""
        for f in ("src/lib.rs", "src/m1.rs"):
            ls = g.text[f].split("\n")[:-1] or [""]
            h = "--- a/%s\n+++ b/%s\n" % (f, f)
            k = rng.randrange(len(ls))
            n = min(len(ls) - k, rng.choice([1, 4, 9]))
            h += "@@ -%d,%d +%d,%d @@ fn x\n" % (k + 1, n + 1, k + 1, n) + "-removed\n" + "".join(" " + l + "\n" for l in ls[k : k + n])
            d += (rng.choice(["diff --git a/%s b/%s\nindex 1..2 100644\n" % (f, f), ""]) + h).encode()
        d = fuzz(rng, d, rng.choice([1, 1, 2, 3, 8])) if rng.random() < 0.85 else bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 50])))
        with ctx.box(tree) as box:
            open(os.path.join(box.dir, "x.diff"), "wb").write(d)
            before = core.snapshot(box.src, ())
            r = box.run(["--in-diff", os.path.join(box.dir, "x.diff")] + mode, plan=plan).finish()
            judge(ctx, c, box, r, False, before, "fuzz")
    elif what == "badcfg":
        tree = dict(proj.pkg(rng, 3, 1), **OLD)
        tree[".cargo/mutants.toml"] = c["text"]
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            args = good(rng.choice([0, 2]))
            r = box.run([a for a in args if a != "--no-config"] + mode, plan=plan).finish()
            judge(ctx, c, box, r, True, before, c["name"])
    elif what == "config":
        tree = dict(proj.pkg(rng, 3, 1), **OLD)
        t = 'cap_lints = true\nexamine_re = ["a", "b.*c"]\nexclude_globs = ["src/x.rs", "**/{a,b}.rs"]\ntimeout_multiplier = 2.5\nminimum_test_timeout = 20\nprofile = "dev"\nerror_values = ["E::X"]\ntest_tool = "cargo"\nadditional_cargo_args = ["-q"]\n'
        tree[".cargo/mutants.toml"] = {"hex": (fuzz(rng, t.encode()) if rng.random() < 0.9 else bytes(rng.randrange(256) for _ in range(40))).hex()}
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            r = box.run(mode, plan=plan).finish()
            judge(ctx, c, box, r, False, before, "fuzz")
    elif what == "modules":
        # module declarations that point at odd places, including back at themselves
        tree = dict(proj.pkg(rng, 3, 3), **OLD)
        decl = lambda: rng.choice([
            "mod missing;\n", "#[path = \"m1.rs\"] mod again;\n", "#[path = \"lib.rs\"] mod me;\n", "#[path = \"../src/lib.rs\"] mod up;\n", "#[path = \"../../outside.rs\"] mod out;\n", "#[path = \"/abs/no.rs\"] mod abs;\n", "#[path = \"\"] mod empty;\n",
            "#[path = \"dir\"] mod isdir;\n", "#[path] mod nopath;\n", "#[path(\"x.rs\")] mod list;\n", "#[path = 3] mod num;\n", "mod m1;\n", "mod m2 { mod m1; }\n", "mod r#fn;\n", "#[path = \"\u00e9.rs\"] mod acc;\n", "#[path = \"m1.rs/\"] mod slash;\n", "#[path = concat!(\"a\", \"b\")] mod cc;\n", "#[path = \"a\\0b.rs\"] mod nul;\n", "mod deep { mod er { mod still; } }\n", "#[path = \"loop.rs\"] mod lp;\n", "mod link;\n", "mod nonutf;\n",
        ])
        for f in rng.sample([p for p in tree if p.endswith(".rs")], 2):
            tree[f] = "".join(decl() for _ in range(rng.choice([1, 2, 4]))) + tree[f]
        tree["src/dir/x"] = "1"
        tree["src/loop.rs"] = {"link": "loop.rs"}
        tree["src/link.rs"] = {"link": rng.choice(["m1.rs", "nowhere.rs", ".", "/dev/null"])}
        tree["src/nonutf.rs"] = {"hex": b"fn a() { \xff }".hex()}
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            r = box.run(mode, plan=plan, timeout=40).finish()
            judge(ctx, c, box, r, False, before, "modules")
    elif what == "history":
        # remains of earlier runs, damaged
        tree = dict(proj.pkg(rng, 4, 1), **OLD)
        n = rng.choice(["caught.txt", "unviable.txt", "previously_caught.txt", "outcomes.json", "lock.json", "mutants.json"])
        k = rng.randrange(4)
        p = "mutants.out/" + n
        if k == 0:
            tree[p] = {"hex": bytes(rng.randrange(256) for _ in range(60)).hex()}
        elif k == 1:
            tree.pop(p, None)
            tree[p + "/sub"] = "x"
        elif k == 2:
            tree[p] = {"link": "nowhere"}
        else:
            tree[p] = "src/lib.rs:1:1: replace\n" * 3 + "\r\n\n  \n\x00"
        if rng.random() < 0.2:
            for x in [x for x in tree if x.startswith("mutants.out/")]:
                del tree[x]
            tree["mutants.out"] = rng.choice(["a file", {"link": "nowhere"}])
        with ctx.box(tree) as box:
            before = core.snapshot(box.src, ())
            r = box.run(["--iterate"] * (rng.random() < 0.7) + mode, plan=plan, timeout=40).finish()
            # remains that cannot be used may be found out after they were moved aside
            judge(ctx, c, box, r, False, {k: v for k, v in before.items() if not k.startswith("mutants.out")}, "history", ignore=("mutants.out", "mutants.out.old"))
    else:
        raise HarnessError(what)
