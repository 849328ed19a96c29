"""C23: cargo is run with the arguments and environment the user asked for."""
import collections
import json
import os

from .. import lab, proj
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: argument vector, working directory and environment recorded inside every cargo process, compared with those the options mean"
RULE = "one evaluation is one run; non-trivial elements are distinct (phase, tool, kinds of options given and where, lint capping, RUSTFLAGS form) of judged cargo processes"
ASSUMPTIONS = ["environment values are UTF-8", "RUSTFLAGS means what cargo takes it to mean: split at spaces, each part trimmed"]


def cases(rng, tier):
    n = 600 if tier == "quick" else 6000
    return [{"name": "args%d" % k, "jobs": rng.choice([1, 1, 2]), "check": rng.random() < 0.25, "nextest": rng.choice([None, None, "cli", "cfg", "both"]), "profile": rng.choice([None, None, "cli", "cfg", "both"]), "extra": rng.choice([0, 1, 2]), "skipbase": rng.random() < 0.2, "inplace": rng.random() < 0.15, "cap": rng.choice([None, None, "cli", "cfg", "clifalse", "both"]), "flags": rng.choice(["none", "none", "plain", "multi", "spaces", "empty", "encoded", "encempty", "both", "ws"])} for k in range(n)]


ARGS = ["--release", "--quiet", "--locked", "--offline", "--config=net.retry=3", "-Zunstable", "--target-dir=/tmp/x y", "--message-format=json", "--ignore-rust-version", "--features=sub/é", "-j3", "--color=never", "--no-default-features", "--package=other", "+x", "plain word", "--timings", "a=b,c=d", "--", "-v", "$HOME", "`x`", "*", "\"q\"", "'s'", "\\"]
TARGS = ["--lib", "--doc", "--test", "it", "--no-fail-fast", "some_test", "--", "--nocapture", "--test-threads=1", "--skip", "x y", "--ignored", "--exact", "é", "-q", "--", "", "--bins"]


def run(ctx, c, rng):
    tree = proj.pkg(rng, 3, 1, kinds=["bool", "unit", "op"])
    cfg, args = [], ["--jobs", str(c["jobs"])] if not c["inplace"] else ["--in-place"]
    kinds = set()
    # tool
    tool = "cargo"
    if c["nextest"] in ("cli", "both"):
        tool = "nextest"
        args += rng.choice([["--test-tool=nextest"], ["--test-tool", "nextest"]])
        if c["nextest"] == "both":
            cfg.append('test_tool = "cargo"')
    elif c["nextest"] == "cfg":
        tool = "nextest"
        cfg.append('test_tool = "nextest"')
    # profile
    prof = None
    if c["profile"] in ("cfg", "both"):
        prof = rng.choice(["mutants", "release", "dev"])
        cfg.append("profile = '%s'" % prof)
    if c["profile"] in ("cli", "both"):
        prof = rng.choice(["mutants", "bench", "x-y_z"])
        args += rng.choice([["--profile", prof], ["--profile=" + prof]])
    if prof:
        kinds.add("profile")
    # additional args
    j = json.dumps
    ca = [rng.choice(ARGS[:-12] + ARGS[-12:-8]) if rng.random() < 0.7 else rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 3]))] if c["extra"] else []
    ca = [x for x in ca if x != "--"]
    for x in ca:
        args += rng.choice([["--cargo-arg=" + x], ["-C" + x] if x and not x.startswith("=") else ["--cargo-arg=" + x], ["--cargo-arg", x]])
    cc = [x for x in rng.sample(ARGS, rng.choice([0, 1, 3])) if x != "--"] if c["extra"] > 1 or rng.random() < 0.3 else []
    if cc:
        cfg.append("additional_cargo_args = [%s]" % ", ".join(map(j, cc)))
    tc = rng.sample(TARGS, rng.choice([0, 1, 4])) if rng.random() < 0.4 else []
    if tc:
        cfg.append("additional_cargo_test_args = [%s]" % ", ".join(map(j, tc)))
    tl = [rng.choice(TARGS) for _ in range(rng.choice([1, 2, 5]))] if rng.random() < 0.4 else []
    for k, v in (("cargo-arg", ca), ("cfg-arg", cc), ("test-arg", tl), ("cfg-test-arg", tc)):
        if v:
            kinds.add(k)
    # features
    feats = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2])):
            f = rng.choice(["f1", "f1,f2", "a/b f3", "é", ""])
            feats.append("--features=" + f)
            args.append("--features=" + f)
        kinds.add("features")
    for o in ("--no-default-features", "--all-features"):
        if rng.random() < 0.2:
            args.append(o)
            feats.append(o)
            kinds.add(o)
    # lints
    cap = False
    if c["cap"] in ("cfg", "clifalse"):
        cfg.append("cap_lints = true")
        cap = True
    if c["cap"] == "both":
        cfg.append("cap_lints = false")
    if c["cap"] in ("cli", "both"):
        args.append("--cap-lints=true")
        cap = True
    if c["cap"] == "clifalse":
        args.append("--cap-lints=false")
        cap = False
    env = {}
    words = lambda: rng.sample(["-Copt-level=1", "-Dwarnings", "--cfg", "foo", "-Clink-arg=-fuse-ld=mold", "--cap-lints=deny", "-D", "warnings", "--cfg=feature=\"std\"", "\"-Copt-level=2\"", "'-Cdebuginfo=1'", "-Clink-arg=\\", "--cfg=a,b"], rng.choice([1, 2, 4]))
    f = c["flags"]
    old_enc, old_rf = None, None
    if f == "plain":
        old_rf = words()[0]
    elif f == "multi":
        old_rf = " ".join(words())
    elif f == "spaces":
        old_rf = "  " + "   ".join(words()) + " "
    elif f == "ws":
        old_rf = " ".join(words()) + rng.choice(["\n", "\t", " \n "])
    elif f == "empty":
        old_rf = ""
    elif f == "encoded":
        old_enc = "\x1f".join(words() + ["--cfg=a b"])
    elif f == "encempty":
        old_enc, old_rf = "", "-Dnot-used"
    elif f == "both":
        old_enc, old_rf = "\x1f".join(words()), "-Dnot-used"
    if old_rf is not None:
        env["RUSTFLAGS"] = old_rf
    if old_enc is not None:
        env["CARGO_ENCODED_RUSTFLAGS"] = old_enc
    if cap:
        if old_enc is not None:
            enc = ([x for x in old_enc.split("\x1f")] if old_enc else []) + ["--cap-lints=warn"]
        elif old_rf is not None:
            enc = [x.strip() for x in old_rf.split(" ") if x.strip()] + ["--cap-lints=warn"]
        else:
            enc = ["--cap-lints=warn"]
        enc = "\x1f".join(enc)
    else:
        enc = old_enc
    for k, v in (("SOME_VAR", "value é"), ("EMPTY", ""), ("INSTA_UPDATE", "always"), ("INSTA_FORCE_PASS", "1"), ("RUST_LOG", "off"), ("RUST_TEST_THREADS", "2"), ("CARGO_TARGET_X", "a=b\nc"), ("CARGO_BUILD_JOBS", "2"), ("RUST_BACKTRACE", "1"), ("MAKEFLAGS", "-k"), ("CARGO_INCREMENTAL", "0"), ("NO_COLOR", "1"), ("PROPTEST_CASES", "9"), ("CARGO_TARGET_DIR", "/tmp/no-such-target"), ("CARGO_BUILD_TARGET_DIR", "tgt"), ("CARGO_PROFILE_DEV_DEBUG", "0"), ("CARGO_NET_OFFLINE", "true"), ("NEXTEST_PROFILE", "ci"), ("RUSTDOCFLAGS", "-Dx"), ("CI", "true"), ("CARGO_TERM_COLOR", "always"), ("CARGO_TERM_QUIET", "true"), ("CARGO_MUTANTS_OTHER", "1"), ("TMP", "/x"), ("DATABASE_URL", "a://b?c='d'"), ("TZ", "Asia/Tokyo"), ("RUSTUP_HOME_X", "y"), ("CLICOLOR_FORCE", "1"), ("DISPLAY", ":0"), ("SSH_AUTH_SOCK", "/nope"), ("XDG_CACHE_HOME", "/nope")):
        if rng.random() < 0.3:
            env[k] = v
    js = True
    if rng.random() < 0.3:
        js = False
        args.append("--jobserver=false")
    if c["check"]:
        args.append("--check")
    if c["skipbase"]:
        args.append("--baseline=skip")
    if rng.random() < 0.2:
        args.append("--no-times")
    rng.shuffle(cfg)
    if cfg:
        tree[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
    # keep pairs together: options go in as generated, then the rest after --
    if tl:
        args += ["--"] + tl
    with ctx.box(tree) as box:
        if rng.random() < 0.2:
            # cargo is somewhere else
            d = os.path.join(box.dir, rng.choice(["my tools", "été", "a'b", "x;y", "$d", "bin"]))
            os.makedirs(d)
            env["CARGO"] = os.path.join(d, rng.choice(["cargo", "cargo", "cargo 1.99", "my-cargo"]))
            os.symlink(box.env({})["CARGO"], env["CARGO"])
        r = box.run(args, plan=["env", "rule test mut exit=101", "rule * * exit=0"], env=env).finish()
        if r.hung or r.panicked or r.rc != 0:
            raise Violation("the program failed with valid options", run=r.brief(), config=cfg)
        sent = box.env(env)
        n = 0
        phases = collections.Counter()
        for e in r.events:
            if e["ev"] != "start":
                continue
            n += 1
            av = e["argv"]
            ph = e["phase"]
            phases[ph] += 1
            what = "cargo " + " ".join(av[1:])
            if av[0] != sent["CARGO"]:
                raise Violation("%r was run, not $CARGO" % av[0], run=r.brief())
            head = {"check": ["check"], "build": ["test"] if tool == "cargo" else ["nextest", "run"], "test": ["test"] if tool == "cargo" else ["nextest", "run"]}[ph]
            flag = {"check": ["--tests"], "build": ["--no-run"], "test": []}[ph]
            tail = ca + cc + (tl + tc if ph == "test" else [])
            mid = flag + ["--verbose", "--package=pkg@0.1.0"] + feats
            if prof:
                mid.append(("--cargo-profile=" if tool == "nextest" and ph != "check" else "--profile=") + prof)
            rest = av[1 + len(head):]
            if av[1 : 1 + len(head)] != head:
                raise Violation("%s: the %s command should begin with %s" % (what, ph, head), run=r.brief(), config=cfg)
            got_tail = rest[len(rest) - len(tail):] if tail else []
            if got_tail != tail:
                raise Violation("%s: the additional arguments of a %s command should be %s" % (what, ph, tail), argv=av, run=r.brief(), config=cfg)
            got_mid = rest[: len(rest) - len(tail)]
            if collections.Counter(got_mid) != collections.Counter(mid):
                raise Violation("%s: missing %s, unexpected %s in a %s command" % (what, sorted((collections.Counter(mid) - collections.Counter(got_mid)).elements()), sorted((collections.Counter(got_mid) - collections.Counter(mid)).elements()), ph), argv=av, run=r.brief(), config=cfg)
            ge = dict(e["env"])
            ex = dict(sent, INSTA_UPDATE="no", INSTA_FORCE_PASS="0")
            if enc is not None:
                ex["CARGO_ENCODED_RUSTFLAGS"] = enc
            for k in ("PWD", "OLDPWD", "_", "SHLVL"):
                ge.pop(k, None)
                ex.pop(k, None)
            for k in [k for k in ge if k.startswith("VM_")] + ["VM_DIR", "LD_PRELOAD"]:
                ge.pop(k, None)
                ex.pop(k, None)
            for k in [k for k in ex if k.startswith("VM_")]:
                ex.pop(k)
            if js:
                # the variables that describe a jobserver are replaced by those of the program's own
                ms = [ge.pop(k, None) for k in ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS")]
                for k in ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS"):
                    ex.pop(k, None)
                if not any(m and "--jobserver" in m for m in ms):
                    raise Violation("no jobserver in the environment of cargo", run=r.brief())
            for k in sorted(set(ge) | set(ex)):
                if ge.get(k) != ex.get(k):
                    raise Violation("environment variable %s is %r in a %s command, it should be %r" % (k, ge.get(k), ph, ex.get(k)), run=r.brief(), config=cfg)
            if (os.path.realpath(e["cwd"]) == os.path.realpath(box.src)) != c["inplace"]:
                raise Violation("cargo was run in %s" % e["cwd"], run=r.brief())
            ctx.count("commands_judged")
            ctx.saw("nontrivial", (ph, tool, tuple(sorted(kinds)), cap, f if cap else None, js))
        exp = {"check"} if c["check"] else {"build", "test"}
        if set(phases) != exp:
            raise Violation("phases run were %s, expected %s" % (sorted(phases), sorted(exp)), run=r.brief())
        if (n // len(exp)) < 2:
            raise HarnessError("too few commands: %s" % r.brief())
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "args": args, "config": cfg, "commands": n})
