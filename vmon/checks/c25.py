"""C25: the configuration file and the command line combine as documented."""
import collections
import json
import os
import re

from .. import core, proj, syn
from ..core import HarnessError, Violation
from . import c08, c17

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the effects of every setting (listing, child argv and environment, copied tree, place of the output, timeouts in virtual time) observed and compared with those the combination of config and command line means"
RULE = "one evaluation is one combination of settings in config, command line, both or neither; non-trivial elements are distinct (setting, where it was given, --no-config) with an observed effect, and distinct kinds of bad config refused"
ASSUMPTIONS = ["relative output directories are not generated in the config file"]
CONFIRM = {"time": 2}

SRC = {
    "src/lib.rs": "mod a;\nmod b;\npub fn res_one() -> Result<u8, E> {\n    go()\n}\npub fn plain_x(a: i32, b: i32) -> bool {\n    foo(a + b); bar(a * b);\n    Vec::with_capacity(a - b)\n}\n",
    "src/a.rs": "pub fn alpha() -> bool {\n    m.bar(x / y)\n}\nimpl S {\n    pub fn alpha_two(&self) -> Result<(), E> {\n        self.baz(x % y); foo(!q)\n    }\n}\n",
    "src/b.rs": "pub fn beta(a: u8) {\n    String::with_capacity(n << 2);\n    match a {\n        1 => foo(x | y),\n        _ => path::bar::<u8>(x & y),\n    }\n}\n",
}
RES = ["alpha", "beta", "Result", "replace .* with true", "lib.rs", ":3:", "with -> \\(\\)", "nothing matches", "plain_x$", "Err\\(", "one|two", "bool", "operator"]
GLOBS = ["src/a.rs", "src/b.rs", "*.rs", "a.rs", "lib.rs", "src/*.rs", "src/[ab].rs", "nosuch", "src/{a,lib}.rs", "src"]
ERRS = ["MyErr", "io::Error::Other", "\"text\"", "E2", "7"]
CALLS = ["foo", "bar", "baz", "qux", "with_capacity"]
# which calls hold which operator: (file, operator text) -> callee
OPS = {("src/lib.rs", "+"): "foo", ("src/lib.rs", "*"): "bar", ("src/lib.rs", "-"): "with_capacity", ("src/a.rs", "/"): "bar", ("src/a.rs", "%"): "baz", ("src/a.rs", "!"): "foo", ("src/b.rs", "<<"): "with_capacity", ("src/b.rs", "|"): "foo", ("src/b.rs", "&"): "bar"}

BAD = [
    "unknown_key = 1", "Timeout_multiplier = 2.0", "timeout = 3", "[section]\nx = 1", "jobs = 2", "exclude = ['x']", "error_value = ['x']", "examine_globs = 'src/a.rs'", "examine_globs = [1]",
    "exclude_globs = true", "exclude_re = 'x'", "examine_re = [['x']]", "error_values = 'E'", "additional_cargo_args = '--release'", "additional_cargo_test_args = [2]", "cap_lints = 'true'", "cap_lints = 1",
    "copy_vcs = 'yes'", "copy_vcs = []", "minimum_test_timeout = '20'", "minimum_test_timeout = true", "timeout_multiplier = '2'", "build_timeout_multiplier = [2]", "output = 3", "output = ['x']", "profile = true",
    "profile = ['dev']", "skip_calls = 'foo'", "skip_calls_defaults = 'no'", "skip_calls_defaults = 0", "test_package = 'p'", "test_package = true", "test_tool = 'make'", "test_tool = 1", "test_tool = 'Nextest'", "test_workspace = 'true'",
    "test_workspace = ['p']", "cap_lints = true\ncap_lints = false", "cap_lints = ", "= 3", "cap_lints true", "\"", "[", "profile = 'x", "examine_re = ['(']", "exclude_re = ['[']", "examine_globs = ['[']", "exclude_globs = ['a{b']",
    "error_values = ['1 +']", "error_values = ['']", "minimum_test_timeout = -1", "timeout_multiplier = -2.0", "build_timeout_multiplier = nan", "timeout_multiplier = inf", "profile = {a = 1}", "\ufeff\ufeffcap_lints = true", "cap_lints = true garbage", "\x00",
]


def cases(rng, tier):
    q = tier == "quick"
    out = []
    n = 300 if q else 3000
    for k in range(n):
        out.append({"name": "mix%d" % k, "what": "mix", "run": k % 2 == 0})
    for k, b in enumerate(BAD):
        out.append({"name": "bad%d" % k, "what": "bad", "text": b, "run": rng.random() < 0.5})
    out += [{"name": "bad-big%d" % k, "what": "bad", "text": "# filler\n" * (n // 9) + t, "run": True} for k, (n, t) in enumerate([(5000, "unknown_key = 1\n"), (70000, "cap_lints = 3\n"), (1 << 20, "profile = 'x\n")])]
    out += [{"name": "bad-bytes", "what": "bad", "text": None, "run": True}, {"name": "bad-dir", "what": "bad", "text": False, "run": True}]
    for k in range(20 if q else 200):
        out.append({"name": "badmix%d" % k, "what": "bad", "text": rng.choice(["cap_lints = true\n", "profile = 'x'\n", "test_tool = 'nextest'\n"]) + rng.choice(BAD), "run": rng.random() < 0.3})
    t = []

    def add(name, **k):
        d = {"name": "t-" + name, "what": "time", "kind": "time", "clock": 40, "args": [], "config": "", "env": {}, "base_test": 30, "base_build": 10, "jobs": 1}
        d.update(k)
        t.append(d)

    M = lambda: rng.choice([2, 3, 4])
    a, b = rng.sample([2, 3, 4, 6], 2)
    add("mult", want=("auto", 20, a), config="timeout_multiplier = %d\n" % a, base_test=400)
    add("mult-over", want=("auto", 20, a), config="timeout_multiplier = %d\n" % b, args=["--timeout-multiplier=%d" % a], base_test=500)
    add("mult-noconf", want=("auto", 20, 5), config="timeout_multiplier = 9\n", args=["--no-config"], base_test=250)
    a, b = rng.sample([25, 31, 38, 44.5], 2)
    add("min", want=("auto", a, 5), config="minimum_test_timeout = %s\n" % a)
    add("min-over", want=("auto", a, 5), config="minimum_test_timeout = %s\n" % b, args=["--minimum-test-timeout=%s" % a])
    add("min-env-over", want=("auto", a, 5), config="minimum_test_timeout = %s\n" % b, env={"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": str(a)})
    add("min-cli-env", want=("auto", a, 5), args=["--minimum-test-timeout=%s" % a], env={"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": str(b)})
    add("min-noconf", want=("auto", 20, 5), config="minimum_test_timeout = 50\n", args=["--no-config"])
    add("both-keys", want=("auto", 30, 3), config="minimum_test_timeout = 30\ntimeout_multiplier = 3\nbuild_timeout_multiplier = 50\n", base_test=350)
    a, b = rng.sample([2, 3, 4.5], 2)
    add("build", build=("mult", a), config="build_timeout_multiplier = %s\n" % a, base_build=400, clock=10)
    add("build-over", build=("mult", a), config="build_timeout_multiplier = %s\n" % (b * 10), args=["--build-timeout-multiplier=%s" % a], base_build=400, clock=10)
    add("build-noconf", build=("none",), config="build_timeout_multiplier = 1\n", args=["--no-config", "--timeout=20"], base_build=20, slow_build=900, clock=20)
    add("test-mult-not-build", build=("none",), config="timeout_multiplier = 1\nminimum_test_timeout = 1\n", args=["--timeout=30"], base_build=20, slow_build=900, clock=20)
    return t + out


def run(ctx, c, rng):
    ctx.count("evaluations")
    if c["what"] == "time":
        c08.run(ctx, c, rng)
        ctx.saw("nontrivial", ("time", c["name"]))
    elif c["what"] == "bad":
        bad(ctx, c, rng)
    else:
        mix(ctx, c, rng)


def bad(ctx, c, rng):
    tree = dict(SRC, **{"Cargo.toml": proj.manifest()})
    if c["text"] is None:
        tree[".cargo/mutants.toml"] = {"hex": b"profile = '\xff\xfe'\n".hex()}
    elif c["text"] is False:
        tree[".cargo/mutants.toml/x"] = "x"
    else:
        tree[".cargo/mutants.toml"] = c["text"]
    tree["mutants.out/outcomes.json"] = "old"
    with ctx.box(tree) as box:
        args = [] if c["run"] else ["--list"]
        r = box.run(args, plan=["rule * * exit=0"]).finish()
        ev = [e for e in r.events if e["ev"] == "start"]
        if r.hung or r.panicked or r.rc != 1 or ev or not r.stderr.strip():
            raise Violation("a config file with an unknown key or invalid value was not refused (exit code %s, %d commands run)" % (r.rc, len(ev)), text=c["text"], run=r.brief())
        if r.out("outcomes.json") != b"old":
            raise Violation("previous results were disturbed although the config was refused", run=r.brief())
        ctx.saw("nontrivial", ("refused", c["name"] if not c["name"].startswith("badmix") else c["text"]))
        r = box.run(["--list", "--no-config"], plan_extra=False, ref={}).finish()
        if r.rc != 0 or not r.stdout:
            raise Violation("--no-config still reads the config file", text=c["text"], run=r.brief())


def pick(rng, p=0.35):
    """Where a setting is given."""
    return rng.choice(["cfg", "cli", "both"]) if rng.random() < p else "none"


def mix(ctx, c, rng):
    ws = rng.random() < 0.3
    pre = "member/" if ws else ""
    tree = {pre + k: v for k, v in SRC.items()}
    tree[pre + "Cargo.toml"] = proj.manifest()
    cfg, args, where = [], [], {}
    j = json.dumps
    if ws:
        tree["Cargo.toml"] = "[workspace]\nmembers = ['member']\n"
        # only the file at the root of the workspace is the config
        tree["member/.cargo/mutants.toml"] = "exclude_globs = ['*']\nprofile = 'decoy'\n"
    start = "member" if ws and rng.random() < 0.5 else ""
    noconf = rng.random() < 0.15

    def lst(key, opt, pool, most=2, p=0.35, forms=None):
        w = pick(rng, p)
        vals = rng.sample(pool, min(len(pool), 2 * most))
        a = vals[: rng.randrange(1, most + 1)] if w in ("cli", "both") else []
        b = vals[most : most + rng.randrange(1, most + 1)] if w in ("cfg", "both") else []
        if w == "cli" and rng.random() < 0.2:
            cfg.append("%s = []" % key)
        if b:
            cfg.append("%s = [%s]" % (key, ", ".join(j(x, ensure_ascii=False) for x in b)))
        for x in a:
            args.append((forms or (lambda x: opt + "=" + x))(x))
        where[key] = w
        return a, ([] if noconf else b)

    def one(key, opt, gen, p=0.35, q=j, a_str=str):
        w = pick(rng, p)
        a = gen() if w in ("cli", "both") else None
        b = gen() if w in ("cfg", "both") else None
        if b is not None:
            cfg.append("%s = %s" % (key, q(b)))
        if a is not None:
            args.append(opt + "=" + a_str(a))
        where[key] = w
        return a if a is not None else (None if noconf else b)

    ga, gb = lst("examine_globs", "--file", [pre + g if "/" in g else g for g in GLOBS])
    xa, xb = lst("exclude_globs", "--exclude", [pre + g if "/" in g else g for g in GLOBS if g not in ("*.rs", "src/*.rs", "src")], 1)
    ra, rb = lst("examine_re", rng.choice(["--re", "--regex", "--examine-re"]), RES)
    na, nb = lst("exclude_re", rng.choice(["--exclude-re", "--exclude-regex"]), RES, 1)
    ea, eb = lst("error_values", "--error", ERRS)
    sa, sb = lst("skip_calls", "--skip-calls", CALLS)
    if len(sa) == 2 and rng.random() < 0.5:
        args = [x for x in args if not x.startswith("--skip-calls=")] + ["--skip-calls=" + ",".join(sa)]
    low = lambda b: str(b).lower()
    sd = one("skip_calls_defaults", "--skip-calls-defaults", lambda: rng.random() < 0.5, q=low, a_str=low)
    B = lambda: rng.random() < 0.5
    eff = lambda a, b: a or b
    G, X, R, N = eff(ga, gb), eff(xa, xb), eff(ra, rb), eff(na, nb)
    skip = set(sa + sb) | (set() if sd is False else {"with_capacity"})
    prof = one("profile", "--profile", lambda: rng.choice(["mutants", "dev", "release", "bench"]), a_str=str)
    tool = one("test_tool", "--test-tool", lambda: rng.choice(["cargo", "nextest"])) or "cargo"
    cap = one("cap_lints", "--cap-lints", B, q=low, a_str=low) or False
    vcs = one("copy_vcs", "--copy-vcs", B, q=low, a_str=low) or False
    tw = one("test_workspace", "--test-workspace", B, q=low, a_str=low) or False
    ca, cb = lst("additional_cargo_args", "--cargo-arg", ["--release", "--offline", "-q", "--locked", "é x"])
    tb = rng.sample(["--lib", "t1", "--", "--nocapture"], 2) if rng.random() < 0.3 else []
    if tb:
        cfg.append("additional_cargo_test_args = [%s]" % ", ".join(map(j, tb)))
    ta = rng.sample(["--doc", "t2", "--ignored"], rng.choice([1, 2])) if rng.random() < 0.3 else []
    where["additional_cargo_test_args"] = {(0, 0): "none", (0, 1): "cfg", (1, 0): "cli", (1, 1): "both"}[(bool(ta), bool(tb))]
    if noconf:
        tb = []
    tree[".git/HEAD"] = "ref: x\n"
    ow = rng.choice(["none", "none", "cli", "cfg", "env", "cli+cfg", "env+cfg", "cli+env", "all"])
    with ctx.box(None) as box:
        outs = {k: os.path.join(box.dir, "out-" + k) for k in ("cli", "cfg", "env")}
        env = {}
        op = box.src
        if ow in ("cfg", "cli+cfg", "env+cfg", "all"):
            cfg.append("output = %s" % j(outs["cfg"]))
            op = box.src if noconf else outs["cfg"]
        if ow in ("env", "env+cfg", "cli+env", "all"):
            env["CARGO_MUTANTS_OUTPUT"] = outs["env"]
            op = outs["env"]
        if ow in ("cli", "cli+cfg", "cli+env", "all"):
            args.append(rng.choice(["--output=", "-o"]) + outs["cli"])
            op = outs["cli"]
        where["output"] = ow
        rng.shuffle(cfg)
        rng.shuffle(args)
        ca = [x[len("--cargo-arg="):] for x in args if x.startswith("--cargo-arg=")]
        if noconf:
            args.insert(rng.randrange(len(args) + 1), "--no-config")
        if cfg or rng.random() < 0.1:
            tree[".cargo/mutants.toml"] = "# comment\n" + "\n".join(cfg) + "\n"
        core.write_tree(box.src, tree)
        tail = ["--"] + ta if ta else []
        # reference: nothing configured, nothing skipped
        base = names(box, ["--no-config", "--skip-calls-defaults=false"], {}, start=start)
        exp = []
        for js, name in base:
            f = js["file"][len(pre):]
            m = re.search(r"replace (\S+) with |delete (!|-)", name)
            if js["genre"] in ("BinaryOperator", "UnaryOperator") and m and OPS.get((f, m.group(1) or m.group(2))) in skip:
                continue
            exp.append((js["file"], name))
            if "with Ok(" in name and js["replacement"] in ("Ok(0)", "Ok(())"):
                for e in ea + (eb):
                    exp.append((js["file"], name.replace("with " + js["replacement"], "with Err(%s)" % e)))
        full = len(exp)
        gm = lambda gs, f: any(re.fullmatch(c17.glob_re(g), f) for g in gs)
        exp = [(f, n) for f, n in exp if (not G or gm(G, f)) and not gm(X, f)]
        exp = [n for f, n in exp if (not R or any(re.search(r, n) for r in R)) and not any(re.search(r, n) for r in N)]
        got = names(box, args, env, tail, start)
        e, g = collections.Counter(exp), collections.Counter(n for _, n in got)
        if e != g:
            raise Violation("the settings mean other mutants: missing %s, unexpected %s" % (sorted(e - g)[:4], sorted(g - e)[:4]), args=args, config=cfg, env=env, effective={"globs": G, "excluded": X, "re": R, "exclude_re": N, "skip": sorted(skip), "errors": ea + eb})
        ctx.count("listings")
        for k in ("examine_globs", "exclude_globs", "examine_re", "exclude_re", "error_values", "skip_calls", "skip_calls_defaults"):
            if where[k] != "none":
                ctx.saw("nontrivial", (k, where[k], noconf, bool(exp) and len(exp) < full))
        if not c["run"] or not exp:
            return
        r = box.run(args + ["--no-shuffle"] + tail, plan=["env", "rule test mut exit=101", "rule * * exit=0"], env=env, dir_arg=False, cwd=os.path.join(box.src, start)).finish()
        if r.hung or r.panicked or r.rc != 0:
            raise Violation("the program failed with valid settings", run=r.brief(), config=cfg)
        n = 0
        for ev in r.events:
            if ev["ev"] != "start":
                continue
            n += 1
            av = ev["argv"][1:]
            ph = ev["phase"]
            head = ["nextest", "run"] if tool == "nextest" else ["test"]
            if av[: len(head)] != head:
                raise Violation("test tool %s is configured, but cargo %s was run" % (tool, av), config=cfg, args=args, run=r.brief())
            pf = [x for x in av if x.startswith(("--profile", "--cargo-profile"))]
            wp = [("--cargo-profile=" if tool == "nextest" else "--profile=") + prof] if prof else []
            if pf != wp:
                raise Violation("profile arguments are %s, the settings mean %s" % (pf, wp), config=cfg, args=args, run=r.brief())
            wt = ca + cb + (ta + tb if ph == "test" else [])
            if ("--workspace" in av) != tw or any(x.startswith("--package=") for x in av) == tw:
                raise Violation("the whole workspace is %stested, the settings mean the opposite" % ("" if "--workspace" in av else "not "), config=cfg, args=args, argv=av, run=r.brief())
            k = [i for i, x in enumerate(av) if x.startswith("--package=") or x == "--workspace"][-1:]
            rest = [x for x in av[(k[0] + 1 if k else len(head)):] if x not in wp]
            if rest != wt:
                raise Violation("additional arguments of a %s command are %s, the settings mean %s" % (ph, rest, wt), config=cfg, args=args, run=r.brief())
            enc = ev["env"].get("CARGO_ENCODED_RUSTFLAGS", "")
            if ("--cap-lints" in enc) != cap:
                raise Violation("lints are %scapped, the settings mean the opposite" % ("" if "--cap-lints" in enc else "not "), config=cfg, args=args, run=r.brief())
            gone = any(bytes.fromhex(d["p"]).decode("utf-8", "replace").startswith(".git") for d in ev["diff"])
            if gone == vcs:
                raise Violation(".git was %scopied, the settings mean the opposite" % ("not " if gone else ""), config=cfg, args=args, run=r.brief())
            ctx.count("commands_judged")
        if not n:
            raise HarnessError("no commands: %s" % r.brief())
        for d in [box.src] + list(outs.values()):
            there = os.path.exists(os.path.join(d, "mutants.out", "outcomes.json"))
            if there != (d == op):
                raise Violation("mutants.out is %sin %s, the settings mean %s" % ("" if there else "not ", d, op), config=cfg, args=args, env=env, run=r.brief())
        for k in ("profile", "test_tool", "cap_lints", "copy_vcs", "test_workspace", "additional_cargo_args", "additional_cargo_test_args", "output"):
            if where[k] != "none":
                ctx.saw("nontrivial", (k, where[k], noconf, True))
        ctx.sample({"args": args + tail, "config": cfg, "env": env, "commands": n})


def names(box, args, env, tail=(), start=""):
    a = box.run(list(args) + ["--list", "--json"] + list(tail), ref={}, plan_extra=False, env=env, dir_arg=False, cwd=os.path.join(box.src, start)).finish()
    b = box.run(list(args) + ["--list"] + list(tail), ref={}, plan_extra=False, env=env, dir_arg=False, cwd=os.path.join(box.src, start)).finish()
    if a.rc != 0 or b.rc != 0:
        raise Violation("listing failed with valid settings", run=a.brief(), run2=b.brief())
    return list(zip(json.loads(a.stdout), b.stdout.splitlines()))
