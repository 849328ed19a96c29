"""A whole run of the program on a project under the scripted cargo, and the monitors that
judge the recorded run.  A monitor raises Violation."""
import collections
import json
import os

from . import core, model
from .core import Violation
from .model import MARK


class Obs:
    """Everything observed about one finished run."""


def list_names(box, args=(), src=None, **kw):
    """[(mutant json, name)] from the listing commands."""
    keep = list(args)
    r1 = box.run(keep + ["--list", "--json"], plan_extra=False, ref={}, src=src, **kw).finish()
    r2 = box.run(keep + ["--list"], plan_extra=False, ref={}, src=src, **kw).finish()
    if r1.rc != 0 or r2.rc != 0:
        raise Violation("listing failed", run=r1.brief(), run2=r2.brief())
    try:
        js = json.loads(r1.stdout)
    except ValueError:
        raise Violation("--list --json printed invalid JSON", run=r1.brief())
    names = r2.stdout.splitlines()
    if len(js) != len(names):
        raise Violation("--list --json and --list differ in length", run=r1.brief(), run2=r2.brief())
    for j in js:
        j.pop("diff", None)
    return list(zip(js, names))


def weights(seed, opts):
    return "weights:%d:%s" % (seed, "|".join("%d@%s" % (w, a) for w, a in opts))


NOISE = [
    ["--caught"], ["--unviable"], ["--no-times"], ["--all-logs"], ["--colors=never"], ["--colors=always"], ["--level=debug"], ["--level=trace"], ["--level=error"], ["--jobserver=false"], ["--jobserver-tasks=3"], ["--cap-lints=true"], ["--cap-lints=false"], ["--shard", "0/1"], ["--re", "."],
    ["--exclude-re", "no such name anywhere"], ["--exclude", "no/such/**"], ["--file", "**/*.rs"], ["--line-col=false"], ["--features", "f1"], ["--all-features"], ["--no-default-features"], ["--profile=dev"], ["--cargo-arg=--offline"], ["--copy-vcs=true"], ["--gitignore=false"], ["--shuffle"], ["--no-shuffle"],
    ["--iterate"], ["--test-workspace=true"], ["--test-tool=nextest"], ["--workspace"], ["--timeout-multiplier=9"], ["--build-timeout-multiplier=9"], ["--minimum-test-timeout=30"], ["--no-config"], ["--", "--nocapture"],
]
ENV_NOISE = [{"RUST_LOG": "trace"}, {"RUST_BACKTRACE": "full"}, {"CI": "true", "GITHUB_ACTIONS": "true"}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"}, {"CARGO_TERM_COLOR": "always"}, {"RUSTFLAGS": "-Dwarnings"}, {"CARGO_TARGET_DIR": "target/x"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "C"}, {"TERM": "dumb"}, {"COLUMNS": "10"}]


def noise(rng, args, n=2, without=()):
    """Options that have nothing to do with what the run is judged by, to go with args."""
    have = {a.split("=")[0] for a in args if a.startswith("-")} | {"--" + w for w in without}
    have |= {l for s, l in {"-j": "--jobs", "-v": "--caught", "-V": "--unviable", "-t": "--timeout", "-F": "--re", "-E": "--exclude-re", "-f": "--file", "-e": "--exclude", "-p": "--package", "-d": "--dir", "-o": "--output", "-L": "--level"}.items() if s in have}
    clash = [{"--in-place", "--copy-vcs", "--gitignore"}, {"--shuffle", "--no-shuffle"}, {"--timeout", "--timeout-multiplier"}, {"--build-timeout", "--build-timeout-multiplier"}, {"--all-features", "--features", "--no-default-features"}, {"--test-workspace", "--test-package"}, {"--package", "--workspace"}, {"--dir", "--manifest-path"}]
    out, last = [], []
    for o in rng.sample(NOISE, n):
        if not o:
            continue
        k = o[0].split("=")[0]
        if k in have or any(k in c and c & have for c in clash):
            continue
        have.add(k)
        if k == "--":
            last = o
        else:
            out += o
    return out + last


def env_noise(rng, env=None):
    e = dict(rng.choice(ENV_NOISE)) if rng.random() < 0.3 else {}
    e.update(env or {})
    return e


def run_lab(box, args, plan, list_args=(), timeout=90, want_list=True, started=None, strict=True, rng=None, without=(), **kw):
    """With rng, some options and variables that change nothing that is judged are added."""
    if rng is not None and rng.random() < 0.5:
        args = list(args) + noise(rng, args, rng.choice([1, 1, 2, 4]), without)
        kw["env"] = env_noise(rng, kw.get("env"))
    o = Obs()
    o.strict = strict
    o.box = box
    src = kw.get("src") or box.src
    o.src = src
    o.args = list(args)
    o.before = core.snapshot(src)
    o.listing = list_names(box, list_args, src=kw.get("src")) if want_list else None
    o.run = box.start(args, plan=plan, **kw)
    if started:
        started(o.run)
    o.run.wait(timeout)
    o.run.finish()
    finish_obs(o)
    return o


def finish_obs(o, src=None):
    src = src or o.src
    o.after = core.snapshot(src)
    o.invs = model.invocations(o.run.events)
    o.scens = model.scenarios(o.invs)
    o.outdir = None
    od = getattr(o, "out_parent", None) or src

    def load(n):
        try:
            with open(os.path.join(od, "mutants.out", n), "rb") as f:
                b = f.read()
        except OSError:
            return None
        try:
            return json.loads(b)
        except ValueError:
            if not getattr(o, "strict", True):
                return None
            raise Violation("%s is not valid JSON after the run" % n, content=b[:400].decode("utf-8", "replace"), run=o.run.brief())

    o.mutants = load("mutants.json")
    o.outcomes = load("outcomes.json")
    o.lists = {}
    for n in ("caught", "missed", "timeout", "unviable"):
        try:
            with open(os.path.join(od, "mutants.out", n + ".txt"), "rb") as f:
                o.lists[n] = f.read().decode("utf-8").splitlines()
        except OSError:
            o.lists[n] = None
    return o


def no_hang(o):
    if o.run.hung:
        raise Violation("the program did not finish", run=o.run.brief(), invocations=[i.short() for i in o.invs][-6:])
    if o.run.panicked:
        raise Violation("the program panicked", run=o.run.brief())


def need_outputs(o):
    no_hang(o)
    if o.mutants is None:
        raise Violation("no mutants.json after the run", run=o.run.brief())
    if o.mutants and o.outcomes is None:
        raise Violation("no outcomes.json after the run", run=o.run.brief())
    if o.run.rc not in (0, 2, 3, 4):
        raise Violation("the run ended with an error, exit code %s" % o.run.rc, run=o.run.brief())


def keys_of(o):
    return [model.mutant_key(m, o.before) for m in o.mutants]


# ---- C03


def mon_trees(ctx, o, in_place=False, allow=("target",), allow_files=()):
    """Every invocation saw the pristine tree plus exactly one known mutation (or none)."""
    keys = collections.Counter(keys_of(o))
    for i in o.invs:
        ctx.count("trees_compared")
        diffs = [d for d in i.diff if not (d[1] == "add" and d[0].split("/")[0] in allow) and d[0] not in allow_files]
        if not diffs:
            ctx.count("pristine_trees")
            continue
        if len(diffs) != 1 or diffs[0][1] != "mod":
            raise Violation("cargo %s was given a tree that differs from the original in more than one edit: %s" % (i.phase, [(d[0], d[1]) for d in diffs]), invocation=i.short(), run=o.run.brief())
        k = (diffs[0][0], model.norm(diffs[0][4]))
        if k not in keys:
            raise Violation(
                "cargo %s was given a tree whose changed file %s is not the original with one listed mutation" % (i.phase, k[0]),
                content=k[1].decode("utf-8", "replace"), original=o.before.get(k[0], ("", "", b""))[2].decode("utf-8", "replace") if k[0] in o.before else None, run=o.run.brief(),
            )
        if diffs[0][3] != o.before[k[0]][1]:
            raise Violation("file mode of the mutated file changed: %s" % k[0], run=o.run.brief())
        ctx.count("mutated_trees")
        ctx.saw("nontrivial", (k[0], hash(k[1])))
    for a in o.invs:
        if in_place:
            if os.path.realpath(a.cwd) != os.path.realpath(o.src):
                raise Violation("--in-place ran cargo outside of the source tree: " + a.cwd, run=o.run.brief())
        elif os.path.realpath(a.cwd) == os.path.realpath(o.src) or (os.path.realpath(a.cwd) + "/").startswith(os.path.realpath(o.src) + "/"):
            raise Violation("cargo was run inside the source tree without --in-place", run=o.run.brief())
    # overlapping invocations in the same directory
    bydir = collections.defaultdict(list)
    for i in o.invs:
        bydir[i.cwd].append(i)
    for d, v in bydir.items():
        for a, b in zip(v, v[1:]):
            e = a.last(None)
            if e is not None and b.t < e - 1_000_000:
                raise Violation("two cargo processes ran at the same time in one directory", a=a.short(), b=b.short(), run=o.run.brief())
    # every phase of one mutant sees the same tree: a test must follow the build of the same tree
    for s in o.scens:
        if s.invs[0].phase == "test":
            raise Violation("tests were run on a tree that was not the one just built in that directory", invocation=s.invs[0].short(), run=o.run.brief())


# ---- C04


def mon_once(ctx, o, baseline=True):
    want = collections.Counter(keys_of(o))
    got = collections.Counter(s.key[0] if s.key and len(s.key) == 1 else s.key for s in o.scens if s.key)
    if want != got:
        raise Violation(
            "mutants tested differ from mutants.json: not tested %d, tested too often or unexpected %d" % (sum((want - got).values()), sum((got - want).values())),
            missing=[k[0] for k in (want - got)], extra=[k and k[0] for k in (got - want)], run=o.run.brief(),
        )
    outs = [x for x in (o.outcomes or {}).get("outcomes", [])]
    rep = collections.Counter(model.mid(x["scenario"]["Mutant"]) for x in outs if x["scenario"] != "Baseline")
    lst = collections.Counter(model.mid(m) for m in o.mutants)
    if rep != lst:
        raise Violation("outcomes.json does not report every mutant exactly once", missing=[json.loads(x) for x in (lst - rep)][:4], extra=[json.loads(x) for x in (rep - lst)][:4], run=o.run.brief())
    nb = sum(1 for x in outs if x["scenario"] == "Baseline")
    if nb != (1 if baseline else 0):
        raise Violation("%d baseline outcomes reported" % nb, run=o.run.brief())
    ctx.count("mutants_matched", len(o.mutants))


def mon_fault(ctx, o):
    """After an injected failure of the file system: either the program says that it failed, or
    its report is complete."""
    if o.run.hung:
        raise Violation("the program did not finish after a failed system call", run=o.run.brief())
    hit = any(l[0] == "FAULT" for l in o.run.prelines())
    if not hit:
        ctx.skip("the call was never made")
        return
    ctx.count("faults_injected")
    if o.run.rc in (0, 2, 3):
        outs = [x for x in (o.outcomes or {}).get("outcomes", []) if x["scenario"] != "Baseline"]
        want = collections.Counter(n for _, n in o.listing)
        got = collections.Counter(dict((model.mid(m), n) for m, n in o.listing).get(model.mid(x["scenario"]["Mutant"])) for x in outs)
        if got != want:
            raise Violation("exit code %s as after a complete run, but %d of %d mutants have an outcome" % (o.run.rc, sum(got.values()), sum(want.values())), run=o.run.brief())
        lines = sum(len(l or []) for l in o.lists.values())
        ok = sum(1 for x in outs if x["summary"] == "Success")
        if lines + ok != len(outs):
            raise Violation("exit code %s as after a complete run, but the text lists have %d lines for %d outcomes" % (o.run.rc, lines, len(outs) - ok), run=o.run.brief())
    ctx.saw("fault_codes", o.run.rc)


FAULTS = [("trunc", ".rs"), ("write", ".rs"), ("write", "/log/"), ("append", "/log/"), ("trunc", "/diff/"), ("write", "/diff/"), ("write", "missed.txt"), ("write", "caught.txt"), ("write", ".txt"), ("write", "outcomes"), ("rename", "outcomes"), ("trunc", "outcomes"), ("mkdir", "/tmp/cargo-mutants"), ("copy_file_range", "/tmp/cargo-mutants"), ("write", "mutants.json"), ("create", "/log/")]


def fault_cases(rng, n):
    """Injected failures in the middle of a run."""
    out = []
    for k in range(n):
        op, sub = FAULTS[k % len(FAULTS)]
        out.append({"name": "fault%d" % k, "kind": "fault", "jobs": rng.choice([1, 2, 3]), "fault": "%s:%s:%d:%s" % (op, sub, rng.choice([1, 2, 3, 4, 6, 9]), rng.choice(["e28", "e5", "e13"]))})
    return out


def run_fault(ctx, c, rng):
    from . import proj

    tree = proj.pkg(rng, 9, 2)
    plan = plan_mix(rng, rng.randrange(1 << 30), writes=False)
    with ctx.box(tree) as box:
        o = run_lab(box, ["--jobs", str(c["jobs"])], plan, pre={"fault": c["fault"]}, strict=False)
        mon_fault(ctx, o)
        ctx.saw("nontrivial", ("fault", c["fault"].split(":")[0], c["fault"].split(":")[1], o.run.rc))


# ---- C05

STATUS = {"Success", "Timeout"}


def status_of(inv):
    if inv.killed:
        return "Timeout"
    if inv.sig:
        return {"Signalled": inv.sig}
    return "Success" if inv.code == 0 else {"Failure": inv.code}


def outcome_pairs(o):
    """[(outcome, Scen)] matched by mutated content; ambiguous ones are left out."""
    scen = collections.defaultdict(list)
    for s in o.scens:
        scen[s.key[0] if s.key and len(s.key) == 1 else s.key].append(s)
    pairs = []
    for x in o.outcomes["outcomes"]:
        if x["scenario"] == "Baseline":
            k = None
        else:
            k = model.mutant_key(x["scenario"]["Mutant"], o.before)
        v = scen.get(k, [])
        if len(v) == 1:
            pairs.append((x, v[0]))
        elif not v:
            raise Violation("an outcome is reported for a mutant that was never tested", outcome=x, run=o.run.brief())
    return pairs


def mon_class(ctx, o, check_only=False, timeout_s=None):
    phname = {"check": "Check", "build": "Build", "test": "Test"}
    for x, s in outcome_pairs(o):
        base = x["scenario"] == "Baseline"
        last = s.invs[-1]
        dur = (last.last(last.t) - last.t) / 1e9
        racy = timeout_s is not None and not last.killed and dur > 0.4 * timeout_s
        if racy:
            ctx.skip("phase end close to timeout")
            continue
        exp = model.expected_summary(s, check_only)
        if exp is None and not last.sig and last.phase == "build":
            raise Violation("tests were not run for a mutant that built successfully", outcome=x, run=o.run.brief())
        if exp is None and last.sig:
            # what it is called is not settled, but these would be false
            if x["summary"] in ("Timeout", "MissedMutant", "Success"):
                raise Violation("outcome %s reported, but the last command died of signal %d by itself" % (x["summary"], last.sig), outcome=x, ran=[(i.phase, status_of(i)) for i in s.invs], run=o.run.brief())
            ctx.saw("summary", "signal")
        if exp is not None:
            if base:
                exp = {"Timeout": "Timeout", "MissedMutant": "Success", "Success": "Success"}.get(exp, "Failure")
            if x["summary"] != exp:
                raise Violation("outcome %s reported, but the commands that ran mean %s" % (x["summary"], exp), outcome=x, ran=[(i.phase, status_of(i)) for i in s.invs], run=o.run.brief())
            ctx.count("outcomes_judged")
            ctx.saw("summary", x["summary"])
        rec = [(p["phase"], p["process_status"], p["argv"]) for p in x["phase_results"]]
        real = [(phname.get(i.phase, i.phase), status_of(i), i.argv) for i in s.invs]
        if rec != real:
            raise Violation("recorded phase results differ from the commands that ran", recorded=rec, real=real, run=o.run.brief())
        for p, i in zip(x["phase_results"], s.invs):
            if i.end is not None and p["duration"] + 0.02 < (i.end - i.t) / 1e9:
                raise Violation("recorded phase duration is shorter than the command ran", outcome=x, run=o.run.brief())
            ctx.saw("nontrivial", json.dumps([phname.get(i.phase, i.phase), status_of(i), base], default=str))


# ---- C06

LIST_OF = {"CaughtMutant": "caught", "MissedMutant": "missed", "Timeout": "timeout", "Unviable": "unviable"}


def mon_reports(ctx, o, listing=None, check_exit=True):
    listing = listing if listing is not None else o.listing
    name = {model.mid(m): n for m, n in listing}
    want = collections.defaultdict(collections.Counter)
    cnt = collections.Counter()
    base_ok = True
    for x in o.outcomes["outcomes"]:
        if x["scenario"] == "Baseline":
            base_ok = x["summary"] == "Success"
            continue
        cnt[x["summary"]] += 1
        l = LIST_OF.get(x["summary"])
        if l:
            n = name.get(model.mid(x["scenario"]["Mutant"]))
            if n is None:
                raise Violation("an outcome is reported for a mutant that --list does not show", outcome=x, run=o.run.brief())
            want[l][n] += 1
    for l in ("caught", "missed", "timeout", "unviable"):
        got = o.lists[l]
        if got is None:
            raise Violation("%s.txt missing after the run" % l, run=o.run.brief())
        if collections.Counter(got) != want[l]:
            raise Violation("%s.txt does not list exactly the mutants with that outcome" % l, listed=got, expected=sorted(want[l].elements()), run=o.run.brief())
    tot = {k: o.outcomes.get(k) for k in ("total_mutants", "missed", "caught", "timeout", "unviable", "success")}
    exp = {
        "total_mutants": sum(cnt.values()), "missed": cnt["MissedMutant"], "caught": cnt["CaughtMutant"],
        "timeout": cnt["Timeout"], "unviable": cnt["Unviable"], "success": cnt["Success"],
    }
    if tot != exp:
        raise Violation("totals in outcomes.json differ from its outcomes", totals=tot, expected=exp, run=o.run.brief())
    code = 4 if not base_ok else 3 if cnt["Timeout"] else 2 if cnt["MissedMutant"] else 0
    if check_exit and o.run.rc != code:
        raise Violation("exit code %s, but the outcomes mean %d" % (o.run.rc, code), totals=exp, baseline_ok=base_ok, run=o.run.brief())
    ctx.count("reports_judged")
    ctx.saw("nontrivial", (bool(cnt["MissedMutant"]), bool(cnt["CaughtMutant"]), bool(cnt["Timeout"]), bool(cnt["Unviable"]), bool(cnt["Success"]), base_ok, o.run.rc))
    return exp


# ---- C01


def mon_source(ctx, o, during=True):
    d = core.snap_diff(o.before, o.after)
    if d:
        raise Violation("the source tree changed during the run: %s" % d[:5], run=o.run.brief())
    if during:
        for i in o.invs:
            ctx.count("source_snapshots")
            if i.srcdiff:
                raise Violation("the source tree was changed while cargo %s ran: %s" % (i.phase, [(x[0], x[1]) for x in i.srcdiff]), run=o.run.brief())
    root = os.path.realpath(o.src) + "/"
    for op, path, ret, err, t in o.run.prelines():
        ctx.count("calls_watched")
        if op in ("kill", "killpg", "FAULT") or ret < 0:
            continue
        p = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        if op not in ("unlink", "unlinkat", "rmdir", "symlink", "link", "rename", "rename_from", "mkdir", "mkdirat") and os.path.islink(p):
            p = os.path.realpath(p)
        if p.startswith(root):
            rel = p[len(root):].split("/")[0]
            if rel not in ("mutants.out", "mutants.out.old"):
                raise Violation("the program changed the source tree: %s %s" % (op, p), run=o.run.brief())


# ---- C10


def tmp_left(box):
    return [n for n in sorted(os.listdir(box.tmp))]


# ---- workload helpers


def hup_cases(rng, n):
    """The program's terminal, or the reader of its output, goes away in the middle of a run."""
    out = []
    for k in range(n):
        out.append({"name": "hup%d" % k, "kind": "hup", "ends": [("tty", "tty"), ("pipe", "pipe"), (None, "tty"), ("pipe", None), (None, "pipe")][k % 5], "sig": ["SIGHUP", "SIGINT", "SIGTERM", None][k % 4 if k % 4 != 3 or rng.random() < 0.6 else 0], "at": rng.choice([1, 2, 3, 3, 4, 5, 6]), "wait": rng.choice([0, 10, 60, 120]), "level": rng.choice([None, None, None, "debug", "trace"]), "gci": rng.random() < 0.2})
    return out


def hup_plan(c):
    return ["rule * base exit=0", "rule build mut sleep=60;exit=0", "rule check mut sleep=60;exit=0", "rule test mut %ssleep=700;exit=1" % ("gci=20000;" if c["gci"] else "")]


def hup_streams(c):
    return {n: k for n, k in zip(("stdout", "stderr"), c["ends"]) if k}


def hup_started(c):
    import signal
    import time

    def started(r):
        for _ in range(6000):
            n = [e for e in r.read_events() if e["ev"] == "start"]
            if len(n) > c["at"] or r.p.poll() is not None:
                break
            time.sleep(0.002)
        time.sleep(c["wait"] / 1000)
        r.hangup()
        if c["sig"]:
            r.signal(getattr(signal, c["sig"]))

    return started


def plan_mix(rng, seed, hang=0, unviable=1, ok=3, bad=3, sleeps=(0, 1, 5, 15), tag=0, gc=False, sig=0, codes=(101, 1, 4, 100, 2, 255), base="exit=0", writes=True, bhang=0):
    """Rules giving every mutant a deterministic pseudo-random behaviour."""
    t = lambda: "sleep=%d;" % rng.choice(sleeps)
    tg = "tag=%d;" % tag if tag else ""
    wr = lambda: "write=target/debug/junk%d:%s;" % (rng.randrange(9), "00ff") if writes and rng.random() < 0.4 else ""
    tests = [(ok, tg + wr() + t() + "exit=0")] + [(1, tg + t() + "exit=%d" % c) for c in codes[:bad]]
    if hang:
        tests.append((hang, tg + ("gc=20000;" if gc else "") + "%shang" % rng.choice(["", "", "termexit=0;", "termexit=101;", "termslow=200;"])))
    if sig:
        tests.append((sig, tg + "sig=9"))
    builds = [(6, tg + wr() + t() + "exit=0"), (unviable, tg + t() + "exit=101")]
    checks = [(ok, tg + t() + "exit=0"), (bad, tg + t() + "exit=101")]
    if bhang:
        builds.append((bhang, tg + "%shang" % rng.choice(["", "", "termexit=0;", "termexit=101;"])))
        checks.append((bhang, tg + "hang"))
    return [
        "rule test base " + tg + base,
        "rule * base " + tg + ("exit=0" if "hang" in base else base),
        "rule build mut " + weights(seed, builds),
        "rule check mut " + weights(seed, checks),
        "rule test mut " + weights(seed, tests),
    ]
