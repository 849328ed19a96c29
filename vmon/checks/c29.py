"""C29: listing commands change nothing and run no tests."""
import json
import os
import re

from .. import core, model, proj, syn
from ..core import HarnessError, Violation
from .c28 import apply_diff

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: file-changing system calls and child processes of the informational commands are logged, file trees are compared before and after, and the forms of the listing are compared with each other"
RULE = "one evaluation is one informational command; non-trivial elements are distinct (command, options given, history present)"
ASSUMPTIONS = ["cargo locate-project and cargo metadata, which only read, are not builds"]

FORMS = [["--list"], ["--list", "--json"], ["--list", "--diff"], ["--list", "--json", "--diff"], ["--list-files"], ["--list-files", "--json"], ["--list", "--list-files"], ["--list", "--colors=always"], ["--list", "--line-col=false"]]
INFO = [["--version"], ["--help"], ["-h"], ["--completions", "bash"], ["--completions", "zsh"], ["--completions", "fish"], ["--completions=powershell"], ["--completions", "elvish"]]


def cases(rng, tier):
    n = 260 if tier == "quick" else 3000
    out = [{"name": "l%d" % k, "what": "list"} for k in range(n)]
    out += [{"name": "i%d" % k, "what": "info", "args": i} for k, i in enumerate(INFO)]
    out += [{"name": "busy%d" % k, "what": "busy"} for k in range(3 if tier == "quick" else 30)]
    return out


def quiet(r, ctx, allowed=()):
    """No file was changed and no cargo build, test or check was run."""
    if r.hung or r.panicked:
        raise Violation("an informational command hung or panicked", run=r.brief())
    ev = [e for e in r.events if e["ev"] == "start"]
    if ev:
        raise Violation("an informational command ran cargo %s" % " ".join(ev[0]["argv"][1:]), run=r.brief())
    for op, path, ret, err, t in r.prelines():
        if op in ("kill", "killpg") or ret < 0:
            continue
        if path.startswith(("/dev/", "/proc/")) or path.startswith("pipe:") or not path.startswith("/") and op == "write":
            continue
        raise Violation("an informational command changed a file: %s %s" % (op, path), run=r.brief())
    ctx.count("commands_watched")


def run(ctx, c, rng):
    if c["what"] == "info":
        with ctx.box({"x": "1"} if rng.random() < 0.5 else proj.pkg(rng, 3, 1)) as box:
            b = core.snapshot(box.dir, ())
            r = box.run(c["args"], dir_arg=False, cwd=box.src, ref={}, plan_extra=False, pre={}).finish()
            quiet(r, ctx)
            if r.rc != 0 or len(r.stdout) < 10:
                raise Violation("an informational command failed", run=r.brief())
            a = {k: v for k, v in core.snapshot(box.dir, ()).items() if not k.startswith("vm")}
            if core.snap_diff(b, a):
                raise Violation("an informational command changed files: %s" % core.snap_diff(b, a)[:4], run=r.brief())
            ctx.saw("nontrivial", ("info", tuple(c["args"])))
            ctx.count("evaluations")
        return
    g = syn.project(rng, files=rng.choice([1, 2, 4]), items=rng.choice([1, 2, 3]), depth=1, crlf=0.2)
    tree = dict(g.tree)
    if rng.random() < 0.5 and isinstance(tree["src/lib.rs"], str) and g.text["src/lib.rs"].endswith("\n") and c["what"] == "list":
        # files further down
        for k, f in enumerate(rng.sample(["deep/er/x.rs", "a/b/c/d/e.rs", "deep/er/still/x.rs"], 2)):
            decl = '#[path = "%s"]\nmod deep_%d;\n' % (f, k)
            tree["src/lib.rs"] += decl
            g.text["src/lib.rs"] += decl
            tree["src/" + f] = g.text["src/" + f] = "pub fn deep_%d() -> bool {\n    a == b\n}\n" % k
    tree.update(proj.extras(rng))
    hist = rng.random() < 0.5
    if hist:
        tree["mutants.out/outcomes.json"] = "{old"
        tree["mutants.out/caught.txt"] = ""
        tree["mutants.out/lock.json"] = "{}"
        tree["mutants.out/unviable.txt"] = ""
        tree["mutants.out/previously_caught.txt"] = "nothing\n"
        tree["mutants.out.old/outcomes.json"] = "{older"
    if rng.random() < 0.3:
        tree[".cargo/mutants.toml"] = rng.choice(["cap_lints = true\n", "output = 'cfgout'\n", "copy_vcs = true\n", "error_values = ['X']\n"])
    if c["what"] == "busy":
        return busy(ctx, c, rng, tree)
    form = rng.choice(FORMS)
    opts, kinds = [], []

    def opt(p, *a):
        if rng.random() < p:
            opts.extend(a)
            kinds.append(a[0].split("=")[0])

    with ctx.box(tree) as box:
        opt(0.15, "-F", rng.choice(["true", "e", "zzz"]))
        opt(0.15, "-f", rng.choice(["*.rs", "lib.rs", "none.rs"]))
        opt(0.2, "--shard=%d/3" % rng.randrange(3))
        opt(0.3, "--iterate")
        opt(0.2, "--output=" + os.path.join(box.dir, rng.choice(["newout", "new/out"])))
        opt(0.1, "--check")
        opt(0.1, "--baseline=skip")
        opt(0.1, "--leak-dirs")
        opt(0.1, "--in-place")
        if "--in-place" not in opts:
            opt(0.2, "--jobs=%d" % rng.choice([1, 4]))
            opt(0.1, "--copy-vcs=true")
            opt(0.1, "--gitignore=false")
        opt(0.1, "--no-shuffle")
        opt(0.1, "--timeout=5")
        opt(0.1, "--test-tool=nextest")
        opt(0.1, "-v")
        opt(0.1, "-V")
        opt(0.1, "--all-logs")
        opt(0.1, "--workspace")
        opt(0.1, "--level=%s" % rng.choice(["trace", "debug", "error"]))
        opt(0.1, "--error=E")
        opt(0.1, "--no-config")
        if rng.random() < 0.25:
            f = rng.choice(list(g.text))
            ls = g.text[f].split("\n")[:-1]
            open(os.path.join(box.dir, "d.diff"), "w").write("".join(["--- a/%s\n+++ b/%s\n@@ -1,%d +1,%d @@\n" % (f, f, len(ls), len(ls) + 0)] + [" %s\n" % l for l in ls]))
            opt(1, "--in-diff", os.path.join(box.dir, "d.diff"))
        cwd = rng.choice([box.src, box.dir, box.tmp])
        b = core.snapshot(box.dir, ())
        r = box.run(opts + form, cwd=cwd, ref={}, plan_extra=False, pre={}).finish()
        quiet(r, ctx)
        if r.rc != 0:
            raise Violation("a listing command failed", run=r.brief())
        a = {k: v for k, v in core.snapshot(box.dir, ()).items() if not re.match(r"vm\d", k)}
        d = [x for x in core.snap_diff({k: v for k, v in b.items() if not re.match(r"vm\d", k)}, a) if not x[0].startswith("home/")]
        if d:
            raise Violation("a listing command changed files: %s" % d[:4], run=r.brief())
        ctx.count("evaluations")
        ctx.saw("nontrivial", (tuple(form), tuple(sorted(kinds)), hist))
        # the forms agree
        get = lambda f: box.run(opts + f, cwd=cwd, ref={}, plan_extra=False, pre={}).finish()
        J = get(["--list", "--json", "--diff"])
        P = get(["--list", "--colors=never"])
        D = get(["--list", "--diff", "--colors=never"])
        N = get(["--list", "--json"])
        for x in (J, P, D, N):
            quiet(x, ctx)
        try:
            js, ns = json.loads(J.stdout), json.loads(N.stdout)
        except ValueError:
            raise Violation("--list --json does not print one JSON document", run=J.brief(), run2=N.brief())
        names = P.stdout.split("\n")[:-1]
        if len(js) != len(names) or len(ns) != len(js):
            raise Violation("--list shows %d mutants, --json --diff %d, --json %d" % (len(names), len(js), len(ns)), run=J.brief())
        pos = 0
        for m, m2, n in zip(js, ns, names):
            diff = m.pop("diff", None)
            if m != m2:
                raise Violation("--json and --json --diff describe different mutants", a=m, b=m2)
            s = m["span"]["start"]
            if not n.startswith("%s:%d:%d: " % (m["file"], s["line"], s["column"])):
                raise Violation("--list and --list --json do not show the same mutants in the same order", name=n, mutant=m)
            if m["replacement"].strip() and m["genre"] == "FnValue" and re.sub(r"\s", "", m["replacement"]) not in re.sub(r"\s", "", n):
                raise Violation("--list and --list --json show different replacements", name=n, mutant=m)
            if diff is None:
                raise Violation("--list --json --diff has no diff of a mutant", mutant=m)
            text = g.text[m["file"]]
            new = apply_diff(text, diff)
            if new != model.splice(text, m["span"], m["replacement"] + model.MARK):
                raise Violation("the diff shown is not that of the mutant", diff=diff, mutant=m)
            want = n + "\n" + diff + "\n"
            if D.stdout[pos : pos + len(want)] != want:
                raise Violation("--list --diff does not show the name and diff of each mutant in order", want=want, got=D.stdout[pos : pos + len(want)])
            pos += len(want)
            ctx.count("mutants_compared")
        if pos != len(D.stdout):
            raise Violation("--list --diff shows more than the mutants", rest=D.stdout[pos : pos + 400])
        # other forms of the same list
        short = [re.sub(r"^(.*?\.rs):\d+:\d+: ", r"\1: ", n, count=1) for n in names]
        L = get(["--list", "--line-col=false", "--colors=never"])
        C = get(["--list", "--colors=always"])
        E = get(["--list", "--line-col=false", "--diff", "--colors=never"])
        for x in (L, C, E):
            quiet(x, ctx)
        if L.stdout.split("\n")[:-1] != short:
            raise Violation("--list --line-col=false shows other mutants", run=L.brief(), names=names[:6])
        if re.sub(r"\x1b\[[0-9;]*m", "", C.stdout).split("\n")[:-1] != names:
            raise Violation("--list --colors=always shows other mutants", run=C.brief(), names=names[:6])
        want = D.stdout
        pos, out = 0, []
        for n, sh in zip(names, short):
            i = want.index(n + "\n", pos)
            out.append(want[pos:i] + sh)
            pos = i + len(n)
        if "".join(out) + want[pos:] != E.stdout:
            raise Violation("--list --diff --line-col=false shows other mutants or diffs", run=E.brief(), names=names[:6])
        F = get(["--list-files"])
        G = get(["--list-files", "--json"])
        for x in (F, G):
            quiet(x, ctx)
        try:
            fj = [x["path"] for x in json.loads(G.stdout)]
        except ValueError:
            raise Violation("--list-files --json does not print one JSON document", run=G.brief())
        if fj != F.stdout.split("\n")[:-1]:
            raise Violation("--list-files and --list-files --json differ", run=F.brief(), run2=G.brief())
        ctx.sample({"args": opts + form, "mutants": len(js)})


def busy(ctx, c, rng, tree):
    """Listing while a run of the same tree goes on neither waits nor disturbs it."""
    for k in [k for k in tree if k.startswith("mutants.out") or k.startswith(".cargo")]:
        del tree[k]
    with ctx.box(tree) as box:
        go = os.path.join(box.dir, "go")
        run = box.start(["--jobs=2"], plan=["rule test base waitfile=%s;exit=0" % go, "rule test mut exit=101", "rule * * exit=0"])
        if not run.wait_event(lambda e: e["ev"] == "start" and e["phase"] == "test"):
            run.wait(5)
            run.finish()
            if not [1 for e in run.events if e["ev"] == "start"]:
                ctx.skip("no mutants")
                return
            raise HarnessError("run did not start: %s" % run.brief())
        b = core.snapshot(box.src, ())
        r = box.run(["--list"] + rng.choice([[], ["--json"], ["--iterate"]]), ref={}, plan_extra=False, pre={}, timeout=20)
        if r.hung:
            open(go, "w").close()
            run.wait(30)
            run.finish()
            r.finish()
            raise Violation("listing waits for a run in progress", run=r.brief())
        r.finish()
        try:
            quiet(r, ctx)
            a = core.snapshot(box.src, ())
            if core.snap_diff(b, a):
                raise Violation("listing during a run changed files: %s" % core.snap_diff(b, a)[:4], run=r.brief())
        finally:
            open(go, "w").close()
            run.wait(60)
            run.finish()
        if run.rc != 0:
            raise Violation("a listing disturbed the run in progress", run=run.brief(), listing=r.brief())
        ctx.count("evaluations")
        ctx.saw("nontrivial", ("busy",))
