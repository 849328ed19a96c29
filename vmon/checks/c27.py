"""C27: the listing is deterministic and predicts what a run tests."""
import collections
import json
import os
import random
import re

from .. import core, lab, model, proj, syn
from ..core import Violation
from . import c17

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: listings of one tree from different places compared byte for byte, and the recorded cargo invocations and outcomes of runs with different jobs and order compared with the listing and with each other"
RULE = "one evaluation is one comparison of a listing with another listing or with a run; non-trivial elements are distinct (how started, options) for listings and distinct orders of tested mutants for runs"
ASSUMPTIONS = ["the scripted cargo gives each mutated tree a fixed result, whatever the order"]


def cases(rng, tier):
    q = tier == "quick"
    return [{"name": "list%d" % k, "what": "list"} for k in range(70 if q else 900)] + [{"name": "run%d" % k, "what": "run"} for k in range(36 if q else 600)] + [{"name": "big%d" % k, "what": "run", "big": n} for k, n in enumerate([70, 120] if q else [70, 90, 120, 150, 200, 300])]


def make(rng):
    """A package or workspace, and options that select among its mutants."""
    if rng.random() < 0.4:
        tree = {}
        names = rng.sample(["a", "b", "core", "util", "zz", "a-b"], rng.choice([2, 3, 5]))
        dirs = rng.sample(["d1", "d2", "crates/x", "crates/y", "zeta", "alpha"], len(names))
        for n, d in zip(names, dirs):
            tree[d + "/Cargo.toml"] = proj.manifest(n)
            tree.update(small(rng, d + "/"))
        tree["Cargo.toml"] = "[workspace]\nmembers = [%s]\n" % ", ".join('"%s"' % d for d in dirs)
        ws = dirs
    else:
        tree = {"Cargo.toml": proj.manifest()}
        tree.update(small(rng, ""))
        if rng.random() < 0.4:
            tree["src/main.rs"] = "fn main() {\n    a + b;\n}\n"
        if rng.random() < 0.4:
            for n in rng.sample(["z", "a", "m"], 2):
                tree["src/bin/%s.rs" % n] = "fn main_%s() -> bool {\n    a && b\n}\n" % n
        ws = None
    return tree, ws


def small(rng, pre):
    return c17.layout(rng, pre) if rng.random() < 0.5 else {k: v for k, v in syn.project(rng, files=rng.choice([1, 2, 4]), items=2, depth=1, crlf=0).tree.items() if k != "Cargo.toml"} if not pre else {pre + k: v for k, v in syn.project(rng, files=rng.choice([1, 2]), items=2, depth=1, crlf=0).tree.items() if k != "Cargo.toml"}


def options(rng, tree, ws):
    o = []
    if rng.random() < 0.3:
        o += ["-F", rng.choice(["true", "bool", "operator|=>", " -> "])]
    if rng.random() < 0.2:
        o += ["-E", rng.choice(["false", "Ok", "==", "delete"])]
    if rng.random() < 0.2:
        o += ["-f", rng.choice(["*.rs", "lib.rs", "src/*.rs", "**/m1.rs"])]
    if rng.random() < 0.15:
        o += ["-e", rng.choice(["a.rs", "m1.rs", "main.rs"])]
    if rng.random() < 0.2:
        o += rng.choice([["--error", "MyErr"], ["--error", "MyErr", "--error", "MyErr"], ["--error=MyErr", "--error", "other::Err", "--error=MyErr"]])
    if rng.random() < 0.3:
        n = rng.choice([2, 3, 5])
        o += ["--shard", "%d/%d" % (rng.randrange(n), n)]
    if ws and rng.random() < 0.6:
        o += ["--workspace"]
    return o


def run(ctx, c, rng):
    (listings if c["what"] == "list" else runs)(ctx, c, rng)


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def listings(ctx, c, rng):
    tree, ws = make(rng)
    opts = options(rng, tree, ws)
    with ctx.box(None) as box:
        places = [os.path.join(box.dir, "src"), os.path.join(box.dir, "un autre é/deep/er/place"), os.path.join(box.dir, "zz-reverse")]
        items = list(tree.items())
        for k, p in enumerate(places):
            it = items[:]
            if k == 1:
                random.Random(rng.random()).shuffle(it)
            elif k == 2:
                it.reverse()
            core.write_tree(p, dict(it))
        sub = rng.choice(ws) if ws and "--workspace" not in opts and rng.random() < 0.5 else ""
        deep = bool(ws) is False or bool(sub) or "--workspace" in opts  # a directory below means the same packages
        kinds = [("plain", ["--list"]), ("json", ["--list", "--json"]), ("files", ["--list-files"]), ("diff", ["--list", "--diff"]), ("jdiff", ["--list", "--json", "--diff"]), ("nocol", ["--list", "--line-col=false"])]
        forms = []
        for k, p in enumerate(places):
            start = os.path.join(p, sub)
            inner = os.path.join(start, "src") if os.path.isdir(os.path.join(start, "src")) else start
            forms += [
                ("dir", ["-d", start], box.dir), ("dirrel", ["--dir", os.path.relpath(start, box.tmp)], box.tmp), ("cwd", [], start), ("man", ["--manifest-path", os.path.join(start, "Cargo.toml")], "/"),
                ("manrel", ["--manifest-path", os.path.relpath(start, box.home) + "/Cargo.toml"], box.home), ("manbare", ["--manifest-path", "Cargo.toml"], start),
            ]
            if deep:
                forms += [("subcwd", [], inner), ("subdir", ["-d", inner], box.dir)]
            ln = os.path.join(box.dir, "ln%d" % k)
            os.symlink(start, ln)
            forms += [("link", ["-d", ln], box.dir), ("linkcwd", [], ln)]
        for kind, ka in rng.sample(kinds, 3):
            first = None
            chosen = [forms[0]] + rng.sample(forms[1:], 5) + [forms[0]]
            for k, (how, a, cwd) in enumerate(chosen):
                more = rng.choice([[], [], ["--jobs=3"], ["--shuffle"], ["--no-shuffle"], ["--baseline=skip"], ["--check"], ["--in-place"], ["-v"], ["--timeout=3"]])
                env = rng.choice([{}, {}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "C"}, {"TZ": "Asia/Tokyo"}, {"CARGO_MUTANTS_JOBS": "4"}, {"NO_COLOR": "1"}])
                if "--in-place" in more:
                    env = {}
                r = box.run(a + opts + more + ka, dir_arg=False, cwd=cwd, env=env, ref={}, plan_extra=False, pre={"delay": "300:%d" % rng.randrange(99)} if rng.random() < 0.2 else None).finish()
                if r.hung or r.panicked or r.rc != 0:
                    raise Violation("listing failed on a valid tree", run=r.brief(), cwd=cwd)
                if first is None:
                    first = r.stdout
                    fr = r
                elif r.stdout != first:
                    al, bl = first.splitlines(), r.stdout.splitlines()
                    d = [(x, y) for x, y in zip(al, bl) if x != y][:3] or (len(al), len(bl))
                    raise Violation("two listings of the same tree with the same options differ: %s" % (d,), run=r.brief(), first=fr.brief(), cwd=cwd)
                ctx.count("evaluations")
                ctx.saw("nontrivial", (kind, how, tuple(more), tuple(x for x in opts if x.startswith("-"))))
            if kind == "plain":
                r = box.run(forms[0][1] + opts + ["--list", "--colors=always"], dir_arg=False, ref={}, plan_extra=False).finish()
                if ANSI.sub("", r.stdout) != first:
                    raise Violation("the coloured listing has other names than the plain one", run=r.brief(), plain=first[:800])
                ctx.count("evaluations")
        lab.list_names(box, opts, dir_arg=False, cwd=forms[0][2] and os.path.join(places[0], sub))
        ctx.sample({"options": opts, "files": len(tree), "forms": [f[0] for f in forms[:12]]})


def runs(ctx, c, rng):
    tree, ws = make(rng)
    opts = options(rng, tree, ws)
    if c.get("big"):
        tree, ws, opts = proj.pkg(rng, c["big"], 4), None, ["--check"]
    with ctx.box(tree) as box:
        js0 = [(j, n) for j, n in lab.list_names(box, opts)]
        # keep the run small: more mutants than this say no more about order
        if len(js0) > 60 and not c.get("big"):
            opts = [o for o in opts if not o.startswith("--shard") and not re.fullmatch(r"\d+/\d+", o)]
            total = len(lab.list_names(box, opts))
            n = total // 40 + 1
            opts += ["--shard", "%d/%d" % (rng.randrange(n), n)]
        hist = rng.random() < 0.25
        seed = rng.randrange(1 << 30)
        plan = lab.plan_mix(rng, seed, sleeps=(0, 0, 2, 8))
        od = []
        if rng.random() < 0.3 and not hist:
            d = os.path.join(box.dir, "in.diff")
            f = rng.choice([p for p in tree if p.endswith(".rs")])
            lines = tree[f].split("\n")[:-1]
            new = ["+" + l for l in lines]
            open(d, "w").write("--- /dev/null\n+++ b/%s\n@@ -0,0 +1,%d @@\n%s\n" % (f, len(lines), "\n".join(new)))
            opts += ["--in-diff", d]
        if hist:
            r = box.run(opts + ["--iterate"], plan=plan).finish()
            opts.append("--iterate")
        want = lab.list_names(box, opts)
        if not want:
            ctx.skip("no mutants in " + c["name"])
            return
        outs = {}
        ref = None
        saved = core.snapshot(os.path.join(box.src, "mutants.out")) if hist else None
        listed = {}
        r = box.run(opts + ["--list", "--json", "--diff"], plan_extra=False, ref={}).finish()
        for m in json.loads(r.stdout):
            d = m.pop("diff")
            listed.setdefault(model.mid(m), set()).add(d)
        shapes = [(1, "--no-shuffle"), (1, "--shuffle"), (rng.choice([2, 3]), "--no-shuffle"), (rng.choice([4, 8]), rng.choice(["--shuffle", None]))]
        rng.shuffle(shapes)
        if c.get("big"):
            shapes = [(1, "--no-shuffle"), (8, "--shuffle")]
        for jobs, sh in shapes[: 3 if not ctx.thorough else 4]:
            if saved is not None:
                core._rmtree(os.path.join(box.src, "mutants.out"))
                core._rmtree(os.path.join(box.src, "mutants.out.old")) if os.path.isdir(os.path.join(box.src, "mutants.out.old")) else None
                core.write_snapshot(os.path.join(box.src, "mutants.out"), saved)
            a = opts + ["--jobs", str(jobs)] + ([sh] if sh else [])
            o = lab.run_lab(box, a, plan, want_list=False)
            lab.need_outputs(o)
            exp = collections.Counter(model.mid(m) for m, _ in want)
            got = collections.Counter(model.mid(m) for m in o.mutants)
            if exp != got:
                raise Violation("the run is of other mutants than listed: not tested %d, unexpected %d" % (sum((exp - got).values()), sum((got - exp).values())), run=o.run.brief(), missing=[json.loads(x) for x in (exp - got)][:2], extra=[json.loads(x) for x in (got - exp)][:2])
            lab.mon_once(ctx, o)
            keys = {}
            for m, n in want:
                keys.setdefault(model.mutant_key(m, o.before), n)
            order = [keys.get(s.key[0]) if len(s.key) == 1 else None for s in o.scens if s.key]
            if jobs == 1 and sh == "--no-shuffle":
                lo = [keys[model.mutant_key(m, o.before)] for m, _ in want]
                if order != lo:
                    d = next(i for i in range(len(lo)) if order[i] != lo[i])
                    raise Violation("with --no-shuffle and one job, mutant %d tested was %r, listed is %r" % (d, order[d], lo[d]), run=o.run.brief())
                ro = [model.mid(x["scenario"]["Mutant"]) for x in o.outcomes["outcomes"] if x["scenario"] != "Baseline"]
                if ro != [model.mid(m) for m, _ in want]:
                    raise Violation("with --no-shuffle and one job, outcomes.json is not in the listed order", run=o.run.brief())
                ctx.count("orders_judged")
            res = {}
            for x in o.outcomes["outcomes"]:
                if x["scenario"] != "Baseline":
                    res[model.mid(x["scenario"]["Mutant"])] = (x["summary"], tuple((p["phase"], json.dumps(p["process_status"])) for p in x["phase_results"]))
            if ref is None:
                ref, refa = res, a
            elif res != ref:
                k = next(k for k in res if res[k] != ref.get(k))
                raise Violation("the outcome of a mutant depends on jobs or order: %s with %s, %s with %s" % (ref.get(k), refa, res[k], a), mutant=json.loads(k), run=o.run.brief())
            if listed is not None:
                for x in o.outcomes["outcomes"]:
                    if x["scenario"] != "Baseline":
                        with open(os.path.join(box.src, "mutants.out", x["diff_path"]), encoding="utf-8", newline="") as f:
                            if f.read() not in listed[model.mid(x["scenario"]["Mutant"])]:
                                raise Violation("the diff of a mutant listed is not that of the run", listed=listed[model.mid(x["scenario"]["Mutant"])], diff=x["diff_path"], run=o.run.brief())
                        ctx.count("diffs_compared")
                listed = None
            ctx.count("evaluations")
            ctx.count("mutants_run", len(res))
            ctx.saw("nontrivial", hash(tuple(order)))
        ctx.sample({"options": opts, "mutants": len(want), "shapes": shapes})
