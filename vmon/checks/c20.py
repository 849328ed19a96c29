"""C20: --iterate skips exactly the mutants already caught or unviable."""
import collections
import os
import re
import shutil
import signal

from .. import core, lab, model, proj, syn
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: histories of iterated runs of the real binary with scripted outcomes, edits, failures and interrupts, checked against a model of which names have been caught"
RULE = "one evaluation is one run of a history; non-trivial elements are distinct (kind of step, previous step, history empty?, skipped some?, tested some?)"
ASSUMPTIONS = ["mutants are matched by name, as documented; runs of one history do not overlap in time"]


def cases(rng, tier):
    n = 44 if tier == "quick" else 400
    return [{"name": "hist%d" % k, "steps": rng.choice([3, 4, 5, 6]) + (3 if tier == "thorough" else 0), "nmut": rng.choice([3, 6, 10, 16]), "out": rng.choice([None, None, None, "opt", "env", "cfg"])} for k in range(n)] + [
        {"name": "large%d" % k, "steps": 4, "nmut": 90, "out": None, "large": True} for k in range(3 if tier == "quick" else 12)
    ]


class H:
    def __init__(self):
        self.names = set()


def edit(rng, box, tree):
    """Change a source file; mutants may move, appear or disappear."""
    f = rng.choice([p for p in tree if p.endswith(".rs")])
    k = rng.choice(["top", "end", "fn", "del", "revert"])
    t = tree[f]
    if k == "top":
        t = "// new comment %d\n" % rng.randrange(99) + t
    elif k == "end":
        t = t + "// end\n"
    elif k == "fn":
        t = t + "\n" + proj.fn_text(rng.choice(["bool", "int", "op", "raw", "method", "trait"]), 500 + rng.randrange(400))
    elif k == "del":
        i = t.rfind("\npub ")
        if i > 0:
            t = t[: i + 1]
    elif k == "revert":
        t = t.replace("// new comment", "// old comment")
        i = t.find("\n")
        if t.startswith("// "):
            t = t[i + 1 :]
    tree[f] = t
    with open(os.path.join(box.src, f), "w", encoding="utf-8") as fh:
        fh.write(t)


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], 2)
    for k, kind in enumerate(("raw", "long", "trait", "multi", "guard", "longname", "wide")):
        if rng.random() < (0.5 if kind != "wide" else 0.1):
            tree["src/lib.rs"] += "\n" + proj.fn_text(kind, 900 + k)
    for k in range(12 if c.get("large") else 0):
        tree["src/m1.rs"] += "\n" + proj.fn_text("longname", 1900 + k)
    with ctx.box(tree) as box:
        where = box.src
        oargs, env = [], {}
        if c["out"]:
            where = os.path.join(box.dir, "results")
            if c["out"] == "opt":
                oargs = ["--output", where]
            elif c["out"] == "env":
                env = {"CARGO_MUTANTS_OUTPUT": where}
            else:
                os.makedirs(os.path.join(box.src, ".cargo"))
                with open(os.path.join(box.src, ".cargo", "mutants.toml"), "w") as f:
                    f.write("output = '%s'\n" % where)
        outp = os.path.join(where, "mutants.out")
        hist = set()
        prev = "start"
        for step in range(c["steps"]):
            kind = rng.choice(["iter", "iter", "shard", "filter", "edit"] if c.get("large") else ["iter"] * 7 + ["plain", "basefail", "interrupt", "check", "filter", "skipbase", "plainfail", "listonly", "rm", "shard", "shard", "file", "exclude", "shuffle", "inplace", "nextest", "usage", "manual", "nomutants"])
            if step and rng.random() < 0.3:
                edit(rng, box, tree)
            if kind == "rm":
                shutil.rmtree(outp, ignore_errors=True)
                hist = set()
                kind = "iter"
            if kind == "manual" and os.path.isdir(outp):
                full = [n for _, n in lab.list_names(box)]
                pick = rng.sample(full, min(len(full), 2))
                fn = rng.choice(["caught.txt", "unviable.txt", "previously_caught.txt"])
                with open(os.path.join(outp, fn), "a") as f:
                    f.write("".join(x + "\n" for x in pick) + rng.choice(["", "\n", "no such mutant\n"]))
                hist |= set(pick)
                kind = "iter"
            elif kind == "manual":
                kind = "iter"
            full = lab.list_names(box, env=env)
            name = {model.mid(m): n for m, n in full}
            filt = []
            if kind == "filter":
                filt = ["-F", rng.choice(["bool", "op_", "replace", "m1", "int"])]
            elif kind == "nomutants":
                filt = ["-F", "no mutant has this name"]
            elif kind == "file":
                filt = ["-f", "src/m1.rs"]
            elif kind == "exclude":
                filt = ["-e", "src/m1.rs"]
            cand = [n for m, n in full if not filt or ((m["file"] == filt[1]) == (filt[0] == "-f") if kind in ("file", "exclude") else re.search(filt[1], n))]
            iterate = kind not in ("plain", "plainfail")
            want = [n for n in cand if not (iterate and n in hist)]
            args = oargs + filt + (["--iterate"] if iterate else [])
            if kind == "shard":
                # each remaining mutant is in one of the shards
                n = rng.choice([2, 3])
                parts = [[x for _, x in lab.list_names(box, args + ["--shard", "%d/%d" % (k, n)], env=env)] for k in range(n)]
                if sorted(x for p in parts for x in p) != sorted(want):
                    raise Violation("the shards of the listing with --iterate do not add up to the mutants not yet caught", parts=parts, want=want, step=step)
                k = rng.randrange(n)
                args += ["--shard", "%d/%d" % (k, n)]
                cand = want = parts[k]
            if kind == "shuffle":
                args.append("--shuffle")
            if kind == "nextest":
                args.append("--test-tool=nextest")
            if kind == "check":
                args.append("--check")
            if kind == "skipbase":
                args.append("--baseline=skip")
            # the listing shows what will be tested, and changes nothing
            before = core.snapshot(where, ()) if os.path.isdir(where) else {}
            ls = [n for _, n in lab.list_names(box, args, env=env)]
            if (core.snapshot(where, ()) if os.path.isdir(where) else {}) != before:
                raise Violation("--list changed the output directory", args=args)
            if (sorted(ls) if kind == "shuffle" else ls) != (sorted(want) if kind == "shuffle" else want):
                raise Violation(
                    "--list %s: wrongly skipped %s; wrongly included %s" % (" ".join(args), [n for n in want if n not in ls][:3], [n for n in ls if n not in want][:3]),
                    history=sorted(hist), step=step,
                )
            ctx.count("evaluations")
            if kind == "listonly":
                continue
            if kind == "usage":
                r = box.run(args + ["-F", "(("], plan=[], env=env, ref={}).finish()
                if r.rc != 1:
                    raise Violation("a bad pattern was accepted", run=r.brief())
                continue
            seed = rng.randrange(1 << 30)
            if kind in ("basefail", "plainfail"):
                plan = ["rule %s base exit=101" % rng.choice(["build", "test"]), "rule * * exit=0"]
            else:
                plan = lab.plan_mix(rng, seed, hang=1 if rng.random() < 0.15 and kind != "interrupt" and not c.get("large") else 0, sleeps=(0, 1, 3), ok=3, bad=2)
            jobs = rng.choice([1, 1, 3]) if not c.get("large") else 6
            a = args + (["--in-place"] if kind == "inplace" else ["--jobs", str(jobs)]) + ["--timeout", "1"]
            run_ = box.start(a, plan=plan, env=env)
            if kind == "interrupt":
                k = rng.randrange(1, 2 + 2 * len(want))
                seen = [0]

                def enough(e):
                    return e["ev"] == "start" and sum(1 for x in run_.read_events() if x["ev"] == "start") > k

                if run_.wait_event(enough, 20):
                    run_.signal(rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGKILL]))
            run_.wait(60)
            run_.finish()
            if run_.hung or run_.panicked:
                raise Violation("the program hung or panicked", run=run_.brief())
            ms = run_.out_json("mutants.json", where)
            if ms is None:
                if kind == "interrupt":
                    return  # killed before it wrote anything
                raise Violation("no mutants.json after the run", run=run_.brief())
            tested = sorted(name[model.mid(m)] for m in ms)
            if tested != sorted(want):
                raise Violation("the run with %s selected other mutants than those not yet caught: wrongly skipped %s, wrongly tested %s" % (" ".join(args), [n for n in want if n not in tested][:3], [n for n in tested if n not in want][:3]), history=sorted(hist), run=run_.brief())
            try:
                outs = (run_.out_json("outcomes.json", where) or {"outcomes": []})["outcomes"]
            except ValueError:
                raise Violation("outcomes.json is not valid", run=run_.brief())
            done = collections.Counter()
            for x in outs:
                if x["scenario"] != "Baseline":
                    n = name[model.mid(x["scenario"]["Mutant"])]
                    if n not in want:
                        raise Violation("a skipped mutant was tested: " + n, run=run_.brief())
                    done[x["summary"]] += 1
                    ctx.saw("summaries", x["summary"])
            caught = {name[model.mid(x["scenario"]["Mutant"])] for x in outs if x["scenario"] != "Baseline" and x["summary"] in ("CaughtMutant", "Unviable")}
            if kind == "interrupt" and run_.rc != 0:
                # a mutant that was being recorded when the program was killed: take the text lists
                for fn in ("caught.txt", "unviable.txt"):
                    caught |= set((run_.out(fn, where) or b"").decode().split("\n")[:-1]) & set(want)
                if run_.rc is not None and run_.rc < 0:
                    lst = set()
                    for fn in ("caught.txt", "unviable.txt"):
                        lst |= set((run_.out(fn, where) or b"").decode().split("\n")[:-1])
                    caught &= lst  # written in outcomes.json just before the kill, not yet in the list
            pc = run_.out("previously_caught.txt", where)
            if iterate:
                got = set((pc or b"").decode().splitlines())
                if run_.rc is not None and run_.rc < 0 and pc is None:
                    return
                if got - {"", "no such mutant"} != hist:
                    raise Violation("previously_caught.txt does not carry over what was caught before: lost %s, invented %s" % (sorted(hist - got)[:3], sorted(got - hist)[:3]), run=run_.brief())
                hist = hist | caught
            else:
                if pc is not None:
                    raise Violation("previously_caught.txt written without --iterate", run=run_.brief())
                hist = set(caught)
            ctx.saw("nontrivial", (kind, prev, bool(hist), len(want) < len(cand), bool(want), done["MissedMutant"] > 0, done["Timeout"] > 0))
            ctx.count("runs")
            ctx.count("skips_judged", len(cand) - len(want))
            prev = kind
        ctx.sample({"case": c["name"], "steps": c["steps"], "caught_at_end": len(hist)})
