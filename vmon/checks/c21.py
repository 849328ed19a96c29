"""C21: previous results are rotated, and runs never share an output directory."""
import collections
import json
import os
import shutil
import signal
import threading
import time

from .. import core, lab, model, proj
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: output directories are compared across histories of runs, and the file operations of overlapping runs (LD_PRELOAD monitor) are checked for interleaving"
RULE = "one evaluation is one run of a history or one group of overlapping runs; non-trivial elements are distinct (kind, previous kind, place, what existed before) and distinct (number of runs, order in which they got the directory, what happened to the holder)"
ASSUMPTIONS = ["lock.json is rewritten when a directory is rotated and is not compared", "--iterate is not overlapped with another run (the list of caught mutants is read before waiting)"]
CONFIRM = {}


def cases(rng, tier):
    out = []
    n = 26 if tier == "quick" else 200
    for k in range(n):
        out.append({"name": "hist%d" % k, "kind": "hist", "place": ["tree", "opt", "env", "cfg", "rel", "inplace"][k % 6], "steps": rng.choice([3, 4, 5])})
    n = 40 if tier == "quick" else 300
    for k in range(n):
        out.append({"name": "both%d" % k, "kind": "both", "runs": rng.choice([2, 2, 3, 4]), "place": rng.choice(["tree", "opt", "env"]), "holder": ["ends", "ends", "killed", "interrupted", "stopped", "free", "free", "free", "basefail"][k % 9], "waiter": rng.choice(["waits", "waits", "waits", "int"]), "delay": rng.choice([0, 0, 1000, 5000]), "before": rng.random() < 0.6})
    for k in range(2 if tier == "quick" else 6):
        # somebody else uses the directory for long
        out.insert(0, {"name": "long%d" % k, "kind": "both", "runs": 3, "place": ["tree", "opt"][k % 2], "holder": ["ends", "stopped"][k % 2], "waiter": "waits", "delay": 0, "before": k % 2 == 0, "hold": 12 if tier == "quick" else 45})
    return out


def where_is(box, place):
    """(args, env, directory that holds mutants.out)"""
    if place in ("tree", "inplace"):
        return (["--in-place"] if place == "inplace" else []), {}, box.src
    d = os.path.join(box.dir, "results")
    if place == "opt":
        return ["--output", d], {}, d
    if place == "rel":
        return ["-o", "results"], {}, d
    if place == "env":
        return [], {"CARGO_MUTANTS_OUTPUT": d}, d
    os.makedirs(os.path.join(box.src, ".cargo"), exist_ok=True)
    with open(os.path.join(box.src, ".cargo", "mutants.toml"), "w") as f:
        f.write("output = '%s'\n" % d)
    return [], {}, d


def snap(d):
    s = core.snapshot(d, ()) if os.path.isdir(d) else None
    if s is not None:
        s.pop("lock.json", None)
    return s


FILES = {"caught.txt", "missed.txt", "timeout.txt", "unviable.txt", "debug.log", "log", "diff", "mutants.json", "lock.json", "outcomes.json", "previously_caught.txt"}


def run(ctx, c, rng):
    (hist if c["kind"] == "hist" else both)(ctx, c, rng)


def hist(ctx, c, rng):
    tree = proj.pkg(rng, rng.choice([3, 6]), 2, kinds=["bool", "unit", "int"])
    with ctx.box(tree) as box:
        args, env, d = where_is(box, c["place"])
        new, old = os.path.join(d, "mutants.out"), os.path.join(d, "mutants.out.old")
        prev = "start"
        k0 = rng.random()
        if k0 < 0.25:
            core.write_tree(old, {"ancient": "x", "log/sub/deep": "y", "ro": {"data": "z", "mode": 0o400}})
            prev = "only old"
        elif k0 < 0.5:
            core.write_tree(new, {"note": "from the user", "log/x.log": "l"})
            prev = "foreign"
        for step in range(c["steps"]):
            kind = rng.choice(["ok"] * 4 + ["basefail", "kill", "early", "early", "interrupt", "nomutants", "list", "listfiles", "badre", "baddiff", "check", "iterate", "badshard"])
            if os.path.isdir(new) and rng.random() < 0.4:
                core.write_tree(new, {"user note %d" % step: "keep me", "log/extra%d" % step: {"link": "nowhere"}})
            x = rng.random() * (0.4 if os.path.isdir(old) else 1)
            if os.path.isdir(new) and x < 0.15:
                # the user moves the results away, or empties the directory
                shutil.rmtree(new)
                if x < 0.1:
                    core.write_tree(new, {} if x < 0.04 else {"lock.json": "{}"} if x < 0.06 else {"mine": "x", "log": {"dir": 0o755}} if x < 0.08 else {"outcomes.json": "{}"})
                    os.makedirs(new, exist_ok=True)
                prev = "emptied"
            bn, bo = snap(new), snap(old)
            a = list(args)
            plan = lab.plan_mix(rng, rng.randrange(1 << 30), sleeps=(0, 1))
            rotates = True
            if kind == "basefail":
                plan = ["rule * * exit=1"]
            elif kind == "nomutants":
                a += ["-F", "no such mutant"]
            elif kind in ("list", "listfiles", "badre", "baddiff", "badshard"):
                rotates = False
                a += {"list": ["--list"], "listfiles": ["--list-files"], "badre": ["-E", "(("], "baddiff": ["--in-diff", "/no/such/file"], "badshard": ["--shard", "3/2"]}[kind]
            elif kind == "check":
                a += ["--check"]
            elif kind == "iterate" or (kind in ("kill", "interrupt", "basefail", "early") and rng.random() < 0.5):
                a += ["--iterate"]
            r = box.start(a, plan=plan, env=env)
            if kind in ("kill", "interrupt", "early"):
                k = rng.randrange(1, 6) if kind != "early" else 1
                r.wait_event(lambda e: e["ev"] == "start" and sum(1 for x in r.read_events() if x["ev"] == "start") >= k, 20)
                r.signal(signal.SIGKILL if kind != "interrupt" else signal.SIGINT)
            r.wait(60)
            r.finish()
            if r.hung or (r.panicked and kind not in ("kill", "early")):
                raise Violation("the program hung or panicked", run=r.brief())
            an, ao = snap(new), snap(old)
            ctx.count("evaluations")
            ctx.saw("nontrivial", (kind, prev, c["place"], bn is not None, bo is not None))
            if not rotates:
                if (an, ao) != (bn, bo):
                    raise Violation("%s changed or rotated the previous results" % kind, run=r.brief())
                continue
            if an is None:
                raise Violation("no mutants.out after the run in %s" % d, run=r.brief())
            junk = sorted({p.split("/")[0] for p in an} - FILES - ({"outcomes.json.tmp"} if kind in ("kill", "early") else set()))
            if junk:
                raise Violation("the new mutants.out is not fresh, it has %s" % junk, run=r.brief())
            if bn is not None:
                if ao is None:
                    raise Violation("the previous mutants.out was not kept as mutants.out.old", run=r.brief())
                df = core.snap_diff(bn, ao)
                if df:
                    raise Violation("mutants.out.old is not the previous mutants.out: %s" % df[:4], run=r.brief())
                ctx.count("rotations_compared")
            elif ao != bo:
                raise Violation("mutants.out.old changed although there was no mutants.out: %s" % core.snap_diff(bo or {}, ao or {})[:4], run=r.brief())
            if kind in ("ok", "check", "iterate"):
                ms, os_ = r.out_json("mutants.json", d), r.out_json("outcomes.json", d)
                want = collections.Counter(model.mid(m) for m in ms)
                if ms and want != collections.Counter(model.mid(x["scenario"]["Mutant"]) for x in os_["outcomes"] if x["scenario"] != "Baseline"):
                    raise Violation("the new mutants.out does not hold the results of this run", run=r.brief())
            # nothing appears next to it, nor in the tree if the results go elsewhere
            if d != box.src:
                ex = sorted(set(os.listdir(d)) - {"mutants.out", "mutants.out.old"})
                if ex or os.path.exists(os.path.join(box.src, "mutants.out")):
                    raise Violation("unexpected files: %s" % (ex or "mutants.out in the tree"), run=r.brief())
            prev = kind
        ctx.sample({"case": c["name"], "place": c["place"]})


OPENS = ("openw", "append", "create")


def both(ctx, c, rng):
    tree = proj.pkg(rng, 3 * c["runs"], 2, kinds=["bool", "unit", "int"])
    with ctx.box(tree) as box:
        args, env, d = where_is(box, c["place"])
        new, old = os.path.join(d, "mutants.out"), os.path.join(d, "mutants.out.old")
        if c["before"]:
            core.write_tree(new, {"note": "earlier results", "log/x": "1"})
        n = c["runs"]
        full = [m for m, _ in lab.list_names(box)]
        if len(full) < n:
            raise HarnessError("too few mutants")
        gate = os.path.join(box.dir, "gate")
        held = c["holder"] not in ("free",)
        runs = []
        t0 = time.monotonic_ns()

        def start(i):
            mid = rng.choice(["sleep=0", "sleep=3", "sleep=20"])
            first = "waitfile=%s;" % gate if held and i == 0 else ""
            end = "exit=1" if c["holder"] == "basefail" and i == 0 else "exit=0"
            plan = ["rule test base %s%s;%s" % (first, mid, end), "rule test mut %s;exit=%d" % (mid, rng.choice([0, 101])), "rule * * exit=0"]
            a = args + ["--shard", "%d/%d" % (i, n), "--jobs", str(rng.choice([1, 2]))]
            pre = {}
            if c["delay"]:
                pre["delay"] = "%d:%d" % (c["delay"], rng.randrange(1 << 20))
            return box.start(a, plan=plan, env=env, pre=pre)

        holder_snap = None
        if held:
            runs.append(start(0))
            if not runs[0].wait_event(lambda e: e["ev"] == "start" and "--no-run" not in e.get("argv", []), 30):
                runs[0].wait(1)
                runs[0].finish()
                raise Violation("the first run did not start its tests", run=runs[0].brief())
            time.sleep(0.05)
            holder_snap = core.snapshot(new, ())
            for i in range(1, n):
                runs.append(start(i))
            # the program polls every 2 ms here instead of every 100 ms: this is a long wait for it
            time.sleep(c.get("hold") or rng.choice([0.15, 0.4, 0.8]))
            if c["holder"] == "stopped":
                runs[0].signal(signal.SIGSTOP)
                time.sleep(0.3)
            s = core.snapshot(new, ())
            if s != holder_snap:
                raise Violation("a waiting run altered the output directory in use: %s" % core.snap_diff(holder_snap, s)[:4], runs=[r.brief() for r in runs])
            early = [r for r in runs[1:] if any(e["ev"] == "start" for e in r.read_events())]
            if early:
                raise Violation("a run tested something while another was using the same output directory", run=early[0].brief())
            gone = [r for r in runs[1:] if r.p.poll() is not None]
            if gone:
                gone[0].wait(1)
                raise Violation("a run gave up rather than waiting for another", run=gone[0].finish().brief())
            ctx.count("waits_observed", n - 1)
            if c["waiter"] == "int" and n > 2:
                runs[1].signal(signal.SIGINT)
                runs[1].wait(20)
                if runs[1].hung or runs[1].rc != 1:
                    raise Violation("an interrupted waiting run should end with code 1", run=runs[1].finish().brief())
                s = core.snapshot(new, ())
                if s != holder_snap:
                    raise Violation("an interrupted waiting run altered the directory: %s" % core.snap_diff(holder_snap, s)[:4], run=runs[1].brief())
            if c["holder"] == "killed":
                runs[0].signal(signal.SIGKILL)
                runs[0].wait(20)
                runs[0].kill_all()
            elif c["holder"] == "interrupted":
                runs[0].signal(rng.choice([signal.SIGINT, signal.SIGTERM]))
            elif c["holder"] == "stopped":
                runs[0].signal(signal.SIGCONT)
            if c["holder"] != "killed":
                open(gate, "w").close()
        else:
            for i in range(n):
                runs.append(start(i))
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0.01, 0.05, 0.15]))
        for r in runs:
            r.wait(60)
        for r in runs:
            r.finish()
        for r in runs:
            if r.hung:
                raise Violation("a run never got the output directory", run=r.brief(), others=[x.brief() for x in runs if x is not r])
            if r.panicked:
                raise Violation("a run panicked", run=r.brief())
        done = [r for i, r in enumerate(runs) if not (i == 0 and c["holder"] in ("killed", "interrupted")) and not (i == 1 and held and c["waiter"] == "int" and n > 2)]
        for r in done:
            i = runs.index(r)
            if r.rc not in ((0, 2) if not (c["holder"] == "basefail" and i == 0) else (4,)):
                raise Violation("a run that had to share the output directory failed", run=r.brief(), others=[x.brief() for x in runs if x is not r])
        # intervals in which each run was using the directory
        use = []
        for i, r in enumerate(runs):
            pl = r.prelines()
            mk = [t for op, p, ret, e, t in pl if op in ("mkdir", "mkdirat") and os.path.basename(p) == "mutants.out" and ret >= 0]
            ends = [e["t"] for e in r.events if e["ev"] in ("end", "start")]
            if not mk:
                if r in done:
                    raise HarnessError("no mkdir seen: %s" % r.brief())
                continue
            if len(mk) > 1:
                raise Violation("a run created mutants.out twice", run=r.brief())
            last = [t for op, p, ret, e, t in pl if ret >= 0 and op != "write" and "/mutants.out/" in p]
            use.append((mk[0], max(ends + last + mk), i))
        use.sort()
        for (a0, a1, i), (b0, b1, j) in zip(use, use[1:]):
            if b0 < a1 and not (i == 0 and c["holder"] == "killed"):
                raise Violation("two runs used the same output directory at the same time (%d and %d)" % (i, j), runs=[runs[i].brief(), runs[j].brief()])
        for a0, a1, i in use:
            for j, q in enumerate(runs):
                if j == i:
                    continue
                for op, p, ret, e, t in q.prelines():
                    if not (a0 < t < a1) or ret < 0 or op in ("kill", "killpg"):
                        continue
                    if i == 0 and c["holder"] == "killed" and t > (runs[0].t1 - 50_000_000):
                        continue
                    rp = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
                    if rp.startswith(os.path.realpath(d) + "/mutants.out") and not (os.path.basename(p) == "lock.json" and op in OPENS):
                        raise Violation("a run changed %s while another was using it (%s)" % (os.path.relpath(rp, os.path.realpath(d)), op), changer=q.brief(), user=runs[i].brief())
                    ctx.count("operations_watched")
        # the last two users' results are whole, and nothing is mixed
        order = [i for _, _, i in use]
        for where, i in zip((new, old), reversed(order)):
            if not os.path.isdir(where):
                raise Violation("%s is missing after several runs" % os.path.basename(where), runs=[r.brief() for r in runs])
            ms = json.load(open(os.path.join(where, "mutants.json")))
            want = collections.Counter(model.mid(m) for k, m in enumerate(full) if k % n == i)
            if collections.Counter(map(model.mid, ms)) != want:
                raise Violation("%s does not hold the mutants of the run that made it" % os.path.basename(where), runs=[r.brief() for r in runs], order=order)
            if runs[i] in done and not (c["holder"] == "basefail" and i == 0):
                oj = json.load(open(os.path.join(where, "outcomes.json")))["outcomes"]
                got = collections.Counter(model.mid(x["scenario"]["Mutant"]) for x in oj if x["scenario"] != "Baseline")
                if got != want:
                    raise Violation("%s does not hold all the outcomes of the run that made it" % os.path.basename(where), runs=[r.brief() for r in runs], order=order)
                logs = {x["log_path"] for x in oj} | {x["diff_path"] for x in oj if x.get("diff_path")}
                have = {os.path.join(s, f) for s in ("log", "diff") for f in os.listdir(os.path.join(where, s))}
                if logs != have:
                    raise Violation("logs and diffs in %s are not those of its run: %s" % (os.path.basename(where), sorted(logs ^ have)[:4]), order=order)
        ctx.count("evaluations")
        ctx.count("overlapping_runs", n)
        ctx.saw("nontrivial", (n, tuple(order), c["holder"], c["waiter"], c["place"], c["before"]))
        ctx.sample({"case": c["name"], "order": order, "holder": c["holder"]})
