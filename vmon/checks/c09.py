"""C09: interrupting the program stops everything promptly."""
import os
import signal
import time

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: signals at many points of monitored runs; process table, scratch space, tree and result files judged afterwards"
RULE = "one evaluation is one interrupted run; non-trivial if the signal arrived before the run was over, distinct by (signal, point, jobs, options, exit code)"
ASSUMPTIONS = ["cargo may be started once more by a worker that was just about to; starts more than one second after the signal count as going on", "verdicts have to repeat once", "not exiting means: still running 20 s after the signal"]
CONFIRM = {"sig": 1, "fault": 1, "hup": 1}
WORKERS = 12


def cases(rng, tier):
    out = []
    n = 40 if tier == "quick" else 300
    for k in range(n):
        jobs = [1, 1, 2, 4][k % 4]
        out.append({
            "name": "sig%d" % k, "kind": "sig", "sig": ["SIGINT", "SIGTERM", "SIGHUP"][k % 3], "jobs": jobs, "in_place": jobs == 1 and rng.random() < 0.5, "leak": rng.random() < 0.15,
            "point": rng.choice(["copy", "base-build", "base-test", "mut", "mut", "mut", "mut-late", "after", "idle"]), "at": rng.choice([1, 2, 3, 4, 6, 9]), "wait": rng.choice([0, 0, 1, 3, 10, 40, 90]), "gc": rng.choice([False, False, False, True, "ignore"]), "opt": rng.choice([[], [], ["--check"], ["--baseline=skip"], ["--shuffle"], ["--test-tool=nextest"], ["--no-times"]]), "ig": k % 9 == 4, "slow": rng.choice([0, 0, 300, 800]) if k % 9 != 4 else 0, "texit": rng.choice([-1, -1, 0, 101]), "twice": rng.random() < 0.1,
        })
    out.append({"name": "lock", "kind": "sig", "sig": "SIGINT", "jobs": 1, "point": "lock", "in_place": False, "leak": False, "at": 0, "wait": 60, "gc": False, "opt": [], "ig": False, "twice": False})
    out.append({"name": "lock-term", "kind": "sig", "sig": "SIGTERM", "jobs": 2, "point": "lock", "in_place": False, "leak": False, "at": 0, "wait": 150, "gc": False, "opt": [], "ig": False, "twice": False})
    for h in lab.hup_cases(rng, 24 if tier == "quick" else 120):
        if h["sig"]:
            jobs = rng.choice([1, 2, 4])
            out.append(dict(h, jobs=jobs, in_place=jobs == 1 and rng.random() < 0.5, leak=False, point="hup", gc="ignore" if h["gci"] else rng.random() < 0.3, opt=rng.choice([[], ["--check"], ["--baseline=skip"]]), ig=False, twice=False))
    n = 14 if tier == "quick" else 120
    for k in range(n):
        out.append({"name": "call%d" % k, "kind": "fault", "sig": rng.choice(["SIGINT", "SIGTERM"]), "jobs": rng.choice([1, 2, 3]), **dict(zip(("ops", "sub"), rng.choice([("write", "mutants.out"), ("write", "outcomes"), ("rename", "outcomes"), ("trunc", "/diff/"), ("append", "/log/"), ("write", ".rs"), ("trunc", "/tmp/cargo-mutants"), ("mkdir", "/tmp/cargo-mutants"), ("copy_file_range", "/tmp/cargo-mutants"), ("fchmod", "/tmp/cargo-mutants"), ("openw", "/")]))), "nth": rng.choice([1, 2, 4, 7, 11, 16]), "in_place": False, "leak": False, "gc": False, "opt": [], "ig": False, "point": "call", "at": 0, "wait": 0, "twice": False})
    return out


def run(ctx, c, rng):
    nmut = 8 if c["kind"] == "fault" else 26
    tree = proj.pkg(rng, nmut, 2)
    if c["point"] == "copy":
        for i in range(150):
            tree["data/f%d.txt" % i] = "x" * 50
    gc = {False: "", True: "gc=60000;", "ignore": "gci=60000;"}[c["gc"]]
    ig = "igterm;" if c["ig"] else ""
    if c.get("slow"):
        ig += "termslow=%d;" % c["slow"]
    if c.get("texit", -1) >= 0:
        ig += "termexit=%d;" % c["texit"]
    gc = ig + gc
    s1 = gc + "sleep=%d;" % (rng.choice([150, 200]) if not ig else 1500)
    plan = ["rule build base %s%sexit=0" % (gc, "hang;" if c["point"] == "base-build" else ""), "rule test base %s%sexit=0" % (gc, "hang;" if c["point"] == "base-test" else ""), "rule * base exit=0"]
    if c["point"] in ("mut", "mut-late", "call", "hup"):
        quick = rng.random() < 0.3
        plan += ["rule build mut %sexit=0" % ("sleep=30;" if quick else s1), "rule check mut %sexit=0" % s1, "rule test mut " + lab.weights(rng.randrange(1 << 30), [(1, s1 + "exit=0"), (1, s1 + "exit=1")])]
    else:
        plan += ["rule build mut %sexit=0" % gc, "rule test mut %shang" % gc, "rule check mut hang"]
    args = (["--in-place"] if c["in_place"] else ["--jobs", str(c["jobs"])]) + c["opt"] + ["--timeout=200"] + (["--leak-dirs"] if c["leak"] else [])
    sig = getattr(signal, c["sig"])
    pre = {}
    if c["kind"] == "fault":
        pre["fault"] = "%s:%s:%d:S%d" % (c["ops"], c["sub"], c["nth"], sig)
    if c["point"] == "copy":
        pre["delay"] = "6000:%d" % rng.randrange(1000)
    if c["ig"]:
        pre["clock"] = 4
    with ctx.box(tree) as box:
        before = core.snapshot(box.src)
        holder = None
        if c["point"] == "lock":
            holder = box.start([], plan=["rule * * hang"], pre={})
            holder.wait_event(lambda e: e["ev"] == "start")
        kw = {}
        if c["kind"] == "hup":
            kw = {"streams": lab.hup_streams(c), "env": {"TERM": "xterm"}}
            args += ["--level=" + c["level"]] if c["level"] else []
        r = box.start(args, plan=plan, pre=pre, **kw)
        tsig = None
        if c["kind"] == "hup":
            lab.hup_started(c)(r)
            tsig = time.monotonic_ns()
        if c["kind"] == "sig":
            deadline = time.monotonic() + 25
            while time.monotonic() < deadline and r.p.poll() is None:
                ev = [e for e in r.read_events() if e["ev"] == "start"]
                p = c["point"]
                if p == "copy" and any(n.startswith("cargo-mutants") for n in os.listdir(box.tmp)):
                    break
                if p == "base-build" and ev or p == "base-test" and len(ev) >= 2:
                    break
                if p in ("mut", "mut-late", "after", "idle") and len(ev) >= c["at"] + (4 if p == "mut-late" else 2):
                    break
                if p in ("after", "idle") and len(ev) >= 3:
                    break
                if p == "lock" and (time.monotonic_ns() - r.t0) / 1e6 > 150 + c["wait"]:
                    break
                time.sleep(0.002)
            time.sleep(c["wait"] / 1000)
            tsig = time.monotonic_ns()
            r.signal(sig)
            if c["twice"]:
                time.sleep(0.03)
                r.signal(sig)
        r.wait(30 if c["kind"] == "fault" else 20)
        hung = r.hung
        pl = r.prelines()
        if c["kind"] == "fault":
            f = [l for l in pl if l[0] == "FAULT"]
            if f:
                tsig = f[0][4]
        left = dict(r.left_names)
        tmp = lab.tmp_left(box)
        t_exit = r.t1
        r.finish()
        if holder:
            # the run that holds the lock lives on: its processes and directories are its own
            hl = [n for n in os.listdir(box.tmp)]
            holder.signal(signal.SIGKILL)
            holder.wait(5)
            holder.finish()
        o = lab.Obs()
        o.run, o.src, o.before, o.strict = r, box.src, before, False
        lab.finish_obs(o)
        if tsig is None:
            ctx.skip("the call was never made: " + c["name"])
            return
        if hung:
            raise Violation("still running 20 s after %s" % c["sig"], run=r.brief(), invocations=[i.short() for i in o.invs][-4:])
        if r.panicked and c["kind"] != "hup":
            # (with nowhere left to print to, giving up printing is all right)
            raise Violation("panicked when interrupted", run=r.brief())
        # what an earlier cargo left behind when it ended by itself is not the program's to end
        over = {i.pid for i in o.invs if i.end is not None and i.end < tsig}
        left = {p: n for p, n in left.items() if r.left_pgid.get(p) not in over}
        late = [i for i in o.invs if i.t > tsig + 1_000_000_000]
        done = all(i.end is not None for i in o.invs) and o.outcomes is not None and len([x for x in o.outcomes["outcomes"] if x["scenario"] != "Baseline"]) == len(o.mutants or [])
        if r.rc == 0:
            if not done:
                raise Violation("exit code 0 after %s, with work unfinished" % c["sig"], run=r.brief())
            ctx.skip("finished before the signal: " + c["name"])
            return
        if done and r.rc in (2, 3):
            ctx.skip("finished before the signal: " + c["name"])
            return
        if late:
            raise Violation("cargo was started %.1f s after %s" % ((late[-1].t - tsig) / 1e9, c["sig"]), run=r.brief())
        if left and not holder:
            raise Violation("processes are still running after %s: %s" % (c["sig"], left), run=r.brief())
        if r.rc is not None and r.rc < 0:
            # died of the signal: only possible before the handler is installed
            if o.invs or c["point"] not in ("copy", "lock", "call"):
                raise Violation("killed by %s instead of shutting down" % c["sig"], run=r.brief())
            ctx.skip("signal arrived before the handler: " + c["name"])
            return
        if tmp and not c["leak"] and not holder:
            raise Violation("scratch directories left after %s: %s" % (c["sig"], tmp), run=r.brief())
        if holder and len(tmp) > 1:
            raise Violation("scratch directories left after %s: %s" % (c["sig"], tmp), run=r.brief())
        d = core.snap_diff(before, o.after)
        if d:
            raise Violation("the source tree differs after %s: %s" % (c["sig"], d), run=r.brief())
        if holder:
            ctx.saw("nontrivial", ("lock", c["sig"], r.rc))
            return
        # outcomes: nothing interrupted is reported, nothing finished is lost
        if o.mutants is not None and o.invs:
            ended = {}
            for s in o.scens:
                last = s.invs[-1]
                complete = last.end is not None and not (last.phase == "build" and last.code == 0 and not last.sig)
                ended[s.key[0] if s.key and len(s.key) == 1 else s.key] = (complete, s)
            reported = set()
            for x in (o.outcomes or {}).get("outcomes", []):
                k = None if x["scenario"] == "Baseline" else model.mutant_key(x["scenario"]["Mutant"], before)
                reported.add(k)
                if k not in ended or not ended[k][0]:
                    raise Violation("an outcome (%s) is reported for a scenario that was interrupted" % x["summary"], outcome=x, run=r.brief())
            for k, (complete, s) in ended.items():
                later = [i for i in o.invs if i.cwd == s.cwd and i.t > s.invs[-1].t and i.t < tsig]
                if complete and later and k not in reported:
                    raise Violation("the outcome of a mutant that had finished before the signal is lost", run=r.brief())
                if complete:
                    ctx.count("finished_kept" if k in reported else "finished_at_signal")
                else:
                    ctx.count("interrupted_scenarios")
            for n, l in o.lists.items():
                for x in l or []:
                    ctx.count("lines_checked")
            tot = sum(len(l or []) for l in o.lists.values())
            if o.outcomes is not None and not c["opt"] == ["--check"] and tot != sum(1 for x in o.outcomes["outcomes"] if x["scenario"] != "Baseline"):
                raise Violation("the text lists have %d lines, outcomes.json has another number of outcomes" % tot, run=r.brief())
        ctx.count("exit_ms", int((t_exit - tsig) / 1e6))
        ctx.saw("nontrivial", (c["sig"], c["point"], c["jobs"], c["in_place"], " ".join(c["opt"]), c["gc"], c.get("ends") or "", r.rc, len(o.invs)))
        ctx.sample({"case": c["name"], "sig": c["sig"], "point": c["point"], "rc": r.rc, "exit_after_ms": int((t_exit - tsig) / 1e6)})
