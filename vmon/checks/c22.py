"""C22: the results on disk are complete up to the last finished mutant, at any moment."""
import collections
import json
import os
import signal
import time

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: result files are read by the monitor inside every cargo invocation, and after the program is killed at many points"
RULE = "one evaluation is one run; non-trivial elements are distinct (number of finished mutants, jobs) states at which the result files were read and judged, plus crash points"
ASSUMPTIONS = ["a mutant counts as finished when the same worker has started its next mutant; one whose cargo has ended but whose worker has not started another may or may not be there yet", "durability against power loss is not observed"]


def cases(rng, tier):
    out = []
    n = 40 if tier == "quick" else 160
    for k in range(n):
        out.append({"name": "run%d" % k, "kind": "run", "jobs": [1, 1, 2, 4, 8][k % 5], "nmut": rng.choice([4, 9, 15, 30]), "hang": rng.choice([0, 0, 1]), "opt": rng.choice([[], ["--check"], ["--baseline=skip"], ["--shuffle"], ["--no-shuffle"], ["--in-place"], ["--iterate"], ["--test-tool=nextest"]]), "delay": rng.choice([0, 2000])})
    for k in range(1 if tier == "quick" else 6):
        out.append({"name": "many%d" % k, "kind": "run", "jobs": 8, "nmut": 80 + 30 * k, "hang": 0, "opt": [], "delay": 0})
    n = 70 if tier == "quick" else 260
    for k in range(n):
        out.append({"name": "kill%d" % k, "kind": "kill", "jobs": [1, 1, 2, 4][k % 4], "nmut": rng.choice([6, 12]), "hang": 0, "opt": [], "delay": 0, "at": rng.choice([1, 2, 3, 5, 8, 12]), "wait": rng.choice([0, 0, 1, 2, 5, 20])})
    n = 70 if tier == "quick" else 200
    for k in range(n):
        op, sub = rng.choice([("write", "outcomes"), ("trunc", "outcomes"), ("rename", "outcomes"), ("write", ".txt"), ("write", "missed.txt"), ("write", "caught.txt"), ("write", "mutants.json"), ("write", "/log/"), ("append", "/log/"), ("trunc", "/diff/"), ("write", ".rs"), ("unlinkat", "/tmp/")])
        out.append({"name": "crash%d" % k, "kind": "crash", "jobs": rng.choice([1, 1, 2, 4]), "nmut": 6, "hang": 0, "opt": [], "delay": 0, "ops": op, "sub": sub, "nth": rng.choice([1, 2, 3, 4, 6, 9]), "what": rng.choice(["k", "k", "K", "s"])})
    return out


def parse(b, what, run):
    try:
        return json.loads(b)
    except ValueError:
        raise Violation("%s is not valid JSON: %r" % (what, b[:200]), run=run.brief())


def judge_files(ctx, o, files, invs, at, until=None):
    """files: name->bytes, read between the times `at` and `until` (None: after the end)."""
    r = o.run
    m = parse(files["mutants.json"], "mutants.json", r) if "mutants.json" in files else None
    if m is None:
        raise Violation("mutants.json does not exist while mutants are being tested", run=r.brief())
    o.mutants = o.mutants or m
    if collections.Counter(map(model.mid, m)) != collections.Counter(map(model.mid, o.mutants)):
        raise Violation("mutants.json changed during the run", run=r.brief())
    outs = parse(files["outcomes.json"], "outcomes.json", r)["outcomes"] if "outcomes.json" in files else []
    keyof = lambda s: s.key[0] if s.key and len(s.key) == 1 else s.key

    def state(at):
        """The mutants that are finished, and those that may be, as of a time."""
        sc = model.scenarios([i for i in invs if at is None or i.t <= at])
        must, may = collections.Counter(), collections.Counter()
        for s in sc:
            last = s.invs[-1]
            later = any(x.cwd == s.cwd and x.invs[0].t > last.t for x in sc)
            over = last.end if last.end is not None else last.term
            if later:
                must[keyof(s)] += 1
                may[keyof(s)] += 1
            elif over is not None and (at is None or over <= at) and not (last.phase == "build" and last.code == 0 and not last.sig and last.end is not None):
                may[keyof(s)] += 1
        return must, may

    must, may = state(at)[0], state(until)[1]
    got = collections.Counter(None if x["scenario"] == "Baseline" else model.mutant_key(x["scenario"]["Mutant"], o.before) for x in outs)
    if must - got:
        raise Violation("%d finished mutants are missing from outcomes.json" % sum((must - got).values()), run=r.brief(), lost=[k and k[0] for k in must - got])
    if got - may:
        raise Violation("outcomes.json reports %d mutants that have not finished" % sum((got - may).values()), run=r.brief(), invented=[k and k[0] for k in got - may])
    # text lists: exactly the outcomes, except for mutants that are just being recorded
    slack = sum((may - must).values())
    lines = collections.Counter()
    partial = 0
    for n in ("caught", "missed", "timeout", "unviable"):
        b = files.get(n + ".txt")
        if b is None:
            raise Violation("%s.txt does not exist during the run" % n, run=r.brief())
        t = b.decode("utf-8")
        if t and not t.endswith("\n"):
            partial += 1
        for l in t.split("\n")[:-1]:
            lines[(n, l)] += 1
    if partial > slack:
        raise Violation("a text list ends in an incomplete line", run=r.brief())
    want = collections.Counter()
    for x in outs:
        l = lab.LIST_OF.get(x["summary"])
        if x["scenario"] != "Baseline" and l:
            want[(l, o.names[model.mid(x["scenario"]["Mutant"])])] += 1
    extra, lost = lines - want, want - lines
    if sum(extra.values()) > slack or sum(lost.values()) > slack:
        raise Violation("the text lists differ from the outcomes recorded: extra %s, missing %s" % (list(extra)[:3], list(lost)[:3]), run=r.brief())
    for n, l in extra:
        if l not in o.nameset:
            raise Violation("%s.txt lists something that is not a mutant: %r" % (n, l), run=r.brief())
    ctx.count("states_judged")
    ctx.saw("nontrivial", (len(outs), sum(must.values()), r.argv[-1]))


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2, 3]))
    seed = rng.randrange(1 << 30)
    plan = lab.plan_mix(rng, seed, hang=c["hang"], bhang=c["hang"], writes=False)
    if c["kind"] == "kill":
        plan = lab.plan_mix(rng, seed, writes=False, sleeps=(5, 20, 40))
    args = c["opt"] + ["--timeout", "1.5", "--build-timeout", "1.5"] + (["--jobs", str(c["jobs"])] if "--in-place" not in c["opt"] else [])
    pre, started = {}, None
    if c["delay"]:
        pre["delay"] = "%d:%d" % (c["delay"], seed)
    if c["kind"] == "crash":
        pre["fault"] = "%s:%s:%d:%s" % (c["ops"], c["sub"], c["nth"], c["what"])
    if c["kind"] == "kill":

        def started(r):
            for _ in range(5000):
                if len([e for e in r.read_events() if e["ev"] == "start"]) > c["at"] or r.p.poll() is not None:
                    break
                time.sleep(0.001)
            time.sleep(c["wait"] / 1000)
            o_t[0] = time.monotonic_ns()
            r.signal(signal.SIGKILL)

    o_t = [None]
    with ctx.box(tree) as box:
        listing = lab.list_names(box, ["--check"] if "--check" in args else [])
        o = lab.Obs()
        o.names = {model.mid(m): n for m, n in listing}
        o.nameset = {n for _, n in listing}
        o.src, o.before, o.mutants = box.src, core.snapshot(box.src), None
        o.run = box.start(args, plan=plan, pre=pre)
        if started:
            started(o.run)
        o.run.wait(45)
        t_end = o.run.t1
        # orphaned cargo processes go on for a moment after a kill
        o.run.finish()
        o.invs = model.invocations(o.run.events)
        if c["kind"] == "run":
            lab.no_hang(o)
        for i in o.invs:
            if "mutants.json" in i.out or i.key():
                judge_files(ctx, o, i.out, o.invs, i.t, i.tout)
        # the files at the end
        files = {}
        for n in ("outcomes.json", "mutants.json", "caught.txt", "missed.txt", "timeout.txt", "unviable.txt"):
            b = o.run.out(n)
            if b is not None:
                files[n] = b
        if o.invs and any(i.key() for i in o.invs):
            judge_files(ctx, o, files, o.invs, None)
        if c["kind"] != "run":
            hit = c["kind"] == "kill" and o.run.rc == -9 or any(l[0] == "FAULT" for l in o.run.prelines())
            ctx.count("crashes" if hit else "crash_point_not_reached")
            if hit:
                ctx.saw("crash_points", (c["kind"], c.get("ops", ""), c.get("sub", ""), c.get("what", ""), len(o.invs)))
        ctx.sample({"case": c["name"], "rc": o.run.rc, "invocations": len(o.invs)})
