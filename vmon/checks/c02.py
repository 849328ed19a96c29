"""C02: --in-place restores the tree exactly, whatever happens."""
import os
import signal
import time

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: tree snapshots at each cargo invocation and at exit, with injected write faults and signals"
RULE = "one evaluation is one --in-place run; non-trivial if the tree was seen mutated at least once, distinct by (encoding, fault or signal, outcome mix, exit code)"
ASSUMPTIONS = ["a run ended by SIGKILL, or whose restoring write itself fails, is outside of the property"]

ODD = {
    "crlf": b"pub fn a(x: i32) -> i32 {\r\n    x + 1\r\n}\r\n\r\npub fn b() -> bool {\r\n    c()\r\n}\r\n",
    "mixed": b"pub fn a(x: i32) -> i32 {\r\n    x + 1\n}\n\r\npub fn b() -> bool {\n    c()\r\n}\n",
    "noeol": b"pub fn a(x: i32) -> i32 {\n    x * 2\n}\npub fn b() -> bool { c() }",
    "bom": b"\xef\xbb\xbfpub fn a(x: i32) -> i32 {\n    x + 1\n}\n",
    "unicode": "/* é漢字🦀 */ pub fn a(x: i32) -> i32 {\n    let é = \"🦀\"; x + 1\n}\n".encode(),
    "tabs": b"pub fn a(x: i32) -> i32 {\n\t\tx\t+\t1 \t\n}\n\n\n",
    "shebang": b"#!/usr/bin/env run\npub fn a(x: i32) -> i32 {\n    x + 1\n}\n",
    "big": b"".join(b"pub fn f%d(x: i32) -> i32 {\n    x\n}\n// %s\n" % (i, b"y" * 3000) for i in range(12)),
    "trail": b"pub fn a(x: i32) -> i32 {\n    x - 1\n}\n   \n\r\n\r\n",
}


def cases(rng, tier):
    out = []
    n = 80 if tier == "quick" else 200
    odd = list(ODD) + [None]
    for k in range(n):
        out.append({
            "name": "run%d" % k, "kind": "run", "odd": odd[k % len(odd)], "nmut": rng.choice([2, 4, 7]), "hang": rng.choice([0, 0, 1]), "base": rng.choice(["exit=0"] * 6 + ["exit=1", "hang"]),
            "opt": rng.choice([[], [], ["--check"], ["--baseline=skip"], ["--shuffle"], ["--test-tool=nextest"], ["--no-shuffle"], ["--iterate"]]), "mode": rng.choice([0o644, 0o644, 0o600, 0o755, 0o664, 0o444]), "link": rng.choice([None] * 6 + ["in", "abs", "out"]), "sub": rng.random() < 0.2,
        })
    faults = [("trunc", "e28"), ("trunc", "e13"), ("write", "e28"), ("write", "s"), ("write", "e5"), ("write", "s"), ("append", "e28"), ("rename", "e28"), ("create", "e28"), ("trunc", "S2"), ("write", "S15"), ("write", "S2"), ("ftruncate64", "e5")]
    n = 60 if tier == "quick" else 140
    for k in range(n):
        op, what = faults[k % len(faults)]
        out.append({"name": "fault%d" % k, "kind": "fault", "ops": op, "what": what, "sub": rng.choice(["/src/src/", "/src/lib.rs", ".rs", "/mutants.out/", "outcomes", "/diff/", "/log/"]), "nth": rng.choice([1, 1, 2, 3, 4]), "odd": rng.choice(odd), "nmut": 4})
    # aimed at the calls between applying a mutation and the end of its cargo run
    aimed = [("append", "/log/", x, "e28") for x in range(4, 11)] + [("write", "/log/", x, "e28") for x in range(3, 9)]
    aimed += [(op, "/src/src/", x, w) for op in ("trunc", "write") for x in (1, 3, 5) for w in ("e28", "s", "S2")]
    for op, sub, x, w in aimed:
        out.append({"name": "aimed-%s-%s-%d-%s" % (op, sub.strip("/.").replace("/", "-"), x, w), "kind": "fault", "ops": op, "what": w, "sub": sub, "nth": x, "odd": rng.choice(odd), "nmut": 4})
    n = 40 if tier == "quick" else 100
    for k in range(n):
        out.append({"name": "sig%d" % k, "kind": "sig", "sig": ["SIGINT", "SIGTERM", "SIGHUP"][k % 3], "at": rng.choice([0, 1, 2, 3, 4, 6]), "wait": rng.choice([0, 2, 10, 30]), "odd": rng.choice(odd), "nmut": 5, "gc": rng.random() < 0.3})
    for c in lab.hup_cases(rng, 40 if tier == "quick" else 160):
        out.append(dict(c, odd=rng.choice(odd), nmut=4))
    return out


def restoring_failed(o):
    """True if the injected fault hit the write that puts the original back."""
    opens = 0
    for op, path, ret, err, t in o.run.prelines():
        if op == "FAULT":
            return path.endswith(".rs") and o.run.prelines() and opens % 2 == (1 if fault_is_open(o) else 0)
        if op == "trunc" and path.endswith(".rs") and ret >= 0:
            opens += 1
    return False


def fault_is_open(o):
    L = o.run.prelines()
    k = [i for i, l in enumerate(L) if l[0] == "FAULT"][0]
    return k + 1 < len(L) and L[k + 1][0] == "trunc"


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2, 3]))
    if rng.random() < 0.4:
        tree["src/lib.rs"] += proj.fn_text("equal", 700)
    tree.update(proj.extras(rng))
    if c.get("odd"):
        tree["src/odd.rs"] = {"hex": ODD[c["odd"]].hex(), "mode": c.get("mode", 0o644)}
        tree["src/lib.rs"] = "mod odd;\n" + tree["src/lib.rs"]
    if c.get("link"):
        tree["real/l.rs"] = "pub fn linked(a: i32) -> i32 {\n    a + 1\n}\n"
        if c["link"] == "in":
            tree["src/lnk.rs"] = {"link": "../real/l.rs"}
        tree["src/lib.rs"] = "mod lnk;\n" + tree["src/lib.rs"]
    if rng.random() < 0.3:
        tree["Cargo.toml"] += '\n[dependencies]\ndep = { path = "../dep" }\n'
        tree[".cargo/config.toml"] = 'paths = ["../dep"]\n'
    seed = rng.randrange(1 << 30)
    args = ["--in-place", "--timeout", "1.5", "--build-timeout", "1.5"] + c.get("opt", [])
    plan = lab.plan_mix(rng, seed, hang=c.get("hang", 0), bhang=c.get("hang", 0), base=c.get("base", "exit=0"), writes=False)
    pre, started = {}, None
    if c["kind"] == "fault":
        pre["fault"] = "%s:%s:%d:%s" % (c["ops"], c["sub"], c["nth"], c["what"])
    if c["kind"] == "sig":
        plan = ["rule * base exit=0", "rule test mut %ssleep=300;exit=1" % ("gc=20000;" if c["gc"] else ""), "rule build mut sleep=60;exit=0"]

        def started(r):
            for _ in range(4000):
                n = [e for e in r.read_events() if e["ev"] == "start"]
                if len(n) > c["at"] or r.p.poll() is not None:
                    break
                time.sleep(0.002)
            time.sleep(c["wait"] / 1000)
            r.signal(getattr(signal, c["sig"]))

    kw = {}
    if c["kind"] == "hup":
        plan, started = lab.hup_plan(c), lab.hup_started(c)
        kw = {"streams": lab.hup_streams(c), "env": {"TERM": "xterm"}}
        args += ["--level=" + c["level"]] if c["level"] else []
    with ctx.box(tree) as box:
        core.write_tree(os.path.join(box.dir, "dep"), {"Cargo.toml": proj.manifest("dep"), "src/lib.rs": ""})
        away = os.path.join(box.dir, "away")
        core.write_tree(away, {"l.rs": "pub fn linked(a: i32) -> i32 {\n    a + 1\n}\n"})
        if c.get("link") in ("abs", "out"):
            os.symlink(os.path.join(away, "l.rs") if c["link"] == "out" else os.path.join(box.src, "real/l.rs"), os.path.join(box.src, "src/lnk.rs"))
        awaysnap = core.snapshot(away)
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False, strict=False, pre=pre, started=started, timeout=45, **kw)
        if o.run.hung:
            ctx.skip("did not finish: " + c["name"])
            return
        if o.run.rc is not None and o.run.rc < 0:
            ctx.skip("ended by signal %d: %s" % (-o.run.rc, c["name"]))
            return
        d = core.snap_diff(o.before, o.after)
        if d and c["kind"] == "fault" and restoring_failed(o):
            ctx.skip("the restoring write was made to fail: " + c["name"])
            return
        if d:
            raise Violation("after --in-place the tree differs from the original: %s" % d[:4], expected={p: o.before[p][2][:400] for p, _ in d[:2] if p in o.before and o.before[p][2]}, got={p: o.after[p][2][:400] for p, _ in d[:2] if p in o.after and o.after[p][2]}, run=o.run.brief())
        if core.snap_diff(awaysnap, core.snapshot(away)):
            raise Violation("after --in-place the file that a link in the tree leads to is not restored", run=o.run.brief())
        # at each cargo invocation: no mutation, or exactly one file with one marker
        seen = 0
        for i in o.invs:
            ctx.count("trees_compared")
            mods = [x for x in i.diff if x[0].split("/")[0] != "target"]
            if not mods:
                continue
            seen += 1
            if len(mods) != 1 or mods[0][1] != "mod" or mods[0][4].count(model.MARK.encode()) != 1:
                raise Violation("cargo saw a tree with other than one mutation in one file: %s" % [(m[0], m[1]) for m in mods], run=o.run.brief())
            if mods[0][3] != o.before[mods[0][0]][1]:
                raise Violation("permission bits changed while mutated: %s" % mods[0][0], run=o.run.brief())
        ctx.count("mutated_trees", seen)
        if box.tmp and lab.tmp_left(box):
            raise Violation("--in-place left files in the temporary directory: %s" % lab.tmp_left(box), run=o.run.brief())
        if seen:
            ctx.saw("nontrivial", (c["kind"], c.get("odd") or "", c.get("ops", ""), c.get("what", ""), c.get("sub", "") if c["kind"] == "fault" else "", c.get("sig") or "", c.get("ends") or "", o.run.rc, c.get("mode", 0)))
        if c["kind"] == "fault":
            ctx.count("faults_hit", sum(1 for l in o.run.prelines() if l[0] == "FAULT"))
        ctx.sample({"case": c["name"], "rc": o.run.rc, "odd": c.get("odd"), "trees": len(o.invs), "mutated": seen})
