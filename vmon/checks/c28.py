"""C28: each scenario has its own complete log and diff."""
import os
import re

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every line of cargo output is tagged with its process, and the logs are checked for completeness and exclusiveness"
RULE = "one evaluation is one run; non-trivial elements are distinct (scenario kind, phases, lines of output) logs that were checked line by line"
ASSUMPTIONS = ["lines added by the program itself to a log are not judged, except that they carry no foreign output"]


def cases(rng, tier):
    out = []
    for k in range(1 if tier == "quick" else 4):
        out.append({"name": "pairs%d" % k, "jobs": 8, "nmut": 100 + 40 * k, "shape": "pairs", "tag": 1, "hang": 0, "opt": ["--check", "--shuffle"], "raw": False})
    n = 60 if tier == "quick" else 200
    for k in range(n):
        out.append({"name": "run%d" % k, "jobs": [1, 2, 4, 8][k % 4], "nmut": rng.choice([6, 12, 20]), "shape": ["plain", "same", "names", "mix"][k % 4 if rng.random() < 0.5 else rng.randrange(4)], "tag": rng.choice([1, 3, 40, 400]), "hang": rng.choice([0, 0, 1]), "opt": rng.choice([[], ["--check"], ["--baseline=skip"], ["--test-tool=nextest"], ["--all-logs"], ["-V"]]), "raw": rng.random() < 0.3})
    for k in range(2):
        out.append({"name": "wide%d" % k, "jobs": [1, 6][k], "nmut": 3, "shape": "wide", "tag": 1, "hang": 0, "opt": ["--check"] if k else [], "raw": False})
    for k in range(2 if tier == "quick" else 10):
        out.append({"name": "deep%d" % k, "jobs": [1, 4][k % 2], "nmut": 3, "shape": "deep", "tag": 3, "hang": 0, "opt": [], "raw": False})
    return out


def shape_tree(c, rng):
    t = proj.pkg(rng, c["nmut"], 2, kinds=["bool"] if c["shape"] == "pairs" else None)
    if c["shape"] in ("same", "mix"):
        # many mutants at one position
        t["src/lib.rs"] += "\npub fn many() -> Result<Option<bool>, String> { go() }\npub fn lt(a: u8, b: u8) -> bool { a < b }\n"
        t["src/lib.rs"] += "\npub fn tup() -> (bool, Option<u8>, i8) { go() }\n"
    if c["shape"] == "wide":
        # more than a hundred at one position
        t["src/lib.rs"] += "\npub fn wide() -> (Option<u8>, Option<u8>, Result<bool, u8>, i8, Option<i8>) { go() }\n"
    if rng.random() < 0.2 or c["shape"] == "deep":
        t["src/lib.rs"] += "\npub fn of_many_lines() -> bool {\n%s    go()\n}\n" % "".join("    step_%d();\n" % k for k in range(rng.choice([90, 240, 600])))
    if rng.random() < 0.4:
        # no newline at the end of the file, a mutant close to it
        t["src/lib.rs"] += rng.choice(["pub fn at_end() -> bool { a == b }", "pub fn at_end(a: u8) -> u8 {\n    a + 1\n}", "pub fn at_end() -> u8 {\n    f()\n}\n\n// c"])
    if c["shape"] == "deep":
        # paths longer than a file name can be, that differ only at the start
        tail = "/".join(rng.choice(["dir_%d" % k, "très_%d" % k, "m" * 30]) for k in range(rng.choice([25, 31, 40])))
        long = "é" * rng.choice([90, 119, 120]) + "n" * rng.randrange(9)
        body = "pub fn f(a: i32) -> bool {\n    a == 1\n}\n"
        mods = ""
        for n, q in enumerate(["a/%s/m.rs" % tail, "b/%s/m.rs" % tail, "c/a%s.rs" % long, "c/b%s.rs" % long]):
            t["src/" + q] = body
            mods += '#[path = "%s"]\nmod deep%d;\n' % (q, n)
        t["src/lib.rs"] = mods + t["src/lib.rs"]
    if c["shape"] in ("names", "mix"):
        body = "pub fn f(a: i32) -> bool {\n    a == 1\n}\n"
        t["src/x__y.rs"] = body
        t["src/x/y.rs"] = body
        t["src/x.rs"] = "pub mod y;\n" + body
        t["src/été_ü.rs"] = body
        t["src/sp ace.rs"] = body
        t["src/x/y.rs_line_2_col_7.rs"] = body
        t["src/quo'te.rs"] = body
        t["src/lib.rs"] = 'mod x;\nmod x__y;\n#[path = "été_ü.rs"]\nmod ete;\n#[path = "sp ace.rs"]\nmod space;\n#[path = "quo\'te.rs"]\nmod q;\n#[path = "x/y.rs_line_2_col_7.rs"]\nmod z;\n' + t["src/lib.rs"]
    return t


TAG = re.compile(r"TAG pid=(\d+) line=(\d+) of=(\d+) phase=(\w+)")


def run(ctx, c, rng):
    tree = shape_tree(c, rng)
    seed = rng.randrange(1 << 30)
    plan = lab.plan_mix(rng, seed, hang=c["hang"], bhang=c["hang"], tag=c["tag"], sleeps=(0, 3))
    raw = b""
    if c["raw"]:
        raw = bytes([255, 0, 254, 10]) + "é🦀\r\n*** fake\n".encode() + b"no newline at end"
        plan = [p.replace("exit=0", "out=%s;exit=0" % raw.hex()) for p in plan]
    args = ["--jobs", str(c["jobs"]), "--timeout", "1.5", "--build-timeout", "1.5"] + c["opt"]
    if rng.random() < 0.15:
        args += ["--cargo-arg=--config=%s%d='%s'" % (rng.choice(["env.X", "a.b"]), k, "v" * 60) for k in range(rng.choice([3, 90]))]
    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, rng=rng, want_list=False)
        lab.need_outputs(o)
        out = os.path.join(box.src, "mutants.out")
        logs, diffs = {}, {}
        pairs = lab.outcome_pairs(o)
        for x in o.outcomes["outcomes"]:
            lp, dp = x.get("log_path"), x.get("diff_path")
            if not lp:
                raise Violation("an outcome names no log", outcome=x, run=o.run.brief())
            if lp in logs:
                raise Violation("two scenarios share the log %s" % lp, run=o.run.brief())
            if not os.path.isfile(os.path.join(out, lp)):
                raise Violation("the log %s does not exist" % lp, run=o.run.brief())
            logs[lp] = x
            if x["scenario"] != "Baseline":
                if not dp:
                    raise Violation("a mutant's outcome names no diff", outcome=x, run=o.run.brief())
                if dp in diffs:
                    raise Violation("two mutants share the diff %s" % dp, run=o.run.brief())
                diffs[dp] = x
                p = os.path.join(out, dp)
                if not os.path.isfile(p):
                    raise Violation("the diff %s does not exist" % dp, run=o.run.brief())
                text = open(p, encoding="utf-8", newline="").read()
                m = x["scenario"]["Mutant"]
                new = apply_diff(model.norm(o.before[m["file"]][2]).decode(), text)
                if new is None or new.encode() != model.mutant_key(m, o.before)[1]:
                    raise Violation("the diff %s does not turn the original into the mutant" % dp, diff=text[:600], run=o.run.brief())
                ctx.count("diffs_applied")
        allfiles = {os.path.join("log", n) for n in os.listdir(os.path.join(out, "log"))}
        if allfiles != set(logs):
            raise Violation("log/ holds files that belong to no outcome: %s" % sorted(allfiles ^ set(logs))[:4], run=o.run.brief())
        alld = {os.path.join("diff", n) for n in os.listdir(os.path.join(out, "diff"))}
        if alld != set(diffs):
            raise Violation("diff/ holds files that belong to no outcome: %s" % sorted(alld ^ set(diffs))[:4], run=o.run.brief())
        for x, s in pairs:
            text = open(os.path.join(out, x["log_path"]), "rb").read().decode("utf-8", "replace")
            got = {}
            order = []
            for m in TAG.finditer(text):
                got.setdefault(int(m[1]), []).append((int(m[2]), int(m[3]), m[4]))
                if not order or order[-1] != int(m[1]):
                    order.append(int(m[1]))
            mine = [i.pid for i in s.invs]
            if set(got) - set(mine):
                raise Violation("the log %s has output of other scenarios' commands" % x["log_path"], run=o.run.brief())
            for i in s.invs:
                lines = sorted(got.get(i.pid, []))
                want = [(k, c["tag"], i.phase) for k in range(c["tag"])]
                if i.end is not None and lines != want:
                    raise Violation("the log %s has %d of %d lines of cargo %s" % (x["log_path"], len(lines), c["tag"], i.phase), run=o.run.brief())
                ctx.count("lines_checked", len(lines))
            if x["scenario"] != "Baseline":
                dt = open(os.path.join(out, x["diff_path"]), "rb").read().decode("utf-8", "replace")
                if dt.strip() not in text:
                    raise Violation("the log %s does not contain the diff of the mutant" % x["log_path"], run=o.run.brief())
            # each command is named before its output
            at = 0
            for i in s.invs:
                m = next((m for m in TAG.finditer(text) if int(m[1]) == i.pid), None)
                head = text[at : m.start()] if m else text[at:]
                if not any(has_words(l, i.argv[1:]) for l in head.split("\n")):
                    raise Violation("the log %s does not name the command of its %s phase" % (x["log_path"], i.phase), run=o.run.brief())
                ctx.count("commands_named")
                at = m.start() if m else at
            if [p for p in order if p in mine] != [p for p in mine if p in got]:
                raise Violation("output of the phases is mixed up in %s" % x["log_path"], run=o.run.brief())
            if raw:
                data = open(os.path.join(out, x["log_path"]), "rb").read()
                n = sum(1 for i in s.invs if i.end is not None and raw.hex() in i.actions)
                if data.count(raw) != n:
                    raise Violation("raw output bytes are missing from or altered in %s" % x["log_path"], run=o.run.brief())
            ctx.saw("nontrivial", (x["scenario"] == "Baseline", tuple(s.phases), c["tag"], c["shape"]))
        ctx.sample({"case": c["name"], "logs": len(logs), "diffs": len(diffs), "shape": c["shape"]})


def has_words(line, argv):
    k = 0
    for a in argv:
        # however they are quoted
        if not re.fullmatch(r"[\w@%+=:,./-]+", a):
            continue
        k = line.find(a, k)
        if k < 0:
            return False
        k += len(a)
    return True


def apply_diff(orig, text):
    """Apply a unified diff of one file strictly; None if it does not fit."""
    ol = orig.splitlines(keepends=True) if "\r" not in orig else re.findall(r"[^\n]*\n|[^\n]+", orig)
    ol = re.findall(r"[^\n]*\n|[^\n]+", orig)
    lines = re.findall(r"[^\n]*\n|[^\n]+", text)
    if len(lines) < 2 or not lines[0].startswith("--- ") or not lines[1].startswith("+++ "):
        return None
    out, pos, k = [], 0, 2
    while k < len(lines):
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", lines[k])
        if not m:
            return None
        a, an = int(m[1]), int(m[2]) if m[2] is not None else 1
        bn = int(m[4]) if m[4] is not None else 1
        start = a - 1 if an else a
        if start < pos or start > len(ol):
            return None
        out += ol[pos:start]
        pos = start
        k += 1
        na = nb = 0
        while k < len(lines) and not lines[k].startswith("@@ -"):
            l = lines[k]
            if l.startswith("\\"):
                # no newline at end of file: belongs to the line before
                prev = lines[k - 1][0]
                if prev in "+ " and out:
                    out[-1] = out[-1].rstrip("\n")
                k += 1
                continue
            body = l[1:]
            nonl = k + 1 < len(lines) and lines[k + 1].startswith("\\")
            if nonl:
                body = body.rstrip("\n")
            if l[0] in " -":
                if pos >= len(ol) or ol[pos] != body:
                    return None
                pos += 1
                na += 1
            if l[0] in " +":
                out.append(body)
                nb += 1
            if l[0] not in " +-":
                return None
            k += 1
        if na != an or nb != bn:
            return None
    out += ol[pos:]
    return "".join(out)
