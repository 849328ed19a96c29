"""C13: a mutation edits exactly the reported span, and nothing else."""
import collections
import re

from .. import lab, model, proj, rustgen, syn
from ..core import Violation
from .c28 import apply_diff

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: spans, names, diffs and the files cargo was really given are compared with text positions tracked while the source was generated"
RULE = "one evaluation is one generated project; non-trivial elements are distinct (genre, multi-line, non-ASCII before it on the line, CRLF file, tabs) combinations of mutants judged"
ASSUMPTIONS = ["files with CRLF line ends are judged after conversion to LF, which is how the program documents that it writes mutated files"]


def cases(rng, tier):
    n, m = (320, 24) if tier == "quick" else (2500, 250)
    out = [{"name": "list%d" % k, "kind": "list", "depth": [1, 2, 3][k % 3], "items": rng.choice([2, 4, 6])} for k in range(n)]
    out += [{"name": "run%d" % k, "kind": "run", "depth": 1 + k % 2, "items": 1, "jobs": rng.choice([1, 4])} for k in range(m)]
    out += [{"name": "big%d" % k, "kind": "list" if k % 2 == 0 else "run", "depth": 1, "items": 2, "jobs": 2, "pad": rng.choice([300, 1500, 4000])} for k in range(4 if tier == "quick" else 40)]
    return out


def project(rng, c):
    def fill(r):
        k = rng.random()
        if k < 0.1:
            r.e("\ufeff")
        elif k < 0.2:
            r.e("#!/usr/bin/env run-cargo-script é\n")
        elif k < 0.3:
            r.e("#![allow(\n unused)]\n\t")
        if c.get("pad"):
            # a file of some hundred kilobytes, with everything that matters in the middle
            pad = rng.choice(["\t// padding \t é\t tab\n", "// " + "x" * 60 + "\n", "/* \t漢字\n\t*/\t\n"])
            r.e(pad * c["pad"])
            r.fill(c["items"], c["depth"])
            r.e("\n" + pad * c["pad"])
        else:
            r.fill(c["items"], c["depth"])
        if rng.random() < 0.2:
            r.e("fn last_one() -> bool { x == y }")
            # registered by hand: text positions of the body
            col = r.col - len("x == y }")
            r.fn.append(("last_one", "bool"))
            for v in ("true", "false"):
                r.want("FnValue", (r.line, col), (r.line, col + 6), v)
            r.want("BinaryOperator", (r.line, col + 2), (r.line, col + 4), "!=", "==")
            r.fn.pop()

    return syn.project(rng, rng.choice([1, 2, 3]), fill=fill, crlf=0.3, types_depth=1, cr=rng.random() < 0.3)


def judge(ctx, g, ms, plain, box):
    exp = collections.Counter((rustgen.key(x)[:4], rustgen.nows(rustgen.name(x))) for x in g.exp)
    if len(plain) != len(ms):
        raise Violation("--list and --list --json have different lengths", plain=plain[:5])
    for m, name in zip(ms, plain):
        k = (rustgen.key_json(m)[:4], rustgen.nows(name))
        if not exp[k]:
            same = [e for e in exp if e[0][0] == k[0][0] and e[0][1] == k[0][1] and abs(e[0][2][0] - k[0][2][0]) <= 1]
            raise Violation(
                "no such construct at that span with that name: %s (span text %r); constructs near: %s" % (k, model.extract(g.text[m["file"]] + "\n" * 50, m["span"])[:80], same[:4]),
                text=g.text,
            )
        exp[k] -= 1
        s = m["span"]
        if not name.startswith("%s:%d:%d: " % (m["file"], s["start"]["line"], s["start"]["column"])):
            raise Violation("the name %r does not show the position of the mutant" % name, mutant=m)
        text = g.text[m["file"]]
        want = model.splice(text, s, m["replacement"] + model.MARK)
        new = apply_diff(text, m["diff"])
        if new is None:
            raise Violation("the reported diff does not apply to the file", diff=m["diff"], mutant={k: v for k, v in m.items() if k != "diff"}, text=text)
        if new != want:
            raise Violation("the reported diff does not give the mutated file", diff=m["diff"], mutant={k: v for k, v in m.items() if k != "diff"}, text=text)
        line = text.split("\n")[s["start"]["line"] - 1][: s["start"]["column"] - 1]
        ctx.count("mutants_judged")
        ctx.saw("nontrivial", (m["genre"], s["start"]["line"] != s["end"]["line"], not line.isascii(), "\t" in line, "\r\n" in g.tree[m["file"]], "*/" in line, '"' in line))


def run(ctx, c, rng):
    g = project(rng, c)
    with ctx.box(g.tree) as box:
        ms = syn.listing(box, ["--diff"])
        r = box.run(["--list"], ref={}, plan_extra=False).finish()
        judge(ctx, g, ms, r.stdout.split("\n")[:-1], box)
        ctx.count("evaluations")
        if c["kind"] == "run":
            if len(ms) > 60:
                n = (len(ms) + 59) // 60
                args = ["--shard", "0/%d" % n]
            else:
                args = []
            o = lab.run_lab(box, args + ["--jobs", str(c["jobs"]), "--baseline=skip"], ["rule build mut exit=101"], want_list=False)
            if not ms:
                return
            lab.need_outputs(o)
            lab.mon_trees(ctx, o)
            listed = collections.Counter(model.mid({k: v for k, v in m.items() if k != "diff"}) for m in ms)
            for x, s in lab.outcome_pairs(o):
                m = x["scenario"]["Mutant"]
                if not listed[model.mid(m)]:
                    raise Violation("a tested mutant was not listed", mutant=m)
                d = [t for t in s.invs[0].diff if t[1] == "mod"]
                want = model.splice(g.text[m["file"]], m["span"], m["replacement"] + model.MARK)
                if len(d) != 1 or d[0][0] != m["file"] or d[0][4].decode() != want:
                    raise Violation("cargo was not given the original with exactly the reported span replaced", mutant=m, got=d and d[0][4].decode("utf-8", "replace"), text=g.text[m["file"]])
                ctx.count("files_compared")
        ctx.sample({"case": c["name"], "mutants": len(ms)})
