"""C32: match arms and guards are mutated exactly as documented."""
import subprocess

from .. import core, model, rustgen, syn
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real binary lists generated matches; an oracle that tracked every arm and guard decides, and the mutated text is parsed by rustc"
RULE = "one evaluation is one generated project; non-trivial elements are distinct (genre, deleted text) observed"
ASSUMPTIONS = ["the mutated file is checked for well-formedness with rustc's own parser"]
GENRES = ("MatchArm", "MatchArmGuard")


def cases(rng, tier):
    n = 400 if tier == "quick" else 2500
    return [{"name": "match%d" % k, "depth": [1, 2, 3][k % 3], "wild": rng.choice([0.2, 0.5, 0.9, 1.0]), "n": rng.choice([4, 8, 12]), "parse": k % 4 == 0} for k in range(n)]


def run(ctx, c, rng):
    def fill(r):
        for _ in range(c["n"]):
            if rng.random() < 0.2:
                r.item(2)
            else:
                # a function made of matches
                name = r.uid("f")
                r.e("fn %s(x: u8) {\n    " % name)
                r.fn.append((name, ""))
                r.ns.append(name)
                for _ in range(rng.choice([1, 2])):
                    k = rng.random()
                    if k < 0.4:
                        r.match(c["depth"])
                    elif k < 0.6:
                        r.e("let v = ")
                        r.match(c["depth"])
                        r.e(";")
                    elif k < 0.8:
                        r.e("f(")
                        r.match(c["depth"])
                        r.e(", |y| ")
                        r.match(c["depth"] - 1)
                        r.e(");")
                    else:
                        r.e("while ")
                        r.e("(")
                        r.match(c["depth"])
                        r.e(") { ")
                        r.match(1)
                        r.e(" }")
                    r.e("\n    ")
                r.e("}")
                r.ns.pop()
                r.fn.pop()
            r.e("\n")

    g = syn.project(rng, rng.choice([1, 2]), fill=fill, wild=c["wild"], simple_types=True)
    with ctx.box(g.tree) as box:
        got = syn.listing(box)
        syn.compare(ctx, g.exp, got, GENRES, g.text, "match mutants")
        mine = [m for m in got if m["genre"] in GENRES]
        for m in mine:
            ctx.saw("nontrivial", (m["genre"], model.extract(g.text[m["file"]], m["span"])[:60], m["replacement"]))
        if c["parse"]:
            for m in rng.sample(mine, min(3, len(mine))):
                new = model.splice(g.text[m["file"]], m["span"], m["replacement"] + model.MARK)
                for t, label in ((g.text[m["file"]], "original"), (new, "mutant")):
                    ok, msg = parses(t)
                    if not ok and label == "original":
                        break  # the generator wrote something rustc rejects: nothing to judge
                    if not ok:
                        raise Violation("the mutated text is not well-formed Rust", mutant=m, text=new, rustc=msg)
                else:
                    ctx.count("mutants_parsed")
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "match_mutants": len(mine)})


def parses(text):
    r = subprocess.run(
        [core.TCBIN + "/rustc", "-Zparse-crate-root-only", "--edition", "2021", "--crate-type", "lib", "-"],
        input=text, capture_output=True, text=True, env=dict(core.build_env(), RUSTC_BOOTSTRAP="1"),
    )
    return r.returncode == 0, r.stderr[-600:]
