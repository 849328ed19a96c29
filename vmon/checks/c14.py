"""C14: operators are mutated exactly per the documented table."""
from .. import rustgen, syn

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real binary lists generated source text; an oracle that tracked every operator while writing the text decides"
RULE = "one evaluation is one generated project; non-trivial elements are distinct (operator, replacement, nesting context) observed"
ASSUMPTIONS = ["the table is the one in book/src/mutants.md", "text inside macro invocations is not mutated (documented limitation)"]
GENRES = ("BinaryOperator", "UnaryOperator")


def cases(rng, tier):
    n = 500 if tier == "quick" else 2500
    return [{"name": "gen%d" % k, "depth": [1, 2, 3, 4][k % 4], "files": rng.choice([1, 2, 3]), "items": rng.choice([3, 5, 8])} for k in range(n)]


def run(ctx, c, rng):
    g = syn.project(rng, c["files"], c["items"], c["depth"], simple_types=True)
    with ctx.box(g.tree) as box:
        got = syn.listing(box)
        syn.compare(ctx, g.exp, got, GENRES, g.text, "operator mutants")
        for x in g.exp:
            if x["genre"] in GENRES:
                ctx.saw("nontrivial", (x["orig"], x["repl"], x["fn"] is None))
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "operator_mutants": sum(1 for x in g.exp if x["genre"] in GENRES)})
