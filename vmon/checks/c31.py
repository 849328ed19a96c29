"""C31: function bodies get the documented replacement values for their type."""
from .. import rustgen, syn

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real binary lists functions of generated return types; an oracle built from the documented table decides"
RULE = "one evaluation is one generated project; non-trivial elements are distinct return types (as text) whose replacements were compared"
ASSUMPTIONS = ["the table is the one in book/src/mutants.md; replacements are compared without regard to white space"]
ERRS = ["::anyhow::anyhow!(\"mutated\")", "MyError::Broken", "Error::new(1, \"a b\")", "()", "\"oops\".into()", "Box::new(fmt::Error)"]


def cases(rng, tier):
    n = 600 if tier == "quick" else 3000
    out = []
    for k in range(n):
        e = rng.sample(ERRS, rng.choice([1, 1, 2, 3])) if k % 3 else []
        cut = rng.randrange(len(e) + 1)
        out.append({"name": "types%d" % k, "depth": [1, 2, 2, 3][k % 4], "cli": e[:cut], "cfg": e[cut:], "n": rng.choice([6, 12, 20])})
    return out


def run(ctx, c, rng):
    err = c["cli"] + c["cfg"]

    def fill(r):
        for _ in range(c["n"]):
            k = rng.random()
            if k < 0.1:
                r.item(1)
            elif k < 0.35:
                t = rng.choice(["Tr", "fmt::Display"])
                imp = rng.random() < 0.5
                ty = r.uid("Ty")
                r.e("impl %s%s {\n" % (t + " for " if imp else "", ty))
                r.ns.append("<impl %s for %s>" % (t, ty) if imp else ty)
                for _ in range(2):
                    r.function(1, quals="", in_impl=True)
                    r.e("\n")
                r.ns.pop()
                r.e("}")
            else:
                r.function(rng.choice([0, 1, 2]))
            r.e("\n")

    g = syn.project(rng, rng.choice([1, 2]), fill=fill, err=err, types_depth=c["depth"])
    if c["cfg"]:
        g.tree[".cargo/mutants.toml"] = "error_values = [%s]\n" % ", ".join("'%s'" % e for e in c["cfg"])
    with ctx.box(g.tree) as box:
        args = []
        for e in c["cli"]:
            args += ["--error", e]
        got = syn.listing(box, args)
        syn.compare(ctx, g.exp, got, ("FnValue",), g.text, "function value mutants")
        for m in got:
            if m["genre"] == "FnValue":
                ctx.saw("nontrivial", m["function"]["return_type"])
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "errors": err, "fn_mutants": sum(1 for x in g.exp if x["genre"] == "FnValue")})
