"""C33: the JSON descriptions of mutants say what the mutants are."""
import collections
import json
import os

from .. import core, lab, model, proj, rustgen, syn
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every field of the JSON descriptions in the listing, mutants.json and outcomes.json is compared with what was tracked while the source was generated"
RULE = "one evaluation is one generated workspace; non-trivial elements are distinct (genre, kind of enclosing function, return type or none, package) descriptions judged"
ASSUMPTIONS = ["return types and names are compared without white space, which is the formatting the program chooses"]

FIELDS = {"package", "file", "function", "span", "replacement", "genre"}


def cases(rng, tier):
    n = 140 if tier == "quick" else 1600
    return [{"name": "desc%d" % k, "pkgs": [0, 1, 2, 3][k % 4], "depth": 1 + k % 3, "items": rng.choice([2, 3, 5]), "run": k % 5 == 0, "crlf": rng.random() < 0.2, "err": rng.choice([[], ["--error", 'oops("two  spaces \\n é", 1)'], ["--error", "E::X  { a:  1 }"], ["--error", "fail!(a  b)"]])} for k in range(n)]


NAMES = ["core_lib", "my-tool", "tool", "x", "my_tool2", "Upper", "a-b-c", "proc-m"]


def project(rng, c):
    """A package, or a workspace of some, each file with known mutants and its package's name."""
    g = syn.Gen()
    g.pkg = {}
    names = rng.sample(NAMES, max(c["pkgs"], 1))
    dirs = {n: "" for n in names}
    if c["pkgs"]:
        dirs = {n: rng.choice([n, "crates/" + n, "d_%d" % k, "crates/src%d" % k]) + "/" for k, n in enumerate(names)}
        rootpkg = None
        ws = '[workspace]\nresolver = "2"\nmembers = [%s]\n' % ", ".join('"%s"' % dirs[n][:-1] for n in names)
        if rng.random() < 0.4:
            # the root is itself a package, and encloses the directories of the others
            rootpkg = "root-pkg"
            dirs[rootpkg] = ""
            g.tree["Cargo.toml"] = proj.manifest(rootpkg) + "\n" + ws
        else:
            g.tree["Cargo.toml"] = ws
    for n, d in dirs.items():
        if d or not c["pkgs"]:
            g.tree[d + "Cargo.toml"] = proj.manifest(n)
        extra = rng.random() < 0.5
        for f in ["src/lib.rs"] + (["src/sub/deep.rs"] if extra else []):
            r = rustgen.RG(rng, d + f, types_depth=1)
            r.fill(c["items"], c["depth"])
            t = r.text
            if f == "src/lib.rs" and extra:
                t += '\n#[path = "sub/deep.rs"]\nmod deep;\n'
            g.exp += r.exp
            g.text[d + f] = t
            g.tree[d + f] = t.replace("\n", "\r\n") if c["crlf"] else t
            g.pkg[d + f] = n
    return g


def span8(s):
    return (s["start"]["line"], s["start"]["column"], s["end"]["line"], s["end"]["column"])


def describe(x, pkg):
    fr = x.get("fnref")
    fn = (rustgen.nows(x["fn"]), rustgen.nows("->" + x["ret"]) if x["ret"] else "", tuple(fr["span"]) if fr else None) if x["fn"] else None
    return (pkg, x["file"], x["genre"], tuple(x["span"]), rustgen.nows(x["repl"]), fn)


def described(m):
    f = m["function"]
    fn = (rustgen.nows(f["function_name"]), rustgen.nows(f["return_type"]), span8(f["span"])) if f else None
    return (m["package"], m["file"], m["genre"], span8(m["span"]), rustgen.nows(m["replacement"]), fn)


def judge(ctx, g, ms, what, whole=True):
    exp = collections.Counter(describe(x, g.pkg[x["file"]]) for x in g.exp)
    got = collections.Counter()
    for m in ms:
        if not FIELDS <= set(m):
            raise Violation("a description in %s lacks fields: %s" % (what, sorted(FIELDS - set(m))), mutant=m)
        if m["function"] is not None and not {"function_name", "return_type", "span"} <= set(m["function"]):
            raise Violation("a description of a function in %s lacks fields" % what, mutant=m)
        got[described(m)] += 1
    bad = got - exp
    if bad:
        k = next(iter(bad))
        same = [e for e in exp if e[1] == k[1] and e[3][0] == k[3][0]]
        raise Violation("%s describes a mutant wrongly: %s; the constructs there: %s" % (what, k, same[:3]), text=g.text[k[1]])
    if whole and exp - got:
        k = next(iter(exp - got))
        raise Violation("%s lacks the description of %s" % (what, k), text=g.text[k[1]])
    for k, n in got.items():
        ctx.count("descriptions_judged", n)
        ctx.saw("nontrivial", (k[2], k[5] is not None, bool(k[5] and k[5][1]), bool(k[5] and k[5][0].startswith("<impl")), k[0]))


def exact(ctx, box, args):
    """The replacement described is, to the letter, what the diff puts in."""
    for m in syn.listing(box, args + ["--diff"]):
        new = "".join(l[1:] for l in m["diff"].splitlines(True)[2:] if l.startswith("+")) if m.get("diff") else ""
        if m["replacement"] + " /*" not in new.replace("\r\n", "\n"):
            raise Violation("the replacement described is not what is put into the file: %r" % m["replacement"], mutant=m)
        ctx.count("replacements_exact")


def run(ctx, c, rng):
    g = project(rng, c)
    with ctx.box(g.tree) as box:
        ws = ["--workspace"] if c["pkgs"] else []
        ms = syn.listing(box, ws)
        judge(ctx, g, ms, "--list --json")
        exact(ctx, box, ws + c["err"])
        if not c["run"] or not ms:
            return
        sh = ["--shard", "0/%d" % ((len(ms) + 29) // 30)]
        sel = syn.listing(box, ws + sh)
        o = lab.run_lab(box, ws + sh + ["--jobs", "4", "--baseline=skip"], ["rule build mut exit=101"], want_list=False)
        lab.need_outputs(o)
        judge(ctx, g, o.mutants, "mutants.json", whole=False)
        if collections.Counter(map(model.mid, o.mutants)) != collections.Counter(map(model.mid, sel)):
            raise Violation("mutants.json differs from the listing with the same options", run=o.run.brief())
        outs = [x["scenario"]["Mutant"] for x in o.outcomes["outcomes"] if x["scenario"] != "Baseline"]
        judge(ctx, g, outs, "outcomes.json", whole=False)
        if collections.Counter(map(model.mid, outs)) != collections.Counter(map(model.mid, sel)):
            raise Violation("outcomes.json describes other mutants than the listing", run=o.run.brief())
        # the package described is the one that cargo is told to build
        pk = {}
        for m in o.mutants:
            pk.setdefault(model.mutant_key(m, o.before), m["package"])
        for i in o.invs:
            k = i.key()
            if k and len(k) == 1 and k[0] in pk:
                p = [a for a in i.argv if a.startswith("--package=")]
                if p and p[0].split("=", 1)[1].split("@")[0] != pk[k[0]]:
                    raise Violation("the description names the package %s, but cargo was told to build %s" % (pk[k[0]], p[0]), run=o.run.brief())
                ctx.count("packages_matched")
        ctx.sample({"case": c["name"], "listed": len(ms), "run": len(outs), "packages": sorted(set(g.pkg.values()))})
