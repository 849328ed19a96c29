"""C17: file and name filters select exactly the matching mutants."""
import os
import re

from .. import lab, model, proj, syn
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: filtered listings and runs of the real binary compared with an independent glob/regex oracle over the unfiltered listing"
RULE = "one evaluation is one combination of filters; non-trivial elements are distinct (include globs?, exclude globs?, include res?, exclude res?, source, selected something, dropped something)"
ASSUMPTIONS = ["patterns are drawn from the syntax common to Python's re and the regex crate", "globs are drawn from *, ?, [..], {..} and ** as documented"]

BODIES = [
    "pub fn {n}() -> bool {{ go() }}\n",
    "pub fn {n}(a: u8, b: u8) -> u8 {{ a + b }}\n",
    "pub struct S{k};\nimpl std::fmt::Display for S{k} {{\n    fn fmt(&self, f: &mut F) -> std::fmt::Result {{ write(f) }}\n}}\n",
    "impl S{k} {{\n    pub fn {n}(&self) -> Option<String> {{ find() }}\n}}\n",
    "pub fn {n}(x: i32) {{\n    match x {{\n        1 if ok() => one(),\n        2 => two(),\n        _ => (),\n    }}\n}}\n",
    "impl fmt::Debug for S{k} {{\n    fn fmt(&self) -> fmt::Result {{ x(!a) }}\n}}\n",
    "pub fn {n}() {{ side_effect(); }}\n",
    "pub fn {n}_é() -> (bool, i8) {{ go() }}\n",
]
NAMES = ["alpha", "beta", "new_thing", "is_ok", "process_all", "Ünïcode", "x", "with_capacity2", "main_loop"]
FILES = ["a.rs", "b.rs", "console.rs", "console/mod.rs", "console/ansi.rs", "net/mod.rs", "net/tcp.rs", "net/deep/mod.rs", "net/deep/x.rs", "t1.rs", "t2.rs", "util.rs", "utilities.rs", "[x].rs", "sp ace.rs", "été.rs"]


def layout(rng, pre=""):
    """Module layout: {path: [children]} for a subset of files."""
    t = {}
    k = [0]

    def body():
        out = []
        for _ in range(rng.choice([1, 2, 3])):
            k[0] += 1
            out.append(rng.choice(BODIES).format(n=rng.choice(NAMES) + rng.choice(["", "_%d" % k[0]]), k=k[0]))
        return "\n".join(out)

    lib = []
    use = lambda p=0.8: rng.random() < p
    if use():
        lib.append("mod a;\n"); t["a.rs"] = body()
    if use():
        lib.append("mod b;\n"); t["b.rs"] = body()
    if use():
        lib.append("mod console;\n")
        f = rng.choice(["console.rs", "console/mod.rs"])
        t[f] = body() + "mod ansi;\n"
        t["console/ansi.rs"] = body()
    if use():
        lib.append("mod net;\n")
        t["net/mod.rs"] = body() + "mod tcp;\nmod deep;\n"
        t["net/tcp.rs"] = body()
        f = rng.choice(["net/deep/mod.rs", "net/deep.rs"])
        t[f] = body() + "mod x;\nmod console;\n"
        t["net/deep/x.rs"] = body()
        t["net/deep/console.rs"] = body()
    for n in ("t1", "t2", "util", "utilities"):
        if use(0.5):
            lib.append("mod %s;\n" % n); t[n + ".rs"] = body()
    if use(0.3):
        lib.append('#[path = "sp ace.rs"]\nmod space;\n'); t["sp ace.rs"] = body()
    if use(0.4):
        lib.append('#[path = "Upper.rs"]\nmod upper;\n'); t["Upper.rs"] = body()
    if use(0.3):
        lib.append('#[path = "été.rs"]\nmod ete;\n'); t["été.rs"] = body()
    t["lib.rs"] = body() + "".join(lib)
    return {pre + "src/" + p: v for p, v in t.items()}


def glob_re(g):
    """The documented meaning of one glob as a regex over the whole path."""
    if "/" not in g:
        return "(?:.*/)?%s(?:/.+)?" % _g(g)
    return _g(g)


def _g(g):
    out, i = "", 0
    while i < len(g):
        c = g[i]
        if g.startswith("**/", i) and (i == 0 or g[i - 1] == "/"):
            out += "(?:.*/)?"
            i += 3
            continue
        if g[i:] == "**" and i > 0 and g[i - 1] == "/":
            out += ".+"
            i += 2
            continue
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = g.index("]", i + 1)
            s = g[i + 1 : j]
            out += "[" + ("^" + s[1:] if s[0] in "!" else s) + "]"
            i = j
        elif c == "{":
            j = g.index("}", i)
            out += "(?:" + "|".join(_g(x) for x in g[i + 1 : j].split(",")) + ")"
            i = j
        else:
            out += re.escape(c)
        i += 1
    return out


def rand_glob(rng, files):
    f = rng.choice(files)
    parts = f.split("/")
    k = rng.randrange(16)
    if k == 0:
        return parts[-1]
    if k == 1:
        return parts[-2] if len(parts) > 1 else "src"
    if k == 2:
        return f
    if k == 3:
        return "*.rs"
    if k == 4:
        return "/".join(parts[:-1] + ["*.rs"])
    if k == 5:
        return "**/" + parts[-1]
    if k == 6:
        return parts[0] + "/**/*.rs"
    if k == 7:
        return "/".join(parts[:-1]) + "/**"
    if k == 8:
        n = parts[-1]
        return n[0] + "*.rs"
    if k == 9 and parts[-1].isascii():  # the glob library works on bytes
        return "?" + parts[-1][1:]
    if k == 10:
        return rng.choice(["t[12].rs", "t[!1].rs", "[a-b].rs", "*e*.rs", "util*", "{a,b}.rs", "{net,console}", "src/{a,t1}.rs", "*/*.rs", "src/*/*.rs", "**/deep/**", "src/**/console*", "net/tcp.rs", "*", "**/*.rs", "src/{net/tcp,a}.rs", "{src/a,src/util}.rs", "{a,net/tcp}.rs", "src/{net/*,t1.rs}", "{one,two}/src/{a,b,net/mod}.rs", "src/net/{deep/x,mod}.rs", "./src/*.rs", "./a.rs", "/src/a.rs"])
    if k == 11:
        return "no_such_%d.rs" % rng.randrange(9)
    if k == 14:
        # letter case matters
        return rng.choice([f, parts[-1], parts[-1][:-3], "*/" + parts[-1], "src/*.rs"]).swapcase()
    if k == 15:
        return rng.choice(["Upper.rs", "upper.rs", "UPPER*", "src/Upper.rs", "src/upper.rs", "[A-Z]*.rs", "[a-z]pper.rs"])
    if k == 12:
        return parts[-1][:-3]
    return "/".join(["*"] * len(parts[:-1]) + [parts[-1]])


PATS = [
    "bool", "replace .* with true", "-> u8", "impl", "Display", "fmt", "^src/", r"^src/net/.*: delete", r"\.rs:\d+:\d+: replace", "with 0$", "Some\\(", "match guard", "delete match arm", "delete !", r"replace \+ with", "é",
    "(?i)ALPHA", "alpha|beta", r"in \w+$", "::fmt ->", "no such thing", "Default::default\\(\\)", "x", "", r"^.*$", "console/ansi", r"a\.rs", r"^src/a\.rs", "xyzzy", r"\bx\b", "process_all", r"<impl .* for S\d+>", r"lib\.rs:[1-3]:", "side", "with \\(\\)$", "[Üé]", ": replace is_ok",
]


def cases(rng, tier):
    n, m = (60, 14) if tier == "quick" else (500, 120)
    return [{"name": "tree%d" % k, "kind": "list", "pkgs": rng.choice([1, 1, 2]), "sets": 10} for k in range(n)] + [{"name": "run%d" % k, "kind": "run", "pkgs": 1, "sets": 1} for k in range(m)]


def some(rng, f, p):
    return [f() for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < p else []


def toml(l):
    return "[%s]" % ", ".join("'''%s'''" % x for x in l)


def run(ctx, c, rng):
    if c["pkgs"] == 1:
        tree = dict(layout(rng), **{"Cargo.toml": proj.manifest()})
        base = []
    else:
        tree = dict(layout(rng, "one/"), **layout(rng, "two/"))
        tree.update({"one/Cargo.toml": proj.manifest("one"), "two/Cargo.toml": proj.manifest("two"), "Cargo.toml": '[workspace]\nmembers = ["one", "two"]\nresolver = "2"\n'})
        base = ["--workspace"]
    with ctx.box(tree) as box:
        full = lab.list_names(box, base)
        files = sorted({p for p in tree if p.endswith(".rs")})
        names = [n for _, n in full]

        def pat():
            if rng.random() < 0.3 and names:
                n = rng.choice(names)
                a = rng.randrange(len(n))
                return re.escape(n[a : a + rng.randrange(3, 14)]).replace("\\ ", " ").replace("\\'", "'")
            if rng.random() < 0.1 and names:
                return "^" + re.escape(rng.choice(names)).replace("\\ ", " ") + "$"
            return rng.choice(PATS)

        for k in range(c["sets"]):
            val, args, cfg = {}, [], []
            src = {}
            for key, opt, ck, f in (("inc", ["--file", "-f"], "examine_globs", lambda: rand_glob(rng, files)), ("exc", ["--exclude", "-e"], "exclude_globs", lambda: rand_glob(rng, files)), ("re", ["--re", "-F"], "examine_re", pat), ("xre", ["--exclude-re", "-E"], "exclude_re", pat)):
                v = some(rng, f, 0.45)
                where = rng.choice(["cli", "cli", "cfg", "both"])
                val[key] = v
                src[key] = where if v else ""
                if not v:
                    continue
                if where in ("cli", "both"):
                    for x in v:
                        o = rng.choice(opt)
                        args += [o + "=" + x] if o.startswith("--") else [o, x] if not x.startswith("-") else [o + x]
                if where == "cfg":
                    cfg.append("%s = %s" % (ck, toml(v)))
                if where == "both":
                    # the command line replaces the list of the config file
                    cfg.append("%s = %s" % (ck, toml(some(rng, f, 1))))
            cp = box.src + "/.cargo/mutants.toml"
            os.makedirs(os.path.dirname(cp), exist_ok=True)
            with open(cp, "w") as fh:
                fh.write("\n".join(cfg) + "\n")
            inc = [re.compile(glob_re(g), re.S) for g in val["inc"]]
            exc = [re.compile(glob_re(g), re.S) for g in val["exc"]]
            rei = [re.compile(p) for p in val["re"]]
            rex = [re.compile(p) for p in val["xre"]]
            okf = lambda p: (not inc or any(g.fullmatch(p) for g in inc)) and not any(g.fullmatch(p) for g in exc)
            okn = lambda n: (not rei or any(p.search(n) for p in rei)) and not any(p.search(n) for p in rex)
            want = [n for m, n in full if okf(m["file"]) and okn(n)]
            got = lab.list_names(box, base + args)
            if [n for _, n in got] != want:
                g = [n for _, n in got]
                raise Violation(
                    "filters %s select the wrong mutants: missing %s, unexpected %s" % ({k: v for k, v in val.items() if v}, [n for n in want if n not in g][:3], [n for n in g if n not in want][:3]),
                    filters=val, args=args, config=cfg, tree=tree,
                )
            r = box.run(base + args + ["--list-files"], ref={}, plan_extra=False).finish()
            lf = sorted(r.stdout.split("\n")[:-1])
            wf = sorted(f for f in files if okf(f))
            if r.rc != 0 or lf != wf:
                raise Violation("filters %s list the wrong files" % ({k: v for k, v in val.items() if v},), got=lf, want=wf, run=r.brief())
            ctx.count("evaluations")
            ctx.count("mutants_judged", len(full))
            ctx.saw("nontrivial", (src["inc"], src["exc"], src["re"], src["xre"], bool(want), len(want) < len(full)))
            if c["kind"] == "run":
                o = lab.run_lab(box, base + args + ["--baseline=skip"], ["rule build mut exit=101"], want_list=False)
                lab.no_hang(o)
                tested = sorted(model.mid(m) for m in o.mutants or [])
                if tested != sorted(model.mid(m) for m, n in full if n in set(want)):
                    raise Violation("the run did not select the mutants matching the filters", filters=val, run=o.run.brief())
                if want:
                    lab.need_outputs(o)
                    lab.mon_once(ctx, o, baseline=False)
        ctx.sample({"case": c["name"], "mutants": len(full), "last_filters": val})
