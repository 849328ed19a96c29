"""C26: the packages mutated and the packages tested are the ones selected."""
import collections
import json
import os

from .. import lab, model, proj, syn
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: packages of listed and tested mutants, and package arguments recorded in every cargo process, compared with those the workspace layout, start directory and options mean"
RULE = "one evaluation is one workspace and option set; non-trivial elements are distinct (root kind, start place, selection, test selection and source, mutated packages, tested packages)"
ASSUMPTIONS = ["workspace members lie inside the workspace root", "at least one package named by a test selection exists"]

NAMES = ["a", "a-b", "a_b", "ab", "b", "core", "core-macros", "util", "utils", "zed", "Upper", "x1", "main"]
DIRS = ["a", "b", "crates/a", "crates/b", "crates/deep/c", "libs/a-b", "tools", "crates/a/inner", "été", "sp ace", "zz", "examples/hello", "benches/x", "tests/y"]


def cases(rng, tier):
    n = 420 if tier == "quick" else 3000
    return [{"name": "ws%d" % k, "run": k % 2 == 0} for k in range(n)]


def make(rng):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 6]))
    virtual = rng.random() < 0.5
    dirs = rng.sample(DIRS, len(names))
    if not virtual:
        dirs[rng.randrange(len(dirs))] = ""
    pk = []
    for n, d in zip(names, dirs):
        pk.append({"name": n, "dir": d, "ver": rng.choice(["0.1.0", "1.2.3", "0.0.0", "2.0.0-rc.1", "1.0.0+meta"]), "n": rng.choice([0, 1, 1, 2, 3])})
    if not any(p["n"] for p in pk):
        pk[0]["n"] = 2
    tree = {}
    members = [p["dir"] for p in pk if p["dir"]]
    globbed = [m for m in members if m.startswith("crates/") and m.count("/") == 1]
    if "crates/a/inner" in members and "crates/a" not in members:
        globbed = []
    ml = [m for m in members if m not in globbed] + (["crates/[ab]"] if globbed else [])
    rng.shuffle(ml)
    q = lambda l: "[" + ", ".join('"%s"' % x for x in l) + "]"
    ws = "[workspace]\nresolver = \"2\"\nmembers = %s\n" % q(ml)
    default = None
    if rng.random() < 0.4 and members:
        default = rng.sample([p for p in pk], rng.randrange(1, len(pk) + 1))
        ws += "default-members = %s\n" % q([p["dir"] or "." for p in default])
    excl = rng.random() < 0.25
    if excl:
        ws += 'exclude = ["outsider"]\n'
        tree["outsider/Cargo.toml"] = proj.manifest("outsider") + ("" if rng.random() < 0.5 else "[workspace]\n")
        tree["outsider/src/lib.rs"] = "pub fn from_outsider() -> bool { go() }\n"
    if len(pk) > 1 and rng.random() < 0.25:
        # a package of examples only has nothing to mutate
        p = rng.choice(pk)
        if any(q["n"] for q in pk if q is not p):
            p["n"], p["bare"] = 0, True
    for k, p in enumerate(pk):
        pre = p["dir"] + "/" if p["dir"] else ""
        deps = ""
        if rng.random() < 0.3 and k:
            o = pk[rng.randrange(k)]
            deps = '[dependencies]\n"%s" = { path = "%s" }\n' % (o["name"], os.path.relpath("/" + o["dir"], "/" + p["dir"]))
        m = proj.manifest(p["name"], version=p["ver"]) + deps
        if not p["dir"]:
            m += ws
        tree[pre + "Cargo.toml"] = m
        p["tag"] = "tag%d_" % k
        fns = "".join("pub fn %sf%d() -> bool {\n    go()\n}\n" % (p["tag"], i) for i in range(p["n"]))
        if p.get("bare"):
            tree[pre + "src/notes.txt"] = "nothing here\n"
            tree[pre + rng.choice(["examples/only.rs", "tests/only.rs", "benches/only.rs"])] = "fn main() {}\nfn e() -> bool { go() }\n"
        elif rng.random() < 0.4:
            half = fns.split("pub fn ")
            tree[pre + "src/lib.rs"] = "mod sub;\n" + "".join("pub fn " + x for x in half[1:2])
            tree[pre + "src/sub.rs"] = "".join("pub fn " + x for x in half[2:])
        else:
            tree[pre + rng.choice(["src/lib.rs", "src/main.rs"])] = fns
    if virtual:
        tree["Cargo.toml"] = ws
    tree["docs/readme.md"] = "x\n"
    return tree, pk, virtual, default, excl


def run(ctx, c, rng):
    tree, pk, virtual, default, excl = make(rng)
    byname = {p["name"]: p for p in pk}
    start = rng.choice(["root", "root", "docs", "pkg", "pkg", "pkgsrc"] + (["outsider"] if excl else []))
    rootpkg = [p for p in pk if not p["dir"]]
    if start in ("root", "docs"):
        sdir = "" if start == "root" else "docs"
        auto = rootpkg if rootpkg else (default if default is not None else pk)
    elif start == "outsider":
        sdir = "outsider"
        auto = [{"name": "outsider", "dir": "outsider", "ver": "0.1.0", "n": 1, "tag": "from_outsider"}]
    else:
        p = rng.choice(pk)
        sdir = os.path.join(p["dir"], "src") if start == "pkgsrc" else p["dir"]
        auto = [p]
    universe = auto if start == "outsider" else pk
    args = []
    sel = rng.choice(["auto", "auto", "auto", "workspace", "package", "package"])
    chosen = auto
    if sel == "workspace":
        args.append("--workspace")
        chosen = universe
    elif sel == "package":
        names = [rng.choice(universe)["name"] for _ in range(rng.choice([1, 1, 2, 3, 7]))]
        if rng.random() < 0.35:
            other = rng.choice(universe)["name"]
            names.append(rng.choice(["nosuch", names[0][:-1] or "q", names[0] + "x", names[0].upper() + "_", other.replace("-", "_"), other.replace("_", "-"), other.replace("-", "_"), other.swapcase(), other[1:].lstrip("-_") or "q"]))
        i = 0
        chosen = [p for p in universe if p["name"] in names]
        while i < len(names):
            w = names[i : i + rng.choice([1, 1, 1, 2, 2, 6])]
            i += len(w)
            args += rng.choice([["--package", ",".join(w)], ["-p", ",".join(w)], ["--package=" + ",".join(w)], ["-p" + ",".join(w)]])
        if rng.random() < 0.15:
            args.append("--workspace")  # the names still select
    # tests
    cfg = []
    ts, named, src = "mutated", None, "none"
    tnames = lambda: [rng.choice(universe)["name"] for _ in range(rng.choice([1, 2, 3]))] + ([rng.choice(["nosuch", rng.choice(universe)["name"].replace("-", "_"), rng.choice(universe)["name"].swapcase()])] if rng.random() < 0.2 else [])
    cw = rng.choice([None, None, None, True, False])
    cp = tnames() if rng.random() < 0.3 else []
    aw = rng.choice([None, None, None, None, True, False])
    ap = tnames() if rng.random() < 0.3 else []
    if start != "outsider":
        if cw is not None:
            cfg.append("test_workspace = %s" % str(cw).lower())
        if cp:
            cfg.append("test_package = [%s]" % ", ".join('"%s"' % x for x in cp))
    else:
        cw, cp = None, []
    noconf = bool(cfg) and rng.random() < 0.15
    if noconf:
        args.append("--no-config")
        cw, cp = None, []
    if aw is not None:
        args.append("--test-workspace=%s" % str(aw).lower())
    if ap:
        if rng.random() < 0.5:
            args.append("--test-package=" + ",".join(ap))
        else:
            for x in ap:
                args += ["--test-package", x]
    if aw is True:
        ts, src = "workspace", "cli"
    elif ap:
        ts, named, src = "named", ap, "cli"
    elif aw is None and cw is True:
        ts, src = "workspace", "cfg"
    elif cp:
        ts, named, src = "named", cp, "cfg"
    if cfg:
        tree[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
    with ctx.box(tree, src_name=rng.choice(["src", "w s", "wé"])) as box:
        root = os.path.join(box.src, "outsider") if start == "outsider" else box.src
        full = os.path.join(box.src, sdir)
        how = rng.choice(["dir", "dirrel", "cwd", "link"] + ([] if start in ("docs", "pkgsrc") else ["manifest", "manrel", "manbare"]))
        kw = {"dir_arg": False, "cwd": box.dir}
        if how == "dir":
            args = [rng.choice(["-d", "--dir"]), full] + args
        elif how == "dirrel":
            kw["cwd"] = os.path.join(box.dir, "tmp")
            args = ["--dir=" + os.path.relpath(full, kw["cwd"])] + args
        elif how == "cwd":
            kw["cwd"] = full
        elif how == "link":
            ln = os.path.join(box.dir, "ln")
            os.symlink(full, ln)
            if rng.random() < 0.5:
                kw["cwd"] = ln
            else:
                args = ["-d", ln] + args
        elif how == "manifest":
            args = ["--manifest-path", os.path.join(full, "Cargo.toml")] + args
        elif how == "manrel":
            args = ["--manifest-path=" + os.path.relpath(os.path.join(full, "Cargo.toml"), box.dir)] + args
        else:
            kw["cwd"] = full
            args = ["--manifest-path", "Cargo.toml"] + args
        js = syn.listing(box, args, **kw)
        got = collections.Counter((m["package"], m["function"]["function_name"] if m.get("function") else None) for m in js)
        exp = collections.Counter()
        for p in chosen:
            for i in range(p["n"]):
                exp[(p["name"], p["tag"] + "f%d" % i if start != "outsider" else "from_outsider")] += 2
        if got != exp:
            raise Violation("the mutated packages are not those selected: missing %s, unexpected %s" % (sorted(map(str, exp - got))[:4], sorted(map(str, got - exp))[:4]), args=args, how=how, start=sdir, manifest=tree["Cargo.toml"], cwd=kw["cwd"], config=cfg)
        r2 = box.run(args + ["--list-files", "--json"], ref={}, plan_extra=False, **kw).finish()
        fp = None
        try:
            fp = {(x["package"]) for x in json.loads(r2.stdout)}
        except ValueError:
            pass
        if r2.rc != 0 or fp != {p["name"] for p in chosen if not p.get("bare")}:
            raise Violation("--list-files shows packages %s, selected are %s" % (fp, sorted(p["name"] for p in chosen)), run=r2.brief())
        ctx.count("listings")
        ctx.saw("nontrivial", ("list", virtual, default is not None, start, sel, how, len(chosen)))
        ctx.count("evaluations")
        if not c["run"] or not js:
            return
        extra = []
        if rng.random() < 0.2 and len(js) > 2:
            extra = ["--shard=%d/2" % rng.randrange(2)]
        elif rng.random() < 0.2:
            extra = ["-F", rng.choice(["true", chosen[0]["tag"] + "f0"])]
        check = rng.random() < 0.2
        if check:
            extra.append("--check")
        o = lab.run_lab(box, args + extra + ["--jobs", str(rng.choice([1, 1, 3]))], ["rule test mut exit=101", "rule * * exit=0"], list_args=args + extra, want_list=False, src=root, **kw)
        lab.need_outputs(o)
        mp = {m["package"] for m in o.mutants}
        if not o.mutants:
            return
        if o.run.rc != 0:
            raise Violation("the program failed", run=o.run.brief())
        ver = {p["name"]: p["ver"] for p in universe}
        where = {}
        for p in universe:
            where[os.path.relpath(os.path.join(box.src, p["dir"]), root)] = p["name"]

        def owner(path):
            d = os.path.dirname(path)
            while True:
                k = d or "."
                if k in where:
                    return where[k]
                if not d:
                    raise HarnessError("no owner of " + path)
                d = os.path.dirname(d)

        n = 0
        for i in o.invs:
            pa = [x for x in i.argv[1:] if x.startswith("--package") or x in ("--workspace", "-p", "--all")]
            key = i.key()
            if ts == "workspace":
                want = ["--workspace"]
            elif ts == "named":
                want = ["--package=%s@%s" % (x, ver[x]) for x in sorted(set(named)) if x in ver]
            elif key is None:
                want = ["--package=%s@%s" % (x, ver[x]) for x in sorted(mp)]
            else:
                pkg = owner(key[0] if isinstance(key[0], str) else key[0][0])
                want = ["--package=%s@%s" % (pkg, ver[pkg])]
            if collections.Counter(pa) != collections.Counter(want):
                raise Violation("%s of %s was run with %s, selected are %s" % (i.phase, "the baseline" if key is None else "a mutant", pa, want), argv=i.argv, args=args + extra, config=cfg, run=o.run.brief())
            n += 1
            ctx.count("commands_judged")
            ctx.saw("nontrivial", ("run", ts, src, key is None, i.phase, len(want), len(mp)))
        if n < 2:
            raise HarnessError("too few commands")
        ctx.sample({"args": args + extra, "config": cfg, "start": sdir, "packages": [p["name"] for p in chosen], "tests": ts})
