"""C12: relative path dependencies still resolve from the scratch copy."""
import json
import os
import subprocess
import tomllib

from .. import core, lab, proj
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: manifests and cargo config of every scratch tree the real binary made, parsed and compared with the originals; the real cargo resolves both trees"
RULE = "one evaluation is one run; non-trivial elements are distinct (sections holding outside paths, forms of path, start through a symlink?, real resolution compared?)"
ASSUMPTIONS = ["paths that leave the tree and come back into it by its own name are not generated", "metadata values are finite"]


def cases(rng, tier):
    n = 260 if tier == "quick" else 3000
    return [{"name": "man%d" % k, "jobs": rng.choice([1, 1, 2]), "ws": rng.choice(["none", "root", "virtual"]), "deep": rng.random() < 0.3, "link": rng.random() < 0.2, "n": rng.choice([0, 1, 2, 4, 7]), "patch": rng.random() < 0.4, "cfg": rng.choice([None, None, "paths", "mixed", "none"])} for k in range(n)]


def paths(rng, depth, inside, outside, absdir):
    """(path text, kind) for a dependency; depth is how many directories are above the tree, in the box."""
    up = "../"
    k = rng.choice(["out", "out", "out", "outdeep", "outdot", "outvia", "outslash", "outtwice", "in", "indot", "invia", "abs"])
    o = rng.choice(outside)
    if k == "out":
        return up + o, "out"
    if k == "outdeep":
        return up * 2 + "up2", "out"
    if k == "outdot":
        return "./" + up + "./" + o, "out"
    if k == "outvia":
        return "src/" + up * 2 + o, "out"
    if k == "outslash":
        return up + o + "/", "out"
    if k == "outtwice":
        return up + o + "/.." * (1 + o.count("/")) + "/" + rng.choice(outside), "out"
    i = rng.choice(inside)
    if k == "in":
        return i, "in"
    if k == "indot":
        return "./" + i, "in"
    if k == "invia":
        return "src/../" + i, "in"
    return os.path.join(absdir, rng.choice(outside)), "abs"


def tstr(s, rng):
    if "'" not in s and rng.random() < 0.3:
        return "'%s'" % s
    return json.dumps(s, ensure_ascii=False)


def run(ctx, c, rng):
    sname = rng.choice(["outer/src", "outer/été tree", "outer/s.r-c"])
    with ctx.box(None, src_name=sname) as box:
        up1 = os.path.dirname(box.src)
        outside = ["dep1", "dep 2", "dép3", "deps/dep4", "dep5"]
        inside = ["in1", "crates/in2", "in3"]
        names = {}

        def crate(where, nm):
            core.write_tree(where, {"Cargo.toml": proj.manifest(nm), "src/lib.rs": "pub fn %s() {}\n" % nm})
            names[os.path.realpath(where)] = nm

        for k, o in enumerate(outside):
            crate(os.path.join(up1, o), "out%d" % (k + 1))
        crate(os.path.join(box.dir, "up2"), "up2")
        for k, o in enumerate(inside):
            crate(os.path.join(box.src, o), "ins%d" % (k + 1))
        tree = proj.pkg(rng, 2, 1, kinds=["bool", "unit"])
        sections = []
        if c["ws"] != "virtual":
            sections += ["dependencies", "dev-dependencies", "build-dependencies", "target.'cfg(unix)'.dependencies", "target.x86_64-unknown-linux-gnu.dev-dependencies", 'target."cfg(not(windows))".build-dependencies']
        if c["ws"] != "none":
            sections += ["workspace.dependencies"]
        if c["patch"]:
            sections += ["patch.crates-io", "patch.\"https://example.com/r\""]
        elif rng.random() < 0.3:
            sections += ["replace", "dev_dependencies" if c["ws"] != "virtual" else "replace"]
        used, seen_forms, kinds = set(), set(), set()
        body, resolvable = "", True
        for k in range(c["n"]):
            s = rng.choice(sections)
            p, kind = paths(rng, 1, inside, outside, up1)
            real = os.path.realpath(os.path.join(box.src, p))
            nm = names[real]
            nm0 = nm
            if s == "replace":
                nm = '"%s:0.1.0"' % nm
            if (s, nm) in used:
                continue
            if s.startswith(("dep", "dev", "build", "target")) and c["ws"] != "none" and any(u[1] == nm for u in used):
                pass
            used.add((s, nm))
            kinds.add((s.split(".")[-1] if not s.startswith("patch") else "patch", kind))
            seen_forms.add(kind + p.split(nm)[0][:6])
            form = rng.choice(["inline", "table", "dotted"])
            extra = rng.choice(["", ', version = "0.1.0"', ", optional = false" if s != "workspace.dependencies" and not s.startswith("patch") else "", ", default-features = true", "", ", version = \"0.1\", features = []", ', registry = "crates-io"' if not s.startswith("patch") and s != "replace" else ""])
            if form == "inline":
                body += "[%s.%s]\n" % (s, nm) + "".join(x.strip() + "\n" for x in extra.split(",")) + "path = %s\n" % tstr(p, rng)
            elif form == "table":
                body += "[%s.%s] # c\n  path=%s\n" % (s, nm if s == "replace" else "'%s'" % nm, tstr(p, rng))
            else:
                # one section with inline tables is only allowed once per section
                body += "[%s.%s]\n\"path\" = %s   # %s\n" % (s, nm, tstr(p, rng), p)
        inl = ""
        # sections written as one table with inline values
        if rng.random() < 0.5 and c["ws"] != "virtual":
            t = rng.choice(["dependencies", "dev-dependencies"])
            if not any(u[0] == t for u in used):
                p, kind = paths(rng, 1, inside, outside, up1)
                nm = names[os.path.realpath(os.path.join(box.src, p))]
                inl = "[%s]\n%s%s = { path = %s }\n" % (t, rng.choice(["", "", "", "serde = '1'\nlibc = { version = \"0.2\", features = ['extra_traits'] }\nrand.git = '../not/a/path'\n"]), nm, tstr(p, rng))
                kinds.add((t + " inline", kind))
        meta = rng.choice(["", '[package.metadata.x]\npath = "../dep1"\nlist = [1, 2.5, "../a", 1979-05-27T07:32:00Z, true]\n[package.metadata.dependencies]\nq = { path = "../dep1" }\n', '[package.metadata.docs]\nstr = """a\nb"""\nn = 0x1F\n', "# just a comment\n"])
        man = tree["Cargo.toml"] + "".join(rng.choice([["[features]\nf = []\n"], ["[profile.dev]\nopt-level = 1\n"], [""]]))
        if c["ws"] == "virtual":
            man = '[workspace]\nresolver = "2"\nmembers = ["m", "in1"]\n'
            core.write_tree(os.path.join(box.src, "m"), dict(tree, **{"Cargo.toml": proj.manifest("m")}))
            tree = {}
            meta = rng.choice(["", '[workspace.metadata]\npath = "../dep1"\n'])
        elif c["ws"] == "root":
            man += '[workspace]\nmembers = ["in1"]\nexclude = ["../x", "in3"]\n'
        chunks = [body, inl, meta]
        rng.shuffle(chunks)
        man += "".join(chunks)
        if rng.random() < 0.3:
            # comments are not kept when the file is rewritten, which makes it shorter
            man = man.replace("[", "# %s\n[" % ("a long comment " * rng.choice([3, 40])), 1) + "# end %s\n" % ("z" * rng.choice([10, 300, 5000]))
        if rng.random() < 0.15:
            man = man.replace("\n", "\r\n")
        try:
            orig = tomllib.loads(man)
        except tomllib.TOMLDecodeError as e:
            raise HarnessError("bad manifest: %s\n%s" % (e, man))
        tree["Cargo.toml"] = man
        core.write_tree(box.src, tree)
        cfgtext, cfgo = None, None
        if c["cfg"]:
            ps = [paths(rng, 1, inside, outside, up1) for _ in range(rng.choice([1, 2, 3]))]
            cfgtext = ""
            if c["cfg"] == "paths":
                cfgtext = "paths = [%s]\n" % ", ".join(tstr(p, rng) for p, _ in ps)
                kinds |= {("config", k) for _, k in ps}
            elif c["cfg"] == "mixed":
                cfgtext = "# paths\npaths = [%s] # end\n[build]\njobs = 3\n[alias]\nx = ['build', '--release']\n[env]\nA = { value = '../rel', relative = true }\n[term]\nquiet = false\n" % ",\n ".join(tstr(p, rng) for p, _ in ps)
                kinds |= {("config", k) for _, k in ps}
            else:
                cfgtext = "[env]\nA = '../b' # c\n"
            if rng.random() < 0.3:
                cfgtext = "# %s\n" % ("a long comment " * rng.choice([3, 40])) + cfgtext + "\n\n# %s" % ("z" * 500)
            cfgo = tomllib.loads(cfgtext)
            core.write_tree(box.src, {".cargo/config.toml": cfgtext})
        src = box.src
        if c["link"]:
            src = os.path.join(box.dir, "alias")
            os.symlink(box.src, src)
        r0 = box.run(["--list"], ref={}, plan_extra=False, src=src).finish()
        if r0.rc != 0 or not r0.stdout.strip():
            # cargo itself refuses this manifest
            ctx.skip("cargo refuses the manifest")
            return
        before = core.snapshot(box.src)
        r = box.run(["--leak-dirs", "--jobs", str(c["jobs"])], plan=["nosnap", "rule * * exit=0"], ref={}, src=src).finish()
        if r.hung or r.panicked or r.rc != 2:
            raise Violation("the program failed on this tree", run=r.brief(), manifest=man, config=cfgtext)
        d = core.snap_diff(before, core.snapshot(box.src))
        if d:
            raise Violation("the source tree changed: %s" % d[:3], run=r.brief())
        copies = sorted({e["cwd"] for e in r.events if e["ev"] == "start"})
        if not copies or any(not x.startswith(os.path.realpath(box.tmp)) for x in copies):
            raise Violation("the copies are not in the temporary directory: %s" % copies, run=r.brief())
        rsrc = os.path.realpath(box.src)
        for cp in copies:
            judge(ctx, orig, man, os.path.join(cp, "Cargo.toml"), rsrc, "manifest")
            if cfgtext is not None:
                judge(ctx, cfgo, cfgtext, os.path.join(cp, ".cargo/config.toml"), rsrc, "config")
            elif os.path.exists(os.path.join(cp, ".cargo")):
                raise Violation("the copy has a .cargo directory that the source does not have", run=r.brief())
            after = {p: v for p, v in core.snapshot(cp).items() if p not in ("Cargo.toml", ".cargo/config.toml") and v[0] != "d"}
            bb = {p: v for p, v in before.items() if p not in ("Cargo.toml", ".cargo/config.toml") and v[0] != "d"}
            if after != bb:
                raise Violation("another file of the copy differs: %s" % core.snap_diff(bb, after)[:3], run=r.brief())
        # the real cargo resolves the copy to the same crates
        res = "no"
        if rng.random() < 0.3:
            a, b = resolve(box, box.src), resolve(box, copies[0])
            if a is not None:
                if b is None:
                    raise Violation("cargo resolves the source tree but not the copy", manifest=man, copied=open(os.path.join(copies[0], "Cargo.toml")).read())
                if a != b:
                    raise Violation("the copy resolves to other crates: %s" % sorted(a ^ b)[:4], manifest=man)
                res = "yes" if any(not p.startswith("@") for _, p in a) else "inside"
                ctx.count("resolutions_compared")
        ctx.count("evaluations")
        ctx.saw("nontrivial", (tuple(sorted(kinds)), c["link"], res))
        ctx.sample({"case": c["name"], "paths": sorted(map(str, kinds)), "resolution": res})


def resolve(box, d):
    e = box.env({"CARGO": None})
    p = subprocess.run([os.path.join(core.TCBIN, "cargo"), "metadata", "--format-version", "1", "--offline"], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode:
        if os.environ.get("VDEBUG"):
            print(p.stderr)
        return None
    root = os.path.realpath(d)
    out = set()
    for x in json.loads(p.stdout)["packages"]:
        m = os.path.realpath(x["manifest_path"])
        out.add((x["name"], "@" + m[len(root):] if m.startswith(root + "/") else m))
    return out


def judge(ctx, orig, text, path, rsrc, what):
    try:
        with open(path, "rb") as f:
            raw = f.read()
        got = tomllib.loads(raw.decode())
    except (OSError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
        raise Violation("the copied %s cannot be read: %s" % (what, e), original=text)
    changed = [0]

    def is_out(p):
        if os.path.isabs(p):
            return False
        n = os.path.normpath(p)
        # (a path that leaves the tree on the way is rewritten too, or not: both mean the same here)
        return n == ".." or n.startswith("../")

    def dep(o, at):
        """A copy of the dependency table with every outside path made absolute."""
        if not isinstance(o, dict):
            return o
        r = {}
        for k, v in o.items():
            if isinstance(v, dict) and isinstance(v.get("path"), str) and is_out(v["path"]):
                v = dict(v, path=("ABS", os.path.normpath(os.path.join(rsrc, v["path"]))))
                changed[0] += 1
            r[k] = v
        return r

    def secs(t):
        for s in ("dependencies", "dev-dependencies", "build-dependencies", "dev_dependencies", "build_dependencies"):
            if s in t:
                t[s] = dep(t[s], s)
        return t

    exp = dict(orig)
    if what == "manifest":
        secs(exp)
        if "target" in exp:
            exp["target"] = {k: secs(dict(v)) for k, v in exp["target"].items()}
        if "workspace" in exp:
            exp["workspace"] = secs(dict(exp["workspace"]))
        if "replace" in exp:
            exp["replace"] = dep(exp["replace"], "replace")
        if "patch" in exp:
            exp["patch"] = {k: dep(v, "patch") for k, v in exp["patch"].items()}
    elif "paths" in exp:
        exp["paths"] = [("ABS", os.path.normpath(os.path.join(rsrc, p))) if is_out(p) else p for p in exp["paths"]]
        changed[0] += sum(1 for p in orig["paths"] if is_out(p))

    def cmp(e, g, at):
        if isinstance(e, tuple):
            if not (isinstance(g, str) and os.path.isabs(g) and os.path.normpath(g) == e[1]):
                raise Violation("%s of the %s is %r in the copy, it should be %r" % (at, what, g, e[1]), original=text, copied=raw.decode())
            ctx.count("paths_judged")
        elif isinstance(e, dict):
            if not isinstance(g, dict) or set(e) != set(g):
                raise Violation("the keys of %s in the %s changed: %s" % (at or "top", what, sorted(set(e) ^ set(g if isinstance(g, dict) else {}))), original=text, copied=raw.decode())
            for k in e:
                cmp(e[k], g[k], at + "." + k)
        elif isinstance(e, list):
            if not isinstance(g, list) or len(e) != len(g):
                raise Violation("%s in the %s changed" % (at, what), original=text, copied=raw.decode())
            for i, (x, y) in enumerate(zip(e, g)):
                cmp(x, y, "%s[%d]" % (at, i))
        elif type(e) is not type(g) or e != g:
            raise Violation("%s in the %s changed from %r to %r" % (at, what, e, g), original=text, copied=raw.decode())

    cmp(exp, got, "")
    if not changed[0] and raw != text.encode():
        raise Violation("a %s that needs no change was rewritten" % what, original=text, copied=raw.decode())
    ctx.count("files_judged")
