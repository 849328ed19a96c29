"""C16: exactly the source files reachable from each package's targets are mutated."""
import collections
import json
import os
import subprocess

from .. import core, syn
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: files listed and mutated by the real binary on generated module trees, judged by a model of rustc's module rules that is itself checked against rustc's dep-info"
RULE = "one evaluation is one generated project; non-trivial elements are distinct (kind of declaration, kind of parent file, nesting) reached"
ASSUMPTIONS = ["rustc 1.99 dep-info is the reference for where a mod declaration leads; mod declarations produced by macros are not followed (documented limitation)"]

NAMES = ["alpha", "beta", "r#type", "r#async", "deep_mod", "été", "x1", "mod_a", "lib2", "main2", "tests_", "Upper"]


def literal(rng, p):
    """A string literal for p."""
    k = rng.randrange(10)
    if k == 0:
        return 'r"%s"' % p
    if k == 1:
        return 'r##"%s"##' % p
    if k == 2:
        i = rng.randrange(len(p))
        return '"%s%s%s"' % (p[:i], rng.choice(["\\x%02x", "\\u{%x}"]) % ord(p[i]), p[i + 1 :])
    return '"%s"' % p


class T:
    """Module tree builder."""

    def __init__(self, rng, ctx, missing, extern_ok=True):
        self.rng, self.ctx, self.missing = rng, ctx, missing
        self.files = {}  # path -> text lines
        self.want = set()  # normalized paths reachable
        self.n = 0
        self.hasmissing = False
        self.outside = {}

    def uid(self):
        self.n += 1
        return "%s%d" % (self.rng.choice(NAMES), self.n)

    def body(self, path):
        self.n += 1
        k = self.rng.random()
        if k < 0.1:
            return "// nothing to mutate\n"
        return "pub fn marker_%d() -> bool { go() }\n" % self.n

    def file(self, path, modrs, depth, active=True):
        """Write the file at path; modrs: its modules live beside it."""
        r = self.rng
        path = os.path.normpath(path)
        if path in self.files:
            return
        lines = [self.body(path)]
        self.files[path] = ""
        if active:
            self.want.add(path)
        d = os.path.dirname(path)
        own = d if modrs else path[:-3]
        for _ in range(r.choice([0, 1, 2, 3]) if depth > 0 else 0):
            lines.append(self.decl(path, d, own, depth, active, [], modrs))
        r.shuffle(lines)
        self.files[path] = ("#!/usr/bin/env x\n" if modrs and r.random() < 0.04 else "") + "".join(lines)

    def decl(self, path, d, own, depth, active, stack, modrs):
        """One mod declaration in the directory `own` (path attributes at top level: `d`)."""
        r = self.rng
        k = r.choice(["rs", "rs", "modrs", "inline", "inline", "path", "path", "inlinepath", "test", "skip", "missing", "unreached", "up", "outside", "shared", "abs"])
        n = self.uid()
        fsn = n[2:] if n.startswith("r#") else n
        vis = r.choice(["", "pub ", "pub(crate) "])
        if k in ("rs", "modrs"):
            f = os.path.join(own, fsn + (".rs" if k == "rs" else "/mod.rs"))
            self.saw(k, modrs, stack, active)
            self.file(f, k == "modrs", depth - 1, active)
            return "%s%smod %s;\n" % (r.choice(["", "#[allow(unused)]\n", "/// docs\n"]), vis, n)
        if k in ("inline", "inlinepath"):
            inner_own = os.path.join(own, fsn)
            attr = ""
            if k == "inlinepath":
                p = r.choice(["other%d", "some/dir%d", "./dot%d"]) % self.n
                # at the top level of a file the attribute is relative to the file's directory
                inner_own = os.path.join(own if stack else d, p)
                attr = "#[path = %s]\n" % literal(r, p)
            self.saw(k, modrs, stack, active)
            ls = [self.body(path)]
            for _ in range(r.choice([1, 2])):
                if depth > 0:
                    ls.append(self.decl(path, inner_own, inner_own, depth - 1, active, stack + [k], modrs))
            r.shuffle(ls)
            return "%s%smod %s {\n%s}\n" % (attr, vis, n, "".join(ls))
        if k in ("path", "up", "shared"):
            base = own if stack else d
            if k == "path":
                p = r.choice(["named_%d.rs", "sub/named_%d.rs", "./dot_%d.rs", "a/b/../named_%d.rs", "odd name %d.rs", "noext_%d.inc", "mod_%d/mod.rs"]) % self.n
                if "a/b/.." in p:
                    self.files.setdefault(os.path.normpath(os.path.join(base, "a/b/keep")), "")
            elif k == "up":
                p = r.choice(["../", "../", "../../"]) + "up_%d.rs" % self.n
                # rustc resolves through the real directories, which must exist
                self.files.setdefault(os.path.normpath(os.path.join(base, "keep")), "")
                if os.path.normpath(os.path.join(base, p)).count("/") < 1 or ".." in os.path.normpath(os.path.join(base, p)):
                    return "\n"
            else:
                p = "shared_one.rs"
            f = os.path.normpath(os.path.join(base, p))
            if f.endswith(".rs") or f.endswith(".inc"):
                self.saw(k, modrs, stack, active)
                if f in self.files:
                    if active:
                        self.want.add(f)
                else:
                    # a file named by a path attribute owns its directory like mod.rs
                    self.file(f, True, 0 if k == "shared" else depth - 1, active)
            return "#[path = %s]\n%smod %s;\n" % (literal(r, p), vis, n)
        if k in ("test", "skip"):
            a = r.choice(["#[cfg(test)]", "#[mutants::skip]", "#[cfg_attr(test, mutants::skip)]"]) if k == "skip" else "#[cfg(test)]"
            self.saw(k, modrs, stack, active)
            self.notrustc = True
            self.file(os.path.join(own, fsn + r.choice([".rs", "/mod.rs"])), False, 0, False)
            return "%s\n%smod %s;\n" % (a, vis, n)
        if k == "missing":
            if not self.missing:
                return "\n"
            self.hasmissing = True
            self.saw(k, modrs, stack, active)
            # files that look like the missing one, at places rustc does not look
            for f in r.sample(["%s/lib.rs", "%s/main.rs", "%s/%s.rs", "%s.RS", "%s.rs.bak", "%s", "../%s.rs", "%s/mod.RS", "_%s.rs", "%s/src/mod.rs"], r.choice([0, 2, 4])):
                f = os.path.normpath(os.path.join(own, f.replace("%s", fsn)))
                if f.startswith(".."):
                    continue
                if f.count("/") and not any(g == f or g.startswith(f + "/") or f.startswith(g + "/") for g in self.files):
                    self.files[f] = "pub fn decoy_%d() -> bool { go() }\n" % self.n
            return "mod %s;\n" % n
        if k == "unreached":
            self.files.setdefault(os.path.join(own, fsn + ".rs"), "pub fn unreached_%d() -> bool { go() }\n" % self.n)
            self.saw(k, modrs, stack, active)
            return "// mod %s;\n/* mod %s; */\nconst S%d: &str = \"mod %s;\";\n" % (n, n, self.n, n)
        if k == "outside":
            if not self.missing:
                return "\n"
            base = own if stack else d
            self.hasmissing = True
            self.files.setdefault(os.path.join(base, "keep"), "")
            up = "../" * (len(base.split("/")) + 1)
            self.outside["out_%d.rs" % self.n] = "pub fn outside_%d() -> bool { go() }\n" % self.n
            self.saw(k, modrs, stack, active)
            return '#[path = "%sout_%d.rs"]\nmod %s;\n' % (up, self.n, n)
        if k == "abs":
            if not self.missing:
                return "\n"
            self.hasmissing = True
            self.outside["abs_%d.rs" % self.n] = "pub fn abs_%d() -> bool { go() }\n" % self.n
            return '#[path = "/proc/self/nonexistent_%d.rs"]\nmod %s;\n' % (self.n, n)
        raise AssertionError(k)

    def saw(self, k, modrs, stack, active):
        self.ctx.saw("nontrivial", (k, modrs, "/".join(stack), active))


def cases(rng, tier):
    n = 330 if tier == "quick" else 3000
    return [{"name": "tree%d" % k, "depth": [1, 2, 3, 4][k % 4], "pkgs": rng.choice([1, 1, 2, 3]), "missing": k % 3 == 0, "rustc": k % 3 == 1} for k in range(n)]


def run(ctx, c, rng):
    t = T(rng, ctx, c["missing"])
    t.notrustc = False
    tree, roots, plainroots = {}, [], set()
    members = []
    for p in range(c["pkgs"]):
        name = "pk%d" % p
        pre = "" if c["pkgs"] == 1 else rng.choice(["crates/", "", "a/b/", "examples/", "tests/"]) + name + "/"
        members.append(pre)
        man = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' % name
        auto = rng.random() < 0.3  # targets found by cargo itself: their files have no modules
        if not auto:
            man += "autobins = false\n"
        kinds = rng.sample(["lib", "main", "bin", "bindir", "binpath"], rng.choice([1, 2, 3]))
        custom = rng.random() < 0.3
        if "lib" in kinds:
            if custom:
                lp = rng.choice(["src/custom_root.rs", "code/start.rs", "root.rs"])
                man += '[lib]\npath = "%s"\n' % lp + rng.choice(["", "proc-macro = true\n", 'crate-type = ["cdylib"]\n', 'crate-type = ["staticlib", "rlib"]\n', 'crate-type = ["dylib"]\n', 'crate-type = ["staticlib"]\n', 'crate-type = ["rlib"]\n', 'crate-type = ["lib", "cdylib"]\n']) + rng.choice(["", "", "test = false\n", "test = false\ndoctest = false\nbench = false\n", "harness = false\n", 'name = "other_name_%d"\n' % p])
            else:
                lp = "src/lib.rs"
                man += rng.choice(["", "[lib]\nproc-macro = true\n", '[lib]\ncrate-type = ["cdylib", "rlib"]\n'])
            roots.append(os.path.normpath(pre + lp))
        for kk, bp in (("main", "src/main.rs"), ("bin", "src/bin/tool_%d.rs" % p), ("bindir", "src/bin/dirtool_%d/main.rs" % p)):
            if kk in kinds:
                roots.append(pre + bp)
                if auto:
                    plainroots.add(pre + bp)
                else:
                    man += '[[bin]]\nname = "b_%s_%d"\npath = "%s"\n' % (kk, p, bp) + rng.choice(["", "", "test = false\n", "doc = false\nbench = false\n", "required-features = ['f1']\n"])
        if "binpath" in kinds:
            bp = rng.choice(["src/named_bin.rs", "bins/one.rs", "examples/one_bin.rs", "benches/two_bin.rs", "tests/tool/start.rs", "./src/../bins/two.rs"] + (["../beside_%d/start.rs" % p] if pre else []))
            man += '[[bin]]\nname = "named%d"\npath = "%s"\n' % (p, bp) + rng.choice(["", "test = false\n", "required-features = ['f1', 'f2']\n"])
            roots.append(os.path.normpath(pre + bp))
        if "required-features" in man:
            man += "[features]\nf1 = []\nf2 = []\n"
        # never considered
        extra = {}
        if rng.random() < 0.5:
            extra["tests/it.rs"] = "mod helper;\nfn it_helper() -> bool { go() }\n"
            extra["tests/helper/mod.rs"] = "pub fn h() -> bool { go() }\n"
        if rng.random() < 0.4:
            extra["examples/ex.rs"] = "fn main() {}\nfn e() -> bool { go() }\n"
        if rng.random() < 0.4:
            extra["benches/b.rs"] = "fn b() -> bool { go() }\n"
        if rng.random() < 0.4:
            extra["build.rs"] = "fn main() {}\nfn bb() -> bool { go() }\n"
        for k, v in extra.items():
            tree[pre + k] = v
        tree[pre + "Cargo.toml"] = man
    if c["pkgs"] > 1:
        tree["Cargo.toml"] = "[workspace]\nresolver = \"2\"\nmembers = [%s]\n" % ", ".join('"%s"' % m.rstrip("/") for m in members)
    for rt in roots:
        t.file(rt, True, 0 if rt in plainroots else c["depth"])
    # several targets of a package may share a module
    if rng.random() < 0.3 and len(roots) > 1:
        by = collections.defaultdict(list)
        for rt in roots:
            by[os.path.dirname(rt)].append(rt)
        for d, v in by.items():
            if len(v) > 1:
                for rt in v:
                    t.files[rt] += "mod common_mod;\n"
                t.file(os.path.join(d, "common_mod.rs"), False, 1)
                ctx.saw("nontrivial", "module shared by targets")
    for p, v in t.files.items():
        if p in tree:
            raise HarnessError("clash " + p)
        tree[p] = v
    with ctx.box(tree) as box:
        for n, v in t.outside.items():
            with open(os.path.join(box.dir, n), "w") as f:
                f.write(v)
        if c["rustc"] and not t.hasmissing:
            ref = set()
            for rt in roots:
                ref |= rustc_files(box, rt)
            # modules that rustc skips (cfg(test)) or follows (mutants::skip) are not comparable
            if not t.notrustc and ref != t.want:
                raise HarnessError("model of module rules differs from rustc: %s" % sorted(ref ^ t.want))
            ctx.count("models_confirmed_by_rustc", 0 if t.notrustc else 1)
        args = ["--workspace"] if c["pkgs"] > 1 else []
        r = box.run(args + ["--list-files", "--json"], ref={}, plan_extra=False).finish()
        if r.rc != 0 or r.panicked:
            raise Violation("--list-files failed", run=r.brief(), tree=tree)
        fl = [os.path.normpath(x["path"]) for x in json.loads(r.stdout)]
        r2 = box.run(args + ["--list-files"], ref={}, plan_extra=False).finish()
        plain = [os.path.normpath(x) for x in r2.stdout.split("\n")[:-1]]
        if plain != fl:
            raise Violation("--list-files and --list-files --json differ", plain=plain, js=fl)
        dup = [k for k, v in collections.Counter(fl).items() if v > 1]
        if dup:
            raise Violation("files are listed twice: %s" % dup, tree=tree)
        if set(fl) != t.want:
            raise Violation("source files considered are wrong: missing %s, unexpected %s" % (sorted(t.want - set(fl))[:4], sorted(set(fl) - t.want)[:4]), tree=tree)
        ms = syn.listing(box, args)
        got = collections.Counter((os.path.normpath(m["file"]), m["function"]["function_name"].split("::")[-1], m["replacement"]) for m in ms)
        want = collections.Counter()
        for f in t.want:
            for l in t.files[f].split("\n"):
                if l.startswith("pub fn marker_"):
                    nm = l[len("pub fn ") :].split("(")[0]
                    for v in ("true", "false"):
                        want[(f, nm, v)] += 1
        if got != want:
            raise Violation("mutants are not those of the reachable files: missing %s, unexpected %s" % (list(want - got)[:4], list(got - want)[:4]), tree=tree)
        ctx.count("files_compared", len(fl))
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "roots": len(roots), "files": len(fl)})


def rustc_files(box, root):
    src = os.path.join(box.src, root)
    out = os.path.join(box.dir, "deps.d")
    r = subprocess.run([core.TCBIN + "/rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "x", "--emit=dep-info=" + out, src], capture_output=True, text=True, env=dict(core.build_env(), RUSTC_BOOTSTRAP="1"), cwd=box.dir)
    if not os.path.exists(out):
        raise HarnessError("rustc gave no dep-info: " + r.stderr[-1500:])
    txt = open(out).read()
    os.unlink(out)
    files = set()
    for l in txt.split("\n"):
        if l.endswith(":") and not l.startswith("#"):
            p = l[:-1].replace("\\ ", " ")
            files.add(os.path.normpath(os.path.relpath(p, box.src)))
    return files
