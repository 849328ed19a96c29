"""C11: the scratch copy is a faithful copy of the tree."""
import os
import subprocess

from .. import core, lab, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every scratch tree is compared, entry by entry, with the tree expected from the source (git itself is the oracle for ignored files)"
RULE = "one evaluation is one run; non-trivial elements are distinct (options, kind of tree, number of entries, number left out) copies that were compared"
ASSUMPTIONS = ["permission bits of directories are not compared", "git's own answer (git check-ignore) says what git would ignore, for files that are not tracked"]

VCS = [".git", ".hg", ".bzr", ".svn", "_darcs", ".jj", ".pijul"]


def cases(rng, tier):
    out = []
    n = 44 if tier == "quick" else 350
    for k in range(n):
        out.append({"name": "tree%d" % k, "fault": None, "git": ["none", "root", "root", "parent", "none", "file"][k % 6], "jobs": rng.choice([1, 1, 2, 3]), "vcs_copy": rng.random() < 0.25, "gitignore": rng.choice([None, None, None, True, False]), "how": rng.choice(["cli", "cli", "config", "over"]), "size": rng.choice([5, 15, 30])})
    for k in range(9 if tier == "quick" else 60):
        # whatever git would ignore, and for whatever reason, is copied
        out.append({"name": "all%d" % k, "fault": None, "git": ["root", "parent", "file"][k % 3], "jobs": 1, "vcs_copy": False, "gitignore": False, "how": "cli", "size": rng.choice([15, 30]), "global": True})
    # a fault while the copy is made: whatever cargo is run in must still be a complete copy
    for k in range(36 if tier == "quick" else 400):
        op, where = [("openr", "src"), ("opendir", "src"), ("copy_file_range", "tmp"), ("openw,create,trunc", "tmp"), ("mkdir", "tmp"), ("symlink", "tmp"), ("readlink", "src"), ("fchmod", "tmp"), ("write", "tmp")][k % 9]
        out.append({"name": "fault%d-%s" % (k, op), "fault": (op, where, rng.choice([1, 2, 3, 5, 8, 13, 20]), rng.choice([5, 13, 28, 2, 40])), "git": "none", "jobs": rng.choice([1, 2]), "vcs_copy": False, "gitignore": None, "how": "cli", "size": 30})
    return out


WORDS = ["a", "b", "data", "build", "target", "cache", "doc", "x y", "été", "漢字", "-dash", "foo.log", "keep.log", "main.o", "notes.txt", "log", "tmp", "Makefile", "a.b.c", "#hash", "!bang", "[br]", "q?", "st*r", "trail~", ".dot", ".env", "UPPER.LOG", "mutants.out.older", "mutants.out2", ".github", ".gitkeep", ".rgignore2", ".cargo-ok", "CACHEDIR.TAG", "git", "_darcs2", "svn", "back\\slash", "tab\tname", "quote\"s", "a'b", "caf\udce9", "\udcff\udc80.txt",
         "CVS", "RCS", "SCCS", "a.swp", ".#lock", "#auto#", "x.orig", "x.rej", "x.bak", "x~", ".DS_Store", "Thumbs.db", "node_modules", "__pycache__", "vendor", ".idea", ".vscode", ".gitmodules", ".gitattributes", ".hgignore", ".fslckout", "_FOSSIL_", "core", "a.pyc", "a.so", "a.tmp", "mutants.out.1", "Mutants.out", "mutants_out", ".GIT", "x.git", ".gitx", "a,v", "%s", "$HOME", "nul", "con.txt", "a:b", "x\u200by", ".venv", "dist", "out", "debug.log", "lock.json", "Cargo.toml.orig", "rust-toolchain", ".ignore2", ".fdignore"]
PATTERNS = ["*.log", "/build", "target/", "!keep.log", "cache/", "**/tmp", "doc/*.txt", "data/**", "!data/keep.log", "/a/b", "*.o", "x y", "été", ".env", "/.dot", "[a-b]", "foo.*", "!foo.log", "a/", "b", "\\#hash", "\\!bang", "# comment", "", "log/", "*~", "/data/*", "notes.txt", "**/doc/**", "q?", "*.LOG", "/*/cache", "src/gen"]


def gen(rng, size, git):
    t = {}
    dirs = [""]
    for _ in range(size):
        d = rng.choice(dirs)
        n = rng.choice(WORDS)
        p = os.path.join(d, n)
        if p in t or any(k.startswith(p + "/") for k in t):
            continue
        r = rng.random()
        if r < 0.04:
            # much deeper than anything else
            for _ in range(rng.choice([14, 25, 60, 90])):
                t[p] = {"dir": 0o755}
                p = os.path.join(p, rng.choice(["d", "x", "a.b"]))
            t[p] = rng.choice([{"dir": 0o755}, {"data": "deep\n", "mode": 0o644}, {"link": "../x"}])
        elif r < 0.06:
            t[os.path.join(d, "n" * rng.choice([100, 200, 255]))] = {"data": "long\n", "mode": 0o644}
        elif r < 0.35 and p.count("/") < 5:
            dirs.append(p)
            t[p] = {"dir": 0o755}
        elif r < 0.45:
            t[p] = {"link": rng.choice(["a", "../x", "no/such", "/etc/hostname", ".", "..", "src", "src/lib.rs", p.split("/")[-1]])}
        elif r < 0.55:
            t[p] = {"hex": bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 1000, 70000]))).hex()}
        else:
            t[p] = {"data": "file %s\n" % p.encode("unicode_escape").decode(), "mode": rng.choice([0o644, 0o644, 0o600, 0o755, 0o444, 0o400, 0o664, 0o777, 0o640])}
    if rng.random() < 0.5:
        d = rng.choice(dirs)
        t[os.path.join(d, "mutants.out", "log", "x.log")] = "old"
        t[os.path.join(d, "mutants.out.old", "y")] = "old"
    if rng.random() < 0.4:
        d = rng.choice(dirs[1:] or ["sub"])
        # (a nested .git would be a repository of its own inside another one)
        for v in rng.sample(VCS[1:] if git else VCS, 2):
            t[os.path.join(d, v, "f")] = "vcs"
    if rng.random() < 0.15:
        t["file.mutants.out"] = "x"
    # a path whose parent turned out to be a file or link
    good = {}
    for p, v in t.items():
        par = p
        bad = False
        while "/" in par:
            par = par.rsplit("/", 1)[0]
            if par in t and not (isinstance(t[par], dict) and "dir" in t[par]):
                bad = True
        if not bad:
            good[p] = v
    return good, dirs


def run(ctx, c, rng):
    t, dirs = gen(rng, c["size"], c["git"] != "none")
    base = proj.pkg(rng, 3, 1, kinds=["bool", "unit"])
    t.update(base)
    ign = lambda: "".join(p + "\n" for p in rng.sample(PATTERNS, rng.choice([1, 3, 6])))
    for v in rng.sample(VCS[1:], rng.choice([0, 1, 2])):
        t[v + "/meta"] = "m"
    if rng.random() < 0.85:
        t[".gitignore"] = ign()
    if rng.random() < 0.5:
        d = rng.choice(dirs)
        t[os.path.join(d, ".gitignore")] = ign()
    if rng.random() < 0.3:
        t[".ignore"] = "*.txt\ndata\n"
    # a directory with a .git of its own is a git tree, as the program sees it: no rules below those
    nested = [p[:p.index(".git/")] for p in t if "/.git/" in p]
    for p in [p for p in t if os.path.basename(p) == ".gitignore" and any(p.startswith(n) for n in nested)]:
        del t[p]
    parent = c["git"] == "parent"
    with ctx.box(None, src_name="outer/src" if parent else "src") as box:
        if c["how"] == "over" and not c["fault"]:
            # the command line overrides the config file
            t[".cargo/mutants.toml"] = "copy_vcs = %s\n" % str(not c["vcs_copy"]).lower()
        elif c["vcs_copy"] and c["how"] == "config":
            t[".cargo/mutants.toml"] = "copy_vcs = true\n"
        core.write_tree(box.src, t)
        # never ignore what the program needs
        root = os.path.dirname(box.src) if parent else box.src
        genv = dict(os.environ, HOME=box.home, GIT_CONFIG_NOSYSTEM="1", XDG_CONFIG_HOME=box.home + "/.config")
        genv.pop("GIT_DIR", None)
        if c["git"] != "none":
            if parent:
                core.write_tree(root, {".gitignore": ign()})
            subprocess.run(["git", "init", "-q", root], env=genv, check=True, capture_output=True)
            if c["git"] == "file":
                os.rename(os.path.join(root, ".git"), os.path.join(box.dir, "gitdir"))
                open(os.path.join(root, ".git"), "w").write("gitdir: %s\n" % os.path.join(box.dir, "gitdir"))
            elif rng.random() < 0.5:
                os.makedirs(os.path.join(root, ".git/info"), exist_ok=True)
                open(os.path.join(root, ".git/info/exclude"), "a").write(rng.choice(["*.txt\n", "doc\n", "x y\n"]))
            if c.get("global") or rng.random() < 0.45:
                core.write_tree(box.home, {".config/git/ignore": rng.choice(["*.txt\n", "main.o\n", "git\n", "*.log\nfile*\n", "data\nREADME.md\n*.rsx\n", "?\n"])})
        src_snap = core.snapshot(box.src, ignore=())
        gi = c["gitignore"] if c["gitignore"] is not None else True
        ignored = set()
        if c["git"] != "none" and gi:
            paths = list(src_snap)
            r = subprocess.run(["git", "check-ignore", "--no-index", "--stdin", "-z"], input="\0".join(paths).encode("utf-8", "surrogateescape") + b"\0", cwd=box.src, env=genv, capture_output=True)
            if r.returncode not in (0, 1):
                raise core.HarnessError("git check-ignore: %s" % r.stderr)
            ignored = set(r.stdout.decode("utf-8", "surrogateescape").split("\0")[:-1])
        exp = {}
        for p, e in src_snap.items():
            parts = p.split("/")
            if any(x in ("mutants.out", "mutants.out.old") for x in parts):
                continue
            if not c["vcs_copy"] and any(x in VCS for x in parts):
                continue
            if any("/".join(parts[:k]) in ignored for k in range(1, len(parts) + 1)):
                continue
            exp[p] = e
        if "Cargo.toml" not in exp or "src/lib.rs" not in exp:
            ctx.skip("ignores the program's own input: " + c["name"])
            return
        # what is inside a .git directory that is itself copied is never ignored or not by rule: git has no say there
        loose = lambda p: any(x == ".git" for x in p.split("/"))
        args = ["--jobs", str(c["jobs"])]
        if c["vcs_copy"] and c["how"] == "cli":
            args.append("--copy-vcs=true")
        if c["how"] == "over" and not c["fault"]:
            args.append("--copy-vcs=%s" % str(c["vcs_copy"]).lower())
        if c["gitignore"] is not None:
            args.append("--gitignore=%s" % str(c["gitignore"]).lower())
        exp = {p: (e if e[0] != "d" else ("d", 0o755, None)) for p, e in exp.items()}
        pre = {}
        if c["fault"]:
            op, where, nth, errno = c["fault"]
            pre = {"fault": "%s:%s:%d:e%d" % (op, (box.src if where == "src" else box.tmp) + "/", nth, errno)}
        # the plan ignores mutants.out by name at the top; the copy must not have it at all
        r = box.run(args, plan=["dump", "rule test mut exit=1", "rule * * exit=0"], ref=exp, pre=pre, timeout=60).finish()
        if c["fault"]:
            if r.hung or r.panicked:
                raise Violation("the program %s when a copy failed" % ("hung" if r.hung else "panicked"), run=r.brief())
            if not any(l[0] == "FAULT" for l in r.prelines()):
                ctx.skip("the fault did not happen")
                return
            ctx.count("faults_injected")
        elif r.hung or r.panicked or r.rc not in (0, 2, 3, 4):
            raise Violation("the program failed on this tree", run=r.brief(), tree=sorted(t)[:60])
        n = 0
        for e in r.events:
            if e["ev"] != "start":
                continue
            got = {}
            for d in e["dump"]:
                got[bytes.fromhex(d["p"]).decode("utf-8", "surrogateescape")] = (d["k"], d["m"], bytes.fromhex(d["d"]))
            extra_top = [x for x in os.listdir(e["cwd"])] if os.path.isdir(e["cwd"]) else []
            muts = 0
            for p in sorted(set(exp) | set(got)):
                a, b = exp.get(p), got.get(p)
                if loose(p) and c["git"] != "none" and (a is None or b is None) and gi and c["vcs_copy"]:
                    continue
                if b is None:
                    raise Violation("missing from the scratch copy: %r" % p, run=r.brief(), gitignored=sorted(ignored)[:20])
                if a is None:
                    raise Violation("should not be in the scratch copy: %r" % p, run=r.brief(), gitignored=sorted(ignored)[:20])
                if a[0] != b[0]:
                    raise Violation("%r is a %s in the copy, a %s in the source" % (p, b[0], a[0]), run=r.brief())
                if a[0] == "l" and a[2].encode("utf-8", "surrogateescape") != b[2]:
                    raise Violation("symlink %r points to %r in the copy, %r in the source" % (p, b[2], a[2]), run=r.brief())
                if a[0] == "f":
                    if a[2] != b[2]:
                        if b"changed by cargo-mutants" in b[2]:
                            muts += 1
                        else:
                            raise Violation("content of %r differs in the copy" % p, run=r.brief())
                    if a[1] != b[1]:
                        raise Violation("permission bits of %r are %o in the copy, %o in the source" % (p, b[1], a[1]), run=r.brief())
            if muts > 1:
                raise Violation("more than one mutated file", run=r.brief())
            n += 1
            ctx.count("copies_compared")
            ctx.count("entries_compared", len(exp))
        if c["fault"]:
            ctx.saw("nontrivial", ("fault", c["fault"][0], c["fault"][2], "a copy was used" if n else "no copy was used"))
            return
        if not n:
            raise core.HarnessError("no copy observed: %s" % r.brief())
        ctx.saw("nontrivial", (c["git"], c["vcs_copy"], str(c["gitignore"]), len(exp), len(src_snap) - len(exp), c["jobs"]))
        ctx.sample({"case": c["name"], "git": c["git"], "entries": len(exp), "left_out": len(src_snap) - len(exp)})
