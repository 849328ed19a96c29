"""C19: --in-diff selects exactly the mutants on changed lines."""
import difflib
import os
import re
import subprocess

from .. import core, lab, model, proj, rustgen, syn
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: listings and runs of the real binary with --in-diff on generated edits, compared with an independent reading of the diff over the unfiltered listing"
RULE = "one evaluation is one diff; non-trivial elements are distinct (producer, context size, kinds of file sections, selected some, dropped some)"
ASSUMPTIONS = ["diffs are produced by git 2.43 and Python's difflib", "mutant spans are those of the unfiltered listing (judged by C13)"]


def cases(rng, tier):
    n, m = (300, 16) if tier == "quick" else (3000, 200)
    out = []
    for k in range(n):
        out.append({"name": "diff%d" % k, "kind": "list", "by": ["git", "difflib"][k % 2], "ctx": rng.choice([0, 0, 1, 2, 3, 3, 5, 8, 40]), "edits": rng.choice([1, 2, 4, 8, 20]), "bad": k % 5 == 4, "ws": rng.random() < 0.3})
    for k in range(m):
        out.append({"name": "run%d" % k, "kind": "run", "by": ["git", "difflib"][k % 2], "ctx": rng.choice([0, 1, 3]), "edits": rng.choice([1, 3]), "bad": False, "ws": False})
    return out


NOISE = ["-- not a header\n", "++ neither\n", "--- a/src/lib.rs\n", "+++ b/src/lib.rs\n", "@@ -1,1 +1,1 @@\n", "diff --git a/x b/x\n", "\\ No newline at end of file\n", "Binary files a and b differ\n", "\n", " \n", "    indented\n", "-\n", "+\n", "rename from x\n", "- item\n", "+ item\n", "- \n", "+ \n", "! x\n", "index 00..11\n"]


def older(rng, lines, n):
    """An older version of some lines: n random edits."""
    l = list(lines)
    for _ in range(n):
        k = rng.choice(["ins", "ins", "del", "del", "chg", "delrun", "insrun", "first", "last"])
        i = rng.randrange(len(l) + 1)
        if k == "ins":
            l.insert(i, rng.choice(NOISE[:2] + ["- item\n", "+ item\n", "// was here\n", "fn old() {}\n", "\n", "-- sql\n"]))
        elif k == "insrun":
            l[i:i] = [rng.choice(NOISE + ["// gone %d\n" % rng.randrange(99)]) for _ in range(rng.randrange(1, 9))]
        elif k == "del" and l:
            del l[min(i, len(l) - 1)]
        elif k == "delrun":
            del l[i : i + rng.randrange(1, 9)]
        elif k == "chg" and l:
            l[min(i, len(l) - 1)] = "// changed %d\n" % rng.randrange(99)
        elif k == "first":
            if l and rng.random() < 0.5:
                del l[0]
            else:
                l.insert(0, "// first\n")
        elif k == "last":
            if l and rng.random() < 0.5:
                del l[-1]
            else:
                l.append("// last\n")
    return l


def source(rng, file, small):
    r = rustgen.RG(rng, file, simple_types=True)
    r.fill(rng.choice([1, 2]) if small else rng.choice([2, 3, 5]), 1 if small else rng.choice([1, 2]))
    if rng.random() < 0.4:
        # lines in a comment that look like parts of a diff
        r.e("/*\n" + "".join(rng.choice(NOISE) for _ in range(rng.randrange(1, 6))) + "*/\n")
        r.item(1)
        r.e("\n")
    if rng.random() < 0.25:
        # a span of hundreds of lines
        n = rng.choice([60, 130, 280, 280, 1300])
        r.e("pub fn long_one(x: i32) -> bool {\n" + "".join("    // %d\n" % k if k % 7 else "    step(%d);\n" % k for k in range(n)) + "    x == y\n}\n")
    if rng.random() < 0.4:
        r.e("\n" + "".join("// tail %d\n" % k for k in range(rng.randrange(2, 7))))
    t = r.text
    if rng.random() < 0.15:
        t = t.rstrip("\n")
    return t


def split(t):
    return re.findall(r"[^\n]*\n|[^\n]+", t)


def unquote(s):
    s = s.rstrip("\n")
    if s.startswith('"'):
        b = s[1 : s.rindex('"')].encode().decode("unicode_escape").encode("latin1")
        return b.decode()
    return s.split("\t")[0]


def read_diff(text, prefix=True):
    """{new path: (affected lines, [(lineno, text)])} by counting hunk lines."""
    lines = split(text)
    out, cur, i = {}, None, 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("--- ") and i + 1 < len(lines) and lines[i + 1].startswith("+++ "):
            p = unquote(lines[i + 1][4:])
            if prefix and p.startswith("b/"):
                p = p[2:]
            cur = (set(), [])
            if p in out and p != "/dev/null":
                raise HarnessError("repeated " + p)
            out[p] = cur
            i += 2
            continue
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
        if m and cur is not None:
            oc = int(m[2]) if m[2] is not None else 1
            nc = int(m[4]) if m[4] is not None else 1
            nxt = int(m[3]) + (1 if nc == 0 else 0)
            i += 1
            while oc or nc:
                h = lines[i]
                i += 1
                if h[0] == "+":
                    cur[0].add(nxt)
                    cur[1].append((nxt, h[1:].rstrip("\n")))
                    nxt += 1
                    nc -= 1
                elif h[0] == "-":
                    cur[0].update((nxt - 1, nxt))
                    oc -= 1
                elif h[0] == " ":
                    cur[1].append((nxt, h[1:].rstrip("\n")))
                    nxt += 1
                    oc -= 1
                    nc -= 1
                elif h[0] != "\\":
                    raise HarnessError("bad diff line %r" % h)
            continue
        i += 1
    return out


def trim(rng, ls):
    """The same diff with less context after (or before) the changes of some hunks."""
    out, k = ls[:2], 2
    while k < len(ls):
        j = k + 1
        while j < len(ls) and not ls[j].startswith("@@ -"):
            j += 1
        h, body = ls[k], ls[k + 1 : j]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", h)
        a, ac, b, bc = int(m[1]), int(m[2] or 1), int(m[3]), int(m[4] or 1)
        last = next((x for x in reversed(body) if not x.startswith(" ")), " ")
        # (which lines a hunk that ends in a deletion affects is left open: see DESIGN.md)
        if rng.random() < 0.7 and not last.startswith("-"):
            while body and body[-1].startswith(" ") and ac > 1 and bc > 1:
                body, ac, bc = body[:-1], ac - 1, bc - 1
        elif rng.random() < 0.5:
            while body and body[0].startswith(" ") and ac > 1 and bc > 1:
                body, a, ac, b, bc = body[1:], a + 1, ac - 1, b + 1, bc - 1
        out += ["@@ -%d,%d +%d,%d @@\n" % (a, ac, b, bc)] + body
        k = j
    return out


def reshape(rng, ls, how):
    """The lines of a diff of one file written in another way."""
    if how == "stripped":
        # editors and mailers remove the white space at the ends of lines
        return ["\n" if l == " \n" else l for l in ls]
    at = [k for k, l in enumerate(ls) if l.startswith("@@ -")]
    if len(at) < 2:
        return ls
    if how == "twice":
        k = rng.choice(at[1:])
        return ls[:k] + ls[:2] + ls[k:]
    hunks = [ls[a:b] for a, b in zip(at, at[1:] + [None])]
    rng.shuffle(hunks)
    return ls[: at[0]] + [l for h in hunks for l in h]


def git(box, d, *a, data=None):
    e = {"HOME": box.home, "PATH": "/usr/bin:/bin", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "n", "GIT_AUTHOR_EMAIL": "e", "GIT_COMMITTER_NAME": "n", "GIT_COMMITTER_EMAIL": "e", "LC_ALL": "C.UTF-8"}
    r = subprocess.run(["/usr/bin/git", "-C", d] + list(a), env=e, capture_output=True, input=data)
    if r.returncode not in (0, 1) or (r.returncode == 1 and a[0] != "diff"):
        raise HarnessError("git %s: %s" % (a, r.stderr[-500:]))
    return r.stdout


def run(ctx, c, rng):
    small = c["kind"] == "run"
    pre = rng.choice(["member/", "member/", "a/", "w/", "i/", "c/", "o/", "b/", "bb/"]) if c["ws"] else ""
    names = ["lib.rs"] + rng.sample(["m1.rs", "m2.rs", "été.rs", "sp ace.rs", 'qu"ote.rs', "m3/mod.rs"], rng.choice([1, 2, 3]))
    new, kinds = {}, set()
    crlf = rng.random() < 0.15
    for n in names:
        new[pre + "src/" + n] = source(rng, pre + "src/" + n, small)
    decl = ""
    for n in names[1:]:
        decl += '#[path = "%s"]\nmod n%d;\n' % (n.replace('"', '\\"'), names.index(n))
    lib = pre + "src/lib.rs"
    if not new[lib].endswith("\n"):
        new[lib] += "\n"
    new[lib] += decl
    if rng.random() < 0.2:
        new[lib] = new[lib].rstrip("\n")
    if crlf:
        for p in new:
            new[p] = new[p].replace("\n", "\r\n")
    old = {}
    for p in new:
        k = rng.random()
        if k < 0.2:
            old[p] = new[p]
            kinds.add("same")
        elif k < 0.3:
            kinds.add("added")
        elif k < 0.37 and p != lib and c["by"] == "git":
            q = p.replace(".rs", "_was.rs")
            old[q] = "".join(older(rng, split(new[p]), rng.choice([0, 1, 2])))
            kinds.add("renamed")
        else:
            ls = split(new[p])
            if crlf:
                ls = [x.replace("\n", "\r\n") if not x.endswith("\r\n") else x for x in older(rng, ls, c["edits"])]
            else:
                ls = older(rng, ls, c["edits"])
            t = "".join(ls)
            if rng.random() < 0.1:
                t = t.rstrip("\n")
            # a line without newline in the middle merges with the next one, which is fine
            old[p] = t
            kinds.add("changed")
    if rng.random() < 0.3:
        old[pre + "src/deleted.rs"] = "fn gone() {}\n"
        kinds.add("deleted")
    extra_new, extra_old = {pre + "Cargo.toml": proj.manifest("pkg")}, {pre + "Cargo.toml": proj.manifest("pkg") + "# old\n"}
    if c["ws"]:
        extra_new["Cargo.toml"] = extra_old["Cargo.toml"] = '[workspace]\nmembers = ["%s"]\n' % pre[:-1]
    if rng.random() < 0.4:
        extra_old["README.md"], extra_new["README.md"] = "a\nb\n-- c\n", "a\n++ c\n+++ d\n"
        kinds.add("text")
    if rng.random() < 0.3 and c["by"] == "git":
        extra_old["img.bin"] = {"hex": "00ff00"}
        extra_new["img.bin"] = {"hex": "00ff01"}
        kinds.add("binary")
    if rng.random() < 0.15 and c["by"] == "git":
        # a text file in another encoding
        extra_old["latin.txt"] = {"hex": b"caf\xe9\nz\n".hex()}
        extra_new["latin.txt"] = {"hex": b"caf\xe9\n\xfc\n".hex()}
        kinds.add("latin1")
    if rng.random() < 0.2 and c["by"] == "git":
        extra_old["run.sh"] = {"data": "x\n", "mode": 0o644}
        extra_new["run.sh"] = {"data": "x\n", "mode": 0o755}
        kinds.add("mode")
    tree = dict(new, **extra_new)
    how = rng.choice([None, None, "stripped", "twice", "order"])
    shaped = ""
    with ctx.box(tree) as box:
        prefix = True
        if c["by"] == "git":
            g = os.path.join(box.dir, "g")
            core.write_tree(g, dict(old, **extra_old))
            git(box, g, "init", "-q")
            git(box, g, "config", "core.autocrlf", "false")
            git(box, g, "config", "core.quotepath", rng.choice(["true", "false"]))
            git(box, g, "add", "-A")
            git(box, g, "commit", "-qm", "old")
            git(box, g, "rm", "-rq", "--ignore-unmatch", ".")
            core.write_tree(g, tree)
            git(box, g, "add", "-A")
            opt = ["-U%d" % c["ctx"]] + rng.choice([[], ["-M"], ["--no-renames"], ["--patience"], ["--histogram"], ["--minimal"], ["--no-prefix"], ["--inter-hunk-context=6"], ["--binary"], ["--stat", "-p"], ["--full-index"]])
            if pre == "b/":
                # (without prefixes, a directory named b cannot be told from one)
                opt = [o for o in opt if o != "--no-prefix"]
            elif pre and rng.random() < 0.2:
                opt.append("--no-prefix")
            if c["ctx"] == 0:
                opt = [o for o in opt if o != "--inter-hunk-context=6"]
            if rng.random() < 0.15:
                git(box, g, "commit", "-qm", "new change\n\nbody of the message --- a/x\n")
                diff = git(box, g, "format-patch", "-1", "--stdout", *[o for o in opt if o != "--stat"]).decode("utf-8", "surrogateescape")
                kinds.add("mail")
            else:
                diff = git(box, g, "diff", "--cached", *opt).decode("utf-8", "surrogateescape")
        else:
            diff = ""
            sep = rng.choice(["", "diff -u x y\n", "Index: x\n=====\n"])
            pf = rng.choice([("a/", "b/"), ("", "")]) if pre != "b/" else ("a/", "b/")
            ts = rng.choice(["", "\t2024-01-01 00:00:00.000000 +0000"])
            allo, alln = dict(old, **extra_old), dict(new, **extra_new)
            for p in sorted(set(allo) | set(alln)):
                a, b = split(allo.get(p, "")), split(alln.get(p, ""))
                if a == b:
                    continue
                ls = list(difflib.unified_diff(a, b, pf[0] + p if p in allo else "/dev/null", pf[1] + p if p in alln else "/dev/null", ts[1:], ts[1:], n=c["ctx"]))
                diff += sep
                if rng.random() < 0.2:
                    ls = trim(rng, ls)
                    kinds.add("trimmed")
                for l in reshape(rng, ls, how) if how else []:
                    shaped += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
                for l in ls:
                    diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        rd = read_diff(diff)
        full = lab.list_names(box)
        dp = os.path.join(box.dir, "changes.diff")

        def write(text):
            with open(dp, "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text)

        write(diff)
        haspaths = {m["file"] for m, _ in full}
        want = [n for m, n in full if m["file"] in rd and any(m["span"]["start"]["line"] <= l <= m["span"]["end"]["line"] for l in rd[m["file"]][0])]
        ctx.count("evaluations")
        if diff.strip() == "":
            ctx.count("empty_diffs")
        # the harness itself: the diff must describe the tree
        for p, (_, ls) in rd.items():
            if p in new:
                src = [x.rstrip("\n") for x in split(new[p])]
                for n, t in ls:
                    if src[n - 1] != t:
                        raise HarnessError("diff reader is wrong: %s:%d %r %r" % (p, n, t, src[n - 1]))
        if c["bad"]:
            # make the tree differ from the diff in one line that the diff shows
            spots = [(p, n) for p, (_, ls) in rd.items() if p in haspaths for n, _ in ls]
            if spots:
                p, n = rng.choice(spots)
                src = split(new[p])
                how = rng.choice(["comment", "shift", "trunc", "cut", "cut"])
                if how == "cut":
                    # the end of the file, which the diff shows, is not there
                    tails = [k for k, l in enumerate(src) if l.startswith("// tail")]
                    shown = [k for k, t in rd[p][1] if t.startswith("// tail")]
                    if tails and shown:
                        alt = src[: rng.randrange(min(tails), max(shown))]
                    else:
                        how = "trunc"
                if how == "cut":
                    pass
                elif how == "comment":
                    # a change that keeps the file parseable: a comment at the end of the line
                    body = src[n - 1].rstrip("\r\n")
                    nl = src[n - 1][len(body):]
                    alt = src[: n - 1] + [body + " "] + [nl] + src[n:]
                elif how == "shift":
                    alt = ["// extra line\n"] + src
                else:
                    alt = src[: n - 1] + ["// other\n"] + src[n - 1 :]
                alt = "".join(alt)
                al = [x.rstrip("\r\n") for x in split(alt)]
                differs = any((al[k - 1] if k <= len(al) else "") != t.rstrip("\r") for k, t in rd[p][1])
                with open(os.path.join(box.src, p), "w", newline="") as f:
                    f.write(alt)
                r0 = box.run(["--list"], ref={}, plan_extra=False).finish()
                still = r0.rc == 0 and any(x.startswith(p + ":") for x in r0.stdout.splitlines())
                if differs and still:
                    before = core.snapshot(box.src, ())
                    r = box.run(["--in-diff", dp] + (["--list"] if rng.random() < 0.5 else []), plan=["rule * * exit=0"], ref={}).finish()
                    if r.rc != 1 or r.panicked or r.stdout.strip() and "--list" in r.argv:
                        raise Violation("a diff that does not match the tree was not refused", run=r.brief(), diff=diff, path=p, line=n)
                    if "match" not in r.stderr or core.snap_diff(before, core.snapshot(box.src, ())) or [e for e in r.events if e["ev"] == "start"]:
                        raise Violation("refusing a diff that does not match the tree had effects or gave no reason", run=r.brief(), diff=diff)
                    ctx.saw("nontrivial", ("refused", how, c["by"], c["ctx"]))
                    ctx.count("mismatches_refused")
            return
        if shaped and shaped != diff:
            sp = os.path.join(box.dir, "shaped.diff")
            with open(sp, "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
                f.write(shaped)
            r = box.run(["--list", "--in-diff", sp], ref={}, plan_extra=False).finish()
            if r.panicked or r.rc not in ((0,) if how == "stripped" else (0, 1)):
                raise Violation("exit code %s for a diff written in another way (%s)" % (r.rc, how), run=r.brief(), diff=shaped)
            if r.rc == 0 and r.stdout.splitlines() != want:
                raise Violation("--in-diff selects other mutants from a diff written in another way (%s)" % how, run=r.brief(), diff=shaped, want=want[:20])
            ctx.count("reshaped_" + how)
        if rng.random() < 0.15:
            # a diff of nothing selects nothing
            ep = os.path.join(box.dir, "empty.diff")
            with open(ep, "w") as f:
                f.write(rng.choice(["", "\n", " \n\n", "diff --git a/img.bin b/img.bin\nindex 1..2 100644\nBinary files a/img.bin and b/img.bin differ\n", "--- a/notes.txt\n+++ b/notes.txt\n@@ -1 +1 @@\n-a\n+b\n"]))
            g0 = lab.list_names(box, ["--in-diff", ep])
            if g0:
                raise Violation("a diff that changes no source file selects %d mutants" % len(g0), diff=open(ep).read())
            ctx.count("empty_diffs")
        base = rng.choice([[], [], ["--in-diff=" + dp, "-F", ""]])
        args = base if base else rng.choice([["--in-diff", dp], ["-D", dp]])
        got = lab.list_names(box, args)
        g = [n for _, n in got]
        if g != want:
            raise Violation(
                "--in-diff selects the wrong mutants: missing %s, unexpected %s" % ([n for n in want if n not in g][:3], [n for n in g if n not in want][:3]),
                diff=diff, affected={p: sorted(v[0]) for p, v in rd.items()}, new=new,
            )
        ctx.count("mutants_judged", len(full))
        ctx.saw("nontrivial", (c["by"], c["ctx"], tuple(sorted(kinds)), bool(want), len(want) < len(full)))
        if c["kind"] == "run":
            o = lab.run_lab(box, ["--in-diff", dp, "--baseline=skip"], ["rule build mut exit=101"], want_list=False)
            lab.no_hang(o)
            tested = sorted(model.mid(m) for m in o.mutants or [])
            if tested != sorted(model.mid(m) for m, _ in got):
                raise Violation("the run with --in-diff tested other mutants than it lists", run=o.run.brief())
            if want:
                lab.mon_once(ctx, o, baseline=False)
            if o.run.rc != 0:
                raise Violation("exit code %s after a run with only unviable mutants" % o.run.rc, run=o.run.brief())
        ctx.sample({"case": c["name"], "diff_lines": diff.count("\n"), "selected": len(want), "of": len(full)})
