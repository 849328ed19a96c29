"""C36: outcomes are those that the real cargo gives on a fresh tree with just that change."""
import json
import os
import signal
import subprocess

from .. import core, lab, model
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring end to end with the real cargo and rustc: every outcome of a run is compared with building and testing a fresh copy with only that mutation, in any order, number of jobs, place and history"
RULE = "one evaluation is one run with the real cargo; non-trivial elements are distinct (kind of tree, options, outcome, kind of mutant) combinations on which the run and the fresh build agreed"
ASSUMPTIONS = ["the tests of the generated packages are deterministic, do not loop, and depend on nothing outside the tree"]
WORKERS = 8


def cases(rng, tier):
    out = []
    kinds = ["workspace", "single", "workspace", "binary", "workspace", "single", "features", "workspace"]
    for k in range(13 if tier == "quick" else 120):
        kind = kinds[k % len(kinds)]
        out.append({
            "name": "e2e%d" % k, "kind": kind, "jobs": [1, 1, 2, 3][k % 4], "inplace": k % 4 == 1, "check": k % 10 == 9, "loop": k % 8 == 4, "testws": kind == "workspace" and rng.random() < 0.4, "deny": rng.random() < 0.3, "cap": rng.random() < 0.4, "prebuilt": rng.random() < 0.5,
            "old": rng.choice([None, None, 0, 86400 * 365, -86400 * 3]), "shuffle": rng.random() < 0.7, "take": rng.choice([6, 7]) if tier == "quick" else rng.choice([8, 14]), "profile": rng.random() < 0.15,
        })
    return out


class Gen:
    """A package whose functions are tested well, badly or not at all."""

    def __init__(self, rng, name, deps=(), doc=False):
        self.r, self.name, self.deps = rng, name, deps
        self.src, self.tests, self.ext = [], [], []
        self.fns, self.known = [], {}
        for _ in range(rng.choice([3, 4, 5])):
            self.unit(doc)
        if deps:
            self.unit(doc, "call")

    def t(self, n, strong, weak):
        """A test that pins the behaviour, one that hardly looks, or none."""
        k = self.r.choice(["strong", "strong", "weak", "none", "ext"])
        if k in ("strong", "weak"):
            self.tests.append("    #[test]\n    fn t%d() { %s }\n" % (n, strong if k == "strong" else weak))
        elif k == "ext":
            self.ext.append("#[test]\nfn x%d() { use %s::*; %s }\n" % (n, self.name, strong))

    def unit(self, doc, k=None):
        r, n = self.r, len(self.fns)
        k = k or r.choice(["arith", "bool", "string", "option", "result", "match", "opaque", "call", "call", "unit", "neg", "vec", "method"])
        a, b = r.randrange(2, 9), r.randrange(10, 99)
        f = "%s_f%d" % (self.name[0], n)
        self.fns.append(f)
        d = "/// ```\n/// assert_eq!(%s::%s(2), %s);\n/// ```\n"
        if k == "arith":
            op = r.choice(["*", "+", "-", "^", "&", "<<"])
            self.src.append((d % (self.name, f, "(2 + %d) %s 3" % (b, op)) if doc and r.random() < 0.5 else "") + "pub fn %s(x: i64) -> i64 {\n    (x + %d) %s 3\n}\n" % (f, b, op))
            self.t(n, "assert_eq!(%s(%d), (%d + %d) %s 3);" % (f, a, a, b, op), "assert!(%s(%d) > -100000);" % (f, a))
            self.known[f] = (a, str(eval("(%d + %d) %s 3" % (a, b, op))))
        elif k == "bool":
            self.src.append("pub fn %s(x: i64) -> bool {\n    x > %d && x != %d || !(x < 1000)\n}\n" % (f, a, b))
            self.t(n, "assert!(!%s(%d)); assert!(%s(%d)); assert!(%s(5000)); assert!(!%s(%d));" % (f, a, f, a + 1, f, f, b), "let _ = %s(3);" % f)
            self.known[f] = r.choice([(b, "false"), (a + 1, "true")])
        elif k == "string":
            self.src.append("pub fn %s(x: i64) -> String {\n    format!(\"{}-{}\", x, %d)\n}\n" % (f, b))
            self.t(n, "assert_eq!(%s(4), \"4-%d\");" % (f, b), "let _ = %s(1).len();" % f)
            self.known[f] = (4, "\\\"4-%d\\\"" % b)
        elif k == "option":
            self.src.append("pub fn %s(x: i64) -> Option<i64> {\n    if x == %d { None } else { Some(x - %d) }\n}\n" % (f, a, b))
            self.t(n, "assert_eq!(%s(%d), None); assert_eq!(%s(%d), Some(1));" % (f, a, f, b + 1), "assert_eq!(%s(%d), None);" % (f, a))
            self.known[f] = r.choice([(a, "None"), (b + 1, "Some(1)")])
        elif k == "result":
            self.src.append("pub fn %s(x: i64) -> Result<bool, String> {\n    match x {\n        %d => Err(\"bad\".to_string()),\n        y if y > %d => Ok(true),\n        _ => Ok(false),\n    }\n}\n" % (f, a, b))
            self.t(n, "assert!(%s(%d).is_err()); assert_eq!(%s(%d), Ok(true)); assert_eq!(%s(0), Ok(false));" % (f, a, f, b + 1, f), "assert!(%s(0).is_ok());" % f)
            self.known[f] = r.choice([(b + 1, "Ok(true)"), (0, "Ok(false)")])
        elif k == "match":
            self.src.append("pub fn %s(x: i64) -> &'static str {\n    match x { %d => \"one\", %d => \"two\", v if v < 0 => \"neg\", _ => \"many\" }\n}\n" % (f, a, b))
            self.t(n, "assert_eq!(%s(%d), \"one\"); assert_eq!(%s(%d), \"two\"); assert_eq!(%s(-1), \"neg\"); assert_eq!(%s(7000), \"many\");" % (f, a, f, b, f, f), "assert!(%s(1).len() < 9);" % f)
            self.known[f] = (-1, "\\\"neg\\\"")
        elif k == "opaque":
            self.src.append("pub struct %sT(pub i64);\npub fn %s(x: i64) -> %sT {\n    %sT(x + %d)\n}\n" % (f.upper(), f, f.upper(), f.upper(), b))
            self.t(n, "assert_eq!(%s(1).0, %d);" % (f, b + 1), "let _ = %s(1);" % f)
        elif k == "call" and self.deps:
            dep, fs = r.choice(self.deps)
            g = r.choice(sorted(fs))
            arg, val = fs[g]
            self.src.append("pub fn %s(x: i64) -> bool {\n    let v = %s::%s(x + 0);\n    %s::show(&v).len() > %d\n}\n" % (f, dep, g, dep, r.choice([0, 1, 3])))
            self.tests.append("    #[test]\n    fn t%d() { assert_eq!(%s::show(&%s::%s(%d)), \"%s\"); let _ = %s(2); }\n" % (n, dep, dep, g, arg, val, f))
        elif k == "unit":
            self.src.append("pub fn %s(x: i64, out: &mut Vec<i64>) {\n    out.push(x %% %d);\n}\n" % (f, a))
            self.fns[-1] = None
            self.t(n, "let mut v = vec![]; %s(%d, &mut v); assert_eq!(v, [%d %% %d]);" % (f, b, b, a), "let mut v = vec![]; %s(1, &mut v);" % f)
        elif k == "neg":
            self.src.append("pub const fn %s(x: i64) -> i64 {\n    -x - %d\n}\npub const %s_C: i64 = %s(%d);\n" % (f, b, f.upper(), f, a))
            self.t(n, "assert_eq!(%s(1), %d); assert_eq!(%s_C, %d);" % (f, -1 - b, f.upper(), -a - b), "assert!(%s(1) != 77777);" % f)
            self.known[f] = (1, str(-1 - b))
        elif k == "vec":
            self.src.append("pub fn %s(x: i64) -> Vec<u8> {\n    vec![%d; x as usize + 1]\n}\n" % (f, a))
            self.t(n, "assert_eq!(%s(2), [%d, %d, %d]);" % (f, a, a, a), "assert!(%s(2).len() < 5);" % f)
            self.known[f] = (2, "[%d, %d, %d]" % (a, a, a))
        else:
            self.src.append("#[derive(Debug, Default)]\npub struct %sS { n: i64 }\nimpl %sS {\n    pub fn get(&self) -> i64 { self.n * %d }\n    pub fn put(&mut self, n: i64) { self.n += n; }\n}\npub fn %s(x: i64) -> i64 {\n    let mut s = %sS::default();\n    s.put(x);\n    s.get()\n}\n" % (f.upper(), f.upper(), a, f, f.upper()))
            self.t(n, "assert_eq!(%s(3), %d);" % (f, 3 * a), "let _ = %s(0);" % f)
            self.known[f] = (3, str(3 * a))

    def endless(self):
        """A loop that some mutations never leave."""
        n = len(self.fns)
        f = "%s_f%d" % (self.name[0], n)
        self.fns.append(None)
        self.src.insert(0, "pub fn %s(n: i64) -> i64 {\n    let mut i = 0;\n    while i < n {\n        i += 1;\n    }\n    i\n}\n" % f)
        self.tests.append("    #[test]\n    fn t%d() { assert_eq!(%s(3), 3); }\n" % (n, f))

    def lib(self, deny):
        show = "#[doc(hidden)]\npub fn show<T: std::fmt::Debug>(t: &T) -> String {\n    format!(\"{t:?}\")\n}\n"
        return ("#![deny(unused_variables)]\n" if deny else "") + "".join(self.src) + show + "\n#[cfg(test)]\nmod tests {\n    #[allow(unused_imports)]\n    use super::*;\n%s}\n" % "".join(self.tests)


def manifest(name, deps=(), extra=""):
    return "[package]\nname = \"%s\"\nversion = \"0.1.%d\"\nedition = \"2021\"\n%s\n[dependencies]\n%s" % (name, len(deps), extra, "".join("%s = { path = \"../%s\" }\n" % (d, d) for d in deps))


def tree(rng, c):
    t = {".gitignore": "/target\n"}
    if c["kind"] == "workspace":
        a = Gen(rng, "alpha")
        b = Gen(rng, "beta", [("alpha", a.known)] if a.known else ())
        deps = [(g.name, g.known) for g in (a, b) if g.known]
        d = Gen(rng, "gamma", deps)
        if c["loop"]:
            d.endless()
        t["Cargo.toml"] = "[workspace]\nresolver = \"2\"\nmembers = [\"alpha\", \"beta\", \"gamma\"]\n"
        for g, dn in ((a, ()), (b, ("alpha",)), (d, ("alpha", "beta"))):
            t[g.name + "/Cargo.toml"] = manifest(g.name, dn)
            t[g.name + "/src/lib.rs"] = g.lib(c["deny"])
            if g.ext:
                t[g.name + "/tests/it.rs"] = "".join(g.ext)
        return t
    doc = rng.random() < 0.3
    g = Gen(rng, "solo", doc=doc)
    if c["loop"]:
        g.endless()
    t["Cargo.toml"] = manifest("solo", extra="[features]\ndefault = [\"big\"]\nbig = []\n" if c["kind"] == "features" else "")
    body = g.lib(c["deny"])
    if c["kind"] == "features":
        body = "#[cfg(feature = \"big\")]\npub fn only_big(x: i64) -> i64 {\n    x * 7\n}\n#[cfg(not(feature = \"big\"))]\npub fn only_small(x: i64) -> i64 {\n    x * 5\n}\n" + body
        g.ext.append("#[cfg(feature = \"big\")]\n#[test]\nfn big() { assert_eq!(solo::only_big(2), 14); }\n#[cfg(not(feature = \"big\"))]\n#[test]\nfn small() { assert_eq!(solo::only_small(2), 10); }\n")
    t["src/lib.rs"] = body
    # the second file is a module with text read at compile time
    t["src/extra.rs"] = "pub fn extra(x: i64) -> usize {\n    include_str!(\"data.txt\").len() + x as usize\n}\n#[cfg(test)]\nmod t {\n    #[test]\n    fn e() { assert_eq!(super::extra(1), 6); }\n}\n"
    t["src/data.txt"] = "12345"
    t["src/lib.rs"] = t["src/lib.rs"].replace("#![deny(unused_variables)]\n", "") + "pub mod extra;\n"
    if c["deny"]:
        t["src/lib.rs"] = "#![deny(unused_variables)]\n" + t["src/lib.rs"]
    if c["kind"] == "binary":
        t["src/main.rs"] = "fn twice(x: i64) -> i64 {\n    x + x\n}\nfn main() {\n    println!(\"{}\", twice(solo::extra::extra(3) as i64));\n}\n#[cfg(test)]\nmod t {\n    #[test]\n    fn w() { assert!(super::twice(0) == 0); }\n}\n"
        g.ext.append("#[test]\nfn runs() {\n    let o = std::process::Command::new(env!(\"CARGO_BIN_EXE_solo\")).output().unwrap();\n    assert_eq!(String::from_utf8_lossy(&o.stdout), \"16\\n\");\n}\n")
        if rng.random() < 0.5:
            t["build.rs"] = "fn main() {\n    println!(\"cargo:rerun-if-changed=src/data.txt\");\n    println!(\"cargo:rustc-env=FROM_BUILD=1\");\n}\n"
    if g.ext:
        t["tests/it.rs"] = "".join(g.ext)
    return t


def cargo(box, cwd, args, env, limit=240):
    """(exit code or None after the limit, output)"""
    e = dict(box.env({"CARGO": None}), **env)
    p = subprocess.Popen([os.path.join(core.TCBIN, "cargo")] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out = p.communicate(timeout=limit)[0]
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "no end after %d s" % limit


def run(ctx, c, rng):
    t = tree(rng, c)
    real = {"CARGO": os.path.join(core.TCBIN, "cargo")}
    opts = []
    if c["kind"] == "features":
        opts = rng.choice([[], ["--no-default-features"], ["--features=big"], ["--all-features"]])
    flags = {"CARGO_ENCODED_RUSTFLAGS": "--cap-lints=warn"} if c["cap"] else {}
    profile = ["--profile=release"] if c["profile"] else []
    with ctx.box(t) as box:
        lk = cargo(box, box.src, ["generate-lockfile", "--offline"], {})
        if lk[0]:
            raise HarnessError("cargo generate-lockfile failed: " + lk[1][-500:])
        if c["old"] is not None:
            for dp, ds, fs in os.walk(box.src):
                for f in fs:
                    p = os.path.join(dp, f)
                    s = os.stat(p).st_mtime - c["old"]
                    os.utime(p, (s, s))
        if c["inplace"] and c["prebuilt"]:
            cargo(box, box.src, ["test", "--offline"], {})
        base = ["--workspace"] if c["kind"] == "workspace" else []
        cli = base + opts + profile + (["--check"] if c["check"] else []) + (["--cap-lints=true"] if c["cap"] else [])
        names = lab.list_names(box, cli)
        n = max(1, -(-len(names) // c["take"]))
        k = rng.randrange(n)
        if c["loop"]:
            # the shard that has `i += 1` made `i *= 1`
            k = next(i for i, (_, s) in enumerate(names) if "replace += with *= in %s_f" % ("g" if c["kind"] == "workspace" else "s") in s) % n
        args = cli + ["--shard=%d/%d" % (k, n), "--timeout=8" if c["loop"] else "--minimum-test-timeout=120"] + ["--in-place"] * c["inplace"] + ([] if c["inplace"] else ["--jobs=%d" % c["jobs"]]) + ["--test-workspace=true"] * c["testws"] + ([] if c["shuffle"] else ["--no-shuffle"])
        before = core.snapshot(box.src, ("mutants.out", "mutants.out.old", "target"))
        files = {p: v[2] for p, v in before.items() if v[0] == "f"}
        r = box.run(args, env=real, sleepcap=0, ref={}, timeout=400).finish()
        if r.hung:
            raise Violation("the program did not finish", run=r.brief())
        try:
            out = json.load(open(os.path.join(box.src, "mutants.out/outcomes.json")))
        except (OSError, ValueError) as ex:
            raise Violation("no outcomes: %s" % ex, run=r.brief())
        if out["outcomes"][0]["scenario"] != "Baseline" or out["outcomes"][0]["summary"] != "Success":
            logs = open(os.path.join(box.src, "mutants.out/log/baseline.log"), errors="replace").read()
            rc, text = verdict(box, files, None, None, c, opts, profile, flags)
            if rc == ("Success" if c["check"] else "MissedMutant"):
                raise Violation("the baseline failed although the tree passes", log=logs[-1500:], run=r.brief())
            raise HarnessError("the generated tree does not pass: " + text[-1500:])
        want = [m for m, _ in names][k::n]
        got = [x for x in out["outcomes"] if x["scenario"] != "Baseline"]
        if sorted(model.mid(x["scenario"]["Mutant"]) for x in got) != sorted(model.mid(m) for m in want):
            raise Violation("the mutants tested are not those of the shard", run=r.brief())
        for x in got:
            m = x["scenario"]["Mutant"]
            s, text = verdict(box, files, m, m["package"], c, opts, profile, flags)
            if s != x["summary"]:
                log = open(os.path.join(box.src, "mutants.out", x["log_path"]), errors="replace").read()
                s2, text = verdict(box, files, m, m["package"], c, opts, profile, flags)
                if s2 == s:
                    raise Violation("%s was reported for %s, but a fresh tree with this change gives %s" % (x["summary"], dict(names_of(names))[model.mid(m)], s), log=log[-1500:], fresh=text[-1500:], run=r.brief())
            ctx.count("mutants_compared")
            ctx.count("outcome_" + x["summary"])
            ctx.saw("nontrivial", (c["kind"], c["jobs"], c["inplace"], c["testws"], c["check"], x["summary"], m["genre"]))
        after = core.snapshot(box.src, ("mutants.out", "mutants.out.old", "target"))
        if core.snap_diff(before, after):
            raise Violation("the source tree changed: %s" % core.snap_diff(before, after)[:4], run=r.brief())
        if c["inplace"]:
            # what was built in the tree must not outlive the mutations it was built from
            rc, text = cargo(box, box.src, ["test", "--offline"] + base + opts + profile, flags)
            if rc:
                raise Violation("after the run in place, the unchanged tree fails its tests", output=text[-1500:], run=r.brief())
            ctx.count("trees_rebuilt_after_in_place")
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "kind": c["kind"], "args": args, "outcomes": {s: sum(x["summary"] == s for x in got) for s in ("CaughtMutant", "MissedMutant", "Unviable", "Success", "Timeout")}})


def names_of(names):
    return [(model.mid(m), s) for m, s in names]


def verdict(box, files, m, package, c, opts, profile, flags):
    """Build and test a fresh tree with this change."""
    d = os.path.join(box.dir, "fresh")
    if os.path.exists(d):
        core._rmtree(d)
    for p, data in files.items():
        if m is not None and p == m["file"]:
            data = model.mutant_key(m, {p: (None, None, data)})[1]
        full = os.path.join(d, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        open(full, "wb").write(data)
    pk = ["--workspace"] if c["testws"] or c["kind"] == "workspace" and package is None else ["--package=" + package] if package else []
    try:
        if c["check"]:
            rc, text = cargo(box, d, ["check", "--tests", "--offline"] + profile + pk + opts, flags)
            return ("Unviable" if rc else "Success"), text
        rc, text = cargo(box, d, ["test", "--no-run", "--offline"] + profile + pk + opts, flags)
        if rc:
            return "Unviable", text
        rc, text = cargo(box, d, ["test", "--offline"] + profile + pk + opts, flags, 15 if c["loop"] and m is not None else 240)
        if rc is None:
            return "Timeout", text
        return ("CaughtMutant" if rc else "MissedMutant"), text
    finally:
        core._rmtree(d)
