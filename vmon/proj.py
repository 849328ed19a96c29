"""Small projects used as workload for the runs (not for judging which mutants exist)."""


def manifest(name="pkg", extra="", version="0.1.0"):
    return '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n%s' % (name, version, extra)


FN_KINDS = ["unit", "bool", "int", "op", "str", "match", "opt"]
# with unusual names and places
ODD_KINDS = FN_KINDS + ["raw", "long", "wide", "method", "trait", "multi", "guard", "minus", "result"]


def fn_text(kind, i):
    if kind == "unit":
        return "pub fn unit_%d() {\n    helper_%d();\n}\n" % (i, i)
    if kind == "bool":
        return "pub fn bool_%d(x: u32) -> bool {\n    check_%d(x)\n}\n" % (i, i)
    if kind == "int":
        return "pub fn int_%d() -> u32 {\n    value_%d()\n}\n" % (i, i)
    if kind == "op":
        return "pub fn op_%d(a: i32, b: i32) -> i32 {\n    a + b * %d\n}\n" % (i, i + 2)
    if kind == "str":
        return "pub fn str_%d() -> String {\n    make_%d()\n}\n" % (i, i)
    if kind == "match":
        return "pub fn mat_%d(x: u8) {\n    match x {\n        %d => one(),\n        _ => two(),\n    }\n}\n" % (i, i % 200)
    if kind == "opt":
        return "pub fn opt_%d() -> Option<bool> {\n    find_%d()\n}\n" % (i, i)
    if kind == "raw":
        return "pub fn r#type_%d() -> bool {\n    r#fn_%d()\n}\n" % (i, i)
    if kind == "long":
        return "pub fn long_%d(%s) -> bool { %s long_helper_%d() }\n" % (i, ", ".join("a%d: i32" % k for k in range(12)), "/* %s */" % ("x" * (i % 40)), i)
    if kind == "longname":
        return "pub fn long_name_%s_%d() -> Result<std::collections::BTreeMap<std::string::String, Vec<std::string::String>>, Box<dyn std::error::Error>> {\n    long_helper_%d()\n}\n" % ("very_" * 12, i, i)
    if kind == "wide":
        return "pub fn wide_%d() -> (i32, bool, Option<u8>) {\n    pick_%d()\n}\n" % (i, i)
    if kind == "method":
        return "pub struct S%d<T>(T);\nimpl<T: Clone> S%d<T> {\n    pub fn get_it(&self) -> usize {\n        self.look()\n    }\n}\n" % (i, i)
    if kind == "trait":
        return "pub struct T%d;\nimpl std::ops::Not for T%d {\n    type Output = String;\n    fn not(self) -> String {\n        text_%d()\n    }\n}\n" % (i, i, i)
    if kind == "multi":
        return "pub fn größe_%d(a: u8) -> bool {\n    /* ☃ é */ zähle(a, \"日本 %d\")\n}\n" % (i, i)
    if kind == "guard":
        return "pub fn gua_%d(x: u8) {\n    match x {\n        n if odd(n) => one_%d(),\n        _ => {}\n    }\n}\n" % (i, i)
    if kind == "minus":
        return "pub fn min_%d(x: i64) -> i64 {\n    -x\n}\n" % i
    if kind == "result":
        return "pub fn res_%d() -> Result<Vec<String>, std::io::Error> {\n    read_%d()\n}\n" % (i, i)
    if kind == "equal":
        # as long as what replaces it: the mutated file has the size of the original
        out = []
        for v, ret in (("()", ""), ("true", " -> bool")):
            want = len(v + " /* ~ changed by cargo-mutants ~ */") - (3 if v == "()" else 2)
            out.append("pub fn eq%s_%d()%s {\n    %s%s\n}\n" % (v[:1].strip("("), i, ret, ("same_size_%d_" % i).ljust(want, "x"), "();" if v == "()" else "()"))
        return "\n".join(out)
    raise ValueError(kind)


NMUT = {"unit": 1, "equal": 3, "bool": 2, "int": 2, "op": 3 + 4, "str": 2, "match": 2, "opt": 3, "raw": 2, "long": 2, "wide": 18, "method": 2, "trait": 2, "multi": 2, "guard": 4, "minus": 4, "result": 3}


def big(rng, tree, path="src/lib.rs"):
    """Make a source file big, with code at both ends, and add another big file."""
    t = tree[path]
    line = "// %s\n" % ("filling é " * 12)
    n = rng.choice([600, 1200, 9000])
    tree[path] = t + line * n + "\n" + fn_text("bool", 990)
    if rng.random() < 0.5:
        tree["assets/big.bin"] = {"hex": (bytes(range(256)) * rng.choice([300, 5000])).hex()}


def pkg(rng, nmut=10, nfiles=2, kinds=None, name="pkg", prefix="", crlf=False, extra_manifest="", base=0):
    """A single package with about nmut mutants over nfiles files."""
    kinds = kinds or (ODD_KINDS if rng.random() < 0.5 else FN_KINDS)
    files = {"src/lib.rs": []}
    for k in range(1, nfiles):
        files["src/m%d.rs" % k] = []
    names = list(files)
    left, i = nmut, base
    while left > 0:
        ok = [k for k in kinds if NMUT[k] <= left] or ["unit"]
        k = rng.choice(ok)
        files[rng.choice(names)].append(fn_text(k, i))
        left -= NMUT[k]
        i += 1
    tree = {prefix + "Cargo.toml": manifest(name, extra_manifest)}
    for f, fns in files.items():
        head = "".join("mod m%d;\n" % k for k in range(1, nfiles)) if f == "src/lib.rs" else "// file %s\n" % f
        t = head + "\n".join(fns)
        tree[prefix + f] = t.replace("\n", "\r\n") if crlf else t
    return tree


def extras(rng):
    """Files besides sources that a tree may have."""
    t = {}
    if rng.random() < 0.7:
        t["README.md"] = "# readme\nmore\n"
    if rng.random() < 0.5:
        t[".hidden"] = "x"
    if rng.random() < 0.5:
        t["data/blob.bin"] = {"hex": bytes(rng.randrange(256) for _ in range(300)).hex()}
    if rng.random() < 0.4:
        t["scripts/run.sh"] = {"data": "#!/bin/sh\necho hi\n", "mode": 0o755}
    if rng.random() < 0.3:
        t["data/ro.txt"] = {"data": "read only\n", "mode": 0o444}
    if rng.random() < 0.4:
        t["link.md"] = {"link": "README.md"}
    if rng.random() < 0.2:
        t["dangling"] = {"link": "no/such"}
    if rng.random() < 0.3:
        t["tests/it.rs"] = "#[test]\nfn t() { assert!(1 + 1 == 2); }\n"
    if rng.random() < 0.3:
        t["empty"] = {"dir": 0o755}
    return t
