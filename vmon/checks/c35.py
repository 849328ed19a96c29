"""C35: the attribute of the mutants crate changes nothing in the program it is put on."""
import os
import subprocess
import tomllib

from .. import core
from ..core import HarnessError, Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real attribute macro is run by the compiler on generated items, and the compiled code and the program's output are compared with those without the attribute"
RULE = "one evaluation is one generated program compiled twice; non-trivial elements are distinct (kind of item, form of the attribute, position among other attributes) combinations compiled"
ASSUMPTIONS = ["the compiler's own text of the intermediate code, without debug information, is taken for the compiled code"]


def cases(rng, tier):
    return [{"name": "prog%d" % k, "edition": ["2018", "2021", "2024"][k % 3], "items": rng.choice([8, 14, 20])} for k in range(60 if tier == "quick" else 600)]


FORMS = ["#[mutants::skip]", "#[::mutants::skip]", "#[cfg_attr(all(), mutants::skip)]", "#[cfg_attr(not(test), mutants::skip, inline)]", "#[mutants::skip(reason = \"slow\")]", "#[ mutants :: skip ]", "#[mutants::skip()]", "#[skip]", "#[mutants::skip] #[mutants::skip]", "#[cfg_attr(any(), mutants::skip)]"]


class W:
    def __init__(self, rng):
        self.r, self.out, self.bare, self.n, self.calls, self.used = rng, [], [], 0, [], []

    def e(self, s):
        self.out.append(s)
        self.bare.append(s)

    def attr(self, kind):
        """An attribute, which the bare program has white space for."""
        f = self.r.choice(FORMS)
        if f.endswith("inline)]") and kind not in ("fn", "generic", "method", "async", "unsafe", "extern", "const fn", "inner"):
            f = FORMS[0]
        before = self.r.choice(["", "", "/// text é\n", "#[allow(unused)] ", "#[must_use] " if kind == "fn" else "#[doc(hidden)] "])
        after = self.r.choice(["", "", "\n", " #[allow(dead_code)]\n", "\n/// more docs\n", " // remark\n"])
        self.used.append((kind, f, before.strip(), after.strip()))
        self.e(before)
        self.out.append(f)
        if f.endswith("inline)]"):
            # the other attribute stays
            a = f.index("inline)]")
            self.bare.append("#[" + " " * (a - 2) + "inline]" + " ")
        else:
            self.bare.append(" " * len(f))
        self.e(after + " ")

    def expr(self, v="x", d=2):
        r = self.r
        if d <= 0:
            return r.choice([v, "%du64" % r.randrange(1, 9), "%s.wrapping_mul(3)" % v])
        a, b = self.expr(v, d - 1), self.expr(v, d - 1)
        return r.choice([
            "(%s).wrapping_add(%s)" % (a, b), "(%s ^ %s)" % (a, b), "(if %s > %s { %s } else { %s })" % (a, b, b, a),
            "(match %s %% 3 { 0 => %s, 1 => { %s } _ => 7u64 })" % (a, b, a), "{ let y = %s; let f = |z: u64| z ^ y; f(%s) }" % (a, b), "((%s & 0xff) + (%s & 0xf))" % (a, b), "((%s, %s).0)" % (a, b), "{ let mut t: u64 = %s; for i in 0..3u64 { t = t.rotate_left(1) ^ i; } t }" % a,
            "(format!(\"{:?}{}\", Some(%s), \"a\").len() as u64)" % a, "{ let v = vec![%s, %s]; v[(v[0] %% 2) as usize] }" % (a, b),
        ])

    def item(self):
        r = self.r
        self.n += 1
        n = self.n
        k = r.choice(["fn", "fn", "generic", "method", "impl", "trait", "traitimpl", "mod", "const", "struct", "enum", "async", "unsafe", "extern", "const fn", "macro", "inner", "static", "use"])
        x = self.expr()
        if k == "fn":
            self.attr(k)
            nm = r.choice(["f%d", "r#fn%d", "größe%d"]) % n
            self.e("pub fn %s(x: u64) -> u64 { let r#type = %s; r#type }\n" % (nm, x))
            self.calls.append("%s(%d)" % (nm, r.randrange(99)))
        elif k == "generic":
            self.attr(k)
            self.e("fn g%d<'a, T: Into<u64> + Copy, const N: usize>(t: &'a [T; N]) -> u64 where T: 'a { let x: u64 = t.iter().map(|&v| v.into()).sum(); %s }\n" % (n, x))
            self.calls.append("g%d(&[1u8, 2, %d])" % (n, r.randrange(9)))
        elif k in ("method", "impl"):
            self.e("struct S%d(u64);\n" % n)
            if k == "impl":
                self.attr(k)
            self.e("impl S%d { " % n)
            if k == "method":
                self.attr(k)
            self.e("fn get(&self) -> u64 { let x = self.0; %s } }\n" % x)
            self.calls.append("S%d(%d).get()" % (n, r.randrange(99)))
        elif k in ("trait", "traitimpl"):
            if k == "trait":
                self.attr(k)
            self.e("trait T%d { const C: u64 = 3; fn val(&self) -> u64 { let x = Self::C; %s } }\nstruct U%d;\n" % (n, x, n))
            if k == "traitimpl":
                self.attr(k)
            self.e("impl T%d for U%d { const C: u64 = %d; }\n" % (n, n, r.randrange(20)))
            self.calls.append("U%d.val()" % n)
        elif k == "mod":
            self.attr(k)
            self.e("mod m%d { #[allow(unused)] use super::*; pub fn h(x: u64) -> u64 { %s } }\n" % (n, x))
            self.calls.append("m%d::h(%d)" % (n, r.randrange(99)))
        elif k in ("const", "static"):
            self.attr(k)
            self.e("%s K%d: u64 = { let x: u64 = %d; x * 3 + (x ^ 5) };\n" % (k, n, r.randrange(99)))
            self.calls.append("K%d" % n)
        elif k == "struct":
            self.attr(k)
            self.e("#[derive(Debug, Clone, PartialEq, Default)] struct D%d { a: u64, pub(crate) b: Option<u8> }\n" % n)
            self.calls.append("format!(\"{:?}\", D%d { a: %d, ..Default::default() }.clone()).len() as u64" % (n, r.randrange(99)))
        elif k == "enum":
            self.attr(k)
            self.e("#[derive(Debug, Clone, Copy)] #[repr(u16)] enum E%d { A = 3, B = %d }\n" % (n, r.randrange(5, 99)))
            self.calls.append("(E%d::A as u64 + E%d::B as u64)" % (n, n))
        elif k == "async":
            self.attr(k)
            self.e("async fn a%d(x: u64) -> u64 { std::future::ready(%s).await }\n" % (n, x))
            self.calls.append("(std::mem::size_of_val(&a%d(3)) as u64)" % n)
        elif k == "unsafe":
            self.attr(k)
            self.e("unsafe fn u%d(p: *const u64) -> u64 { let x = unsafe { *p }; %s }\n" % (n, x))
            self.calls.append("unsafe { u%d(&%d) }" % (n, r.randrange(99)))
        elif k == "extern":
            self.attr(k)
            self.e("pub extern \"C\" fn c%d(x: u64) -> u64 { %s }\n" % (n, x))
            self.calls.append("c%d(%d)" % (n, r.randrange(99)))
        elif k == "const fn":
            self.attr(k)
            self.e("const fn cf%d(x: u64) -> u64 { let mut i = 0; let mut t = x; while i < 4 { t = t.wrapping_mul(31) ^ i; i += 1; } t }\n" % n)
            self.calls.append("{ const Z: u64 = cf%d(%d); Z }" % (n, r.randrange(99)))
        elif k == "macro":
            self.e("macro_rules! mk%d { ($n:ident, $e:expr) => { " % n)
            self.attr(k)
            self.e("fn $n(x: u64) -> u64 { let y = $e; x ^ y } } }\nmk%d!(made%d, { let x = 4u64; x + %d });\n" % (n, n, r.randrange(9)))
            self.calls.append("made%d(%d)" % (n, r.randrange(99)))
        elif k == "inner":
            self.e("fn o%d(x: u64) -> u64 { " % n)
            self.attr(k)
            self.e("fn inside(x: u64) -> u64 { %s } inside(x) + 1 }\n" % x)
            self.calls.append("o%d(%d)" % (n, r.randrange(99)))
        elif k == "use":
            self.attr(k)
            self.e("#[allow(unused_imports)] use std::collections::{BTreeMap as Map%d, HashMap as Hash%d};\n" % (n, n))


_attr = {}


def attr_crate(ctx):
    with ctx.lock:
        if "lib" not in _attr:
            d = os.path.join(core.scratch_root(), "attrs")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(core.REPO, "mutants_attrs/Cargo.toml"), "rb") as f:
                edition = tomllib.load(f)["package"].get("edition", "2015")
            r = rustc(["--crate-name", "mutants", "--crate-type", "proc-macro", "--extern", "proc_macro", "--edition", edition, "-o", d + "/libmutants.so", os.path.join(core.REPO, "mutants_attrs/src/lib.rs")], d)
            if r.returncode:
                raise HarnessError("building the mutants crate failed: " + r.stderr.decode()[-2000:])
            _attr["lib"] = d + "/libmutants.so"
            # what it is compared with: an attribute that really changes nothing
            i = os.path.join(core.scratch_root(), "identity")
            os.makedirs(i, exist_ok=True)
            with open(i + "/lib.rs", "w") as f:
                f.write("#[proc_macro_attribute] pub fn skip(_: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream { i }\n")
            r = rustc(["--crate-name", "mutants", "--crate-type", "proc-macro", "--extern", "proc_macro", "--edition", "2021", "-o", i + "/libmutants.so", i + "/lib.rs"], i)
            if r.returncode:
                raise HarnessError("building the reference failed: " + r.stderr.decode()[-2000:])
            _attr["id"] = i + "/libmutants.so"
    return _attr["lib"], _attr["id"]


def rustc(args, cwd):
    return subprocess.run([os.path.join(core.TCBIN, "rustc"), "-A", "warnings"] + args, cwd=cwd, env=core.build_env(), capture_output=True, timeout=120)


def run(ctx, c, rng):
    lib, ident = attr_crate(ctx)
    w = W(rng)
    w.e("#![allow(warnings)]\n")
    w.e("use mutants::skip;\n")
    for _ in range(c["items"]):
        w.item()
    w.e("fn main() {\n" + "".join("    println!(\"{} {}\", %d, %s);\n" % (i, x) for i, x in enumerate(w.calls)) + "}\n")
    with ctx.box({}) as box:
        res = []
        for name, parts in (("with", w.out), ("same", w.out), ("without", w.bare)):
            d = os.path.join(box.dir, name)
            os.makedirs(d)
            with open(os.path.join(d, "main.rs"), "w") as f:
                f.write("".join(parts))
            # the same relative name and crate name, so that the text is the same
            r = rustc(["--crate-name", "prog", "--edition", c["edition"], "--extern", "mutants=" + (lib if name == "with" else ident), "-C", "debuginfo=0", "-C", "codegen-units=1", "--emit=llvm-ir,link", "main.rs"], d)
            if r.returncode:
                if name != "with":
                    raise HarnessError("the generated program does not compile: " + r.stderr.decode()[:1500])
                # is it the attribute, or the program?
                failed = r.stderr.decode()
                res.append(failed)
                continue
            # (numbered metadata has positions in the compiler's own memory)
            ir = "".join(l for l in open(os.path.join(d, "prog.ll")) if not l.startswith("!"))
            p = subprocess.run([os.path.join(d, "prog")], capture_output=True, timeout=60)
            res.append((ir, p.returncode, p.stdout))
        src = "".join(w.out)
        if isinstance(res[0], str):
            raise Violation("a program does not compile with the attribute on its items, but does without", compiler=res[0][:1500], source=src)
        if res[0][1:] != res[2][1:]:
            raise Violation("a program prints something else with the attribute on its items", with_attr=res[0][2].decode()[:800], without=res[2][2].decode()[:800], source=src)
        if res[0][0] != res[1][0]:
            a, b = res[0][0].splitlines(), res[1][0].splitlines()
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("the code compiled with the attribute differs from that with one that changes nothing", with_attr=a[k : k + 3], without=b[k : k + 3], source=src)
        ctx.count("lines_of_code_compared", res[0][0].count("\n"))
        ctx.count("attributes", len(w.used))
        for u in w.used:
            ctx.saw("nontrivial", u)
        ctx.sample({"case": c["name"], "attributes": len(w.used), "ir_lines": res[0][0].count("\n")})
