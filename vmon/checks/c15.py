"""C15: code that must not be mutated never is, and its neighbours still are."""
import contextlib

from .. import proj, rustgen, syn

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real binary lists generated trees of excluded regions and active neighbours; an oracle that tracked both decides"
RULE = "one evaluation is one generated project; non-trivial elements are distinct (kind of excluded region, nesting path of regions) that held code which would otherwise be mutated"
ASSUMPTIONS = ["attributes are recognised as the book documents: #[test], #[cfg(test)], and any attribute naming mutants::skip"]
ALL = ("FnValue", "BinaryOperator", "UnaryOperator", "MatchArm", "MatchArmGuard")

ATTRS = [
    "#[test]", "#[cfg(test)]", "#[mutants::skip]", "#[cfg_attr(test, mutants::skip)]", "#[cfg_attr(feature = \"x\", mutants::skip)]",
    "#[cfg_attr(any(unix, windows), mutants::skip)]", "#[cfg_attr(not(miri), inline, mutants::skip)]", "#[ cfg ( test ) ]", "#[cfg_attr(test, mutants::skip, allow(unused))]",
    "#[cfg_attr(all(test, feature = \"a,b\"), mutants::skip)]", "#[mutants::skip] // reason: a + b",
    "#[cfg_attr(x, doc = concat!(\"a, b\", \"c\"), mutants::skip)]", "#[cfg_attr(all(), doc = include_str!(\"../x\"), mutants::skip)]", "#[cfg_attr(any(), allow(a, b), cfg_attr(test, inline), mutants::skip)]",
]
KEEP = ["#[inline]", "#[cfg(not(test))]", "#[cfg(feature = \"test\")]", "#[allow(test_things)]", "#[doc = \"mutants::skip\"]", "/// #[mutants::skip]", "// #[test]", "#[cfg_attr(test, inline)]", "#[deprecated]", "#[mutants_skip]", "#[skip]", "#[cfg(unix)]", "#[rustfmt::skip]", "#[cfg(debug_assertions)]", "#[tokio::test]", "#[test_case(1)]", "#[cfg(tests)]", "#[mutants::skipped]", "#[other::mutants::skip]", "#[cfg_attr(mutants, inline)]", "#[doc(hidden)]", "#[cfg(any(unix, windows))]"]


class R(rustgen.RG):
    def __init__(self, *a, ctx=None, skips=(), **kw):
        super().__init__(*a, **kw)
        self.ctx = ctx
        self.path = []
        self.skips = skips  # call names that are skipped

    @contextlib.contextmanager
    def off(self, kind):
        was, n = self.active, len(self.exp)
        self.active = False
        self.path.append(kind)
        self.ctx.saw("nontrivial", "/".join(self.path))
        self.ctx.count("regions")
        try:
            yield
        finally:
            self.active = was
            self.path.pop()
            assert len(self.exp) == n

    def attr(self):
        """An excluding attribute among others."""
        r = self.rng
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 5])):
            out.append(r.choice(KEEP))
        a = r.choice(ATTRS)
        out.append(a)
        for _ in range(r.choice([0, 0, 1])):
            out.append(r.choice(KEEP))
        if out[-1].startswith(("//",)) or "//" in out[-1]:
            sep = "\n"
        else:
            sep = r.choice(["\n", " "])
        return "\n".join(out) + sep, a

    def region(self, d):
        r = self.rng
        k = r.choice(["fn", "fn", "mod", "impl", "trait", "const", "enum", "unsafe", "default", "new", "newt", "newtrait", "empty", "implfn", "traitfn", "innermod", "innerfn", "data", "keepdata", "keepfn", "keepmod", "nearmiss", "assocconst"])
        if k == "fn":
            t, a = self.attr()
            self.e(t)
            with self.off("fn " + a):
                self.function(d)
        elif k == "mod":
            t, a = self.attr()
            self.e(t)
            with self.off("mod " + a):
                self.e("mod %s {\n" % self.uid("m"))
                for _ in range(r.choice([1, 2, 3])):
                    self.anyitem(d - 1)
                    self.e("\n")
                self.e("}")
        elif k == "impl":
            t, a = self.attr()
            self.e(t)
            with self.off("impl " + a):
                self.e("impl %sTy%d {\n" % (r.choice(["", "Tr for "]), r.randrange(9)))
                for _ in range(2):
                    self.function(d, quals="", in_impl=True)
                    self.e("\n")
                self.e("}")
        elif k == "trait":
            t, a = self.attr()
            self.e(t)
            with self.off("trait " + a):
                self.e("trait %s {\n" % self.uid("Tr"))
                self.function(d, quals="", in_impl=True)
                self.e("\n}")
        elif k == "const":
            t, a = self.attr()
            self.e(t)
            with self.off("const " + a):
                self.e("%s %s: u32 = " % (r.choice(["const", "static"]), self.uid("K").upper()))
                self.x(2)
                self.e(";")
        elif k == "enum":
            t, a = self.attr()
            self.e(t)
            with self.off("enum " + a):
                self.e("enum %s { A = " % self.uid("E"))
                self.x(2)
                self.e(", B }")
        elif k in ("data", "keepdata"):
            if k == "data":
                t, a = self.attr()
                self.e(t)
                with self.off("data " + a):
                    self.data()
            else:
                self.e(r.choice(KEEP) + "\n")
                self.data()
        elif k == "unsafe":
            with self.off("unsafe fn"):
                self.function(d, quals=r.choice(["unsafe ", "pub unsafe ", "unsafe extern \"C\" ", "const unsafe "]))
        elif k == "default":
            with self.off("impl Default"):
                self.e("impl%s %sDefault for %s {\n" % (r.choice(["", "<T>"]), r.choice(["", "std::default::", "core::default::"]), r.choice(["Foo", "Bar<T>"])))
                self.function(d, quals="", name="default", in_impl=True)
                self.e("\n}")
        elif k in ("new", "newt", "newtrait"):
            n = self.uid("Ty")
            if k == "new":
                self.e("impl %s {\n" % n)
                self.ns.append(n)
            elif k == "newt":
                self.e("impl Tr for %s {\n" % n)
                self.ns.append("<impl Tr for %s>" % n)
            else:
                self.e("trait %s {\n" % n)
                self.ns.append(n)
            for _ in range(r.choice([1, 2])):
                if r.random() < 0.6:
                    self.function(1, quals="", in_impl=True, name=r.choice(["newer", "new_", "renew", "default", "news"]) + str(r.randrange(99)))
                    self.e("\n")
                with self.off(k):
                    self.function(d, quals="", name="new", in_impl=True)
                self.e("\n")
            self.function(1, quals="", in_impl=True)
            self.e("\n}")
            self.ns.pop()
        elif k == "empty":
            with self.off("empty"):
                self.e("fn %s() %s{%s}" % (self.uid(), r.choice(["", "-> bool ", "-> ! "]), r.choice(["", " ", "\n", " // a + b\n", " /* true */ "])))
        elif k in ("implfn", "traitfn"):
            n = self.uid("Ty")
            self.e("%s %s {\n" % ("impl" if k == "implfn" else "trait", n))
            self.ns.append(n)
            for _ in range(3):
                if r.random() < 0.5:
                    t, a = self.attr()
                    self.e(t)
                    with self.off(k + " " + a):
                        self.function(d, quals=r.choice(["", "async "]), in_impl=True)
                elif r.random() < 0.3:
                    with self.off(k + " unsafe"):
                        self.function(d, quals="unsafe ", in_impl=True)
                else:
                    self.function(1, quals="", in_impl=True)
                self.e("\n")
            self.e("}")
            self.ns.pop()
        elif k == "assocconst":
            n = self.uid("Ty")
            self.e("%s %s {\n" % (r.choice(["impl", "trait"]), n))
            self.ns.append(n)
            t, a = self.attr()
            self.e(t)
            with self.off("assoc const " + a):
                self.e("const A: u32 = ")
                self.x(2)
                self.e(";\n")
            self.e("const B: u32 = ")
            self.x(1)
            self.e(";\n}")
            self.ns.pop()
        elif k == "innermod":
            with self.off("inner attribute of mod"):
                self.e("mod %s {\n    %s\n" % (self.uid("m"), r.choice(["#![mutants::skip]", "#![cfg(test)]", "#![cfg_attr(test, mutants::skip)]"])))
                self.function(d)
                self.e("\n}")
        elif k == "innerfn":
            with self.off("inner attribute of fn"):
                self.e("fn %s() {\n    #![mutants::skip]\n    " % self.uid())
                self.stmt(2)
                self.e("\n}")
        elif k == "keepfn":
            self.e(r.choice(KEEP) + "\n")
            self.function(d)
        elif k == "keepmod":
            n = self.uid("m")
            self.e(r.choice(KEEP) + "\nmod %s {\n" % n)
            self.ns.append(n)
            for _ in range(2):
                self.anyitem(d - 1)
                self.e("\n")
            self.ns.pop()
            self.e("}")
        elif k == "nearmiss":
            # looks like something that is excluded, but is not
            j = r.randrange(4)
            if j == 0:
                self.function(d, name="new")
            elif j == 1:
                self.e("impl Foo {\n")
                self.ns.append("Foo")
                self.function(1, quals="", name="default", in_impl=True)
                self.ns.pop()
                self.e("\n}")
            elif j == 2:
                self.e("impl %s for Foo {\n" % "DefaultX")
                self.ns.append("<impl DefaultX for Foo>")
                self.function(1, quals="", in_impl=True)
                self.ns.pop()
                self.e("\n}")
            else:
                self.function(d, name="test%d" % r.randrange(99), quals="")

    def data(self):
        """A type whose definition holds an expression."""
        n = self.uid("D")
        self.e(self.rng.choice(["struct %s { a: u8, b: [u8; ", "union %s { a: u8, b: [u8; ", "pub struct %s(u8, [u8; ", "type %s = [u8; ", "enum %s { A(u8), B([u8; "]) % n)
        k = "".join(self.buf[-1:])
        self.x(2)
        self.e("];" if k.startswith("type") else "]);" if "(u8, [" in k else "]) }" if k.startswith("enum") else "] }")

    def anyitem(self, d):
        d = max(d, 0)
        if self.rng.random() < 0.6:
            self.region(d)
        else:
            self.item(max(d, 1))

    def atom(self, d):
        if d > 0 and self.rng.random() < 0.08:
            return self.call(d)
        return super().atom(d)

    def call(self, d):
        """A call that may be skipped, with all that is in it."""
        r = self.rng
        pool = ["with_capacity", "skip_me", "other_call", "capacity", "skip_me2", "with_capacity_in"]
        n = r.choice(pool)
        if n in self.skips:
            with self.off("call " + n):
                self._call(n, d)
        else:
            self._call(n, d)

    def _call(self, n, d):
        r = self.rng
        if r.random() < 0.4:
            self.e("recv" if r.random() < 0.5 else "(a.b())")
            self.e(r.choice([".", "\n    ."]) + n + r.choice(["", "", "::<u8>"]) + "(")
        else:
            self.e(r.choice(["", "Vec::", "std::vec::Vec::<String>::", "Self::"]) + n + r.choice(["", "", "::<u8>"]) + "(")
        self.x(d - 1)
        if r.random() < 0.4:
            self.e(", |x| ")
            self.x(d - 1)
        self.e(")")

    def stmt(self, d):
        # excluded items also occur inside functions
        if d > 1 and self.rng.random() < 0.12:
            r = self.rng
            a = r.choice(ATTRS)
            self.e(a + "\n")
            with self.off("nested fn " + a):
                self.function(d - 1)
            return
        super().stmt(d)


def cases(rng, tier):
    n = 420 if tier == "quick" else 4000
    out = []
    for k in range(n):
        out.append({"name": "skip%d" % k, "depth": [1, 2, 3][k % 3], "calls": rng.choice([None, None, ["skip_me"], ["skip_me", "other_call"]]), "cfgcalls": rng.choice([None, None, ["capacity"]]), "defaults": rng.choice([None, None, "cli", "cfg"]), "items": rng.choice([3, 5, 7])})
    return out


FILEATTR = ["#![mutants::skip]\n", "#![cfg(test)]\n", "#![cfg_attr(test, mutants::skip)]\n", "//! docs\n#![allow(dead_code)]\n#![mutants::skip]\n", "#![cfg_attr(any(unix, windows), mutants::skip)]\n"]


def run(ctx, c, rng):
    skips = set(c["calls"] or []) | set(c["cfgcalls"] or [])
    if c["defaults"] is None:
        skips.add("with_capacity")
    tree = {"Cargo.toml": proj.manifest()}
    exp, text = [], {}

    def make(path, active, depth):
        r = R(rng, path, ctx=ctx, skips=skips, simple_types=True)
        r.active = active
        if not active:
            r.path = ["file"]
        fileoff = False
        if active and path != "src/lib.rs" and rng.random() < 0.25:
            r.e(rng.choice(FILEATTR))
            r.active = False
            r.path = ["file attr"]
            fileoff = True
        for _ in range(c["items"]):
            r.anyitem(c["depth"])
            r.e("\n")
        kids = []
        if depth > 0:
            for _ in range(rng.choice([1, 2])):
                n = "n%d" % len(tree)
                off = rng.random() < 0.35
                if off:
                    r.e(r.attr()[0])
                elif rng.random() < 0.3:
                    r.e(rng.choice(KEEP) + "\n")
                r.e("mod %s;\n" % n)
                base = "src/" if path == "src/lib.rs" else path[: -len("mod.rs")] if path.endswith("/mod.rs") else path[:-3] + "/"
                kid = base + n + rng.choice([".rs", "/mod.rs"])
                tree[kid] = ""
                kids.append((kid, active and not off and not fileoff))
        if rng.random() < 0.3:
            # a module declared inside an excluded inline module
            n = "i%d" % len(tree)
            r.e(r.attr()[0] + "mod off_%s { mod %s; }\n" % (n, n))
            base = "src/" if path == "src/lib.rs" else path[: -len("mod.rs")] if path.endswith("/mod.rs") else path[:-3] + "/"
            kid = base + "off_%s/%s.rs" % (n, n)
            tree[kid] = ""
            kids.append((kid, False))
        r.e("\nfn tail_%d() -> bool { go() }\n" % len(tree))
        if r.active:
            l = r.line - 1
            nm = "tail_%d" % len(tree)
            col = len("fn %s() -> bool { " % nm) + 1
            r.fn.append((nm, "bool"))
            for v in ("true", "false"):
                r.want("FnValue", (l, col), (l, col + 4), v)
            r.fn.pop()
        tree[path] = text[path] = r.text
        exp.extend(r.exp)
        for kid, act in kids:
            make(kid, act, depth - 1)

    make("src/lib.rs", True, rng.choice([0, 1, 2]))
    cfg = []
    args = []
    if c["cfgcalls"]:
        cfg.append("skip_calls = %s" % str(c["cfgcalls"]).replace("'", '"'))
    if c["calls"]:
        args += ["--skip-calls", ",".join(c["calls"])] if rng.random() < 0.5 else [x for s in c["calls"] for x in ("--skip-calls", s)]
    if c["defaults"] == "cli":
        args += ["--skip-calls-defaults=false"]
        if rng.random() < 0.5:
            cfg.append("skip_calls_defaults = true")
    elif c["defaults"] == "cfg":
        cfg.append("skip_calls_defaults = false")
    if cfg:
        tree[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
    with ctx.box(tree) as box:
        got = syn.listing(box, args)
        syn.compare(ctx, exp, got, ALL, text, "mutants around excluded regions")
        ctx.count("evaluations")
        ctx.sample({"case": c["name"], "files": len(text), "mutants": len(exp)})
