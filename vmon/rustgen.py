"""Generates Rust source text together with the mutants that the documentation says it has.

The text only has to parse; it is never compiled.  Positions are tracked while the text is
written, so the expectation is independent of the parser used by the program under test."""

import itertools

OPS = {  # from book/src/mutants.md
    "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
    "<": ["==", ">", "<="], ">": ["==", "<", ">="], "<=": [">"], ">=": ["<"],
    "+": ["-", "*"], "-": ["+", "/"], "*": ["+", "/"], "/": ["%", "*"], "%": ["/", "+"],
    "<<": [">>"], ">>": ["<<"], "&": ["|", "^"], "|": ["&", "^"], "^": ["&", "|"],
}
COMPARE = ["==", "!=", "<", ">", "<=", ">="]
ASSIGN = {o + "=": [r + "=" for r in OPS[o]] for o in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^")}

UNSIGNED = ["u8", "u16", "u32", "u64", "u128", "usize"]
SIGNED = ["i8", "i16", "i32", "i64", "i128", "isize"]
NAMES = ["a", "b", "x", "y", "count", "item_1", "r#type", "été", "λ", "名", "self_", "Q"]
JUNK = ["a + b", "x == y", "!x", "-1", "match x { _ => 1 }", "fn f() -> bool { true }", "é漢🦀", "\\u{41}", "\t", "👩\u200d🔬 e\u0301 ـ \u200b"]


def nows(s):
    """s without white space, except inside string literals."""
    out, q = [], False
    for c in s:
        if c == '"':
            q = not q
        if q or not c.isspace():
            out.append(c)
    return "".join(out)


# ---------------------------------------------------------------- return types


def product(parts):
    n = 1
    for _, r in parts:
        n *= max(1, len(r))
    return n


def types(rng, d=2, err=(), top=True):
    """(text, [replacement]) of a return type, from the documented table."""
    lt = rng.choice(["", "'static ", "'a "])
    simple = ["bool", "string", "u", "i", "f", "nzu", "nzi", "str", "other", "unit", "http", "result0"]
    deep = ["opt", "res", "res2", "vec", "box", "coll", "map", "cow", "arr", "slice", "mslice", "ref", "mut", "tuple", "iter", "tuple1", "unkn"]
    k = rng.choice(simple if d <= 0 or rng.random() < 0.25 else deep)
    if not top and k in ("iter", "unit"):
        k = "bool"
    path = lambda n, ps: rng.choice(["", "", rng.choice(ps)]) + n
    sub = lambda: types(rng, d - 1, err, False)
    if k == "bool":
        return "bool", ["true", "false"]
    if k == "string":
        return "String", ["String::new()", '"xyzzy".into()']
    if k == "u":
        return rng.choice(UNSIGNED), ["0", "1"]
    if k == "i":
        return rng.choice(SIGNED), ["0", "1", "-1"]
    if k == "f":
        return rng.choice(["f32", "f64"]), ["0.0", "1.0", "-1.0"]
    if k == "nzu":
        return path("NonZero" + rng.choice(UNSIGNED).capitalize(), ["std::num::", "core::num::"]), ["1"]
    if k == "nzi":
        return path("NonZero" + rng.choice(SIGNED).capitalize(), ["std::num::", "core::num::"]), ["1", "-1"]
    if k == "str":
        return "&" + lt + "str", ['""', '"xyzzy"']
    if k == "other":
        return rng.choice(["Foo", "foo::Bar", "Self", "crate::a::B", "Ordering", "Stringy", "Boolean", "char", "Option2", "MyResulty", "*const u8", "fn(u8) -> u8", "Bool", "U8", "Duration", "Either<u8, u16>", "Foo<u8, u8, u8>", "PhantomData<fn()>"[:0] or "Bar<'a>", "Baz<4>"]), ["Default::default()"]
    if k == "unit":
        return "()", ["()"]
    if k == "http":
        return path("HttpResponse", ["actix_web::"]), ["HttpResponse::Ok().finish()"]
    if k == "result0":
        return rng.choice(["fmt::Result", "std::fmt::Result"]), ["Ok(Default::default())"] + ["Err(%s)" % e for e in err]
    if k == "opt":
        t, r = sub()
        return path("Option", ["std::option::", "core::option::", "::std::option::"]) + "<%s>" % t, ["None"] + ["Some(%s)" % x for x in r]
    if k in ("res", "res2"):
        t, r = sub()
        e = ", " + rng.choice(["Error", "Box<dyn Error>", "String", "()", "io::Error"]) if k == "res2" else ""
        return path("Result", ["std::result::", "io::", "anyhow::", "::core::result::", "crate::a::b::c::"]) + "<%s%s>" % (t, e), ["Ok(%s)" % x for x in r] + ["Err(%s)" % e for e in err]
    if k == "vec":
        t, r = sub()
        return path("Vec", ["std::vec::"]) + "<%s>" % t, ["vec![]"] + ["vec![%s]" % x for x in r]
    if k == "box":
        t, r = sub()
        n = rng.choice(["Box", "Arc", "Rc", "Cell", "RefCell", "Mutex"])
        return path(n, ["std::sync::", "std::x::"]) + "<%s>" % t, ["%s::new(%s)" % (n, x) for x in r]
    if k == "coll":
        t, r = sub()
        n = rng.choice(["BinaryHeap", "BTreeSet", "HashSet", "LinkedList", "VecDeque"])
        return path(n, ["std::collections::"]) + "<%s>" % t, ["%s::new()" % n] + ["%s::from_iter([%s])" % (n, x) for x in r]
    if k == "map":
        t1, r1 = types(rng, 0, err, False)
        t2, r2 = types(rng, rng.choice([0, d - 1]), err, False)
        if rng.random() < 0.2:
            # with many values
            t2 = rng.choice(["(i8, i16)", "(bool, i32, u8)", "(i64, isize, bool)"])
            one = {"i": ["0", "1", "-1"], "u": ["0", "1"], "b": ["true", "false"]}
            r2 = ["(%s)" % ", ".join(c) for c in itertools.product(*[one[x.strip()[0]] for x in t2[1:-1].split(",")])]
        if len(r1) * len(r2) > 300:
            t2, r2 = "u8", ["0", "1"]
        n = rng.choice(["BTreeMap", "HashMap"])
        return path(n, ["std::collections::"]) + "<%s, %s>" % (t1, t2), ["%s::new()" % n] + ["%s::from_iter([(%s, %s)])" % (n, a, b) for a in r1 for b in r2]
    if k == "cow":
        t, r = rng.choice([("str", ['""', '"xyzzy"'])] * 3 + [("[u8]", ["Vec::leak(Vec::new())", "Vec::leak(vec![0])", "Vec::leak(vec![1])"]), ("Path", ["Default::default()"]), ("[bool; 3]", ["[true; 3]", "[false; 3]"])])
        return path("Cow", ["std::borrow::"]) + "<%s, %s>" % (rng.choice(["'static", "'_", "'a"]), t), [x for y in r for x in ("Cow::Borrowed(%s)" % y, "Cow::Owned(%s.to_owned())" % y)]
    if k == "arr":
        t, r = sub()
        n = rng.choice(["4", "N", "256", "LEN", "1", "0", "usize::BITS"])
        return "[%s; %s]" % (t, n), ["[%s; %s]" % (x, n) for x in r]
    if k in ("slice", "mslice"):
        t, r = sub()
        return "&" + lt + ("mut " if k == "mslice" else "") + "[%s]" % t, ["Vec::leak(Vec::new())"] + ["Vec::leak(vec![%s])" % x for x in r]
    if k in ("ref", "mut"):
        t, r = sub()
        if t.startswith(("&", "*", "[", "impl")) or "str" == t:
            t, r = "u8", ["0", "1"]
        if k == "ref":
            return "&" + lt + t, ["&" + x for x in r]
        return "&" + lt + "mut " + t, ["Box::leak(Box::new(%s))" % x for x in r]
    if k == "tuple":
        parts = [types(rng, 0, err, False) for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 6]))]
        if d > 1:
            # something larger in one place
            parts[rng.randrange(len(parts))] = types(rng, d - 1, err, False)
        while product(parts) > 400:
            parts.pop()
        if not parts:
            parts = [("bool", ["true", "false"])] * 2
        if len(parts) == 1:
            return "(%s,)" % parts[0][0], ["(%s,)" % x for x in parts[0][1]]
        reps = [[]]
        for _, r in parts:
            reps = [a + [b] for a in reps for b in r]
        return "(%s)" % ", ".join(t for t, _ in parts), ["(%s)" % ", ".join(x) for x in reps]
    if k == "tuple1":
        t, r = sub()
        return "(%s,)" % t, ["(%s,)" % x for x in r]
    if k == "iter":
        t, r = sub()
        return "impl " + path("Iterator", ["std::iter::"]) + "<Item = %s>" % t + rng.choice(["", " + 'static", " + Send"]), ["::std::iter::empty()"] + ["::std::iter::once(%s)" % x for x in r]
    if k == "unkn":
        t, r = sub()
        n = rng.choice(["UnkContainer", "SmallVec", "Matrix", "Wrapper", "RwLock", "OnceCell", "Pin", "Weak", "Wrapping", "Reverse", "HashSet2", "Vecs"])
        l = rng.choice(["", "'a, "])
        return "%s<%s%s>" % (n, l, t), ["%s::new()" % n] + [y % (n, x) for x in r for y in ("%s::from_iter([%s])", "%s::new(%s)", "%s::from(%s)")]
    raise AssertionError(k)


class RG:
    """Writes one source file and collects the mutants expected in it."""

    def __init__(self, rng, file, err=(), weights=None, ascii_only=False, wild=0.5, types_depth=1, simple_types=False, cr=False):
        self.cr = cr
        self.rng, self.file, self.err = rng, file, err
        self.buf, self.line, self.col = [], 1, 1
        self.exp = []
        self.active = True
        self.ns = []
        self.fn = []  # (full name, return type text)
        self.n = 0
        self.w = weights or {}
        self.wild = wild
        self.names = [x for x in NAMES if not ascii_only or x.isascii()]
        self.types_depth = types_depth
        self.simple_types = simple_types
        self.body_tok = None
        self.spans = {}

    # -- text

    def e(self, s):
        self.buf.append(s)
        for c in s:
            if c == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1

    def pos(self):
        return (self.line, self.col)

    @property
    def text(self):
        return "".join(self.buf)

    def want(self, genre, start, end, repl, orig=None):
        if self.active:
            self.exp.append({"genre": genre, "file": self.file, "span": start + end, "repl": repl, "fn": self.fn[-1][0] if self.fn else None, "ret": self.fn[-1][1] if self.fn else None, "orig": orig, "fnref": self.fn[-1][2] if self.fn and len(self.fn[-1]) > 2 else None})

    def sp(self, must=True):
        """White space, perhaps with comments."""
        r = self.rng.random()
        if self.cr and self.rng.random() < 0.05:
            self.e(" /* \r carriage\rreturn */ ")
        elif r < 0.80:
            self.e(" " if must or r < 0.6 else "")
        elif r < 0.86:
            self.e("\n" + " " * self.rng.randrange(1, 12))
        elif r < 0.89:
            self.e("\t")
        elif r < 0.93:
            self.e(" /* %s */ " % self.rng.choice(JUNK))
        elif r < 0.95:
            self.e(" // %s\n    " % self.rng.choice(JUNK).replace("\t", " "))
        elif r < 0.97:
            self.e("\n\n\n")
        else:
            self.e("   ")

    def name(self):
        return self.rng.choice(self.names)

    def uid(self, p="f"):
        self.n += 1
        return "%s%d%s" % (p, self.n, self.rng.choice(["", "", "_é", "_x"]))

    # -- expressions

    def atom(self, d):
        r = self.rng
        k = r.choice(["id", "id", "num", "lit", "call", "meth", "idx", "paren", "un", "field", "mac", "arr", "cast", "try", "clos", "block", "tup", "range", "ref", "struct", "ifx", "matchx", "gen", "async"] if d > 0 else ["id", "id", "num", "lit", "mac"])
        if k == "id":
            self.e(self.name())
        elif k == "num":
            self.e(r.choice(["0", "1", "42", "0xFF", "1_000u64", "2.5", "1e3", "b'+'"]))
        elif k == "lit":
            self.e(r.choice(['"%s"' % r.choice(JUNK).replace("\t", "\\t"), 'r#"%s "quoted""#' % r.choice(JUNK[:5]), "'-'", "'é'", 'b"a+b"', '"multi\n line + x"', "'\\''"]))
        elif k == "call":
            self.e(r.choice(["f", "self::g", "Foo::bar", "Vec::<u8>::make", "Some", "Ok"]) + "(")
            self.args(d)
            self.e(")")
        elif k == "meth":
            self.operand(d - 1)
            self.e(r.choice([".", "\n        ."]) + r.choice(["m", "unwrap_or", "map::<u8>", "r#match"]) + "(")
            self.args(d)
            self.e(")")
        elif k == "idx":
            self.e(self.name() + "[")
            self.x(d - 1)
            self.e("]")
        elif k == "paren":
            self.e("(")
            self.x(d - 1)
            self.e(")")
        elif k == "un":
            o = r.choice(["!", "-", "*", "!", "-"])
            if r.random() < 0.06:
                self.e(r.choice(["#[allow(unused)] ", "#[rustfmt::skip] "]))
            a = self.pos()
            self.e(o)
            if o in "!-":
                self.want("UnaryOperator", a, self.pos(), "", o)
            if r.random() < 0.2:
                self.e(" ")
            self.operand(d - 1)
        elif k == "field":
            self.operand(d - 1)
            self.e(r.choice([".x", ".0", ".await", ".r#type"]))
        elif k == "mac":
            self.e(r.choice(["vec![a + b]", "println!(\"{}\", x == y)", "assert!(!x && y)", "format!(\"{}\", -1)", "matches!(x, 1 | 2 if a > b)", "(m! { a + b })"]))
        elif k == "arr":
            self.e("[")
            self.x(d - 1)
            if r.random() < 0.5:
                self.e("; ")
                self.x(d - 1)
            else:
                self.e(", ")
                self.x(d - 1)
            self.e("]")
        elif k == "cast":
            self.e("(")
            self.x(d - 1)
            self.e(" as u32)")
        elif k == "try":
            self.e("(")
            self.x(d - 1)
            self.e(")?")
        elif k == "clos":
            self.e("(" + r.choice(["|x| ", "|| ", "move |x: u32, (a, b)| ", "|_| "]))
            self.x(d - 1)
            self.e(")")
        elif k == "block":
            self.e(r.choice(["({ ", "(unsafe { ", "('lab: { ", "(const { "]))
            self.stmts(d - 1, 1)
            self.x(d - 1)
            self.e(" })")
        elif k == "async":
            self.e(r.choice(["(async { ", "(async move { "]))
            self.x(d - 1)
            self.e(" })")
        elif k == "tup":
            self.e("(")
            self.x(d - 1)
            self.e(", ")
            self.x(d - 1)
            self.e(")")
        elif k == "range":
            self.e("(")
            self.operand(d - 1)
            self.e(r.choice(["..", "..="]))
            self.operand(d - 1)
            self.e(")")
        elif k == "ref":
            self.e("(" + r.choice(["&", "&mut "]))
            self.operand(d - 1)
            self.e(")")
        elif k == "struct":
            self.e("(S { x: ")
            self.x(d - 1)
            if r.random() < 0.4:
                self.e(", ..")
                self.operand(d - 1)
            self.e(" })")
        elif k == "ifx":
            self.e("(if ")
            self.x(d - 1)
            self.e(" { ")
            self.x(d - 1)
            self.e(" } else { ")
            self.x(d - 1)
            self.e(" })")
        elif k == "matchx":
            self.e("(")
            self.match(d - 1)
            self.e(")")
        elif k == "gen":
            self.e("f::<{ ")
            self.x(d - 1)
            self.e(" }>(1)")

    def args(self, d):
        for k in range(self.rng.randrange(0, 3)):
            if k:
                self.e(", ")
            self.x(d - 1)

    def operand(self, d):
        if d <= 0:
            self.e(self.rng.choice(self.names + ["7", "(1)"]))
        else:
            self.atom(d)

    def x(self, d):
        """Any expression."""
        r = self.rng
        self.operand(d)
        cmpd = False
        for _ in range(r.choice([0, 1, 1, 2, 3]) if d > 0 else r.choice([0, 0, 1])):
            o = r.choice(list(OPS))
            if o in COMPARE:
                if cmpd:
                    continue
                cmpd = True
            if o not in ("<", "<<", "<=") and r.random() < 0.06:
                self.e(r.choice([" as u64", " as usize", "\n as i8"]))
            # `a < b` must not be taken for the start of generic arguments or a shift
            self.sp()
            a = self.pos()
            self.e(o)
            for rep in OPS[o]:
                self.want("BinaryOperator", a, self.pos(), rep, o)
            self.sp()
            self.operand(d - 1)

    # -- matches

    PATS = ["1", "2 | 3", "Some(x)", "y", "A::B { .. }", "(a, _)", "ref z", "n @ 1..=5", '"str"', "'-'", "None", "[a, .., b]", "&w", "Some(Foo { x: 1, .. })", "-1", "i32::MAX", "true", "é", "_x", "m!()", "..=9", "_y @ _", "(_, _)", "Some(_)", "box_!(_)"[:0] or "E::_A", "r#fn"]

    def match(self, d, head=None):
        r = self.rng
        self.e("match ")
        self.operand(d - 1) if head is None else self.e(head)
        self.e(" {")
        n = r.choice([1, 2, 3, 4]) if r.random() < 0.96 else r.choice([9, 13, 14, 30])
        wild = r.random() < self.wild
        pos = r.randrange(n) if r.random() < 0.3 else n - 1
        arms = []
        for k in range(n):
            self.sp()
            start = self.pos()
            if r.random() < 0.1:
                self.e("#[cfg(feature = \"z\")]" + r.choice([" ", "\n        "]))
            is_wild = wild and k == pos
            self.e("_" if is_wild else r.choice(self.PATS))
            guard = r.random() < 0.3
            if guard:
                self.e(" if ")
                a = self.pos()
                # a guard ends where its last token ends
                self.guard_expr(d)
                b = self.pos()
                for v in ("true", "false"):
                    self.want("MatchArmGuard", a, b, v)
            self.sp()
            self.e("=>")
            self.sp()
            if r.random() < 0.4:
                self.e("{")
                self.sp()
                self.stmts(d - 1, r.choice([0, 1, 2]))
                self.e("}")
                if r.random() < 0.5:
                    self.e(",")
            else:
                self.x(d - 1)
                if k < n - 1 or r.random() < 0.7:
                    if r.random() < 0.2:
                        self.e(" /* , */ ")
                    self.e(",")
            arms.append((start, self.pos(), is_wild, guard))
        self.sp()
        self.e("}")
        if wild:
            for s, t, w, g in arms:
                if not w and not g:
                    self.want("MatchArm", s, t, "")

    def guard_expr(self, d):
        # no white space at either end
        if self.rng.random() < 0.1:
            self.e("let Some(z) = ")
        self.operand(max(d - 1, 0))
        if self.rng.random() < 0.5:
            o = self.rng.choice(list(OPS))
            self.e(" ")
            a = self.pos()
            self.e(o)
            for rep in OPS[o]:
                self.want("BinaryOperator", a, self.pos(), rep, o)
            self.e(" ")
            self.operand(max(d - 1, 0))

    # -- statements

    def stmts(self, d, n):
        for _ in range(n):
            self.stmt(d)
            self.e(self.rng.choice(["\n    ", " ", "\n", "\n\n    ", " // %s\n" % self.rng.choice(JUNK[:6])]))

    def stmt(self, d):
        r = self.rng
        ks = ["let", "let", "expr", "assign", "opassign", "if", "while", "for", "loop", "match", "return", "mac", "block"]
        if d > 0:
            ks += ["fn", "const", "letelse", "lettype", "iflet", "use", "mod"]
        if d <= 0:
            ks = ["let", "mac", "opassign", "call"]
        k = r.choice(ks)
        if k == "let":
            self.e("let " + r.choice(["", "mut "]) + r.choice(["v", "w: u32", "(p, q)"[:0] or "z"]) + " = ")
            self.x(d)
            self.e(";")
        elif k == "call":
            self.e("do_it();")
        elif k == "expr":
            self.e("f(")
            self.x(d)
            self.e(");")
        elif k == "assign":
            self.e(self.name() + " = ")
            self.x(d)
            self.e(";")
        elif k == "opassign":
            o = r.choice(list(ASSIGN))
            self.e(self.name() + r.choice(["", ".x", "[0]"]) + " ")
            a = self.pos()
            self.e(o)
            for rep in ASSIGN[o]:
                self.want("BinaryOperator", a, self.pos(), rep, o)
            self.e(" ")
            self.x(d)
            self.e(";")
        elif k == "if":
            self.e("if ")
            self.x(d - 1)
            self.e(" {")
            self.sp()
            self.stmts(d - 1, 1)
            self.e("}")
            if r.random() < 0.5:
                self.e(" else " + r.choice(["", "if y "]) + "{ ")
                self.stmts(d - 1, 1)
                self.e("}")
        elif k == "iflet":
            self.e(r.choice(["if let Some(x) = ", "while let Some(x) = "]))
            self.operand(d - 1)
            while r.random() < 0.3:
                self.e(r.choice([" ", "\n        "]))
                a = self.pos()
                self.e("&&")
                self.want("BinaryOperator", a, self.pos(), "||", "&&")
                self.e(r.choice([" ", " let Ok(_z) = "]))
                self.operand(d - 1)
            self.e(" { ")
            self.stmts(d - 1, 1)
            self.e("}")
        elif k == "while":
            self.e("while ")
            self.x(d - 1)
            self.e(" { ")
            self.stmts(d - 1, 1)
            self.e("}")
        elif k == "for":
            self.e("for i in ")
            self.operand(d - 1)
            self.e(" { ")
            self.stmts(d - 1, 1)
            self.e("}")
        elif k == "loop":
            self.e(r.choice(["loop {", "'a: loop {"]) + " break ")
            self.x(d - 1)
            self.e("; }")
        elif k == "match":
            self.match(d)
        elif k == "return":
            self.e("return ")
            self.x(d)
            self.e(";")
        elif k == "mac":
            self.e(r.choice(["println!(\"{}\", a + b);", "assert_eq!(x - 1, y);", "dbg!(!x);", "todo!();"]))
        elif k == "block":
            self.e(r.choice(["{ ", "unsafe { ", "#[allow(unused)] { "]))
            self.stmts(d - 1, 1)
            self.e("}")
        elif k == "fn":
            self.function(d - 1)
        elif k == "const":
            self.e(r.choice(["const C: u32 = ", "static S: u32 = "]))
            self.x(d - 1)
            self.e(";")
        elif k == "letelse":
            self.e("let Some(v) = ")
            self.operand(d - 1)
            self.e(" else { return ")
            self.x(d - 1)
            self.e("; };")
        elif k == "lettype":
            self.e("let v: [u8; ")
            self.x(d - 1)
            self.e("] = ")
            self.x(d - 1)
            self.e(";")
        elif k == "use":
            self.e("use std::fmt as f_;")
        elif k == "mod":
            n = self.uid("m")
            self.e("mod %s { " % n)
            self.ns.append(n)
            if r.random() < 0.5:
                self.e("const C: u32 = ")
                self.x(d - 1)
                self.e("; ")
            if r.random() < 0.5:
                self.function(d - 1)
            self.ns.pop()
            self.e(" }")

    # -- items

    def function(self, d, quals=None, name=None, in_impl=False, ret=None, body=None, start=None):
        r = self.rng
        ref = {}
        start = start or self.pos()
        name = name or self.uid()
        q = quals if quals is not None else r.choice(["", "", "pub ", "pub(crate) ", "const ", "async ", "extern \"C\" ", "pub async "])
        if ret is None:
            if r.random() < 0.3:
                ret = ("", ["()"])
            elif self.simple_types:
                ret = r.choice([("bool", ["true", "false"]), ("u32", ["0", "1"]), ("String", ["String::new()", '"xyzzy".into()'])])
            else:
                for _ in range(20):
                    ret = types(r, r.choice([0, 1, 1, self.types_depth]), self.err)
                    if len(ret[1]) <= (40 if r.random() < 0.95 else 300):
                        break
                if r.random() < 0.03:
                    ret = ("!", [])
        self.e(q + "fn " + name + r.choice(["", "", "<T>", "<'a, T: Foo>"]) + "(" + r.choice(["", "&self" if in_impl else "x: u32", "a: [u8; 4], b: &str" if not in_impl else "&mut self, z: i8"]) + ")")
        if ret[0]:
            self.e(r.choice([" ", "\n    "]) + "-> " + ret[0])
        self.e(r.choice([" ", "\n"]) + "{")
        full = "::".join(self.ns + [name])
        self.ns.append(name)
        self.fn.append((full, ret[0], ref))
        self.sp(False)
        a = self.pos()
        same = None
        if body is not None:
            self.e(body)
            end = self.pos()
        elif ret[1] and r.random() < 0.12:
            # the body is already one of the replacement values
            same = r.choice(ret[1])
            self.e(same)
            end = self.pos()
        else:
            mark = len(self.exp)
            n = r.choice([1, 1, 2, 3])
            for k in range(n):
                if k:
                    self.e(r.choice(["\n    ", " "]))
                self.stmt(d)
                end = self.pos()
            if r.random() < 0.6:
                self.e("\n    ")
                self.x(d)
                # an expression never ends in white space
                end = self.pos()
        self.sp(False)
        self.e("}")
        ref["span"] = start + self.pos()
        for rep in ret[1]:
            if same is not None and nows(rep) == nows(same):
                continue
            self.want("FnValue", a, end, rep)
        # operators inside a body that equals a replacement value
        if same is not None:
            self._ops_in_value(a, same)
        self.fn.pop()
        self.ns.pop()
        return full

    def _ops_in_value(self, start, text):
        """Unary minus in values such as -1 (values hold no other operators outside macros)."""
        l, c = start
        depth = 0
        stack = []
        instr = False
        for i, ch in enumerate(text):
            if ch == '"':
                instr = not instr
            if not instr:
                if ch == "[" and text[:i].endswith("vec!"):
                    stack.append("m")
                elif ch == "[":
                    stack.append("a")
                elif ch == "]":
                    stack.pop()
                elif ch == "-" and "m" not in stack:
                    self.want("UnaryOperator", (l, c + i), (l, c + i + 1), "", "-")

    def item(self, d=2):
        r = self.rng
        k = r.choice(["fn", "fn", "fn", "fn", "const", "static", "impl", "implt", "trait", "mod", "enum", "macro", "struct"])
        if k == "fn":
            self.function(d)
        elif k in ("const", "static"):
            self.e("%s %s: u32 = " % (k, self.uid("K").upper()))
            self.x(d)
            self.e(";")
        elif k in ("impl", "implt"):
            n = self.uid("Ty")
            if k == "impl":
                self.e("impl %s {" % n)
                self.ns.append(n)
            else:
                t = r.choice(["Display", "fmt::Debug", "Iterator", "Tr"])
                self.e(r.choice(["", "", "unsafe "]) + "impl %s for %s {" % (t, n))
                self.ns.append("<impl %s for %s>" % (t, n))
            for _ in range(r.choice([1, 2, 3])):
                self.e("\n    ")
                if r.random() < 0.2:
                    self.e("const A%d: usize = " % r.randrange(9))
                    self.x(d - 1)
                    self.e(";")
                else:
                    self.function(d, quals=r.choice(["", "pub " if k == "impl" else "", "async "]), in_impl=True)
            self.e("\n}")
            self.ns.pop()
        elif k == "trait":
            n = self.uid("Tr")
            self.e("trait %s {" % n)
            self.ns.append(n)
            self.e("\n    fn decl(&self) -> bool;\n    type T;\n    ")
            self.function(d, quals="", in_impl=True)
            if r.random() < 0.3:
                self.e("\n    const B: u8 = ")
                self.x(d - 1)
                self.e(";")
            self.e("\n}")
            self.ns.pop()
        elif k == "mod":
            n = self.uid("m")
            self.e(r.choice(["", "pub "]) + "mod %s {\n" % n)
            self.ns.append(n)
            for _ in range(r.choice([1, 2])):
                self.item(d - 1 if d > 1 else 1)
                self.e("\n")
            self.e("}")
            self.ns.pop()
        elif k == "enum":
            self.e("enum %s { A = " % self.uid("E"))
            self.x(d - 1)
            self.e(", B, C(u8) }")
        elif k == "macro":
            self.e("macro_rules! mm { ($a:expr) => { fn inner() -> bool { $a + 1 == 2 } }; }")
        elif k == "struct":
            self.e("struct %s { a: u32" % self.uid("St"))
            if r.random() < 0.5:
                self.e(", b: [u8; ")
                self.x(d - 1)
                self.e("]")
            self.e(" }")
            if r.random() < 0.3:
                self.e(" type %s = [u8; " % self.uid("Al"))
                self.x(d - 1)
                self.e("];")

    def fill(self, n, d=2):
        r = self.rng
        if r.random() < 0.3:
            self.e(r.choice(["//! docs: a + b\n", "#![allow(dead_code)]\n", "/* é == 漢 */\n", "\n\n", "use std::fmt;\n"]))
        for _ in range(n):
            if r.random() < 0.15:
                start = self.pos()
                self.e(r.choice(["/// doc a == b\n", "#[inline]\n", "#[must_use] /* x */\n", "#[allow(clippy::all)]\n"]))
                self.function(d, start=start)
            else:
                self.item(d)
            self.e(r.choice(["\n", "\n\n", " ", " // end é\n"]))
        if r.random() < 0.8:
            self.e("\n")


def key(x):
    """Comparable form of an expected mutant."""
    return (x["file"], x["genre"], tuple(x["span"]), nows(x["repl"]), nows(x["fn"]) if x["fn"] else None)


def key_json(m):
    """The same form of a mutant listed by the program."""
    s = m["span"]
    return (m["file"], m["genre"], (s["start"]["line"], s["start"]["column"], s["end"]["line"], s["end"]["column"]), nows(m["replacement"]), nows(m["function"]["function_name"]) if m["function"] else None)


def name(x):
    """The name that the mutant must have (compare without white space)."""
    g = x["genre"]
    if g == "FnValue":
        d = "replace %s %swith %s" % (x["fn"], "-> %s " % x["ret"] if x["ret"] else "", x["repl"])
    elif g == "MatchArm":
        d = "delete match arm"
    elif g == "MatchArmGuard":
        d = "replace match guard with " + x["repl"]
    else:
        d = ("replace %s with %s" % (x["orig"], x["repl"]) if x["repl"] else "delete " + x["orig"]) + (" in " + x["fn"] if x["fn"] else "")
    return "%s:%d:%d: %s" % (x["file"], x["span"][0], x["span"][1], d)
