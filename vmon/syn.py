"""Workloads of generated source text with known mutants, and the comparison with the listing."""
import collections
import json

from . import proj, rustgen
from .core import Violation


class Gen:
    def __init__(self):
        self.tree, self.exp, self.text = {}, [], {}


def project(rng, files=3, items=4, depth=2, crlf=0.2, fill=None, **kw):
    """A package whose files are generated; .exp has the mutants it must have."""
    g = Gen()
    names = ["src/lib.rs"] + ["src/m%d.rs" % k for k in range(1, files)]
    for n in names:
        r = rustgen.RG(rng, n, **kw)
        (fill or (lambda r: r.fill(items, depth)))(r)
        t = r.text
        if n == "src/lib.rs":
            t += "\n" + "".join("mod m%d;\n" % k for k in range(1, files))
        g.exp += r.exp
        g.text[n] = t
        g.tree[n] = t.replace("\n", "\r\n") if rng.random() < crlf else t
    g.tree["Cargo.toml"] = proj.manifest()
    return g


def listing(box, args=(), **kw):
    r = box.run(list(args) + ["--list", "--json"], ref={}, plan_extra=False, **kw).finish()
    if r.hung or r.panicked:
        raise Violation("--list --json hung or panicked", run=r.brief())
    if r.rc != 0:
        raise Violation("--list --json failed on a valid tree", run=r.brief())
    try:
        return json.loads(r.stdout)
    except ValueError:
        raise Violation("--list --json printed invalid JSON", run=r.brief())


def span4(m):
    s = m["span"]
    return (s["start"]["line"], s["start"]["column"], s["end"]["line"], s["end"]["column"])


def compare(ctx, exp, got, genres, text=None, what="mutants", names=False):
    """Expected against listed mutants of some genres, as multisets."""
    f = lambda k: k if names else k[:4]
    e = collections.Counter(f(rustgen.key(x)) for x in exp if x["genre"] in genres)
    g = collections.Counter(f(rustgen.key_json(m)) for m in got if m["genre"] in genres)
    if e != g:
        miss, extra = list(e - g), list(g - e)

        def ctxt(k):
            ls = (text or {}).get(k[0], "").split("\n")
            return ls[max(0, k[2][0] - 2) : k[2][2] + 1]

        raise Violation(
            "%s differ from the documented ones: %d missing, %d unexpected; first missing %s, first unexpected %s"
            % (what, sum((e - g).values()), sum((g - e).values()), miss[0] if miss else None, extra[0] if extra else None),
            missing=[(k, ctxt(k)) for k in miss[:4]], extra=[(k, ctxt(k)) for k in extra[:4]], text=text,
        )
    ctx.count("mutants_compared", sum(e.values()))
    return e
