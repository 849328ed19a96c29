"""C18: shards partition the mutants."""
import collections
import difflib
import os

from .. import lab, model, proj, syn
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: listings and runs of every shard of the real binary are collected and checked for disjointness, completeness and balance"
RULE = "one evaluation is one complete set of shards 0/n..(n-1)/n; non-trivial elements are distinct (number of mutants, n, mode)"
ASSUMPTIONS = ["the tree is the same for all shards"]


def cases(rng, tier):
    out = []
    n, m = (44, 22) if tier == "quick" else (400, 250)
    for k in range(n):
        out.append({"name": "list%d" % k, "kind": "list", "nmut": rng.choice([0, 1, 2, 5, 9, 16, 30, 47]), "opt": rng.choice(["", "", "filter", "diff", "ws"]), "ns": sorted({1, 2, rng.randrange(3, 9), rng.randrange(9, 30)})})
    for k in range(m):
        out.append({"name": "run%d" % k, "kind": "run", "nmut": rng.choice([3, 7, 12, 20]), "opt": rng.choice(["", "filter", "diff", "ws"]), "ns": [rng.choice([2, 3, 4, 7])]})
    # few shards of many mutants, many shards of few, and more shards than fit in a byte
    for k, (nm, ns) in enumerate([(190, [1, 2]), (330, [2]), (1100, [1, 3]), (12, [257]), (40, [65, 100]), (6, [1000])] * (1 if tier == "quick" else 4)):
        out.insert(0, {"name": "wide%d" % k, "kind": "list", "nmut": nm, "opt": rng.choice(["", "filter", "ws"]), "ns": ns})
    return out


def run(ctx, c, rng):
    if c["opt"] == "ws":
        tree = {"Cargo.toml": '[workspace]\nmembers = ["p1", "p2", "p3"]\nresolver = "2"\n'}
        for k in (1, 2, 3):
            tree.update(proj.pkg(rng, c["nmut"] // 3, rng.choice([1, 2, 3]), name="p%d" % k, prefix="p%d/" % k, base=100 * k))
        base = ["--workspace"]
    else:
        tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2, 4]))
        base = []
    if c["opt"] == "filter":
        base = ["--re", rng.choice(["replace", "with", "bool|int", "op_"])]
    with ctx.box(tree) as box:
        if c["opt"] == "diff":
            d = ""
            for p in sorted(tree):
                if p.endswith(".rs") and rng.random() < 0.7:
                    new = tree[p].splitlines(True)
                    old = [l for i, l in enumerate(new) if rng.random() < 0.5]
                    d += "".join(difflib.unified_diff(old, new, "a/" + p, "b/" + p))
            dp = os.path.join(box.dir, "x.diff")
            with open(dp, "w") as f:
                f.write(d)
            base = ["--in-diff", dp] if d else []
        full = [model.mid(m) for m in syn.listing(box, base)]
        for n in c["ns"]:
            parts = []
            # (far more shards than mutants: the first ones must hold all, the others nothing)
            some = list(range(n)) if n <= 120 else sorted(set(range(len(full) + 3)) | {n - 1, n - 2} | set(rng.sample(range(n), 30)))
            for k in some:
                a = base + ["--shard", "%d/%d" % (k, n)]
                if c["kind"] == "list":
                    got = [model.mid(m) for m in syn.listing(box, a)]
                else:
                    extra = rng.choice([[], ["--shuffle"], ["--no-shuffle"], ["--jobs", "3"], ["--jobs", "2", "--no-shuffle"]]) + rng.choice([[], ["--baseline=skip"]])
                    o = lab.run_lab(box, a + extra, ["rule build mut exit=101"], want_list=False, cwd=rng.choice([None, "/", box.src]))
                    lab.no_hang(o)
                    lst = [model.mid(m) for m in o.mutants or []]
                    got = [model.mid(m) for m in syn.listing(box, a)]
                    if collections.Counter(lst) != collections.Counter(got):
                        raise Violation("shard %d/%d tested other mutants than it lists" % (k, n), run=o.run.brief())
                    if lst:
                        lab.need_outputs(o)
                        lab.mon_once(ctx, o, baseline="--baseline=skip" not in extra)
                    ctx.count("shards_run")
                parts.append(got)
            allm = collections.Counter(x for p in parts for x in p)
            if allm != collections.Counter(full):
                dup = [k for k, v in allm.items() if v > 1]
                raise Violation(
                    "the %d shards are not a partition of the %d mutants: %d missing, %d duplicated, %d foreign" % (n, len(full), len(set(full) - set(allm)), len(dup), len(set(allm) - set(full))),
                    sizes=[len(p) for p in parts], base=base, tree=tree,
                )
            sz = [len(p) for p in parts]
            if max(sz) - min(sz) > 1:
                raise Violation("shard sizes differ by more than one: %s" % sz, base=base)
            for p in parts:
                it = iter(full)
                if not all(x in it for x in p):
                    raise Violation("a shard lists mutants in another order than the full list", base=base)
            for bad in {n, n + 1, n * 2, n + rng.randrange(1, 100)}:
                r = box.run(base + ["--list", "--shard", "%d/%d" % (bad, n)], ref={}, plan_extra=False).finish()
                if r.rc == 0:
                    raise Violation("--shard %d/%d, which is outside the partition, lists %d mutants" % (bad, n, r.stdout.count("\n")), run=r.brief())
            for bad in rng.sample(["0/%d.0", "0/%d/1", "0.0/%d", "/%d", "0/%d ", " 0/%d", "0,%d", "0x0/%d", "0/%dth", "0/-%d", "-0/%d", "0/%d,1/%d"], 2):
                bad = bad.replace("%d", str(n))
                r = box.run(base + ["--list", "--shard=" + bad], ref={}, plan_extra=False).finish()
                if r.rc == 0:
                    raise Violation("--shard=%s, which names no shard, lists %d mutants" % (bad, r.stdout.count("\n")), run=r.brief())
            ctx.count("evaluations")
            ctx.count("shards", n)
            ctx.saw("nontrivial", (len(full), n, c["kind"], c["opt"]))
        # the same assignment from elsewhere, with other options
        if full:
            n = c["ns"][-1]
            k = rng.randrange(n)
            a = base + ["--shard", "%d/%d" % (k, n)]
            want = [model.mid(m) for m in syn.listing(box, a)]
            for extra, kw in ((["--shuffle"], {}), (["--jobs", "4"], {}), ([], {"cwd": "/"}), (["--no-shuffle"], {"env": {"TZ": "Asia/Tokyo", "HOME": "/nonexistent"}})):
                if [model.mid(m) for m in syn.listing(box, a + extra, **kw)] != want:
                    raise Violation("the shard assignment depends on %s %s" % (extra, kw), base=base)
        ctx.sample({"case": c["name"], "mutants": len(full), "ns": c["ns"]})
