"""What a recorded run means: cargo invocations, scenarios, expected mutated files."""
import json
import os

MARK = " /* ~ changed by cargo-mutants ~ */"


def splice(text, span, repl):
    """text with the 1-based line/char-column span replaced (own implementation)."""
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(p):
        return off[p["line"] - 1] + p["column"] - 1

    a, b = pos(span["start"]), pos(span["end"])
    return text[:a] + repl + text[b:]


def extract(text, span):
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    a = off[span["start"]["line"] - 1] + span["start"]["column"] - 1
    b = off[span["end"]["line"] - 1] + span["end"]["column"] - 1
    return text[a:b]


def norm(b):
    return b.replace(b"\r\n", b"\n")


def mutant_key(m, srcsnap):
    """(file, bytes of the mutated file) for a mutant as in mutants.json."""
    text = norm(srcsnap[m["file"]][2]).decode("utf-8")
    return (m["file"], splice(text, m["span"], m["replacement"] + MARK).encode("utf-8"))


def mid(m):
    """Hashable identity of a mutant's JSON description."""
    return json.dumps(m, sort_keys=True)


class Inv:
    """One cargo build/test/check invocation as seen by the monitor."""

    def __init__(self, e):
        self.e = e
        self.pid, self.pgid, self.ppid = e["pid"], e["pgid"], e["ppid"]
        self.t, self.phase, self.argv, self.cwd, self.actions = e["t"], e["phase"], e["argv"], e["cwd"], e["actions"]
        self.diff = [(bytes.fromhex(d["p"]).decode("utf-8", "surrogateescape"), d["c"], d.get("k"), d.get("m"), bytes.fromhex(d.get("d", ""))) for d in e["diff"]]
        self.srcdiff = [(bytes.fromhex(d["p"]).decode("utf-8", "surrogateescape"), d["c"], d.get("k"), d.get("m"), bytes.fromhex(d.get("d", ""))) for d in e.get("srcdiff", [])]
        self.out = {k: bytes.fromhex(v) for k, v in e.get("out", {}).items()}
        self.tout = e.get("tout", self.t)  # when it had read the result files
        self.tmp = e.get("tmp")
        self.end = None
        self.code = None
        self.sig = None
        self.term = None
        self.extra = []

    @property
    def killed(self):
        return self.end is None

    def last(self, default=None):
        if self.end is not None:
            return self.end
        return self.term if self.term is not None else default

    def mutated_files(self, ignore=()):
        return [d for d in self.diff if d[0] not in ignore and b"changed by cargo-mutants" in d[4]]

    def key(self):
        """None for an unmutated tree, else (file, content) of the single changed file."""
        mods = [d for d in self.diff if d[1] == "mod"]
        if not mods:
            return None
        return tuple((d[0], norm(d[4])) for d in mods)

    def short(self):
        return "%s pid=%d cwd=%s diff=%s" % (self.phase, self.pid, os.path.basename(self.cwd), [(d[0], d[1]) for d in self.diff])


def invocations(events):
    """Invocations in order of start; pids are matched to the latest start."""
    invs, cur = [], {}
    for e in events:
        k = e["ev"]
        if k == "start":
            i = Inv(e)
            invs.append(i)
            cur[e["pid"]] = i
        elif k == "end" and e["pid"] in cur:
            cur[e["pid"]].end = e["t"]
            cur[e["pid"]].code = e["code"]
            cur[e["pid"]].sig = e["sig"]
        elif k == "signal" and e["pid"] in cur:
            cur[e["pid"]].term = e["t"]
            cur[e["pid"]].termsig = e["sig"]
        elif e.get("pid") in cur:
            cur[e["pid"]].extra.append(e)
    invs.sort(key=lambda i: i.t)
    return invs


class Scen:
    """Consecutive invocations in one directory with the same tree content."""

    def __init__(self, cwd, key):
        self.cwd, self.key, self.invs = cwd, key, []

    @property
    def phases(self):
        return [i.phase for i in self.invs]


def scenarios(invs, order=("build", "test")):
    """Group invocations into scenarios: per directory, a new scenario starts when the key
    changes or the phase does not come after the previous one."""
    rank = {"check": 0, "build": 1, "test": 2, "other": 3}
    out, cur = [], {}
    for i in invs:
        s = cur.get(i.cwd)
        k = i.key()
        if s is None or s.key != k or rank[i.phase] <= rank[s.invs[-1].phase] or s.invs[-1].killed or s.invs[-1].code != 0 or s.invs[-1].sig:
            s = Scen(i.cwd, k)
            cur[i.cwd] = s
            out.append(s)
        s.invs.append(i)
    return out


def expected_summary(scen, check_only=False):
    """Outcome that must be reported, from what the phases really did; None if unsettled."""
    last = scen.invs[-1]
    if last.killed:
        return "Timeout"
    if last.sig:
        return None
    if last.phase in ("check", "build"):
        if last.code != 0:
            return "Unviable"
        if last.phase == "check":
            return "Success"
        return None
    return "MissedMutant" if last.code == 0 else "CaughtMutant"
