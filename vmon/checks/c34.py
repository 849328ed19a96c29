"""C34: the console tells the same story as the result files."""
import collections
import os
import re
import time

from .. import core, lab, model, proj
from ..core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: everything printed, to files and to pseudo terminals, is parsed and accounted for against the recorded outcomes, logs and times"
RULE = "one evaluation is one run whose console output was accounted for to the last byte; non-trivial elements are distinct (options, colours, terminal, outcome kinds printed and held back, baseline result)"
ASSUMPTIONS = ["only standard output, and the progress counters on a terminal, are judged; messages of the log on standard error are not, except that they hold no colour codes when colours are off"]

ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")
WORD = {"CaughtMutant": "caught", "MissedMutant": "MISSED", "Timeout": "TIMEOUT", "Unviable": "unviable", "Success": "ok", "Failure": "FAILED"}


def cases(rng, tier):
    out = []
    n = 90 if tier == "quick" else 700
    for k in range(n):
        out.append({
            "name": "run%d" % k, "kind": "run", "jobs": [1, 2, 4, 8][k % 4], "nmut": rng.choice([1, 2, 5, 9, 16]), "caught": rng.random() < 0.4, "unviable": rng.random() < 0.4, "times": rng.random() < 0.6, "all_logs": rng.random() < 0.3,
            "check": rng.random() < 0.15, "base": rng.choice(["exit=0"] * 6 + ["skip", "skip", "exit=1", "hang", "build"]), "hang": rng.choice([0, 0, 0, 1]), "colors": rng.choice(["auto", "never", "always", "NO_COLOR", "CLICOLOR_FORCE", "cargo-always", "no-but-always"]),
            "streams": rng.choice([None, None, None, "both", "both", "err", "out"]), "raw": rng.random() < 0.4, "tag": rng.choice([0, 1, 30]), "shard": rng.random() < 0.2, "level": rng.choice([None, None, "debug", "error"]),
        })
    for k, st in enumerate([None, "err", "out", "both"] * (1 if tier == "quick" else 4)):
        out.append({"name": "color%d" % k, "kind": "run", "jobs": 2, "nmut": 7, "caught": True, "unviable": True, "times": True, "all_logs": False, "check": False, "base": "exit=0", "hang": 0, "colors": ["auto", "auto", "auto", "always"][k % 4], "streams": st, "raw": False, "tag": 0, "shard": False, "level": None})
    for k in range(6 if tier == "quick" else 60):
        out.append({"name": "live%d" % k, "kind": "live", "jobs": 1, "nmut": 7, "caught": k % 2 == 0, "unviable": k % 3 == 0, "times": True, "all_logs": k % 3 == 1, "check": False, "base": "exit=0", "hang": 0, "colors": "never", "streams": None, "raw": False, "tag": 0, "shard": False, "level": None})
    for k in range(16 if tier == "quick" else 160):
        out.append({"name": "size%d" % k, "kind": "run", "size": True, "jobs": [1, 3][k % 2], "nmut": 6, "caught": k % 2 == 0, "unviable": k % 3 == 0, "times": True, "all_logs": False, "check": False, "base": "exit=0", "hang": 0, "colors": ["auto", "auto", "never", "always"][k % 4], "streams": ["err", "both"][k % 3 == 2], "raw": False, "tag": 0, "shard": False, "level": None})
    for k in range(3):
        out.append({"name": "none%d" % k, "kind": "none", "jobs": 1, "nmut": 3, "caught": False, "unviable": False, "times": k == 0, "all_logs": False, "check": False, "base": "exit=0", "hang": 0, "colors": "auto", "streams": None, "raw": False, "tag": 0, "shard": False, "level": None})
    return out


def secs_ok(shown, real):
    return abs(float(shown) - real) <= 0.0501


def run(ctx, c, rng):
    tree = proj.pkg(rng, c["nmut"], rng.choice([1, 2]))
    if c["nmut"] >= 5 and rng.random() < 0.5:
        tree["src/lib.rs"] += "\npub fn r#try(a: i8) -> bool {\n    a %s b()\n}\n" % rng.choice(["<", "==", "&&"])
    seed = rng.randrange(1 << 30)
    base = c["base"] if c["base"] not in ("skip", "build") else "exit=0"
    plan = lab.plan_mix(rng, seed, hang=c["hang"], bhang=c["hang"] if rng.random() < 0.3 else 0, tag=c["tag"], base=base, sleeps=(0, 5, 60, 160))
    if c["base"] == "build":
        plan = ["rule * base exit=101"] + plan
    raw = b""
    if c["raw"]:
        # cargo may print anything, even what looks like a report
        raw = rng.choice([b"MISSED   src/lib.rs:1:1: replace f with ()\nok       Unmutated baseline\n", b"\xff\xfe\xc3\x28 half", "é🦀\r\nx\r".encode(), b"3 mutants tested: 3 missed\n", b"\n\n\n", b"Found 7 mutants to test\n\x00"])
        plan = [p.replace("exit=", "out=%s;exit=" % raw.hex()) for p in plan]
    args = ["--in-place"] if rng.random() < 0.15 else ["--jobs", str(c["jobs"])]
    args += ["--timeout", "1.2", "--build-timeout", "1.2"]
    args += [rng.choice(["--caught", "-v"])] if c["caught"] else []
    args += [rng.choice(["--unviable", "-V"])] if c["unviable"] else []
    args += [] if c["times"] else ["--no-times"]
    args += ["--all-logs"] if c["all_logs"] else []
    args += ["--check"] if c["check"] else []
    args += ["--baseline=skip"] if c["base"] == "skip" else []
    args += ["--shard", "0/2"] if c["shard"] and c["nmut"] > 2 else []
    args += ["--level=" + c["level"]] if c["level"] else []
    args += rng.choice([[], ["--shuffle"], ["--line-col=false"], ["--no-shuffle"]])
    args += ["--re", "matches nothing"] if c["kind"] == "none" else []
    env = {"TERM": "xterm-256color", "CARGO_TERM_COLOR": None}
    expect = {"never": False, "always": True, "NO_COLOR": False, "CLICOLOR_FORCE": True, "cargo-always": True, "no-but-always": False}.get(c["colors"])
    if c["colors"] in ("never", "always"):
        args.append("--colors=" + c["colors"])
    elif c["colors"] == "no-but-always":
        args.append("--colors=always")
        env["NO_COLOR"] = "1"
    elif c["colors"] == "cargo-always":
        env["CARGO_TERM_COLOR"] = "always"
    elif c["colors"] in ("NO_COLOR", "CLICOLOR_FORCE"):
        env[c["colors"]] = "1"
    tty = "tty"
    if c.get("size"):
        tty = "ttyx%dx%d" % (rng.choice([1, 2, 5, 24, 0]), rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 12, 19, 20, 39, 79, 300]))
        # what cargo prints is shown in the progress bar, cut to the width of the terminal
        odd = ["\u00e9" * 200, "\U0001f980" * 60, "a\u0301" * 90, "\x1b[1m\x1b[32m   Compiling\x1b[0m foo v0.1.0", "\x1b[", "x" * 20000, "\t\t\t", "\u200b\u200d" * 30, "\u3042" * 40, "\x1b]0;title\x07", "\r\r\rprogress 10%\r", "\x1b[31", "\u0000\u0001"]
        hexes = [(rng.choice(odd) + rng.choice(["", "\n"])).encode().hex() for _ in range(20)]
        say = lambda m: "%sout=%s;sleep=%d;" % (m[0] if m[0] == "@" else "", rng.choice(hexes), rng.choice([30, 130]))
        plan = [re.sub("@", say, p) if "weights" in p else re.sub("(?=exit=)", say, p) for p in plan]
    streams = {"both": {"stdout": tty, "stderr": tty}, "err": {"stderr": tty}, "out": {"stdout": tty}, None: None}[c["streams"]]
    if expect is None and not (streams and "stdout" in streams):
        expect = False
    snaps = []

    def started(r):
        seen = 0
        while r.p.poll() is None:
            n = sum(1 for e in r.read_events() if e["ev"] == "start" and e["phase"] == "build")
            if n > seen:
                snaps.append((n, r.stdout))
                seen = n
            time.sleep(0.004)

    with ctx.box(tree) as box:
        o = lab.run_lab(box, args, plan, want_list=False, started=started if c["kind"] == "live" else None, env=env, streams=streams)
        lab.no_hang(o)
        if c["kind"] == "none":
            o.outcomes = {"outcomes": []}
        else:
            lab.need_outputs(o)
        names = {model.mid(m): n for m, n in lab.list_names(box, ["--check"] if c["check"] else [])}
        out = o.run.stdout
        err = o.run.stderr
        if expect is False and "\x1b" in out:
            raise Violation("colour codes are printed although colours are off", run=o.run.brief())
        if expect is False and c["streams"] not in ("both", "err") and "\x1b" in err:
            raise Violation("colour codes are printed to standard error although colours are off", run=o.run.brief())
        if expect is True and "\x1b" not in out and any(x["summary"] != "CaughtMutant" for x in o.outcomes["outcomes"]) and c["kind"] != "none" and (c["base"] != "skip" or c["caught"]):
            raise Violation("no colours although they are forced on", run=o.run.brief())
        plain = ANSI.sub("", out)
        if expect or expect is None and streams and "stdout" in streams:
            for l in out.splitlines():
                p = ANSI.sub("", l)
                if c["kind"] == "run" and not c["raw"] and re.match(r"(caught|MISSED|TIMEOUT|unviable|FAILED|ok) ", p):
                    if not l.startswith("\x1b") or c["times"] and not re.search(r"\x1b\[[0-9;]*m\d+\.\ds", l):
                        raise Violation("colours are on, but this line is not coloured: %r" % l, run=o.run.brief())
                    ctx.count("coloured_lines")
        shown, hidden = [], 0
        for x in o.outcomes["outcomes"]:
            s = x["summary"]
            if s == "CaughtMutant" and not c["caught"] or s == "Unviable" and not c["unviable"]:
                hidden += 1
                continue
            isb = x["scenario"] == "Baseline"
            logs = c["all_logs"] or isb and s != "Success"
            text = None
            if logs:
                text = open(os.path.join(o.src, "mutants.out", x["log_path"]), "rb").read().decode("utf-8", "replace")
            shown.append({"word": WORD[s], "name": "Unmutated baseline" if isb else names[model.mid(x["scenario"]["Mutant"])], "log": text, "x": x})
        account(ctx, c, o, plain, shown)
        for n, text in snaps:
            # before the build of the n-th scenario starts, those before it have been reported
            need = [s for s in shown if o.outcomes["outcomes"].index(s["x"]) < n - 1]
            for s in need:
                if not any(l.startswith(s["word"]) and s["name"] in l for l in text.splitlines()):
                    raise Violation("the outcome of %r was not on the console when the next mutant was started" % s["name"], printed=text[-800:], run=o.run.brief())
                ctx.count("live_lines")
        if streams and "stderr" in streams and not c.get("size"):
            frames(ctx, c, o, ANSI.sub("", err))
        kinds = frozenset(s["word"] for s in shown)
        ctx.saw("nontrivial", (c["kind"], c["caught"], c["unviable"], c["times"], c["all_logs"], c["colors"], c["streams"] or "", c["base"], " ".join(sorted(kinds)), hidden > 0))
        ctx.count("lines_shown", len(shown))
        ctx.count("lines_held_back", hidden)
        ctx.sample({"case": c["name"], "shown": len(shown), "held_back": hidden, "bytes": len(out)})


HEAD = re.compile(r"(\S+) +(.*)")


def account(ctx, c, o, text, shown):
    """All of the printed text is one announcement, the blocks to be shown, and a summary."""
    n = len(o.mutants or [])
    first = "Found %d mutant%s to test\n" % (n, "" if n == 1 else "s")
    if not text.startswith(first):
        raise Violation("the console does not announce the %d mutants selected: %r" % (n, text[:80]), run=o.run.brief())
    pos = len(first)
    todo = list(shown)
    base_bad = any(s["name"] == "Unmutated baseline" and s["word"] != "ok" for s in shown)
    order = []
    while todo:
        eol = text.find("\n", pos)
        if eol < 0:
            raise Violation("%d outcomes are not on the console, such as %r" % (len(todo), todo[0]["name"]), printed=text[-600:], run=o.run.brief())
        line = text[pos:eol]
        found = None
        for s in todo:
            m = HEAD.match(line)
            if not m or m[1] != s["word"] or not m[2].startswith(s["name"]):
                continue
            rest = m[2][len(s["name"]):]
            if c["times"]:
                t = re.fullmatch(r" in ((?:\d+\.\d+s \w+(?: \+ )?)+)", rest)
                if not t:
                    continue
                parts = [p.split(" ") for p in t[1].split(" + ")]
                real = s["x"]["phase_results"]
                if [p[1] for p in parts] != [r["phase"].lower() for r in real]:
                    continue
                if not all(secs_ok(p[0][:-1], r["duration"]) for p, r in zip(parts, real)):
                    if len([z for z in todo if z["name"] == s["name"]]) == 1:
                        raise Violation("the times printed differ from the recorded ones: %r" % line, outcome=s["x"], run=o.run.brief())
                    continue
            elif rest:
                continue
            if s["log"] is not None:
                if text[eol + 1 : eol + 1 + len(s["log"]) + 1] != s["log"] + "\n":
                    raise Violation("the line for %r is not followed by its log" % s["name"], got=text[eol + 1 : eol + 300], log=s["log"][:300], run=o.run.brief())
                ctx.count("logs_shown")
            found = s
            break
        if found is None:
            raise Violation("an unexpected line on the console: %r; to be shown yet: %s" % (line, [(s["word"], s["name"]) for s in todo[:3]]), run=o.run.brief())
        order.append(found)
        todo.remove(found)
        pos = eol + 1 + (len(found["log"]) + 1 if found["log"] is not None else 0)
    if c["jobs"] == 1 and [id(s) for s in order] != [id(s) for s in shown]:
        raise Violation("outcomes are printed in another order than they were recorded", run=o.run.brief())
    if order and any(s["name"] == "Unmutated baseline" for s in order[1:]):
        raise Violation("the baseline is not reported first", run=o.run.brief())
    rest = text[pos:]
    if base_bad or c["kind"] == "none":
        if rest.strip():
            raise Violation("unexpected text at the end: %r" % rest[:300], run=o.run.brief())
        return
    t = o.outcomes
    m = re.fullmatch(r"(\d+) mutants? tested( in [^:]+)?: (.*)\n", rest)
    if not m:
        raise Violation("no summary at the end, or more than that: %r" % rest[:300], run=o.run.brief())
    want = [(k, t[f]) for k, f in (("missed", "missed"), ("caught", "caught"), ("unviable", "unviable"), ("timeouts", "timeout"), ("succeeded", "success")) if t[f]]
    got = [(w, int(v)) for v, w in re.findall(r"(\d+) (\w+)", m[3])]
    got = [("timeouts" if w == "timeout" else w, v) for w, v in got]
    if int(m[1]) != t["total_mutants"] or sorted(got) != sorted(want) or bool(m[2]) != c["times"]:
        raise Violation("the summary %r does not agree with the outcomes %s" % (rest, want), run=o.run.brief())
    if c["times"]:
        u = {"h": 3600, "m": 60, "s": 1}
        total = sum(int(v) * u[k] for v, k in re.findall(r"(\d+)(h|m|s)\b", m[2]))
        real = (o.run.t1 - o.run.t0) / 1e9
        inner = sum(r["duration"] for x in t["outcomes"] for r in x["phase_results"]) / max(c["jobs"], 1)
        if total > real + 1 or total < inner - 2:
            raise Violation("the summary says%s for a run that took %.1f s" % (m[2], real), run=o.run.brief())
    ctx.count("summaries")


FRAME = re.compile(r"(\d+)/(\d+) mutants tested((?:, \d+ (?:MISSED|timeout|caught|unviable))*), ")


def frames(ctx, c, o, err):
    """Each progress line drawn on the terminal is a true intermediate state."""
    n = len(o.mutants or [])
    fin = o.outcomes
    last = (0, {})
    for m in FRAME.finditer(err):
        done, tot = int(m[1]), int(m[2])
        parts = {w: int(v) for v, w in re.findall(r"(\d+) (MISSED|timeout|caught|unviable)", m[3])}
        if any(x["scenario"] == "Baseline" and x["summary"] == "Timeout" for x in fin["outcomes"]):
            parts.pop("timeout", None)
        if tot != n or done > n:
            raise Violation("the progress line says %r of %d mutants" % (m[0], n), run=o.run.brief())
        if done < last[0] or any(parts.get(k, 0) < v for k, v in last[1].items()):
            raise Violation("the progress line goes back: %r" % m[0], run=o.run.brief())
        if not c["check"] and sum(parts.values()) != done:
            raise Violation("the progress line does not add up: %r" % m[0], run=o.run.brief())
        if parts.get("MISSED", 0) > fin["missed"] or parts.get("caught", 0) > fin["caught"] or parts.get("unviable", 0) > fin["unviable"] or parts.get("timeout", 0) > fin["timeout"]:
            raise Violation("the progress line counts more than there is in the end: %r" % m[0], run=o.run.brief())
        last = (done, parts)
        ctx.count("progress_frames")
        ctx.saw("frames", (done, tot, m[3]))
