"""Shared engine: builds the program under test and the monitors, runs the program on a
scratch tree with the scripted cargo, and collects everything that was observed."""
import atexit
import fcntl
import hashlib
import json
import os
import select
import shutil
import signal
import stat
import struct
import subprocess
import sys
import tempfile
import termios
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class HarnessError(Exception):
    """Something in the harness (not the program under test) went wrong."""


# ---------------------------------------------------------------- building


def _toolchain_bin():
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    p = os.path.join(home, "toolchains", TOOLCHAIN, "bin")
    if os.path.exists(os.path.join(p, "cargo")):
        return p
    c = shutil.which("cargo")
    if not c:
        raise HarnessError("no cargo")
    return os.path.dirname(c)


TCBIN = _toolchain_bin()


def build_env():
    e = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("CARGO_", "RUST", "INSTA", "VM_")) and k not in ("CARGO", "MAKEFLAGS")
    }
    e["PATH"] = TCBIN + ":/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        RUSTC_WRAPPER="",
    )
    return e


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"missing")
    return h.hexdigest()


def repo_sources():
    out = []
    for root in ("src", "mutants_attrs"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            out += [os.path.join(d, f) for f in sorted(files)]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        out.append(os.path.join(REPO, f))
    return out


def build():
    """Build cargo-mutants from REPO's working tree, and the monitors.  Returns a dict of paths."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fake, pre = os.path.join(WORK, "fakecargo"), os.path.join(WORK, "preload.so")
        nat = os.path.join(VERIF, "native")
        nsrc = [os.path.join(nat, "fakecargo.rs"), os.path.join(nat, "preload.c")]
        stamp = os.path.join(WORK, "native.stamp")
        h = _hash_files(nsrc)
        if not (os.path.exists(fake) and os.path.exists(pre) and os.path.exists(stamp) and open(stamp).read() == h):
            for cmd in (
                [os.path.join(TCBIN, "rustc"), "--edition", "2021", "-O", "-A", "warnings", "-o", fake, nsrc[0]],
                ["gcc", "-shared", "-fPIC", "-O2", "-w", "-o", pre, nsrc[1], "-ldl", "-lpthread"],
            ):
                r = subprocess.run(cmd, env=build_env(), capture_output=True, text=True)
                if r.returncode:
                    raise HarnessError("building monitors failed: %s\n%s" % (cmd, r.stderr[-3000:]))
            open(stamp, "w").write(h)
        target = os.path.join(WORK, "target")
        binp = os.path.join(target, "debug", "cargo-mutants")
        stamp = os.path.join(WORK, "repo.stamp")
        h = _hash_files(repo_sources()) + REPO
        if not (os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h):
            # Never trust file times: make cargo look at the crate again.
            fp = os.path.join(target, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("cargo-mutants-", "mutants-")):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            e = build_env()
            e["CARGO_TARGET_DIR"] = target
            cmd = ["cargo", "build", "--locked", "--offline", "--bin", "cargo-mutants", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=REPO)
            if r.returncode:
                shutil.rmtree(os.path.join(target, "debug", "incremental"), ignore_errors=True)
                r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=REPO)
            if r.returncode:
                raise HarnessError("cargo build failed:\n" + r.stderr[-4000:])
            open(stamp, "w").write(h)
        # a private name for this run, so that a later rebuild does not change it under us
        priv = os.path.join(scratch_root(), "cargo-mutants")
        try:
            os.link(binp, priv)
        except OSError:
            shutil.copy2(binp, priv)
        return {"bin": priv, "fake": fake, "pre": pre}


# ---------------------------------------------------------------- scratch space

_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        _scratch = tempfile.mkdtemp(prefix="vmon-", dir=base)
        atexit.register(cleanup)
    return _scratch


def _rmtree(p):
    def onerr(fn, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            fn(path)
        except OSError:
            pass

    shutil.rmtree(p, onerror=onerr)


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and "vmon-" in _scratch and not os.environ.get("VERIF_KEEP"):
        _rmtree(_scratch)
    _scratch = None


# ---------------------------------------------------------------- trees


def write_tree(root, tree):
    """tree: {path: str|bytes|{"link": target}|{"dir":mode}|{"data":..., "mode":...}}"""
    os.makedirs(root, exist_ok=True)
    later = []
    for p, v in tree.items():
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if isinstance(v, dict) and "link" in v:
            os.symlink(v["link"].replace("@ROOT@", root), full)
        elif isinstance(v, dict) and "dir" in v:
            os.makedirs(full, exist_ok=True)
            later.append((full, v["dir"]))
        else:
            mode = 0o644
            data = v
            if isinstance(v, dict):
                mode = v.get("mode", 0o644)
                data = bytes.fromhex(v["hex"]) if "hex" in v else v["data"]
            if isinstance(data, str):
                data = data.encode()
            with open(full, "wb") as f:
                f.write(data)
            os.chmod(full, mode)
    for full, mode in later:
        os.chmod(full, mode)


def snapshot(root, ignore=("mutants.out", "mutants.out.old")):
    """{relative path: (kind, mode, data)}; `ignore` names relative paths left out."""
    out = {}

    def go(rel):
        d = os.path.join(root, rel) if rel else root
        try:
            names = sorted(os.listdir(d))
        except OSError:
            return
        for n in names:
            r = os.path.join(rel, n) if rel else n
            if r in ignore:
                continue
            p = os.path.join(root, r)
            try:
                st = os.lstat(p)
                m = stat.S_IMODE(st.st_mode)
                if stat.S_ISLNK(st.st_mode):
                    out[r] = ("l", 0, os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    out[r] = ("d", m, None)
                    go(r)
                elif stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as f:
                        out[r] = ("f", m, f.read())
                else:
                    out[r] = ("o", m, None)
            except FileNotFoundError:
                continue

    go("")
    return out


def snap_diff(a, b):
    """List of differences between two snapshots."""
    out = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            if p not in a:
                out.append((p, "added"))
            elif p not in b:
                out.append((p, "deleted"))
            elif a[p][2] != b[p][2] or a[p][0] != b[p][0]:
                out.append((p, "content"))
            else:
                out.append((p, "mode %o->%o" % (a[p][1], b[p][1])))
    return out


def copy_tree_exact(src, dst, ignore=("mutants.out", "mutants.out.old")):
    write_snapshot(dst, snapshot(src, ignore))


def write_snapshot(dst, snap):
    os.makedirs(dst, exist_ok=True)
    dirs = []
    for p, (k, m, d) in snap.items():
        full = os.path.join(dst, p)
        if k == "d":
            os.makedirs(full, exist_ok=True)
            dirs.append((full, m))
        elif k == "l":
            os.symlink(d, full)
        elif k == "f":
            with open(full, "wb") as f:
                f.write(d)
            os.chmod(full, m)
    for full, m in reversed(dirs):
        os.chmod(full, m)


# ---------------------------------------------------------------- running


def tohex(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


class Box:
    """One scratch area: src/ tree, tmp/ (TMPDIR), home/, and per-run monitor dirs."""

    def __init__(self, bins, tree=None, src_name="src"):
        self.bins = bins
        self.dir = tempfile.mkdtemp(prefix="b-", dir=scratch_root())
        self.src = os.path.join(self.dir, src_name)
        self.tmp = os.path.join(self.dir, "tmp")
        self.home = os.path.join(self.dir, "home")
        for d in (self.tmp, self.home):
            os.makedirs(d)
        self.n = 0
        if tree is not None:
            write_tree(self.src, tree)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            _rmtree(self.dir)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def env(self, extra=None):
        e = {
            "PATH": TCBIN + ":/usr/local/bin:/usr/bin:/bin",
            "HOME": self.home,
            "CARGO_HOME": os.path.join(self.home, ".cargo"),
            "TMPDIR": self.tmp,
            "LANG": "C.UTF-8",
            "CARGO": self.bins["fake"],
            "VM_REAL_CARGO": os.path.join(TCBIN, "cargo"),
            "CARGO_NET_OFFLINE": "true",
            "CARGO_TERM_COLOR": "never",
            "RUSTC": os.path.join(TCBIN, "rustc"),
        }
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        return e

    def start(self, args, plan=(), env=None, cwd=None, ref=None, srcref=None, pre=None, sleepcap=2000, dir_arg=True, src=None, plan_extra=True, streams=None):
        """Start the program.  Returns a Run (running).  streams: {"stdout"|"stderr": "tty"|"ttyxROWSxCOLS"|"pipe"}."""
        self.n += 1
        vm = os.path.join(self.dir, "vm%d" % self.n)
        os.makedirs(vm)
        src = src or self.src
        lines = []
        if plan_extra:
            lines += ["outdir " + os.path.join(src, "mutants.out"), "tmpdir " + self.tmp, "src " + src]
        lines += list(plan)
        with open(os.path.join(vm, "plan"), "w") as f:
            f.write("\n".join(lines) + "\n")
        if ref is None:
            copy_tree_exact(src, os.path.join(vm, "ref"))
        elif ref:
            write_snapshot(os.path.join(vm, "ref"), ref)
        if srcref is not None:
            write_snapshot(os.path.join(vm, "srcref"), srcref)
        e = self.env(env)
        e["VM_DIR"] = vm
        prelog = None
        if pre is not None or sleepcap:
            e["LD_PRELOAD"] = self.bins["pre"]
            if sleepcap:
                e["VM_PRE_SLEEPCAP"] = str(sleepcap)
            if pre is not None:
                prelog = os.path.join(vm, "pre.log")
                e["VM_PRE_LOG"] = prelog
                for k in ("fault", "delay", "clock"):
                    if pre.get(k):
                        e["VM_PRE_" + k.upper()] = str(pre[k])
        argv = [self.bins["bin"], "mutants"]
        if dir_arg:
            argv += ["--dir", src]
        argv += list(args)
        so, se = open(os.path.join(vm, "stdout"), "wb"), open(os.path.join(vm, "stderr"), "wb")
        ends = {"stdout": so, "stderr": se}
        readers = []
        for n, kind in (streams or {}).items():
            m, s = os.pipe() if kind == "pipe" else terminal(*(int(x) for x in kind.split("x")[1:]))
            f, ends[n] = ends[n], os.fdopen(s, "wb", 0)
            readers.append((m, f))
        t = time.monotonic_ns()
        p = subprocess.Popen(argv, env=e, cwd=cwd or self.dir, stdin=subprocess.DEVNULL, stdout=ends["stdout"], stderr=ends["stderr"], start_new_session=True)
        for f in ends.values():
            f.close()
        run = Run(self, p, vm, argv, t, prelog, src)
        for m, f in readers:
            th = threading.Thread(target=_drain, args=(m, f, run.gone), daemon=True)
            th.start()
            run.readers.append(th)
        return run

    def run(self, args, timeout=60, **kw):
        return self.start(args, **kw).wait(timeout)


def terminal(rows=50, cols=160):
    """A new pseudo terminal that passes bytes unchanged: (master, slave)."""
    m, s = os.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, a)
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    return m, s


def _drain(fd, f, gone):
    """Copy what arrives at a terminal or pipe to a file, until it ends or is abandoned."""
    while not gone.is_set():
        try:
            if not select.select([fd], [], [], 0.02)[0]:
                continue
            b = os.read(fd, 65536)
        except OSError:
            break
        if not b:
            break
        f.write(b)
        f.flush()
    os.close(fd)
    f.close()


def _alive_in_session(sid):
    """pids (not zombies) whose session is sid."""
    out = []
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n) as f:
                    s = f.read()
            except OSError:
                continue
            f = s[s.rindex(")") + 2 :].split()
            if f[0] != "Z" and int(f[3]) == sid:
                out.append(int(n))
    return out


class Run:
    def __init__(self, box, p, vm, argv, t0, prelog, src):
        self.box, self.p, self.vm, self.argv, self.t0, self.prelog, self.src = box, p, vm, argv, t0, prelog, src
        self.rc = None
        self.hung = False
        self.left = []
        self._events = None
        self.readers = []
        self.gone = threading.Event()

    def hangup(self):
        """Nobody reads the program's terminals and pipes any more."""
        self.gone.set()
        for t in self.readers:
            t.join(5)

    def signal(self, sig):
        try:
            os.kill(self.p.pid, sig)
        except ProcessLookupError:
            pass

    def wait(self, timeout=60):
        try:
            self.rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.hung = True
        self.t1 = time.monotonic_ns()
        # processes still alive in the session the program was started in
        self.left = [x for x in _alive_in_session(self.p.pid) if x != self.p.pid or self.hung]
        self.left_names = {}
        self.left_pgid = {}
        for x in self.left:
            try:
                self.left_pgid[x] = os.getpgid(x)
            except OSError:
                pass
            try:
                self.left_names[x] = open("/proc/%d/cmdline" % x, "rb").read().replace(b"\0", b" ").decode("utf-8", "replace").strip()
            except OSError:
                pass
        return self

    def wait_event(self, pred, timeout=20):
        """Wait until some event satisfies pred; returns it or None."""
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            for e in self.read_events():
                if pred(e):
                    return e
            if self.p.poll() is not None:
                for e in self.read_events():
                    if pred(e):
                        return e
                return None
            time.sleep(0.003)
        return None

    def kill_all(self):
        for x in _alive_in_session(self.p.pid):
            try:
                os.kill(x, signal.SIGKILL)
            except OSError:
                pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def finish(self):
        """End all processes of the run that remain."""
        if self.p.poll() is None or self.left:
            self.kill_all()
        for t in self.readers:
            t.join(5)
        return self

    def read_events(self):
        out = []
        try:
            with open(os.path.join(self.vm, "events.log"), "rb") as f:
                data = f.read()
        except FileNotFoundError:
            return out
        for l in data.split(b"\n")[:-1]:
            try:
                out.append(json.loads(l))
            except ValueError:
                raise HarnessError("bad event line %r" % l[:200])
        return out

    @property
    def events(self):
        if self._events is None:
            self._events = self.read_events()
        return self._events

    @property
    def stdout(self):
        return open(os.path.join(self.vm, "stdout"), "rb").read().decode("utf-8", "replace")

    @property
    def stderr(self):
        return open(os.path.join(self.vm, "stderr"), "rb").read().decode("utf-8", "replace")

    def prelines(self):
        out = []
        if self.prelog and os.path.exists(self.prelog):
            for l in open(self.prelog, "rb").read().decode("utf-8", "replace").split("\n"):
                w = l.split("\t")
                if len(w) == 5:
                    out.append((w[0], w[1], int(w[2]), int(w[3]), int(w[4])))
        return out

    @property
    def panicked(self):
        return "panicked at" in self.stderr or self.rc == 101

    def out(self, name, src=None):
        p = os.path.join(src or self.src, "mutants.out", name)
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def out_json(self, name, src=None):
        b = self.out(name, src)
        return None if b is None else json.loads(b)

    def brief(self):
        return {"argv": self.argv[1:], "rc": self.rc, "hung": self.hung, "stderr": self.stderr[-1500:], "stdout": self.stdout[-1500:]}


# ---------------------------------------------------------------- framework of one check


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Ctx:
    def __init__(self, pid, tier, seed, bins):
        self.pid, self.tier, self.seed, self.bins = pid, tier, seed, bins
        self.lock = threading.Lock()
        self.counts = {}
        self.seen = {}
        self.samples = []
        self.inconclusive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def box(self, tree=None, **kw):
        return Box(self.bins, tree, **kw)

    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def saw(self, kind, value):
        """Record a distinct thing that a monitor really observed."""
        with self.lock:
            self.seen.setdefault(kind, set()).add(value if isinstance(value, (str, int, tuple)) else json.dumps(value, sort_keys=True))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def skip(self, why):
        with self.lock:
            self.inconclusive.append(why)
