//! Scripted stand-in for `cargo`, started by the real cargo-mutants binary through `$CARGO`.
//!
//! It is both the environment (it decides how builds and tests behave, from a plan file) and
//! the monitor (it records, for every invocation, the tree it was started in compared with a
//! reference tree, its arguments, environment, process group, times, and the state of the
//! output directory).  Events are appended as one JSON line each to $VM_DIR/events.log.
//!
//! Queries (`locate-project`, `metadata`, `--version`) are passed to the real cargo.

use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, OpenOptionsExt};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::Duration;

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(clk: i32, t: *mut Timespec) -> i32;
    fn nanosleep(t: *const Timespec, r: *mut Timespec) -> i32;
    fn _exit(code: i32) -> !;
    fn getpgrp() -> i32;
    fn getppid() -> i32;
    fn getpid() -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn raise(sig: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}

fn now() -> i64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(1, &mut t) };
    t.s * 1_000_000_000 + t.n
}

static EVENT_FD: AtomicI32 = AtomicI32::new(-1);
/// What to do on a signal, besides noting it: exit with this code instead of dying, or wait first.
static TERM_EXIT: AtomicI32 = AtomicI32::new(-1);
static TERM_SLOW: AtomicI32 = AtomicI32::new(0);

/// Async-signal-safe: note that a signal arrived, then die of it.
extern "C" fn on_signal(sig: i32) {
    unsafe {
        let mut buf = [0u8; 160];
        let mut n = 0;
        let put = |s: &[u8], buf: &mut [u8; 160], n: &mut usize| {
            for b in s {
                buf[*n] = *b;
                *n += 1;
            }
        };
        let num = |mut v: i64, buf: &mut [u8; 160], n: &mut usize| {
            let mut d = [0u8; 24];
            let mut k = 0;
            if v == 0 {
                d[0] = b'0';
                k = 1;
            }
            while v > 0 {
                d[k] = b'0' + (v % 10) as u8;
                v /= 10;
                k += 1;
            }
            while k > 0 {
                k -= 1;
                buf[*n] = d[k];
                *n += 1;
            }
        };
        put(b"{\"ev\":\"signal\",\"pid\":", &mut buf, &mut n);
        num(getpid() as i64, &mut buf, &mut n);
        put(b",\"sig\":", &mut buf, &mut n);
        num(sig as i64, &mut buf, &mut n);
        put(b",\"t\":", &mut buf, &mut n);
        num(now(), &mut buf, &mut n);
        put(b"}\n", &mut buf, &mut n);
        write(EVENT_FD.load(Ordering::SeqCst), buf.as_ptr().cast(), n);
        let slow = TERM_SLOW.load(Ordering::SeqCst) as i64;
        if slow > 0 {
            let t = Timespec { s: slow / 1000, n: slow % 1000 * 1_000_000 };
            nanosleep(&t, std::ptr::null_mut());
        }
        let code = TERM_EXIT.load(Ordering::SeqCst);
        if code >= 0 {
            _exit(code);
        }
        signal(sig, 0);
        raise(sig);
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    (0..b.len() / 2).map(|i| v(b[2 * i]) << 4 | v(b[2 * i + 1])).collect()
}

fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Clone, PartialEq)]
struct Node {
    kind: char,
    mode: u32,
    data: Vec<u8>,
}

fn walk(root: &Path, rel: &Path, ignore: &[Vec<u8>], out: &mut BTreeMap<Vec<u8>, Node>) {
    let dir = root.join(rel);
    let Ok(rd) = fs::read_dir(&dir) else { return };
    for e in rd.flatten() {
        let r = rel.join(e.file_name());
        let rb = r.as_os_str().as_bytes().to_vec();
        if ignore.iter().any(|i| *i == rb) {
            continue;
        }
        let p = root.join(&r);
        let Ok(md) = fs::symlink_metadata(&p) else { continue };
        let ft = md.file_type();
        let mode = md.mode() & 0o7777;
        if ft.is_symlink() {
            let t = fs::read_link(&p).map(|t| t.as_os_str().as_bytes().to_vec()).unwrap_or_default();
            out.insert(rb, Node { kind: 'l', mode: 0, data: t });
        } else if ft.is_dir() {
            out.insert(rb, Node { kind: 'd', mode, data: vec![] });
            walk(root, &r, ignore, out);
        } else if ft.is_file() {
            let mut d = Vec::new();
            if let Ok(mut f) = fs::File::open(&p) {
                let _ = f.read_to_end(&mut d);
            }
            out.insert(rb, Node { kind: 'f', mode, data: d });
        } else {
            out.insert(rb, Node { kind: 'o', mode, data: vec![] });
        }
    }
}

fn node_json(path: &[u8], change: &str, n: Option<&Node>) -> String {
    match n {
        Some(n) => format!(
            "{{\"p\":\"{}\",\"c\":\"{}\",\"k\":\"{}\",\"m\":{},\"d\":\"{}\"}}",
            hex(path), change, n.kind, n.mode, hex(&n.data)
        ),
        None => format!("{{\"p\":\"{}\",\"c\":\"{}\"}}", hex(path), change),
    }
}

/// Differences of tree `a` from reference `r`.
fn diff(r: &BTreeMap<Vec<u8>, Node>, a: &BTreeMap<Vec<u8>, Node>) -> Vec<(Vec<u8>, &'static str, Option<Node>)> {
    let mut v = Vec::new();
    for (p, n) in a {
        match r.get(p) {
            None => v.push((p.clone(), "add", Some(n.clone()))),
            Some(o) if o.kind != n.kind || o.data != n.data => v.push((p.clone(), "mod", Some(n.clone()))),
            Some(o) if o.mode != n.mode => v.push((p.clone(), "mode", Some(n.clone()))),
            _ => {}
        }
    }
    for p in r.keys() {
        if !a.contains_key(p) {
            v.push((p.clone(), "del", None));
        }
    }
    v
}

fn fnv(seed: u64, parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

struct Log {
    f: fs::File,
}
impl Log {
    fn put(&mut self, mut s: String) {
        s.push('\n');
        let _ = self.f.write_all(s.as_bytes());
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}

fn main() {
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let t0 = now();
    let Some(vm) = std::env::var_os("VM_DIR").map(PathBuf::from) else {
        eprintln!("fakecargo: VM_DIR not set");
        std::process::exit(97);
    };
    let f = fs::OpenOptions::new()
        .append(true)
        .create(true)
        .mode(0o644)
        .open(vm.join("events.log"))
        .expect("open events.log");
    EVENT_FD.store(f.as_raw_fd(), Ordering::SeqCst);
    let mut log = Log { f };
    let pid = unsafe { getpid() };
    let ids = format!(
        "\"pid\":{},\"pgid\":{},\"ppid\":{},\"t\":{}",
        pid, unsafe { getpgrp() }, unsafe { getppid() }, t0
    );

    if args.len() > 2 && args[1] == "__gc" {
        // grandchild: part of the process group of the scripted cargo
        if args.len() > 3 && args[3] == "notify" {
            unsafe { signal(15, on_signal as *const () as usize); signal(2, on_signal as *const () as usize); }
        }
        if args.len() > 3 && args[3] == "ignore" {
            unsafe { signal(15, 1); signal(2, 1); signal(1, 1); }
        }
        log.put(format!("{{\"ev\":\"gc\",{ids}}}"));
        std::thread::sleep(Duration::from_millis(args[2].parse().unwrap_or(1000)));
        log.put(format!("{{\"ev\":\"gcend\",\"pid\":{pid},\"t\":{}}}", now()));
        return;
    }

    let cwd = std::env::current_dir().unwrap_or_default();
    let argv_json: Vec<String> = args.iter().map(|a| jstr(a)).collect();
    let sub = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if ["locate-project", "metadata", "--version", "-V", "version"].contains(&sub) {
        log.put(format!(
            "{{\"ev\":\"query\",{ids},\"argv\":[{}],\"cwd\":{}}}",
            argv_json.join(","), jstr(&cwd.to_string_lossy())
        ));
        let real = std::env::var_os("VM_REAL_CARGO").unwrap_or("cargo".into());
        let err = std::process::Command::new(real)
            .args(std::env::args_os().skip(1))
            .env_remove("VM_DIR")
            .exec();
        eprintln!("fakecargo: {err}");
        std::process::exit(98);
    }
    unsafe {
        signal(15, on_signal as *const () as usize);
        signal(2, on_signal as *const () as usize);
        signal(1, on_signal as *const () as usize);
    }
    let before_dd: Vec<&str> = args.iter().skip(1).take_while(|a| *a != "--").map(|s| s.as_str()).collect();
    let phase = if sub == "check" {
        "check"
    } else if (sub == "test" || sub == "nextest") && before_dd.contains(&"--no-run") {
        "build"
    } else if sub == "test" || sub == "nextest" {
        "test"
    } else {
        "other"
    };

    // read the plan
    let plan = fs::read_to_string(vm.join("plan")).unwrap_or_default();
    let mut ignore: Vec<Vec<u8>> = vec![b"mutants.out".to_vec(), b"mutants.out.old".to_vec()];
    let mut src: Option<PathBuf> = None;
    let mut outdir: Option<PathBuf> = None;
    let mut tmpdir: Option<PathBuf> = None;
    let mut dump = false;
    let mut wantenv = false;
    let mut nosnap = false;
    let mut rules: Vec<(String, String, String)> = Vec::new();
    for l in plan.lines() {
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        match w[0] {
            "ignore" => ignore.push(w[1].as_bytes().to_vec()),
            "src" => src = Some(PathBuf::from(&l[4..])),
            "outdir" => outdir = Some(PathBuf::from(&l[7..])),
            "tmpdir" => tmpdir = Some(PathBuf::from(&l[7..])),
            "dump" => dump = true,
            "env" => wantenv = true,
            "nosnap" => nosnap = true,
            "rule" if w.len() == 4 => rules.push((w[1].into(), w[2].into(), w[3].into())),
            _ => {}
        }
    }
    let mut r = BTreeMap::new();
    let mut a = BTreeMap::new();
    let mut d = Vec::new();
    if !nosnap {
        walk(&vm.join("ref"), Path::new(""), &[], &mut r);
        walk(&cwd, Path::new(""), &ignore, &mut a);
        d = diff(&r, &a);
    }
    let mutated = d.iter().any(|(_, c, n)| {
        *c == "mod" && n.as_ref().is_some_and(|n| contains(&n.data, b"changed by cargo-mutants"))
    });
    let mut parts: Vec<&[u8]> = vec![phase.as_bytes()];
    for (p, c, n) in &d {
        if *c == "mod" {
            parts.push(p);
            parts.push(&n.as_ref().unwrap().data);
        }
    }
    let mut actions = String::new();
    for (ph, m, act) in &rules {
        if ph != "*" && ph != phase {
            continue;
        }
        let hit = match m.as_str() {
            "*" => true,
            "base" => !mutated,
            "mut" => mutated,
            m => m.strip_prefix("has:").is_some_and(|h| {
                let h = unhex(h);
                d.iter().any(|(_, _, n)| n.as_ref().is_some_and(|n| contains(&n.data, &h)))
            }),
        };
        if hit {
            actions = act.clone();
            break;
        }
    }
    // weighted choice, a deterministic function of the content of the mutated tree
    if let Some(rest) = actions.strip_prefix("weights:") {
        let (seed, rest) = rest.split_once(':').unwrap_or(("0", rest));
        let opts: Vec<(u64, &str)> = rest
            .split('|')
            .filter_map(|o| o.split_once('@').map(|(w, a)| (w.parse().unwrap_or(1), a)))
            .collect();
        let total: u64 = opts.iter().map(|o| o.0).sum();
        let mut k = fnv(seed.parse().unwrap_or(0), &parts) % total.max(1);
        let mut chosen = "";
        for (w, a) in opts {
            if k < w {
                chosen = a;
                break;
            }
            k -= w;
        }
        actions = chosen.to_string();
    }
    let mut ev = format!(
        "{{\"ev\":\"start\",{ids},\"phase\":\"{phase}\",\"argv\":[{}],\"cwd\":{},\"actions\":{},\"diff\":[{}]",
        argv_json.join(","),
        jstr(&cwd.to_string_lossy()),
        jstr(&actions),
        d.iter().map(|(p, c, n)| node_json(p, c, n.as_ref())).collect::<Vec<_>>().join(",")
    );
    if let Some(s) = &src {
        let mut st = BTreeMap::new();
        walk(s, Path::new(""), &[b"mutants.out".to_vec(), b"mutants.out.old".to_vec()], &mut st);
        let mut rs = BTreeMap::new();
        let alt = vm.join("srcref");
        walk(if alt.is_dir() { &alt } else { Path::new("") }, Path::new(""), &[], &mut rs);
        let sd = if alt.is_dir() { diff(&rs, &st) } else { diff(&r, &st) };
        ev.push_str(&format!(
            ",\"srcdiff\":[{}]",
            sd.iter().map(|(p, c, n)| node_json(p, c, n.as_ref())).collect::<Vec<_>>().join(",")
        ));
    }
    if dump {
        ev.push_str(&format!(
            ",\"dump\":[{}]",
            a.iter().map(|(p, n)| node_json(p, "", Some(n))).collect::<Vec<_>>().join(",")
        ));
    }
    if let Some(o) = &outdir {
        let mut parts = Vec::new();
        for n in ["outcomes.json", "mutants.json", "lock.json", "caught.txt", "missed.txt", "timeout.txt", "unviable.txt", "previously_caught.txt"] {
            if let Ok(b) = fs::read(o.join(n)) {
                parts.push(format!("\"{n}\":\"{}\"", hex(&b)));
            }
        }
        // (others may have written while this was starting: the files are as of between the two times)
        ev.push_str(&format!(",\"out\":{{{}}},\"tout\":{}", parts.join(","), now()));
    }
    if let Some(t) = &tmpdir {
        let mut names: Vec<String> = fs::read_dir(t)
            .map(|rd| rd.flatten().map(|e| jstr(&e.file_name().to_string_lossy())).collect())
            .unwrap_or_default();
        names.sort();
        ev.push_str(&format!(",\"tmp\":[{}]", names.join(",")));
    }
    if wantenv {
        let e: Vec<String> = std::env::vars_os()
            .map(|(k, v)| format!("{}:{}", jstr(&k.to_string_lossy()), jstr(&v.to_string_lossy())))
            .collect();
        ev.push_str(&format!(",\"env\":{{{}}}", e.join(",")));
    }
    ev.push('}');
    log.put(ev);

    // which processes are active, for barriers
    let act_dir = vm.join("active");
    let _ = fs::create_dir_all(&act_dir);
    let me = act_dir.join(pid.to_string());
    let _ = fs::write(&me, b"");

    let mut code = 0;
    let mut sig = 0;
    for act in actions.split(';').filter(|a| !a.is_empty()) {
        let (k, v) = act.split_once('=').unwrap_or((act, ""));
        match k {
            "exit" => code = v.parse().unwrap_or(1),
            "sig" => sig = v.parse().unwrap_or(9),
            "sleep" => std::thread::sleep(Duration::from_millis(v.parse().unwrap_or(0))),
            "hang" => std::thread::sleep(Duration::from_secs(v.parse().unwrap_or(120))),
            "igterm" => unsafe {
                signal(15, 1);
            },
            "termexit" => TERM_EXIT.store(v.parse().unwrap_or(0), Ordering::SeqCst),
            "termslow" => TERM_SLOW.store(v.parse().unwrap_or(0), Ordering::SeqCst),
            "out" => {
                let _ = std::io::stdout().write_all(&unhex(v));
                let _ = std::io::stdout().flush();
            }
            "err" => {
                let _ = std::io::stderr().write_all(&unhex(v));
            }
            "tag" => {
                // a recognisable burst of output: <n> lines naming pid, alternating streams
                let n: usize = v.parse().unwrap_or(1);
                for i in 0..n {
                    let line = format!("TAG pid={pid} line={i} of={n} phase={phase}\n");
                    if i % 2 == 0 {
                        let _ = std::io::stdout().write_all(line.as_bytes());
                        let _ = std::io::stdout().flush();
                    } else {
                        let _ = std::io::stderr().write_all(line.as_bytes());
                    }
                }
            }
            "write" => {
                if let Some((p, h)) = v.split_once(':') {
                    let p = cwd.join(p);
                    if let Some(d) = p.parent() {
                        let _ = fs::create_dir_all(d);
                    }
                    let _ = fs::write(p, unhex(h));
                }
            }
            "touch" => {
                let _ = fs::write(v, b"");
            }
            "waitfile" => {
                let t = now();
                while !Path::new(v).exists() && now() - t < 60_000_000_000 {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
            "barrier" => {
                // wait until n invocations are active at once, at most ms
                let (n, ms) = v.split_once(':').unwrap_or((v, "2000"));
                let n: usize = n.parse().unwrap_or(1);
                let ms: i64 = ms.parse().unwrap_or(2000);
                let t = now();
                let mut seen = 0;
                while now() - t < ms * 1_000_000 {
                    let live = fs::read_dir(&act_dir)
                        .map(|r| r.flatten().filter(|e| Path::new("/proc").join(e.file_name()).exists()).count())
                        .unwrap_or(0);
                    seen = seen.max(live);
                    if seen >= n {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
                log.put(format!("{{\"ev\":\"barrier\",\"pid\":{pid},\"t\":{},\"want\":{n},\"seen\":{seen}}}", now()));
            }
            "gc" | "gcn" | "gci" => {
                let exe = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(exe)
                    .args(["__gc", v, match k { "gcn" => "notify", "gci" => "ignore", _ => "quiet" }])
                    .stdin(std::process::Stdio::null())
                    .spawn();
                std::thread::sleep(Duration::from_millis(20));
            }
            "jobserver" => {
                let (n, ta, tr) = probe_jobserver(v.parse().unwrap_or(50));
                log.put(format!("{{\"ev\":\"jobserver\",\"pid\":{pid},\"t\":{},\"tokens\":{n},\"ta\":{ta},\"tr\":{tr}}}", now()));
            }
            _ => {}
        }
    }
    let _ = fs::remove_file(&me);
    log.put(format!(
        "{{\"ev\":\"end\",\"pid\":{pid},\"t\":{},\"t0\":{t0},\"code\":{code},\"sig\":{sig}}}",
        now()
    ));
    if sig != 0 {
        unsafe {
            signal(sig, 0);
            kill(pid, sig);
        }
        std::thread::sleep(Duration::from_secs(5));
    }
    std::process::exit(code);
}

/// Take all tokens that can be had from the jobserver within `ms`, then give them back.
/// Returns their number, or -1 if no jobserver is offered, and when the last one was taken and
/// when they were given back.
fn probe_jobserver(ms: u64) -> (i64, i64, i64) {
    let Some(flags) = std::env::var_os("CARGO_MAKEFLAGS").or(std::env::var_os("MAKEFLAGS")) else { return (-1, 0, 0) };
    let flags = flags.to_string_lossy().into_owned();
    let mut fds = None;
    let mut fifo = None;
    for w in flags.split_whitespace() {
        if let Some(v) = w.strip_prefix("--jobserver-auth=").or(w.strip_prefix("--jobserver-fds=")) {
            if let Some(p) = v.strip_prefix("fifo:") {
                fifo = Some(p.to_string());
            } else if let Some((r, w)) = v.split_once(',') {
                fds = Some((r.parse::<i32>().unwrap_or(-1), w.parse::<i32>().unwrap_or(-1)));
            }
        }
    }
    let (rf, wf) = if let Some(p) = fifo {
        let Ok(f) = fs::OpenOptions::new().read(true).write(true).open(p) else { return (-2, 0, 0) };
        (f.try_clone().unwrap(), f)
    } else if let Some((r, w)) = fds {
        let o = |fd: i32, wr: bool| {
            fs::OpenOptions::new().read(!wr).write(wr).open(format!("/proc/self/fd/{fd}"))
        };
        match (o(r, false), o(w, true)) {
            (Ok(r), Ok(w)) => (r, w),
            _ => return (-2, 0, 0),
        }
    } else {
        return (-1, 0, 0);
    };
    unsafe {
        fcntl(rf.as_raw_fd(), 4, 0o4000); // F_SETFL, O_NONBLOCK (own open file description)
    }
    let mut got = Vec::new();
    let t = now();
    let mut ta = t;
    let mut rf = rf;
    while now() - t < ms as i64 * 1_000_000 {
        let mut b = [0u8; 1];
        match rf.read(&mut b) {
            Ok(1) => {
                got.push(b[0]);
                ta = now();
            }
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    }
    let mut wf = wf;
    let tr = now();
    let _ = wf.write_all(&got);
    (got.len() as i64, ta, tr)
}
