//! C26: process metrics report the true state of the chosen process. Children of this check go
//! through random histories (descriptors, limits, memory, threads, CPU use, names, exit); every
//! export is compared with an independent reading of /proc right before and right after it.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::BufferedTextEncoder;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use vh::report::{catch, run};
use vh::{prom, Ctx, Report, Rng};

// ---------------------------------------------------------------- the child

fn child() -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut fds: Vec<i32> = vec![];
    let mut held: Vec<Vec<u8>> = vec![];
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut threads: Vec<std::thread::JoinHandle<()>> = vec![];
    let mut ack = std::fs::File::from(unsafe { <std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(libc::dup(1)) });
    ack.write_all(b"ok\n").unwrap();
    let mut lines = BufReader::new(std::io::stdin());
    let mut l = String::new();
    loop {
        l.clear();
        if lines.read_line(&mut l).unwrap_or(0) == 0 {
            std::process::exit(0);
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        let n: i64 = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        match w[0] {
            "open" => {
                for _ in 0..n {
                    let f = unsafe { libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY) };
                    if f >= 0 {
                        fds.push(f);
                    }
                }
            }
            "close" => {
                for _ in 0..n {
                    if let Some(f) = fds.pop() {
                        unsafe { libc::close(f) };
                    }
                }
            }
            "limit" => {
                let r = libc::rlimit { rlim_cur: n as u64, rlim_max: w[2].parse().unwrap() };
                unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &r) };
            }
            "map" => unsafe {
                let prot = if n < 1 << 34 { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
                libc::mmap(std::ptr::null_mut(), n as usize, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            },
            // the same 64 MiB n times over: all of it is resident, but it is only there once
            "alias" => unsafe {
                let f = libc::memfd_create(c"alias".as_ptr(), 0);
                if f >= 0 {
                    libc::ftruncate(f, 64 << 20);
                    for _ in 0..n {
                        libc::mmap(std::ptr::null_mut(), 64 << 20, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_POPULATE, f, 0);
                    }
                    libc::close(f);
                }
            },
            "touch" => held.push(vec![1u8; n as usize]),
            "free" => held.clear(),
            "threads" => {
                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                for t in threads.drain(..) {
                    t.thread().unpark();
                    t.join().unwrap();
                }
                stop.store(false, std::sync::atomic::Ordering::SeqCst);
                for _ in 0..n {
                    let s = stop.clone();
                    threads.push(std::thread::spawn(move || {
                        while !s.load(std::sync::atomic::Ordering::SeqCst) {
                            std::thread::park();
                        }
                    }));
                }
            }
            "user" => {
                let t = std::time::Instant::now();
                let mut x = 1u64;
                while t.elapsed().as_millis() < n as u128 {
                    for _ in 0..200_000 {
                        x = std::hint::black_box(x.wrapping_mul(6364136223846793005) + 1);
                    }
                }
            }
            "sys" => {
                let t = std::time::Instant::now();
                let f = std::fs::File::open("/dev/zero");
                let mut b = vec![0u8; 1 << 20];
                while t.elapsed().as_millis() < n as u128 {
                    for _ in 0..8 {
                        match &f {
                            Ok(f) => (&*f).read_exact(&mut b).unwrap(),
                            Err(_) => unsafe {
                                libc::syscall(libc::SYS_getppid);
                            },
                        }
                    }
                }
            }
            // CPU time of a grandchild must not count
            "grandchild" => {
                let c = Command::new("/proc/self/exe").env("VH_C26_CHILD", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn();
                let Ok(mut c) = c else {
                    // no descriptors left
                    ack.write_all(b"ok\n").unwrap();
                    continue;
                };
                let mut i = c.stdin.take().unwrap();
                let mut o = BufReader::new(c.stdout.take().unwrap());
                let mut s = String::new();
                o.read_line(&mut s).unwrap();
                i.write_all(format!("user {n}\n").as_bytes()).unwrap();
                o.read_line(&mut s).unwrap();
                drop(i);
                c.wait().unwrap();
            }
            "name" => {
                let mut b = l["name ".len()..].trim_end_matches('\n').as_bytes().to_vec();
                b.push(0);
                unsafe { libc::prctl(libc::PR_SET_NAME, b.as_ptr()) };
            }
            // a forked copy asks for itself, and for the one it was copied from
            "fork" => {
                let bad = forked();
                if let Some(b) = bad {
                    ack.write_all(format!("bad {}\n", b.replace('\n', " ")).as_bytes()).unwrap();
                    continue;
                }
            }
            "exit" => unsafe { libc::_exit(0) },
            _ => std::process::exit(9),
        }
        ack.write_all(b"ok\n").unwrap();
    }
}

/// what is wrong with the exports of a forked copy of this process
fn forked() -> Option<String> {
    let mine = ProcessCollector::for_self();
    let me = std::process::id() as i32;
    if let Err(e) = export(&mine, 0) {
        return Some(e);
    }
    let mut p = [0; 2];
    if unsafe { libc::pipe(p.as_mut_ptr()) } != 0 {
        return None;
    }
    let k = unsafe { libc::fork() };
    if k < 0 {
        unsafe {
            libc::close(p[0]);
            libc::close(p[1]);
        }
        return None;
    }
    if k == 0 {
        let mut bad = String::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..7 {
                unsafe { libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY) };
            }
            // both sides need a few descriptors to look at anything
            let spare: Vec<i32> = (0..8).map(|_| unsafe { libc::dup(0) }).collect();
            let starved = spare.iter().any(|f| *f < 0);
            for f in spare {
                unsafe { libc::close(f) };
            }
            if starved {
                return String::new();
            }
            let pid = unsafe { libc::getpid() };
            let own = ProcessCollector::for_self();
            for how in 0..4 {
                for (c, of, who) in [(&own, pid, "the copy itself"), (&mine, me, "the process it was copied from")] {
                    let a = truth(of);
                    let got = export(c, how);
                    let b = truth(of);
                    let e = match (a, got, b) {
                        (Some(a), Ok(g), Some(b)) => judge(&g, &a, &b, Mode::Own).map(|_| ()).map_err(|e| format!("{e} export {g:?}")),
                        (_, Err(e), _) => Err(e),
                        _ => Ok(()),
                    };
                    if let Err(e) = e {
                        return format!("forked copy of a process, {who}: {e}");
                    }
                }
            }
            String::new()
        }));
        match r {
            Ok(b) => bad = b,
            Err(_) => bad.push_str("the export of a forked copy panics"),
        }
        unsafe {
            libc::write(p[1], bad.as_ptr().cast(), bad.len().min(4000));
            libc::_exit(0);
        }
    }
    unsafe { libc::close(p[1]) };
    let mut f = std::fs::File::from(unsafe { <std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(p[0]) });
    let mut s = String::new();
    let _ = f.read_to_string(&mut s);
    let mut st = 0;
    unsafe { libc::waitpid(k, &mut st, 0) };
    (!s.is_empty()).then_some(s)
}

struct Kid {
    p: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    col: ProcessCollector,
    history: Vec<String>,
}
impl Kid {
    fn new() -> Kid {
        let mut p = Command::new("/proc/self/exe").env("VH_C26_CHILD", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot start a child");
        let i = p.stdin.take().unwrap();
        let o = BufReader::new(p.stdout.take().unwrap());
        let col = ProcessCollector::new(p.id() as i32);
        let mut k = Kid { p, i, o, col, history: vec![] };
        k.acked();
        k
    }
    fn acked(&mut self) {
        let mut s = String::new();
        self.o.read_line(&mut s).expect("child");
        assert_eq!(s, "ok\n", "the child failed");
    }
    fn pid(&self) -> i32 {
        self.p.id() as i32
    }
    fn send(&mut self, c: &str) {
        self.history.push(c.to_string());
        self.i.write_all(format!("{c}\n").as_bytes()).expect("child");
    }
    /// what the child itself found wrong
    fn found(&mut self, c: &str) -> Option<String> {
        self.send(c);
        let mut s = String::new();
        self.o.read_line(&mut s).expect("child");
        match s.strip_prefix("bad ") {
            Some(b) => Some(b.to_string()),
            None => {
                assert_eq!(s, "ok\n", "the child failed");
                None
            }
        }
    }
    fn tell(&mut self, c: &str) {
        self.send(c);
        self.acked();
    }
}

// ---------------------------------------------------------------- what the kernel says

#[derive(Debug, Clone, PartialEq, Default)]
struct Truth(BTreeMap<&'static str, i64>);

fn boot() -> Option<i64> {
    let s = std::fs::read_to_string("/proc/stat").ok()?;
    let b: i64 = s.lines().find_map(|l| l.strip_prefix("btime "))?.trim().parse().ok()?;
    let mut m = BTIMES.lock().unwrap();
    *m = Some(m.map_or((b, b), |(lo, hi)| (lo.min(b), hi.max(b))));
    Some(b)
}
/// the boot times the kernel reported so far: it derives them from the clock, which may be adjusted
static BTIMES: std::sync::Mutex<Option<(i64, i64)>> = std::sync::Mutex::new(None);
fn boot_spread() -> i64 {
    BTIMES.lock().unwrap().map_or(0, |(lo, hi)| hi - lo)
}
/// None: there is no such process
fn truth(pid: i32) -> Option<Truth> {
    let d = format!("/proc/{pid}");
    if !std::path::Path::new(&d).exists() {
        return None;
    }
    let mut t = BTreeMap::new();
    if let Ok(r) = std::fs::read_dir(format!("{d}/fd")) {
        let n = r.flatten().count() as i64;
        t.insert("open_fds", n);
    }
    if let Ok(s) = std::fs::read_to_string(format!("{d}/limits")) {
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("Max open files") {
                if let Ok(n) = x.split_whitespace().next().unwrap_or("").parse() {
                    t.insert("max_fds", n);
                }
            }
        }
    }
    if let Ok(s) = std::fs::read(format!("{d}/stat")) {
        let s = String::from_utf8_lossy(&s);
        if let Some(p) = s.rfind(')') {
            let f: Vec<i64> = s[p + 1..].split_whitespace().map(|x| x.parse().unwrap_or(-1)).collect();
            let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) };
            let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) };
            if f.len() > 22 {
                t.insert("virtual_memory_bytes", f[20]);
                t.insert("resident_memory_bytes", f[21] * page);
                t.insert("cpu_seconds_total", (f[11] + f[12]) / tick);
                t.insert("threads", f[17]);
                if let Some(b) = boot() {
                    t.insert("start_time_seconds", f[19] / tick + b);
                }
            }
        }
    }
    Some(Truth(t))
}
const ORDER: [&str; 7] =
    ["open_fds", "max_fds", "virtual_memory_bytes", "resident_memory_bytes", "cpu_seconds_total", "threads", "start_time_seconds"];

// ---------------------------------------------------------------- what the collector says

fn export(c: &ProcessCollector, how: usize) -> Result<BTreeMap<String, i64>, String> {
    let mut got = BTreeMap::new();
    let mut put = |n: String, v: f64| {
        if v.fract() != 0.0 {
            return Err(format!("{n} is {v}"));
        }
        match got.insert(n.clone(), v as i64) {
            None => Ok(()),
            Some(_) => Err(format!("{n} is exported twice")),
        }
    };
    if how == 3 {
        let mut e = ProtoEncoder::new(Vec::<u8>::new());
        c.collect_group_into(&mut e).map_err(|e| e.to_string())?;
        e.flush().map_err(|e| e.to_string())?;
        for f in vh_proto::decode(&e.writer)? {
            let name = f.name.clone().unwrap_or_default();
            if f.metrics.len() != 1 || !f.metrics[0].labels.is_empty() {
                return Err(format!("unexpected family {f:?}"));
            }
            if f.help.unwrap_or_default().is_empty() {
                return Err(format!("{name} has no help"));
            }
            if f.typ != u64::from(f.metrics[0].kind == "gauge") {
                return Err(format!("{name} has type {} but holds a {}", f.typ, f.metrics[0].kind));
            }
            put(name, f.metrics[0].value)?;
        }
        return Ok(got);
    }
    let mut e = BufferedTextEncoder::new();
    let Ok(()) = match how {
        0 => c.collect_group_into(&mut e),
        1 => WithNamespace::new("process", c).collect_group_into(&mut e),
        _ => Some(c).collect_group_into(&mut &mut e),
    };
    let out = e.finish();
    for l in prom::parse_lines(&out)? {
        if let prom::Line::Sample(s) = l {
            if !s.labels.is_empty() {
                return Err(format!("unexpected labels {s:?}"));
            }
            let n = match (how, s.name.strip_prefix("process_")) {
                (1, Some(n)) => n.to_string(),
                (1, None) => return Err(format!("{} lacks its namespace", s.name)),
                _ => s.name.clone(),
            };
            put(n, s.raw.parse::<i64>().map_err(|_| format!("{} is {:?}", s.name, s.raw))? as f64)?;
        }
    }
    for n in got.keys() {
        let full = if how == 1 { format!("process_{n}") } else { n.clone() };
        if !String::from_utf8_lossy(&out).lines().any(|l| l.strip_prefix("# HELP ").is_some_and(|x| x.starts_with(&format!("{full} ")))) {
            return Err(format!("{full} has no help"));
        }
        let typ = [format!("# TYPE {full} gauge"), format!("# TYPE {full} counter")];
        if String::from_utf8_lossy(&out).lines().filter(|l| typ.iter().any(|t| t == l)).count() != 1 {
            return Err(format!("{full} has no type"));
        }
    }
    Ok(got)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// stopped or dead: nothing changes
    Frozen,
    /// this process: memory moves a little while it exports
    Own,
    /// running: only what cannot move back and forth between two readings is judged
    Running,
}
/// is the export explained by what the kernel said before and after it?
fn judge(got: &BTreeMap<String, i64>, a: &Truth, b: &Truth, mode: Mode) -> Result<u64, String> {
    let mut n = 0;
    for k in got.keys() {
        if !ORDER.contains(&k.as_str()) {
            return Err(format!("{k} is not documented"));
        }
    }
    for k in ORDER {
        let (x, y) = (a.0.get(k), b.0.get(k));
        let g = got.get(k);
        match (x, y, g) {
            (None, None, Some(v)) => return Err(format!("{k} is {v} although the kernel does not report it")),
            (Some(x), Some(y), None) => return Err(format!("{k} is missing although the kernel reports {x}..{y}")),
            (Some(x), Some(y), Some(v)) => {
                let (mut lo, mut hi) = (*x.min(y), *x.max(y));
                if k == "start_time_seconds" {
                    // the kernel derives the boot time from two clocks; it may differ by one between readings
                    lo -= 1;
                    hi += 1;
                }
                if k == "start_time_seconds" {
                    lo -= boot_spread();
                    hi += boot_spread();
                }
                match (mode, k) {
                    (Mode::Frozen, _) | (_, "start_time_seconds" | "cpu_seconds_total" | "max_fds") => {}
                    // listing one's own descriptors needs one
                    (Mode::Own, "open_fds") => lo -= 1,
                    (Mode::Own, "threads") => {}
                    (Mode::Own, _) => {
                        lo -= 64 << 20;
                        hi += 64 << 20;
                    }
                    (Mode::Running, _) => continue,
                }
                if !(lo..=hi).contains(v) {
                    return Err(format!("{k} is {v}, the kernel reports {x} before and {y} after the export"));
                }
                n += 1;
            }
            _ => {}
        }
    }
    Ok(n)
}

fn check(rep: &mut Report, c: &ProcessCollector, pid: i32, how: usize, mode: Mode, what: &dyn Fn() -> String) {
    let a = truth(pid);
    let got = match catch(|| export(c, how)) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => rep.violation(format!("{}: {e}", what())),
        Err(p) => rep.violation(format!("{}: the export panics: {p}", what())),
    };
    let b = truth(pid);
    rep.eval();
    match (&a, &b) {
        (Some(x), Some(y)) => match judge(&got, x, y, mode) {
            Ok(n) => {
                rep.count("samples compared with the kernel", n);
                rep.count("exports with an unchanged process around them", (x == y) as u64);
            }
            Err(e) => rep.violation(format!("{}: {e}\nexport {got:?}", what())),
        },
        (None, None) => {
            rep.check(got.is_empty(), || format!("{}: the process is gone but exports {got:?}", what()));
            rep.count("exports of processes that are gone", 1);
        }
        _ => rep.count("exports during which the process went away", 1),
    }
    rep.distinct(format!("{got:?}{how}").as_bytes());
}

/// stop every thread of the process; false: it did not come to rest
fn stop(pid: i32) -> bool {
    unsafe { libc::kill(pid, libc::SIGSTOP) };
    for _ in 0..5000 {
        let mut all = true;
        if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) {
            for t in d.flatten() {
                let s = std::fs::read(t.path().join("stat")).unwrap_or_default();
                let s = String::from_utf8_lossy(&s).into_owned();
                let st = s.rfind(')').and_then(|i| s[i + 1..].split_whitespace().next().map(|x| x.to_string()));
                all &= st.as_deref() == Some("T");
            }
        }
        if all {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    false
}
fn cont(pid: i32) {
    unsafe { libc::kill(pid, libc::SIGCONT) };
}
/// stopped, compared, continued
fn frozen(rep: &mut Report, c: &ProcessCollector, pid: i32, how: usize, what: &dyn Fn() -> String) {
    let mode = if stop(pid) { Mode::Frozen } else { Mode::Running };
    rep.count("processes stopped for comparison", (mode == Mode::Frozen) as u64);
    check(rep, c, pid, how, mode, what);
    cont(pid);
}

/// a process with a lot of everything
fn giant(rep: &mut Report, r: &mut Rng) {
    let mut kid = Kid::new();
    let mut cur = 0i64;
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 {
            cur = l.rlim_max.min(1 << 30) as i64;
        }
    }
    kid.tell(&format!("limit {cur} {cur}"));
    kid.tell(&format!("open {}", r.range(1100, 9000)));
    kid.tell(&format!("threads {}", r.range(260, 500)));
    kid.tell(&format!("map {}", r.range(1 << 40, 1 << 43)));
    kid.tell(&format!("alias {}", r.range(66, 80)));
    for how in 0..4 {
        frozen(rep, &kid.col, kid.pid(), how, &|| format!("large child after {:?}", kid.history));
    }
    let t = truth(kid.pid()).unwrap_or_default().0;
    let has = |k: &str, n: i64| t.get(k).is_some_and(|x| *x > n) as u64;
    rep.count("processes with over 1024 descriptors", has("open_fds", 1024));
    rep.count("processes with over 255 threads", has("threads", 255));
    rep.count("processes with over 4 GiB resident", has("resident_memory_bytes", 1 << 32));
    rep.count("processes with over 1 TiB mapped", has("virtual_memory_bytes", 1 << 40));
    let _ = kid.p.kill();
    let _ = kid.p.wait();
}

fn main() {
    if std::env::var("VH_C26_CHILD").is_ok() {
        child()
    }
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct exported state of a process, compared with the kernel before and after";
        let mut r: Rng = ctx.rng(26);
        let me = std::process::id() as i32;
        boot();
        let own = [ProcessCollector::for_self(), ProcessCollector::new(me)];
        let init = ProcessCollector::new(1);
        // a burner in the background: its CPU time moves while it is exported
        let mut busy = Kid::new();
        busy.send(&format!("sys {}", 700));
        busy.send(&format!("user {}", 1_000_000));
        let mut kids: Vec<Kid> = vec![];
        let mut mine: Vec<std::fs::File> = vec![];
        let mut i = 0u64;
        let mut cpu_ms = 0;
        while ctx.time_left() {
            i += 1;
            if i % 400 == 1 {
                giant(rep, &mut r);
            }
            if kids.len() < 3 && (kids.is_empty() || r.chance(1, 6)) {
                kids.push(Kid::new());
            }
            let k = r.below(kids.len());
            let kid = &mut kids[k];
            // one step of the history
            match r.below(15) {
                0 | 1 => kid.tell(&format!("open {}", r.range(1, 30))),
                2 => kid.tell(&format!("close {}", r.range(1, 20))),
                3 => {
                    // above the present hard limit only where root may raise it
                    let hard = *r.pick(&[700, 700, 4_000, 19_000, 70_000, 300_000, 1_000_000]) + r.below(900);
                    let c = format!("limit {} {hard}", r.range(if hard > 1_000 { hard - 900 } else { 3 }, hard));
                    // limits can only be raised by root: keep the hard one for the rest
                    if kid.history.iter().any(|h| h.starts_with("limit")) {
                        let h = kid.history.iter().rev().find(|h| h.starts_with("limit")).unwrap().split(' ').nth(2).unwrap().to_string();
                        kid.tell(&format!("limit {} {h}", r.range(3, h.parse().unwrap())));
                    } else {
                        kid.tell(&c)
                    }
                }
                4 => kid.tell(&format!("map {}", r.range(1, 1 << 33))),
                5 | 6 => kid.tell(&format!("touch {}", r.range(1, 1 << 23))),
                7 => kid.tell("free"),
                8 | 9 => kid.tell(&format!("threads {}", r.below(9))),
                10 => {
                    let n = *r.pick(&["a b", ") R 1 2 3 4 5", "x) S (y", "((((((", "é\u{fffd}", "plain", ")", "1 2 3"]);
                    kid.tell(&format!("name {n}"))
                }
                11 if cpu_ms < 200 + i => {
                    cpu_ms += 400;
                    let ms = r.range(50, 400);
                    kid.tell(&format!("{} {ms}", r.pick(&["user", "sys", "user", "sys", "grandchild"])));
                }
                12 if r.chance(1, 8) => {
                    // it dies: while it is a zombie, and once it is gone
                    let mut kid = kids.swap_remove(k);
                    kid.send("exit");
                    // exports race the exit
                    for _ in 0..r.below(4) {
                        check(rep, &kid.col, kid.pid(), r.below(4), Mode::Running, &|| format!("exiting process after {:?}", kid.history));
                    }
                    let mut s = String::new();
                    while kid.o.read_line(&mut s).unwrap_or(0) > 0 {}
                    let at_rest = (0..2000).any(|_| {
                    let s = std::fs::read(format!("/proc/{}/stat", kid.pid())).unwrap_or_default();
                    let s = String::from_utf8_lossy(&s).into_owned();
                    let f: Vec<String> = s.rfind(')').map(|i| s[i + 1..].split_whitespace().map(String::from).collect()).unwrap_or_default();
                    let z = f.first().is_some_and(|x| x == "Z") && f.get(17).is_some_and(|x| x == "1");
                    if !z {
                        std::thread::sleep(std::time::Duration::from_micros(200));
                    }
                    z
                });
                rep.count("zombies", at_rest as u64);
                let mode = if at_rest { Mode::Frozen } else { Mode::Running };
                check(rep, &kid.col, kid.pid(), r.below(4), mode, &|| format!("zombie after {:?}", kid.history));
                    let pid = kid.pid();
                    kid.p.wait().expect("wait");
                    if truth(pid).is_none() {
                        check(rep, &kid.col, pid, r.below(4), Mode::Frozen, &|| "reaped process".into());
                        let late = ProcessCollector::new(pid);
                        check(rep, &late, pid, r.below(4), Mode::Frozen, &|| "collector made for a process already gone".into());
                    }
                    continue;
                }
                13 if r.chance(1, 3) => {
                    let bad = kid.found("fork");
                    if let Some(b) = bad {
                        rep.violation(format!("child after {:?}: {b}", kid.history));
                    }
                    rep.eval();
                    rep.count("forked processes that export themselves and their parent", 1);
                }
                _ => {}
            }
            let kid = &kids[k];
            frozen(rep, &kid.col, kid.pid(), r.below(4), &|| format!("child after {:?}", kid.history));
            if r.chance(1, 10) {
                // a collector made late sees the same
                let c = ProcessCollector::new(kid.pid());
                frozen(rep, &c, kid.pid(), r.below(4), &|| format!("late collector of a child after {:?}", kid.history));
            }
            if r.chance(1, 4) {
                if r.chance(1, 2) {
                    check(rep, &busy.col, busy.pid(), r.below(4), Mode::Running, &|| "busy child".into());
                } else {
                    frozen(rep, &busy.col, busy.pid(), r.below(4), &|| "busy child, stopped".into());
                }
            }
            if r.chance(1, 4) {
                if r.chance(1, 2) {
                    mine.push(std::fs::File::open("/dev/null").expect("open"));
                } else {
                    mine.pop();
                }
                check(rep, &own[r.below(2)], me, r.below(4), Mode::Own, &|| "this process".into());
            }
            if r.chance(1, 20) {
                check(rep, &init, 1, r.below(4), Mode::Running, &|| "process 1".into());
            }
            if r.chance(1, 50) {
                let none = ProcessCollector::new(*r.pick(&[0x7fff_fff0, i32::MAX, -1]));
                let g = export(&none, r.below(4));
                rep.check(g == Ok(BTreeMap::new()), || format!("a process that does not exist exports {g:?}"));
            }
            rep.sample(|| format!("{:?} -> {:?}", kid.history, truth(kid.pid())));
        }
        for mut k in kids.into_iter().chain([busy]) {
            let _ = k.p.kill();
            let _ = k.p.wait();
        }
    })
}
