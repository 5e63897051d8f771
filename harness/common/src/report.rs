//! Run context, evidence and verdicts.
//!
//! Exit codes of a check process: 0 held, 1 violation, 3 harness error (panic located in the
//! harness), 4 observed nothing, 5 a hang where a hang is no verdict. Only 0 and 1 are verdicts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// interpreted (Miri) or otherwise slow: tiny workloads
    pub small: bool,
    /// sanitized: ten times slower
    pub slow: bool,
    pub phase: String,
    out: Option<String>,
    start: Instant,
    budget: Duration,
    /// milliseconds that do not count
    extra: AtomicU64,
}

pub struct Report {
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub rule: &'static str,
    out: Option<String>,
    what: String,
}

static LIB_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PANICS_SEEN: AtomicU64 = AtomicU64::new(0);
static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);
thread_local! {
    static EXPECT: RefCell<u32> = const { RefCell::new(0) };
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// is the panic location inside the harness (as opposed to the library or its dependencies)?
fn in_harness(file: &str) -> bool {
    // derive output carries the location of the deriving type: those live in files named *derived*
    if file.contains("derived") {
        return false;
    }
    file.contains("/harness/") || file.starts_with("src/") || file.contains("/common/src/") || file.starts_with("harness/")
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let text = format!("panic at {loc}: {msg}");
        let expected = EXPECT.try_with(|e| *e.borrow() > 0).unwrap_or(false);
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some(text.clone()));
        PANICS_SEEN.fetch_add(1, Ordering::Relaxed);
        if expected {
            return;
        }
        eprintln!("{text} (thread {:?})", std::thread::current().name());
        if in_harness(&loc) {
            HARNESS_PANIC.store(true, Ordering::SeqCst);
        } else {
            LIB_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        }
    }));
}

/// Run code in which a panic is an allowed outcome; Err carries its description.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    EXPECT.with(|e| *e.borrow_mut() += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECT.with(|e| *e.borrow_mut() -= 1);
    r.map_err(|_| LAST.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}...[{} bytes]", &s[..i], s.len())
}

impl Ctx {
    pub fn from_env() -> (Ctx, Report) {
        install_panic_hook();
        let get = |k: &str| std::env::var(k).ok();
        #[allow(unused_mut)]
        let mut seed: u64 = get("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        #[cfg(miri)]
        {
            // addresses follow the interpreter's seed: every seed gets a workload of its own
            let here = 0u8;
            seed = crate::rng::hash_bytes(format!("{seed} {:?}", &here as *const u8).as_bytes());
        }
        let thorough = get("VERIF_TIER").as_deref() == Some("thorough");
        let small = cfg!(miri) || get("VH_SMALL").is_some();
        let budget = get("VH_BUDGET_MS").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 60_000 } else { 6_000 });
        let phase = get("VH_PHASE").unwrap_or_default();
        let out = get("VH_OUT");
        let what = std::env::args().next().unwrap_or_default();
        let ctx = Ctx { seed, thorough, small, slow: get("VH_SAN").is_some(), phase, out: out.clone(), start: Instant::now(), budget: Duration::from_millis(budget), extra: AtomicU64::new(0) };
        let rep = Report { evaluations: 0, distinct: HashSet::new(), samples: vec![], counters: BTreeMap::new(), rule: "", out, what };
        (ctx, rep)
    }
    pub fn out_path(&self) -> Option<&str> {
        self.out.as_deref()
    }
    pub fn rng(&self, salt: u64) -> crate::Rng {
        crate::Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// Is there exploration time left? (Running out of time ends the exploration, it is no verdict.)
    pub fn time_left(&self) -> bool {
        if cfg!(miri) {
            return true;
        }
        self.start.elapsed() < self.budget + Duration::from_millis(self.extra.load(Ordering::Relaxed))
    }
    /// Run a fixed piece of work whose time does not count as exploration time (up to 20 s of it).
    pub fn beside<T>(&self, f: impl FnOnce() -> T) -> T {
        let t = Instant::now();
        let x = f();
        self.extra.fetch_add(t.elapsed().as_millis().min(20_000) as u64, Ordering::Relaxed);
        x
    }
    /// fraction of the budget used so far
    pub fn used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// `full` iterations normally, `tiny` under Miri
    pub fn n(&self, full: usize, tiny: usize) -> usize {
        if self.small {
            tiny
        } else {
            full
        }
    }
}

impl Report {
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    /// record a distinct, non-trivial case by its content
    pub fn distinct(&mut self, sig: &[u8]) {
        self.distinct.insert(crate::rng::hash_bytes(sig));
    }
    pub fn distinct_h(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn distinct_count(&self) -> usize {
        self.distinct.len()
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(clip(&s(), 700));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.into(), n);
        }
    }

    fn write(&self, violation: Option<&str>) {
        let Some(out) = &self.out else { return };
        let mut j = String::from("{");
        j.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", self.evaluations, self.distinct.len()));
        j.push_str(&format!("\"rule\":{},", json_str(self.rule)));
        j.push_str("\"samples\":[");
        j.push_str(&self.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        j.push_str("],\"counters\":{");
        j.push_str(&self.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
        j.push_str("},\"violation\":");
        match violation {
            Some(v) => j.push_str(&json_str(&clip(v, 20_000))),
            None => j.push_str("null"),
        }
        if cfg!(miri) {
            // one file for each interpreted seed: they run at once, and the interpreter splits writes at random
            use std::io::Write;
            let h: Vec<String> = self.distinct.iter().map(|h| h.to_string()).collect();
            j.push_str(&format!(",\"hashes\":[{}]}}\n", h.join(",")));
            let mut f = (0..10_000)
                .find_map(|i| std::fs::OpenOptions::new().create_new(true).write(true).open(format!("{out}.{i}")).ok())
                .expect("cannot write the evidence fragment");
            f.write_all(j.as_bytes()).expect("cannot write the evidence fragment");
            return;
        }
        j.push('}');
        std::fs::write(out, j).expect("cannot write the evidence fragment");
    }

    /// Report a violation of the property and end the run.
    pub fn violation(&mut self, msg: impl AsRef<str>) -> ! {
        let msg = msg.as_ref();
        println!("violation in {}: {}", self.what, clip(msg, 4000));
        self.write(Some(msg));
        // no destructors: locks of the code under test may be in any state.
        hard_exit(1)
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.violation(msg());
        }
    }

    /// End of the run: judge panics and emptiness, write the evidence.
    pub fn finish(mut self) -> ! {
        let p = LIB_PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some(first) = p.first() {
            let m = format!("{} unexpected panic(s) inside the library, first: {first}", p.len());
            self.violation(m);
        }
        if HARNESS_PANIC.load(Ordering::SeqCst) {
            println!("harness error: a panic inside the harness");
            std::process::exit(3);
        }
        if self.evaluations == 0 || self.distinct.is_empty() {
            println!("harness error: nothing was observed");
            self.write(None);
            std::process::exit(4);
        }
        self.write(None);
        println!("held: {} evaluations, {} distinct", self.evaluations, self.distinct.len());
        std::process::exit(0)
    }
}

/// Spawn a worker the hang detector watches (threads named w*).
pub fn worker<'s, 'e, R: Send + 's>(
    sc: &'s std::thread::Scope<'s, 'e>,
    f: impl FnOnce() -> R + Send + 's,
) -> std::thread::ScopedJoinHandle<'s, R> {
    std::thread::Builder::new().name("worker".into()).spawn_scoped(sc, f).expect("cannot spawn a thread")
}

/// (tid, name, state, cpu ticks + context switches) of every thread of this process
fn threads() -> Vec<(i32, String, char, u64)> {
    let mut o = vec![];
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return o };
    for e in d.flatten() {
        let p = e.path();
        let Ok(tid) = e.file_name().to_string_lossy().parse() else { continue };
        let (Ok(stat), Ok(status)) = (std::fs::read_to_string(p.join("stat")), std::fs::read_to_string(p.join("status"))) else { continue };
        let (Some(a), Some(b)) = (stat.find('('), stat.rfind(')')) else { continue };
        let rest: Vec<&str> = stat[b + 1..].split_whitespace().collect();
        let mut act: u64 = rest[11].parse::<u64>().unwrap_or(0) + rest[12].parse::<u64>().unwrap_or(0);
        for l in status.lines() {
            if l.contains("ctxt_switches") {
                act += l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
        o.push((tid, stat[a + 1..b].to_string(), rest[0].chars().next().unwrap_or('?'), act));
    }
    o
}

pub const STUCK_SECS: u32 = 15;
/// processor time (of the whole process) a bounded step may use; the longest take 1.5 s
pub const SPIN_SECS: f64 = 20.0;
/// odd while a bounded step runs
static BOUNDED: AtomicU64 = AtomicU64::new(0);

/// One step of single-threaded use, which takes a second of processor time at most: the watchdog
/// reports it if it uses 20 (200 if sanitized), whatever the load of the machine.
pub fn bounded<R>(f: impl FnOnce() -> R) -> R {
    struct Step;
    impl Drop for Step {
        fn drop(&mut self) {
            BOUNDED.fetch_add(1, Ordering::SeqCst);
        }
    }
    BOUNDED.fetch_add(1, Ordering::SeqCst);
    let _step = Step;
    f()
}
fn cpu_secs() -> f64 {
    #[cfg(not(miri))]
    {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
    #[cfg(miri)]
    0.0
}

/// Hang detector: a worker (or every thread) that sleeps without a single context switch or CPU tick
/// through STUCK_SECS consecutive one-second samples is blocked for good: nothing in the harness
/// waits like that. Its verdict depends on the threads' recorded activity, not on elapsed time alone.
fn watch(out: Option<String>, what: String) {
    #[cfg(target_os = "linux")]
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
    // interpreted for another platform only, where there is no watchdog
    #[cfg(not(target_os = "linux"))]
    let me = 0;
    let mut last: BTreeMap<i32, (u64, u32)> = BTreeMap::new();
    let mut busy = (0u64, 0.0f64);
    let spin = if std::env::var("VH_SAN").is_ok() { 10.0 * SPIN_SECS } else { SPIN_SECS };
    loop {
        std::thread::sleep(Duration::from_secs(1));
        let ts = threads();
        let (op, cpu) = (BOUNDED.load(Ordering::SeqCst), cpu_secs());
        if op & 1 == 0 || op != busy.0 {
            busy = (op, cpu);
        } else if cpu - busy.1 > spin && BOUNDED.load(Ordering::SeqCst) == op {
            let m = format!("does not finish: one step of single-threaded use (step {}) has used {:.0} s of processor time", op / 2 + 1, cpu - busy.1);
            println!("violation in {what}: {m}");
            if let Some(o) = &out {
                let j = format!("{{\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"counters\":{{}},\"violation\":{}}}", json_str(&m));
                let _ = std::fs::write(o, j);
            }
            unsafe { libc::_exit(1) }
        }
        let mut stuck = vec![];
        let mut all = true;
        for (tid, name, st, act) in &ts {
            if *tid == me {
                continue;
            }
            let e = last.entry(*tid).or_insert((*act, 0));
            if e.0 == *act && *st == 'S' {
                e.1 += 1;
            } else {
                *e = (*act, 0);
            }
            if e.1 >= STUCK_SECS {
                if name.starts_with("worker") {
                    stuck.push(*tid);
                }
            } else {
                all = false;
            }
        }
        if !stuck.is_empty() || (all && ts.len() > 1) {
            let m = format!(
                "blocked forever: {} of {} threads sleep without any activity for {STUCK_SECS} samples, workers {stuck:?}",
                ts.len() - 1,
                ts.len() - 1
            );
            println!("hang in {what}: {m}");
            let hang_is_violation = std::env::var("VH_HANG").as_deref() == Ok("violation");
            if hang_is_violation {
                if let Some(o) = &out {
                    let j = format!("{{\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"counters\":{{}},\"violation\":{}}}", json_str(&m));
                    let _ = std::fs::write(o, j);
                }
                unsafe { libc::_exit(1) }
            }
            unsafe { libc::_exit(5) }
        }
    }
}

/// Run the main of a check: a panic that escapes it is judged by where it happened.
pub fn run(main: impl FnOnce(&Ctx, &mut Report)) -> ! {
    let (ctx, mut rep) = Ctx::from_env();
    if !cfg!(miri) {
        let (o, w) = (ctx.out.clone(), rep.what.clone());
        let _ = std::thread::Builder::new().name("watchdog".into()).spawn(move || watch(o, w));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| main(&ctx, &mut rep)));
    if let Err(e) = r {
        // joins re-panic in the harness; the original panic location decides
        let lib = LIB_PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some(first) = lib.first() {
            rep.violation(format!("unexpected panic inside the library: {first}"));
        }
        drop(e);
        println!("harness error: panic in harness");
        std::process::exit(3);
    }
    rep.finish()
}

/// leave without running destructors
pub fn hard_exit(code: i32) -> ! {
    if cfg!(miri) {
        std::process::exit(code)
    }
    unsafe { libc::_exit(code) }
}
