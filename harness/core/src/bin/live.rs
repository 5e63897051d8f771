//! C31: nothing blocks forever, starves or panics. Mixed operations of every kind under hostile
//! schedules, slow and panicking user code, watched by two monitors: the report's hang detector
//! (threads that sleep without any activity) and an operation monitor (threads that burn CPU time or
//! switch endlessly inside one operation).
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::CounterState;
use measured::metric::group::Encoding;
use measured::metric::histogram::Thresholds;
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::TextEncoder;
use measured::{CounterVec, GaugeVec, Histogram, HistogramVec};
use vh::keys::*;
use vh::kinds::*;
use vh::report::{catch, worker};
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

// ---------------------------------------------------------------- operation monitor

const SLOTS: usize = 64;
struct Slot {
    tid: AtomicI32,
    ops: AtomicU64,
    what: AtomicU32,
}
static MON: [Slot; SLOTS] = [const { Slot { tid: AtomicI32::new(0), ops: AtomicU64::new(0), what: AtomicU32::new(0) } }; SLOTS];
const OPS: [&str; 16] = [
    "idle", "record by label", "record by guard", "hold a guard", "look up", "refuse a group", "create", "remove", "scrape", "slow scrape", "cardinality", "start timer",
    "stop timer", "scrape protobuf-like", "probe after panics", "registry",
];
static TOTAL: AtomicU64 = AtomicU64::new(0);

/// registers the thread with the monitor for its lifetime
struct Me(usize);
impl Me {
    fn new() -> Me {
        #[cfg(target_os = "linux")]
        let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
        #[cfg(not(target_os = "linux"))]
        let tid = 1;
        for (i, s) in MON.iter().enumerate() {
            if s.tid.compare_exchange(0, tid, SeqCst, SeqCst).is_ok() {
                return Me(i);
            }
        }
        panic!("too many threads for the monitor")
    }
    fn op(&self, what: u32) {
        MON[self.0].what.store(what, Relaxed);
        MON[self.0].ops.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
    }
}
impl Drop for Me {
    fn drop(&mut self) {
        MON[self.0].what.store(0, Relaxed);
        MON[self.0].tid.store(0, SeqCst);
    }
}

/// cpu seconds and voluntary switches of a thread
#[cfg(not(miri))]
fn activity(tid: i32) -> Option<(f64, u64)> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let rest: Vec<&str> = stat[stat.rfind(')')? + 1..].split_whitespace().collect();
    let cpu = (rest[11].parse::<u64>().ok()? + rest[12].parse::<u64>().ok()?) as f64 / 100.0;
    let sw = status.lines().find(|l| l.starts_with("voluntary_ctxt"))?.split_whitespace().last()?.parse().ok()?;
    Some((cpu, sw))
}
/// No single operation of these workloads needs more than milliseconds of CPU time or a few hundred
/// waits; one that used 20 s of its own CPU time, or came back from sleeping 5000 times, is stuck.
#[cfg(not(miri))]
fn monitor(out: Option<String>) {
    let mut last: Vec<Option<(i32, u64, f64, u64)>> = vec![None; SLOTS];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (i, s) in MON.iter().enumerate() {
            let tid = s.tid.load(SeqCst);
            let ops = s.ops.load(SeqCst);
            if tid == 0 || s.what.load(Relaxed) == 0 {
                last[i] = None;
                continue;
            }
            let Some((cpu, sw)) = activity(tid) else { continue };
            match last[i] {
                Some((t, o, c, w)) if t == tid && o == ops => {
                    if s.tid.load(SeqCst) == tid && s.ops.load(SeqCst) == ops && (cpu - c > 20.0 || sw - w > 5000) {
                        let m = format!(
                            "the operation '{}' does not finish: {:.0} s of CPU time and {} waits inside it while {} operations of all threads finished",
                            OPS[s.what.load(Relaxed) as usize % OPS.len()],
                            cpu - c,
                            sw - w,
                            TOTAL.load(SeqCst)
                        );
                        println!("violation in live: {m}");
                        if let Some(o) = &out {
                            let j = format!(
                                "{{\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"counters\":{{}},\"violation\":{}}}",
                                vh::report::json_str(&m)
                            );
                            let _ = std::fs::write(o, j);
                        }
                        vh::report::hard_exit(1)
                    }
                }
                _ => last[i] = Some((tid, ops, cpu, sw)),
            }
        }
    }
}

// ---------------------------------------------------------------- writers

/// takes its time at every write; each write is progress
struct Slow<'a>(&'a Me, Vec<u8>, u64);
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.op(9);
        if sched::rnd() % 64 < self.2 {
            sched::delay(sched::rnd());
        }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Bomb(usize);
impl Write for Bomb {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            panic!("user code: the writer panics");
        }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn name() -> &'static MetricName {
    MetricName::from_str("m")
}

// ---------------------------------------------------------------- every operation, every kind

fn ask(v: &str, what: &str, errs: &std::sync::Mutex<Vec<String>>) {
    errs.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{what}: {v}"));
}

fn make<M: MetricType, S: KeySpace>(repr: u8, meta: M::Metadata) -> MetricVec<M, S::Set> {
    match repr {
        0 => MetricVec::with_label_set_and_metadata(S::make_set(), meta),
        1 if S::DENSE => MetricVec::dense_with_label_set_and_metadata(S::make_set(), meta),
        _ => MetricVec::sparse_with_label_set_and_metadata(S::make_set(), meta),
    }
}

fn mixed<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng)
where
    K::M: for<'a> MetricEncoding<TextEncoder<Slow<'a>>>,
{
    let repr = rng.below(3) as u8;
    let v = make::<K::M, S>(repr, K::meta());
    let hist: HistogramVec<S::Set, 4> = make::<_, S>(rng.below(3) as u8, Thresholds::with_buckets([0.1, 1.0, 2.0, 1e9]));
    let threads = ctx.n(rng.range(2, 9), 3);
    let ops = ctx.n(rng.range(20, 800), 12);
    let n = S::n().min(ctx.n(*rng.pick(&[1, 2, 8, 60, 600]), 3));
    let base = rng.below(S::n() - n + 1);
    let chaos = *rng.pick(&[0, 0, 60, 300]);
    sched::CHAOS.store(chaos, SeqCst);
    let gate = Gate::new(threads);
    let errs = std::sync::Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for &seed in &seeds {
            let (v, hist, gate, errs, done) = (&v, &hist, &gate, &errs, &done);
            worker(s, move || {
                let me = Me::new();
                sched::seed_thread(seed);
                let mut r = Rng::new(seed);
                let mut timers = vec![];
                // a thread's favourite operations differ
                let bias = r.below(12);
                gate.wait();
                for _ in 0..ops {
                    let i = base + r.below(n);
                    let op = if r.chance(1, 3) { bias } else { r.below(12) };
                    let x = catch(|| match op {
                        0 => {
                            me.op(1);
                            K::label(v, S::group(i), K::rand(&mut r))
                        }
                        1 => {
                            me.op(2);
                            let id = v.with_labels(S::group(i));
                            K::guard(v.get_metric(id), K::rand(&mut r))
                        }
                        2 => {
                            me.op(3);
                            let g = v.get_metric(v.with_labels(S::group(i)));
                            sched::delay(r.u64());
                            let _ = K::meta_same(g.metadata());
                            K::guard(g, K::rand(&mut r))
                        }
                        3 => {
                            me.op(4);
                            if v.try_with_labels(S::group(i)).is_none() {
                                ask("a group of the set is refused", S::NAME, errs)
                            }
                        }
                        4 => {
                            me.op(5);
                            if let Some(b) = S::bad(i) {
                                if v.try_with_labels(b).is_some() {
                                    ask("a group outside the set is accepted", S::NAME, errs)
                                }
                            }
                        }
                        5 => {
                            me.op(6);
                            drop(v.get_metric(v.with_labels(S::group(i))))
                        }
                        6 => {
                            me.op(7);
                            drop(v.remove_metric(v.with_labels(S::group(i))))
                        }
                        7 => {
                            me.op(8);
                            drop(export(v, "m"))
                        }
                        8 => {
                            me.op(9);
                            let mut e = TextEncoder::new(Slow(&me, vec![], r.below(8) as u64));
                            v.collect_family_into(name(), &mut e).and_then(|_| e.flush()).expect("this writer does not fail")
                        }
                        9 => {
                            me.op(10);
                            let c = v.get_cardinality();
                            if c.0 > n {
                                ask(&format!("cardinality {c:?} of {n} series"), S::NAME, errs)
                            }
                        }
                        10 => {
                            me.op(11);
                            if timers.len() < 4 {
                                timers.push(hist.start_timer(S::group(i)));
                            }
                        }
                        _ => {
                            me.op(12);
                            if let Some(t) = timers.pop() {
                                match r.below(4) {
                                    0 => t.forget(),
                                    1 => drop(t),
                                    _ => drop(t.observe()),
                                }
                            }
                            if r.chance(1, 6) {
                                drop(export(hist, "h"))
                            }
                            if r.chance(1, 6) {
                                drop(hist.remove_metric(hist.with_labels(S::group(i))))
                            }
                        }
                    });
                    if let Err(p) = x {
                        ask(&format!("operation {op} on a group of the set panics: {p}"), S::NAME, errs)
                    }
                    done.fetch_add(1, Relaxed);
                }
                me.op(12);
                drop(timers);
            });
        }
    });
    sched::CHAOS.store(0, SeqCst);
    let what = format!("{} on {} repr {repr}, {threads} threads x {ops} operations over {n} series, chaos {chaos}", K::NAME, S::NAME);
    if let Some(e) = errs.into_inner().unwrap().first() {
        rep.violation(format!("{what}: {e}"));
    }
    let d = done.into_inner();
    rep.check(d == (threads * ops) as u64, || format!("{what}: {d} operations finished"));
    let got = scrape::<K, _>(&v).unwrap_or_else(|e| rep.violation(format!("{what}: {e}")));
    rep.check(v.get_cardinality().0 == got.len(), || format!("{what}: cardinality {:?} with {} series", v.get_cardinality(), got.len()));
    rep.eval();
    rep.count("mixed histories", 1);
    rep.count("operations finished", d);
    rep.distinct(format!("{what}{got:?}").as_bytes());
    rep.sample(|| format!("{what}: all finished, {} series at the end", got.len()));
}

// ---------------------------------------------------------------- starvation

/// One side runs without end; the other has a fixed number of operations on the same shard. The run
/// ends when those are done: if they never get their turn, the monitors see it.
fn starve(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let scenario = rng.below(6);
    let endless = ctx.n(rng.range(2, 7), 2);
    let turns = ctx.n(rng.range(3, 60), 3);
    let v: GaugeVec<ClashSet> = MetricVec::sparse_with_label_set(ClashSet);
    let h: Histogram<4> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0, 3.0, 4.0]));
    let hv: HistogramVec<ClashSet, 4> = HistogramVec::with_label_set_and_metadata(ClashSet, Thresholds::with_buckets([1.0, 2.0, 3.0, 4.0]));
    for i in 0..32 {
        v.inc(Clash(i));
        hv.observe(Clash(i), 1.0);
    }
    let stop = AtomicBool::new(false);
    let gate = Gate::new(endless + 1);
    let (work, ran) = (AtomicU64::new(0), AtomicU64::new(0));
    let names = [
        "creators and removers against overlapping readers",
        "readers against creators and removers",
        "scrapes against creators and removers",
        "creators against overlapping scrapes",
        "histogram scrapes against observers",
        "observers against histogram scrapes",
    ];
    let seeds: Vec<u64> = (0..endless + 1).map(|_| rng.u64()).collect();
    std::thread::scope(|s| {
        let (v, h, hv, stop, gate, work, ran) = (&v, &h, &hv, &stop, &gate, &work, &ran);
        for &seed in &seeds[1..] {
            worker(s, move || {
                let me = Me::new();
                sched::seed_thread(seed);
                let mut r = Rng::new(seed);
                gate.wait();
                // under the interpreter "without end" has an end
                let mut left = if cfg!(miri) { 60 } else { u64::MAX };
                while !stop.load(Relaxed) && left > 0 {
                    left -= 1;
                    match scenario {
                        0 => {
                            me.op(3);
                            // all the time at least one of them holds the shard
                            let g = v.get_metric(v.with_labels(Clash(r.below(32) as u32)));
                            let d = 20 + r.below(100);
                            for _ in 0..if cfg!(miri) { 2 } else { d * 20 } {
                                std::hint::spin_loop();
                            }
                            g.inc();
                        }
                        1 | 2 => {
                            let i = 32 + r.below(16) as u32;
                            me.op(6);
                            v.inc(Clash(i));
                            me.op(7);
                            drop(v.remove_metric(v.with_labels(Clash(i))));
                        }
                        3 => {
                            me.op(8);
                            drop(export(v, "m"))
                        }
                        4 => {
                            me.op(1);
                            h.observe(2.0);
                            hv.observe(Clash(r.below(4) as u32), 2.0);
                        }
                        _ => {
                            me.op(8);
                            drop(export(h, "h"));
                            drop(export(hv, "h"));
                        }
                    }
                    work.fetch_add(1, Relaxed);
                }
            });
        }
        let seed = seeds[0];
        worker(s, move || {
            let me = Me::new();
            sched::seed_thread(seed);
            let mut r = Rng::new(seed);
            gate.wait();
            for _ in 0..turns {
                let i = 64 + r.below(40) as u32;
                match scenario {
                    0 | 3 => {
                        me.op(6);
                        // hash class of 0..64
                        v.inc(Clash(32 + i % 32));
                        me.op(7);
                        drop(v.remove_metric(v.with_labels(Clash(32 + i % 32))));
                    }
                    1 => {
                        me.op(2);
                        v.inc(Clash(r.below(32) as u32));
                        me.op(10);
                        v.get_cardinality();
                    }
                    2 => {
                        me.op(8);
                        drop(export(v, "m"))
                    }
                    4 => {
                        me.op(8);
                        drop(export(h, "h"));
                        drop(export(hv, "h"));
                    }
                    _ => {
                        me.op(1);
                        h.observe(1.0);
                        me.op(1);
                        hv.observe(Clash(r.below(32) as u32), 1.0);
                    }
                }
                ran.fetch_add(1, Relaxed);
            }
            stop.store(true, SeqCst);
        });
    });
    let (w, r) = (work.into_inner(), ran.into_inner());
    rep.check(r == turns as u64, || format!("{}: {r} of {turns} turns", names[scenario]));
    rep.eval();
    rep.count("starvation histories", 1);
    rep.count("turns against endless work", r);
    rep.count("endless operations", w);
    rep.distinct(format!("{scenario}{endless}{turns}{w}").as_bytes());
    rep.sample(|| format!("{}: {turns} turns finished while {endless} threads did {w} operations", names[scenario]));
}

// ---------------------------------------------------------------- panicking user code

/// which callbacks panic, for threads that are armed
static ARMED: AtomicU32 = AtomicU32::new(0);
static BANGS: AtomicU64 = AtomicU64::new(0);
thread_local!(static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
const ENCODE: u32 = 1;
const ENCODE_DENSE: u32 = 2;
const DECODE: u32 = 4;
const HASH: u32 = 8;
const EQ: u32 = 16;
const VISIT: u32 = 32;
const DEFAULT: u32 = 64;
const COLLECT: u32 = 128;
const TYPE: u32 = 256;
const DROP: u32 = 512;
fn bang(what: u32) {
    sched::user_point();
    if ARMED.load(Relaxed) & what != 0 && ON.with(|o| o.get()) && !std::thread::panicking() && sched::rnd() % 5 == 0 {
        BANGS.fetch_add(1, Relaxed);
        panic!("user code: callback {what} panics");
    }
}

const HZ: usize = 24;
#[derive(Clone, Copy)]
struct Hz(usize);
#[derive(Clone, Copy)]
struct HzId(usize);
impl Hash for HzId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        bang(HASH);
        h.write_usize(self.0 / 3)
    }
}
impl PartialEq for HzId {
    fn eq(&self, o: &Self) -> bool {
        bang(EQ);
        self.0 == o.0
    }
}
impl Eq for HzId {}
struct HzVal(usize);
impl LabelValue for HzVal {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        bang(VISIT);
        v.write_int(self.0 as i64)
    }
}
impl LabelGroup for Hz {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        bang(VISIT);
        v.write_value(LabelName::from_str("hz"), &HzVal(self.0));
    }
}
struct HzSet(bool);
impl LabelGroupSet for HzSet {
    type Group<'a> = Hz;
    type Unique = HzId;
    fn cardinality(&self) -> Option<usize> {
        self.0.then_some(HZ)
    }
    fn encode_dense(&self, v: HzId) -> Option<usize> {
        bang(ENCODE_DENSE);
        self.0.then_some(v.0)
    }
    fn decode_dense(&self, v: usize) -> Hz {
        bang(DECODE);
        Hz(v)
    }
    fn encode(&self, v: Hz) -> Option<HzId> {
        bang(ENCODE);
        (v.0 < HZ).then_some(HzId(v.0))
    }
    fn decode(&self, v: &HzId) -> Hz {
        bang(DECODE);
        Hz(v.0)
    }
}
/// a counter whose callbacks panic
struct Haz(CounterState);
impl Default for Haz {
    fn default() -> Self {
        bang(DEFAULT);
        Haz(CounterState::new(0))
    }
}
impl Drop for Haz {
    fn drop(&mut self) {
        bang(DROP);
    }
}
impl MetricType for Haz {
    type Metadata = ();
}
macro_rules! encode_haz {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> MetricEncoding<$t> for Haz {
            fn write_type(n: impl MetricNameEncoder, e: &mut $t) -> Result<(), <$t as Encoding>::Err> {
                bang(TYPE);
                <CounterState as MetricEncoding<$t>>::write_type(n, e)
            }
            fn collect_into(&self, m: &(), l: impl LabelGroup, n: impl MetricNameEncoder, e: &mut $t) -> Result<(), <$t as Encoding>::Err> {
                bang(COLLECT);
                self.0.collect_into(m, l, n, e)
            }
        }
    )*};
}
encode_haz! {
    [W: Write] TextEncoder<W>;
}
fn export_haz(v: &MetricVec<Haz, HzSet>) -> Vec<(vh::prom::Labels, u64)> {
    decode::<KCounter>(&export(v, "m")).unwrap_or_else(|e| vec![(vec![("unreadable".into(), e)], 0)])
}

fn panicking(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let dense = rng.chance(1, 2);
    let v: MetricVec<Haz, HzSet> = if dense {
        MetricVec::dense_with_label_set(HzSet(true))
    } else {
        MetricVec::sparse_with_label_set(HzSet(rng.chance(1, 2)))
    };
    let all = [ENCODE, ENCODE_DENSE, DECODE, HASH, EQ, VISIT, DEFAULT, COLLECT, TYPE, DROP];
    let mut armed = *rng.pick(&all);
    while rng.chance(1, 3) {
        armed |= *rng.pick(&all);
    }
    let removers = rng.chance(1, 2);
    // a hash that panics while a table with removed entries is compacted may cost entries: there only
    // usability is claimed; dropping a removed state is outside the vec
    let exact = !(armed & HASH != 0 && removers);
    let threads = ctx.n(rng.range(1, 6), 2);
    let victims = rng.range(1, threads);
    let ops = ctx.n(rng.range(5, 200), 12);
    let bombs = rng.chance(1, 2);
    sched::CHAOS.store(if rng.chance(1, 3) { 100 } else { 0 }, SeqCst);
    ARMED.store(armed, SeqCst);
    BANGS.store(0, SeqCst);
    let gate = Gate::new(threads);
    let ledger: Vec<AtomicU64> = (0..HZ).map(|_| AtomicU64::new(0)).collect();
    let errs = std::sync::Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let wbangs = AtomicU64::new(0);
    std::thread::scope(|s| {
        let (v, gate, ledger, errs, wbangs) = (&v, &gate, &ledger, &errs, &wbangs);
        for (t, &seed) in seeds.iter().enumerate() {
            worker(s, move || {
                let me = Me::new();
                sched::seed_thread(seed);
                let mut r = Rng::new(seed);
                let victim = t < victims;
                ON.with(|o| o.set(victim));
                gate.wait();
                for _ in 0..ops {
                    let i = r.below(HZ);
                    let op = r.below(if removers { 9 } else { 8 });
                    let x = catch(|| match op {
                        0..=3 => {
                            me.op(2);
                            let g = v.get_metric(v.with_labels(Hz(i)));
                            g.0.inc_by(1);
                            // the recording is done, whatever happens later
                            ledger[i].fetch_add(1, SeqCst);
                            if victim && r.chance(1, 10) {
                                panic!("user code: the owner of a guard panics");
                            }
                        }
                        4 => {
                            me.op(8);
                            for (l, _) in export_haz(v) {
                                if l.first().is_some_and(|l| l.0 == "unreadable") {
                                    ask(&format!("{l:?}"), "scrape", errs)
                                }
                            }
                        }
                        5 => {
                            me.op(10);
                            let c = v.get_cardinality().0;
                            if c > HZ {
                                ask(&format!("cardinality {c}"), "cardinality", errs)
                            }
                        }
                        6 => {
                            me.op(5);
                            if v.try_with_labels(Hz(HZ + i)).is_some() {
                                ask("a group outside the set is accepted", "lookup", errs)
                            }
                        }
                        7 => {
                            me.op(9);
                            if victim && bombs {
                                let mut e = TextEncoder::new(Bomb(r.below(60)));
                                let _ = v.collect_family_into(name(), &mut e).and_then(|_| e.flush());
                                // the panic is the writer's
                            } else {
                                let mut e = TextEncoder::new(Slow(&me, vec![], 4));
                                let _ = v.collect_family_into(name(), &mut e);
                            }
                        }
                        _ => {
                            me.op(7);
                            if let Some(m) = v.remove_metric(v.with_labels(Hz(i))) {
                                let x = m.0.count.load(SeqCst);
                                ledger[i].fetch_sub(x, SeqCst);
                            }
                        }
                    });
                    if let Err(p) = x {
                        if !p.contains("user code") {
                            ask(&p, &format!("operation {op}"), errs);
                        } else if !victim {
                            ask(&p, "a panic reached a thread whose user code does not panic", errs);
                        } else {
                            wbangs.fetch_add(1, SeqCst);
                        }
                    }
                }
            });
        }
    });
    ARMED.store(0, SeqCst);
    let what = format!("dense {dense}, callbacks {armed:#x} panic in {victims} of {threads} threads, bombs {bombs}, removers {removers}");
    let first = errs.lock().unwrap_or_else(|e| e.into_inner()).first().cloned();
    if let Some(e) = first {
        rep.violation(format!("{what}: {e}"));
    }
    // everything works from another thread, with the right values
    let mut v = v;
    let problem = std::thread::scope(|s| {
        let (v, ledger) = (&mut v, &ledger);
        worker(s, move || {
            let me = Me::new();
            let r = catch(|| {
                me.op(14);
                let before = export_haz(v);
                if exact {
                    for (i, l) in ledger.iter().enumerate() {
                        let got = before.iter().find(|x| x.0[0].1 == i.to_string()).map_or(0, |x| x.1);
                        let want = l.load(SeqCst);
                        if got != want {
                            return Some(format!("after the panics series {i} exports {got}, recorded {want}"));
                        }
                    }
                }
                me.op(14);
                if v.get_cardinality().0 != before.len() {
                    return Some(format!("after the panics cardinality is {} with {} series", v.get_cardinality().0, before.len()));
                }
                for i in 0..HZ {
                    me.op(14);
                    let id = v.with_labels(Hz(i));
                    v.get_metric(id).0.inc_by(1);
                    v.get_metric_mut(id).0.inc_by(1);
                }
                me.op(14);
                let after = export_haz(v);
                if after.len() != HZ {
                    return Some(format!("after the panics {} of {HZ} series can be recorded", after.len()));
                }
                for (l, x) in &after {
                    let old = before.iter().find(|b| b.0 == *l).map_or(0, |b| b.1);
                    if *x != old + 2 {
                        return Some(format!("after the panics series {l:?} goes from {old} to {x} by 2"));
                    }
                }
                me.op(14);
                v.init_all_dense();
                for i in 0..HZ {
                    me.op(14);
                    let got = v.remove_metric(v.with_labels(Hz(i))).map(|m| m.0.count.load(SeqCst));
                    let want = after.iter().find(|x| x.0[0].1 == i.to_string()).map(|x| x.1).filter(|_| !dense);
                    if got != want {
                        return Some(format!("after the panics removing series {i} returns {got:?}, exported {want:?}"));
                    }
                }
                let left = v.get_cardinality().0;
                if left != if dense { HZ } else { 0 } {
                    return Some(format!("after the panics {left} series remain after removal of all"));
                }
                None
            });
            match r {
                Ok(x) => x,
                Err(p) => Some(format!("after the panics the vec cannot be used: {p}")),
            }
        })
        .join()
        .unwrap()
    });
    sched::CHAOS.store(0, SeqCst);
    if let Some(p) = problem {
        rep.violation(format!("{what}: {p}"));
    }
    let b = wbangs.into_inner();
    rep.eval();
    rep.count("histories with panicking user code", 1);
    rep.count("panics of user code survived", b);
    if b > 0 {
        rep.distinct(format!("{what}{b}{:?}", ledger.iter().map(|l| l.load(SeqCst)).collect::<Vec<_>>()).as_bytes());
        rep.sample(|| format!("{what}: {b} panics survived"));
    }
}

/// a panicking writer in the middle of a histogram, a registry of several families
fn panicking_scrapes(rep: &mut Report, rng: &mut Rng) {
    let h: Histogram<4> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0, 3.0, 4.0]));
    let hv: HistogramVec<ClashSet, 4> = HistogramVec::with_label_set_and_metadata(ClashSet, Thresholds::with_buckets([1.0, 2.0, 3.0, 4.0]));
    let c: CounterVec<ClashSet> = CounterVec::with_label_set(ClashSet);
    for i in 0..5 {
        h.observe(i as f64);
        hv.observe(Clash(i % 3), i as f64);
        c.inc(Clash(i));
    }
    let want = (export(&h, "m"), export(&hv, "m"), export(&c, "m"));
    let all = |k: usize| {
        let mut e = TextEncoder::new(Bomb(k));
        catch(|| h.collect_family_into(name(), &mut e).and_then(|_| hv.collect_family_into(name(), &mut e)).and_then(|_| c.collect_family_into(name(), &mut e)).and_then(|_| e.flush()))
    };
    let mut total = 0;
    for k in (0..).step_by(1 + rng.below(4)) {
        let r = all(k);
        let r2 = std::thread::scope(|s| {
            worker(s, || {
                let me = Me::new();
                me.op(14);
                // another thread scrapes, records and creates right away
                let x = (export(&h, "m"), export(&hv, "m"), export(&c, "m"));
                me.op(14);
                drop(h.get_metric());
                hv.observe(Clash(77), 1.0);
                drop(hv.remove_metric(hv.with_labels(Clash(77))));
                c.inc(Clash(77));
                drop(c.remove_metric(c.with_labels(Clash(77))));
                x
            })
            .join()
        });
        match r2 {
            Ok(x) => rep.check(x == want, || format!("a scrape after the writer panicked at write {k} differs")),
            Err(_) => rep.violation(format!("metrics cannot be used after the writer panicked at write {k}")),
        }
        match r {
            Ok(_) => break,
            Err(p) => rep.check(p.contains("user code"), || format!("the writer panics at write {k}: {p}")),
        }
        total += 1;
        if cfg!(miri) && total > 6 {
            break;
        }
    }
    rep.count("writer panics survived", total);
    rep.eval();
}

// ---------------------------------------------------------------- totality: nothing panics

fn extremes<K: Kind, S: KeySpace>(rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let r = catch(|| {
        let mut v = make::<K::M, S>(repr, K::meta());
        drop(export(&v, "m"));
        v.get_cardinality();
        for _ in 0..30 {
            let i = rng.below(S::n());
            let path = *rng.pick(&PATHS);
            let op = K::rand(rng);
            match rng.below(8) {
                0 => drop(export(&v, "m")),
                1 => drop(v.remove_metric(v.with_labels(S::group(i)))),
                2 if S::cardinality().is_none_or(|c| c <= 2000) => v.init_all_dense(),
                3 => drop(v.get_cardinality()),
                4 => {
                    if let Some(b) = S::bad(i) {
                        assert!(v.try_with_labels(b).is_none(), "a group outside the set is accepted");
                    }
                }
                _ => record::<K, S::Set>(&mut v, path, S::group(i), op),
            }
        }
        export(&v, "m")
    });
    match r {
        Ok(_) => {}
        Err(p) => rep.violation(format!("{} on {} repr {repr}: valid use panics: {p}", K::NAME, S::NAME)),
    }
    rep.count("sequential histories without panic", 1);
    rep.eval();
}

/// very many series: every operation still succeeds, in several threads
fn many<S: KeySpace>(rep: &mut Report, rng: &mut Rng, repr: u8, all: bool) {
    let n = S::n().min(if all { usize::MAX } else { *rng.pick(&[6_000, 30_000, 70_000, 140_000, 160_000]) });
    let v = make::<measured::metric::counter::CounterState, S>(repr, ());
    let seeds: Vec<u64> = (0..rng.range(1, 4)).map(|_| rng.u64()).collect();
    let done = AtomicU64::new(0);
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for &seed in &seeds {
            let (v, done, bad) = (&v, &done, &bad);
            worker(s, move || {
                let me = Me::new();
                let mut r = Rng::new(seed);
                let start = r.below(n);
                for i in 0..n + n / 4 {
                    let i = (start + i) % n;
                    me.op(1);
                    let x = catch(|| {
                        v.inc(S::group(i));
                        if i % 61 == 0 {
                            drop(v.remove_metric(v.with_labels(S::group(r.below(n)))));
                        }
                        if i % 4099 == 0 {
                            let c = v.get_cardinality().0;
                            assert!(c <= n, "cardinality {c} of at most {n} series");
                        }
                        if i % 30_011 == 0 {
                            drop(export(v, "m"));
                        }
                    });
                    if let Err(p) = x {
                        bad.lock().unwrap().get_or_insert(format!("series {i}: {p}"));
                        return;
                    }
                    done.fetch_add(1, Relaxed);
                }
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        rep.violation(format!("{} repr {repr}, {n} series in {} threads: {b}", S::NAME, seeds.len()));
    }
    rep.eval();
    rep.count("histories with very many series", 1);
    rep.count("operations on vecs with very many series", done.into_inner());
}

struct Go<'a>(&'a Ctx, &'a mut Report, &'a mut Rng);
struct GoKind<'b, 'a, S>(&'b mut Go<'a>, std::marker::PhantomData<S>);
impl WithKeys for Go<'_> {
    fn run<S: KeySpace>(&mut self) {
        if !self.0.time_left() || (self.0.small && !["routes-reader", "colliding-hashes"].contains(&S::NAME)) {
            return;
        }
        // one kind per visit, all in turn
        let c = self.0;
        match self.2.below(4) {
            0 => mixed::<KCounter, S>(c, self.1, self.2),
            1 => mixed::<KGauge, S>(c, self.1, self.2),
            2 => mixed::<KFloat, S>(c, self.1, self.2),
            _ => mixed::<KHist, S>(c, self.1, self.2),
        }
        if !c.small {
            each_kind(&mut GoKind::<S>(self, std::marker::PhantomData));
        }
    }
}
impl<S: KeySpace> WithKind for GoKind<'_, '_, S> {
    fn run<K: Kind>(&mut self) {
        extremes::<K, S>(self.0 .1, self.0 .2)
    }
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one history (2..9 threads of mixed operations; a thread with a fixed number of turns against endless ones; a history with panicking user code; a writer that panics at each write) in which every thread finished and the vec works afterwards; distinct = (configuration, outcome)";
        #[cfg(not(miri))]
        {
            let out = ctx.out_path().map(|s| s.to_string());
            std::thread::Builder::new().name("monitor".into()).spawn(move || monitor(out)).unwrap();
        }

        let mut rng = ctx.rng(31);
        let mut first = true;
        loop {
            if !ctx.small {
                let repr = rng.below(3) as u8;
                if first {
                    ctx.beside(|| {
                        many::<KManyIdx>(rep, &mut rng, 1, true);
                        many::<KManyDyn>(rep, &mut rng, 0, true);
                    });
                } else if rng.chance(1, 2) {
                    many::<KManyDyn>(rep, &mut rng, repr, false)
                } else {
                    many::<KManyIdx>(rep, &mut rng, repr, false)
                }
                first = false;
            }
            each_key_space(&mut Go(ctx, rep, &mut rng));
            for _ in 0..ctx.n(6, 1) {
                if !ctx.time_left() {
                    break;
                }
                starve(ctx, rep, &mut rng);
                for _ in 0..ctx.n(6, 1) {
                    panicking(ctx, rep, &mut rng);
                }
            }
            panicking_scrapes(rep, &mut rng);
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
