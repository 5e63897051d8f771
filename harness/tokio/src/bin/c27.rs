//! C27: tokio metrics report the runtime's own counters under the right labels. Every export is
//! compared with what RuntimeMetrics itself says right before and right after it: exactly while the
//! runtimes are frozen in a chosen state, as brackets of the monotone quantities while they run,
//! shut down and are being registered.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::BufferedTextEncoder;
use measured_prometheus_protobuf::ProtoEncoder;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use tokio::runtime::{Builder, Handle, HistogramScale, Runtime, RuntimeMetrics};
use vh::report::{catch, run};
use vh::{prom, Ctx, Report, Rng};

// ---------------------------------------------------------------- what the runtime says

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    /// only ever grows
    Count(u64),
    Secs(f64),
    Gauge(i64),
    Mean(f64),
}
type Labels = Vec<(String, String)>;
type Key = (&'static str, String, Labels);
type Snap = BTreeMap<Key, Val>;

const FAMILIES: [(&str, &str); 14] = [
    ("threads", "gauge"),
    ("active_tasks", "gauge"),
    ("queued_tasks", "gauge"),
    ("scheduled_tasks_total", "counter"),
    ("budget_forced_yield_count", "counter"),
    ("worker_mean_poll_time_seconds", "gauge"),
    ("worker_noop_count", "counter"),
    ("worker_park_count", "counter"),
    ("worker_steal_count", "counter"),
    ("worker_steal_operations_count", "counter"),
    ("worker_poll_time_seconds", "histogram"),
    ("registered_fds_total", "counter"),
    ("deregistered_fds_total", "counter"),
    ("io_ready_events_total", "counter"),
];
const HIST: &str = "worker_poll_time_seconds";

fn le(m: &RuntimeMetrics, b: usize) -> f64 {
    // the last bucket is open ended
    if b + 1 == m.poll_count_histogram_num_buckets() {
        f64::INFINITY
    } else {
        m.poll_count_histogram_bucket_range(b).end.as_secs_f64()
    }
}

fn snap(m: &RuntimeMetrics, name: Option<&str>, out: &mut Snap) {
    let mut put = |fam: &'static str, suffix: &str, labels: &[(&str, String)], v: Val| {
        let mut l: Labels = labels.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        l.extend(name.map(|n| ("runtime".to_string(), n.to_string())));
        l.sort();
        assert!(out.insert((fam, format!("{fam}{suffix}"), l), v).is_none(), "two runtimes of one name");
    };
    let kind = |k: &str| [("kind", k.to_string())];
    let idle = m.num_idle_blocking_threads();
    put("threads", "", &kind("worker"), Val::Gauge(m.num_workers() as i64));
    put("threads", "", &kind("idle"), Val::Gauge(idle as i64));
    put("threads", "", &kind("blocking"), Val::Gauge(m.num_blocking_threads().saturating_sub(idle) as i64));
    put("active_tasks", "", &[], Val::Gauge(m.active_tasks_count() as i64));
    put("queued_tasks", "", &kind("blocking"), Val::Gauge(m.blocking_queue_depth() as i64));
    put("queued_tasks", "", &kind("injection"), Val::Gauge(m.injection_queue_depth() as i64));
    put("budget_forced_yield_count", "", &[], Val::Count(m.budget_forced_yield_count()));
    put("registered_fds_total", "", &[], Val::Count(m.io_driver_fd_registered_count()));
    put("deregistered_fds_total", "", &[], Val::Count(m.io_driver_fd_deregistered_count()));
    put("io_ready_events_total", "", &[], Val::Count(m.io_driver_ready_count()));
    let over = |w: &str, o: &str| [("worker", w.to_string()), ("overflow", o.to_string())];
    put("scheduled_tasks_total", "", &over("remote", "true"), Val::Count(m.remote_schedule_count()));
    for w in 0..m.num_workers() {
        let n = w.to_string();
        let worker = [("worker", n.clone())];
        put("queued_tasks", "", &kind(&n), Val::Gauge(m.worker_local_queue_depth(w) as i64));
        put("scheduled_tasks_total", "", &over(&n, "false"), Val::Count(m.worker_local_schedule_count(w)));
        put("scheduled_tasks_total", "", &over(&n, "true"), Val::Count(m.worker_overflow_count(w)));
        put("worker_mean_poll_time_seconds", "", &worker, Val::Mean(m.worker_mean_poll_time(w).as_secs_f64()));
        put("worker_noop_count", "", &worker, Val::Count(m.worker_noop_count(w)));
        put("worker_park_count", "", &worker, Val::Count(m.worker_park_count(w)));
        put("worker_steal_count", "", &worker, Val::Count(m.worker_steal_count(w)));
        put("worker_steal_operations_count", "", &worker, Val::Count(m.worker_steal_operations(w)));
        if m.poll_count_histogram_enabled() {
            let mut sum = 0;
            for b in 0..m.poll_count_histogram_num_buckets() {
                sum += m.poll_count_histogram_bucket_count(w, b);
                // the bound as a number, not as a spelling
                put(HIST, "_bucket", &[("worker", n.clone()), ("le", format!("{:?}", le(m, b)))], Val::Count(sum));
            }
        }
        put(HIST, "_count", &worker, Val::Count(m.worker_poll_count(w)));
        put(HIST, "_sum", &worker, Val::Secs(m.worker_total_busy_duration(w).as_secs_f64()));
    }
}

// ---------------------------------------------------------------- what the collector says

enum Col<'a> {
    One(&'a RuntimeCollector),
    Many(&'a NamedRuntimesCollector),
}

struct Got {
    /// the number as written (text) or decoded (protobuf)
    series: BTreeMap<Key, Num>,
    hist: bool,
}
#[derive(Clone, Debug)]
enum Num {
    Raw(String),
    F(f64),
}

fn fam(name: &str) -> Result<(&'static str, &'static str), String> {
    FAMILIES.iter().find(|f| f.0 == name).copied().ok_or_else(|| format!("unknown family {name:?}"))
}
fn key(f: &'static str, name: String, labels: &[(String, String)]) -> Result<Key, String> {
    let mut l = vec![];
    for (k, v) in labels {
        let v = if k == "le" {
            let x = prom::parse_number(v).ok_or_else(|| format!("le={v:?}"))?;
            format!("{x:?}")
        } else {
            v.clone()
        };
        l.push((k.clone(), v));
    }
    l.sort();
    Ok((f, name, l))
}

fn text(out: &[u8], ns: Option<&str>) -> Result<Got, String> {
    let strip = |n: &str| -> Result<String, String> {
        match ns {
            None => Ok(n.to_string()),
            Some(p) => n.strip_prefix(p).and_then(|n| n.strip_prefix('_')).map(String::from).ok_or_else(|| format!("{n} lacks its namespace")),
        }
    };
    let mut series = BTreeMap::new();
    let mut cur: Option<(&'static str, &'static str)> = None;
    let mut seen = BTreeSet::new();
    let (mut typed, mut samples, mut blank) = (false, 0, true);
    // per histogram series: the bounds and counts in the order written
    let mut hist: Vec<(Labels, Vec<(f64, u64)>)> = vec![];
    for l in prom::parse_lines(out)? {
        match l {
            prom::Line::Comment(c) => return Err(format!("unexpected comment {c:?}")),
            prom::Line::Blank => blank = true,
            prom::Line::Help(n, h) => {
                let f = fam(&strip(&n)?)?;
                if !seen.insert(f.0) {
                    return Err(format!("family {n} appears twice"));
                }
                if samples > 0 && !blank {
                    return Err(format!("no blank line before {n}"));
                }
                if h.trim().is_empty() {
                    return Err(format!("{n} has no help"));
                }
                (cur, typed, samples, blank) = (Some(f), false, 0, false);
            }
            prom::Line::Type(n, t) => {
                if blank || samples > 0 || typed || cur != Some(fam(&strip(&n)?)?) {
                    return Err(format!("misplaced TYPE line of {n}"));
                }
                if t != cur.unwrap().1 {
                    return Err(format!("{n} has type {t}"));
                }
                typed = true;
            }
            prom::Line::Sample(s) => {
                let Some(f) = cur else { return Err(format!("sample {s:?} before any family")) };
                if blank {
                    return Err(format!("blank line before {s:?}"));
                }
                // known-findings.txt: the poll time histogram carries no type
                if !typed && f.0 != HIST {
                    return Err(format!("{} has no type", f.0));
                }
                samples += 1;
                let name = strip(&s.name)?;
                let ok = if f.0 == HIST { matches!(name.strip_prefix(HIST), Some("_bucket" | "_sum" | "_count")) } else { name == f.0 };
                if !ok {
                    return Err(format!("sample {s:?} in family {}", f.0));
                }
                if name == format!("{HIST}_bucket") {
                    let b = s.labels.iter().find(|l| l.0 == "le").ok_or("a bucket without le")?.1.clone();
                    let rest: Labels = s.labels.iter().filter(|l| l.0 != "le").cloned().collect();
                    let b = (prom::parse_number(&b).ok_or("bad le")?, s.raw.parse().map_err(|_| format!("count {}", s.raw))?);
                    match hist.last_mut() {
                        Some((l, v)) if *l == rest => v.push(b),
                        _ => hist.push((rest, vec![b])),
                    }
                }
                if series.insert(key(f.0, name, &s.labels)?, Num::Raw(s.raw.clone())).is_some() {
                    return Err(format!("series {s:?} appears twice"));
                }
            }
        }
    }
    for f in FAMILIES {
        if !seen.contains(f.0) {
            return Err(format!("family {} is missing", f.0));
        }
    }
    for (l, v) in &hist {
        if v.windows(2).any(|w| w[0].0 >= w[1].0 || w[0].1 > w[1].1) || v.last().unwrap().0 != f64::INFINITY {
            return Err(format!("the histogram of {l:?} is {v:?}"));
        }
    }
    if hist.iter().map(|h| &h.0).collect::<BTreeSet<_>>().len() != hist.len() {
        return Err("the buckets of one histogram are not together".into());
    }
    Ok(Got { series, hist: true })
}

fn proto(out: &[u8], any: bool) -> Result<Got, String> {
    let mut series = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for f in vh_proto::decode(out)? {
        let n = f.name.clone().unwrap_or_default();
        // histograms have no protobuf encoding
        if n.starts_with(HIST) {
            continue;
        }
        let (name, typ) = fam(&n)?;
        if !seen.insert(name) {
            return Err(format!("family {n} appears twice"));
        }
        if f.typ != u64::from(typ == "gauge") || f.help.is_none() {
            return Err(format!("{n} has type {} and help {:?}", f.typ, f.help));
        }
        for m in f.metrics {
            if m.kind != typ {
                return Err(format!("{n} holds a {}", m.kind));
            }
            if series.insert(key(name, n.clone(), &m.labels)?, Num::F(m.value)).is_some() {
                return Err(format!("series {:?} of {n} appears twice", m.labels));
            }
        }
    }
    for f in FAMILIES {
        if any && f.0 != HIST && !seen.contains(f.0) {
            return Err(format!("family {} is missing", f.0));
        }
    }
    Ok(Got { series, hist: false })
}

fn export(c: &Col, how: usize, any: bool) -> Result<Got, String> {
    if how == 3 {
        let mut e = ProtoEncoder::new(Vec::<u8>::new());
        match c {
            Col::One(c) => c.collect_group_into(&mut e),
            Col::Many(c) => c.collect_group_into(&mut e),
        }
        .map_err(|e| e.to_string())?;
        e.flush().map_err(|e| e.to_string())?;
        return proto(&e.writer, any);
    }
    let mut e = BufferedTextEncoder::new();
    let Ok(()) = match (c, how) {
        (Col::One(c), 0) => c.collect_group_into(&mut e),
        (Col::Many(c), 0) => c.collect_group_into(&mut e),
        (Col::One(c), 1) => WithNamespace::new("tokio", *c).collect_group_into(&mut e),
        (Col::Many(c), 1) => WithNamespace::new("tokio", *c).collect_group_into(&mut e),
        (Col::One(c), _) => Some(c).collect_group_into(&mut &mut e),
        (Col::Many(c), _) => Some(c).collect_group_into(&mut &mut e),
    };
    text(&e.finish(), (how == 1).then_some("tokio"))
}

/// exact: nothing moves, so every value must be the one before and after
fn judge(got: &Got, a: &Snap, b: &Snap, exact: bool) -> Result<(u64, u64), String> {
    let want = |k: &&Key| got.hist || k.0 != HIST;
    for k in got.series.keys() {
        if !a.contains_key(k) {
            return Err(format!("unexpected series {}{:?}", k.1, k.2));
        }
    }
    let (mut n, mut nonzero) = (0, 0);
    for k in a.keys().filter(want) {
        let Some(v) = got.series.get(k) else { return Err(format!("series {}{:?} is missing", k.1, k.2)) };
        let bad = |what: String| Err(format!("{}{:?} is {v:?}, the runtime says {what}", k.1, k.2));
        let float = match v {
            Num::Raw(r) => prom::parse_number(r).ok_or_else(|| format!("{} is {r:?}", k.1))?,
            Num::F(f) => *f,
        };
        match (a[k], b[k]) {
            (Val::Count(x), Val::Count(y)) => {
                let ok = match v {
                    Num::Raw(r) => r.parse::<u64>().is_ok_and(|v| (x..=y).contains(&v)),
                    Num::F(f) => (x as f64..=y as f64).contains(f),
                };
                if !ok {
                    return bad(format!("{x} before and {y} after"));
                }
                nonzero += (x > 0) as u64;
            }
            (Val::Secs(x), Val::Secs(y)) => {
                if !(x..=y).contains(&float) {
                    return bad(format!("{x} before and {y} after"));
                }
                nonzero += (x > 0.0) as u64;
            }
            (Val::Gauge(x), Val::Gauge(y)) => {
                let fixed = exact || k.2.iter().any(|l| l == &("kind".into(), "worker".into()));
                if let Num::Raw(r) = v {
                    if r.parse::<i64>().is_err() {
                        return bad(format!("{x}"));
                    }
                }
                if fixed && float != x as f64 || float < 0.0 {
                    return bad(format!("{x} before and {y} after"));
                }
                nonzero += (x > 0) as u64;
            }
            (Val::Mean(x), Val::Mean(y)) => {
                if exact && float != x || !(0.0..1e6).contains(&float) {
                    return bad(format!("{x} before and {y} after"));
                }
                nonzero += (x > 0.0) as u64;
            }
            _ => unreachable!(),
        }
        n += 1;
    }
    Ok((n, nonzero))
}

/// one export of the runtimes, compared
fn check(rep: &mut Report, c: &Col, rts: &[(RuntimeMetrics, Option<String>)], how: usize, frozen: bool, what: &dyn Fn() -> String) {
    let all = || {
        let mut s = Snap::new();
        for (m, n) in rts {
            snap(m, n.as_deref(), &mut s);
        }
        s
    };
    for attempt in 0.. {
        let a = all();
        let got = match catch(|| export(c, how, !rts.is_empty())) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) => rep.violation(format!("{}: {e}", what())),
            Err(p) => rep.violation(format!("{}: the export panics: {p}", what())),
        };
        let b = all();
        let exact = frozen && a == b;
        match judge(&got, &a, &b, exact) {
            Ok((n, nonzero)) => {
                rep.eval();
                rep.count(if exact { "samples compared exactly" } else { "samples bracketed" }, n);
                rep.count("samples whose value is not zero", nonzero);
                rep.count("exports compared exactly", exact as u64);
                rep.count("exports of runtimes in motion", (a != b) as u64);
                rep.distinct(format!("{:?}", got.series).as_bytes());
            }
            // a runtime that was believed frozen may have moved there and back
            Err(_) if exact && attempt < 3 => {
                rep.count("exports repeated", 1);
                std::thread::sleep(Duration::from_millis(5));
                continue;
            }
            Err(e) => rep.violation(format!("{}: {e}", what())),
        }
        break;
    }
}

// ---------------------------------------------------------------- the runtimes

fn name(r: &mut Rng, i: usize) -> Cow<'static, str> {
    let odd = ["main", "a b", "x\"y", "back\\slash", "new\nline", "é\u{1F600}", "", "0", "{}", ",le=\"1\""];
    match r.below(3) {
        0 => format!("{}{i}", r.any_string(12)).into(),
        1 if i < odd.len() => odd[i].into(),
        _ => format!("rt-{i}").into(),
    }
}

/// blocked threads that can be counted and let go
#[derive(Default)]
struct Hold {
    arrived: AtomicUsize,
    open: Mutex<bool>,
    cv: Condvar,
}
impl Hold {
    fn wait(&self) {
        self.arrived.fetch_add(1, SeqCst);
        let mut g = self.open.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn arrived(&self, n: usize) -> bool {
        let t = Instant::now();
        while self.arrived.load(SeqCst) < n {
            if t.elapsed() > Duration::from_secs(2) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        true
    }
    fn release(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

struct Rt {
    rt: Option<Runtime>,
    h: Handle,
    multi: Option<usize>,
    io: bool,
    blocking: usize,
    big: bool,
    desc: String,
    history: Vec<String>,
}

fn build(r: &mut Rng, big: bool) -> Rt {
    let multi = (big || r.chance(3, 4)).then(|| if big { r.range(66, 140) } else { r.range(1, 5) });
    let mut b = match multi {
        Some(w) => {
            let mut b = Builder::new_multi_thread();
            b.worker_threads(w);
            if r.chance(1, 3) {
                b.disable_lifo_slot();
            }
            b
        }
        None => Builder::new_current_thread(),
    };
    let mut desc = format!("{multi:?} workers");
    if r.chance(3, 4) {
        let log = r.chance(1, 2);
        b.enable_metrics_poll_count_histogram();
        b.metrics_poll_count_histogram_scale(if log { HistogramScale::Log } else { HistogramScale::Linear });
        let res = *r.pick(&[1u64, 50, 100, 1000, 12_345, 100_000, 1_000_000_000]);
        let n = if big && !log { r.range(65, 140) } else { r.range(1, 24) };
        b.metrics_poll_count_histogram_resolution(Duration::from_nanos(res));
        b.metrics_poll_count_histogram_buckets(n);
        desc += &format!(", {} histogram of {n} buckets at {res} ns", if log { "log" } else { "linear" });
    }
    let blocking = if big { r.range(257, 300) } else { r.range(1, 6) };
    b.max_blocking_threads(blocking);
    b.enable_time();
    let io = r.chance(2, 3);
    if io {
        b.enable_io();
    }
    if r.chance(1, 3) {
        b.event_interval(r.range(1, 20) as u32);
    }
    if r.chance(1, 3) {
        b.global_queue_interval(r.range(1, 20) as u32);
    }
    let rt = b.build().expect("cannot build a runtime");
    let h = rt.handle().clone();
    Rt { rt: Some(rt), h, multi, io, blocking, big, desc, history: vec![] }
}

fn spin(ns: u64) {
    let t = Instant::now();
    while (t.elapsed().as_nanos() as u64) < ns {
        std::hint::spin_loop();
    }
}

/// one step of work; ends when it is done
async fn work(kind: usize, n: usize, io: bool) {
    let mut js = vec![];
    match kind {
        0 => {
            for _ in 0..n {
                js.push(tokio::spawn(async move {
                    for _ in 0..n {
                        tokio::task::yield_now().await;
                    }
                }));
            }
        }
        // more than a local queue holds
        1 => js.push(tokio::spawn(async move {
            let mut v = vec![];
            for _ in 0..260 + 7 * n {
                v.push(tokio::spawn(async {}));
            }
            for j in v {
                let _ = j.await;
            }
        })),
        // a channel that never runs dry: the budget does
        2 => {
            let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
            for i in 0..100 + 40 * n {
                let _ = tx.send(i);
            }
            drop(tx);
            js.push(tokio::spawn(async move { while rx.recv().await.is_some() {} }));
        }
        3 => {
            for i in 0..n {
                js.push(tokio::spawn(async move { tokio::time::sleep(Duration::from_micros(200 * i as u64)).await }));
            }
        }
        4 => {
            for _ in 0..n {
                js.push(tokio::task::spawn_blocking(|| spin(20_000)));
            }
        }
        5 => {
            for i in 0..n {
                js.push(tokio::spawn(async move {
                    for k in 0..6 {
                        spin(200 << (2 * k + i % 3));
                        tokio::task::yield_now().await;
                    }
                }));
            }
        }
        _ if io => {
            use tokio::io::{AsyncReadExt, AsyncWriteExt};
            for _ in 0..n.min(5) {
                if let Ok((mut a, mut b)) = tokio::net::UnixStream::pair() {
                    js.push(tokio::spawn(async move {
                        let mut x = [0u8; 1];
                        for _ in 0..10 {
                            if a.write_all(&[7]).await.is_err() || a.read_exact(&mut x).await.is_err() {
                                return;
                            }
                        }
                    }));
                    js.push(tokio::spawn(async move {
                        let mut x = [0u8; 1];
                        while b.read_exact(&mut x).await.is_ok() {
                            if b.write_all(&x).await.is_err() {
                                return;
                            }
                        }
                    }));
                }
            }
        }
        _ => {}
    }
    for j in js {
        let _ = j.await;
    }
}

impl Rt {
    fn step(&mut self, r: &mut Rng) {
        let (k, n) = (r.below(7), r.range(1, 12));
        self.history.push(format!("{k}x{n}"));
        let io = self.io;
        self.rt.as_ref().unwrap().block_on(work(k, n, io));
    }

    /// Hold the runtime in a state in which nothing moves, run f, let it go.
    /// false: it did not come to rest.
    fn freeze(&mut self, r: &mut Rng, f: &mut dyn FnMut(String)) -> bool {
        let stop = Arc::new(Hold::default());
        // a local queue holds 256 tasks, the rest overflows
        let deep = self.big || r.chance(1, 8);
        let (l, i, e) = if deep { (600, 5_000, 700) } else { (20, 30, 12) };
        let (local, remote) = ((0..8).map(|_| r.below(l)).collect::<Vec<_>>(), r.below(i));
        let (busy, extra) = (if deep && r.chance(1, 2) { self.blocking } else { r.range(0, self.blocking) }, r.below(e));
        let rt = self.rt.as_ref().unwrap();
        // blocking pool: some threads went idle, some are busy, the rest of the work waits
        let idle = r.below(self.blocking + 1);
        let warm = Arc::new(Hold::default());
        let mut js = vec![];
        for _ in 0..idle {
            let w = warm.clone();
            js.push(rt.spawn_blocking(move || w.wait()));
        }
        let ok = warm.arrived(idle);
        warm.release();
        for j in js {
            let _ = rt.block_on(j);
        }
        if !ok {
            return false;
        }
        let pool = Arc::new(Hold::default());
        let queued = if busy == self.blocking { extra } else { 0 };
        let mut blocked = vec![];
        for _ in 0..busy + queued {
            let p = pool.clone();
            blocked.push(rt.spawn_blocking(move || p.wait()));
        }
        let mut ok = pool.arrived(busy);
        let what = format!("{} after {:?}: local tasks {local:?}, injected {remote}, blocking {busy}+{queued}, up to {idle} idle", self.desc, self.history);
        if let Some(w) = self.multi {
            let go = Arc::new(Hold::default());
            for _ in 0..w {
                let (go, stop, local) = (go.clone(), stop.clone(), local.clone());
                rt.spawn(async move {
                    go.wait();
                    // every worker is here now: what is queued stays queued
                    let i = stop.arrived.load(SeqCst) % local.len();
                    for _ in 0..local[i] {
                        tokio::spawn(async {});
                    }
                    stop.wait();
                });
            }
            ok &= go.arrived(w);
            go.release();
            ok &= stop.arrived(w);
            for _ in 0..remote {
                rt.spawn(async {});
            }
            if ok {
                std::thread::sleep(Duration::from_micros(500));
                f(what);
            }
            stop.release();
        } else {
            rt.block_on(async {
                for _ in 0..local[0] {
                    tokio::spawn(async {});
                }
                let h = Handle::current();
                std::thread::scope(|s| {
                    s.spawn(|| {
                        for _ in 0..remote {
                            h.spawn(async {});
                        }
                    });
                });
                std::thread::sleep(Duration::from_micros(300));
                if ok {
                    f(what)
                }
            });
        }
        pool.release();
        for j in blocked {
            let _ = rt.block_on(j);
        }
        ok
    }
}

/// a name whose making panics
struct Refused;
impl From<Refused> for Cow<'static, str> {
    fn from(_: Refused) -> Self {
        panic!("no name")
    }
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct exported state of one or more runtimes, compared with RuntimeMetrics before and after";
        let mut r: Rng = ctx.rng(27);
        let mut turn = 0;
        while ctx.time_left() {
            turn += 1;
            // now and then everything is large
            let big = turn % 60 == 1;
            let k = if big { 1 } else { r.range(1, 3) };
            let mut rts: Vec<Rt> = (0..k).map(|_| build(&mut r, big)).collect();
            let ms: Vec<RuntimeMetrics> = rts.iter().map(|x| x.h.metrics()).collect();
            let names: Vec<Cow<'static, str>> = (0..k).map(|i| name(&mut r, i)).collect();
            if names.iter().collect::<BTreeSet<_>>().len() != k {
                continue;
            }
            let many = if r.chance(1, 2) { NamedRuntimesCollector::new() } else { NamedRuntimesCollector::default() };
            if r.chance(1, 4) {
                check(rep, &Col::Many(&many), &[], r.below(4), true, &|| "no runtime registered".into());
            }
            let mut all: Vec<(RuntimeMetrics, Option<String>)> = vec![];
            let mut one: Vec<(RuntimeCollector, Option<String>)> = vec![];
            for i in 0..k {
                if r.chance(1, 2) {
                    many.add(ms[i].clone(), names[i].clone());
                } else {
                    let _g = rts[i].h.enter();
                    many.add_current(names[i].clone());
                }
                all.push((ms[i].clone(), Some(names[i].to_string())));
                let c = if r.chance(1, 2) {
                    RuntimeCollector::new(ms[i].clone())
                } else {
                    let _g = rts[i].h.enter();
                    RuntimeCollector::current()
                };
                one.push(match r.below(3) {
                    0 => (c, None),
                    1 => (c.with_name(names[i].clone()), Some(names[i].to_string())),
                    _ => (c.with_name("first").with_name(names[i].clone()), Some(names[i].to_string())),
                });
                check(rep, &Col::Many(&many), &all, r.below(4), false, &|| format!("{} runtimes registered", i + 1));
                // a registration that is refused registers nothing, and what is there stays there
                if r.chance(1, 3) {
                    let how = r.below(3);
                    let refused = match how {
                        0 => catch(|| many.add_current("nowhere")),
                        1 => catch(|| many.add(ms[i].clone(), Refused)),
                        _ => {
                            let _g = rts[i].h.enter();
                            catch(|| many.add_current(Refused))
                        }
                    };
                    if refused.is_ok() {
                        rep.violation(format!("refused registration {how}: no panic, although there is no runtime or no name"));
                    }
                    rep.count("registrations refused", 1);
                    check(rep, &Col::Many(&many), &all, r.below(4), false, &|| format!("a registration was refused ({how})"));
                }
            }
            let single = |i: usize| [(ms[i].clone(), one[i].1.clone())];

            // histories, and the state held still after them
            for _ in 0..r.range(2, 6) {
                let i = r.below(k);
                rts[i].step(&mut r);
                let hows: Vec<usize> = (0..4).map(|_| r.below(4)).collect();
                if big || r.chance(2, 3) {
                    let ok = rts[i].freeze(&mut r, &mut |what| {
                        check(rep, &Col::One(&one[i].0), &single(i), hows[0], true, &|| format!("frozen: {what}"));
                        check(rep, &Col::One(&one[i].0), &single(i), hows[1], true, &|| format!("frozen: {what}"));
                        rep.sample(|| what);
                    });
                    rep.count("runtimes frozen", ok as u64);
                    rep.count("runtimes of more than 64 workers frozen", (ok && rts[i].multi.is_some_and(|w| w > 64)) as u64);
                }
                check(rep, &Col::Many(&many), &all, hows[2], true, &|| format!("idle: {:?}", rts.iter().map(|x| (&x.desc, &x.history)).collect::<Vec<_>>()));
            }

            // under load
            if !big && r.chance(1, 2) {
                let stop = AtomicBool::new(false);
                std::thread::scope(|s| {
                    for x in &rts {
                        let (mut r, stop) = (r.fork(1), &stop);
                        s.spawn(move || {
                            while !stop.load(SeqCst) {
                                x.rt.as_ref().unwrap().block_on(work(r.below(7), r.range(1, 12), x.io));
                            }
                        });
                    }
                    for _ in 0..30 {
                        check(rep, &Col::Many(&many), &all, r.below(4), false, &|| "under load".into());
                        let i = r.below(k);
                        check(rep, &Col::One(&one[i].0), &single(i), r.below(4), false, &|| "under load".into());
                    }
                    stop.store(true, SeqCst);
                });
            }

            // registered while exported: what was registered before is there, in every family alike
            if r.chance(1, 4) {
                let more = NamedRuntimesCollector::new();
                let (begun, ended) = (AtomicUsize::new(0), AtomicUsize::new(0));
                let total = 12;
                std::thread::scope(|s| {
                    s.spawn(|| {
                        for i in 0..total {
                            begun.store(i + 1, SeqCst);
                            if i % 2 == 0 {
                                more.add(ms[i % k].clone(), format!("n{i}"));
                            } else {
                                let _g = rts[i % k].h.enter();
                                more.add_current(format!("n{i}"));
                            }
                            ended.store(i + 1, SeqCst);
                            vh::sched::delay(i as u64 * 977);
                        }
                    });
                    loop {
                        let lo = ended.load(SeqCst);
                        let got = match catch(|| export(&Col::Many(&more), 0, false)) {
                            Ok(Ok(g)) => g,
                            Ok(Err(e)) => rep.violation(format!("while runtimes are registered: {e}")),
                            Err(p) => rep.violation(format!("while runtimes are registered: the export panics: {p}")),
                        };
                        let hi = begun.load(SeqCst);
                        let mut per: BTreeMap<&str, BTreeSet<String>> = FAMILIES.iter().map(|f| (f.0, BTreeSet::new())).collect();
                        for k in got.series.keys() {
                            let n = k.2.iter().find(|l| l.0 == "runtime").map(|l| l.1.clone()).unwrap_or_default();
                            per.get_mut(k.0).unwrap().insert(n);
                        }
                        let first = per["threads"].clone();
                        let ok = (lo..=hi).any(|m| first == (0..m).map(|i| format!("n{i}")).collect());
                        rep.eval();
                        rep.count("exports during registrations", (lo < hi) as u64);
                        if !ok || per.values().any(|s| *s != first) {
                            rep.violation(format!("{lo} to {hi} runtimes are registered, the families list {per:?}"));
                        }
                        if lo == total {
                            break;
                        }
                    }
                });
            }

            // during and after shutdown
            let how = r.below(2);
            let dying: Vec<Runtime> = rts.iter_mut().map(|x| x.rt.take().unwrap()).collect();
            let live = r.chance(1, 2);
            for rt in &dying {
                if live {
                    rt.spawn(async {
                        loop {
                            tokio::task::yield_now().await;
                        }
                    });
                }
            }
            std::thread::scope(|s| {
                let t = s.spawn(move || {
                    for rt in dying {
                        if how == 0 {
                            rt.shutdown_timeout(Duration::from_millis(500));
                        } else {
                            rt.shutdown_background();
                        }
                    }
                });
                let mut n = 0;
                while n < 3 || !t.is_finished() {
                    check(rep, &Col::Many(&many), &all, r.below(4), false, &|| "shutting down".into());
                    n += 1;
                    rep.count("exports during shutdown", 1);
                }
            });
            check(rep, &Col::Many(&many), &all, r.below(4), how == 0, &|| "after shutdown".into());
            let i = r.below(k);
            check(rep, &Col::One(&one[i].0), &single(i), r.below(4), how == 0, &|| "after shutdown".into());
        }
    })
}
