//! C30: recording into existing series does not allocate; memory follows the live series, not the
//! recordings or scrapes. Every recording call is bracketed by a counting allocator.
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

use measured::metric::histogram::HistogramState;
use measured::metric::{Metric, MetricFamilyEncoding, MetricVec};
use measured::text::BufferedTextEncoder;
use measured::{Histogram, HistogramVec};
use vh::alloc::{allocs, bytes, Counting};
use vh::keys::*;
use vh::kinds::*;
use vh::report::worker;
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

#[global_allocator]
static A: Counting = Counting;

fn make<K: Kind, S: KeySpace>(repr: u8) -> MetricVec<K::M, S::Set> {
    match repr {
        0 => MetricVec::with_label_set_and_metadata(S::make_set(), K::meta()),
        1 if S::DENSE => MetricVec::dense_with_label_set_and_metadata(S::make_set(), K::meta()),
        _ => MetricVec::sparse_with_label_set_and_metadata(S::make_set(), K::meta()),
    }
}
fn is_dense<S: KeySpace>(repr: u8) -> bool {
    repr == 1 && S::DENSE || repr == 0 && S::cardinality().is_some_and(|c| c <= 1024)
}
fn scrape_once<K: Kind, F: MetricFamilyEncoding<BufferedTextEncoder>>(v: &F, enc: &mut BufferedTextEncoder) -> usize {
    export_into(v, "m", enc).len()
}

/// one thread: every recording call allocates nothing, recordings and scrapes leave the memory as it was
fn exact<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let what = format!("{} over {} repr {repr}", K::NAME, S::NAME);
    let n = S::n().min(*rng.pick(&[1, 3, 40, 1200]));
    let start = bytes();
    let mut v = make::<K, S>(repr);
    let built = bytes();
    for i in 0..n {
        record::<K, _>(&mut v, PATHS[rng.below(4)], S::group(i), K::unit());
    }
    let warm = bytes();
    if is_dense::<S>(repr) {
        rep.check(warm == built, || format!("{what}: first touches changed the memory of a dense vec by {} bytes", warm - built));
    }
    let ops = ctx.n(4000, 60);
    let mut calls = 0u64;
    for _ in 0..ops {
        let i = rng.below(n);
        let path = PATHS[rng.below(4)];
        let op = if rng.chance(1, 4) { K::unit() } else { K::rand(rng) };
        let g = S::group(i);
        let a = allocs();
        record::<K, _>(&mut v, path, g, op);
        let d = allocs() - a;
        rep.check(d == 0, || format!("{what}: recording {op:?} by {path:?} into an existing series made {d} allocations"));
        let (g1, g2) = (S::group(i), S::group(i));
        let a = allocs();
        let id = v.with_labels(g1);
        let id2 = v.try_with_labels(g2);
        drop(v.get_metric(id));
        let d = allocs() - a;
        rep.check(d == 0 && id2.is_some(), || format!("{what}: looking up an existing series made {d} allocations"));
        let a = allocs();
        record_id::<K, _>(&mut v, path, id, op);
        let d = allocs() - a;
        rep.check(d == 0, || format!("{what}: recording {op:?} by identifier ({path:?}) made {d} allocations"));
        calls += 4;
    }
    rep.check(bytes() == warm, || format!("{what}: {calls} recordings changed the memory held by {} bytes", bytes() - warm));
    // scrapes
    let mut enc = BufferedTextEncoder::new();
    let mut len = 0;
    for _ in 0..4 {
        len = len.max(scrape_once::<K, _>(&v, &mut enc));
    }
    let before = bytes();
    let scrapes = ctx.n(40, 4);
    for _ in 0..scrapes {
        len = len.max(scrape_once::<K, _>(&v, &mut enc));
    }
    let grown = bytes() - before;
    rep.check(grown <= 2 * len as i64 + 4096, || format!("{what}: {scrapes} scrapes of {len} bytes grew the memory by {grown}"));
    drop(enc);
    rep.check(bytes() == warm, || format!("{what}: scrapes changed the memory held by {} bytes", bytes() - warm));
    let size = warm - start;
    drop(v);
    rep.check(bytes() == start, || format!("{what}: dropping the vec left {} of its {size} bytes", bytes() - start));
    rep.eval();
    rep.count("calls bracketed by the allocator count", calls);
    rep.count("scrapes", scrapes as u64 + 4);
    rep.distinct(format!("{what}{n}").as_bytes());
    rep.sample(|| format!("{what}: {n} series hold {size} bytes; {calls} recording calls and lookups made no allocation"));
}

/// series come and go: memory is bounded by how many live at a time
fn churn<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let mut v: MetricVec<K::M, S::Set> = make::<K, S>(2);
    let what = format!("{} over {} sparse", K::NAME, S::NAME);
    let n = S::n();
    let live = n.min(rng.range(1, 20));
    let start = bytes();
    let mut peak = 0;
    let mut next = 0usize;
    let mut queue = std::collections::VecDeque::with_capacity(64);
    let queued = bytes() - start;
    let size = std::mem::size_of::<(K::M, S::U)>() as i64;
    // far more than any table for that many series needs, and known before it is asked for
    let ceiling = (1 << 18) + 4096 * size;
    let (warm, total) = (ctx.n(600, 30), ctx.n(rng.range(3000, 9000), 90));
    for k in 0..total {
        let i = next % n;
        next += 1 + rng.below(3);
        if !queue.contains(&i) {
            record::<K, _>(&mut v, PATHS[rng.below(4)], S::group(i), K::unit());
            queue.push_back(i);
        }
        while queue.len() > live {
            let i = queue.pop_front().unwrap();
            let got = v.remove_metric(v.with_labels(S::group(i)));
            rep.check(got.is_some(), || format!("{what}: a live series could not be removed"));
        }
        let now = bytes() - start - queued;
        rep.check(now <= ceiling, || format!("{what}: {now} bytes after {k} series came and went, with at most {live} alive"));
        if k < warm {
            peak = peak.max(now);
        } else {
            // a table may double once while removals leave their marks in it
            rep.check(now <= 3 * peak + 8192, || format!("{what}: {now} bytes after {k} series came and went, {peak} after {warm}, with at most {live} alive"));
        }
    }
    rep.eval();
    rep.count("series created and removed", total as u64);
    rep.distinct(format!("{what}{live}{peak}").as_bytes());
}

fn singles<K: Kind>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let start = bytes();
    let mut m: Metric<K::M> = Metric::with_metadata(K::meta());
    let held = bytes();
    for _ in 0..ctx.n(3000, 60) {
        let op = K::rand(rng);
        let a = allocs();
        match rng.below(4) {
            0 => K::single(&m, op),
            1 => K::single_mut(&mut m, op),
            2 => K::guard(m.get_metric(), op),
            _ => K::ex(m.get_metric_mut(), op),
        }
        let d = allocs() - a;
        rep.check(d == 0, || format!("recording {op:?} into a single {} made {d} allocations", K::NAME));
        rep.count("calls bracketed by the allocator count", 1);
    }
    rep.check(bytes() == held, || format!("a single {} grew by {} bytes", K::NAME, bytes() - held));
    drop(m);
    rep.check(bytes() == start, || format!("a single {} left {} bytes behind", K::NAME, bytes() - start));
    rep.eval();
}

fn timers<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let v: HistogramVec<S::Set, 4> = make::<KHist, S>(rng.below(3) as u8);
    let one: Histogram<4> = Histogram::with_metadata(KHist::meta());
    let n = S::n().min(30);
    for i in 0..n {
        v.observe(S::group(i), 1.0);
    }
    for _ in 0..ctx.n(500, 10) {
        let i = rng.below(n);
        let g = S::group(i);
        let (how, since) = (rng.below(9), Instant::now());
        let a = allocs();
        match how {
            0 => drop(v.start_timer(g)),
            1 => {
                v.start_timer(g).observe();
            }
            2 => v.start_timer(g).forget(),
            3 => {
                v.observe_duration_since(g, since);
            }
            4 => {
                v.get_metric(v.with_labels(g)).observe_duration_since(since);
            }
            5 => drop(one.start_timer()),
            6 => {
                one.start_timer().observe();
            }
            7 => one.start_timer().forget(),
            _ => v.observe_duration(g, Duration::from_nanos(77)),
        }
        let d = allocs() - a;
        rep.check(d == 0, || format!("timing (way {how}) over {} made {d} allocations", S::NAME));
        rep.count("timings bracketed by the allocator count", 1);
    }
    rep.eval();
}

/// the same under contention with scrapes. parking_lot sets up its table of waiting threads the first
/// times threads wait, so a few allocations per thread are allowed where locks are taken.
fn contended<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let lockfree = is_dense::<S>(repr) && K::TYPE != "histogram";
    let mut v = make::<K, S>(repr);
    let n = S::n().min(*rng.pick(&[1, 4, 60]));
    for i in 0..n {
        record::<K, _>(&mut v, PATHS[rng.below(4)], S::group(i), K::unit());
    }
    let threads = ctx.n(rng.range(2, 7), 2);
    let ops = ctx.n(3000, 10);
    let what = format!("{} over {} repr {repr}, {threads} threads", K::NAME, S::NAME);
    let gate = Gate::new(threads + 1);
    let over = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let mut worst = (0, 0);
    sched::CHAOS.store(if rng.chance(1, 3) { 30 } else { 0 }, SeqCst);
    std::thread::scope(|s| {
        let (v, gate, over) = (&v, &gate, &over);
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    gate.wait();
                    let (mut a, mut b) = (0, 0i64);
                    for _ in 0..ops {
                        let g = S::group(r.below(n));
                        let op = K::rand(&mut r);
                        let (a0, b0) = (allocs(), bytes());
                        if r.chance(1, 2) {
                            K::label(v, g, op)
                        } else {
                            K::guard(v.get_metric(v.with_labels(g)), op)
                        }
                        a += allocs() - a0;
                        b += bytes() - b0;
                    }
                    (a, b)
                })
            })
            .collect();
        let sc = worker(s, move || {
            gate.wait();
            let mut k = 0u64;
            let mut enc = BufferedTextEncoder::new();
            while !over.load(SeqCst) {
                scrape_once::<K, _>(v, &mut enc);
                k += 1;
            }
            k
        });
        for h in hs {
            let (a, b) = h.join().unwrap();
            worst = (worst.0.max(a), worst.1.max(b));
        }
        over.store(true, SeqCst);
        rep.count("concurrent scrapes", sc.join().unwrap());
    });
    sched::CHAOS.store(0, SeqCst);
    let allowed = if lockfree { 0 } else { 16 };
    rep.check(worst.0 <= allowed, || format!("{what}: one thread made {} allocations during {ops} recordings into existing series", worst.0));
    rep.check(worst.1 <= allowed as i64 * 65536, || format!("{what}: recordings kept {} bytes", worst.1));
    rep.eval();
    rep.count("recordings under contention", (ops * threads) as u64);
    rep.count("max allocations of one contended thread", worst.0);
    rep.distinct(format!("{what}{n}").as_bytes());
}

struct Keys<'a>(&'a Ctx, &'a mut Report, &'a mut Rng, u8);
impl WithKeys for Keys<'_> {
    fn run<S: KeySpace>(&mut self) {
        if S::cardinality().is_none() || !self.0.time_left() || (self.0.small && S::NAME != "routes-reader") {
            return;
        }
        let (c, r, g) = (self.0, &mut *self.1, &mut *self.2);
        fn four<K: Kind, S: KeySpace>(c: &Ctx, r: &mut Report, g: &mut Rng, only: u8) {
            match only {
                0 => exact::<K, S>(c, r, g),
                1 => churn::<K, S>(c, r, g),
                _ => contended::<K, S>(c, r, g),
            }
        }
        for only in 0..3 {
            match self.3 {
                0 => four::<KCounter, S>(c, r, g, only),
                1 => four::<KGauge, S>(c, r, g, only),
                2 => four::<KFloat, S>(c, r, g, only),
                _ => four::<KHist, S>(c, r, g, only),
            }
        }
        if self.3 == 3 {
            timers::<S>(c, r, g);
        }
    }
}

fn main() {
    let _ = std::mem::size_of::<HistogramState<4>>();
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one vec or metric recorded into with every call bracketed by a counting allocator (alone, under contention with scrapes, or with series coming and going); distinct = (kind, label set, representation, size)";
        let mut rng = ctx.rng(30);
        loop {
            for kind in 0..4 {
                each_key_space(&mut Keys(ctx, rep, &mut rng, kind));
            }
            singles::<KCounter>(ctx, rep, &mut rng);
            singles::<KGauge>(ctx, rep, &mut rng);
            singles::<KFloat>(ctx, rep, &mut rng);
            singles::<KHist>(ctx, rep, &mut rng);
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
