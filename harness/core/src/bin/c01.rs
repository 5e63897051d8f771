//! C01: counters conserve increments, concurrent scrapes stay within real-time bounds, never go back.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

use measured::metric::MetricVec;
use measured::{Counter, CounterVec};
use vh::keys::*;
use vh::kinds::*;
use vh::report::worker;
use vh::sched::Gate;
use vh::{Ctx, Report, Rng};

/// per series ledger: [finished, started] sums
struct Ledger {
    started: Vec<AtomicU64>,
    done: Vec<AtomicU64>,
}
impl Ledger {
    fn new(n: usize) -> Ledger {
        Ledger { started: (0..n).map(|_| AtomicU64::new(0)).collect(), done: (0..n).map(|_| AtomicU64::new(0)).collect() }
    }
    fn op(&self, i: usize, x: u64, f: impl FnOnce()) {
        self.started[i].fetch_add(x, SeqCst);
        f();
        self.done[i].fetch_add(x, SeqCst);
    }
}

fn concurrent_vec<K: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, mode: u8) {
    let mut vec: CounterVec<K::Set> = match mode {
        0 => MetricVec::with_label_set(K::make_set()),
        1 if K::DENSE => MetricVec::dense_with_label_set(K::make_set()),
        _ => MetricVec::sparse_with_label_set(K::make_set()),
    };
    let n = if rng.chance(1, 2) { K::n().min(1 + rng.below(4)) } else { K::n().min(64) };
    let threads = ctx.n(rng.range(2, 8), 3);
    let ops = ctx.n(rng.range(20, 4000), 12);
    let scrapers = ctx.n(rng.range(0, 2), 1);
    // increments of every magnitude, as large as the total of the run allows
    let room = u64::MAX / 2 / (threads * ops) as u64 - 2;
    let huge = rng.chance(1, 2);
    let led = Ledger::new(n);
    let gate = Gate::new(threads + scrapers);
    let over = AtomicBool::new(false);
    let index: HashMap<_, usize> = (0..n).map(|i| (K::labels(i), i)).collect();
    vh::sched::CHAOS.store(if rng.chance(1, 2) { 64 } else { 0 }, SeqCst);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let mut fails: Vec<String> = vec![];
    let mut scrapes = 0;
    let mut moved = 0u64;
    std::thread::scope(|s| {
        let vec = &vec;
        let (led, gate, over, index) = (&led, &gate, &over, &index);
        let ws: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                worker(s, move || {
                    vh::sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut cached = HashMap::new();
                    gate.wait();
                    for _ in 0..ops {
                        let i = r.below(n);
                        let x = match r.below(3) {
                            0 => 1,
                            1 => r.below(10) as u64,
                            _ if huge => r.u64() % room,
                            _ => (r.u64() % room) >> r.below(40),
                        };
                        match r.below(5) {
                            0 => led.op(i, 1, || vec.inc(K::group(i))),
                            1 => led.op(i, x, || vec.inc_by(K::group(i), x)),
                            2 => led.op(i, x, || vec.get_metric(vec.with_labels(K::group(i))).inc_by(x)),
                            3 => led.op(i, 1, || {
                                let id = *cached.entry(i).or_insert_with(|| vec.with_labels(K::group(i)));
                                vec.get_metric(id).inc()
                            }),
                            _ => {
                                let g = vec.get_metric(vec.with_labels(K::group(i)));
                                // one guard, several increments
                                led.op(i, x + 2, || {
                                    g.inc();
                                    g.inc_by(x);
                                    g.inc();
                                });
                            }
                        }
                    }
                })
            })
            .collect();
        let ss: Vec<_> = (0..scrapers)
            .map(|_| {
                worker(s, move || {
                    let mut last: HashMap<usize, u64> = HashMap::new();
                    let (mut k, mut moved, mut err) = (0u64, 0u64, None);
                    gate.wait();
                    while err.is_none() {
                        let stop = over.load(SeqCst);
                        let lo: Vec<u64> = led.done.iter().map(|x| x.load(SeqCst)).collect();
                        let got = scrape::<KCounter, _>(vec);
                        let hi: Vec<u64> = led.started.iter().map(|x| x.load(SeqCst)).collect();
                        k += 1;
                        match got {
                            Err(e) => err = Some(e),
                            Ok(series) => {
                                let mut seen = vec![false; n];
                                for (l, v) in series {
                                    let Some(&i) = index.get(&l) else {
                                        err = Some(format!("series {l:?} was never recorded"));
                                        break;
                                    };
                                    seen[i] = true;
                                    if v < lo[i] || v > hi[i] {
                                        err = Some(format!("scrape of {l:?} shows {v}, but {} were finished before and {} started by its end", lo[i], hi[i]));
                                    }
                                    let p = last.insert(i, v).unwrap_or(0);
                                    if v < p {
                                        err = Some(format!("series {l:?} went back from {p} to {v}"));
                                    }
                                    if v > lo[i] || v < hi[i] {
                                        moved += 1;
                                    }
                                }
                                for i in 0..n {
                                    if !seen[i] && lo[i] > 0 {
                                        err = Some(format!("series {:?} missing, {} recorded before the scrape", K::labels(i), lo[i]));
                                    }
                                }
                            }
                        }
                        if stop {
                            break;
                        }
                    }
                    (k, moved, err)
                })
            })
            .collect();
        for w in ws {
            w.join().unwrap();
        }
        over.store(true, SeqCst);
        for x in ss {
            let (k, m, e) = x.join().unwrap();
            scrapes += k;
            moved += m;
            fails.extend(e);
        }
    });
    vh::sched::CHAOS.store(0, SeqCst);
    if let Some(f) = fails.first() {
        rep.violation(format!("{} mode {mode} threads {threads}: {f}", K::NAME));
    }
    // exclusive phase on top, then the final totals
    let mut total: Vec<u64> = led.done.iter().map(|x| x.load(SeqCst)).collect();
    for _ in 0..rng.below(10) {
        let i = rng.below(n);
        let x = (u64::MAX / 32) >> rng.below(60);
        match rng.below(4) {
            0 => {
                vec.inc_mut(K::group(i));
                total[i] += 1
            }
            1 => {
                vec.inc_by_mut(K::group(i), x);
                total[i] += x
            }
            2 => {
                let id = vec.with_labels(K::group(i));
                vec.get_metric_mut(id).inc_by(x);
                total[i] += x
            }
            _ => {
                let id = vec.with_labels(K::group(i));
                vec.get_metric_mut(id).inc();
                total[i] += 1
            }
        }
    }
    let got = scrape::<KCounter, _>(&vec).unwrap_or_else(|e| rep.violation(e));
    let m: HashMap<_, _> = got.into_iter().collect();
    for i in 0..n {
        let v = m.get(&K::labels(i)).copied().unwrap_or(0);
        rep.check(v == total[i], || {
            format!("{} mode {mode}, {threads} threads: final value of {:?} is {v}, increments sum to {}", K::NAME, K::labels(i), total[i])
        });
    }
    rep.eval();
    rep.count("increment ops", (threads * ops) as u64);
    rep.count("concurrent scrapes", scrapes);
    rep.count("series values seen mid-flight", moved);
    let mut sig = format!("{}{mode}{threads}{ops}", K::NAME);
    sig.push_str(&format!("{:?}", total));
    rep.distinct(sig.as_bytes());
    rep.sample(|| format!("{} mode {mode}: {threads} threads x {ops} ops on {n} series, {scrapes} scrapes, totals {:?}...", K::NAME, &total[..n.min(3)]));
}

fn concurrent_single(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let mut c = Counter::new();
    let threads = ctx.n(rng.range(2, 8), 3);
    let ops = ctx.n(rng.range(50, 20_000), 15);
    let room = u64::MAX / 2 / (threads * ops) as u64 - 2;
    let huge = rng.chance(1, 2);
    let led = Ledger::new(1);
    let gate = Gate::new(threads + 1);
    let over = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let fail = std::thread::scope(|s| {
        let (c, led, gate, over) = (&c, &led, &gate, &over);
        let ws: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                worker(s, move || {
                    let mut r = Rng::new(seed);
                    gate.wait();
                    for _ in 0..ops {
                        let x = (r.u64() % room) >> if huge { 0 } else { r.below(60) };
                        match r.below(4) {
                            0 => led.op(0, 1, || c.inc()),
                            1 => led.op(0, x, || c.inc_by(x)),
                            2 => led.op(0, 1, || c.get_metric().inc()),
                            _ => led.op(0, x, || c.get_metric().inc_by(x)),
                        }
                    }
                })
            })
            .collect();
        let sc = worker(s, move || {
            let mut last = 0;
            gate.wait();
            loop {
                let stop = over.load(SeqCst);
                let lo = led.done[0].load(SeqCst);
                let got = scrape::<KCounter, _>(c);
                let hi = led.started[0].load(SeqCst);
                match got {
                    Err(e) => return Some(e),
                    Ok(v) => {
                        if v.len() != 1 || !v[0].0.is_empty() {
                            return Some(format!("single counter exports {v:?}"));
                        }
                        let v = v[0].1;
                        if v < lo || v > hi || v < last {
                            return Some(format!("scrape shows {v}: finished before {lo}, started by the end {hi}, previous scrape {last}"));
                        }
                        last = v;
                    }
                }
                if stop {
                    return None;
                }
            }
        });
        for w in ws {
            w.join().unwrap();
        }
        over.store(true, SeqCst);
        sc.join().unwrap()
    });
    if let Some(f) = fail {
        rep.violation(format!("single counter: {f}"));
    }
    let mut total = led.done[0].load(SeqCst);
    c.inc_mut();
    c.inc_by_mut(5);
    c.get_metric_mut().inc();
    c.get_metric_mut().inc_by(7);
    total += 14;
    let v = scrape::<KCounter, _>(&c).unwrap_or_else(|e| rep.violation(e));
    rep.check(v == vec![(vec![], total)], || format!("single counter: exported {v:?}, increments sum to {total}"));
    rep.eval();
    rep.count("increment ops", (threads * ops) as u64);
    rep.distinct(format!("single{threads}{ops}{total}").as_bytes());
}

/// boundary values, sequentially: every u64 up to the top of the range
fn extremes(rep: &mut Report, rng: &mut Rng) {
    let mut c = Counter::new();
    let mut t: u64 = 0;
    for _ in 0..20 {
        let room = u64::MAX - t;
        let x = match rng.below(4) {
            0 => room >> rng.below(64),
            1 => (i64::MAX as u64).saturating_sub(t).min(room),
            2 => rng.any_u64().min(room),
            _ => rng.below(3) as u64 % (room.max(1)),
        };
        match rng.below(4) {
            0 => c.inc_by(x),
            1 => c.inc_by_mut(x),
            2 => c.get_metric_mut().inc_by(x),
            _ => c.get_metric().inc_by(x),
        }
        t += x;
        let v = scrape::<KCounter, _>(&c).unwrap_or_else(|e| rep.violation(e));
        rep.check(v == vec![(vec![], t)], || format!("counter at {t} exports {v:?}"));
        rep.count("boundary values", 1);
    }
    rep.eval();
    rep.distinct(&t.to_le_bytes());
}

struct Go<'a>(&'a Ctx, &'a mut Report, &'a mut Rng);
impl WithKeys for Go<'_> {
    fn run<K: KeySpace>(&mut self) {
        if !self.0.time_left() {
            return;
        }
        let mode = self.2.below(3) as u8;
        concurrent_vec::<K>(self.0, self.1, self.2, mode);
    }
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one run of 2..8 threads incrementing through random recording paths (shared, guard held, cached id, exclusive) with scrapers alongside, every scrape bounded by the start/finish ledgers and the final totals compared; non-trivial = distinct (key space, representation, totals)";
        let mut rng = ctx.rng(1);
        loop {
            extremes(rep, &mut rng);
            concurrent_single(ctx, rep, &mut rng);
            if ctx.small {
                concurrent_vec::<KRoute>(ctx, rep, &mut rng, 2);
                concurrent_vec::<KSmall>(ctx, rep, &mut rng, 1);
                break;
            }
            each_key_space(&mut Go(ctx, rep, &mut rng));
            if !ctx.time_left() {
                break;
            }
        }
    });
}
