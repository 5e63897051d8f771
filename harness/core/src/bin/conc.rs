//! Concurrent vecs: first-touch races (C07), removal races (C08), cardinality (C10), scrape completeness (C23).
//! VH_PHASE selects the property.
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

use measured::label::LabelGroupSet;
use measured::metric::counter::CounterState;
use measured::metric::name::MetricName;
use measured::metric::{MetricFamilyEncoding, MetricVec};
use measured::text::TextEncoder;
use measured::{CounterVec, GaugeVec};
use vh::keys::*;
use vh::kinds::*;
use vh::prom::Labels;
use vh::report::worker;
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

fn vec_of<M: measured::metric::MetricType<Metadata = ()>, S: KeySpace>(repr: u8) -> MetricVec<M, S::Set> {
    match repr {
        0 => MetricVec::with_label_set(S::make_set()),
        1 if S::DENSE => MetricVec::dense_with_label_set(S::make_set()),
        _ => MetricVec::sparse_with_label_set(S::make_set()),
    }
}
fn chaos(on: bool) {
    sched::CHAOS.store(if on { 100 } else { 0 }, SeqCst);
}

// ------------------------------------------------------------------ C07: racing first touches

/// Every thread first-touches the same series in its own order and adds its own power of a base, so a
/// series' value tells exactly which threads' additions reached it.
fn first_touch<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let v: CounterVec<S::Set> = vec_of::<_, S>(repr);
    let threads = ctx.n(rng.range(2, 8), 2);
    let cap = if rng.chance(1, 4) { 600 } else { *rng.pick(&[1, 2, 8, 40]) };
    let n = S::n().min(ctx.n(cap, 4));
    let base = rng.below(S::n() - n + 1);
    let gate = Gate::new(threads);
    let lockstep = rng.chance(1, 2) && n <= 40;
    chaos(rng.chance(1, 2));
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let mut errs: Vec<String> = vec![];
    std::thread::scope(|s| {
        let (v, gate, order) = (&v, &gate, &order);
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, &seed)| {
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut mine = order.clone();
                    if !lockstep {
                        r.shuffle(&mut mine);
                    }
                    let x = 1u64 << (8 * t);
                    let mut err = None;
                    let mut ids = vec![];
                    gate.wait();
                    for i in mine {
                        if lockstep {
                            gate.wait();
                        }
                        let i = base + i;
                        match r.below(4) {
                            0 => v.inc_by(S::group(i), x),
                            1 => v.get_metric(v.with_labels(S::group(i))).inc_by(x),
                            2 => {
                                let id = v.with_labels(S::group(i));
                                ids.push((i, id));
                                v.get_metric(id).inc_by(x)
                            }
                            _ => {
                                // touched before it is recorded
                                let id = v.with_labels(S::group(i));
                                drop(v.get_metric(id));
                                v.inc_by(S::group(i), x)
                            }
                        }
                        // my addition is in whatever the series is now
                        let now = KCounter::peek(&v.get_metric(v.with_labels(S::group(i))));
                        if now >> (8 * t) & 255 == 0 {
                            err = Some(format!("thread {t} does not find its own recording in {:?} (value {now:#x})", S::labels(i)));
                        }
                    }
                    // identifiers taken early still address the same series
                    for (i, id) in ids {
                        v.get_metric(id).inc_by(x);
                        if id != v.with_labels(S::group(i)) {
                            err = Some(format!("the identifier of {:?} changed", S::labels(i)));
                        }
                    }
                    err
                })
            })
            .collect();
        for h in hs {
            errs.extend(h.join().unwrap());
        }
    });
    chaos(false);
    let what = format!("{} repr {repr}, {threads} threads, {n} series, lockstep {lockstep}", S::NAME);
    if let Some(e) = errs.first() {
        rep.violation(format!("{what}: {e}"));
    }
    let got = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(format!("{what}: {e}")));
    let m: HashMap<Labels, u64> = got.iter().cloned().collect();
    rep.check(m.len() == n && got.len() == n, || format!("{what}: {} series exported, {n} were touched", got.len()));
    for i in base..base + n {
        let Some(&x) = m.get(&S::labels(i)) else { rep.violation(format!("{what}: series {:?} is missing", S::labels(i))) };
        for t in 0..threads {
            let c = x >> (8 * t) & 255;
            rep.check(c == 1 || c == 2, || format!("{what}: series {:?} = {x:#x} holds {c} recordings of thread {t}", S::labels(i)));
        }
        rep.check(threads == 8 || x >> (8 * threads) == 0, || format!("{what}: series {:?} = {x:#x}", S::labels(i)));
    }
    rep.eval();
    rep.count("series raced for", n as u64);
    rep.distinct(format!("{what}{:?}", got).as_bytes());
    rep.sample(|| format!("{what}: values {:x?}", got.iter().take(3).map(|x| x.1).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------ C08: removals

/// n prepared series, k threads race to remove each: exactly one gets it, with everything recorded
fn remove_race<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let v: CounterVec<S::Set> = MetricVec::sparse_with_label_set(S::make_set());
    let n = S::n().min(ctx.n(rng.range(1, 60), 3));
    let keep = rng.range(0, n);
    for i in 0..n {
        v.inc_by(S::group(i), 1000 + i as u64);
    }
    let threads = ctx.n(rng.range(2, 6), 2);
    // exports go on meanwhile: they keep nothing and bring nothing back
    let exporters = ctx.n(rng.below(3), 1);
    let gate = Gate::new(threads + exporters);
    let over = AtomicBool::new(false);
    chaos(rng.chance(1, 2));
    let mut got: HashMap<usize, Vec<u64>> = HashMap::new();
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let what = format!("{} {threads} removers, {exporters} exporters, {n} series", S::NAME);
    let (mut exports, mut err) = (0, None);
    std::thread::scope(|s| {
        let (v, gate, over) = (&v, &gate, &over);
        let es: Vec<_> = (0..exporters)
            .map(|_| {
                worker(s, move || {
                    let mut k = 0u64;
                    gate.wait();
                    loop {
                        let stop = over.load(SeqCst);
                        let g = match scrape::<KCounter, _>(v) {
                            Ok(g) => g,
                            Err(e) => return (k, Some(e)),
                        };
                        k += 1;
                        let mut kept = 0;
                        for (l, x) in &g {
                            let Some(i) = (x.wrapping_sub(1000) as usize..n).next().filter(|i| S::labels(*i) == *l) else {
                                return (k, Some(format!("an export during removals shows {l:?} = {x}, a value it never had")));
                            };
                            kept += (i < keep) as usize;
                        }
                        if kept != keep {
                            return (k, Some(format!("an export during removals shows {kept} of the {keep} series that stay")));
                        }
                        if stop {
                            return (k, None);
                        }
                    }
                })
            })
            .collect();
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut out = vec![];
                    gate.wait();
                    for i in keep..n {
                        if let Some(m) = v.remove_metric(v.with_labels(S::group(i))) {
                            out.push((i, KCounter::state(m)));
                        }
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            for (i, x) in h.join().unwrap() {
                got.entry(i).or_default().push(x);
            }
        }
        over.store(true, SeqCst);
        for e in es {
            let (k, x) = e.join().unwrap();
            exports += k;
            err = err.take().or(x);
        }
    });
    chaos(false);
    if let Some(e) = err {
        rep.violation(format!("{what}: {e}"));
    }
    rep.count("exports during racing removals", exports);
    for i in keep..n {
        let g = got.get(&i).cloned().unwrap_or_default();
        rep.check(g == [1000 + i as u64], || format!("{what}: removing {:?} = {} handed out {g:?}", S::labels(i), 1000 + i));
    }
    let left: HashMap<_, _> = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(e)).into_iter().collect();
    let want: HashMap<_, _> = (0..keep).map(|i| (S::labels(i), 1000 + i as u64)).collect();
    rep.check(left == want, || format!("{what}: left {left:?}, should be {want:?}"));
    rep.check(v.get_cardinality().0 == keep, || format!("{what}: cardinality {} with {keep} left", v.get_cardinality().0));
    if keep < n {
        v.inc(S::group(keep));
        let now: HashMap<_, _> = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(e)).into_iter().collect();
        rep.check(now.get(&S::labels(keep)) == Some(&1), || format!("{what}: a removed series starts again at {:?}", now.get(&S::labels(keep))));
    }
    rep.eval();
    rep.count("series removed in races", (n - keep) as u64);
    rep.distinct(format!("{what}{keep}{got:?}").as_bytes());
}

/// recorders against removers: conservation; with one remover per series also real-time bounds
fn remove_stress<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let v: CounterVec<S::Set> = MetricVec::sparse_with_label_set(S::make_set());
    let n = S::n().min(ctx.n(rng.range(1, 6), 2));
    let untouched = S::n().min(n + rng.below(20));
    for i in n..untouched {
        v.inc_by(S::group(i), 7_000 + i as u64);
    }
    let recorders = ctx.n(rng.range(1, 4), 1);
    let removers = ctx.n(rng.range(1, 3), 1);
    let ops = ctx.n(rng.range(50, 3000), 12);
    let gate = Gate::new(recorders + removers);
    let over = AtomicBool::new(false);
    let z = || (0..n).map(|_| AtomicU64::new(0)).collect::<Vec<_>>();
    let (started, done, taken) = (z(), z(), z());
    chaos(rng.chance(1, 2));
    let seeds: Vec<u64> = (0..recorders + removers).map(|_| rng.u64()).collect();
    let what = format!("{} {recorders} recorders, {removers} removers, {n} series", S::NAME);
    let mut errs = vec![];
    let mut removed = 0u64;
    std::thread::scope(|s| {
        let (v, gate, over, started, done, taken) = (&v, &gate, &over, &started, &done, &taken);
        let ws: Vec<_> = (0..recorders)
            .map(|t| {
                let seed = seeds[t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let ids: Vec<_> = (0..n).map(|i| v.with_labels(S::group(i))).collect();
                    gate.wait();
                    for _ in 0..ops {
                        let i = r.below(n);
                        let x = 1 + r.below(1000) as u64;
                        started[i].fetch_add(x, SeqCst);
                        match r.below(4) {
                            0 => v.inc_by(S::group(i), x),
                            1 => v.get_metric(ids[i]).inc_by(x),
                            2 => {
                                // the guard is held for a while before it is used
                                let g = v.get_metric(v.with_labels(S::group(i)));
                                if r.chance(1, 8) {
                                    sched::delay(r.u64());
                                }
                                g.inc_by(x)
                            }
                            _ => {
                                let g = v.get_metric(ids[i]);
                                let b = KCounter::peek(&g);
                                g.inc_by(x - 1);
                                g.inc();
                                let a = KCounter::peek(&g);
                                if a < b + x {
                                    return Some(format!("a held guard reads {b}, adds {x}, then reads {a}"));
                                }
                            }
                        }
                        done[i].fetch_add(x, SeqCst);
                    }
                    None
                })
            })
            .collect();
        let rs: Vec<_> = (0..removers)
            .map(|t| {
                let seed = seeds[recorders + t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut k = 0;
                    let mut err = None;
                    gate.wait();
                    loop {
                        let stop = over.load(SeqCst);
                        let i = r.below(n);
                        // series i is mine alone if there is one remover
                        let lo = done[i].load(SeqCst);
                        let before = taken[i].load(SeqCst);
                        if let Some(m) = v.remove_metric(v.with_labels(S::group(i))) {
                            let x = KCounter::state(m);
                            let hi = started[i].load(SeqCst);
                            taken[i].fetch_add(x, SeqCst);
                            k += 1;
                            if removers == 1 && (before + x < lo || before + x > hi) {
                                err = Some(format!("removal of {:?} returned {x} after {before} taken before; {lo} were finished before it began, {hi} started by its end", S::labels(i)));
                            }
                        } else if removers == 1 && lo > before {
                            err = Some(format!("removal of {:?} found nothing, but {lo} were recorded and only {before} taken", S::labels(i)));
                        }
                        if r.chance(1, 4) {
                            sched::delay(r.u64());
                        }
                        if r.chance(1, 16) {
                            if let Err(e) = scrape::<KCounter, _>(v) {
                                err = Some(e);
                            }
                        }
                        if stop || err.is_some() {
                            return (k, err);
                        }
                    }
                })
            })
            .collect();
        for w in ws {
            errs.extend(w.join().unwrap());
        }
        over.store(true, SeqCst);
        for r in rs {
            let (k, e) = r.join().unwrap();
            removed += k;
            errs.extend(e);
        }
    });
    chaos(false);
    if let Some(e) = errs.first() {
        rep.violation(format!("{what}: {e}"));
    }
    let left: HashMap<_, _> = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(e)).into_iter().collect();
    for i in 0..n {
        let (d, t, l) = (done[i].load(SeqCst), taken[i].load(SeqCst), left.get(&S::labels(i)).copied().unwrap_or(0));
        rep.check(d == t + l, || format!("{what}: {d} recorded on {:?}, but {t} removed and {l} left", S::labels(i)));
    }
    for i in n..untouched {
        let l = left.get(&S::labels(i)).copied();
        rep.check(l == Some(7_000 + i as u64), || format!("{what}: series {:?}, never removed, is {l:?}", S::labels(i)));
    }
    rep.check(left.len() == v.get_cardinality().0, || format!("{what}: {} exported, cardinality {}", left.len(), v.get_cardinality().0));
    rep.eval();
    rep.count("recordings", (recorders * ops) as u64);
    rep.count("removals handed out", removed);
    if removed > 0 {
        rep.distinct(format!("{what}{taken:?}").as_bytes());
    }
    rep.sample(|| format!("{what}: {removed} removals, recorded {:?}, taken {:?}", done, taken));
}

/// a dense vec never removes, whatever runs
fn dense_never<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    if !S::DENSE {
        return;
    }
    let v: CounterVec<S::Set> = MetricVec::dense_with_label_set(S::make_set());
    let n = S::n().min(8);
    let ops = ctx.n(200, 5);
    let seeds: Vec<u64> = (0..3).map(|_| rng.u64()).collect();
    let total: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let bad = AtomicBool::new(false);
    std::thread::scope(|s| {
        for &seed in &seeds {
            let (v, bad, total) = (&v, &bad, &total);
            worker(s, move || {
                let mut r = Rng::new(seed);
                for _ in 0..ops {
                    let i = r.below(n);
                    if r.chance(1, 2) {
                        v.inc(S::group(i));
                        total[i].fetch_add(1, SeqCst);
                    } else if v.remove_metric(v.with_labels(S::group(i))).is_some() {
                        bad.store(true, SeqCst);
                    }
                }
            });
        }
    });
    rep.check(!bad.load(SeqCst), || format!("{}: a dense vec handed out a series", S::NAME));
    let left: HashMap<_, _> = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(e)).into_iter().collect();
    for i in 0..n {
        let (a, b) = (left.get(&S::labels(i)).copied().unwrap_or(0), total[i].load(SeqCst));
        rep.check(a == b, || format!("{}: dense series {:?} is {a}, {b} were recorded", S::NAME, S::labels(i)));
    }
    rep.count("removals refused by dense vecs", ops as u64);
}

// ------------------------------------------------------------------ C23: scrapes

/// a writer that delays, so a scrape lasts long enough to overlap many recordings
struct Slow(Vec<u8>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::user_point();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn slow_scrape<L: LabelGroupSet>(v: &GaugeVec<L>) -> Result<Vec<(Labels, i64)>, String> {
    let mut e = TextEncoder::new(Slow(vec![]));
    v.collect_family_into(MetricName::from_str("m"), &mut e).map_err(|e| e.to_string())?;
    decode::<KGauge>(&e.writer.0)
}

/// Each series belongs to one writer, which sets it to 1, 2, 3, ... (and touches some without setting).
fn scrape_complete<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let v: GaugeVec<S::Set> = vec_of::<_, S>(repr);
    let writers = ctx.n(rng.range(1, 5), 2);
    let scrapers = ctx.n(rng.range(1, 3), 1);
    let per = ctx.n(*rng.pick(&[2, 10, 60, 200]), 3).min(S::n() / writers);
    if per == 0 {
        return;
    }
    let n = per * writers;
    let rounds = ctx.n(rng.range(1, 12), 2);
    // per series: value begun / value finished; -1 = not even created
    let mk = || (0..n).map(|_| AtomicI64::new(-1)).collect::<Vec<_>>();
    let (begun, fin) = (mk(), mk());
    let index: HashMap<Labels, usize> = (0..n).map(|i| (S::labels(i), i)).collect();
    let gate = Gate::new(writers + scrapers);
    let over = AtomicBool::new(false);
    chaos(rng.chance(2, 3));
    let seeds: Vec<u64> = (0..writers + scrapers).map(|_| rng.u64()).collect();
    let what = format!("{} repr {repr}, {writers} writers, {scrapers} scrapers, {n} series", S::NAME);
    let (mut scrapes, mut partial, mut errs) = (0u64, 0u64, vec![]);
    std::thread::scope(|s| {
        let (v, gate, over, begun, fin, index) = (&v, &gate, &over, &begun, &fin, &index);
        let ws: Vec<_> = (0..writers)
            .map(|t| {
                let seed = seeds[t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut mine: Vec<usize> = (t * per..(t + 1) * per).collect();
                    gate.wait();
                    for round in 0..rounds as i64 {
                        r.shuffle(&mut mine);
                        for &i in &mine {
                            let x = round;
                            begun[i].store(x, SeqCst);
                            if x == 0 {
                                // created by touching only
                                drop(v.get_metric(v.with_labels(S::group(i))));
                            } else if r.chance(1, 2) {
                                v.set(S::group(i), x);
                            } else {
                                v.inc(S::group(i));
                            }
                            fin[i].store(x, SeqCst);
                            if r.chance(1, 32) {
                                sched::delay(r.u64());
                            }
                        }
                    }
                })
            })
            .collect();
        let ss: Vec<_> = (0..scrapers)
            .map(|t| {
                let seed = seeds[writers + t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let (mut k, mut partial) = (0, 0);
                    gate.wait();
                    loop {
                        let stop = over.load(SeqCst);
                        let lo: Vec<i64> = fin.iter().map(|x| x.load(SeqCst)).collect();
                        let got = if t == 0 { slow_scrape(v) } else { scrape::<KGauge, _>(v) };
                        let hi: Vec<i64> = begun.iter().map(|x| x.load(SeqCst)).collect();
                        k += 1;
                        // duplicates are refused by the decoder
                        let got = match got {
                            Ok(g) => g,
                            Err(e) => return (k, partial, Some(e)),
                        };
                        let mut seen = vec![false; n];
                        for (l, x) in got {
                            let Some(&i) = index.get(&l) else { return (k, partial, Some(format!("series {l:?} was never recorded"))) };
                            seen[i] = true;
                            if hi[i] < 0 {
                                return (k, partial, Some(format!("series {l:?} appears before anybody touched it")));
                            }
                            if x < lo[i].max(0) || x > hi[i] {
                                return (k, partial, Some(format!("series {l:?} shows {x}; during the scrape it held {}..={}", lo[i], hi[i])));
                            }
                        }
                        for i in 0..n {
                            if lo[i] >= 0 && !seen[i] {
                                return (k, partial, Some(format!("series {:?}, created before the scrape began, is missing", S::labels(i))));
                            }
                        }
                        let c = seen.iter().filter(|x| **x).count();
                        if c > 0 && c < n {
                            partial += 1;
                        }
                        if stop {
                            return (k, partial, None);
                        }
                    }
                })
            })
            .collect();
        for w in ws {
            w.join().unwrap();
        }
        over.store(true, SeqCst);
        for x in ss {
            let (k, p, e) = x.join().unwrap();
            scrapes += k;
            partial += p;
            errs.extend(e);
        }
    });
    chaos(false);
    if let Some(e) = errs.first() {
        rep.violation(format!("{what}: {e}"));
    }
    rep.eval();
    rep.count("concurrent scrapes", scrapes);
    rep.count("scrapes of a partially created vec", partial);
    rep.count("series created", n as u64);
    rep.distinct(format!("{what}{rounds}{scrapes}{partial}").as_bytes());
    rep.sample(|| format!("{what}, {rounds} rounds: {scrapes} scrapes, {partial} of them of a partially created vec"));
}

// ------------------------------------------------------------------ C10: cardinality while series come and go

/// Every series has one owner that creates (and on sparse vecs removes) it over and over. The stage of a
/// series (mod 4: absent, being created, present, being removed) brackets what any reading may count.
fn cardinality_race<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let v: CounterVec<S::Set> = vec_of::<_, S>(repr);
    let upper = v.get_cardinality().1;
    let removable = v.remove_metric(v.with_labels(S::group(0))).is_none() && {
        v.inc(S::group(0));
        v.remove_metric(v.with_labels(S::group(0))).is_some()
    };
    let what0 = format!("{} repr {repr}", S::NAME);
    rep.check(upper == S::cardinality() || (upper.is_none() && !S::DENSE), || format!("{what0}: upper bound {upper:?}, label cardinalities say {:?}", S::cardinality()));
    let owners = ctx.n(rng.range(1, 4), 2);
    let readers = ctx.n(rng.range(1, 3), 1);
    let per = ctx.n(*rng.pick(&[1, 3, 20, 100]), 2).min(S::n() / owners);
    if per == 0 {
        return;
    }
    let n = per * owners;
    let rounds = ctx.n(rng.range(1, 30), 2);
    let stage: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    if !removable {
        // the probe above created the first one
        v.inc(S::group(0));
        stage[0].store(2, SeqCst);
    }
    let gate = Gate::new(owners + readers);
    let over = AtomicBool::new(false);
    chaos(rng.chance(2, 3));
    let seeds: Vec<u64> = (0..owners + readers).map(|_| rng.u64()).collect();
    let what = format!("{what0}, {owners} owners, {readers} readers, {n} series, removal {removable}");
    let (mut readings, mut tight, mut errs) = (0u64, 0u64, vec![]);
    std::thread::scope(|s| {
        let (v, gate, over, stage) = (&v, &gate, &over, &stage);
        let ws: Vec<_> = (0..owners)
            .map(|t| {
                let seed = seeds[t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    gate.wait();
                    let mut err = None;
                    for _ in 0..rounds {
                        for i in t * per..(t + 1) * per {
                            match stage[i].load(SeqCst) % 4 {
                                0 => {
                                    stage[i].fetch_add(1, SeqCst);
                                    if r.chance(1, 2) {
                                        drop(v.get_metric(v.with_labels(S::group(i))));
                                    } else {
                                        v.inc(S::group(i));
                                    }
                                    stage[i].fetch_add(1, SeqCst);
                                }
                                _ if removable && r.chance(1, 2) => {
                                    stage[i].fetch_add(1, SeqCst);
                                    if v.remove_metric(v.with_labels(S::group(i))).is_none() {
                                        err = Some(format!("series {:?} was present but could not be removed", S::labels(i)));
                                    }
                                    stage[i].fetch_add(1, SeqCst);
                                }
                                _ => {
                                    // looking up must not create, recording must not change the count
                                    let id = v.with_labels(S::group(i));
                                    if r.chance(1, 2) {
                                        v.get_metric(id).inc();
                                    }
                                }
                            }
                            if r.chance(1, 32) {
                                sched::delay(r.u64());
                            }
                        }
                    }
                    err
                })
            })
            .collect();
        let ss: Vec<_> = (0..readers)
            .map(|t| {
                let seed = seeds[owners + t];
                worker(s, move || {
                    sched::seed_thread(seed);
                    let (mut k, mut tight) = (0, 0);
                    gate.wait();
                    loop {
                        let stop = over.load(SeqCst);
                        let before: Vec<u64> = stage.iter().map(|x| x.load(SeqCst)).collect();
                        // what an export shows is bounded in the same way
                        let (got, up, how) = if k % 4 == 3 {
                            match scrape::<KCounter, _>(v) {
                                Ok(s) => (s.len(), upper, "an export shows"),
                                Err(e) => return (k, tight, Some(e)),
                            }
                        } else {
                            let (got, up) = v.get_cardinality();
                            (got, up, "get_cardinality reports")
                        };
                        let after: Vec<u64> = stage.iter().map(|x| x.load(SeqCst)).collect();
                        k += 1;
                        let same = || before.iter().zip(&after).filter(|(a, b)| a == b);
                        let lo = same().filter(|(a, _)| **a % 4 == 2).count();
                        let hi = n - same().filter(|(a, _)| **a % 4 == 0).count();
                        if got < lo || got > hi {
                            return (k, tight, Some(format!("{how} {got}; during the call between {lo} and {hi} series were present")));
                        }
                        if up != upper {
                            return (k, tight, Some(format!("the upper bound changed from {upper:?} to {up:?}")));
                        }
                        tight += (hi - lo <= 2) as u64;
                        if stop {
                            return (k, tight, None);
                        }
                    }
                })
            })
            .collect();
        for w in ws {
            errs.extend(w.join().unwrap());
        }
        over.store(true, SeqCst);
        for x in ss {
            let (k, t, e) = x.join().unwrap();
            readings += k;
            tight += t;
            errs.extend(e);
        }
    });
    chaos(false);
    if let Some(e) = errs.first() {
        rep.violation(format!("{what}: {e}"));
    }
    let present = stage.iter().filter(|x| x.load(SeqCst) % 4 == 2).count();
    let got = v.get_cardinality().0;
    let shown = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(format!("{what}: {e}"))).len();
    rep.check(got == present && shown == present, || format!("{what}: {present} series are present, get_cardinality reports {got} and {shown} are exported"));
    rep.eval();
    rep.count("concurrent cardinality readings", readings);
    rep.count("readings known to within two series", tight);
    rep.distinct(format!("{what}{rounds}{readings}{present}").as_bytes());
    rep.sample(|| format!("{what}, {rounds} rounds: {readings} readings, {present} series in the end"));
}

/// Many thousands of series: created by racing threads while others scrape, a third of them removed by
/// racing threads, the rest recorded into; every step judged by what is known of every series.
fn large<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, p: P, repr: u8, at_first: bool) {
    if ctx.small {
        return;
    }
    let mut v: CounterVec<S::Set> = vec_of::<_, S>(repr);
    let dense = repr == 1 && S::DENSE;
    let n = *rng.pick(&[3_000, 20_000, 66_000, 100_000, 139_000][if at_first { 3 } else { 0 }..]);
    let threads = rng.range(2, 6);
    let what = format!("{} repr {repr}, {n} series, {threads} threads", S::NAME);
    // in place before anything else happens
    let early = n / rng.range(2, 8);
    for i in 0..early {
        if i % 2 == 0 {
            v.inc_by(S::group(i), 1 << 40);
        } else {
            let id = v.with_labels(S::group(i));
            v.get_metric_mut(id).inc_by(1 << 40);
        }
    }
    let gate = Gate::new(threads + 1);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let over = AtomicBool::new(false);
    let index: HashMap<Labels, usize> = (0..n).map(|i| (S::labels(i), i)).collect();
    let check = |got: Vec<(Labels, u64)>, must: &dyn Fn(usize) -> bool| -> Result<Vec<u64>, String> {
        let mut val = vec![u64::MAX; n];
        for (l, x) in got {
            let Some(&i) = index.get(&l) else { return Err(format!("series {l:?} was never recorded")) };
            if val[i] != u64::MAX {
                return Err(format!("series {l:?} appears twice"));
            }
            val[i] = x;
        }
        match (0..n).find(|&i| must(i) && val[i] == u64::MAX) {
            Some(i) => Err(format!("series {:?} is missing", S::labels(i))),
            None => Ok(val),
        }
    };
    let (scrapes, err) = std::thread::scope(|s| {
        let (v, gate, over, check) = (&v, &gate, &over, &check);
        let ws: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, &seed)| {
                worker(s, move || {
                    let mut r = Rng::new(seed);
                    let (mut i, step) = (r.below(n), [1, 7, 641, 10_007][r.below(4)]);
                    gate.wait();
                    // the steps have no factor in common with any n
                    for _ in 0..n {
                        v.inc_by(S::group(i), 1 << (8 * t));
                        i = (i + step) % n;
                    }
                })
            })
            .collect();
        let sc = worker(s, move || {
            gate.wait();
            let mut k = 0u64;
            loop {
                let stop = over.load(SeqCst);
                let r = scrape::<KCounter, _>(v).and_then(|g| check(g, &|i| i < early).map(|_| ()));
                if let Err(e) = r {
                    return (k, Some(e));
                }
                let c = v.get_cardinality().0;
                if c < early || c > n {
                    return (k, Some(format!("get_cardinality reports {c}, between {early} and {n} series are present")));
                }
                k += 1;
                if stop {
                    return (k, None);
                }
            }
        });
        for w in ws {
            w.join().unwrap();
        }
        over.store(true, SeqCst);
        sc.join().unwrap()
    });
    if let Some(e) = err {
        rep.violation(format!("{what}: scraped while they are created: {e}"));
    }
    let full: u64 = (0..threads).map(|t| 1u64 << (8 * t)).sum();
    let judge = |rep: &mut Report, v: &CounterVec<S::Set>, stage: &str, want: &dyn Fn(usize) -> Option<u64>| {
        let got = scrape::<KCounter, _>(v).unwrap_or_else(|e| rep.violation(format!("{what}: {stage}: {e}")));
        let shown = got.len();
        let val = check(got, &|i| want(i).is_some()).unwrap_or_else(|e| rep.violation(format!("{what}: {stage}: {e}")));
        let present = (0..n).filter(|&i| want(i).is_some()).count();
        let c = v.get_cardinality().0;
        rep.check(shown == present && c == present, || format!("{what}: {stage}: {present} series are present, {shown} exported, get_cardinality reports {c}"));
        if matches!(p, P::C10) {
            return;
        }
        for i in 0..n {
            let w = want(i).unwrap_or(u64::MAX);
            rep.check(val[i] == w, || format!("{what}: {stage}: series {:?} is {:#x}, should be {w:#x}", S::labels(i), val[i]));
        }
    };
    let base = |i: usize| full + if i < early { 1 << 40 } else { 0 };
    judge(rep, &v, "after the race", &|i| Some(base(i)));
    // removal
    let taken: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let bad = std::thread::scope(|s| {
        let (v, taken) = (&v, &taken);
        let hs: Vec<_> = (0..3usize)
            .map(|t| {
                worker(s, move || {
                    let mut bad = None;
                    for k in 0..n {
                        let i = (k * 7 + t * 1111) % n;
                        if i % 3 == 0 {
                            if let Some(m) = v.remove_metric(v.with_labels(S::group(i))) {
                                if taken[i].fetch_add(1, SeqCst) != 0 {
                                    bad = Some(format!("series {:?} was handed out twice", S::labels(i)));
                                }
                                let x = m.count.into_inner();
                                if x != base(i) {
                                    bad = Some(format!("the state removed from {:?} is {x:#x}, should be {:#x}", S::labels(i), base(i)));
                                }
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).next()
    });
    if let Some(e) = bad {
        rep.violation(format!("{what}: removing a third: {e}"));
    }
    let removed = taken.iter().filter(|x| x.load(SeqCst) > 0).count();
    // the default representation of a large set may be either
    let stays = dense || (S::DENSE && repr == 0 && removed == 0);
    if dense {
        rep.check(removed == 0, || format!("{what}: a dense vec handed out {removed} series"));
    }
    rep.check(stays || removed == n.div_ceil(3), || format!("{what}: {removed} of {} series were handed out", n.div_ceil(3)));
    judge(rep, &v, "after removals", &|i| if i % 3 == 0 && !stays { None } else { Some(base(i)) });
    for i in 0..n {
        if (i / 7) % 2 == 0 {
            v.inc(S::group(i));
        } else {
            let id = v.with_labels(S::group(i));
            v.get_metric_mut(id).inc();
        }
    }
    judge(rep, &v, "recorded again", &|i| Some(if i % 3 == 0 && !stays { 1 } else { base(i) + 1 }));
    if dense {
        // every possible series, those recorded undisturbed
        let m = S::n();
        v.init_all_dense();
        let c = v.get_cardinality();
        rep.check(c == (m, Some(m)), || format!("{what}: initialised eagerly: get_cardinality reports {c:?}, there are {m} series"));
        let got = scrape::<KCounter, _>(&v).unwrap_or_else(|e| rep.violation(format!("{what}: initialised eagerly: {e}")));
        let mut seen = HashMap::new();
        for (l, x) in &got {
            let w = index.get(l).map_or(0, |&i| base(i) + 1);
            rep.check(*x == w, || format!("{what}: initialised eagerly: series {l:?} is {x:#x}, should be {w:#x}"));
            rep.check(seen.insert(l, ()).is_none(), || format!("{what}: initialised eagerly: series {l:?} appears twice"));
        }
        rep.check(seen.len() == m, || format!("{what}: initialised eagerly: {} of {m} series exported", seen.len()));
        rep.count("large dense vecs initialised eagerly", 1);
    }
    rep.eval();
    rep.count("series of large vecs", n as u64);
    rep.count("scrapes of large vecs", scrapes + 3);
    rep.distinct(format!("{what}{early}{scrapes}").as_bytes());
}

#[derive(Clone, Copy)]
enum P {
    C07,
    C08,
    C10,
    C23,
}
struct Go<'a>(&'a Ctx, &'a mut Report, &'a mut Rng, P);
impl WithKeys for Go<'_> {
    fn run<S: KeySpace>(&mut self) {
        if !self.0.time_left() || (self.0.small && !["routes-reader", "colliding-hashes", "small-enums"].contains(&S::NAME)) {
            return;
        }
        let (c, r, g) = (self.0, &mut *self.1, &mut *self.2);
        match self.3 {
            P::C07 => {
                for _ in 0..c.n(4, 1) {
                    first_touch::<S>(c, r, g)
                }
            }
            P::C08 => {
                for _ in 0..c.n(3, 1) {
                    remove_race::<S>(c, r, g)
                }
                remove_stress::<S>(c, r, g);
                dense_never::<S>(c, r, g);
            }
            P::C10 => cardinality_race::<S>(c, r, g),
            P::C23 => scrape_complete::<S>(c, r, g),
        }
    }
}

fn main() {
    let _ = std::mem::size_of::<CounterState>();
    vh::report::run(|ctx, rep| {
        let p = match ctx.phase.as_str() {
            "C07" => P::C07,
            "C08" => P::C08,
            "C10" => P::C10,
            "C23" => P::C23,
            x => panic!("unknown phase {x:?}"),
        };
        rep.rule = "one evaluation = one concurrent run on a fresh vec (2..8 threads; label sets incl. colliding hashes and delaying Hash/Eq callbacks; dense, sparse, default) checked against per-series ledgers; non-trivial = distinct (configuration, observed outcome), for removal runs with at least one series handed out";
        let mut rng = ctx.rng(8);
        let cpus = std::thread::available_parallelism().map_or(1, usize::from);
        let mut first = true;
        loop {
            // now and then, and first of all
            let at_first = std::mem::take(&mut first);
            let repr = rng.below(3) as u8;
            if cpus < 2 || (ctx.slow && !(at_first && ctx.thorough)) {
            } else if at_first {
                ctx.beside(|| {
                    large::<KManyDyn>(ctx, rep, &mut rng, p, 2, true);
                    large::<KManyIdx>(ctx, rep, &mut rng, p, 1, true);
                });
            } else if rng.chance(1, 20) {
                large::<KManyDyn>(ctx, rep, &mut rng, p, repr, false);
            } else if rng.chance(1, 20) {
                large::<KManyIdx>(ctx, rep, &mut rng, p, repr, false);
            }
            each_key_space(&mut Go(ctx, rep, &mut rng, p));
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
