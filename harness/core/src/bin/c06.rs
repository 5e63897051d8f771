//! C06: timers record exactly one observation of the true elapsed time, in exactly their series.
use std::collections::HashMap;
use std::time::{Duration, Instant};

use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::{Metric, MetricVec};
use vh::keys::*;
use vh::kinds::export;
use vh::prom::{self, HistSeries, Labels};
use vh::report::{catch, worker};
use vh::{Ctx, Report, Rng};

const B: [f64; 3] = [1e-6, 1e-4, 1e-2];
type H = HistogramState<3>;

fn pause(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::sleep(Duration::from_micros(rng.below(1500) as u64)),
        1 | 2 => std::thread::yield_now(),
        3..=6 => {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

fn series(out: &[u8]) -> Result<HashMap<Labels, HistSeries>, String> {
    let f = prom::families(out)?;
    prom::check_no_duplicates(&f)?;
    Ok(prom::histograms(&f[0])?.into_iter().map(|h| (h.labels.clone(), h)).collect())
}

/// one observation was added, with a value in [lo, hi] (or exactly `exact`), from an empty series
fn judge(h: Option<&HistSeries>, lo: Duration, hi: Duration, exact: Option<f64>) -> Result<f64, String> {
    let Some(h) = h else { return Err("no observation was recorded".into()) };
    if h.count != 1 {
        return Err(format!("{} observations instead of one", h.count));
    }
    let s = prom::parse_number(&h.sum).unwrap();
    if let Some(x) = exact {
        if s.to_bits() != x.to_bits() {
            return Err(format!("recorded {s:?} seconds, the explicit stop returned {x:?}"));
        }
    }
    if s < lo.as_secs_f64() {
        return Err(format!("recorded {s:?} seconds, but {:?} passed between start returning and the stop call", lo));
    }
    if s > hi.as_secs_f64() {
        return Err(format!("recorded {s:?} seconds, but only {:?} passed between the start call and the stop returning", hi));
    }
    for (le, c) in &h.buckets {
        let want = (s <= prom::parse_number(le).unwrap()) as u64;
        if *c != want {
            return Err(format!("value {s:?}: bucket le={le} counts {c}"));
        }
    }
    Ok(s)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Observe,
    Drop,
    Unwind,
    Forget,
    MemForget,
    Since,
    SinceMut,
    Moved,
}
const ENDS: [End; 8] = [End::Observe, End::Drop, End::Unwind, End::Forget, End::MemForget, End::Since, End::SinceMut, End::Moved];

struct Bomb;

fn single(rep: &mut Report, rng: &mut Rng) {
    let end = *rng.pick(&ENDS);
    let mut m = Metric::<H>::with_metadata(Thresholds::with_buckets(B));
    let t0 = Instant::now();
    let since = Instant::now();
    let mut exact = None;
    let (t1, t2, t3);
    if end == End::SinceMut {
        t1 = Instant::now();
        pause(rng);
        t2 = Instant::now();
        exact = Some(m.get_metric_mut().observe_duration_since(since));
        t3 = Instant::now();
    } else {
        let t = m.start_timer();
        t1 = Instant::now();
        pause(rng);
        let mid = export(&m, "h");
        match series(&mid) {
            Ok(s) if s[&vec![]].count == 0 => {}
            r => rep.violation(format!("running timer: {r:?}")),
        }
        t2 = Instant::now();
        match end {
            End::Observe => exact = Some(t.observe()),
            End::Drop => drop(t),
            End::Unwind => {
                let r = catch(move || {
                    let _t = t;
                    std::panic::resume_unwind(Box::new(Bomb));
                });
                assert!(r.is_err());
            }
            End::Forget => t.forget(),
            End::MemForget => std::mem::forget(t),
            End::Since => {
                exact = Some(m.get_metric().observe_duration_since(since));
                t.forget();
            }
            End::Moved => std::thread::scope(|s| {
                worker(s, move || drop(t));
            }),
            End::SinceMut => unreachable!(),
        }
        t3 = Instant::now();
    }
    let s = series(&export(&m, "h")).unwrap_or_else(|e| rep.violation(e));
    let h = &s[&vec![]];
    if matches!(end, End::Forget | End::MemForget) {
        rep.check(h.count == 0 && h.sum.parse::<f64>() == Ok(0.0), || format!("a forgotten timer recorded: {h:?}"));
    } else {
        match judge(Some(h), t2 - t1, t3 - t0, exact.map(|d| d.as_secs_f64())) {
            Ok(x) => rep.distinct(&x.to_le_bytes()),
            Err(e) => rep.violation(format!("single timer ended by {end:?}: {e}")),
        }
    }
    rep.eval();
    rep.count("timers on single histograms", 1);
}

fn vecs<S: KeySpace>(rep: &mut Report, rng: &mut Rng) {
    let dense = S::DENSE && rng.chance(1, 2);
    let mut v: MetricVec<H, S::Set> = if dense {
        MetricVec::dense_with_label_set_and_metadata(S::make_set(), Thresholds::with_buckets(B))
    } else {
        MetricVec::sparse_with_label_set_and_metadata(S::make_set(), Thresholds::with_buckets(B))
    };
    let n = S::n();
    let mut keys: Vec<usize> = (0..n.min(5)).map(|_| rng.below(n)).collect();
    keys.sort();
    keys.dedup();
    rng.shuffle(&mut keys);
    // several timers run at once, each on its own series, ended in another order
    let mut run = vec![];
    for &k in &keys {
        let end = *rng.pick(&ENDS);
        if end == End::SinceMut {
            continue;
        }
        let t0 = Instant::now();
        let t = v.start_timer(S::group(k));
        let t1 = Instant::now();
        run.push((k, end, t0, t, t1));
        pause(rng);
    }
    if !dense && rng.chance(1, 4) && !run.is_empty() {
        // removing the series does not stop the timer
        let k = run[0].0;
        v.remove_metric(v.with_labels(S::group(k)));
    }
    rng.shuffle(&mut run);
    let mut want: HashMap<Labels, (End, Duration, Duration, Option<f64>)> = HashMap::new();
    for (k, end, t0, t, t1) in run {
        pause(rng);
        let mut exact = None;
        let t2 = Instant::now();
        match end {
            End::Observe => exact = Some(t.observe()),
            End::Drop => drop(t),
            End::Unwind => {
                let _ = catch(move || {
                    let _t = t;
                    std::panic::resume_unwind(Box::new(Bomb));
                });
            }
            End::Forget => t.forget(),
            End::MemForget => std::mem::forget(t),
            End::Since => {
                exact = Some(match rng.below(2) {
                    0 => v.observe_duration_since(S::group(k), t0),
                    _ => v.get_metric(v.with_labels(S::group(k))).observe_duration_since(t0),
                });
                t.forget();
            }
            End::Moved => std::thread::scope(|s| {
                worker(s, move || drop(t));
            }),
            End::SinceMut => unreachable!(),
        }
        let t3 = Instant::now();
        want.insert(S::labels(k), (end, t2 - t1, t3 - t0, exact.map(|d| d.as_secs_f64())));
    }
    // exclusive access, and a given duration
    let spare = (0..n).find(|i| !keys.contains(i));
    if let Some(k) = spare {
        let id = v.with_labels(S::group(k));
        let t0 = Instant::now();
        pause(rng);
        let t2 = Instant::now();
        let d = v.get_metric_mut(id).observe_duration_since(t0);
        let t3 = Instant::now();
        want.insert(S::labels(k), (End::SinceMut, t2 - t0, t3 - t0, Some(d.as_secs_f64())));
    }
    let got = series(&export(&v, "h")).unwrap_or_else(|e| rep.violation(e));
    for (l, h) in &got {
        if !want.contains_key(l) && h.count > 0 {
            rep.violation(format!("{} dense {dense}: an observation in series {l:?}, which no timer was started for", S::NAME));
        }
    }
    for (l, (end, lo, hi, exact)) in &want {
        if matches!(end, End::Forget | End::MemForget) {
            // the series does not even come to exist in a sparse vec
            let c = got.get(l).map_or(0, |h| h.count);
            rep.check(dense || !got.contains_key(l), || format!("{} sparse: a forgotten timer left the series {l:?}", S::NAME));
            rep.check(c == 0, || format!("{} dense {dense}: a forgotten timer recorded {c} observations", S::NAME));
        } else {
            match judge(got.get(l), *lo, *hi, *exact) {
                Ok(x) => rep.distinct(&x.to_le_bytes()),
                Err(e) => rep.violation(format!("{} dense {dense}: timer of {l:?} ended by {end:?}: {e}", S::NAME)),
            }
        }
        rep.eval();
        rep.count("timers on vecs", 1);
    }
    rep.sample(|| format!("{} dense {dense}: timers {want:?}", S::NAME));
}

/// a timer for a group outside the set is refused at start, and nothing is recorded
fn outside(rep: &mut Report, rng: &mut Rng) {
    let v: MetricVec<H, _> = MetricVec::with_label_set_and_metadata(KRoute::make_set(), Thresholds::with_buckets(B));
    let r = catch(|| drop(v.start_timer(KRoute::bad(rng.below(100)).unwrap())));
    rep.check(r.is_err(), || "a timer was started for a group outside the set".into());
    let s = series(&export(&v, "h")).unwrap_or_else(|e| rep.violation(e));
    rep.check(s.is_empty(), || format!("series {s:?} after refused timers"));
}

/// timers of many threads on one series: count and total
fn many(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let v: MetricVec<H, _> = MetricVec::sparse_with_label_set_and_metadata(KRoute::make_set(), Thresholds::with_buckets(B));
    let m = Metric::<H>::with_metadata(Thresholds::with_buckets(B));
    let threads = ctx.n(6, 2);
    let each = ctx.n(rng.range(1, 200), 2);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let (mut lo, mut hi, mut n) = (Duration::ZERO, Duration::ZERO, 0);
    std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let (v, m) = (&v, &m);
                worker(s, move || {
                    let mut r = Rng::new(seed);
                    let (mut lo, mut hi, mut n) = (Duration::ZERO, Duration::ZERO, 0);
                    for _ in 0..each {
                        let a = Instant::now();
                        let t = v.start_timer(KRoute::group(7));
                        let u = m.start_timer();
                        let b = Instant::now();
                        pause(&mut r);
                        let c = Instant::now();
                        if r.chance(1, 4) {
                            t.forget();
                            u.forget();
                            continue;
                        }
                        if r.chance(1, 2) {
                            t.observe();
                            drop(u);
                        } else {
                            drop(t);
                            u.observe();
                        }
                        let d = Instant::now();
                        lo += c - b;
                        hi += d - a;
                        n += 1;
                    }
                    (lo, hi, n)
                })
            })
            .collect();
        for h in hs {
            let (a, b, c) = h.join().unwrap();
            lo += a;
            hi += b;
            n += c;
        }
    });
    for (what, l, out) in [("vec", KRoute::labels(7), export(&v, "h")), ("single", vec![], export(&m, "h"))] {
        let s = series(&out).unwrap_or_else(|e| rep.violation(e));
        let (c, sum) = s.get(&l).map_or((0, 0.0), |h| (h.count, h.sum.parse::<f64>().unwrap()));
        rep.check(c == n, || format!("{what}: {n} timers ended, {c} observations recorded"));
        let slack = 1e-9 * (1.0 + hi.as_secs_f64());
        rep.check(sum >= lo.as_secs_f64() - slack && sum <= hi.as_secs_f64() + slack, || format!("{what}: {n} timers sum to {sum}, measured between {lo:?} and {hi:?}"));
    }
    rep.eval();
    rep.count("timers of concurrent threads", n);
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one timer (on a single histogram, or among several running at once on series of a vec) ended by stop, drop, unwinding, another thread, forget or mem::forget, bracketed by clock readings; non-trivial = distinct recorded values";
        let mut rng = ctx.rng(6);
        loop {
            for _ in 0..ctx.n(40, 4) {
                single(rep, &mut rng);
            }
            for _ in 0..ctx.n(5, 1) {
                vecs::<KRoute>(rep, &mut rng);
                vecs::<KDyn>(rep, &mut rng);
                vecs::<KBig>(rep, &mut rng);
                vecs::<KClash>(rep, &mut rng);
                vecs::<KComp>(rep, &mut rng);
            }
            outside(rep, &mut rng);
            many(ctx, rep, &mut rng);
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
