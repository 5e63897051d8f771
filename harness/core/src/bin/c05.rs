//! C05: every histogram scrape is one consistent snapshot.
//! Each bucket only ever receives one fixed value, so the sum must equal the dot product of the
//! exported bucket counts and those values; ledgers bound every bucket in real time.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::{Metric, MetricFamilyEncoding, MetricVec};
use measured::text::BufferedTextEncoder;
use vh::keys::*;
use vh::kinds::*;
use vh::prom::{self, Labels};
use vh::report::worker;
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

/// bounds and, for each bucket, the one value it receives: multiples of 1/4, so that sums are exact
fn bounds<const N: usize>() -> [f64; N] {
    if N == BOUNDS.len() {
        return std::array::from_fn(|i| BOUNDS[i]);
    }
    std::array::from_fn(|i| i as f64 * 8.0 - 16.0)
}
fn values(bounds: &[f64]) -> Vec<f64> {
    if *bounds == BOUNDS {
        return vec![-2.0, 0.25, 2.5, 1000.0, 4096.5];
    }
    let mut v: Vec<f64> = bounds.iter().enumerate().map(|(i, b)| b - (i % 7) as f64).collect();
    v.push(bounds.last().map_or(2.5, |b| b + 0.75));
    v
}
/// per series, per bucket
type Cells = Vec<Vec<AtomicU64>>;
fn cells(n: usize, buckets: usize) -> Cells {
    (0..n).map(|_| (0..buckets).map(|_| AtomicU64::new(0)).collect()).collect()
}
fn load(c: &Cells) -> Vec<Vec<u64>> {
    c.iter().map(|x| x.iter().map(|b| b.load(SeqCst)).collect()).collect()
}

struct Hist<'a> {
    bounds: &'a [f64],
    val: &'a [f64],
    observe: Box<dyn Fn(usize, f64, u8) + Sync + 'a>,
    family: &'a (dyn Fn() -> bytes::Bytes + Sync),
}

fn check_scrape(h: &Hist, out: &[u8], index: &HashMap<Labels, usize>, lo: &[Vec<u64>], floor: &[Vec<u64>], hi: &[Vec<u64>], ceil: &Cells) -> Result<u64, String> {
    let fams = prom::families(out)?;
    if fams.len() != 1 {
        return Err("not exactly one family".into());
    }
    prom::check_no_duplicates(&fams)?;
    let mut seen = vec![false; lo.len()];
    let mut mid = 0;
    for (l, m) in read_hist(&fams[0], h.bounds)? {
        let Some(&i) = index.get(&l) else { return Err(format!("series {l:?} was never recorded")) };
        seen[i] = true;
        let mut s = 0.0;
        for b in 0..h.val.len() {
            let c = m.buckets[b];
            s += c as f64 * h.val[b];
            if c < lo[i][b] {
                return Err(format!("series {l:?} bucket {b}: {c} observations shown, {} had finished before the scrape", lo[i][b]));
            }
            if c > hi[i][b] {
                return Err(format!("series {l:?} bucket {b}: {c} observations shown, only {} had started by its end", hi[i][b]));
            }
            if c < floor[i][b] {
                return Err(format!("series {l:?} bucket {b}: {c} observations shown, an earlier scrape showed {}", floor[i][b]));
            }
            if c != lo[i][b] || c != hi[i][b] {
                mid += 1;
            }
            ceil[i][b].fetch_max(c, SeqCst);
        }
        if m.sum.0 != s {
            return Err(format!("series {l:?}: sum {} but the counted observations {:?} sum to {s}", m.sum.0, m.buckets));
        }
    }
    for i in 0..lo.len() {
        if !seen[i] && lo[i].iter().any(|c| *c > 0) {
            return Err(format!("series {i} missing"));
        }
    }
    Ok(mid)
}

fn stress(what: &str, h: &Hist, n: usize, index: &HashMap<Labels, usize>, ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let threads = ctx.n(rng.range(1, 6), 2);
    let scrapers = ctx.n(rng.range(1, 3), 1);
    let ops = ctx.n(rng.range(50, 4000), 10);
    let (started, done, shown) = (cells(n, h.val.len()), cells(n, h.val.len()), cells(n, h.val.len()));
    let gate = Gate::new(threads + scrapers);
    let over = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let (mut scrapes, mut mids, mut err) = (0u64, 0u64, None::<String>);
    let gap = rng.chance(1, 2);
    std::thread::scope(|s| {
        let (gate, over, started, done, shown) = (&gate, &over, &started, &done, &shown);
        let ws: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    gate.wait();
                    for _ in 0..ops {
                        let (i, b, p) = (r.below(n), r.below(h.val.len()), r.below(4) as u8);
                        started[i][b].fetch_add(1, SeqCst);
                        (h.observe)(i, h.val[b], p);
                        done[i][b].fetch_add(1, SeqCst);
                        if gap && r.chance(1, 64) {
                            sched::delay(r.u64());
                        }
                    }
                })
            })
            .collect();
        let ss: Vec<_> = (0..scrapers)
            .map(|_| {
                worker(s, move || {
                    let (mut k, mut mid) = (0, 0);
                    gate.wait();
                    loop {
                        let stop = over.load(SeqCst);
                        let floor = load(shown);
                        let lo = load(done);
                        let out = (h.family)();
                        let hi = load(started);
                        k += 1;
                        match check_scrape(h, &out, index, &lo, &floor, &hi, shown) {
                            Ok(m) => mid += m,
                            Err(e) => return (k, mid, Some(e)),
                        }
                        if stop {
                            return (k, mid, None);
                        }
                    }
                })
            })
            .collect();
        for w in ws {
            w.join().unwrap();
        }
        over.store(true, SeqCst);
        for x in ss {
            let (k, m, e) = x.join().unwrap();
            scrapes += k;
            mids += m;
            err = err.take().or(e);
        }
    });
    if let Some(e) = err {
        rep.violation(format!("{what}, {threads} observers, {scrapers} scrapers: {e}"));
    }
    let fin = load(&done);
    if let Err(e) = check_scrape(h, &(h.family)(), index, &fin, &fin, &fin, &shown) {
        rep.violation(format!("{what}: after the run: {e}"));
    }
    rep.eval();
    rep.count("observations", (threads * ops) as u64);
    rep.count("concurrent scrapes", scrapes);
    rep.count("bucket values seen mid-flight", mids);
    rep.distinct(format!("{what}{threads}{scrapers}{fin:?}").as_bytes());
    rep.sample(|| format!("{what}: {threads} observers x {ops}, {scrapes} scrapes by {scrapers}, final per-bucket counts {:?}", fin[0]));
}

fn single<const N: usize>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let m = Metric::<HistogramState<N>>::with_metadata(Thresholds::with_buckets(bounds()));
    let (bounds, val) = (bounds::<N>(), values(&bounds::<N>()));
    let fam = || export(&m, "m");
    let h = Hist {
        bounds: &bounds,
        val: &val,
        observe: Box::new(|_, x, p| match p {
            0 => m.observe(x),
            1 if x >= 0.0 => m.get_metric().observe_duration(std::time::Duration::from_secs_f64(x)),
            _ => m.get_metric().observe(x),
        }),
        family: &fam,
    };
    stress(&format!("single, {N} bounds"), &h, 1, &HashMap::from([(vec![], 0)]), ctx, rep, rng);
}

fn vecs<S: KeySpace, const N: usize>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let dense = S::DENSE && rng.chance(1, 2);
    let v: MetricVec<HistogramState<N>, S::Set> = if dense {
        MetricVec::dense_with_label_set_and_metadata(S::make_set(), Thresholds::with_buckets(bounds()))
    } else {
        MetricVec::sparse_with_label_set_and_metadata(S::make_set(), Thresholds::with_buckets(bounds()))
    };
    let (bounds, val) = (bounds::<N>(), values(&bounds::<N>()));
    let n = S::n().min(rng.range(1, 5));
    let index: HashMap<_, _> = (0..n).map(|i| (S::labels(i), i)).collect();
    let fam = || export(&v, "m");
    let ids: Vec<_> = (0..n).map(|i| v.with_labels(S::group(i))).collect();
    let h = Hist {
        bounds: &bounds,
        val: &val,
        observe: Box::new(|i, x, p| match p {
            0 => v.observe(S::group(i), x),
            1 if x >= 0.0 => v.observe_duration(S::group(i), std::time::Duration::from_secs_f64(x)),
            2 => v.get_metric(ids[i]).observe(x),
            _ => v.get_metric(v.with_labels(S::group(i))).observe(x),
        }),
        family: &fam,
    };
    stress(&format!("{} dense {dense}, {N} bounds", S::NAME), &h, n, &index, ctx, rep, rng);
}

fn main() {
    let _: fn(&Metric<HistogramState<4>>, &mut BufferedTextEncoder) = |m, e| {
        let _ = m.collect_family_into(measured::metric::name::MetricName::from_str("x"), e);
    };
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one run of 1..6 observers and 1..3 scrapers on a histogram or histogram vec; every scrape is checked: cumulative, sum = dot product of counts and per-bucket values, between the finished and started ledgers, not behind any earlier scrape; non-trivial = distinct final counts";
        let mut rng = ctx.rng(5);
        loop {
            single::<4>(ctx, rep, &mut rng);
            vecs::<KRoute, 4>(ctx, rep, &mut rng);
            if ctx.small {
                break;
            }
            vecs::<KDyn, 4>(ctx, rep, &mut rng);
            vecs::<KSmall, 1>(ctx, rep, &mut rng);
            vecs::<KClash, 4>(ctx, rep, &mut rng);
            match rng.below(6) {
                0 => single::<0>(ctx, rep, &mut rng),
                1 => single::<1>(ctx, rep, &mut rng),
                2 => single::<2>(ctx, rep, &mut rng),
                3 => single::<13>(ctx, rep, &mut rng),
                4 => single::<40>(ctx, rep, &mut rng),
                _ => single::<130>(ctx, rep, &mut rng),
            }
            match rng.below(3) {
                0 => vecs::<KRoute, 0>(ctx, rep, &mut rng),
                1 => vecs::<KDyn, 0>(ctx, rep, &mut rng),
                _ => vecs::<KRoute, 70>(ctx, rep, &mut rng),
            }
            if !ctx.time_left() {
                break;
            }
        }
    });
}
