//! C04: histogram contents against the definition of a cumulative histogram, for many bound lists and
//! observation sequences; the bound constructors against their formulas.
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::{Metric, MetricVec};
use vh::keys::*;
use vh::kinds::export;
use vh::prom::{self, same_f64};
use vh::report::catch;
use vh::{Report, Rng};

fn up(x: f64) -> f64 {
    if x == f64::INFINITY || x.is_nan() {
        return x;
    }
    if x == 0.0 {
        return f64::from_bits(1);
    }
    f64::from_bits(if x > 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}
fn down(x: f64) -> f64 {
    -up(-x)
}

fn bounds(rng: &mut Rng, n: usize) -> Vec<f64> {
    loop {
        let mut v: Vec<f64> = match rng.below(7) {
            6 => (0..n).map(|i| i as f64 - (n / 2) as f64).collect(),
            0 => (0..n).map(|_| rng.any_f64()).collect(),
            1 => (0..n).map(|i| i as f64 * 0.5 - 1.0).collect(),
            2 => {
                // adjacent floats
                let mut x = rng.any_f64();
                (0..n)
                    .map(|_| {
                        x = up(x);
                        x
                    })
                    .collect()
            }
            3 => (0..n).map(|i| 10f64.powi(i as i32 * 7 - 30)).collect(),
            4 => {
                let mut v: Vec<f64> = (0..n).map(|_| rng.below(40_000) as f64 - 20_000.0).collect();
                if n > 1 {
                    v[0] = f64::NEG_INFINITY;
                }
                if n > 0 && rng.chance(1, 2) {
                    v[n - 1] = f64::INFINITY;
                }
                v
            }
            _ => (0..n).map(|_| (rng.below(if n > 20 { 400_000 } else { 400 }) as f64 - 200.0) / 8.0).collect(),
        };
        if rng.chance(1, 4) {
            // both zeros are the same bound
            for x in v.iter_mut().filter(|x| **x == 0.0) {
                *x = -*x;
            }
        }
        v.sort_by(|a, b| a.total_cmp(b));
        if v.iter().any(|x| x.is_nan()) || v.windows(2).any(|w| !(w[0] < w[1])) {
            continue;
        }
        return v;
    }
}

/// the exported family against the definition
fn compare(out: &[u8], labels: &prom::Labels, bs: &[f64], obs: &[f64]) -> Result<(), String> {
    let f = prom::families(out)?;
    if f.len() != 1 || f[0].typ.as_deref() != Some("histogram") {
        return Err("not one histogram family".into());
    }
    let hs = prom::histograms(&f[0])?;
    let Some(h) = hs.iter().find(|h| h.labels == *labels) else { return Err(format!("series {labels:?} missing")) };
    let fin: Vec<f64> = bs.iter().copied().filter(|b| *b != f64::INFINITY).collect();
    if h.buckets.len() != fin.len() + 1 {
        return Err(format!("{} buckets for the bounds {bs:?}", h.buckets.len()));
    }
    for (b, (le, c)) in fin.iter().zip(&h.buckets) {
        let l = prom::parse_number(le).unwrap();
        if l.to_bits() != b.to_bits() {
            return Err(format!("bound {b:?} exported as {le:?}"));
        }
        let want = obs.iter().filter(|x| **x <= *b).count() as u64;
        if *c != want {
            return Err(format!("bucket le={b:?} counts {c}, {want} observations are <= it"));
        }
    }
    let n = obs.len() as u64;
    if h.count != n || h.buckets.last().unwrap().1 != n {
        return Err(format!("count {} and +Inf {} for {n} observations", h.count, h.buckets.last().unwrap().1));
    }
    let mut s = 0.0;
    for x in obs {
        s += x;
    }
    let got = prom::parse_number(&h.sum).unwrap();
    if !same_f64(got, s) {
        return Err(format!("sum {got:?}, the observations sum to {s:?}"));
    }
    Ok(())
}

fn run<const N: usize>(rep: &mut Report, rng: &mut Rng) {
    let bs = bounds(rng, N);
    let arr: [f64; N] = bs.clone().try_into().unwrap();
    let t = match catch(|| Thresholds::<N>::with_buckets(arr)) {
        Ok(t) => t,
        Err(e) => rep.violation(format!("with_buckets rejected the increasing bounds {bs:?}: {e}")),
    };
    rep.check(t.get().iter().zip(&bs).all(|(a, b)| a.to_bits() == b.to_bits()), || format!("with_buckets({bs:?}).get() is {:?}", t.get()));
    let mut single = Metric::<HistogramState<N>>::with_metadata(t);
    let dense = rng.chance(1, 2);
    let md = Thresholds::<N>::with_buckets(arr);
    let mut vec = if dense {
        MetricVec::<HistogramState<N>, _>::dense_with_label_set_and_metadata(KRoute::make_set(), md)
    } else {
        MetricVec::<HistogramState<N>, _>::sparse_with_label_set_and_metadata(KRoute::make_set(), md)
    };
    let s = rng.below(60);
    let other = (s + 1 + rng.below(59)) % 60;
    let mut obs: Vec<f64> = vec![];
    let mut oth: Vec<f64> = vec![];
    let len = if rng.chance(1, 8) { rng.range(100, 400) } else { rng.range(0, 24) };
    let tame = rng.chance(1, 2);
    let path0 = rng.below(10);
    for _ in 0..len {
        let x = match rng.below(if tame { 5 } else { 9 }) {
            0 | 1 if N > 0 => *rng.pick(&bs),
            2 if N > 0 => up(*rng.pick(&bs)),
            3 if N > 0 => down(*rng.pick(&bs)),
            4 => rng.below(1000) as f64 / 4.0 - 100.0,
            5 => *rng.pick(&[0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            6 => std::time::Duration::new(rng.u64() >> rng.below(64), rng.below(1_000_000_000) as u32).as_secs_f64(),
            _ => rng.any_f64(),
        };
        let path = if rng.chance(1, 2) { path0 } else { rng.below(10) };
        // the public state, written directly as the guards would
        let bucket = if x.is_nan() { N } else { bs.iter().position(|b| x <= *b).unwrap_or(N) };
        match path {
            0 => single.observe(x),
            8 => single.get_metric().inner.read().observe(bucket, x),
            9 => single.get_metric_mut().inner.get_mut().observe_mut(bucket, x),
            1 | 2 => single.get_metric_mut().observe(x),
            _ => single.get_metric().observe(x),
        }
        let id = vec.with_labels(KRoute::group(s));
        match path {
            0 | 1 => vec.observe(KRoute::group(s), x),
            2 | 3 => vec.get_metric_mut(id).observe(x),
            8 => vec.get_metric_mut(id).inner.get_mut().observe_mut(bucket, x),
            9 => vec.get_metric(id).inner.write().observe_mut(bucket, x),
            _ => vec.get_metric(id).observe(x),
        }
        obs.push(x);
        if rng.chance(1, 10) {
            // given durations are seconds
            let d = std::time::Duration::new(rng.u64() >> rng.below(64), rng.below(1_000_000_000) as u32);
            match rng.below(3) {
                0 => vec.observe_duration(KRoute::group(s), d),
                1 => vec.get_metric(id).observe_duration(d),
                _ => vec.get_metric_mut(id).observe_duration(d),
            }
            match rng.below(2) {
                0 => single.get_metric().observe_duration(d),
                _ => single.get_metric_mut().observe_duration(d),
            }
            obs.push(d.as_secs_f64());
        }
        if rng.chance(1, 4) {
            vec.observe(KRoute::group(other), x * 0.5);
            oth.push(x * 0.5);
        }
        if rng.chance(1, 16) || obs.len() == len {
            let r = compare(&export(&single, "h"), &vec![], &bs, &obs)
                .map_err(|e| format!("single: {e}"))
                .and_then(|_| compare(&export(&vec, "h"), &KRoute::labels(s), &bs, &obs).map_err(|e| format!("vec (dense {dense}): {e}")))
                .and_then(|_| if oth.is_empty() { Ok(()) } else { compare(&export(&vec, "h"), &KRoute::labels(other), &bs, &oth).map_err(|e| format!("other series: {e}")) });
            if let Err(e) = r {
                rep.violation(format!("bounds {bs:?}, observations {:?}: {e}", &obs[..obs.len().min(40)]));
            }
            rep.count("exports compared", 2);
        }
    }
    let r = compare(&export(&single, "h"), &vec![], &bs, &obs);
    if let Err(e) = r {
        rep.violation(format!("bounds {bs:?}, observations {:?}: {e}", &obs[..obs.len().min(40)]));
    }
    rep.eval();
    rep.count("observations", obs.len() as u64);
    if !obs.is_empty() {
        rep.distinct(format!("{bs:?}{obs:?}").as_bytes());
    }
    rep.sample(|| format!("bounds {bs:?}, observations {obs:?}"));
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    same_f64(a, b) || (a - b).abs() <= 1e-12 * scale
}

fn constructors<const N: usize>(rep: &mut Report, rng: &mut Rng) {
    let start = match rng.below(3) {
        0 => rng.any_f64(),
        1 => rng.below(1000) as f64 / 16.0 - 20.0,
        _ => 10f64.powi(rng.below(20) as i32 - 10),
    };
    let step = match rng.below(4) {
        0 => rng.any_f64(),
        1 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::MIN_POSITIVE, 1.0 + f64::EPSILON, 2.0, 10.0, 0.5]),
        _ => 1.0 + rng.below(100) as f64 / 16.0,
    };
    let lin = catch(|| Thresholds::<N>::linear_buckets(start, step));
    match lin {
        Ok(t) => {
            rep.check(step > 0.0, || format!("linear_buckets accepted width {step:?}"));
            for (i, le) in t.get().iter().enumerate() {
                let want = start + step * i as f64;
                let ok = close(*le, want, start.abs().max((step * i as f64).abs()));
                rep.check(ok, || format!("linear_buckets({start:?}, {step:?})[{i}] is {le:?}, should be {want:?}"));
            }
        }
        Err(e) => rep.check(!(step > 0.0), || format!("linear_buckets rejected ({start:?}, {step:?}): {e}")),
    }
    let exp = catch(|| Thresholds::<N>::exponential_buckets(start, step));
    match exp {
        Ok(t) => {
            rep.check(start > 0.0 && step > 1.0, || format!("exponential_buckets accepted ({start:?}, {step:?})"));
            let mut p = 1.0f64;
            for (i, le) in t.get().iter().enumerate() {
                let want = start * step.powi(i as i32);
                let ok = close(*le, want, want.abs()) || close(*le, start * p, (start * p).abs());
                rep.check(ok, || format!("exponential_buckets({start:?}, {step:?})[{i}] is {le:?}, should be {want:?}"));
                p *= step;
            }
        }
        Err(e) => rep.check(!(start > 0.0 && step > 1.0), || format!("exponential_buckets rejected ({start:?}, {step:?}): {e}")),
    }
    // bounds that do not strictly increase are rejected
    if N >= 2 {
        let mut b = bounds(rng, N);
        let i = rng.below(N - 1);
        match rng.below(4) {
            0 => b[i + 1] = b[i],
            1 => b.swap(i, i + 1),
            2 => b[i + rng.below(2)] = f64::NAN,
            _ => b.reverse(),
        }
        let arr: [f64; N] = b.clone().try_into().unwrap();
        rep.check(catch(|| Thresholds::<N>::with_buckets(arr)).is_err(), || format!("with_buckets accepted {b:?}"));
        rep.count("invalid bound lists rejected", 1);
    }
    rep.count("constructor calls compared", 2);
    rep.eval();
    rep.distinct(format!("{N}{start:?}{step:?}").as_bytes());
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one strictly increasing bound list (0..260 bounds, adjacent floats, infinities) with one observation sequence (bounds, their float neighbours, specials, durations) through single, dense and sparse vec, shared and exclusive; or one constructor parameter pair; non-trivial = distinct (bounds, observations)";
        let mut rng = ctx.rng(4);
        loop {
            for _ in 0..ctx.n(20, 1) {
                vh::report::bounded(|| {
                run::<0>(rep, &mut rng);
                run::<1>(rep, &mut rng);
                run::<2>(rep, &mut rng);
                run::<3>(rep, &mut rng);
                run::<5>(rep, &mut rng);
                run::<8>(rep, &mut rng);
                run::<16>(rep, &mut rng);
                match rng.below(ctx.n(24, 200)) {
                    0 => run::<17>(rep, &mut rng),
                    1 => run::<33>(rep, &mut rng),
                    2 => run::<40>(rep, &mut rng),
                    3 => run::<64>(rep, &mut rng),
                    4 => run::<100>(rep, &mut rng),
                    5 => run::<130>(rep, &mut rng),
                    6 => run::<260>(rep, &mut rng),
                    7 => constructors::<33>(rep, &mut rng),
                    8 => constructors::<100>(rep, &mut rng),
                    9 => constructors::<300>(rep, &mut rng),
                    _ => {}
                }
                constructors::<0>(rep, &mut rng);
                constructors::<1>(rep, &mut rng);
                constructors::<4>(rep, &mut rng);
                constructors::<12>(rep, &mut rng);
                });
            }
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
