//! Phases C20 (exports are read-only and repeatable, encoders reusable) and C21 (writer failures).
use bytes::Bytes;
use measured::metric::group::{ComposedGroup, MetricGroup};
use measured::metric::histogram::Thresholds;
use measured::metric::name::WithNamespace;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{Counter, CounterVec, FloatGauge, Gauge, GaugeVec, Histogram, HistogramVec};
use vh::faulty::{inject, Fault, Faulty};
use vh::reg::*;
use vh::report::{bounded, run, worker};
use vh::{Ctx, Report, Rng};

fn fresh(reg: &[&Fam]) -> Vec<u8> {
    let mut e = BufferedTextEncoder::new();
    for f in reg {
        let Ok(()) = f.export::<_, WithHists>(&mut e);
    }
    e.finish().to_vec()
}

fn reuse(rep: &mut Report, r: &mut Rng) {
    let o = Opts { wild_strings: r.chance(1, 3), wild_numbers: r.chance(1, 3), labels: 2, max_series: 4, long: true, ..TAME };
    let n = r.range(1, 5);
    let reg: Reg<WithHists> = any_reg(r, &o, n);
    let all: Vec<&Fam> = reg.0.iter().collect();
    let mut sig = vec![];

    // buffered: any sequence of partial exports and finishes
    let mut enc = BufferedTextEncoder::new();
    let mut kept: Vec<(Bytes, Vec<u8>)> = vec![];
    let mut pending: Vec<&Fam> = vec![];
    for _ in 0..r.range(2, 12) {
        match r.below(3) {
            0 => {
                let f = *r.pick(&all);
                // the same family twice in one export would be the caller's duplicate
                if pending.iter().all(|p| !std::ptr::eq(*p, f)) {
                    let Ok(()) = f.export::<_, WithHists>(&mut enc);
                    pending.push(f);
                }
            }
            1 if pending.is_empty() => {
                let Ok(()) = reg.collect_group_into(&mut enc);
                pending = all.clone();
            }
            _ => {
                let out = enc.finish();
                rep.eval();
                let want = fresh(&pending);
                if normal_form(&out) != normal_form(&want) {
                    rep.violation(format!(
                        "finish after {} families returned\n{}\na fresh encoder gives\n{}",
                        pending.len(),
                        String::from_utf8_lossy(&out),
                        String::from_utf8_lossy(&want)
                    ));
                }
                if let Err(e) = check_text(&out, &pending, "") {
                    rep.violation(format!("export {} through a reused encoder: {e}\n{}", kept.len() + 1, String::from_utf8_lossy(&out)));
                }
                sig.push(pending.len() as u8);
                pending.clear();
                let copy = out.to_vec();
                kept.push((out, copy));
            }
        }
    }
    for (b, c) in &kept {
        rep.check(&b[..] == &c[..], || {
            format!("an output already handed out changed:\n{}\nwas\n{}", String::from_utf8_lossy(b), String::from_utf8_lossy(c))
        });
    }
    rep.count("outputs kept and found unchanged", kept.len() as u64);

    // writer based: flush separates exports; the writer sees the concatenation
    let mut enc = TextEncoder::new(Vec::<u8>::new());
    let mut start = 0;
    for _ in 0..r.range(1, 5) {
        let some: Vec<&Fam> = all.iter().filter(|_| r.chance(2, 3)).copied().collect();
        for f in &some {
            f.export::<_, WithHists>(&mut enc).expect("writing to a Vec");
        }
        enc.flush().expect("flushing a Vec");
        rep.eval();
        let got = &enc.writer[start..];
        let want = fresh(&some);
        rep.check(normal_form(got) == normal_form(&want), || {
            format!("export through a flushed encoder\n{}\na fresh encoder gives\n{}", String::from_utf8_lossy(got), String::from_utf8_lossy(&want))
        });
        if let Err(e) = check_text(got, &some, "") {
            rep.violation(format!("export through a flushed encoder: {e}"));
        }
        start = enc.writer.len();
        sig.push(100 + some.len() as u8);
    }
    // and the metrics still read as recorded
    let last = fresh(&all);
    if let Err(e) = check_text(&last, &all, "") {
        rep.violation(format!("after repeated exports: {e}"));
    }
    sig.extend(last);
    rep.distinct(&sig);
    rep.sample(|| format!("steps {:?}: {}", &sig[..sig.len().min(8)], String::from_utf8_lossy(&sig[sig.len().min(8)..])));
}

/// an encoder that has held many megabytes is as good as a fresh one
fn huge(rep: &mut Report, r: &mut Rng) {
    use measured::metric::name::MetricName;
    use measured::metric::MetricFamilyEncoding;
    use measured::CounterVec;
    let o = Opts { labels: 2, max_series: 4, ..TAME };
    let reg: Reg<WithHists> = any_reg(r, &o, 2);
    let all: Vec<&Fam> = reg.0.iter().collect();
    let want = fresh(&all);
    let mut enc = BufferedTextEncoder::new();
    let mut kept: Vec<(Bytes, usize)> = vec![];
    for _ in 0..r.range(1, 3) {
        let big = "x".repeat(r.range(1, 30) << 20);
        let n = big.len();
        let set = AnySet { groups: vec![AnyGroup(vec![("big".into(), Val::Owned(big))])], fixed: true };
        let c = CounterVec::with_label_set(set);
        c.inc(Pick(0, None));
        let Ok(()) = c.collect_family_into(MetricName::from_str("large_total"), &mut enc);
        kept.push((enc.finish(), n));
        for _ in 0..r.range(1, 3) {
            let Ok(()) = reg.collect_group_into(&mut enc);
            let got = enc.finish();
            rep.check(normal_form(&got) == normal_form(&want), || format!("after an export of {n} bytes\n{}\na fresh encoder gives\n{}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)));
        }
    }
    for (b, n) in &kept {
        let s = std::str::from_utf8(b).unwrap_or("");
        let head = "# TYPE large_total counter\nlarge_total{big=\"";
        rep.check(s.len() == head.len() + n + 5 && s.starts_with(head) && s.ends_with("x\"} 1\n"), || format!("an output of {n} bytes is not what was exported: {} bytes", s.len()));
    }
    rep.eval();
    rep.count("exports of 1 to 30 MiB", kept.len() as u64);
    rep.distinct(format!("{:?}", kept.iter().map(|k| k.1).collect::<Vec<_>>()).as_bytes());
}

// ------------------------------------------------------------------------------------------ C21

/// a group as the derive makes it, with everything a field can be
#[derive(measured::MetricGroup)]
#[metric(new(set: AnySet))]
struct Derived {
    /// a counter
    requests_total: Counter,
    /// several lines
    /// of "help" \ text
    #[metric(init = CounterVec::with_label_set(set.clone()))]
    by_label: CounterVec<AnySet>,
    #[metric(rename = "renamed", init = GaugeVec::sparse_with_label_set(set.clone()))]
    gauges: GaugeVec<AnySet>,
    /// latency
    #[metric(metadata = Thresholds::with_buckets([0.5, 2.0]), label_set = set.clone())]
    latency: HistogramVec<AnySet, 2>,
    #[metric(namespace = "inner", init = Inner::new())]
    inner: Inner,
    #[metric(flatten, init = Inner2::new())]
    flat: Inner2,
}
#[derive(measured::MetricGroup)]
#[metric(new())]
struct Inner {
    /// a float
    float: FloatGauge,
    #[metric(metadata = Thresholds::with_buckets([1.0]))]
    sizes: Histogram<1>,
}
#[derive(measured::MetricGroup)]
#[metric(new())]
struct Inner2 {
    /// an integer
    level: Gauge,
    #[metric(namespace = "deep", init = Inner::new())]
    deep: Inner,
}

fn derived(rep: &mut Report, r: &mut Rng) {
    let n = r.range(1, 5);
    let o = Opts { wild_strings: r.chance(1, 2), labels: 3, ..TAME };
    let groups = any_groups(r, n, &o);
    let n = groups.len();
    let g = Derived::new(AnySet { groups, fixed: r.chance(1, 2) });
    g.requests_total.inc_by(r.u64());
    g.flat.level.set(r.u64() as i64);
    g.flat.deep.float.set(r.any_f64());
    g.inner.sizes.observe(0.5);
    for _ in 0..r.below(6) {
        let i = r.below(n);
        match r.below(3) {
            0 => g.by_label.inc(Pick(i, None)),
            1 => g.gauges.inc(Pick(i, None)),
            _ => g.latency.observe(Pick(i, None), 1.0),
        }
    }
    // everything the library composes groups from
    let w = r.below(9);
    let g = std::sync::Arc::new(g);
    let export = |e: &mut TextEncoder<Faulty>| match w {
        0 | 1 => g.collect_group_into(e),
        2 => (&&*g).collect_group_into(e),
        3 => Some(&g).collect_group_into(e),
        4 => WithNamespace::new("ns", &g).collect_group_into(e),
        5 => ComposedGroup(&g, WithNamespace::new("second", &g)).collect_group_into(e),
        6 => ComposedGroup(WithNamespace::new("first", &g), None::<&Derived>).collect_group_into(e),
        7 => WithNamespace::new("a", ComposedGroup(Some(&g), WithNamespace::new("b", Some(g.clone())))).collect_group_into(e),
        _ => g.collect_group_into(&mut &mut *e),
    };
    let mut clean = TextEncoder::new(Faulty::new(None, 0));
    export(&mut clean).expect("no fault");
    let want = normal_form(&clean.writer.out);
    let parsed = vh::prom::parse_lines(&clean.writer.out);
    rep.check(parsed.is_ok(), || format!("fault-free export: {:?}", parsed.as_ref().err()));
    rep.count("exports of derived and composed groups failed at every write", 1);
    inject(rep, r, &|b| b.to_vec(), &export, &|out| if normal_form(out.strip_prefix(b"\n").unwrap_or(out)) == want { Ok(()) } else { Err("it differs from a fault-free export".into()) });
}

fn faults(rep: &mut Report, r: &mut Rng) {
    let o = Opts { wild_strings: r.chance(1, 2), wild_help: r.chance(1, 2), labels: 3, max_series: 3, ..TAME };
    let n = r.range(1, 4);
    let reg: Reg<WithHists> = any_reg(r, &o, n);
    let all: Vec<&Fam> = reg.0.iter().collect();
    inject(rep, r, &|b| b.to_vec(), &|e| reg.collect_group_into(e), &|out| check_text(out, &all, "").map(|_| ()));
}

/// No lock stays held: after a failed export every operation of the vecs still completes.
fn locks(rep: &mut Report, r: &mut Rng) {
    use measured::metric::histogram::Thresholds;
    use measured::metric::name::MetricName;
    use measured::metric::MetricFamilyEncoding;
    use measured::{CounterVec, HistogramVec};
    let n = r.range(1, 12);
    let set = AnySet { groups: (0..n).map(|i| AnyGroup(vec![("i".into(), Val::Int(i as i64))])).collect(), fixed: r.chance(1, 2) };
    let c = if r.chance(1, 2) { CounterVec::sparse_with_label_set(set.clone()) } else { CounterVec::with_label_set(set.clone()) };
    let h: HistogramVec<AnySet, 2> = {
        let t = Thresholds::with_buckets([1.0, 2.0]);
        if r.chance(1, 2) { HistogramVec::sparse_with_label_set_and_metadata(set.clone(), t) } else { HistogramVec::with_label_set_and_metadata(set.clone(), t) }
    };
    for i in 0..n {
        c.inc_by(Pick(i, None), i as u64);
        h.observe(Pick(i, None), i as f64);
    }
    let name = MetricName::from_str("x");
    for k in 0..30 + n * 4 {
        let mut enc = TextEncoder::new(Faulty::new(Some(Fault::Forever), k));
        let _ = c.collect_family_into(name, &mut enc);
        let mut enc = TextEncoder::new(Faulty::new(Some(Fault::Forever), k));
        let _ = h.collect_family_into(name, &mut enc);
        rep.eval();
    }
    // from another thread: a lock this thread leaked would block it for ever (the hang detector decides)
    let bad = std::thread::scope(|s| {
        worker(s, || {
            for i in 0..n {
                let p = || Pick(i, None);
                c.inc(p());
                h.observe(p(), 0.5);
                drop(h.get_metric(h.with_labels(p())).inner.write());
                if let Some(m) = c.remove_metric(c.with_labels(p())) {
                    let x = m.count.into_inner();
                    if x != i as u64 + 1 {
                        return Some(format!("after failed exports a counter holds {x}, recorded were {}", i + 1));
                    }
                }
                let _ = h.remove_metric(h.with_labels(p()));
            }
            let _ = c.get_cardinality();
            None
        })
        .join()
    });
    if let Ok(Some(m)) = bad {
        rep.violation(m);
    }
    rep.count("vecs fully usable after failed exports", 2);
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        let mut r = ctx.rng(20);
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 3) {
            i += 1;
            match ctx.phase.as_str() {
                "C20" => {
                    rep.rule = "a distinct sequence of exports, finishes and flushes through reused encoders";
                    bounded(|| reuse(rep, &mut r));
                    if !ctx.small && i % 400 == 7 {
                        huge(rep, &mut r);
                    }
                }
                "C21" => {
                    rep.rule = "a distinct (export, write call, kind of fault) with its outcome judged";
                    faults(rep, &mut r);
                    if i % 3 == 1 {
                        derived(rep, &mut r);
                    }
                    locks(rep, &mut r);
                }
                x => panic!("unknown phase {x}"),
            }
        }
    })
}
