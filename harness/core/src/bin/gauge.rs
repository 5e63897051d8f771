//! C02 / C03: integer and float gauges: linearizability of short concurrent histories, conservation
//! under stress, and (float) exact sequential f64 arithmetic. VH_PHASE selects the property.
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

use measured::metric::MetricVec;
use measured::{FloatGauge, FloatGaugeVec, Gauge, GaugeVec};
use vh::keys::*;
use vh::kinds::*;
use vh::lin::*;
use vh::report::{bounded, worker};
use vh::sched::{self, tick, Gate};
use vh::{Ctx, Report, Rng};

/// one gauge series, however it is held
trait G: Sync {
    /// path: 0 convenience method, 1 guard
    fn inc(&self, p: u8);
    fn dec(&self, p: u8);
    fn inc_by(&self, x: i64, p: u8);
    fn dec_by(&self, x: i64, p: u8);
    fn set(&self, x: i64, p: u8);
    fn read(&self) -> Result<i64, String>;
}
fn one<M: std::fmt::Debug>(r: Result<Vec<(vh::prom::Labels, M)>, String>, want: &vh::prom::Labels) -> Result<M, String> {
    let v = r?;
    let n = v.len();
    v.into_iter().find(|x| x.0 == *want).map(|x| x.1).ok_or(format!("series {want:?} is not among the {n} exported"))
}
fn int(f: F) -> Result<i64, String> {
    let i = f.0 as i64;
    if i as f64 != f.0 {
        return Err(format!("float gauge shows {:?}, which no sequence of integer operations gives", f.0));
    }
    Ok(i)
}
impl G for Gauge {
    fn inc(&self, p: u8) {
        if p == 0 { self.inc() } else { self.get_metric().inc() }
    }
    fn dec(&self, p: u8) {
        if p == 0 { self.dec() } else { self.get_metric().dec() }
    }
    fn inc_by(&self, x: i64, p: u8) {
        if p == 0 { self.inc_by(x) } else { self.get_metric().inc_by(x) }
    }
    fn dec_by(&self, x: i64, p: u8) {
        if p == 0 { self.dec_by(x) } else { self.get_metric().dec_by(x) }
    }
    fn set(&self, x: i64, p: u8) {
        if p == 0 { self.set(x) } else { self.get_metric().set(x) }
    }
    fn read(&self) -> Result<i64, String> {
        one(scrape::<KGauge, _>(self), &vec![])
    }
}
impl G for FloatGauge {
    fn inc(&self, p: u8) {
        if p == 0 { self.inc() } else { self.get_metric().inc() }
    }
    fn dec(&self, p: u8) {
        if p == 0 { self.dec() } else { self.get_metric().dec() }
    }
    fn inc_by(&self, x: i64, p: u8) {
        if p == 0 { self.inc_by(x as f64) } else { self.get_metric().inc_by(x as f64) }
    }
    fn dec_by(&self, x: i64, p: u8) {
        if p == 0 { self.dec_by(x as f64) } else { self.get_metric().dec_by(x as f64) }
    }
    fn set(&self, x: i64, p: u8) {
        if p == 0 { self.set(x as f64) } else { self.get_metric().set(x as f64) }
    }
    fn read(&self) -> Result<i64, String> {
        int(one(scrape::<KFloat, _>(self), &vec![])?)
    }
}
struct InVec<'a, V>(&'a V, usize);
macro_rules! in_vec {
    ($v:ident, $k:ident, $cast:expr, $back:expr) => {
        impl G for InVec<'_, $v<RouteSet>> {
            fn inc(&self, p: u8) {
                let g = KRoute::group(self.1);
                if p == 0 { self.0.inc(g) } else { self.0.get_metric(self.0.with_labels(g)).inc() }
            }
            fn dec(&self, p: u8) {
                let g = KRoute::group(self.1);
                if p == 0 { self.0.dec(g) } else { self.0.get_metric(self.0.with_labels(g)).dec() }
            }
            fn inc_by(&self, x: i64, p: u8) {
                let g = KRoute::group(self.1);
                if p == 0 { self.0.inc_by(g, $cast(x)) } else { self.0.get_metric(self.0.with_labels(g)).inc_by($cast(x)) }
            }
            fn dec_by(&self, x: i64, p: u8) {
                let g = KRoute::group(self.1);
                if p == 0 { self.0.dec_by(g, $cast(x)) } else { self.0.get_metric(self.0.with_labels(g)).dec_by($cast(x)) }
            }
            fn set(&self, x: i64, p: u8) {
                let g = KRoute::group(self.1);
                if p == 0 { self.0.set(g, $cast(x)) } else { self.0.get_metric(self.0.with_labels(g)).set($cast(x)) }
            }
            fn read(&self) -> Result<i64, String> {
                let r = scrape::<$k, _>(self.0)?;
                // a series nobody touched yet is not there: its value is the initial one
                match r.into_iter().find(|x| x.0 == KRoute::labels(self.1)) {
                    None => Ok(0),
                    Some(x) => $back(x.1),
                }
            }
        }
    };
}
use vh::derived::RouteSet;
in_vec!(GaugeVec, KGauge, |x: i64| x, |x: i64| Ok(x));
in_vec!(FloatGaugeVec, KFloat, |x: i64| x as f64, |x: F| int(x));

/// a short concurrent history, recorded and checked for linearizability
fn history(what: &str, g: &dyn G, ctx: &Ctx, rep: &mut Report, rng: &mut Rng, init: i64) -> i64 {
    let threads = ctx.n(rng.range(2, 4), 2);
    let per = ctx.n(rng.range(2, 6), 4);
    let gate = Gate::new(threads);
    let heavy_read = rng.chance(1, 2);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let mut evs: Vec<Ev> = vec![];
    let mut err = None;
    std::thread::scope(|s| {
        let gate = &gate;
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, &seed)| {
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut out: Vec<Ev> = vec![];
                    let plan: Vec<(usize, i64, u8)> =
                        (0..per).map(|_| (r.below(if heavy_read { 8 } else { 6 }), r.range(1, 60) as i64, r.below(2) as u8)).collect();
                    gate.wait();
                    for (k, x, p) in plan {
                        let inv = tick();
                        let op = match k {
                            0 => {
                                g.inc(p);
                                LOp::Add(1)
                            }
                            1 => {
                                g.dec(p);
                                LOp::Add(-1)
                            }
                            2 => {
                                g.inc_by(x * 100, p);
                                LOp::Add(x * 100)
                            }
                            3 => {
                                g.dec_by(x * 1000, p);
                                LOp::Add(-x * 1000)
                            }
                            4 => {
                                g.set(x * 100_000 + t as i64, p);
                                LOp::Set(x * 100_000 + t as i64)
                            }
                            _ => match g.read() {
                                Ok(v) => LOp::Read(v),
                                Err(e) => return (out, Some(e)),
                            },
                        };
                        let res = tick();
                        out.push(Ev { op, inv, res, thread: t });
                    }
                    (out, None)
                })
            })
            .collect();
        for h in hs {
            let (o, e) = h.join().unwrap();
            evs.extend(o);
            err = err.take().or(e);
        }
    });
    if let Some(e) = err {
        rep.violation(format!("{what}: {e}"));
    }
    let fin = g.read().unwrap_or_else(|e| rep.violation(format!("{what}: {e}")));
    let (a, b) = (tick(), tick());
    evs.push(Ev { op: LOp::Read(fin), inv: a, res: b, thread: 99 });
    evs.sort_by_key(|e| e.inv);
    match linearizable(&evs, init) {
        Ok(states) => rep.count("checker states", states as u64),
        Err(k) => rep.violation(format!("{what}: history from {init} is not linearizable (only {k} of {} operations can be explained): {evs:?}", evs.len())),
    }
    let o = overlaps(&evs);
    rep.eval();
    rep.count("operations", evs.len() as u64);
    rep.count("overlapping pairs", o as u64);
    if o > 0 {
        rep.distinct_h(signature(&evs));
        rep.sample(|| format!("{what} from {init}: {evs:?}"));
    }
    fin
}

/// long run without set: the final value is the sum, and every thread's balance is accounted for
fn conserve(what: &str, g: &dyn G, ctx: &Ctx, rep: &mut Report, rng: &mut Rng, init: i64, wide: bool) -> i64 {
    let threads = ctx.n(rng.range(2, 8), 2);
    let ops = ctx.n(rng.range(100, 5000), 6);
    let gate = Gate::new(threads);
    let sum = AtomicI64::new(0);
    // floats stay below 2^53, integers use the whole range
    let room = if wide { (i64::MAX / 4) as u64 / (threads * ops) as u64 } else { 1000 };
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    std::thread::scope(|s| {
        let (gate, sum) = (&gate, &sum);
        for &seed in &seeds {
            worker(s, move || {
                let mut r = Rng::new(seed);
                let mut mine = 0i64;
                gate.wait();
                for _ in 0..ops {
                    let x = (r.u64() % room) as i64 * if wide && r.chance(1, 4) { -1 } else { 1 };
                    let p = r.below(2) as u8;
                    match r.below(4) {
                        0 => {
                            g.inc(p);
                            mine += 1
                        }
                        1 => {
                            g.dec(p);
                            mine -= 1
                        }
                        2 => {
                            g.inc_by(x, p);
                            mine += x
                        }
                        _ => {
                            g.dec_by(x, p);
                            mine -= x
                        }
                    }
                }
                sum.fetch_add(mine, SeqCst);
            });
        }
    });
    let want = init + sum.load(SeqCst);
    let got = g.read().unwrap_or_else(|e| rep.violation(format!("{what}: {e}")));
    rep.check(got == want, || format!("{what}: {threads} threads x {ops} additions from {init} leave {got}, the additions sum to {want}"));
    rep.eval();
    rep.count("operations", (threads * ops) as u64);
    rep.distinct(format!("{what}{threads}{ops}{want}").as_bytes());
    got
}

/// operands of every size and sign, through every path (shared, guard, exclusive; single and in vecs)
fn int_sequential(rep: &mut Report, rng: &mut Rng) {
    let mut s = Gauge::new();
    let mut v: GaugeVec<RouteSet> =
        if rng.chance(1, 2) { MetricVec::dense_with_label_set(KRoute::make_set()) } else { MetricVec::sparse_with_label_set(KRoute::make_set()) };
    let i = rng.below(60);
    let mut m = 0i64;
    let mut log = vec![];
    for _ in 0..rng.range(1, 30) {
        let x = match rng.below(6) {
            0 => *rng.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            1 => -(rng.below(1000) as i64),
            2 => rng.below(1000) as i64,
            _ => rng.u64() as i64 >> rng.below(64),
        };
        // results outside i64 are out of scope
        let (k, r) = match rng.below(5) {
            0 => (0, m.checked_add(1)),
            1 => (1, m.checked_sub(1)),
            2 => (2, m.checked_add(x)),
            3 => (3, m.checked_sub(x)),
            _ => (4, Some(x)),
        };
        let Some(r) = r else { continue };
        let (p, q) = (rng.below(3), rng.below(3));
        log.push((["inc", "dec", "inc_by", "dec_by", "set"][k], x, p, q));
        match (k, p) {
            (0, 0) => s.inc(),
            (0, 1) => s.get_metric().inc(),
            (0, _) => s.get_metric_mut().inc(),
            (1, 0) => s.dec(),
            (1, 1) => s.get_metric().dec(),
            (1, _) => s.get_metric_mut().dec(),
            (2, 0) => s.inc_by(x),
            (2, 1) => s.get_metric().inc_by(x),
            (2, _) => s.get_metric_mut().inc_by(x),
            (3, 0) => s.dec_by(x),
            (3, 1) => s.get_metric().dec_by(x),
            (3, _) => s.get_metric_mut().dec_by(x),
            (_, 0) => s.set(x),
            (_, 1) => s.get_metric().set(x),
            (_, _) => s.get_metric_mut().set(x),
        }
        let id = v.with_labels(KRoute::group(i));
        match (k, q) {
            (0, 0) => v.inc(KRoute::group(i)),
            (0, 1) => v.get_metric(id).inc(),
            (0, _) => v.get_metric_mut(id).inc(),
            (1, 0) => v.dec(KRoute::group(i)),
            (1, 1) => v.get_metric(id).dec(),
            (1, _) => v.get_metric_mut(id).dec(),
            (2, 0) => v.inc_by(KRoute::group(i), x),
            (2, 1) => v.get_metric(id).inc_by(x),
            (2, _) => v.get_metric_mut(id).inc_by(x),
            (3, 0) => v.dec_by(KRoute::group(i), x),
            (3, 1) => v.get_metric(id).dec_by(x),
            (3, _) => v.get_metric_mut(id).dec_by(x),
            (_, 0) => v.set(KRoute::group(i), x),
            (_, 1) => v.get_metric(id).set(x),
            (_, _) => v.get_metric_mut(id).set(x),
        }
        m = r;
        let a = one(scrape::<KGauge, _>(&s), &vec![]).unwrap_or_else(|e| rep.violation(e));
        let b = one(scrape::<KGauge, _>(&v), &KRoute::labels(i)).unwrap_or_else(|e| rep.violation(e));
        rep.check(a == m && b == m, || format!("gauge after {log:?}: single {a:?}, in a vec {b:?}, should be {m:?}"));
    }
    rep.eval();
    rep.count("sequential operations", log.len() as u64);
    rep.distinct(format!("{log:?}").as_bytes());
}

/// sequential f64 semantics for arbitrary operands, through every path
fn float_sequential(rep: &mut Report, rng: &mut Rng) {
    let mut s = FloatGauge::new();
    let mut v: FloatGaugeVec<RouteSet> =
        if rng.chance(1, 2) { MetricVec::dense_with_label_set(KRoute::make_set()) } else { MetricVec::sparse_with_label_set(KRoute::make_set()) };
    let mut m = F(0.0);
    let mut log = vec![];
    for _ in 0..rng.range(1, 25) {
        let op = if rng.chance(1, 6) {
            // signed zeros, which only some orders of the same arithmetic keep
            let z = *rng.pick(&[0.0, -0.0]);
            *rng.pick(&[Rec::FIncBy(z), Rec::FDecBy(z), Rec::FSet(z), Rec::FSet(-z), Rec::FDecBy(m.0), Rec::FIncBy(-m.0)])
        } else {
            KFloat::rand(rng)
        };
        log.push(op);
        KFloat::apply(&mut m, op);
        match rng.below(3) {
            0 => KFloat::single(&s, op),
            1 => KFloat::guard(s.get_metric(), op),
            _ => KFloat::ex(s.get_metric_mut(), op),
        }
        record::<KFloat, _>(&mut v, *rng.pick(&PATHS), KRoute::group(3), op);
        let a = one(scrape::<KFloat, _>(&s), &vec![]).unwrap_or_else(|e| rep.violation(e));
        let b = one(scrape::<KFloat, _>(&v), &KRoute::labels(3)).unwrap_or_else(|e| rep.violation(e));
        rep.check(a == m && b == m, || format!("float gauge after {log:?}: single {a:?}, in a vec {b:?}, f64 arithmetic gives {m:?}"));
    }
    // AtomicF64 itself
    let a = measured::metric::gauge::AtomicF64::new(m.0);
    let (x, y) = (rng.any_f64(), rng.any_f64());
    a.inc_by(x);
    let w1 = m.0 + x;
    let g1 = a.get();
    a.dec_by(y);
    let w2 = w1 - y;
    let g2 = a.get();
    rep.check(F(g1) == F(w1) && F(g2) == F(w2), || format!("AtomicF64 {:?} + {x:?} - {y:?} gave {g1:?} then {g2:?}", m.0));
    rep.eval();
    rep.count("sequential float operations", log.len() as u64);
    rep.distinct(format!("{log:?}").as_bytes());
}

/// concurrent additions of one value with itself: absorbing operands must stick
fn float_special(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let x = rng.any_f64();
    let g = FloatGauge::new();
    let threads = ctx.n(4, 2);
    let k = ctx.n(rng.range(1, 200), 3);
    let gate = Gate::new(threads);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let (g, gate) = (&g, &gate);
            worker(s, move || {
                gate.wait();
                for _ in 0..k {
                    g.inc_by(x);
                }
            });
        }
    });
    let mut m = 0.0;
    for _ in 0..k * threads {
        m += x;
    }
    let a = one(scrape::<KFloat, _>(&g), &vec![]).unwrap_or_else(|e| rep.violation(e));
    rep.check(a == F(m), || format!("{threads} threads adding {x:?} {k} times each leave {a:?}, sequentially {m:?}"));
    rep.eval();
    rep.distinct(format!("{x:?}{k}").as_bytes());
}

fn main() {
    vh::report::run(|ctx, rep| {
        let float = match ctx.phase.as_str() {
            "C02" => false,
            "C03" => true,
            p => panic!("unknown phase {p:?}"),
        };
        rep.rule = "one evaluation = one recorded concurrent history of 2..4 threads checked for linearizability, one conservation run of 2..8 threads, or one sequential operand sequence; non-trivial = histories with overlapping operations (distinct by their event order), distinct totals or operand sequences";
        let mut rng = ctx.rng(2);
        loop {
            let (g, f) = (Gauge::new(), FloatGauge::new());
            let dense = rng.chance(1, 2);
            let gv: GaugeVec<RouteSet> = if dense { MetricVec::dense_with_label_set(KRoute::make_set()) } else { MetricVec::sparse_with_label_set(KRoute::make_set()) };
            let fv: FloatGaugeVec<RouteSet> = if dense { MetricVec::dense_with_label_set(KRoute::make_set()) } else { MetricVec::sparse_with_label_set(KRoute::make_set()) };
            let i = rng.below(60);
            let (a, b) = (InVec(&gv, i), InVec(&fv, i));
            let (x, y): (&dyn G, &dyn G) = if float { (&f, &b) } else { (&g, &a) };
            for (what, g) in [("single", x), ("in a vec", y)] {
                let mut v = 0;
                for k in 0..ctx.n(25, 2) {
                    v = history(what, g, ctx, rep, &mut rng, v);
                    if k % 10 == 9 {
                        v = conserve(what, g, ctx, rep, &mut rng, v, false);
                    }
                }
                conserve(what, g, ctx, rep, &mut rng, v, !float);
            }
            if float {
                for _ in 0..ctx.n(10, 1) {
                    bounded(|| float_sequential(rep, &mut rng));
                }
                float_special(ctx, rep, &mut rng);
            } else {
                for _ in 0..ctx.n(20, 1) {
                    bounded(|| int_sequential(rep, &mut rng));
                }
            }
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
