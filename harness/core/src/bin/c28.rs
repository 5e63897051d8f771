//! C28: programs over the whole safe API, small enough to be interpreted, large enough natively for the
//! sanitizers. Results are only consumed, most oracles are the interpreter and the sanitizers; panics
//! are allowed where user code or a foreign identifier provokes them.
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

use measured::label::{
    ComposedGroup, FixedCardinalityLabel, LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelTestVisitor, LabelValue, LabelVisitor, NoLabels, StaticLabelSet,
};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, MetricNameEncoder, Suffix};
use measured::metric::{Metric, MetricEncoding, MetricFamilyEncoding, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{Counter, CounterVec, FloatGauge, Gauge, Histogram, HistogramVec};
use vh::derived::*;
use vh::keys::*;
use vh::kinds::*;
use vh::report::{catch, worker};
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

/// read every byte of something handed out
fn consume(b: &[u8]) -> u64 {
    std::hint::black_box(b.iter().fold(b.len() as u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64)))
}

struct Read;
impl LabelVisitor for Read {
    type Output = u64;
    fn write_int(self, x: i64) -> u64 {
        x as u64
    }
    fn write_float(self, x: f64) -> u64 {
        x.to_bits()
    }
    fn write_str(self, x: &str) -> u64 {
        // a str must be UTF-8
        assert!(std::str::from_utf8(x.as_bytes()).is_ok(), "user code: a label value that is no UTF-8");
        consume(x.as_bytes())
    }
}
#[derive(Default)]
struct Sum(u64);
impl LabelGroupVisitor for Sum {
    type Output = ();
    fn write_value(&mut self, n: &LabelName, x: &impl LabelValue) {
        self.0 = self.0.wrapping_mul(7).wrapping_add(consume(n.as_str().as_bytes())).wrapping_add(x.visit(Read));
        consume(x.visit(LabelTestVisitor).as_bytes());
    }
}
fn read_group(g: &impl LabelGroup) -> u64 {
    let mut s = Sum::default();
    g.visit_values(&mut s);
    g.by_ref().visit_values(&mut s);
    s.0
}

// ---------------------------------------------------------------- names

struct OddSuffix<'a>(&'a [u8], usize);
impl Suffix for OddSuffix<'_> {
    fn encode_text(&self, b: &mut impl Write) -> std::io::Result<()> {
        b.write_all(self.0)
    }
    /// not the truth: safe code may say anything
    fn encode_len(&self) -> usize {
        self.1
    }
}

fn names(rep: &mut Report, rng: &mut Rng) {
    let n = rng.range(0, 40);
    let s: String = (0..n)
        .map(|_| if rng.chance(9, 10) { *rng.pick(&['a', 'Z', '_', ':', '0', 'q']) } else { *rng.pick(&['é', '-', ' ', '\0', '\u{10ffff}', '"', '\n', '.', '\u{7f}']) })
        .collect();
    {
        // from a part of a heap buffer, at any alignment
        let buf = format!("{}{s}{}", "x".repeat(rng.below(9)), "y".repeat(rng.below(5)));
        let at = buf.find(&s).unwrap_or(0);
        if let Ok(m) = MetricName::try_from_str(&buf[at..at + s.len()]) {
            let odd = OddSuffix(b"\xff\xfe bytes", *rng.pick(&[0, 1, 1000]));
            let mut out = vec![];
            m.encode_utf8(&mut out).unwrap();
            let w = m.with_suffix(odd);
            w.encode_utf8(&mut out).unwrap();
            w.encode_len();
            m.in_namespace("ns").encode_utf8(&mut out).unwrap();
            m.in_namespace("ns").by_ref().encode_len();
            consume(&out);
            let mut e = BufferedTextEncoder::new();
            e.write_help(m, &s).unwrap_or_else(|e| match e {});
            e.write_help(w, &s).unwrap_or_else(|e| match e {});
            consume(&e.finish());
        }
        if let Ok(l) = catch(|| consume(LabelName::from_str(&buf[at..at + s.len()]).as_str().as_bytes())) {
            std::hint::black_box(l);
        }
    }
    let raw: *mut str = Box::into_raw(s.clone().into_boxed_str());
    let leaked: &'static str = unsafe { &*raw };
    if let Ok(m) = catch(|| MetricName::from_str(leaked)) {
        let mut out = vec![];
        m.in_namespace("a").encode_utf8(&mut out).unwrap();
        consume(&out);
    }
    let _ = catch(|| {
        let mut out = vec![];
        MetricName::from_str("m").in_namespace(leaked).encode_utf8(&mut out).unwrap();
        consume(&out)
    });
    // give the leaked name back: nothing above may have kept it
    drop(unsafe { Box::from_raw(raw) });
    rep.eval();
    rep.distinct(format!("name {s}").as_bytes());
    rep.count("names", 1);
}

// ---------------------------------------------------------------- programs on one thread

fn make<M: measured::metric::MetricType, S: KeySpace>(repr: u8, meta: M::Metadata) -> MetricVec<M, S::Set> {
    match repr {
        0 => MetricVec::with_label_set_and_metadata(S::make_set(), meta),
        1 if S::DENSE => MetricVec::dense_with_label_set_and_metadata(S::make_set(), meta),
        _ => MetricVec::sparse_with_label_set_and_metadata(S::make_set(), meta),
    }
}

fn program<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let mut v = make::<K::M, S>(repr, K::meta());
    // whose identifiers are foreign: another representation, another set object
    let other = make::<K::M, S>(rng.below(3) as u8, K::meta());
    let n = S::n().min(ctx.n(60, 6));
    let steps = ctx.n(rng.range(5, 120), 14);
    let mut ids = vec![];
    let mut outs = vec![];
    let mut hist = String::new();
    let mut foreign = 0;
    for _ in 0..steps {
        let i = rng.below(n);
        let op = rng.below(13);
        hist.push((b'a' + op as u8) as char);
        match op {
            0..=3 => {
                let (path, rec) = (*rng.pick(&PATHS), K::rand(rng));
                record::<K, S::Set>(&mut v, path, S::group(i), rec)
            }
            4 => ids.push(v.with_labels(S::group(i))),
            5 if !ids.is_empty() => {
                let id = *rng.pick(&ids);
                K::guard(v.get_metric(id), K::rand(rng));
                std::hint::black_box(id == ids[0]);
            }
            6 => outs.push(export(&v, "m")),
            7 => drop(v.remove_metric(v.with_labels(S::group(i)))),
            8 => {
                // states that outlive their vec's entry
                if let Some(m) = v.remove_metric(v.with_labels(S::group(i))) {
                    let _ = K::peek(&m);
                    let b = Box::new(m);
                    let _ = K::peek(&b);
                }
            }
            9 if S::cardinality().is_none_or(|c| c <= 64) => v.init_all_dense(),
            10 => {
                // several guards of one vec at once, on one thread, nothing that locks exclusively
                let (a, b) = (v.with_labels(S::group(i)), v.with_labels(S::group(0)));
                drop(v.get_metric(b));
                drop(v.get_metric(a));
                v.get_cardinality();
            }
            11 => {
                // a foreign identifier may panic or do something strange, nothing worse
                let id = other.with_labels(S::group(i));
                foreign += 1;
                let _ = catch(|| K::guard(v.get_metric(id), K::rand(rng)));
                let _ = catch(|| K::ex(v.get_metric_mut(id), K::rand(rng)));
                let _ = catch(|| consume(&export(&v, "m")));
                let _ = catch(|| drop(v.remove_metric(id)));
            }
            _ => {
                // move it
                let b = Box::new(v);
                v = *b;
                let _ = K::meta_same(v.metadata());
                if let Some(b) = S::bad(i) {
                    v.try_with_labels(b);
                }
            }
        }
    }
    drop(v);
    for o in &outs {
        consume(o);
    }
    rep.eval();
    rep.count("single thread programs", 1);
    rep.count("foreign identifiers", foreign);
    rep.distinct(format!("{} {} {repr} {hist}", K::NAME, S::NAME).as_bytes());
    rep.sample(|| format!("{} on {} repr {repr}: {hist}", K::NAME, S::NAME));
}

fn singles(rep: &mut Report, rng: &mut Rng) {
    let mut c = Counter::new();
    let mut g = Gauge::default();
    let mut f = FloatGauge::new();
    let h0: Histogram<0> = Metric::with_metadata(Thresholds::with_buckets([]));
    let mut h: Histogram<3> = Metric::with_metadata(Thresholds::with_buckets([-1.0, 0.0, f64::INFINITY]));
    for _ in 0..8 {
        let x = rng.any_f64();
        c.inc();
        c.inc_by(rng.below(1 << 30) as u64);
        KCounter::single_mut(&mut c, KCounter::rand(rng));
        KGauge::single(&g, KGauge::rand(rng));
        KGauge::single_mut(&mut g, KGauge::rand(rng));
        KFloat::single(&f, KFloat::rand(rng));
        KFloat::single_mut(&mut f, KFloat::rand(rng));
        h0.observe(x);
        h.observe(x);
        h.get_metric_mut().observe(x);
        h.start_timer().forget();
        drop(h.start_timer());
        h.start_timer().observe();
        // the public pieces of a histogram
        let s = HistogramState::<3>::default();
        let b = rng.below(6);
        let _ = catch(|| s.inner.read().observe(b, x));
        let _ = catch(|| s.inner.write().observe_mut(b, x));
    }
    for o in [export(&c, "c"), export(&g, "g"), export(&f, "f"), export(&h0, "h0"), export(&h, "h"), export(&Some(c), "o")] {
        consume(&o);
    }
    for (a, b) in [(1.0, 2.0), (-1.0, 0.0), (f64::NAN, f64::NAN), (f64::MAX, f64::MAX)] {
        let _ = catch(|| consume(&Thresholds::<5>::exponential_buckets(a, b).get()[4].to_ne_bytes()));
        let _ = catch(|| consume(&Thresholds::<5>::linear_buckets(a, b).get()[4].to_ne_bytes()));
        let _ = catch(|| Thresholds::<2>::with_buckets([a, b]).get()[1]);
    }
    rep.eval();
}

/// decoding whatever a caller invents may panic, nothing worse
fn decode<S: LabelGroupSet>(rep: &mut Report, rng: &mut Rng, set: &S)
where
    S::Unique: 'static,
{
    for _ in 0..4 {
        let c = set.cardinality().unwrap_or(3);
        let x = match rng.below(6) {
            0 => rng.u64() as usize,
            1 => usize::MAX,
            2 => c,
            3 => c.wrapping_add(rng.below(300)),
            _ => rng.below(c.clamp(1, 1 << 20)),
        };
        let inside = x < c && set.cardinality().is_some();
        // identities of fixed sets are their indices: not relied on
        let id = (&x as &dyn std::any::Any).downcast_ref::<S::Unique>();
        for r in [catch(|| id.map_or(0, |u| read_group(&set.decode(u)))), catch(|| read_group(&set.decode_dense(x)))] {
            if let Err(p) = r {
                rep.check(!inside, || format!("decoding {x} of 0..{c} panics: {p}"));
            }
        }
        let _ = catch(|| id.map(|u| set.encode_dense(*u)));
        rep.count("decoded numbers", 1);
    }
    rep.eval();
}

fn decoders(rep: &mut Report, rng: &mut Rng) {
    decode(rep, rng, &SmallSet::new());
    decode(rep, rng, &KRoute::make_set());
    decode(rep, rng, &KPhf::make_set());
    decode(rep, rng, &StaticLabelSet::<Op5>::new());
    decode(rep, rng, &KArc::make_set());
    decode(rep, rng, &EmptySet::new());
    decode(rep, rng, &WideSet::new());
    for x in [0, 3, 4, 255, 256, usize::MAX, rng.below(10)] {
        let _ = catch(|| Kind3::decode(x).visit(Read));
        let _ = catch(|| Code4::decode(x).visit(Read));
        let _ = catch(|| <Op5 as FixedCardinalityLabel>::decode(x).visit(Read));
        let _ = catch(|| rodeo(&["a", "b"]).decode(x).len());
        let _ = catch(|| LabelSet::decode(&StaticLabelSet::<Kind3>::new(), x).visit(Read));
        let _ = catch(|| read_group(&ComposedGroup(SmallSet::new(), StaticLabelSet::<Op5>::new()).decode_dense(x)));
        let r: lasso::ThreadedRodeo = Default::default();
        LabelSet::encode(&r, "x");
        let _ = catch(|| LabelSet::decode(&r, x).len());
        let i: indexmap::IndexSet<Num> = [Num(1), Num(2)].into_iter().collect();
        let _ = catch(|| LabelSet::decode(&i, x));
    }
    read_group(&NoLabels);
    read_group(&Small { kind: KIND3[0], code: CODE4[1] }.compose_with(Op5::Put));
}

// ---------------------------------------------------------------- label sets that lie

/// everything a safe implementation can get wrong
struct Liar {
    card: Option<usize>,
    dense: Mutex<Rng>,
    dense_max: usize,
    unstable: bool,
}
#[derive(Clone, Copy)]
struct LiarId(u32, u8);
impl Hash for LiarId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        // not consistent with equality, sometimes not even with itself
        match self.1 {
            0 => h.write_u32(self.0),
            1 => h.write_u64(sched::rnd()),
            _ => h.write_u8(0),
        }
    }
}
impl PartialEq for LiarId {
    fn eq(&self, o: &Self) -> bool {
        match self.1 {
            0 => self.0 == o.0,
            1 => sched::rnd() % 2 == 0,
            2 => true,
            _ => false,
        }
    }
}
impl Eq for LiarId {}
impl LabelGroupSet for Liar {
    type Group<'a> = Clash;
    type Unique = LiarId;
    fn cardinality(&self) -> Option<usize> {
        if self.unstable && sched::rnd() % 3 == 0 {
            return Some(sched::rnd() as usize % 50);
        }
        self.card
    }
    fn encode_dense(&self, _: LiarId) -> Option<usize> {
        let mut r = self.dense.lock().unwrap_or_else(|e| e.into_inner());
        (!r.chance(1, 8)).then(|| if r.chance(1, 8) { r.u64() as usize } else { r.below(self.dense_max) })
    }
    fn decode_dense(&self, v: usize) -> Clash {
        Clash(v as u32)
    }
    fn encode(&self, v: Clash) -> Option<LiarId> {
        Some(LiarId(v.0, (v.0 % 4) as u8))
    }
    fn decode(&self, v: &LiarId) -> Clash {
        Clash(v.0)
    }
}
struct Exact(Option<usize>);
impl LabelGroupSet for Exact {
    type Group<'a> = Clash;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        self.0
    }
    fn encode_dense(&self, v: usize) -> Option<usize> {
        Some(v)
    }
    fn decode_dense(&self, v: usize) -> Clash {
        Clash(v as u32)
    }
    fn encode(&self, v: Clash) -> Option<usize> {
        Some(v.0 as usize)
    }
    fn decode(&self, v: &usize) -> Clash {
        Clash(*v as u32)
    }
}

fn liars(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let card = if rng.chance(2, 3) { Some(rng.below(20)) } else { None };
    let l = Liar { card, dense: Mutex::new(Rng::new(rng.u64())), dense_max: rng.range(1, 30), unstable: rng.chance(1, 3) };
    let dense = rng.chance(1, 2);
    let Ok(v) = catch(|| if dense { HistogramVec::<_, 2>::dense_with_label_set_and_metadata(l, Thresholds::with_buckets([1.0, 2.0])) } else { HistogramVec::with_label_set_and_metadata(l, Thresholds::with_buckets([1.0, 2.0])) })
    else {
        return;
    };
    let mut v = v;
    let mut panics = 0;
    for _ in 0..ctx.n(100, 12) {
        let i = Clash(rng.below(40) as u32);
        let r = match rng.below(6) {
            0 | 1 => catch(|| v.observe(i, 1.0)),
            2 => catch(|| v.get_metric_mut(v.with_labels(i)).observe(3.0)),
            3 => catch(|| drop(v.remove_metric(v.with_labels(i)))),
            4 => catch(|| v.init_all_dense()),
            _ => catch(|| drop((consume(&export(&v, "m")), v.get_cardinality()))),
        };
        panics += r.is_err() as u64;
    }
    rep.eval();
    rep.count("programs on lying label sets", 1);
    rep.count("panics on lying label sets", panics);
    rep.distinct(format!("liar {card:?} {dense} {panics}").as_bytes());
    // a set that puts everything where it should not be: one past the end, far out
    let c = rng.range(1, 9);
    let v = CounterVec::dense_with_label_set(Exact(Some(c)));
    for i in [0, c - 1, c, c + 1, 1 << 20, u32::MAX as usize] {
        let r = catch(|| v.inc(Clash(i as u32)));
        rep.check(r.is_ok() == (i < c), || format!("index {i} of a dense vec of {c} cells: {r:?}"));
    }
    let big = CounterVec::sparse_with_label_set(Exact(Some(usize::MAX)));
    big.inc(Clash(u32::MAX));
    consume(&export(&big, "m"));
    // with release arithmetic an identifier of one set in a vec of another
    let a = CounterVec::dense_with_label_set(Exact(Some(100)));
    let b = CounterVec::dense_with_label_set(Exact(Some(c)));
    for i in [c - 1, c, 99] {
        let id = a.with_labels(Clash(i as u32));
        let r = catch(|| b.get_metric(id).inc());
        rep.check(r.is_ok() == (i < c), || format!("foreign identifier {i} in a dense vec of {c} cells: {r:?}"));
        let mut b2 = CounterVec::dense_with_label_set(Exact(Some(c)));
        let r = catch(|| b2.get_metric_mut(id).inc());
        rep.check(r.is_ok() == (i < c), || format!("foreign identifier {i} in a dense vec of {c} cells, exclusively: {r:?}"));
    }
}

// ---------------------------------------------------------------- encoders

#[derive(measured::MetricGroup)]
#[metric(new())]
struct Group {
    /// help
    c: Counter,
    /// more
    v: CounterVec<SmallSet>,
    #[metric(metadata = Thresholds::with_buckets([0.5, 1.5]))]
    h: HistogramVec<StaticLabelSet<Op5>, 2>,
    #[metric(namespace = "inner", init = Inner::new())]
    inner: Inner,
}
#[derive(measured::MetricGroup)]
#[metric(new())]
struct Inner {
    f: FloatGauge,
    #[metric(rename = "d", init = CounterVec::sparse_with_label_set(DynSet::new(rodeo(&["/a"]))))]
    d: CounterVec<DynSet>,
}

fn encoders(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let g = Group::new();
    let mut enc = BufferedTextEncoder::new();
    let mut outs: Vec<(bytes::Bytes, u64)> = vec![];
    for k in 0..ctx.n(12, 4) {
        g.c.inc();
        g.v.inc(Small { kind: *rng.pick(&KIND3), code: *rng.pick(&CODE4) });
        g.h.observe(*rng.pick(&OP5), rng.any_f64());
        g.inner.f.inc_by(rng.any_f64());
        let user: String = (0..rng.below(20)).map(|_| *rng.pick(&['"', '\\', '\n', 'a', 'é', '\u{10ffff}'])).collect();
        g.inner.d.inc(Dyn { kind: KIND3[0], user: &user, route: "/a" });
        drop(user);
        g.collect_group_into(&mut enc).unwrap_or_else(|e| match e {});
        if rng.chance(2, 3) {
            let b = enc.finish();
            let h = consume(&b);
            if rng.chance(1, 2) {
                let cut = rng.below(b.len() + 1);
                outs.push((b.slice(cut..), consume(&b[cut..])));
            } else if rng.chance(1, 2) {
                outs.push((b, h));
            } // or dropped
        }
        if k % 3 == 0 {
            let mut t = TextEncoder::new(vec![]);
            g.collect_group_into(&mut t).expect("this writer does not fail");
            t.flush().expect("this writer does not fail");
            consume(&t.writer);
        }
    }
    drop(enc);
    drop(g);
    for (b, h) in outs {
        rep.check(consume(&b) == h, || "bytes handed out by an encoder changed".into());
    }
    rep.eval();
    rep.count("encoder programs", 1);
    rep.distinct(format!("enc {}", rng.u64()).as_bytes());
}

// ---------------------------------------------------------------- threads

fn threads<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let v = Arc::new(make::<K::M, S>(repr, K::meta()));
    let n = S::n().min(ctx.n(*rng.pick(&[1, 3, 40]), 2));
    let k = ctx.n(rng.range(2, 6), 3);
    let ops = ctx.n(rng.range(10, 300), 6);
    let gate = Gate::new(k);
    sched::CHAOS.store(if rng.chance(1, 2) { 100 } else { 0 }, SeqCst);
    let seeds: Vec<u64> = (0..k).map(|_| rng.u64()).collect();
    // states and identifiers travel between threads without further synchronisation than this
    let mail: Mutex<Vec<K::M>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        let (gate, mail) = (&gate, &mail);
        for &seed in &seeds {
            let v = v.clone();
            worker(s, move || {
                sched::seed_thread(seed);
                let mut r = Rng::new(seed);
                gate.wait();
                for _ in 0..ops {
                    let i = r.below(n);
                    match r.below(8) {
                        0..=2 => K::label(&v, S::group(i), K::rand(&mut r)),
                        3 => {
                            let g = v.get_metric(v.with_labels(S::group(i)));
                            std::thread::yield_now();
                            let _ = K::peek(&g);
                            K::guard(g, K::rand(&mut r))
                        }
                        4 => {
                            consume(&export(&*v, "m"));
                        }
                        5 => {
                            if let Some(m) = v.remove_metric(v.with_labels(S::group(i))) {
                                let _ = K::peek(&m);
                                mail.lock().unwrap().push(m)
                            }
                        }
                        6 => {
                            let m = mail.lock().unwrap().pop();
                            if let Some(m) = m {
                                let _ = K::state(m);
                            }
                        }
                        _ => {
                            v.get_cardinality();
                        }
                    }
                }
            });
        }
        drop(v);
    });
    sched::CHAOS.store(0, SeqCst);
    rep.eval();
    rep.count("racing programs", 1);
    rep.count("racing operations", (k * ops) as u64);
    rep.distinct(format!("{} {} {repr} {n} {k} {ops} {}", K::NAME, S::NAME, seeds[0]).as_bytes());
}

/// one metric of each type under threads, with and without a vec around it
fn shared_states(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let c = CounterState::new(3);
    let g = Metric::<GaugeState>::new();
    let f = Metric::<FloatGaugeState>::new();
    let h = HistogramState::<2>::default();
    let hm: Histogram<2> = Metric::with_metadata(Thresholds::with_buckets([1.0, 2.0]));
    let seeds: Vec<u64> = (0..3).map(|_| rng.u64()).collect();
    std::thread::scope(|s| {
        let (c, g, f, h, hm) = (&c, &g, &f, &h, &hm);
        for &seed in &seeds {
            worker(s, move || {
                sched::seed_thread(seed);
                let mut r = Rng::new(seed);
                for _ in 0..ctx.n(200, 5) {
                    c.inc_by(1);
                    KGauge::single(g, KGauge::rand(&mut r));
                    KFloat::single(f, KFloat::rand(&mut r));
                    h.inner.read().observe(r.below(3), 1.0);
                    hm.observe(r.below(4) as f64);
                    match r.below(5) {
                        0 => drop(consume(&export(f, "f"))),
                        1 => drop(consume(&export(g, "g"))),
                        2 => drop(consume(&export(hm, "h"))),
                        3 => {
                            h.inner.write().observe_mut(r.below(3), 2.0);
                        }
                        _ => {
                            let mut e = TextEncoder::new(vec![]);
                            let _ = h.collect_into(&Thresholds::with_buckets([1.0, 2.0]), NoLabels, MetricName::from_str("h"), &mut e);
                            consume(&e.writer);
                        }
                    }
                }
            });
        }
    });
    let mut e = TextEncoder::new(vec![]);
    let _ = c.collect_into(&(), NoLabels, MetricName::from_str("c"), &mut e);
    let _ = Metric::<CounterState>::new().collect_family_into(MetricName::from_str("c"), &mut e);
    rep.eval();
    rep.count("racing programs", 1);
}

struct Go<'a>(&'a Ctx, &'a mut Report, &'a mut Rng);
impl WithKeys for Go<'_> {
    fn run<S: KeySpace>(&mut self) {
        let (c, r, g) = (self.0, &mut *self.1, &mut *self.2);
        // interpreted: every seed visits a few of the combinations
        if c.small && !g.chance(1, 3) || !c.time_left() || c.small && S::NAME == "index-sets-1200" {
            return;
        }
        let k = g.below(4);
        match k {
            0 => program::<KCounter, S>(c, r, g),
            1 => program::<KGauge, S>(c, r, g),
            2 => program::<KFloat, S>(c, r, g),
            _ => program::<KHist, S>(c, r, g),
        }
        if c.small && g.chance(1, 2) {
            return;
        }
        match k {
            0 => threads::<KCounter, S>(c, r, g),
            1 => threads::<KGauge, S>(c, r, g),
            2 => threads::<KFloat, S>(c, r, g),
            _ => threads::<KHist, S>(c, r, g),
        }
    }
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one program over the safe API (names, vecs of all kinds and label sets, foreign identifiers, invented indices, lying label sets, encoders, racing threads) run under an interpreter or sanitizer; distinct = (configuration, operations)";
        let mut rng = ctx.rng(28);
        loop {
            for _ in 0..ctx.n(10, 1) {
                names(rep, &mut rng);
            }
            each_key_space(&mut Go(ctx, rep, &mut rng));
            for i in 0..4 {
                // interpreted: one of them per seed
                if !ctx.small || rng.below(4) == i {
                    match i {
                        0 => decoders(rep, &mut rng),
                        1 => singles(rep, &mut rng),
                        2 => encoders(ctx, rep, &mut rng),
                        _ => shared_states(ctx, rep, &mut rng),
                    }
                }
            }
            liars(ctx, rep, &mut rng);
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
