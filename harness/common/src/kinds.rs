//! The metric kinds behind one interface: every recording method of the library, a sequential
//! reference model, and a reader that turns an exported family back into model states.
use std::fmt::Debug;

use measured::label::LabelGroupSet;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{LabelId, MetricEncoding, MetricFamilyEncoding, MetricLockGuard, MetricMut, MetricType};
use measured::text::BufferedTextEncoder;
use measured::metric::{Metric, MetricVec};

use crate::prom::{self, Family, Labels};
use crate::Rng;

/// one recording
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rec {
    Inc,
    Dec,
    IncBy(i64),
    DecBy(i64),
    Set(i64),
    FIncBy(f64),
    FDecBy(f64),
    FSet(f64),
    Observe(f64),
    ObserveDur(u64, u32),
}

/// how a recording reaches its series
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Path {
    /// vec.inc(label), ...
    Label,
    /// get_metric(with_labels(label)) or a cached identifier
    Guard,
    /// get_metric_mut(..)
    Mut,
    /// vec.inc_mut(label) where there is one, else Mut
    LabelMut,
}
pub const PATHS: [Path; 4] = [Path::Label, Path::Guard, Path::Mut, Path::LabelMut];

pub trait Kind: Sized + 'static {
    type M: MetricType<Metadata = Self::Meta> + MetricEncoding<BufferedTextEncoder> + Send + Sync + 'static;
    type Meta: Send + Sync + 'static;
    type Model: Clone + Debug + PartialEq + Send + 'static;
    const NAME: &'static str;
    const TYPE: &'static str;
    fn meta() -> Self::Meta;
    fn meta_same(m: &Self::Meta) -> bool;
    fn init() -> Self::Model;
    fn rand(r: &mut Rng) -> Rec;
    /// an operation whose effect is distinguishable and exactly summable (for concurrent use)
    fn unit() -> Rec;
    fn apply(m: &mut Self::Model, op: Rec);
    fn guard(g: MetricLockGuard<'_, Self::M>, op: Rec);
    fn ex(g: MetricMut<'_, Self::M>, op: Rec);
    fn label<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, g: L::Group<'_>, op: Rec);
    fn label_mut<L: LabelGroupSet>(v: &mut MetricVec<Self::M, L>, g: L::Group<'_>, op: Rec) {
        let id = v.with_labels(g);
        Self::ex(v.get_metric_mut(id), op)
    }
    fn single(v: &Metric<Self::M>, op: Rec);
    fn single_mut(v: &mut Metric<Self::M>, op: Rec) {
        Self::ex(v.get_metric_mut(), op)
    }
    /// what a state taken out of a vec exports
    fn state(m: Self::M) -> Self::Model {
        Self::peek(&m)
    }
    fn peek(m: &Self::M) -> Self::Model {
        let mut enc = BufferedTextEncoder::new();
        let n = MetricName::try_from_str("m").expect("valid metric name");
        let ok = <Self::M as MetricEncoding<BufferedTextEncoder>>::write_type(n, &mut enc)
            .and_then(|_| m.collect_into(&Self::meta(), measured::label::NoLabels, n, &mut enc));
        match ok {
            Ok(()) => {}
            Err(e) => match e {},
        }
        let mut v = decode::<Self>(&enc.finish()).expect("state cannot be exported");
        assert_eq!(v.len(), 1);
        v.pop().unwrap().1
    }
    /// decode an exported family
    fn read(f: &Family) -> Result<Vec<(Labels, Self::Model)>, String>;
}

/// record through one of the paths
pub fn record<K: Kind, L: LabelGroupSet>(v: &mut MetricVec<K::M, L>, path: Path, g: L::Group<'_>, op: Rec) {
    match path {
        Path::Label => K::label(v, g, op),
        Path::Guard => {
            let id = v.with_labels(g);
            K::guard(v.get_metric(id), op)
        }
        Path::Mut => {
            let id = v.with_labels(g);
            K::ex(v.get_metric_mut(id), op)
        }
        Path::LabelMut => K::label_mut(v, g, op),
    }
}
pub fn record_id<K: Kind, L: LabelGroupSet>(v: &mut MetricVec<K::M, L>, path: Path, id: LabelId<L>, op: Rec) {
    match path {
        Path::Mut | Path::LabelMut => K::ex(v.get_metric_mut(id), op),
        _ => K::guard(v.get_metric(id), op),
    }
}

pub fn export<F: MetricFamilyEncoding<BufferedTextEncoder>>(f: &F, name: &str) -> bytes::Bytes {
    let mut enc = BufferedTextEncoder::new();
    export_into(f, name, &mut enc)
}
pub fn export_into<F: MetricFamilyEncoding<BufferedTextEncoder>>(f: &F, name: &str, enc: &mut BufferedTextEncoder) -> bytes::Bytes {
    let n = MetricName::try_from_str(name).expect("valid metric name");
    match f.collect_family_into(n, enc) {
        Ok(()) => {}
        Err(e) => match e {},
    }
    enc.finish()
}

/// Export a family and decode every series of it; errors describe malformed output.
pub fn scrape<K: Kind, F: MetricFamilyEncoding<BufferedTextEncoder>>(f: &F) -> Result<Vec<(Labels, K::Model)>, String> {
    let out = export(f, "m");
    decode::<K>(&out)
}
pub fn decode<K: Kind + ?Sized>(out: &[u8]) -> Result<Vec<(Labels, K::Model)>, String> {
    let fams = prom::families(out)?;
    if fams.len() != 1 || fams[0].name != "m" {
        return Err(format!("expected exactly family m, got {:?}", fams.iter().map(|f| &f.name).collect::<Vec<_>>()));
    }
    if fams[0].typ.as_deref() != Some(K::TYPE) {
        return Err(format!("family of type {:?}, expected {}", fams[0].typ, K::TYPE));
    }
    prom::check_no_duplicates(&fams)?;
    K::read(&fams[0])
}

fn scalar<T>(f: &Family, p: impl Fn(&str) -> Option<T>) -> Result<Vec<(Labels, T)>, String> {
    let mut o = vec![];
    for s in &f.samples {
        if s.name != f.name {
            return Err(format!("sample {s:?} in scalar family {:?}", f.name));
        }
        o.push((s.labels.clone(), p(&s.raw).ok_or_else(|| format!("bad number in {s:?}"))?));
    }
    Ok(o)
}

pub struct KCounter;
impl Kind for KCounter {
    type M = CounterState;
    type Meta = ();
    type Model = u64;
    const NAME: &'static str = "counter";
    const TYPE: &'static str = "counter";
    fn meta() {}
    fn meta_same(_: &()) -> bool {
        true
    }
    fn init() -> u64 {
        0
    }
    fn rand(r: &mut Rng) -> Rec {
        match r.below(3) {
            0 => Rec::Inc,
            1 => Rec::IncBy(r.below(1000) as i64),
            _ => Rec::IncBy((r.u64() >> r.range(16, 62)) as i64),
        }
    }
    fn unit() -> Rec {
        Rec::Inc
    }
    fn apply(m: &mut u64, op: Rec) {
        match op {
            Rec::Inc => *m += 1,
            Rec::IncBy(x) => *m += x as u64,
            _ => unreachable!(),
        }
    }
    fn guard(g: MetricLockGuard<'_, CounterState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::IncBy(x) => g.inc_by(x as u64),
            _ => unreachable!(),
        }
    }
    fn ex(g: MetricMut<'_, CounterState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::IncBy(x) => g.inc_by(x as u64),
            _ => unreachable!(),
        }
    }
    fn label<L: LabelGroupSet>(v: &MetricVec<CounterState, L>, g: L::Group<'_>, op: Rec) {
        match op {
            Rec::Inc => v.inc(g),
            Rec::IncBy(x) => v.inc_by(g, x as u64),
            _ => unreachable!(),
        }
    }
    fn label_mut<L: LabelGroupSet>(v: &mut MetricVec<CounterState, L>, g: L::Group<'_>, op: Rec) {
        match op {
            Rec::Inc => v.inc_mut(g),
            Rec::IncBy(x) => v.inc_by_mut(g, x as u64),
            _ => unreachable!(),
        }
    }
    fn single(v: &Metric<CounterState>, op: Rec) {
        match op {
            Rec::Inc => v.inc(),
            Rec::IncBy(x) => v.inc_by(x as u64),
            _ => unreachable!(),
        }
    }
    fn single_mut(v: &mut Metric<CounterState>, op: Rec) {
        match op {
            Rec::Inc => v.inc_mut(),
            Rec::IncBy(x) => v.inc_by_mut(x as u64),
            _ => unreachable!(),
        }
    }
    fn read(f: &Family) -> Result<Vec<(Labels, u64)>, String> {
        scalar(f, |s| s.parse().ok())
    }
}

pub struct KGauge;
impl Kind for KGauge {
    type M = GaugeState;
    type Meta = ();
    type Model = i64;
    const NAME: &'static str = "gauge";
    const TYPE: &'static str = "gauge";
    fn meta() {}
    fn meta_same(_: &()) -> bool {
        true
    }
    fn init() -> i64 {
        0
    }
    fn rand(r: &mut Rng) -> Rec {
        match r.below(6) {
            0 => Rec::Inc,
            1 => Rec::Dec,
            2 => Rec::IncBy((r.u64() as i64) >> r.range(8, 62)),
            3 => Rec::DecBy((r.u64() as i64) >> r.range(8, 62)),
            4 => Rec::Set((r.u64() as i64) >> r.range(4, 62)),
            _ => Rec::IncBy(r.below(100) as i64),
        }
    }
    fn unit() -> Rec {
        Rec::Inc
    }
    fn apply(m: &mut i64, op: Rec) {
        match op {
            Rec::Inc => *m += 1,
            Rec::Dec => *m -= 1,
            Rec::IncBy(x) => *m += x,
            Rec::DecBy(x) => *m -= x,
            Rec::Set(x) => *m = x,
            _ => unreachable!(),
        }
    }
    fn guard(g: MetricLockGuard<'_, GaugeState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::Dec => g.dec(),
            Rec::IncBy(x) => g.inc_by(x),
            Rec::DecBy(x) => g.dec_by(x),
            Rec::Set(x) => g.set(x),
            _ => unreachable!(),
        }
    }
    fn ex(g: MetricMut<'_, GaugeState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::Dec => g.dec(),
            Rec::IncBy(x) => g.inc_by(x),
            Rec::DecBy(x) => g.dec_by(x),
            Rec::Set(x) => g.set(x),
            _ => unreachable!(),
        }
    }
    fn label<L: LabelGroupSet>(v: &MetricVec<GaugeState, L>, g: L::Group<'_>, op: Rec) {
        match op {
            Rec::Inc => v.inc(g),
            Rec::Dec => v.dec(g),
            Rec::IncBy(x) => v.inc_by(g, x),
            Rec::DecBy(x) => v.dec_by(g, x),
            Rec::Set(x) => v.set(g, x),
            _ => unreachable!(),
        }
    }
    fn single(v: &Metric<GaugeState>, op: Rec) {
        match op {
            Rec::Inc => v.inc(),
            Rec::Dec => v.dec(),
            Rec::IncBy(x) => v.inc_by(x),
            Rec::DecBy(x) => v.dec_by(x),
            Rec::Set(x) => v.set(x),
            _ => unreachable!(),
        }
    }
    fn read(f: &Family) -> Result<Vec<(Labels, i64)>, String> {
        scalar(f, |s| s.parse().ok())
    }
}

/// f64 compared bit for bit, NaNs alike
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        prom::same_f64(self.0, o.0)
    }
}

pub struct KFloat;
impl Kind for KFloat {
    type M = FloatGaugeState;
    type Meta = ();
    type Model = F;
    const NAME: &'static str = "float gauge";
    const TYPE: &'static str = "gauge";
    fn meta() {}
    fn meta_same(_: &()) -> bool {
        true
    }
    fn init() -> F {
        F(0.0)
    }
    fn rand(r: &mut Rng) -> Rec {
        match r.below(6) {
            0 => Rec::Inc,
            1 => Rec::Dec,
            2 => Rec::FIncBy(r.any_f64()),
            3 => Rec::FDecBy(r.any_f64()),
            _ => Rec::FSet(r.any_f64()),
        }
    }
    fn unit() -> Rec {
        Rec::Inc
    }
    fn apply(m: &mut F, op: Rec) {
        match op {
            Rec::Inc => m.0 += 1.0,
            Rec::Dec => m.0 -= 1.0,
            Rec::FIncBy(x) => m.0 += x,
            Rec::FDecBy(x) => m.0 -= x,
            Rec::FSet(x) => m.0 = x,
            _ => unreachable!(),
        }
    }
    fn guard(g: MetricLockGuard<'_, FloatGaugeState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::Dec => g.dec(),
            Rec::FIncBy(x) => g.inc_by(x),
            Rec::FDecBy(x) => g.dec_by(x),
            Rec::FSet(x) => g.set(x),
            _ => unreachable!(),
        }
    }
    fn ex(g: MetricMut<'_, FloatGaugeState>, op: Rec) {
        match op {
            Rec::Inc => g.inc(),
            Rec::Dec => g.dec(),
            Rec::FIncBy(x) => g.inc_by(x),
            Rec::FDecBy(x) => g.dec_by(x),
            Rec::FSet(x) => g.set(x),
            _ => unreachable!(),
        }
    }
    fn label<L: LabelGroupSet>(v: &MetricVec<FloatGaugeState, L>, g: L::Group<'_>, op: Rec) {
        match op {
            Rec::Inc => v.inc(g),
            Rec::Dec => v.dec(g),
            Rec::FIncBy(x) => v.inc_by(g, x),
            Rec::FDecBy(x) => v.dec_by(g, x),
            Rec::FSet(x) => v.set(g, x),
            _ => unreachable!(),
        }
    }
    fn single(v: &Metric<FloatGaugeState>, op: Rec) {
        match op {
            Rec::Inc => v.inc(),
            Rec::Dec => v.dec(),
            Rec::FIncBy(x) => v.inc_by(x),
            Rec::FDecBy(x) => v.dec_by(x),
            Rec::FSet(x) => v.set(x),
            _ => unreachable!(),
        }
    }
    fn read(f: &Family) -> Result<Vec<(Labels, F)>, String> {
        scalar(f, |s| prom::parse_number(s).map(F))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct HModel {
    /// per-bucket counts, not cumulative; the last is +Inf
    pub buckets: Vec<u64>,
    pub sum: F,
}
impl HModel {
    pub fn new(n: usize) -> HModel {
        HModel { buckets: vec![0; n + 1], sum: F(0.0) }
    }
    pub fn observe(&mut self, bounds: &[f64], x: f64) {
        let i = bounds.iter().position(|b| x <= *b).unwrap_or(bounds.len());
        self.buckets[i] += 1;
        self.sum.0 += x;
    }
    pub fn count(&self) -> u64 {
        self.buckets.iter().sum()
    }
}

/// decode exported histogram series; the bounds must be exactly `bounds` followed by +Inf
pub fn read_hist(f: &Family, bounds: &[f64]) -> Result<Vec<(Labels, HModel)>, String> {
    let mut o = vec![];
    let mut exp: Vec<f64> = bounds.to_vec();
    if exp.last() != Some(&f64::INFINITY) {
        exp.push(f64::INFINITY);
    }
    for h in prom::histograms(f)? {
        let got: Vec<f64> = h.buckets.iter().map(|b| prom::parse_number(&b.0).unwrap()).collect();
        if got.len() != exp.len() || !got.iter().zip(&exp).all(|(a, b)| a.to_bits() == b.to_bits()) {
            return Err(format!("bounds {got:?}, expected {exp:?} in series {:?}", h.labels));
        }
        let mut m = HModel::new(bounds.len());
        let mut prev = 0;
        for (i, b) in h.buckets.iter().enumerate() {
            m.buckets[i] = b.1 - prev;
            prev = b.1;
        }
        m.sum = F(prom::parse_number(&h.sum).unwrap());
        o.push((h.labels, m));
    }
    Ok(o)
}

pub const BOUNDS: [f64; 4] = [-1.5, 0.25, 3.0, 1000.0];
pub struct KHist;
impl Kind for KHist {
    type M = HistogramState<4>;
    type Meta = Thresholds<4>;
    type Model = HModel;
    const NAME: &'static str = "histogram";
    const TYPE: &'static str = "histogram";
    fn meta() -> Thresholds<4> {
        Thresholds::with_buckets(BOUNDS)
    }
    fn meta_same(m: &Thresholds<4>) -> bool {
        m.get() == &BOUNDS
    }
    fn init() -> HModel {
        HModel::new(4)
    }
    fn rand(r: &mut Rng) -> Rec {
        match r.below(6) {
            0 => Rec::Observe(*r.pick(&BOUNDS)),
            1 => {
                let b = *r.pick(&BOUNDS);
                let d = if r.chance(1, 2) { 1 } else { u64::MAX };
                Rec::Observe(f64::from_bits(b.to_bits().wrapping_add(d)))
            }
            2 => Rec::ObserveDur(r.below(2000) as u64, r.below(1_000_000_000) as u32),
            3 => Rec::Observe(r.any_f64()),
            _ => Rec::Observe(r.below(5000) as f64 / 8.0 - 100.0),
        }
    }
    fn unit() -> Rec {
        Rec::Observe(1.0)
    }
    fn apply(m: &mut HModel, op: Rec) {
        match op {
            Rec::Observe(x) => m.observe(&BOUNDS, x),
            Rec::ObserveDur(s, n) => m.observe(&BOUNDS, std::time::Duration::new(s, n).as_secs_f64()),
            _ => unreachable!(),
        }
    }
    fn guard(g: MetricLockGuard<'_, Self::M>, op: Rec) {
        match op {
            Rec::Observe(x) => g.observe(x),
            Rec::ObserveDur(s, n) => g.observe_duration(std::time::Duration::new(s, n)),
            _ => unreachable!(),
        }
    }
    fn ex(g: MetricMut<'_, Self::M>, op: Rec) {
        match op {
            Rec::Observe(x) => g.observe(x),
            Rec::ObserveDur(s, n) => g.observe_duration(std::time::Duration::new(s, n)),
            _ => unreachable!(),
        }
    }
    fn label<L: LabelGroupSet>(v: &MetricVec<Self::M, L>, g: L::Group<'_>, op: Rec) {
        match op {
            Rec::Observe(x) => v.observe(g, x),
            Rec::ObserveDur(s, n) => v.observe_duration(g, std::time::Duration::new(s, n)),
            _ => unreachable!(),
        }
    }
    fn single(v: &Metric<Self::M>, op: Rec) {
        match op {
            Rec::Observe(x) => v.observe(x),
            Rec::ObserveDur(s, n) => v.get_metric().observe_duration(std::time::Duration::new(s, n)),
            _ => unreachable!(),
        }
    }
    fn read(f: &Family) -> Result<Vec<(Labels, HModel)>, String> {
        read_hist(f, &BOUNDS)
    }
}

pub trait WithKind {
    fn run<K: Kind>(&mut self);
}
pub fn each_kind(f: &mut impl WithKind) {
    f.run::<KCounter>();
    f.run::<KGauge>();
    f.run::<KFloat>();
    f.run::<KHist>();
}
