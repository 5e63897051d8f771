//! Random registries: sequences of metric families with arbitrary names, help texts, label groups
//! and states, what an exposition of them must say, and how they are exported.
use std::marker::PhantomData;
use std::sync::atomic::AtomicU64;

use measured::label::{LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{write_float_gauge, write_gauge, FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{Bucket, Count, MetricName, MetricNameEncoder, Suffix, Sum, Total};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::{Counter, CounterVec, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec, LabelGroup};

use crate::prom::{self, same_f64, Labels, Sample};
use crate::Rng;

// ---------------------------------------------------------------- labels

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    Owned(String),
    Int(i64),
    Float(f64),
}
impl LabelValue for Val {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            Val::Str(s) => (&s.as_str()).visit(v),
            Val::Owned(s) => s.visit(v),
            Val::Int(x) => v.write_int(*x),
            Val::Float(x) => v.write_float(*x),
        }
    }
}
impl Val {
    /// is `got` what a reader must see for this value?
    pub fn reads_as(&self, got: &str) -> bool {
        match self {
            Val::Str(s) | Val::Owned(s) => s == got,
            Val::Int(x) => got.parse::<i64>() == Ok(*x) && !got.starts_with('+'),
            Val::Float(x) => float_reads_as(*x, got),
        }
    }
}
/// floats in label values: exact, specials in Prometheus spelling
pub fn float_reads_as(x: f64, got: &str) -> bool {
    if x.is_nan() {
        return got == "NaN";
    }
    if x.is_infinite() {
        return got == if x > 0.0 { "+Inf" } else { "-Inf" };
    }
    prom::parse_number(got).is_some_and(|g| g.to_bits() == x.to_bits())
}

#[derive(Clone, Debug, Default)]
pub struct AnyGroup(pub Vec<(String, Val)>);
impl LabelGroup for AnyGroup {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for (n, x) in &self.0 {
            v.write_value(LabelName::from_str(n), x);
        }
    }
}
/// a member of an AnySet: by index when recorded, with its labels when exported
#[derive(Clone, Copy, Debug)]
pub struct Pick<'a>(pub usize, pub Option<&'a AnyGroup>);
impl LabelGroup for Pick<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        self.1.expect("only decoded groups are visited").visit_values(v)
    }
}
#[derive(Clone, Debug)]
pub struct AnySet {
    pub groups: Vec<AnyGroup>,
    pub fixed: bool,
}
impl LabelGroupSet for AnySet {
    type Group<'a> = Pick<'a>;
    type Unique = u32;
    fn cardinality(&self) -> Option<usize> {
        self.fixed.then_some(self.groups.len())
    }
    fn encode_dense(&self, v: u32) -> Option<usize> {
        self.fixed.then_some(v as usize)
    }
    fn decode_dense(&self, v: usize) -> Pick<'_> {
        Pick(v, Some(&self.groups[v]))
    }
    fn encode(&self, v: Pick<'_>) -> Option<u32> {
        (v.0 < self.groups.len()).then_some(v.0 as u32)
    }
    fn decode(&self, v: &u32) -> Pick<'_> {
        Pick(*v as usize, Some(&self.groups[*v as usize]))
    }
}

// ---------------------------------------------------------------- names

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sfx {
    None,
    Total,
    Sum,
    Count,
    Bucket,
    Custom(&'static str),
}
pub struct CustomSuffix(pub &'static str);
impl Suffix for CustomSuffix {
    fn encode_text(&self, b: &mut impl std::io::Write) -> std::io::Result<()> {
        b.write_all(self.0.as_bytes())
    }
    fn encode_len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Clone, Debug)]
pub struct Name {
    /// outermost first, at most two
    pub ns: Vec<&'static str>,
    pub base: &'static str,
    pub sfx: Sfx,
}
pub trait NameFn {
    type Out;
    fn call(self, n: impl MetricNameEncoder) -> Self::Out;
}
impl Name {
    pub fn plain(base: &'static str) -> Name {
        Name { ns: vec![], base, sfx: Sfx::None }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for n in &self.ns {
            s.push_str(n);
            s.push('_');
        }
        s.push_str(self.base);
        s.push_str(match self.sfx {
            Sfx::None => "",
            Sfx::Total => "_total",
            Sfx::Sum => "_sum",
            Sfx::Count => "_count",
            Sfx::Bucket => "_bucket",
            Sfx::Custom(c) => c,
        });
        s
    }
    pub fn with<F: NameFn>(&self, f: F) -> F::Out {
        fn sfx<F: NameFn>(n: impl MetricNameEncoder, s: Sfx, f: F) -> F::Out {
            match s {
                Sfx::None => f.call(n),
                Sfx::Total => f.call(n.with_suffix(Total)),
                Sfx::Sum => f.call(n.with_suffix(Sum)),
                Sfx::Count => f.call(n.with_suffix(Count)),
                Sfx::Bucket => f.call(n.with_suffix(Bucket)),
                Sfx::Custom(c) => f.call(n.with_suffix(CustomSuffix(c))),
            }
        }
        use measured::metric::name::WithNamespace;
        let base = MetricName::from_str(self.base);
        match self.ns.as_slice() {
            [] => sfx(base, self.sfx, f),
            [a] => sfx(base.in_namespace(a), self.sfx, f),
            [a, b] => sfx(WithNamespace::new(a, base.in_namespace(b)), self.sfx, f),
            _ => unreachable!(),
        }
    }
}

fn leak(s: String) -> &'static str {
    // one pool: the same few thousand names again and again
    use std::collections::HashSet;
    use std::sync::Mutex;
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashSet::new);
    if let Some(x) = p.get(s.as_str()) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    p.insert(x);
    x
}

// ---------------------------------------------------------------- states

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    U(u64),
    I(i64),
    F(f64),
    /// per-bucket counts (not cumulative)
    H { bounds: Vec<f64>, counts: Vec<u64>, inf: u64, sum: f64 },
}

pub enum Store {
    C(CounterVec<AnySet>),
    G(GaugeVec<AnySet>),
    F(FloatGaugeVec<AnySet>),
    H0(HistogramVec<AnySet, 0>),
    H1(HistogramVec<AnySet, 1>),
    H4(HistogramVec<AnySet, 4>),
    H9(HistogramVec<AnySet, 9>),
    SC(Counter),
    SG(Gauge),
    SF(FloatGauge),
    SH(Histogram<4>),
    /// values written with the free functions
    RC(Vec<(AnyGroup, u64)>),
    RG(Vec<(AnyGroup, i64)>),
    RF(Vec<(AnyGroup, f64)>),
    /// optional metrics
    Absent(Option<Counter>),
    Present(Option<GaugeVec<AnySet>>),
}

pub struct Fam {
    pub name: Name,
    pub help: Option<String>,
    pub store: Store,
    /// the series and their values
    pub series: Vec<(AnyGroup, Value)>,
}

/// how histograms reach an encoder (not every encoder supports them)
pub trait Hists<E: Encoding> {
    fn go(s: &Store, name: impl MetricNameEncoder, enc: &mut E) -> Result<(), E::Err>;
}
pub struct WithHists;
impl<E: Encoding> Hists<E> for WithHists
where
    HistogramState<0>: MetricEncoding<E>,
    HistogramState<1>: MetricEncoding<E>,
    HistogramState<4>: MetricEncoding<E>,
    HistogramState<9>: MetricEncoding<E>,
{
    fn go(s: &Store, name: impl MetricNameEncoder, enc: &mut E) -> Result<(), E::Err> {
        match s {
            Store::H0(v) => v.collect_family_into(name, enc),
            Store::H1(v) => v.collect_family_into(name, enc),
            Store::H4(v) => v.collect_family_into(name, enc),
            Store::H9(v) => v.collect_family_into(name, enc),
            Store::SH(v) => v.collect_family_into(name, enc),
            _ => unreachable!(),
        }
    }
}
pub struct NoHists;
impl<E: Encoding> Hists<E> for NoHists {
    fn go(_: &Store, _: impl MetricNameEncoder, _: &mut E) -> Result<(), E::Err> {
        unreachable!("no histograms in this registry")
    }
}

struct Export<'a, E, H>(&'a Fam, &'a mut E, PhantomData<H>);
impl<E: Encoding, H: Hists<E>> NameFn for Export<'_, E, H>
where
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
{
    type Out = Result<(), E::Err>;
    fn call(self, n: impl MetricNameEncoder) -> Self::Out {
        let Export(f, enc, _) = self;
        if let Some(h) = &f.help {
            enc.write_help(&n, h)?;
        }
        match &f.store {
            Store::C(v) => v.collect_family_into(n, enc),
            Store::G(v) => v.collect_family_into(n, enc),
            Store::F(v) => v.collect_family_into(n, enc),
            Store::SC(v) => v.collect_family_into(n, enc),
            Store::SG(v) => v.collect_family_into(n, enc),
            Store::SF(v) => v.collect_family_into(n, enc),
            Store::Absent(v) => v.collect_family_into(n, enc),
            Store::Present(v) => v.collect_family_into(n, enc),
            Store::RC(v) => {
                CounterState::write_type(&n, enc)?;
                for (g, x) in v {
                    write_counter(enc, &n, g, *x)?;
                }
                Ok(())
            }
            Store::RG(v) => {
                GaugeState::write_type(&n, enc)?;
                for (g, x) in v {
                    write_gauge(enc, &n, g, *x)?;
                }
                Ok(())
            }
            Store::RF(v) => {
                FloatGaugeState::write_type(&n, enc)?;
                for (g, x) in v {
                    write_float_gauge(enc, &n, g, *x)?;
                }
                Ok(())
            }
            h => H::go(h, n, enc),
        }
    }
}

impl Fam {
    pub fn export<E: Encoding, H: Hists<E>>(&self, enc: &mut E) -> Result<(), E::Err>
    where
        CounterState: MetricEncoding<E>,
        GaugeState: MetricEncoding<E>,
        FloatGaugeState: MetricEncoding<E>,
    {
        self.name.with(Export::<E, H>(self, enc, PhantomData))
    }
    pub fn typ(&self) -> Option<&'static str> {
        Some(match &self.store {
            Store::C(_) | Store::SC(_) | Store::RC(_) => "counter",
            Store::G(_) | Store::SG(_) | Store::RG(_) | Store::F(_) | Store::SF(_) | Store::RF(_) => "gauge",
            Store::H0(_) | Store::H1(_) | Store::H4(_) | Store::H9(_) | Store::SH(_) => "histogram",
            Store::Absent(_) => return None,
            Store::Present(_) => "gauge",
        })
    }
    pub fn is_hist(&self) -> bool {
        self.typ() == Some("histogram")
    }
    pub fn describe(&self) -> String {
        format!("{} {:?} {:?} {:?}", self.name.text(), self.typ(), self.help, self.series)
    }
}

/// a sequence of families as a metric group
pub struct Reg<H>(pub Vec<Fam>, pub PhantomData<H>);
impl<E: Encoding, H: Hists<E>> MetricGroup<E> for Reg<H>
where
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        for f in &self.0 {
            f.export::<E, H>(enc)?;
        }
        Ok(())
    }
}
impl<H> Reg<H> {
    pub fn new(f: Vec<Fam>) -> Self {
        Reg(f, PhantomData)
    }
}

// ---------------------------------------------------------------- generation

/// what a workload emphasises
#[derive(Clone, Copy)]
pub struct Opts {
    pub labels: usize,
    pub wild_strings: bool,
    pub wild_help: bool,
    pub wild_numbers: bool,
    pub hists: bool,
    pub max_series: usize,
    pub empty: bool,
    /// now and then strings up to 4 MiB, hundreds of series, dozens of labels
    pub long: bool,
}
pub const TAME: Opts = Opts { labels: 2, wild_strings: false, wild_help: false, wild_numbers: false, hists: true, max_series: 4, empty: true, long: false };

/// `s`, now and then repeated to any size
fn stretch(r: &mut Rng, o: &Opts, s: String) -> String {
    if !o.long || cfg!(miri) || s.is_empty() || !r.chance(1, 400) {
        return s;
    }
    let top = 2 << if r.chance(1, 40) { r.range(18, 21) } else { r.range(8, 17) };
    let len = r.range(if top > 1 << 19 { top / 2 } else { 1 << 8 }, top);
    s.repeat(len / s.len() + 1)
}

fn tame_string(r: &mut Rng) -> String {
    let n = r.below(7);
    (0..n).map(|_| *r.pick(b"abcxyz019-/ ") as char).collect()
}
pub fn any_val(r: &mut Rng, o: &Opts) -> Val {
    match r.below(8) {
        0..=2 => {
            let n = if r.chance(1, 20) { 300 } else { 12 };
            let s = if o.wild_strings { r.any_string(n) } else { tame_string(r) };
            Val::Str(stretch(r, o, s))
        }
        3 | 4 => {
            let s = if o.wild_strings { r.any_string(12) } else { tame_string(r) };
            Val::Owned(stretch(r, o, s))
        }
        5 => Val::Int(if o.wild_numbers || o.wild_strings { r.any_i64() } else { r.below(100) as i64 }),
        _ => Val::Float(if o.wild_numbers || o.wild_strings { r.any_f64() } else { r.below(100) as f64 / 4.0 }),
    }
}
/// label groups: distinct label sets, distinct names within a group, never "le"
pub fn any_groups(r: &mut Rng, n: usize, o: &Opts) -> Vec<AnyGroup> {
    let mut names: Vec<String> = vec![];
    let k = if o.long && r.chance(1, 200) {
        60
    } else if r.chance(1, 8) {
        o.labels * 4
    } else {
        r.below(o.labels + 1)
    };
    while names.len() < k {
        let x = match r.below(12) {
            0 => "le_".to_string(),
            1 => "quantile".to_string(),
            2 => "__name__".to_string(),
            3 => "_".to_string(),
            _ => r.label_name(),
        };
        if x != "le" && !names.contains(&x) {
            names.push(x);
        }
    }
    let mut out: Vec<AnyGroup> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut tries = 0;
    while out.len() < n && tries < n * 4 + 4 {
        tries += 1;
        // groups of one set usually share their names, but nothing requires it
        let ns: Vec<String> = if r.chance(1, 6) { names.iter().filter(|_| r.chance(2, 3)).cloned().collect() } else { names.clone() };
        let g = AnyGroup(ns.into_iter().map(|n| (n, any_val(r, o))).collect());
        let key = |g: &AnyGroup| {
            let mut v: Vec<(String, String)> = g
                .0
                .iter()
                .map(|(n, x)| {
                    let s = match x {
                        Val::Str(s) | Val::Owned(s) => s.clone(),
                        Val::Int(i) => i.to_string(),
                        Val::Float(f) => match prom_float(*f) {
                            Some(s) => s,
                            None => format!("{f:?}"),
                        },
                    };
                    // values that read as the same number (1, 1.0, "01", -0) could be taken for each other
                    let s = match prom::parse_number(&s) {
                        Some(f) if f == 0.0 => "0".to_string(),
                        Some(f) if !f.is_nan() => format!("{f:?}"),
                        Some(_) => "NaN".to_string(),
                        None => s,
                    };
                    (n.clone(), s)
                })
                .collect();
            v.sort();
            v
        };
        // what is rendered (as numbers where it reads as numbers) keeps label sets distinct
        if seen.insert(key(&g)) {
            out.push(g);
        }
    }
    out
}
fn prom_float(f: f64) -> Option<String> {
    if f.is_nan() {
        Some("NaN".into())
    } else if f == f64::INFINITY {
        Some("+Inf".into())
    } else if f == f64::NEG_INFINITY {
        Some("-Inf".into())
    } else {
        None
    }
}

pub fn any_bounds<const N: usize>(r: &mut Rng, o: &Opts) -> [f64; N] {
    loop {
        let mut v: Vec<f64> = vec![];
        while v.len() < N {
            let x = if o.wild_numbers { r.any_f64() } else { r.below(400) as f64 / 8.0 };
            if !x.is_nan() && !v.iter().any(|y| *y == x) {
                v.push(x);
            }
        }
        if N > 0 && r.chance(1, 10) && !v.contains(&f64::MAX) {
            // finite, however large
            v[N - 1] = f64::MAX;
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if let Ok(a) = v.try_into() {
            return a;
        }
    }
}

pub fn any_help(r: &mut Rng, o: &Opts) -> String {
    if o.wild_help {
        let n = if r.chance(1, 20) { 400 } else { 20 };
        let s = r.any_string(n);
        stretch(r, o, s)
    } else {
        let s = format!("help {}", r.below(1000));
        stretch(r, o, s)
    }
}

pub fn any_name(r: &mut Rng, hist: bool) -> Name {
    let ns = (0..*r.pick(&[0, 0, 0, 1, 2])).map(|_| leak(format!("{}{}", ["app", "http", "ns_1", "A", "_", ":x"][r.below(6)], r.below(4)))).collect();
    let base = leak(match r.below(4) {
        0 => format!("m{}", r.below(300)),
        1 => format!("requests_{}", r.below(50)),
        _ => {
            let mut n = r.metric_name();
            n.truncate(4);
            n
        }
    });
    let sfx = if hist {
        *r.pick(&[Sfx::None, Sfx::None, Sfx::Custom("_seconds")])
    } else {
        *r.pick(&[Sfx::None, Sfx::None, Sfx::Total, Sfx::Sum, Sfx::Count, Sfx::Bucket, Sfx::Custom("_bytes"), Sfx::Custom("_ratio_x")])
    };
    Name { ns, base, sfx }
}

fn hist_state<const N: usize>(r: &mut Rng, o: &Opts, h: &HistogramState<N>, t: &[f64; N], obs: impl Fn(f64)) -> Value {
    let mut counts = vec![0u64; N];
    let mut inf = 0u64;
    let mut sum = 0.0f64;
    if o.wild_numbers && r.chance(1, 2) {
        // set the state directly: counts up to the extremes (their total must fit)
        let mut left = u64::MAX;
        let mut w = h.inner.write();
        for i in 0..N {
            let c = if r.chance(1, 3) { 0 } else { r.any_u64() % (left / 2 + 1) };
            left -= c;
            counts[i] = c;
            w.buckets[i] = AtomicU64::new(c);
        }
        inf = if r.chance(1, 3) { left } else { r.below(5) as u64 % (left.max(1)) };
        w.inf = AtomicU64::new(inf);
        sum = r.any_f64();
        w.sum.set_mut(sum);
    } else {
        for _ in 0..r.below(12) {
            let x = if o.wild_numbers { r.any_f64() } else { r.below(500) as f64 / 8.0 };
            obs(x);
            sum += x;
            match t.iter().position(|le| x <= *le) {
                Some(i) => counts[i] += 1,
                None => inf += 1,
            }
        }
    }
    Value::H { bounds: t.to_vec(), counts, inf, sum }
}

fn hist_vec<const N: usize>(r: &mut Rng, o: &Opts, set: AnySet, touched: &[usize]) -> (HistogramVec<AnySet, N>, Vec<Value>) {
    let b = any_bounds::<N>(r, o);
    let sparse = !set.fixed || r.chance(1, 2);
    let t = Thresholds::with_buckets(b);
    let v = if sparse { HistogramVec::sparse_with_label_set_and_metadata(set, t) } else { HistogramVec::with_label_set_and_metadata(set, t) };
    let mut out = vec![];
    for &i in touched {
        let id = v.with_labels(Pick(i, None));
        let x = {
            let g = v.get_metric(id);
            // observations must not take the guard's lock twice
            let state: &HistogramState<N> = &g;
            let obs = std::cell::RefCell::new(vec![]);
            let val = hist_state(r, o, state, &b, |x| obs.borrow_mut().push(x));
            drop(g);
            for x in obs.into_inner() {
                v.get_metric(id).observe(x);
            }
            val
        };
        out.push(x);
    }
    (v, out)
}

pub fn any_fam(r: &mut Rng, o: &Opts, name: Name, hist: bool) -> Fam {
    let help = if r.chance(3, 4) { Some(any_help(r, o)) } else { None };
    let n = if o.long && r.chance(1, 300) {
        r.range(o.max_series, 400)
    } else if o.empty && r.chance(1, 8) {
        0
    } else {
        r.range(1, o.max_series)
    };
    let extra = r.below(2);
    let groups = any_groups(r, n.max(1) + extra, o);
    let mut touched: Vec<usize> = (0..groups.len()).collect();
    r.shuffle(&mut touched);
    touched.truncate(n);
    let set = AnySet { groups: groups.clone(), fixed: r.chance(1, 2) };
    let sparse = !set.fixed || r.chance(1, 2);
    let with = |vals: Vec<Value>| touched.iter().map(|&i| groups[i].clone()).zip(vals).collect::<Vec<_>>();
    let u = |r: &mut Rng| if o.wild_numbers { r.any_u64() } else { r.below(1000) as u64 };
    let i = |r: &mut Rng| if o.wild_numbers { r.any_i64() } else { r.below(1000) as i64 - 500 };
    let f = |r: &mut Rng| if o.wild_numbers { r.any_f64() } else { r.below(1000) as f64 / 8.0 };
    let (store, series) = if hist {
        match r.below(6) {
            0 => {
                let (v, x) = hist_vec::<0>(r, o, set, &touched);
                (Store::H0(v), with(x))
            }
            1 => {
                let (v, x) = hist_vec::<1>(r, o, set, &touched);
                (Store::H1(v), with(x))
            }
            2 | 3 => {
                let (v, x) = hist_vec::<4>(r, o, set, &touched);
                (Store::H4(v), with(x))
            }
            4 => {
                let (v, x) = hist_vec::<9>(r, o, set, &touched);
                (Store::H9(v), with(x))
            }
            _ => {
                let b = any_bounds::<4>(r, o);
                let h = Histogram::<4>::with_metadata(Thresholds::with_buckets(b));
                let x = {
                    let obs = std::cell::RefCell::new(vec![]);
                    let g = h.get_metric();
                    let val = hist_state(r, o, &g, &b, |x| obs.borrow_mut().push(x));
                    drop(g);
                    for x in obs.into_inner() {
                        h.observe(x);
                    }
                    val
                };
                (Store::SH(h), vec![(AnyGroup::default(), x)])
            }
        }
    } else {
        match r.below(12) {
            0 | 1 => {
                let v = if sparse { CounterVec::sparse_with_label_set(set) } else { CounterVec::with_label_set(set) };
                let xs: Vec<u64> = touched.iter().map(|_| u(r)).collect();
                for (&k, &x) in touched.iter().zip(&xs) {
                    v.inc_by(Pick(k, None), x);
                }
                (Store::C(v), with(xs.into_iter().map(Value::U).collect()))
            }
            2 | 3 => {
                let v = if sparse { GaugeVec::sparse_with_label_set(set) } else { GaugeVec::with_label_set(set) };
                let xs: Vec<i64> = touched.iter().map(|_| i(r)).collect();
                for (&k, &x) in touched.iter().zip(&xs) {
                    v.set(Pick(k, None), x);
                }
                (Store::G(v), with(xs.into_iter().map(Value::I).collect()))
            }
            4 | 5 => {
                let v = if sparse { FloatGaugeVec::sparse_with_label_set(set) } else { FloatGaugeVec::with_label_set(set) };
                let xs: Vec<f64> = touched.iter().map(|_| f(r)).collect();
                for (&k, &x) in touched.iter().zip(&xs) {
                    v.set(Pick(k, None), x);
                }
                (Store::F(v), with(xs.into_iter().map(Value::F).collect()))
            }
            6 => {
                let c = Counter::new();
                let x = u(r);
                c.inc_by(x);
                (Store::SC(c), vec![(AnyGroup::default(), Value::U(x))])
            }
            7 => {
                let g = Gauge::new();
                let x = i(r);
                g.get_metric().set(x);
                (Store::SG(g), vec![(AnyGroup::default(), Value::I(x))])
            }
            8 => {
                let g = FloatGauge::new();
                let x = f(r);
                g.get_metric().set(x);
                (Store::SF(g), vec![(AnyGroup::default(), Value::F(x))])
            }
            9 => {
                let k = r.below(3);
                let gs: Vec<AnyGroup> = touched.iter().map(|&i| groups[i].clone()).collect();
                match k {
                    0 => {
                        let v: Vec<(AnyGroup, u64)> = gs.iter().map(|g| (g.clone(), u(r))).collect();
                        let s = v.iter().map(|(g, x)| (g.clone(), Value::U(*x))).collect();
                        (Store::RC(v), s)
                    }
                    1 => {
                        let v: Vec<(AnyGroup, i64)> = gs.iter().map(|g| (g.clone(), i(r))).collect();
                        let s = v.iter().map(|(g, x)| (g.clone(), Value::I(*x))).collect();
                        (Store::RG(v), s)
                    }
                    _ => {
                        let v: Vec<(AnyGroup, f64)> = gs.iter().map(|g| (g.clone(), f(r))).collect();
                        let s = v.iter().map(|(g, x)| (g.clone(), Value::F(*x))).collect();
                        (Store::RF(v), s)
                    }
                }
            }
            10 if o.empty => (Store::Absent(None), vec![]),
            _ => {
                let v = GaugeVec::with_label_set(set);
                let xs: Vec<i64> = touched.iter().map(|_| i(r)).collect();
                for (&k, &x) in touched.iter().zip(&xs) {
                    v.set(Pick(k, None), x);
                }
                (Store::Present(Some(v)), with(xs.into_iter().map(Value::I).collect()))
            }
        }
    };
    Fam { name, help, store, series }
}

/// Families whose names cannot be confused with each other's samples.
pub fn any_reg<H>(r: &mut Rng, o: &Opts, n: usize) -> Reg<H> {
    let mut used: Vec<String> = vec![];
    let mut out = vec![];
    let mut tries = 0;
    while out.len() < n && tries < 1000 {
        tries += 1;
        let hist = o.hists && r.chance(1, 3);
        let name = any_name(r, hist);
        let t = name.text();
        let clash = |a: &str, b: &str| a == b || ["_bucket", "_sum", "_count"].iter().any(|s| a.strip_suffix(s) == Some(b) || b.strip_suffix(s) == Some(a));
        if used.iter().any(|u| clash(u, &t)) {
            continue;
        }
        used.push(t);
        out.push(any_fam(r, o, name, hist));
    }
    Reg::new(out)
}

// ---------------------------------------------------------------- the oracle

fn labels_read_as(g: &AnyGroup, got: &Labels) -> bool {
    g.0.len() == got.len() && g.0.iter().zip(got).all(|((n, v), (gn, gv))| n == gn && v.reads_as(gv))
}
fn value_reads_as(v: &Value, raw: &str) -> bool {
    match v {
        Value::U(x) => raw.parse::<u64>() == Ok(*x),
        Value::I(x) => raw.parse::<i64>() == Ok(*x),
        Value::F(x) => prom::parse_number(raw).is_some_and(|g| same_f64(g, *x)),
        Value::H { .. } => unreachable!(),
    }
}

fn hist_ok(s: &prom::HistSeries, v: &Value) -> Result<(), String> {
    let Value::H { bounds, counts, inf, sum } = v else { unreachable!() };
    // a trailing +Inf bound of the user is the same bucket as the implicit one
    let mut want: Vec<(f64, u64)> = vec![];
    let mut acc = 0u64;
    for (b, c) in bounds.iter().zip(counts) {
        acc += c;
        if *b != f64::INFINITY {
            want.push((*b, acc));
        }
    }
    acc += inf;
    want.push((f64::INFINITY, acc));
    if want.len() != s.buckets.len() {
        return Err(format!("{} buckets, expected {}", s.buckets.len(), want.len()));
    }
    for ((b, c), (le, n)) in want.iter().zip(&s.buckets) {
        if !float_reads_as(*b, le) || c != n {
            return Err(format!("bucket le={le} {n}, expected le={b:?} {c}"));
        }
    }
    if s.count != acc {
        return Err(format!("count {}, expected {acc}", s.count));
    }
    if !prom::parse_number(&s.sum).is_some_and(|g| same_f64(g, *sum)) {
        return Err(format!("sum {}, expected {sum:?}", s.sum));
    }
    Ok(())
}

/// Does this text exposition say exactly what the families hold? Families in order, series of a
/// family in any order.
pub fn check_text(out: &[u8], fams: &[&Fam], prefix: &str) -> Result<u64, String> {
    let got = prom::families(out)?;
    prom::check_no_duplicates(&got)?;
    let mut samples = 0u64;
    // what each family shows
    let want: Vec<&&Fam> = fams.iter().filter(|f| f.typ().is_some() || f.help.is_some()).collect();
    if got.len() != want.len() {
        return Err(format!(
            "{} families, expected {}: {:?} vs {:?}",
            got.len(),
            want.len(),
            got.iter().map(|f| f.name.clone()).collect::<Vec<_>>(),
            want.iter().map(|f| f.name.text()).collect::<Vec<_>>()
        ));
    }
    for (g, w) in got.iter().zip(want) {
        let e = |m: String| format!("family {:?}: {m}; recorded {}", g.name, w.describe());
        let name = format!("{prefix}{}", w.name.text());
        if g.name != name {
            return Err(e(format!("named {:?}, expected {name:?}", g.name)));
        }
        if g.help != w.help {
            return Err(e(format!("help {:?}, expected {:?}", g.help, w.help)));
        }
        if g.typ.as_deref() != w.typ() {
            return Err(e(format!("type {:?}, expected {:?}", g.typ, w.typ())));
        }
        samples += g.samples.len() as u64;
        let mut left: Vec<usize> = (0..w.series.len()).collect();
        if w.is_hist() {
            for s in prom::histograms(g).map_err(e)? {
                let Some(k) = left.iter().position(|&i| labels_read_as(&w.series[i].0, &s.labels)) else {
                    return Err(e(format!("series {:?} was not recorded", s.labels)));
                };
                hist_ok(&s, &w.series[left[k]].1).map_err(e)?;
                left.remove(k);
            }
        } else {
            for s in &g.samples {
                let s: &Sample = s;
                let Some(k) = left.iter().position(|&i| labels_read_as(&w.series[i].0, &s.labels)) else {
                    return Err(e(format!("sample {s:?} was not recorded")));
                };
                if !value_reads_as(&w.series[left[k]].1, &s.raw) {
                    return Err(e(format!("value {:?}, expected {:?}", s.raw, w.series[left[k]].1)));
                }
                left.remove(k);
            }
        }
        if !left.is_empty() {
            return Err(e(format!("series missing: {:?}", left.iter().map(|&i| &w.series[i].0).collect::<Vec<_>>())));
        }
    }
    Ok(samples)
}

/// The output with the series of each family sorted: everything an exporter may not change about a
/// repeated export of the same state, to the byte.
pub fn normal_form(out: &[u8]) -> Vec<String> {
    let text = String::from_utf8_lossy(out);
    let mut res: Vec<String> = vec![];
    let mut run: Vec<String> = vec![];
    for l in text.split_inclusive('\n') {
        if l.starts_with('#') || l.trim_matches(['\n', ' ']).is_empty() {
            run.sort();
            res.append(&mut run);
            res.push(l.to_string());
        } else {
            run.push(l.to_string());
        }
    }
    run.sort();
    res.append(&mut run);
    res
}
