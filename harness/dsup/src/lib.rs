//! What the generated programs (lib/gen.py) call: the judging of derived enums, label groups and
//! metric groups against the models the generator wrote next to them.
use std::fmt::Debug;

use measured::label::{
    FixedCardinalityLabel, FixedCardinalitySet, LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelTestVisitor,
    LabelValue, LabelVisitor, StaticLabelSet,
};
use measured::metric::counter::CounterState;
use measured::metric::group::MetricGroup;
use measured::metric::name::MetricName;
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::CounterVec;
use measured_prometheus_protobuf::ProtoEncoder;
use vh::prom::{self, parse_number};
use vh::report::Report;

/// text of a label value, by a visitor of ours
struct Seen;
impl LabelVisitor for Seen {
    type Output = String;
    fn write_int(self, x: i64) -> String {
        x.to_string()
    }
    fn write_float(self, x: f64) -> String {
        format!("float {x}")
    }
    fn write_str(self, x: &str) -> String {
        x.to_string()
    }
}

#[derive(Default)]
pub struct Visited(pub Vec<(String, String)>);
impl LabelGroupVisitor for Visited {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        self.0.push((name.as_str().to_string(), x.visit(Seen)));
    }
}
pub fn visited(g: &impl LabelGroup) -> Vec<(String, String)> {
    let mut v = Visited::default();
    g.visit_values(&mut v);
    v.0
}

/// labels of the one sample this group is exported with
pub fn exported(g: &impl LabelGroup) -> Result<Vec<(String, String)>, String> {
    let mut e = TextEncoder::new(vec![]);
    CounterState::new(1).collect_into(&(), g.by_ref(), MetricName::from_str("m"), &mut e).map_err(|e| e.to_string())?;
    let line = String::from_utf8(e.writer).map_err(|e| e.to_string())?;
    prom::parse_sample(line.trim_end_matches('\n')).map(|s| s.labels).map_err(|e| format!("{e} in {line:?}"))
}

struct One<'a, T>(&'a T);
impl<T: LabelValue> LabelGroup for One<'_, T> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("one"), self.0);
    }
}

pub type Strs = &'static [(&'static str, &'static str)];
fn owned(x: &[(&str, &str)]) -> Vec<(String, String)> {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub struct Judge<'a> {
    pub rep: &'a mut Report,
    pub src: &'static str,
}

impl Judge<'_> {
    fn fail(&mut self, m: String) -> ! {
        let src = self.src;
        self.rep.violation(format!("{m}\nin the program\n{src}"))
    }
    fn want<T: PartialEq + Debug>(&mut self, what: impl Fn() -> String, got: T, want: T) {
        self.rep.eval();
        if got != want {
            let m = format!("{}: {got:?}, expected {want:?}", what());
            self.fail(m);
        }
    }

    /// `all` are the variants in declaration order, `texts` what they render as
    pub fn label_enum<T: FixedCardinalityLabel + Copy + PartialEq + Debug>(&mut self, all: &[T], texts: &[&str]) {
        let n = all.len();
        self.want(|| "cardinality()".into(), T::cardinality(), n);
        let set = StaticLabelSet::<T>::new();
        self.want(|| "cardinality of the set".into(), FixedCardinalitySet::cardinality(&set), n);
        self.want(|| "dynamic cardinality of the set".into(), set.dynamic_cardinality(), Some(n));
        for (i, (v, t)) in all.iter().zip(texts).enumerate() {
            self.want(|| format!("{v:?}.encode()"), v.encode(), i);
            self.want(|| format!("decode({i})"), T::decode(i), *v);
            self.want(|| format!("the set's encoding of {v:?}"), LabelSet::encode(&set, *v), Some(i));
            self.want(|| format!("the set's decode({i})"), LabelSet::decode(&set, i), *v);
            self.want(|| format!("{v:?} visits as"), v.visit(Seen), t.to_string());
            self.want(|| format!("{v:?} visits as (LabelTestVisitor)"), v.visit(LabelTestVisitor), t.to_string());
            self.want(|| format!("{v:?} is exported as"), exported(&One(v)), Ok(vec![("one".into(), t.to_string())]));
            self.rep.distinct(format!("{} {i} {t}", self.src).as_bytes());
            self.rep.count("variants judged", 1);
        }
        self.rep.count("enums judged", 1);
        let src = self.src;
        self.rep.sample(|| format!("{src} => {texts:?}"));
    }

    /// an enum that is a label group of its own
    pub fn singleton<T: FixedCardinalityLabel + LabelGroup + Copy + PartialEq + Debug>(&mut self, all: &[T], name: &str, texts: &[&str]) {
        let vec = CounterVec::<StaticLabelSet<T>>::new();
        self.want(|| "cardinality of the group set".into(), LabelGroupSet::cardinality(&StaticLabelSet::<T>::new()), Some(all.len()));
        for (i, (v, t)) in all.iter().zip(texts).enumerate() {
            let want = vec![(name.to_string(), t.to_string())];
            self.want(|| format!("labels of the group {v:?}"), visited(v), want.clone());
            self.want(|| format!("exported labels of the group {v:?}"), exported(v), Ok(want));
            vec.inc_by(*v, i as u64 + 1);
        }
        let mut e = BufferedTextEncoder::new();
        let Ok(()) = vec.collect_family_into(MetricName::from_str("single"), &mut e);
        let got: Result<Vec<_>, String> = prom::families(&e.finish())
            .map(|f| f.into_iter().flat_map(|f| f.samples).map(|s| (s.labels, s.raw)).collect::<Vec<_>>());
        let mut want: Vec<_> = texts.iter().enumerate().map(|(i, t)| (vec![(name.to_string(), t.to_string())], (i + 1).to_string())).collect();
        let got = match got {
            Ok(mut g) => {
                g.sort();
                g
            }
            Err(e) => self.fail(format!("the exposition of the singleton vec is malformed: {e}")),
        };
        want.sort();
        self.want(|| "series of the singleton vec".into(), got, want);
        self.rep.count("singleton enums judged", 1);
    }
}

/// How to judge a derived label group; the closures are in the generated program.
pub struct GroupSpec {
    /// label names in declaration order
    pub names: &'static [&'static str],
    /// product of the cardinalities, `None` if a field is dynamic
    pub cardinality: Option<usize>,
}

impl Judge<'_> {
    /// `make(i)` builds the i-th label group, `texts[i]` are its values in declaration order.
    /// The groups are pairwise different.
    pub fn label_group<S: LabelGroupSet>(&mut self, spec: &GroupSpec, set: S, texts: &[&[&str]], make: impl for<'a> Fn(&'a (), usize) -> S::Group<'a>) {
        self.want(|| "cardinality of the set".into(), set.cardinality(), spec.cardinality);
        let mut want = vec![];
        let mut ids: Vec<(S::Unique, usize)> = vec![];
        for (i, t) in texts.iter().enumerate() {
            let labels: Vec<(String, String)> = spec.names.iter().zip(t.iter()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            self.want(|| format!("labels of group {i}"), visited(&make(&(), i)), labels.clone());
            self.want(|| format!("exported labels of group {i}"), exported(&make(&(), i)), Ok(labels.clone()));
            let Some(u) = set.encode(make(&(), i)) else { self.fail(format!("the group {labels:?} has no encoding")) };
            self.want(|| format!("decoded labels of group {i}"), visited(&set.decode(&u)), labels.clone());
            if let Some((_, j)) = ids.iter().find(|(x, _)| *x == u) {
                let m = format!("groups {:?} and {labels:?} have the same encoding", texts[*j]);
                self.fail(m);
            }
            if let Some(c) = spec.cardinality {
                match set.encode_dense(u) {
                    Some(d) if d < c => {
                        self.want(|| format!("dense decoding of group {i}"), visited(&set.decode_dense(d)), labels.clone());
                    }
                    d => self.fail(format!("dense index {d:?} of {labels:?} with cardinality {c}")),
                }
            }
            ids.push((u, i));
            want.push((labels, (i as u64 * 7 + 1).to_string()));
            self.rep.distinct(format!("{} {t:?}", self.src).as_bytes());
            self.rep.count("label groups judged", 1);
        }
        let vec = CounterVec::<S>::with_label_set(set);
        for i in 0..texts.len() {
            vec.inc_by(make(&(), i), i as u64 * 7 + 1);
        }
        let mut e = BufferedTextEncoder::new();
        let Ok(()) = vec.collect_family_into(MetricName::from_str("derived"), &mut e);
        let mut got: Vec<_> = match prom::families(&e.finish()) {
            Ok(f) => f.into_iter().flat_map(|f| f.samples).map(|s| (s.labels, s.raw)).collect(),
            Err(e) => self.fail(format!("the exposition of the vec is malformed: {e}")),
        };
        got.sort();
        want.sort();
        self.want(|| "exported series".into(), got, want);
        self.rep.count("derived label group types judged", 1);
        let src = self.src;
        self.rep.sample(|| src.to_string());
    }
    /// the value is not in the runtime-fixed set of a field
    pub fn no_encoding<S: LabelGroupSet>(&mut self, set: &S, g: S::Group<'_>) {
        let l = visited(&g);
        let r = set.encode(g).is_none();
        self.want(|| format!("encoding of {l:?} (a value outside its set) is None"), r, true);
    }
}

/// A fixed set with a default, for `fixed_with` and `default`
#[derive(Debug)]
pub struct Words(pub &'static [&'static str]);
impl Default for Words {
    fn default() -> Self {
        Words(&["w0", "w1", "w2"])
    }
}
impl LabelSet for Words {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn encode(&self, value: &str) -> Option<usize> {
        self.0.iter().position(|w| *w == value)
    }
    fn decode(&self, value: usize) -> &str {
        self.0[value]
    }
}
impl FixedCardinalitySet for Words {
    fn cardinality(&self) -> usize {
        self.0.len()
    }
}

pub fn rodeo(xs: &[&'static str]) -> lasso::RodeoReader {
    xs.iter().copied().collect::<lasso::Rodeo>().into_reader()
}

/// a writer whose bytes stay reachable
#[derive(Clone, Default)]
pub struct Out(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// What one metric of a group must export.
#[derive(Debug, Clone)]
pub enum Want {
    /// type, (labels, value as an f64)
    Plain(&'static str, Vec<(Vec<(String, String)>, f64)>),
    /// bounds, (labels, observations)
    Hist(Vec<f64>, Vec<(Vec<(String, String)>, Vec<f64>)>),
}
#[derive(Debug, Clone)]
pub struct WantFam {
    pub name: String,
    pub help: Option<String>,
    pub want: Want,
}
pub fn plain(name: &str, help: Option<&str>, typ: &'static str, series: &[(&[(&str, &str)], f64)]) -> WantFam {
    WantFam {
        name: name.into(),
        help: help.map(Into::into),
        want: Want::Plain(typ, series.iter().map(|(l, v)| (owned(l), *v)).collect()),
    }
}
pub fn hist(name: &str, help: Option<&str>, bounds: &[f64], series: &[(&[(&str, &str)], &[f64])]) -> WantFam {
    WantFam {
        name: name.into(),
        help: help.map(Into::into),
        want: Want::Hist(bounds.to_vec(), series.iter().map(|(l, v)| (owned(l), v.to_vec())).collect()),
    }
}
/// what the group exports inside a namespace
pub fn prefixed(p: &str, want: &[WantFam]) -> Vec<WantFam> {
    want.iter().map(|f| WantFam { name: format!("{p}{}", f.name), ..f.clone() }).collect()
}
impl WantFam {
    fn empty(&self) -> bool {
        match &self.want {
            Want::Plain(_, s) => s.is_empty(),
            Want::Hist(_, s) => s.is_empty(),
        }
    }
    /// the series a family with samples must have, sorted
    fn text_ok(&self, f: &prom::Family) -> Result<(), String> {
        match &self.want {
            Want::Plain(t, s) => {
                if f.typ.as_deref() != Some(*t) {
                    return Err(format!("type {:?}, expected {t}", f.typ));
                }
                let mut got = vec![];
                for s in &f.samples {
                    got.push((s.labels.clone(), parse_number(&s.raw).ok_or("number")?));
                }
                let mut want = s.clone();
                let key = |x: &(Vec<(String, String)>, f64)| format!("{x:?}");
                got.sort_by_key(key);
                want.sort_by_key(key);
                if got != want {
                    return Err(format!("series {got:?}, expected {want:?}"));
                }
            }
            Want::Hist(b, s) => {
                if f.typ.as_deref() != Some("histogram") {
                    return Err(format!("type {:?}, expected histogram", f.typ));
                }
                let mut left: Vec<_> = s.iter().collect();
                for h in prom::histograms(f)? {
                    let Some(k) = left.iter().position(|w| w.0 == h.labels) else {
                        return Err(format!("unexpected series {:?}", h.labels));
                    };
                    let (_, obs) = left.remove(k);
                    let mut want: Vec<(f64, u64)> =
                        b.iter().map(|b| (*b, obs.iter().filter(|o| *o <= b).count() as u64)).collect();
                    if b.last() != Some(&f64::INFINITY) {
                        want.push((f64::INFINITY, obs.len() as u64));
                    }
                    let got: Vec<(f64, u64)> = h.buckets.iter().map(|(b, c)| (parse_number(b).unwrap_or(f64::NAN), *c)).collect();
                    if got != want || h.count != obs.len() as u64 || parse_number(&h.sum) != Some(obs.iter().sum()) {
                        return Err(format!("histogram {h:?}, expected buckets {want:?} of observations {obs:?}"));
                    }
                }
                if !left.is_empty() {
                    return Err(format!("series missing: {left:?}"));
                }
            }
        }
        Ok(())
    }
}

impl Judge<'_> {
    pub fn text_group(&mut self, what: &str, g: &impl MetricGroup<BufferedTextEncoder>, want: &[WantFam]) {
        let mut e = BufferedTextEncoder::new();
        let Ok(()) = g.collect_group_into(&mut e);
        let bytes = e.finish();
        self.text_bytes(what, &bytes, want);
    }
    pub fn text_writer_group(&mut self, what: &str, g: &impl MetricGroup<TextEncoder<Vec<u8>>>, want: &[WantFam]) {
        let mut e = TextEncoder::new(vec![]);
        if let Err(e) = g.collect_group_into(&mut e) {
            self.fail(format!("{what}: {e}"));
        }
        let bytes = std::mem::take(&mut e.writer);
        self.text_bytes(what, &bytes, want);
    }
    fn text_bytes(&mut self, what: &str, bytes: &[u8], want: &[WantFam]) {
        let show = String::from_utf8_lossy(bytes).into_owned();
        let got = match prom::families(bytes) {
            Ok(f) => f,
            Err(e) => self.fail(format!("{what}: malformed exposition: {e}\n{show}")),
        };
        for f in got.iter().filter(|f| f.samples.is_empty()) {
            match want.iter().find(|w| w.name == f.name) {
                None => self.fail(format!("{what}: header of a family {:?} the group does not have\n{show}", f.name)),
                Some(w) if f.help.is_some() && f.help.clone().unwrap_or_default() != w.help.clone().unwrap_or_default() => {
                    self.fail(format!("{what}: help of {:?} is {:?}, expected {:?}\n{show}", f.name, f.help, w.help))
                }
                _ => {}
            }
        }
        let got: Vec<_> = got.into_iter().filter(|f| !f.samples.is_empty()).collect();
        let want: Vec<_> = want.iter().filter(|f| !f.empty()).collect();
        let a: Vec<_> = got.iter().map(|f| f.name.clone()).collect();
        let b: Vec<_> = want.iter().map(|f| f.name.clone()).collect();
        self.want(|| format!("{what}: families with samples, in order\n{show}"), a, b);
        for (g, w) in got.iter().zip(&want) {
            if g.help.clone().unwrap_or_default() != w.help.clone().unwrap_or_default() {
                self.fail(format!("{what}: help of {:?} is {:?}, expected {:?}", g.name, g.help, w.help));
            }
            if let Err(m) = w.text_ok(g) {
                self.fail(format!("{what}: family {:?}: {m}\n{show}", g.name));
            }
            self.rep.eval();
            self.rep.count("families judged", 1);
            self.rep.distinct(format!("{} {w:?}", self.src).as_bytes());
        }
        self.rep.count("expositions judged", 1);
        let src = self.src;
        self.rep.sample(|| src.to_string());
    }
    pub fn proto_group(&mut self, what: &str, g: &impl MetricGroup<ProtoEncoder<Out>>, want: &[WantFam]) {
        let out = Out::default();
        let mut e = ProtoEncoder::new(out.clone());
        if let Err(e) = g.collect_group_into(&mut e).and_then(|()| e.flush()) {
            self.fail(format!("{what}: {e}"));
        }
        let got = match vh_proto::decode(&out.0.borrow()) {
            Ok(f) => f,
            Err(e) => self.fail(format!("{what}: malformed protobuf: {e}")),
        };
        let want: Vec<_> = want.iter().filter(|f| !f.empty()).collect();
        let a: Vec<_> = got.iter().map(|f| f.name.clone().unwrap_or_default()).collect();
        let b: Vec<_> = want.iter().map(|f| f.name.clone()).collect();
        self.want(|| format!("{what}: protobuf families, in order"), a, b);
        for (g, w) in got.iter().zip(&want) {
            let Want::Plain(t, s) = &w.want else { continue };
            if g.help.clone().unwrap_or_default() != w.help.clone().unwrap_or_default() {
                self.fail(format!("{what}: protobuf help of {:?} is {:?}, expected {:?}", g.name, g.help, w.help));
            }
            let mut x: Vec<_> = g.metrics.iter().map(|m| format!("{} {:?} {:?}", m.kind, m.labels, m.value)).collect();
            let mut y: Vec<_> = s.iter().map(|(l, v)| format!("{t} {l:?} {v:?}")).collect();
            x.sort();
            y.sort();
            self.want(|| format!("{what}: protobuf metrics of {:?}", w.name), x, y);
            self.rep.count("protobuf families judged", 1);
        }
    }
}
