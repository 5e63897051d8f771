//! C22: metric and label names are validated and composed exactly.
use std::io::{self, Write};
use std::sync::Arc;

use measured::label::{ComposedGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, NoLabels};
use measured::metric::counter::CounterState;
use measured::metric::group::{Encoding, MetricGroup, MetricValue};
use measured::metric::histogram::Thresholds;
use measured::metric::name::{Bucket, Count, MetricName, MetricNameEncoder, Suffix, Sum, Total, WithNamespace};
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::text::{BufferedTextEncoder, MetricType, TextEncoder};
use measured::{Counter, Histogram, LabelGroup};
use vh::prom;
use vh::reg::{any_name, CustomSuffix, Name, NameFn};
use vh::report::{bounded, catch, run};
use vh::{Ctx, Report, Rng};

fn ok_metric(s: &str) -> bool {
    let mut it = s.chars();
    let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c == ':';
    it.next().is_some_and(first) && it.all(|c| first(c) || c.is_ascii_digit())
}
fn ok_label(s: &str) -> bool {
    let mut it = s.chars();
    let first = |c: char| c.is_ascii_alphabetic() || c == '_';
    it.next().is_some_and(first) && it.all(|c| first(c) || c.is_ascii_digit())
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

/// counts what it is given
#[derive(Default)]
struct Sink(Vec<u8>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // one byte at a time: names must not assume whole writes
        let n = b.len().min(1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn encoded(n: &(impl MetricNameEncoder + ?Sized)) -> (String, usize) {
    let mut s = Sink::default();
    n.encode_utf8(&mut s).expect("the sink never fails");
    (String::from_utf8_lossy(&s.0).into_owned(), n.encode_len())
}

/// a group that exports nothing
struct EmptyGroup;
impl<E: Encoding> MetricGroup<E> for EmptyGroup {
    fn collect_group_into(&self, _: &mut E) -> Result<(), E::Err> {
        Ok(())
    }
}

struct One(Vec<(String, String)>);
impl LabelGroupVisitor for One {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        struct V;
        impl LabelVisitor for V {
            type Output = String;
            fn write_int(self, x: i64) -> String {
                x.to_string()
            }
            fn write_float(self, x: f64) -> String {
                format!("{x:?}")
            }
            fn write_str(self, x: &str) -> String {
                x.into()
            }
        }
        self.0.push((name.as_str().into(), x.visit(V)));
    }
}

/// every way of constructing a name accepts exactly the grammar
fn validate(rep: &mut Report, s: &str, all: bool) {
    rep.eval();
    let (m, l) = (ok_metric(s), ok_label(s));
    let t = MetricName::try_from_str(s);
    rep.check(t.is_ok() == m, || format!("MetricName::try_from_str({s:?}) {}", if m { "is refused" } else { "is accepted" }));
    if let Ok(n) = t {
        let (e, len) = encoded(n);
        rep.check(e == s && len == s.len(), || format!("name {s:?} encodes as {e:?} with length {len}"));
        let (e, len) = encoded(&n.by_ref());
        rep.check(e == s && len == s.len(), || format!("reference to name {s:?} encodes as {e:?} with length {len}"));
    } else if let Err(e) = t {
        rep.check(!e.to_string().is_empty(), || "empty error message".into());
    }
    let lab = catch(|| LabelName::from_str(s).as_str().to_owned());
    rep.check(lab.is_ok() == l, || format!("LabelName::from_str({s:?}) {}", if l { "is refused" } else { "is accepted" }));
    if let Ok(x) = lab {
        rep.check(x == s, || format!("label name {s:?} reads back as {x:?}"));
    }
    if all {
        let st = leak(s);
        let a = catch(|| encoded(&MetricName::from_str(st)));
        rep.check(a.is_ok() == m, || format!("MetricName::from_str({s:?}) {}", if m { "is refused" } else { "is accepted" }));
        if let Ok((e, len)) = a {
            rep.check(e == s && len == s.len(), || format!("name {s:?} encodes as {e:?} with length {len}"));
        }
        let base = MetricName::from_str("base");
        let b = catch(|| encoded(&base.in_namespace(st)));
        rep.check(b.is_ok() == m, || format!("in_namespace({s:?}) {}", if m { "is refused" } else { "is accepted" }));
        if let Ok((e, len)) = b {
            rep.check(e == format!("{s}_base") && len == e.len(), || format!("base in namespace {s:?} encodes as {e:?} with length {len}"));
        }
        let c = catch(|| encoded(&WithNamespace::new(st, base)));
        rep.check(c.is_ok() == m, || format!("WithNamespace::new({s:?}) {}", if m { "is refused" } else { "is accepted" }));
        // as namespace of a metric group
        let d = catch(|| {
            struct G(Counter);
            impl<E: Encoding> MetricGroup<E> for G
            where
                CounterState: MetricEncoding<E>,
            {
                fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
                    self.0.collect_family_into(MetricName::from_str("base"), enc)
                }
            }
            let g = WithNamespace::new(st, G(Counter::new()));
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = g.collect_group_into(&mut e);
            e.finish()
        });
        rep.check(d.is_ok() == m, || format!("namespace {s:?} of a group {}", if m { "is refused" } else { "is accepted" }));
        if let Ok(out) = d {
            let want = format!("# TYPE {s}_base counter\n{s}_base 0\n");
            rep.check(out == want, || format!("group in namespace {s:?} exports {out:?}"));
        }
    }
    rep.distinct(s.as_bytes());
    rep.count(if m { "valid metric names" } else { "invalid metric names" }, 1);
    rep.count(if l { "valid label names" } else { "invalid label names" }, 1);
}

fn exhaustive(ctx: &Ctx, rep: &mut Report) {
    validate(rep, "", true);
    // every 1-byte name, every 2-char combination of all ASCII
    for a in 0..128u8 {
        validate(rep, std::str::from_utf8(&[a]).unwrap(), true);
        if ctx.small {
            continue;
        }
        for b in 0..128u8 {
            validate(rep, std::str::from_utf8(&[a, b]).unwrap(), false);
        }
    }
    if ctx.small {
        return;
    }
    // every 3-char combination over one representative (and the neighbours) of each class
    let alpha = b"az`{AZ@[09/:;_^ -.\x7f\0";
    for a in alpha {
        for b in alpha {
            for c in alpha {
                validate(rep, std::str::from_utf8(&[*a, *b, *c]).unwrap(), false);
            }
        }
    }
    // every non-ASCII scalar below U+0800 and samples above, in each position
    for c in (0x80..0x800u32).chain((0x800..0x110000).step_by(997)) {
        let Some(c) = char::from_u32(c) else { continue };
        validate(rep, &format!("{c}"), false);
        validate(rep, &format!("a{c}"), false);
        validate(rep, &format!("a{c}b"), false);
    }
}

struct Enc;
impl NameFn for Enc {
    type Out = (String, usize);
    fn call(self, n: impl MetricNameEncoder) -> (String, usize) {
        encoded(&n)
    }
}

/// static nesting in every order
/// parts of composed names: mostly short; the long ones are made once, since they are leaked
fn part(r: &mut Rng) -> &'static str {
    static LONG: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let long = LONG.get_or_init(|| [127, 128, 200, 255, 256, 300, 4095, 4096, 16_383, 16_384, 65_534, 65_535, 65_536, 70_000, 300_000].iter().map(|n| leak(&"ab_c1:".chars().cycle().take(*n).collect::<String>())).collect());
    if !cfg!(miri) && r.chance(1, 30) {
        return *r.pick(long);
    }
    leak(&r.metric_name())
}

fn compose(rep: &mut Report, r: &mut Rng) {
    let a = part(r);
    let b = part(r);
    let c = part(r);
    let n = part(r);
    let base = MetricName::from_str(n);
    let s = CustomSuffix(["_s", "", "_bytes_total", "x"][r.below(4)]);
    let ss = s.0;
    let mut t = |got: (String, usize), want: String| {
        rep.eval();
        rep.check(got.0 == want, || format!("composed name is {:?}, expected {want:?}", got.0));
        rep.check(got.1 == want.len(), || format!("announced length of {want:?} is {}, {} bytes are written", got.1, want.len()));
        rep.distinct(want.as_bytes());
    };
    t(encoded(&base.with_suffix(Total)), format!("{n}_total"));
    t(encoded(&base.with_suffix(Count)), format!("{n}_count"));
    t(encoded(&base.with_suffix(Sum)), format!("{n}_sum"));
    t(encoded(&base.with_suffix(Bucket)), format!("{n}_bucket"));
    t(encoded(&base.with_suffix(CustomSuffix(ss))), format!("{n}{ss}"));
    t(encoded(&base.in_namespace(a)), format!("{a}_{n}"));
    t(encoded(&WithNamespace::new(a, base.in_namespace(b))), format!("{a}_{b}_{n}"));
    t(encoded(&WithNamespace::new(a, WithNamespace::new(b, base.in_namespace(c)))), format!("{a}_{b}_{c}_{n}"));
    t(encoded(&base.in_namespace(a).with_suffix(Total)), format!("{a}_{n}_total"));
    t(encoded(&WithNamespace::new(a, base.with_suffix(Total))), format!("{a}_{n}_total"));
    t(encoded(&WithNamespace::new(a, WithNamespace::new(b, base.with_suffix(CustomSuffix(ss))).with_suffix(Sum))), format!("{a}_{b}_{n}{ss}_sum"));
    t(encoded(&MetricNameEncoder::with_suffix(base.with_suffix(Total), Count)), format!("{n}_total_count"));
    t(encoded(&(&&base.in_namespace(a)).by_ref().with_suffix(Bucket)), format!("{a}_{n}_bucket"));
    // suffixes on their own
    fn sfx(s: impl Suffix) -> (String, usize) {
        let mut k = Sink::default();
        s.encode_text(&mut k).expect("the sink never fails");
        (String::from_utf8(k.0).unwrap(), s.encode_len())
    }
    t(sfx(Total), "_total".into());
    t(sfx(Count), "_count".into());
    t(sfx(Sum), "_sum".into());
    t(sfx(Bucket), "_bucket".into());
    let nm: Name = any_name(r, false);
    t(nm.with(Enc), nm.text());
}

struct H<'a> {
    help: &'a str,
    hist: bool,
    ns: &'a [&'static str],
}
impl NameFn for H<'_> {
    type Out = Vec<u8>;
    fn call(self, n: impl MetricNameEncoder) -> Vec<u8> {
        struct G<'a, N>(&'a N, &'a str, bool, Counter, Histogram<2>);
        impl<E: Encoding, N: MetricNameEncoder> MetricGroup<E> for G<'_, N>
        where
            CounterState: MetricEncoding<E>,
            measured::metric::histogram::HistogramState<2>: MetricEncoding<E>,
        {
            fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
                enc.write_help(self.0, self.1)?;
                if self.2 {
                    self.4.collect_family_into(self.0, enc)
                } else {
                    self.3.collect_family_into(self.0, enc)
                }
            }
        }
        let g = G(&n, self.help, self.hist, Counter::new(), Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])));
        let mut e = BufferedTextEncoder::new();
        match self.ns {
            [] => g.collect_group_into(&mut e).unwrap(),
            [a] => WithNamespace::new(a, g).collect_group_into(&mut e).unwrap(),
            [a, b] => WithNamespace::new(a, WithNamespace::new(b, Arc::new(g))).collect_group_into(&mut e).unwrap(),
            [a, b, c] => {
                WithNamespace::new(a, ComposedGroup(WithNamespace::new(b, WithNamespace::new(c, &g)), None::<EmptyGroup>)).collect_group_into(&mut e).unwrap()
            }
            _ => unreachable!(),
        }
        e.finish().to_vec()
    }
}

/// the exported lines carry exactly the composed name
fn exported(rep: &mut Report, r: &mut Rng) {
    let hist = r.chance(1, 3);
    let nm = any_name(r, hist);
    let depth = r.below(4);
    let ns: Vec<&'static str> = (0..depth).map(|_| ["app", "http", "x_y", "A:", "_", "n9"][r.below(6)]).collect();
    let out = nm.with(H { help: "some help", hist, ns: &ns });
    let full = ns.iter().map(|s| format!("{s}_")).collect::<String>() + &nm.text();
    rep.eval();
    let f = match prom::families(&out) {
        Ok(f) => f,
        Err(e) => rep.violation(format!("{e}\n{}", String::from_utf8_lossy(&out))),
    };
    rep.check(f.len() == 1 && f[0].name == full && f[0].help.is_some(), || format!("exported as {f:?}, expected family {full:?}"));
    let want: Vec<String> = if hist {
        vec![format!("{full}_bucket"), format!("{full}_bucket"), format!("{full}_bucket"), format!("{full}_sum"), format!("{full}_count")]
    } else {
        vec![full.clone()]
    };
    let got: Vec<String> = f[0].samples.iter().map(|s| s.name.clone()).collect();
    rep.check(got == want, || format!("sample names {got:?}, expected {want:?}"));
    rep.distinct(&out);
    rep.sample(|| String::from_utf8_lossy(&out).into_owned());
}

/// lower level entry points write the same names
fn low_level(rep: &mut Report, r: &mut Rng) {
    let nm = any_name(r, false);
    struct T(MetricType);
    impl NameFn for T {
        type Out = Vec<u8>;
        fn call(self, n: impl MetricNameEncoder) -> Vec<u8> {
            let mut e = TextEncoder::new(vec![]);
            e.write_help(&n, "h").unwrap();
            e.write_type(&n, self.0).unwrap();
            CounterState::new(3).collect_into(&(), NoLabels, &n, &mut e).unwrap();
            e.writer
        }
    }
    for (t, s) in [
        (MetricType::Counter, "counter"),
        (MetricType::Gauge, "gauge"),
        (MetricType::Histogram, "histogram"),
        (MetricType::Summary, "summary"),
        (MetricType::Untyped, "untyped"),
    ] {
        let out = String::from_utf8(nm.with(T(t))).unwrap();
        let n = nm.text();
        rep.check(out == format!("# HELP {n} h\n# TYPE {n} {s}\n{n} 3\n"), || format!("low level calls wrote {out:?} for {n:?}"));
    }
    let _ = MetricValue::Int(1);
}

struct Labelled(Vec<String>);
impl LabelGroup for Labelled {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for n in &self.0 {
            v.write_value(LabelName::from_str(n), &n.as_str());
        }
    }
}

fn labels(rep: &mut Report, r: &mut Rng) {
    let k = r.range(1, 5);
    let names: Vec<String> = (0..k).map(|_| r.label_name()).collect();
    let g = Labelled(names.clone()).compose_with(NoLabels).compose_with(Labelled(vec!["tail".into()]));
    let mut o = One(vec![]);
    g.visit_values(&mut o);
    let mut want: Vec<(String, String)> = names.iter().map(|n| (n.clone(), n.clone())).collect();
    want.push(("tail".into(), "tail".into()));
    rep.check(o.0 == want, || format!("labels {:?}, expected {want:?}", o.0));
    let mut e = TextEncoder::new(vec![]);
    CounterState::new(1).collect_into(&(), g.by_ref(), MetricName::from_str("m"), &mut e).unwrap();
    let line = String::from_utf8(e.writer).unwrap();
    match prom::parse_sample(line.trim_end_matches('\n')) {
        Ok(s) => rep.check(s.labels == want, || format!("labels exported as {:?}, expected {want:?}", s.labels)),
        Err(x) => rep.violation(format!("{x} in {line:?}")),
    }
    rep.eval();
}

/// random longer strings: valid names with one character replaced
fn mutants(rep: &mut Report, r: &mut Rng) {
    let mut s: Vec<char> = match r.below(4) {
        0 => r.label_name().chars().collect(),
        1 => {
            let mut x = r.metric_name();
            while x.len() < 40 {
                x.push_str(&r.metric_name());
            }
            x.chars().collect()
        }
        2 => r.any_string(4).chars().collect(),
        _ => r.metric_name().chars().collect(),
    };
    if r.chance(1, 15) {
        // long ones, valid but for what follows
        let unit: Vec<char> = r.metric_name().replace(':', "_").chars().collect();
        let n = *r.pick(&[60, 130, 260, 520, 1100, 4100, 9000]) + r.below(10);
        s = unit.iter().cycle().take(n).copied().collect();
        rep.count("long names (60 to 9000 bytes)", 1);
    }
    if !s.is_empty() && r.chance(1, 2) {
        let i = r.below(s.len());
        s[i] = match r.below(3) {
            0 => (r.below(128) as u8) as char,
            1 => *r.pick(&['-', '.', '@', '[', '`', '{', '/', ';', ' ', '\n', 'é', 'Ａ', '٣', '²', 'ſ', '\u{212a}']),
            _ => char::from_u32(r.below(0xd800) as u32).unwrap_or('a'),
        };
    }
    if r.chance(1, 4) {
        s.insert(0, (b'0' + r.below(10) as u8) as char);
    }
    let s: String = s.into_iter().collect();
    let all = r.chance(1, if s.len() > 50 { 3 } else { 20 });
    validate(rep, &s, all);
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct candidate name with its acceptance judged, or a distinct composed name with its length";
        exhaustive(ctx, rep);
        let mut r = ctx.rng(22);
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 5) {
            i += 1;
            bounded(|| mutants(rep, &mut r));
            bounded(|| compose(rep, &mut r));
            bounded(|| exported(rep, &mut r));
            bounded(|| low_level(rep, &mut r));
            bounded(|| labels(rep, &mut r));
        }
    })
}
