//! Protobuf exposition of random registries. Phases: C24 decoding, C17 help, C20 reuse, C21 faults,
//! C25 agreement of all encoders under every wrapping.
use std::io::{self, Write};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;

use bytes::BufMut;
use measured::metric::group::{ComposedGroup, MetricGroup};
use measured::metric::name::WithNamespace;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use vh::reg::*;
use vh::report::{bounded, run};
use vh::{Ctx, Report, Rng};
use vh_proto::{check_proto, complete, normal};

type R0 = Reg<NoHists>;

/// families whose strings have the lengths at which length prefixes change size
fn long_fam(r: &mut Rng) -> Fam {
    let lens = [0usize, 1, 100, 110, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 250, 16370, 16380, 16383, 16384, 16385, 20000, 300_000];
    let big = r.chance(1, 40);
    let mut len = |r: &mut Rng| {
        let mut l = *r.pick(&lens);
        if l > 200 && !r.chance(1, 4) {
            l = r.below(135);
        }
        if big && r.chance(1, 2) {
            l = (1 << 21) - 40 + r.below(60);
        }
        l
    };
    let s = |n: usize, c: char| -> String { std::iter::repeat(c).take(n).collect() };
    let help = if r.chance(2, 3) { Some(s(len(r), 'h')) } else { None };
    let n = if r.chance(1, 10) { 0 } else { r.range(1, 3) };
    let groups: Vec<AnyGroup> = (0..n)
        .map(|i| {
            let mut l = vec![("i".to_string(), Val::Int(i as i64))];
            for k in 0..r.below(3) {
                let v = s(len(r), 'v');
                l.push((format!("{}{k}", s(1 + r.below(140), 'n')), if r.chance(1, 2) { Val::Str(v) } else { Val::Owned(v) }));
            }
            AnyGroup(l)
        })
        .collect();
    let name = any_name(r, false);
    match r.below(3) {
        0 => {
            let v: Vec<u64> = groups.iter().map(|_| r.any_u64()).collect();
            Fam {
                name,
                help,
                series: groups.iter().cloned().zip(v.iter().map(|x| Value::U(*x))).collect(),
                store: Store::RC(groups.into_iter().zip(v).collect()),
            }
        }
        1 => {
            let v: Vec<i64> = groups.iter().map(|_| r.any_i64()).collect();
            Fam {
                name,
                help,
                series: groups.iter().cloned().zip(v.iter().map(|x| Value::I(*x))).collect(),
                store: Store::RG(groups.into_iter().zip(v).collect()),
            }
        }
        _ => {
            let v: Vec<f64> = groups.iter().map(|_| r.any_f64()).collect();
            Fam {
                name,
                help,
                series: groups.iter().cloned().zip(v.iter().map(|x| Value::F(*x))).collect(),
                store: Store::RF(groups.into_iter().zip(v).collect()),
            }
        }
    }
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(3000)]))
}
fn describe(fams: &[&Fam]) -> String {
    let s: Vec<String> = fams.iter().map(|f| f.describe()).collect();
    let mut s = s.join("\n");
    if s.len() > 3000 {
        let mut i = 3000;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
    }
    s
}
/// a writer that takes a few bytes at a time
struct Dribble(Vec<u8>);
impl Write for Dribble {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(1 + self.0.len() % 7);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn opts(r: &mut Rng) -> Opts {
    Opts { wild_strings: r.chance(1, 2), wild_help: r.chance(1, 2), wild_numbers: r.chance(1, 2), labels: 3, hists: false, max_series: 5, long: true, ..TAME }
}

fn decoding(rep: &mut Report, r: &mut Rng, o: &Opts) {
    let n = r.range(1, 8);
    let mut reg: R0 = any_reg(r, o, n);
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let f = long_fam(r);
            if reg.0.iter().any(|g| g.name.text() == f.name.text()) {
                continue;
            }
            let at = r.below(reg.0.len() + 1);
            reg.0.insert(at, f);
        }
    }
    let all: Vec<&Fam> = reg.0.iter().collect();
    let out = match r.below(3) {
        0 => {
            let mut e = ProtoEncoder::new(Vec::<u8>::new());
            reg.collect_group_into(&mut e).expect("writing to a Vec");
            e.flush().expect("flush");
            e.writer
        }
        1 => {
            let mut e = ProtoEncoder::new(Dribble(vec![]));
            reg.collect_group_into(&mut e).expect("short writes are not errors");
            e.flush().expect("flush");
            e.writer.0
        }
        _ => {
            let mut e = ProtoEncoder::new(bytes::BytesMut::new().writer());
            reg.collect_group_into(&mut &mut e).expect("writing to a BytesMut");
            e.flush().expect("flush");
            e.writer.into_inner().to_vec()
        }
    };
    rep.eval();
    match check_proto(&out, &all, "") {
        Ok(n) => rep.count("metrics decoded", n),
        Err(e) => rep.violation(format!("{e}\nregistry:\n{}\noutput {}", describe(&all), show(&out))),
    }
    rep.count("families exported", all.len() as u64);
    rep.count("families without samples", all.iter().filter(|f| f.series.is_empty()).count() as u64);
    rep.count("bytes", out.len() as u64);
    if out.len() > 1 << 14 {
        rep.count("outputs above 16 KiB", 1);
    }
    if !out.is_empty() {
        rep.distinct(&out);
    }
    rep.sample(|| show(&out));
}

fn export(e: &mut ProtoEncoder<Vec<u8>>, f: &Fam) {
    f.export::<_, NoHists>(e).expect("writing to a Vec");
}
fn reuse(rep: &mut Report, r: &mut Rng) {
    let o = opts(r);
    let n = r.range(1, 6);
    let reg: R0 = any_reg(r, &o, n);
    let all: Vec<&Fam> = reg.0.iter().collect();
    let mut enc = ProtoEncoder::new(Vec::new());
    let mut sig = vec![];
    for round in 0..r.range(2, 7) {
        let mut some: Vec<&Fam> = all.iter().filter(|_| r.chance(2, 3)).copied().collect();
        r.shuffle(&mut some);
        for f in &some {
            export(&mut enc, f);
        }
        enc.flush().expect("flush");
        if r.chance(1, 3) {
            // flushing again adds nothing
            let n = enc.writer.len();
            enc.flush().expect("flush");
            rep.check(enc.writer.len() == n, || format!("a second flush wrote {} more bytes", enc.writer.len() - n));
        }
        rep.eval();
        let got = std::mem::take(&mut enc.writer);
        if let Err(e) = check_proto(&got, &some, "") {
            rep.violation(format!("export {round} through one encoder: {e}\nexported:\n{}\noutput {}", describe(&some), show(&got)));
        }
        let mut fresh = ProtoEncoder::new(Vec::new());
        for f in &some {
            export(&mut fresh, f);
        }
        fresh.flush().expect("flush");
        let (a, b) = (normal(&got), normal(&fresh.writer));
        let same = match (&a, &b) {
            (Ok(a), Ok(b)) => format!("{a:?}") == format!("{b:?}"),
            _ => false,
        };
        rep.check(same, || format!("export {round} through a reused encoder {} differs from a fresh one {}", show(&got), show(&fresh.writer)));
        rep.count("exports through reused encoders", 1);
        sig.extend(got);
        sig.push(0xff);
    }
    rep.distinct(&sig);
    rep.sample(|| show(&sig));
}

// ---------------------------------------------------------------- faults
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Once,
    Forever,
    ShortThenFail,
    Zero,
    Short,
    Interrupted,
}
const FAULTS: [Fault; 6] = [Fault::Once, Fault::Forever, Fault::ShortThenFail, Fault::Zero, Fault::Short, Fault::Interrupted];
struct Faulty {
    out: Vec<u8>,
    calls: usize,
    at: usize,
    fault: Option<Fault>,
    fired: bool,
    flush_fails: bool,
    /// picks the kind of error
    kind: usize,
}
impl Faulty {
    fn new(fault: Option<Fault>, at: usize) -> Self {
        Faulty { out: vec![], calls: 0, at, fault, fired: false, flush_fails: false, kind: KIND.fetch_add(1, std::sync::atomic::Ordering::Relaxed) }
    }
}
/// every writer fails in its own way
static KIND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// an error of any kind there is (but for the one that asks for a retry)
fn the_error(at: usize) -> io::Error {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 16] = [
        Other, BrokenPipe, WouldBlock, TimedOut, ConnectionReset, ConnectionAborted, NotConnected, WriteZero, UnexpectedEof, InvalidInput,
        InvalidData, PermissionDenied, OutOfMemory, Unsupported, AlreadyExists, NotFound,
    ];
    io::Error::new(KINDS[at % KINDS.len()], "vh injected fault")
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.calls;
        self.calls += 1;
        let hit = match self.fault {
            Some(Fault::Once | Fault::Interrupted) => n == self.at,
            Some(_) => n >= self.at,
            None => false,
        };
        let mut all = b;
        let res = match (hit, self.fault) {
            (true, Some(Fault::Once | Fault::Forever)) => Err(the_error(self.kind)),
            (true, Some(Fault::ShortThenFail)) if n == self.at && b.len() > 1 => {
                self.out.extend_from_slice(&b[..b.len() / 2]);
                return Ok(b.len() / 2);
            }
            (true, Some(Fault::ShortThenFail)) => Err(the_error(self.kind)),
            (true, Some(Fault::Zero)) => Ok(0),
            (true, Some(Fault::Short)) => {
                all = &b[..1];
                Ok(1)
            }
            (true, Some(Fault::Interrupted)) => Err(io::ErrorKind::Interrupted.into()),
            _ => {
                self.out.extend_from_slice(b);
                return Ok(b.len());
            }
        };
        self.fired = true;
        if let Ok(1) = res {
            self.out.extend_from_slice(all);
        }
        res
    }
    fn flush(&mut self) -> io::Result<()> {
        if std::mem::take(&mut self.flush_fails) {
            return Err(the_error(self.kind));
        }
        Ok(())
    }
}
fn whole<W: Write>(reg: &R0, e: &mut ProtoEncoder<W>) -> io::Result<()> {
    reg.collect_group_into(e)?;
    e.flush()
}
fn faults(rep: &mut Report, r: &mut Rng) {
    let o = Opts { long: false, ..opts(r) };
    let n = r.range(1, 6);
    let reg: R0 = any_reg(r, &o, n);
    let all: Vec<&Fam> = reg.0.iter().collect();
    let mut clean = ProtoEncoder::new(Faulty::new(None, 0));
    whole(&reg, &mut clean).expect("no fault");
    let want = clean.writer.out;
    if let Err(e) = check_proto(&want, &all, "") {
        rep.violation(format!("fault-free export: {e}"));
    }
    let calls = clean.writer.calls;
    for k in 0..=calls {
        for fault in FAULTS {
            let mut enc = ProtoEncoder::new(Faulty::new(Some(fault), k));
            let Ok(res) = std::panic::catch_unwind(AssertUnwindSafe(|| bounded(|| whole(&reg, &mut enc)))) else { return };
            rep.eval();
            let ctx = |m: String, got: &[u8]| format!("{fault:?} at write {k} of {calls}: {m}\nregistry:\n{}\ngot {}\nfault-free {}", describe(&all), show(got), show(&want));
            let got = std::mem::take(&mut enc.writer.out);
            let benign = matches!(fault, Fault::Short | Fault::Interrupted) || !enc.writer.fired;
            match (&res, benign) {
                (Ok(()), true) => rep.check(format!("{:?}", normal(&got)) == format!("{:?}", normal(&want)), || ctx("the export differs although nothing failed".into(), &got)),
                (Err(e), true) => rep.violation(ctx(format!("a write that did not fail ended the export with {e}"), &got)),
                (Ok(()), false) => rep.violation(ctx("the export reports success".into(), &got)),
                (Err(e), false) => {
                    let right = if fault == Fault::Zero { e.kind() == io::ErrorKind::WriteZero } else { e.get_ref().map(|x| x.to_string()) == Some("vh injected fault".into()) };
                    rep.check(right, || ctx(format!("the export reports another error: {e:?}"), &got));
                }
            }
            if !benign {
                rep.check(want.starts_with(&got), || ctx("what was written is no prefix".into(), &got));
                if k == 0 {
                    rep.count("nothing but a partial first message written", (complete(&got) == 0) as u64);
                }
                rep.count("faults that ended an export", 1);
            } else if enc.writer.fired {
                rep.count("harmless faults", 1);
            }
            // the same encoder into a fresh buffer
            enc.writer = Faulty::new(None, 0);
            let again = whole(&reg, &mut enc);
            rep.check(again.is_ok(), || ctx("the next export into a fresh buffer fails".into(), &got));
            if let Err(e) = check_proto(&enc.writer.out, &all, "") {
                rep.violation(ctx(format!("the next export through the same encoder: {e}"), &enc.writer.out));
            }
            // a fresh encoder: the metrics are untouched
            let mut e2 = ProtoEncoder::new(Faulty::new(None, 0));
            whole(&reg, &mut e2).expect("no fault");
            if let Err(e) = check_proto(&e2.writer.out, &all, "") {
                rep.violation(ctx(format!("a later export through a fresh encoder: {e}"), &e2.writer.out));
            }
            let mut sig = want.clone();
            sig.push(fault as u8);
            sig.extend((k as u32).to_le_bytes());
            rep.distinct(&sig);
        }
    }
    // a failing flush is reported, and the encoder goes on
    let mut enc = ProtoEncoder::new(Faulty::new(None, 0));
    enc.writer.flush_fails = true;
    let res = whole(&reg, &mut enc);
    rep.check(res.is_err_and(|e| e.get_ref().map(|x| x.to_string()) == Some("vh injected fault".into())), || "flush hides the writer's error".into());
    rep.check(want.starts_with(&enc.writer.out), || "what was written before a failed flush is no prefix".into());
    enc.writer = Faulty::new(None, 0);
    whole(&reg, &mut enc).expect("no fault");
    if let Err(e) = check_proto(&enc.writer.out, &all, "") {
        rep.violation(format!("the export after a failed flush: {e}"));
    }
    rep.count("failed flushes", 1);
    rep.sample(|| format!("{calls} writes, each failed in {} ways: {}", FAULTS.len(), show(&want)));
}

// ---------------------------------------------------------------- agreement
const SHAPES: usize = 14;
/// the names a shape puts in front of the first and the second registry; None: it is not exported
fn prefixes(shape: usize) -> [Option<&'static str>; 2] {
    match shape {
        0..=2 => [Some(""), None],
        3 => [Some("app_"), None],
        4 => [Some("outer_inner_"), None],
        5 => [Some(""), Some("")],
        6 => [Some("both_"), Some("both_")],
        7 => [Some("first_"), Some("")],
        8 => [Some(""), None],
        9 => [Some("a_b_c_"), Some("a_x_")],
        10 => [Some("app_"), None],
        11 => [None, Some("q_")],
        12 => [Some(""), Some("n_")],
        _ => [Some("o_"), Some("o_i_")],
    }
}
macro_rules! shape {
    ($shape:expr, $a:expr, $b:expr, $enc:expr) => {{
        let (a, b) = ($a, $b);
        let enc = $enc;
        match $shape {
            0 => (**a).collect_group_into(enc),
            1 => (&&&**a).collect_group_into(enc),
            2 => Arc::clone(a).collect_group_into(enc),
            3 => WithNamespace::new("app", a).collect_group_into(enc),
            4 => WithNamespace::new("outer", WithNamespace::new("inner", &**a)).collect_group_into(enc),
            5 => ComposedGroup(Arc::clone(a), &**b).collect_group_into(enc),
            6 => WithNamespace::new("both", ComposedGroup(a, b)).collect_group_into(enc),
            7 => ComposedGroup(WithNamespace::new("first", a), b).collect_group_into(enc),
            8 => ComposedGroup(Some(a), None::<&R0>).collect_group_into(enc),
            9 => WithNamespace::new("a", ComposedGroup(WithNamespace::new("b", WithNamespace::new("c", a)), Some(WithNamespace::new("x", b)))).collect_group_into(enc),
            10 => Arc::new(WithNamespace::new("app", Some(Arc::clone(a)))).collect_group_into(enc),
            11 => ComposedGroup(WithNamespace::new("p", None::<Arc<R0>>), ComposedGroup(WithNamespace::new("q", b), None::<&R0>)).collect_group_into(enc),
            12 => ComposedGroup(ComposedGroup(None::<R0>, &a), &Arc::new(WithNamespace::new("n", b))).collect_group_into(enc),
            _ => WithNamespace::new("o", ComposedGroup(&a, WithNamespace::new("i", b))).collect_group_into(enc),
        }
    }};
}

/// both registries under one roof: check each part under its prefix
fn split_check(parts: &[(Vec<&Fam>, &str)], what: &str, text: Option<&[u8]>, proto: Option<&[u8]>) -> Result<u64, String> {
    // one concatenated expectation: prefix each family by renaming
    let mut fams: Vec<Fam> = vec![];
    for (fs, p) in parts {
        for f in fs {
            fams.push(Fam {
                name: Name { ns: vec![], base: Box::leak(format!("{p}{}", f.name.text()).into_boxed_str()), sfx: Sfx::None },
                help: f.help.clone(),
                store: match f.typ() {
                    Some("counter") => Store::RC(vec![]),
                    Some(_) => Store::RG(vec![]),
                    None => Store::Absent(None),
                },
                series: f.series.clone(),
            });
        }
    }
    let refs: Vec<&Fam> = fams.iter().collect();
    let res = match (text, proto) {
        (Some(t), _) => check_text(t, &refs, ""),
        (_, Some(p)) => check_proto(p, &refs, ""),
        _ => unreachable!(),
    };
    for f in &fams {
        // the names were leaked for the lifetime of this check only
        drop(unsafe { Box::from_raw(f.name.base as *const str as *mut str) });
    }
    res.map_err(|e| format!("{what}: {e}"))
}

fn agreement(rep: &mut Report, r: &mut Rng) {
    let o = opts(r);
    let (n, m) = (r.range(1, 4), r.range(1, 4));
    let all: R0 = any_reg(r, &o, n + m);
    let mut first = all.0;
    let second = first.split_off(n.min(first.len()));
    let (a, b) = (Arc::new(R0::new(first)), Arc::new(R0::new(second)));
    for shape in 0..SHAPES {
        let pre = prefixes(shape);
        let mut parts: Vec<(Vec<&Fam>, &str)> = vec![];
        if let Some(p) = pre[0] {
            parts.push((a.0.iter().collect(), p));
        }
        if let Some(p) = pre[1] {
            parts.push((b.0.iter().collect(), p));
        }
        // a name may meet another one only across prefixes; such a pair is the caller's mistake
        let mut names: Vec<String> = parts.iter().flat_map(|(f, p)| f.iter().map(move |f| format!("{p}{}", f.name.text()))).collect();
        names.sort();
        let k = names.len();
        names.dedup();
        if names.len() != k {
            continue;
        }
        let text = {
            let mut e = TextEncoder::new(Vec::<u8>::new());
            shape!(shape, &a, &b, &mut e).expect("writing to a Vec");
            e.flush().expect("flush");
            e.writer
        };
        let buffered = {
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = shape!(shape, &a, &b, &mut e);
            e.finish().to_vec()
        };
        let by_ref = {
            let mut e = BufferedTextEncoder::new();
            let mut q = &mut e;
            let Ok(()) = shape!(shape, &a, &b, &mut q);
            e.finish().to_vec()
        };
        let proto = {
            let mut e = ProtoEncoder::new(Vec::<u8>::new());
            shape!(shape, &a, &b, &mut e).expect("writing to a Vec");
            e.flush().expect("flush");
            e.writer
        };
        let proto_ref = {
            let mut e = ProtoEncoder::new(Vec::<u8>::new());
            let mut q = &mut e;
            let mut q = &mut q;
            shape!(shape, &a, &b, &mut q).expect("writing to a Vec");
            e.flush().expect("flush");
            e.writer
        };
        rep.eval();
        for (what, t) in [("text", &text), ("buffered text", &buffered), ("buffered text by reference", &by_ref)] {
            match split_check(&parts, what, Some(t), None) {
                Ok(n) => rep.count("text samples compared", n),
                Err(e) => rep.violation(format!("wrapping {shape}: {e}\noutput:\n{}", String::from_utf8_lossy(t))),
            }
            rep.check(normal_form(t) == normal_form(&text), || {
                format!("wrapping {shape}: {what} gives\n{}\nbut plain text\n{}", String::from_utf8_lossy(t), String::from_utf8_lossy(&text))
            });
        }
        for (what, t) in [("protobuf", &proto), ("protobuf by reference", &proto_ref)] {
            match split_check(&parts, what, None, Some(t)) {
                Ok(n) => rep.count("protobuf samples compared", n),
                Err(e) => rep.violation(format!("wrapping {shape}: {e}\noutput {}", show(t))),
            }
        }
        let mut sig = text.clone();
        sig.push(shape as u8);
        rep.distinct(&sig);
    }
    rep.sample(|| describe(&a.0.iter().collect::<Vec<_>>()));
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        let mut r = ctx.rng(24);
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 3) {
            i += 1;
            match ctx.phase.as_str() {
                "C24" => {
                    rep.rule = "a distinct protobuf output that decoded to exactly the recorded families";
                    let o = opts(&mut r);
                    bounded(|| decoding(rep, &mut r, &o))
                }
                "C17" => {
                    rep.rule = "a distinct protobuf output whose every help text decoded as recorded";
                    let o = Opts { wild_help: true, labels: 1, hists: false, max_series: 2, long: true, ..TAME };
                    bounded(|| decoding(rep, &mut r, &o))
                }
                "C18" => {
                    rep.rule = "a distinct protobuf output whose every number decoded as recorded";
                    let o = Opts { wild_numbers: true, labels: 2, hists: false, max_series: 5, empty: false, long: true, ..TAME };
                    bounded(|| decoding(rep, &mut r, &o))
                }
                "C20" => {
                    rep.rule = "a distinct sequence of exports through one reused protobuf encoder";
                    bounded(|| reuse(rep, &mut r))
                }
                "C21" => {
                    rep.rule = "a distinct (export, write call, kind of fault) with its outcome judged";
                    faults(rep, &mut r)
                }
                "C25" => {
                    rep.rule = "a distinct (registry, wrapping) exported by every encoder and compared";
                    bounded(|| agreement(rep, &mut r))
                }
                x => panic!("unknown phase {x}"),
            }
        }
    })
}
