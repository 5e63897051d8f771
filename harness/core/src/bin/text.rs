//! Text exposition of random registries. Phases: C16 labels, C17 help, C18 numbers, C19 structure.
//! Every output is parsed by the independent exposition parser and must read back as exactly what
//! the registry holds.
use std::io::{self, Write};

use measured::label::{LabelTestVisitor, LabelValue, NoLabels};
use measured::metric::group::MetricGroup;
use measured::metric::name::{MetricName, MetricNameEncoder, WithNamespace};
use measured::text::{BufferedTextEncoder, MetricType, TextEncoder};
use vh::reg::*;
use vh::report::{bounded, run};
use vh::{Ctx, Report, Rng};

/// a writer that accepts a few bytes at a time
struct Dribble(Vec<u8>, u64);
impl Write for Dribble {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = b.len().min(1 + (self.1 >> 60) as usize);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn one(rep: &mut Report, r: &mut Rng, o: &Opts, fams: usize) {
    let reg: Reg<WithHists> = any_reg(r, o, fams);
    let (out, how, prefix) = match r.below(6) {
        0 | 1 => {
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = reg.collect_group_into(&mut e);
            (e.finish().to_vec(), "buffered", "")
        }
        2 => {
            let mut e = TextEncoder::new(Vec::new());
            reg.collect_group_into(&mut e).expect("writing to a Vec");
            e.flush().expect("flushing a Vec");
            (e.writer, "vec writer", "")
        }
        3 => {
            let mut e = TextEncoder::new(Dribble(vec![], r.u64()));
            reg.collect_group_into(&mut e).expect("short writes are not errors");
            e.flush().expect("flushing");
            (e.writer.0, "short writes", "")
        }
        4 => {
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = reg.collect_group_into(&mut &mut e);
            (e.finish().to_vec(), "&mut encoder", "")
        }
        _ => {
            let mut e = BufferedTextEncoder::new();
            let w = WithNamespace::new("outer", &reg);
            let Ok(()) = w.collect_group_into(&mut e);
            (e.finish().to_vec(), "namespace", "outer_")
        }
    };
    let fams: Vec<&Fam> = reg.0.iter().collect();
    rep.eval();
    match check_text(&out, &fams, prefix) {
        Ok(n) => rep.count("samples read back", n),
        Err(e) => rep.violation(format!("{how}: {e}\noutput:\n{}", String::from_utf8_lossy(&out))),
    }
    rep.count("families read back", fams.len() as u64);
    rep.count("bytes", out.len() as u64);
    if !out.is_empty() {
        rep.distinct(&out);
    }
    rep.sample(|| String::from_utf8_lossy(&out).into_owned());
}

/// what the library itself shows for a label value (its testing visitor) agrees with what it exports
fn visitor(rep: &mut Report, r: &mut Rng, o: &Opts) {
    let v = any_val(r, o);
    let s = v.visit(LabelTestVisitor);
    rep.check(v.reads_as(&s), || format!("LabelTestVisitor shows {v:?} as {s:?}"));
    rep.count("values through LabelTestVisitor", 1);
}

/// a TYPE line written by hand, for each of the types the format has
fn type_lines(rep: &mut Report, r: &mut Rng) {
    let mut e = TextEncoder::new(Vec::new());
    let mut want = String::new();
    let mut samples = false;
    for _ in 0..r.range(1, 6) {
        if std::mem::take(&mut samples) {
            want.push('\n');
        }
        let n = any_name(r, true);
        let (t, s) = match r.below(5) {
            0 => (MetricType::Counter, "counter"),
            1 => (MetricType::Gauge, "gauge"),
            2 => (MetricType::Histogram, "histogram"),
            3 => (MetricType::Summary, "summary"),
            _ => (MetricType::Untyped, "untyped"),
        };
        want.push_str(&format!("# TYPE {} {s}\n", n.text()));
        n.with(TypeLine(&mut e, t));
        if r.chance(1, 2) {
            let x = r.u64();
            measured::metric::counter::write_counter(&mut e, MetricName::from_str("sample"), NoLabels, x).expect("writing to a Vec");
            want.push_str(&format!("sample {x}\n"));
            samples = true;
        }
    }
    e.flush().expect("flushing a Vec");
    let out = e.writer;
    rep.check(out == want.as_bytes(), || format!("TYPE lines are {:?}, expected {want:?}", String::from_utf8_lossy(&out)));
    rep.eval();
    rep.count("TYPE lines of every type", 1);
}
struct TypeLine<'a>(&'a mut TextEncoder<Vec<u8>>, MetricType);
impl NameFn for TypeLine<'_> {
    type Out = ();
    fn call(self, name: impl MetricNameEncoder) {
        self.0.write_type(&name, self.1).expect("writing to a Vec");
    }
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        let mut r = ctx.rng(16);
        let o = match ctx.phase.as_str() {
            "C16" => {
                rep.rule = "a distinct exposition text whose every label read back as recorded";
                Opts { labels: 4, wild_strings: true, max_series: 5, empty: false, long: true, ..TAME }
            }
            "C17" => {
                rep.rule = "a distinct exposition text whose every help text read back as recorded";
                Opts { labels: 1, wild_help: true, max_series: 2, long: true, ..TAME }
            }
            "C18" => {
                rep.rule = "a distinct exposition text whose every number read back as recorded";
                Opts { labels: 2, wild_numbers: true, max_series: 5, empty: false, long: true, ..TAME }
            }
            "C19" => {
                rep.rule = "a distinct sequence of families whose blocks parsed and read back as recorded";
                Opts { labels: 3, max_series: 6, long: true, ..TAME }
            }
            x => panic!("unknown phase {x}"),
        };
        let big = ctx.phase == "C19";
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 6) {
            i += 1;
            let n = if big { r.range(1, 14) } else { r.range(1, 4) };
            bounded(|| one(rep, &mut r, &o, n));
            if big {
                type_lines(rep, &mut r);
            }
            if matches!(ctx.phase.as_str(), "C16" | "C18") {
                for _ in 0..10 {
                    visitor(rep, &mut r, &o);
                }
            }
        }
    })
}
