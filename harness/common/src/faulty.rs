//! Writers that fail, and the fault injection run over every write call of an export (C21).
use std::io::{self, Write};
use std::panic::AssertUnwindSafe;

use measured::text::TextEncoder;

use crate::reg::normal_form;
use crate::report::bounded;
use crate::{Report, Rng};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the k-th write call fails, later ones succeed
    Once,
    /// it and every later call fail
    Forever,
    /// it accepts part of the bytes, the following call fails
    ShortThenFail,
    /// it accepts nothing (a full device)
    Zero,
    /// it accepts only one byte, everything goes on
    Short,
    /// it is interrupted, everything goes on
    Interrupted,
}
pub const FAULTS: [Fault; 6] = [Fault::Once, Fault::Forever, Fault::ShortThenFail, Fault::Zero, Fault::Short, Fault::Interrupted];

pub struct Faulty {
    pub out: Vec<u8>,
    pub calls: usize,
    pub at: usize,
    pub fault: Option<Fault>,
    pub fired: bool,
    pub flush_fails: bool,
    /// picks the kind of error
    pub kind: usize,
}
impl Faulty {
    pub fn new(fault: Option<Fault>, at: usize) -> Self {
        Faulty { out: vec![], calls: 0, at, fault, fired: false, flush_fails: false, kind: KIND.fetch_add(1, std::sync::atomic::Ordering::Relaxed) }
    }
}
/// every writer fails in its own way
static KIND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// an error of any kind there is (but for the one that asks for a retry)
fn the_error(at: usize) -> io::Error {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 16] = [
        Other, BrokenPipe, WouldBlock, TimedOut, ConnectionReset, ConnectionAborted, NotConnected, WriteZero, UnexpectedEof, InvalidInput,
        InvalidData, PermissionDenied, OutOfMemory, Unsupported, AlreadyExists, NotFound,
    ];
    io::Error::new(KINDS[at % KINDS.len()], "vh injected fault")
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.calls;
        self.calls += 1;
        let Some(f) = self.fault else {
            self.out.extend_from_slice(b);
            return Ok(b.len());
        };
        match f {
            Fault::Once if n == self.at => {
                self.fired = true;
                Err(the_error(self.kind))
            }
            Fault::Forever if n >= self.at => {
                self.fired = true;
                Err(the_error(self.kind))
            }
            Fault::ShortThenFail if n == self.at && b.len() > 1 => {
                let k = b.len() / 2;
                self.out.extend_from_slice(&b[..k]);
                Ok(k)
            }
            Fault::ShortThenFail if n > self.at || n == self.at => {
                self.fired = true;
                Err(the_error(self.kind))
            }
            Fault::Zero if n >= self.at => {
                self.fired = true;
                Ok(0)
            }
            Fault::Short if n >= self.at => {
                self.fired = true;
                self.out.push(b[0]);
                Ok(1)
            }
            Fault::Interrupted if n == self.at => {
                self.fired = true;
                Err(io::ErrorKind::Interrupted.into())
            }
            _ => {
                self.out.extend_from_slice(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            return Err(the_error(self.kind));
        }
        Ok(())
    }
}

/// Export with every kind of fault at every write call, and judge result, output and what follows.
/// `norm` hides from an output what differs from one export to the next, `check` judges a complete export.
pub fn inject(
    rep: &mut Report,
    r: &mut Rng,
    norm: &dyn Fn(&[u8]) -> Vec<u8>,
    export: &dyn Fn(&mut TextEncoder<Faulty>) -> io::Result<()>,
    check: &dyn Fn(&[u8]) -> Result<(), String>,
) {
    let mut clean = TextEncoder::new(Faulty::new(None, 0));
    export(&mut clean).expect("no fault");
    let first = clean.writer.out;
    let want = norm(&first);
    if let Err(e) = check(&first) {
        rep.violation(format!("fault-free export: {e}\n{}", String::from_utf8_lossy(&first)));
    }
    let calls = clean.writer.calls;
    let body = |rep: &mut Report, fault: Fault, k: usize| {
        let mut enc = TextEncoder::new(Faulty::new(Some(fault), k));
        let res = std::panic::catch_unwind(AssertUnwindSafe(|| export(&mut enc)));
        let Ok(res) = res else { return };
        rep.eval();
        let ctx = |m: String, got: &[u8]| format!("{fault:?} at write {k} of {calls}: {m}\ngot:\n{}\nfault-free:\n{}", String::from_utf8_lossy(got), String::from_utf8_lossy(&first));
        let got = enc.writer.out.clone();
        let benign = matches!(fault, Fault::Short | Fault::Interrupted) || !enc.writer.fired;
        match (&res, benign) {
            (Ok(()), true) => rep.check(norm(&got) == want, || ctx("the export differs although nothing failed".into(), &got)),
            (Err(e), true) => rep.violation(ctx(format!("a write that did not fail ended the export with {e}"), &got)),
            (Ok(()), false) => rep.violation(ctx("the export reports success".into(), &got)),
            (Err(e), false) => {
                let right = if fault == Fault::Zero {
                    e.kind() == io::ErrorKind::WriteZero
                } else {
                    e.get_ref().map(|x| x.to_string()) == Some("vh injected fault".into())
                };
                rep.check(right, || ctx(format!("the export reports another error: {e:?}"), &got));
            }
        }
        if !benign {
            rep.check(want.starts_with(&norm(&got)), || ctx("what was written is no prefix".into(), &got));
            rep.count("faults that ended an export", 1);
        } else if enc.writer.fired {
            rep.count("harmless faults", 1);
        }
        // the same encoder, a fresh buffer
        enc.writer = Faulty::new(None, 0);
        let again = export(&mut enc);
        rep.check(again.is_ok(), || ctx("the next export into a fresh buffer fails".into(), &got));
        if let Err(e) = check(&enc.writer.out) {
            rep.violation(ctx(format!("the next export through the same encoder: {e}"), &enc.writer.out));
        }
        if !benign {
            // and a fresh encoder
            let mut e2 = TextEncoder::new(Faulty::new(None, 0));
            export(&mut e2).expect("no fault");
            rep.check(norm(&e2.writer.out) == want, || ctx("a later export by a fresh encoder differs".into(), &e2.writer.out));
        }
        let mut sig = want.clone();
        sig.push(fault as u8);
        sig.extend((k as u32).to_le_bytes());
        rep.distinct(&sig);
    };
    // every write call, every kind of fault
    let step = if calls > 400 { calls / 200 } else { 1 };
    let mut k = r.below(step);
    while k < calls {
        for f in FAULTS {
            bounded(|| body(rep, f, k));
        }
        k += step;
    }
    // a failing flush is reported
    let mut enc = TextEncoder::new(Faulty::new(None, 0));
    export(&mut enc).expect("no fault");
    enc.writer.flush_fails = true;
    rep.check(enc.flush().is_err(), || "flush hides the writer's error".into());
    enc.writer = Faulty::new(None, 0);
    export(&mut enc).expect("no fault");
    rep.check(normal_form(&norm(&enc.writer.out)) == normal_form(&want), || {
        format!("after a failed flush the encoder continues with\n{}\nfault-free:\n{}", String::from_utf8_lossy(&enc.writer.out), String::from_utf8_lossy(&first))
    });
    rep.sample(|| format!("{calls} writes, each failed in {} ways: {}", FAULTS.len(), String::from_utf8_lossy(&first)));
    rep.count("max write calls in one export", 0);
    let m = rep.counters.get_mut("max write calls in one export").unwrap();
    *m = (*m).max(calls as u64);
}

/// An output without the values of its samples (which may differ from one export to the next).
/// This keeps prefixes: a line that was cut short loses its last word at most.
pub fn blank_values(out: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    for line in out.split_inclusive(|c| *c == b'\n') {
        let body = line.strip_suffix(b"\n").unwrap_or(line);
        let keep = if line.starts_with(b"#") { body.len() } else { body.iter().rposition(|c| *c == b' ').map_or(body.len(), |i| i + 1) };
        b.extend_from_slice(&line[..keep]);
        b.extend_from_slice(&line[body.len()..]);
    }
    b
}
