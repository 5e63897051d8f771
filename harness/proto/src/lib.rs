//! A protobuf decoder for io.prometheus.client.MetricFamily, independent of the library, and the
//! comparison of decoded families with what a registry holds.
use vh::reg::{Fam, Value};

#[derive(Debug, Clone, PartialEq)]
pub struct Metric {
    pub labels: Vec<(String, String)>,
    /// "counter" or "gauge", and the value
    pub kind: &'static str,
    pub value: f64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Family {
    pub name: Option<String>,
    pub help: Option<String>,
    pub typ: u64,
    pub metrics: Vec<Metric>,
}

struct In<'a>(&'a [u8]);
enum Field<'a> {
    Int(u64),
    Fixed(u64),
    Bytes(&'a [u8]),
}
impl<'a> In<'a> {
    fn varint(&mut self) -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..10 {
            let Some((&b, rest)) = self.0.split_first() else { return Err("the input ends inside a varint".into()) };
            self.0 = rest;
            if i == 9 && b > 1 {
                return Err("a varint does not fit 64 bits".into());
            }
            v |= u64::from(b & 0x7f) << (7 * i);
            if b < 0x80 {
                return Ok(v);
            }
        }
        Err("a varint is longer than 10 bytes".into())
    }
    fn take(&mut self, n: u64) -> Result<&'a [u8], String> {
        if (self.0.len() as u64) < n {
            return Err(format!("length {n} but only {} bytes are left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Ok(a)
    }
    fn field(&mut self) -> Result<Option<(u64, Field<'a>)>, String> {
        if self.0.is_empty() {
            return Ok(None);
        }
        let k = self.varint()?;
        let f = match k & 7 {
            0 => Field::Int(self.varint()?),
            1 => Field::Fixed(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            2 => {
                let n = self.varint()?;
                Field::Bytes(self.take(n)?)
            }
            w => return Err(format!("wire type {w} in field {}", k >> 3)),
        };
        Ok(Some((k >> 3, f)))
    }
}
fn text(b: &[u8]) -> Result<String, String> {
    String::from_utf8(b.to_vec()).map_err(|e| format!("a string is not UTF-8: {e}"))
}
fn once<T>(slot: &mut Option<T>, v: T, what: &str) -> Result<(), String> {
    if slot.replace(v).is_some() {
        return Err(format!("{what} appears twice"));
    }
    Ok(())
}

fn value(b: &[u8]) -> Result<f64, String> {
    let mut i = In(b);
    let mut v = None;
    while let Some((n, f)) = i.field()? {
        match (n, f) {
            (1, Field::Fixed(x)) => once(&mut v, f64::from_bits(x), "value")?,
            (n, _) => return Err(format!("unexpected field {n} in a value")),
        }
    }
    Ok(v.unwrap_or(0.0))
}
fn label(b: &[u8]) -> Result<(String, String), String> {
    let mut i = In(b);
    let (mut n, mut v) = (None, None);
    while let Some(f) = i.field()? {
        match f {
            (1, Field::Bytes(x)) => once(&mut n, text(x)?, "label name")?,
            (2, Field::Bytes(x)) => once(&mut v, text(x)?, "label value")?,
            (n, _) => return Err(format!("unexpected field {n} in a label")),
        }
    }
    Ok((n.ok_or("a label has no name")?, v.unwrap_or_default()))
}
fn metric(b: &[u8]) -> Result<Metric, String> {
    let mut i = In(b);
    let mut labels = vec![];
    let mut v = None;
    while let Some(f) = i.field()? {
        match f {
            (1, Field::Bytes(x)) => labels.push(label(x)?),
            (2, Field::Bytes(x)) => once(&mut v, ("gauge", value(x)?), "metric value")?,
            (3, Field::Bytes(x)) => once(&mut v, ("counter", value(x)?), "metric value")?,
            (n, _) => return Err(format!("unexpected field {n} in a metric")),
        }
    }
    let (kind, value) = v.ok_or("a metric has no value")?;
    Ok(Metric { labels, kind, value })
}
fn family(b: &[u8]) -> Result<Family, String> {
    let mut i = In(b);
    let (mut name, mut help, mut typ, mut metrics) = (None, None, None, vec![]);
    while let Some(f) = i.field()? {
        match f {
            (1, Field::Bytes(x)) => once(&mut name, text(x)?, "family name")?,
            (2, Field::Bytes(x)) => once(&mut help, text(x)?, "help")?,
            (3, Field::Int(x)) => once(&mut typ, x, "type")?,
            (4, Field::Bytes(x)) => metrics.push(metric(x)?),
            (n, _) => return Err(format!("unexpected field {n} in a family")),
        }
    }
    Ok(Family { name, help, typ: typ.unwrap_or(0), metrics })
}
/// a sequence of length-delimited families
pub fn decode(b: &[u8]) -> Result<Vec<Family>, String> {
    let mut i = In(b);
    let mut o = vec![];
    while !i.0.is_empty() {
        let n = i.varint().map_err(|e| format!("family {}: {e}", o.len()))?;
        let m = i.take(n).map_err(|e| format!("family {}: {e}", o.len()))?;
        o.push(family(m).map_err(|e| format!("family {}: {e}", o.len()))?);
    }
    Ok(o)
}
/// the longest prefix of complete messages
pub fn complete(b: &[u8]) -> usize {
    let mut i = In(b);
    let mut at = 0;
    while !i.0.is_empty() {
        let Ok(n) = i.varint() else { break };
        if i.take(n).is_err() {
            break;
        }
        at = b.len() - i.0.len();
    }
    at
}

pub fn as_double(v: &Value) -> f64 {
    match v {
        Value::U(x) => *x as f64,
        Value::I(x) => *x as f64,
        Value::F(x) => *x,
        Value::H { .. } => panic!("no histograms here"),
    }
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

/// Does this protobuf exposition say exactly what the families hold? Series of a family in any order.
pub fn check_proto(out: &[u8], fams: &[&Fam], prefix: &str) -> Result<u64, String> {
    let got = decode(out)?;
    let want: Vec<&&Fam> = fams.iter().filter(|f| !f.series.is_empty()).collect();
    if got.len() != want.len() {
        return Err(format!(
            "{} families, expected {}: {:?} vs {:?}",
            got.len(),
            want.len(),
            got.iter().map(|f| f.name.clone().unwrap_or_default()).collect::<Vec<_>>(),
            want.iter().map(|f| f.name.text()).collect::<Vec<_>>()
        ));
    }
    let mut n = 0;
    for (g, w) in got.iter().zip(want) {
        let name = format!("{prefix}{}", w.name.text());
        let e = |m: String| format!("family {name:?}: {m}; recorded {}", w.describe());
        if g.name.as_ref() != Some(&name) {
            return Err(e(format!("named {:?}", g.name)));
        }
        // a help text that is empty and one that is absent decode alike
        if g.help.clone().unwrap_or_default() != w.help.clone().unwrap_or_default() {
            return Err(e(format!("help {:?}", g.help)));
        }
        let typ = w.typ().unwrap_or("?");
        if g.typ != match typ { "counter" => 0, "gauge" => 1, _ => 99 } {
            return Err(e(format!("type {}, expected {typ}", g.typ)));
        }
        let mut left: Vec<usize> = (0..w.series.len()).collect();
        for m in &g.metrics {
            let Some(k) = left.iter().position(|&i| {
                let l = &w.series[i].0 .0;
                l.len() == m.labels.len() && l.iter().zip(&m.labels).all(|((n, v), (gn, gv))| n == gn && v.reads_as(gv))
            }) else {
                return Err(e(format!("metric {m:?} was not recorded or appears twice")));
            };
            if m.kind != typ {
                return Err(e(format!("metric {m:?} in a family of type {typ}")));
            }
            let v = as_double(&w.series[left[k]].1);
            if !same(v, m.value) {
                return Err(e(format!("value {:?}, expected {v:?}", m.value)));
            }
            left.remove(k);
            n += 1;
        }
        if !left.is_empty() {
            return Err(e(format!("{} series missing", left.len())));
        }
    }
    Ok(n)
}

/// the messages, the metrics within each in one order
pub fn normal(out: &[u8]) -> Result<Vec<Family>, String> {
    let mut f = decode(out)?;
    for f in &mut f {
        f.metrics.sort_by_key(|m| format!("{m:?}"));
    }
    Ok(f)
}
