//! Independent parser of the Prometheus text exposition format (0.0.4).
use std::collections::HashMap;

pub type Labels = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Labels,
    /// the number exactly as written
    pub raw: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Help(String, String),
    Type(String, String),
    Comment(String),
    Blank,
    Sample(Sample),
}

pub fn is_metric_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && (b[0].is_ascii_alphabetic() || b[0] == b'_' || b[0] == b':')
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b':')
}
pub fn is_label_name(s: &str) -> bool {
    is_metric_name(s) && !s.contains(':')
}

/// Number as Go's ParseFloat reads it (the format's definition), restricted to what the format allows.
pub fn parse_number(s: &str) -> Option<f64> {
    let l = s.to_ascii_lowercase();
    match l.as_str() {
        "nan" => return Some(f64::NAN),
        "inf" | "+inf" | "infinity" | "+infinity" => return Some(f64::INFINITY),
        "-inf" | "-infinity" => return Some(f64::NEG_INFINITY),
        _ => {}
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'+' | b'-' | b'.' | b'e' | b'E')) {
        return None;
    }
    s.parse::<f64>().ok()
}

fn unescape_help(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => o.push('\\'),
                Some('n') => o.push('\n'),
                x => return Err(format!("bad escape \\{x:?} in help text")),
            }
        } else {
            o.push(c)
        }
    }
    Ok(o)
}

fn split_name(s: &str) -> (&str, &str) {
    let i = s.find([' ', '\t']).unwrap_or(s.len());
    (&s[..i], &s[i..])
}

pub fn parse_sample(line: &str) -> Result<Sample, String> {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b':') {
        i += 1;
    }
    let name = &line[..i];
    if !is_metric_name(name) {
        return Err(format!("invalid sample name {name:?}"));
    }
    let ws = |i: &mut usize| {
        while *i < b.len() && (b[*i] == b' ' || b[*i] == b'\t') {
            *i += 1;
        }
    };
    let mut labels = vec![];
    ws(&mut i);
    if i < b.len() && b[i] == b'{' {
        i += 1;
        loop {
            ws(&mut i);
            if i < b.len() && b[i] == b'}' {
                i += 1;
                break;
            }
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let k = &line[st..i];
            if !is_label_name(k) {
                return Err(format!("invalid label name {k:?}"));
            }
            ws(&mut i);
            if i >= b.len() || b[i] != b'=' {
                return Err("expected '='".into());
            }
            i += 1;
            ws(&mut i);
            if i >= b.len() || b[i] != b'"' {
                return Err("expected '\"'".into());
            }
            i += 1;
            let mut v: Vec<u8> = vec![];
            loop {
                if i >= b.len() {
                    return Err("unterminated label value".into());
                }
                match b[i] {
                    b'"' => {
                        i += 1;
                        break;
                    }
                    b'\\' => {
                        match b.get(i + 1) {
                            Some(b'\\') => v.push(b'\\'),
                            Some(b'"') => v.push(b'"'),
                            Some(b'n') => v.push(b'\n'),
                            x => return Err(format!("bad escape {x:?}")),
                        }
                        i += 2;
                    }
                    c => {
                        v.push(c);
                        i += 1;
                    }
                }
            }
            labels.push((k.to_string(), String::from_utf8(v).map_err(|e| e.to_string())?));
            ws(&mut i);
            match b.get(i) {
                Some(b',') => i += 1,
                Some(b'}') => {}
                x => return Err(format!("expected ',' or '}}' after label, got {x:?}")),
            }
        }
    } else if i == name.len() {
        return Err("missing value".into());
    }
    let rest = line[i..].trim_matches([' ', '\t']);
    if rest.contains([' ', '\t']) {
        return Err(format!("timestamps are never written, got {rest:?}"));
    }
    if parse_number(rest).is_none() {
        return Err(format!("invalid number {rest:?}"));
    }
    Ok(Sample { name: name.into(), labels, raw: rest.into() })
}

pub fn parse_lines(bytes: &[u8]) -> Result<Vec<Line>, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("output is not UTF-8: {e}"))?;
    let mut out = vec![];
    if text.is_empty() {
        return Ok(out);
    }
    if !text.ends_with('\n') {
        return Err(format!("last line is not terminated: {:?}", text.rsplit('\n').next()));
    }
    for line in text[..text.len() - 1].split('\n') {
        let l = line;
        let e = |m: String| format!("{m} in line {l:?}");
        if line.trim_matches([' ', '\t']).is_empty() {
            out.push(Line::Blank);
        } else if let Some(r) = line.strip_prefix("# HELP ") {
            let (n, h) = split_name(r);
            if !is_metric_name(n) {
                return Err(e(format!("invalid name {n:?}")));
            }
            let h = h.strip_prefix(' ').unwrap_or(h);
            out.push(Line::Help(n.into(), unescape_help(h).map_err(e)?));
        } else if let Some(r) = line.strip_prefix("# TYPE ") {
            let (n, t) = split_name(r);
            if !is_metric_name(n) {
                return Err(e(format!("invalid name {n:?}")));
            }
            let t = t.trim_matches([' ', '\t']);
            if !["counter", "gauge", "histogram", "summary", "untyped"].contains(&t) {
                return Err(e(format!("invalid type {t:?}")));
            }
            out.push(Line::Type(n.into(), t.into()));
        } else if line.starts_with('#') {
            out.push(Line::Comment(line.into()));
        } else {
            out.push(Line::Sample(parse_sample(line).map_err(e)?));
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Family {
    pub name: String,
    pub help: Option<String>,
    pub typ: Option<String>,
    pub samples: Vec<Sample>,
}

/// does a sample of this name belong to the family?
pub fn belongs(fam: &str, typ: Option<&str>, sample: &str) -> bool {
    if sample == fam {
        return typ != Some("histogram");
    }
    if typ == Some("histogram") {
        if let Some(s) = sample.strip_prefix(fam) {
            return matches!(s, "_bucket" | "_sum" | "_count");
        }
    }
    false
}

/// Group the lines into family blocks, enforcing the block structure:
/// HELP (at most one), TYPE (exactly one), samples of that family only, blank line between blocks.
pub fn families(bytes: &[u8]) -> Result<Vec<Family>, String> {
    let lines = parse_lines(bytes)?;
    let mut out: Vec<Family> = vec![];
    let mut cur: Option<Family> = None;
    let mut after_blank = true;
    for l in lines {
        match l {
            Line::Comment(c) => return Err(format!("unexpected comment {c:?}")),
            Line::Blank => {
                after_blank = true;
            }
            Line::Help(n, h) => {
                if let Some(f) = cur.take() {
                    if !after_blank && !f.samples.is_empty() {
                        return Err(format!("no blank line between family {:?} and {n:?}", f.name));
                    }
                    out.push(f);
                }
                after_blank = false;
                cur = Some(Family { name: n, help: Some(h), typ: None, samples: vec![] });
            }
            Line::Type(n, t) => {
                let fresh = match &mut cur {
                    Some(f) if f.name == n && f.typ.is_none() && f.samples.is_empty() => {
                        if after_blank {
                            return Err(format!("blank line inside the header of {n:?}"));
                        }
                        f.typ = Some(t.clone());
                        false
                    }
                    _ => true,
                };
                if fresh {
                    if let Some(f) = cur.take() {
                        if !after_blank && !f.samples.is_empty() {
                            return Err(format!("no blank line between family {:?} and {n:?}", f.name));
                        }
                        out.push(f);
                    }
                    cur = Some(Family { name: n, help: None, typ: Some(t), samples: vec![] });
                }
                after_blank = false;
            }
            Line::Sample(s) => {
                let Some(f) = &mut cur else { return Err(format!("sample before any header: {s:?}")) };
                if after_blank {
                    return Err(format!("blank line before sample {s:?} of family {:?}", f.name));
                }
                if f.typ.is_none() {
                    return Err(format!("sample {s:?} before the TYPE line of family {:?}", f.name));
                }
                if !belongs(&f.name, f.typ.as_deref(), &s.name) {
                    return Err(format!("sample {s:?} inside the block of family {:?}", f.name));
                }
                f.samples.push(s);
            }
        }
    }
    out.extend(cur);
    Ok(out)
}

/// no two samples with the same name and label set (as a set)
pub fn check_no_duplicates(fams: &[Family]) -> Result<(), String> {
    let mut seen: HashMap<(String, Labels), ()> = HashMap::new();
    for f in fams {
        for s in &f.samples {
            let mut l = s.labels.clone();
            l.sort();
            for w in l.windows(2) {
                if w[0].0 == w[1].0 {
                    return Err(format!("label {:?} twice in {s:?}", w[0].0));
                }
            }
            if seen.insert((s.name.clone(), l), ()).is_some() {
                return Err(format!("series twice: {s:?}"));
            }
        }
    }
    Ok(())
}

/// One decoded histogram series.
#[derive(Clone, Debug, PartialEq)]
pub struct HistSeries {
    pub labels: Labels,
    /// (bound as written, cumulative count); the last one is +Inf
    pub buckets: Vec<(String, u64)>,
    pub sum: String,
    pub count: u64,
}

/// Decode the samples of a histogram family into series, enforcing the series structure:
/// bounds increasing and ending in +Inf, then sum and count, cumulative counts, +Inf == count.
pub fn histograms(f: &Family) -> Result<Vec<HistSeries>, String> {
    let mut out = vec![];
    let mut i = 0;
    let s = &f.samples;
    let n = |suffix: &str| format!("{}{suffix}", f.name);
    while i < s.len() {
        let mut buckets: Vec<(String, u64)> = vec![];
        let mut base: Option<Labels> = None;
        let mut last = f64::NEG_INFINITY;
        loop {
            let Some(x) = s.get(i) else { return Err("histogram series without +Inf bucket".into()) };
            if x.name != n("_bucket") {
                return Err(format!("expected a bucket, got {x:?}"));
            }
            let Some((k, le)) = x.labels.last() else { return Err(format!("bucket without labels: {x:?}")) };
            if k != "le" {
                return Err(format!("last label of a bucket must be le: {x:?}"));
            }
            let bl: Labels = x.labels[..x.labels.len() - 1].to_vec();
            if *base.get_or_insert_with(|| bl.clone()) != bl {
                return Err(format!("labels change inside a histogram series at {x:?}"));
            }
            let Some(b) = parse_number(le) else { return Err(format!("le is not a number: {x:?}")) };
            if !buckets.is_empty() && !(b > last) {
                return Err(format!("bounds not increasing at {x:?}"));
            }
            last = b;
            let c: u64 = x.raw.parse().map_err(|_| format!("bucket count is no integer: {x:?}"))?;
            if let Some((_, p)) = buckets.last() {
                if c < *p {
                    return Err(format!("buckets not cumulative at {x:?}"));
                }
            }
            buckets.push((le.clone(), c));
            i += 1;
            if b == f64::INFINITY {
                if le != "+Inf" {
                    return Err(format!("infinite bound spelled {le:?}"));
                }
                break;
            }
        }
        let base = base.unwrap();
        let (Some(sum), Some(cnt)) = (s.get(i), s.get(i + 1)) else { return Err("histogram series without sum and count".into()) };
        i += 2;
        if sum.name != n("_sum") || cnt.name != n("_count") || sum.labels != base || cnt.labels != base {
            return Err(format!("sum/count do not follow their buckets: {sum:?} {cnt:?}"));
        }
        let count: u64 = cnt.raw.parse().map_err(|_| format!("count is no integer: {cnt:?}"))?;
        if buckets.last().unwrap().1 != count {
            return Err(format!("+Inf bucket {} differs from count {count} in {base:?}", buckets.last().unwrap().1));
        }
        out.push(HistSeries { labels: base, buckets, sum: sum.raw.clone(), count });
    }
    Ok(out)
}

/// bit equality, all NaNs equal
pub fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
