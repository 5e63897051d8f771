//! C11: label group encoding is a bijection onto its cardinality.
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

use indexmap::IndexSet;
use lasso::ThreadedRodeo;
use measured::label::{
    ComposedGroup, FixedCardinalitySet, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, LabelVisitor,
};
use measured::{CounterVec, LabelGroup};
use vh::keys::{each_key_space, KeySpace, Num, WithKeys};
use vh::prom::Labels;
use vh::report::{catch, run};
use vh::{Ctx, Report, Rng};

/// a runtime set of the integers 0..n, of any size
#[derive(Clone, Copy, Debug)]
pub struct Span(u64);
impl FixedCardinalitySet for Span {
    fn cardinality(&self) -> usize {
        self.0 as usize
    }
}
impl LabelSet for Span {
    type Value<'a> = U;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0 as usize)
    }
    fn encode(&self, v: U) -> Option<usize> {
        (v.0 < self.0).then_some(v.0 as usize)
    }
    fn decode(&self, v: usize) -> U {
        assert!((v as u64) < self.0, "decode of {v} in a set of {}", self.0);
        U(v as u64)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct U(u64);
impl LabelValue for U {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}

mod derived_groups {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = S1)]
    pub struct G1 {
        #[label(fixed_with = Span)]
        pub a: U,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = S2)]
    pub struct G2 {
        #[label(fixed_with = Span)]
        pub b: U,
        #[label(fixed_with = Span)]
        pub a: U,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = S3)]
    pub struct G3 {
        #[label(fixed_with = Span)]
        pub a: U,
        #[label(fixed_with = Arc<Span>)]
        pub b: U,
        #[label(fixed_with = Span)]
        pub c: U,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = S5)]
    pub struct G5 {
        #[label(fixed_with = Span)]
        pub e: U,
        #[label(fixed_with = Span)]
        pub d: U,
        #[label(fixed_with = Span)]
        pub c: U,
        #[label(fixed_with = IndexSet<Num>)]
        pub b: Num,
        #[label(fixed_with = Span)]
        pub a: U,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = SD)]
    pub struct GD<'a> {
        #[label(fixed_with = Span)]
        pub a: U,
        #[label(dynamic_with = ThreadedRodeo, default)]
        pub x: &'a str,
        #[label(fixed_with = Span)]
        pub b: U,
        #[label(dynamic_with = Arc<ThreadedRodeo>)]
        pub y: &'a str,
    }
}
use derived_groups::*;

fn size(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => r.range(2, 12) as u64,
        7 => 1 << r.below(64),
        8 => (1u64 << r.below(64)).wrapping_sub(1),
        9 => *r.pick(&[3, 5, 17, 257, 641, 65537, 6700417, u64::MAX, u64::MAX / 2, u64::MAX / 3, u32::MAX as u64, 1 << 32]),
        10 => r.u64() >> r.below(64),
        _ => r.range(1, 300) as u64,
    }
}
/// sizes whose product sits at the edge of the machine word
fn sizes(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).map(|_| size(r)).collect();
    if r.chance(1, 3) {
        // product of exactly 2^64, one below, or a bit more
        match r.below(3) {
            0 => {
                let mut left = 64;
                for x in v.iter_mut().skip(1) {
                    let k = r.below(left.min(40) + 1);
                    *x = 1 << k;
                    left -= k;
                }
                v[0] = 1u64.checked_shl(left as u32).unwrap_or(u64::MAX);
            }
            1 => {
                for x in v.iter_mut() {
                    *x = 1;
                }
                for f in [3u64, 5, 17, 257, 641, 65537, 6700417] {
                    let i = r.below(n);
                    v[i] *= f;
                }
            }
            _ => {
                for x in v.iter_mut() {
                    *x = 1;
                }
                for f in [3u64, 5, 17, 257, 641, 65537, 6700417] {
                    let i = r.below(n);
                    v[i] *= f;
                }
                let i = r.below(n);
                v[i] = v[i].saturating_add(1);
            }
        }
    } else if r.chance(1, 2) {
        // small: can be enumerated
        for x in v.iter_mut() {
            *x = r.range(1, 7) as u64;
        }
    }
    r.shuffle(&mut v);
    v
}
fn member(r: &mut Rng, n: u64) -> u64 {
    match r.below(4) {
        0 => 0,
        1 => n - 1,
        2 => r.u64() % n,
        _ => r.below(4) as u64 % n,
    }
}

/// What is judged for one set: members are tuples of component indices.
struct Judge<'a, S, G> {
    set: &'a S,
    dims: &'a [u64],
    group: G,
    name: &'static str,
}
impl<S, G, T> Judge<'_, S, G>
where
    S: for<'x> LabelGroupSet<Group<'x> = T>,
    T: PartialEq + std::fmt::Debug,
    G: Fn(&[u64]) -> T,
{
    fn go(&self, rep: &mut Report, r: &mut Rng) {
        let total: Option<u64> = self.dims.iter().try_fold(1u64, |a, b| a.checked_mul(*b)).or(None);
        let zero = self.dims.iter().any(|d| *d == 0);
        let ctx = |m: String| format!("{} with sizes {:?}: {m}", self.name, self.dims);
        rep.eval();
        let card = self.set.cardinality();
        // an empty component makes the product 0 whatever the rest is; both 0 and "too many" are honest
        let nonzero = self.dims.iter().filter(|d| **d != 0).try_fold(1u64, |a, b| a.checked_mul(*b));
        if zero && nonzero.is_none() {
            rep.check(matches!(card, None | Some(0)), || ctx(format!("cardinality is {card:?}, expected 0 or none")));
        } else if let Some(t) = total {
            rep.check(card == Some(t as usize), || ctx(format!("cardinality is {card:?}, expected {t}")));
        } else if !zero {
            rep.check(card.is_none(), || ctx(format!("cardinality is {card:?} although the product does not fit")));
        }
        let mut members: Vec<Vec<u64>> = vec![];
        if let Some(t) = total {
            if t <= 2000 {
                // all of them
                for k in 0..t {
                    let mut k = k;
                    members.push(
                        self.dims
                            .iter()
                            .map(|d| {
                                let x = k % d;
                                k /= d;
                                x
                            })
                            .collect(),
                    );
                }
            }
        }
        let full = total.is_some_and(|t| t <= 2000);
        if !full && !zero {
            // samples that differ in one component, extremes, random ones
            let base: Vec<u64> = self.dims.iter().map(|d| member(r, *d)).collect();
            members.push(base.clone());
            for i in 0..self.dims.len() {
                for _ in 0..4 {
                    let mut m = base.clone();
                    m[i] = member(r, self.dims[i]);
                    members.push(m);
                }
            }
            for _ in 0..20 {
                members.push(self.dims.iter().map(|d| member(r, *d)).collect());
            }
            members.sort();
            members.dedup();
        }
        let mut ids: HashMap<S::Unique, Vec<u64>> = HashMap::new();
        let mut dense: HashSet<usize> = HashSet::new();
        for m in &members {
            let id = match catch(|| self.set.encode((self.group)(m))) {
                Ok(id) => id,
                Err(p) => rep.violation(ctx(format!("encoding {m:?} panics: {p}"))),
            };
            let Some(id) = id else {
                rep.check(total.is_none(), || ctx(format!("{m:?} is inside the set but was rejected")));
                rep.count("groups refused because the set does not fit a word", 1);
                continue;
            };
            rep.count("groups encoded and decoded", 1);
            if let Some(o) = ids.insert(id, m.clone()) {
                rep.violation(ctx(format!("{m:?} and {o:?} share an identifier")));
            }
            let back = match catch(|| self.set.decode(&id) == (self.group)(m)) {
                Ok(b) => b,
                Err(p) => rep.violation(ctx(format!("decoding the identifier of {m:?} panics: {p}"))),
            };
            rep.check(back, || ctx(format!("{m:?} encodes to an identifier which decodes to {:?}", self.set.decode(&id))));
            rep.check(self.set.encode((self.group)(m)) == Some(id), || ctx(format!("{m:?} encodes differently the second time")));
            if let (Some(t), Some(_)) = (total, card) {
                let Some(d) = self.set.encode_dense(id) else { rep.violation(ctx(format!("no dense identifier for {m:?}"))) };
                rep.check((d as u64) < t, || ctx(format!("dense identifier {d} of {m:?} is not below {t}")));
                rep.check(dense.insert(d), || ctx(format!("dense identifier {d} of {m:?} is taken")));
                rep.check(self.set.decode_dense(d) == (self.group)(m), || ctx(format!("dense identifier {d} of {m:?} decodes to {:?}", self.set.decode_dense(d))));
                rep.count("dense identifiers", 1);
            }
        }
        if full {
            rep.count("sets enumerated completely", 1);
        }
        // any component outside its set
        for i in 0..self.dims.len() {
            if self.dims[i] == u64::MAX {
                continue;
            }
            for x in [self.dims[i], self.dims[i].saturating_add(1), u64::MAX, self.dims[i] + r.below(50) as u64] {
                let mut m: Vec<u64> = self.dims.iter().map(|d| if *d == 0 { 0 } else { member(r, *d) }).collect();
                m[i] = x.max(self.dims[i]);
                let got = catch(|| self.set.encode((self.group)(&m)));
                match got {
                    Ok(None) => rep.count("groups outside the set rejected", 1),
                    Ok(Some(_)) => rep.violation(ctx(format!("{m:?} is outside the set but is encoded"))),
                    Err(p) => rep.violation(ctx(format!("encoding {m:?} panics: {p}"))),
                }
            }
        }
        rep.distinct(format!("{}{:?}", self.name, self.dims).as_bytes());
    }
}

/// set component b of G5: a set of scattered integers; its i-th member
fn nums(n: u64) -> IndexSet<Num> {
    (0..n).map(|i| Num(num(i))).collect()
}
fn num(i: u64) -> i64 {
    (i as i64).wrapping_mul(7919).wrapping_sub(40_000)
}

fn runtime_sets(rep: &mut Report, r: &mut Rng) {
    match r.below(9) {
        0 => {
            let d = sizes(r, 1);
            Judge { set: &S1::new(Span(d[0])), dims: &d, group: |m: &[u64]| G1 { a: U(m[0]) }, name: "one field" }.go(rep, r)
        }
        1 => {
            let d = sizes(r, 2);
            Judge { set: &S2::new(Span(d[0]), Span(d[1])), dims: &d, group: |m: &[u64]| G2 { b: U(m[0]), a: U(m[1]) }, name: "two fields" }.go(rep, r)
        }
        2 | 3 => {
            let d = sizes(r, 3);
            Judge {
                set: &S3::new(Span(d[0]), Arc::new(Span(d[1])), Span(d[2])),
                dims: &d,
                group: |m: &[u64]| G3 { a: U(m[0]), b: U(m[1]), c: U(m[2]) },
                name: "three fields",
            }
            .go(rep, r)
        }
        4 => {
            let mut d = sizes(r, 5);
            d[3] = r.range(0, 9) as u64;
            // the IndexSet cannot hold numbers outside; num(i) for i >= size is outside by construction
            Judge {
                set: &S5::new(Span(d[0]), Span(d[1]), Span(d[2]), nums(d[3]), Span(d[4])),
                dims: &d,
                group: |m: &[u64]| G5 { e: U(m[0]), d: U(m[1]), c: U(m[2]), b: Num(if m[3] > 1 << 40 { 1 } else { num(m[3]) }), a: U(m[4]) },
                name: "five fields",
            }
            .go(rep, r)
        }
        5 => {
            let d = sizes(r, 3);
            Judge {
                set: &ComposedGroup(S1::new(Span(d[0])), S2::new(Span(d[1]), Span(d[2]))),
                dims: &d,
                group: |m: &[u64]| ComposedGroup(G1 { a: U(m[0]) }, G2 { b: U(m[1]), a: U(m[2]) }),
                name: "composed 1+2",
            }
            .go(rep, r)
        }
        6 => {
            let d = sizes(r, 4);
            Judge {
                set: &ComposedGroup(ComposedGroup(S1::new(Span(d[0])), Arc::new(S1::new(Span(d[1])))), S2::new(Span(d[2]), Span(d[3]))),
                dims: &d,
                group: |m: &[u64]| ComposedGroup(ComposedGroup(G1 { a: U(m[0]) }, G1 { a: U(m[1]) }), G2 { b: U(m[2]), a: U(m[3]) }),
                name: "composed (1+1)+2",
            }
            .go(rep, r)
        }
        7 => {
            let d = sizes(r, 3);
            Judge {
                set: &ComposedGroup(S1::new(Span(d[0])), ComposedGroup(S1::new(Span(d[1])), S1::new(Span(d[2])))),
                dims: &d,
                group: |m: &[u64]| ComposedGroup(G1 { a: U(m[0]) }, ComposedGroup(G1 { a: U(m[1]) }, G1 { a: U(m[2]) })),
                name: "composed 1+(1+1)",
            }
            .go(rep, r)
        }
        _ => dynamic(rep, r),
    }
}

/// two dynamic fields between two fixed ones
fn dynamic(rep: &mut Report, r: &mut Rng) {
    let d = sizes(r, 2);
    let set = SD::new(Arc::new(ThreadedRodeo::new()), Span(d[0]), Span(d[1]));
    let ctx = |m: String| format!("dynamic group with fixed sizes {d:?}: {m}");
    rep.eval();
    rep.check(set.cardinality().is_none(), || ctx(format!("cardinality {:?}", set.cardinality())));
    let words: Vec<String> = (0..r.range(1, 12)).map(|_| r.any_string(6)).collect();
    let mut ids: HashMap<<SD as LabelGroupSet>::Unique, (u64, u64, String, String)> = HashMap::new();
    let fits = d[0].checked_mul(d[1]).is_some();
    for _ in 0..60 {
        if d.contains(&0) {
            break;
        }
        let (a, b) = (member(r, d[0]), member(r, d[1]));
        let (x, y) = (r.pick(&words).clone(), r.pick(&words).clone());
        let g = GD { a: U(a), x: &x, b: U(b), y: &y };
        let Some(id) = set.encode(g) else {
            rep.check(!fits, || ctx(format!("{g:?} was rejected")));
            continue;
        };
        rep.check(set.decode(&id) == g, || ctx(format!("{g:?} encodes to an identifier which decodes to {:?}", set.decode(&id))));
        let key = (a, b, x.clone(), y.clone());
        if let Some(o) = ids.get(&id) {
            rep.check(*o == key, || ctx(format!("{key:?} and {o:?} share an identifier")));
        }
        ids.insert(id, key);
        rep.count("dynamic groups encoded and decoded", 1);
    }
    // all identifiers stay valid while the set grows
    for (id, (a, b, x, y)) in &ids {
        let g = GD { a: U(*a), x, b: U(*b), y };
        rep.check(set.decode(id) == g && set.encode(g) == Some(*id), || ctx(format!("the identifier no longer belongs to {g:?}")));
    }
    for i in 0..2 {
        if d[i] == u64::MAX {
            continue;
        }
        let g = GD { a: U(if i == 0 { d[0] } else { 0 }), x: "x", b: U(if i == 1 { d[1] } else { 0 }), y: "y" };
        rep.check(set.encode(g).is_none(), || ctx(format!("{g:?} is outside but accepted")));
    }
    rep.distinct(format!("dyn{d:?}{words:?}").as_bytes());
}

#[derive(Default)]
struct Collect(Labels);
impl LabelGroupVisitor for Collect {
    type Output = ();
    fn write_value(&mut self, n: &LabelName, x: &impl LabelValue) {
        self.0.push((n.as_str().into(), x.visit(measured::label::LabelTestVisitor)));
    }
}
fn labels_of(g: &impl LabelGroup) -> Labels {
    let mut c = Collect::default();
    g.visit_values(&mut c);
    c.0
}

/// the key spaces of the other checks
struct Spaces<'a>(&'a mut Report);
impl WithKeys for Spaces<'_> {
    fn run<K: KeySpace>(&mut self) {
        let rep = &mut *self.0;
        let set = K::make_set();
        let name = K::NAME;
        rep.eval();
        rep.distinct(name.as_bytes());
        rep.check(set.cardinality() == K::cardinality(), || format!("{name}: cardinality {:?}, expected {:?}", set.cardinality(), K::cardinality()));
        let mut seen: HashMap<K::U, usize> = HashMap::new();
        let mut dense: HashMap<usize, usize> = HashMap::new();
        for i in 0..K::n() {
            let Some(id) = set.encode(K::group(i)) else { rep.violation(format!("{name}: {:?} was rejected", K::labels(i))) };
            if let Some(o) = seen.insert(id, i) {
                rep.violation(format!("{name}: {:?} and {:?} share an identifier", K::labels(i), K::labels(o)));
            }
            let got = labels_of(&set.decode(&id));
            rep.check(got == K::labels(i), || format!("{name}: {:?} decodes to {got:?}", K::labels(i)));
            if let Some(c) = K::cardinality() {
                let Some(d) = set.encode_dense(id) else { rep.violation(format!("{name}: no dense identifier for {:?}", K::labels(i))) };
                rep.check(d < c, || format!("{name}: dense identifier {d} of {c}"));
                if let Some(o) = dense.insert(d, i) {
                    rep.violation(format!("{name}: {:?} and {:?} share dense identifier {d}", K::labels(i), K::labels(o)));
                }
                let got = labels_of(&set.decode_dense(d));
                rep.check(got == K::labels(i), || format!("{name}: dense identifier of {:?} decodes to {got:?}", K::labels(i)));
            }
            rep.count("key space members", 1);
        }
        for i in 0..8 {
            if let Some(b) = K::bad(i) {
                rep.check(set.encode(b).is_none(), || format!("{name}: a group outside the set was accepted"));
            }
        }
    }
}

/// vecs over sets at the edge: no two groups share a series
fn vecs(rep: &mut Report, r: &mut Rng) {
    let d = sizes(r, 2);
    if d.contains(&0) {
        return;
    }
    let set = || S2::new(Span(d[0]), Span(d[1]));
    let v = CounterVec::sparse_with_label_set(set());
    let mut ms: Vec<(u64, u64)> = vec![];
    for _ in 0..20 {
        let m = (member(r, d[0]), member(r, d[1]));
        if !ms.contains(&m) {
            ms.push(m);
        }
    }
    let mut want = vec![];
    for (k, m) in ms.iter().enumerate() {
        if let Some(id) = v.try_with_labels(G2 { b: U(m.0), a: U(m.1) }) {
            v.get_metric(id).inc_by(1 + k as u64);
            want.push((vec![("b".to_string(), (m.0 as i64).to_string()), ("a".to_string(), (m.1 as i64).to_string())], 1 + k as u64));
        }
    }
    let mut got = match vh::kinds::scrape::<vh::kinds::KCounter, _>(&v) {
        Ok(x) => x,
        Err(e) => rep.violation(format!("vec over sizes {d:?}: {e}")),
    };
    got.sort();
    want.sort();
    rep.check(got == want, || format!("vec over sizes {d:?} exports {got:?}, recorded were {want:?}"));
    rep.count("series recorded and exported", got.len() as u64);
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct label set (shape and component sizes), enumerated completely up to 2000 groups";
        each_key_space(&mut Spaces(rep));
        let mut r = ctx.rng(11);
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 10) {
            i += 1;
            runtime_sets(rep, &mut r);
            vecs(rep, &mut r);
        }
        rep.sample(|| "sizes are drawn around 0, 1, small, 2^k, 2^k-1, the factors of 2^64-1 and products at the edge of the word".into());
    })
}
