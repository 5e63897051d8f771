//! Sequential histories against a reference model: C07, C08, C09, C10 (selected by VH_PHASE).
use std::collections::BTreeMap;

use measured::metric::{LabelId, MetricVec};
use vh::keys::*;
use vh::kinds::*;
use vh::prom::Labels;
use vh::report::catch;
use vh::{Ctx, Report, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    C07,
    C08,
    C09,
    C10,
}

type V<K, S> = MetricVec<<K as Kind>::M, <S as KeySpace>::Set>;
/// model of a vec: the series present and their states
type Model<K> = BTreeMap<usize, <K as Kind>::Model>;

fn build<K: Kind, S: KeySpace>(repr: u8) -> V<K, S> {
    match repr {
        0 => MetricVec::with_label_set_and_metadata(S::make_set(), K::meta()),
        1 => MetricVec::dense_with_label_set_and_metadata(S::make_set(), K::meta()),
        _ => MetricVec::sparse_with_label_set_and_metadata(S::make_set(), K::meta()),
    }
}

fn sorted<M: Clone>(v: &[(Labels, M)]) -> Vec<(Labels, M)> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn expect<K: Kind, S: KeySpace>(m: &Model<K>) -> Vec<(Labels, K::Model)> {
    let v: Vec<_> = m.iter().map(|(i, s)| (S::labels(*i), s.clone())).collect();
    sorted(&v)
}

fn diff<M: Clone + PartialEq + std::fmt::Debug>(got: &[(Labels, M)], want: &[(Labels, M)]) -> String {
    for w in want {
        match got.iter().find(|g| g.0 == w.0) {
            None => return format!("series {:?} is missing, should be {:?}", w.0, w.1),
            Some(g) if g.1 != w.1 => return format!("series {:?} is {:?}, should be {:?}", w.0, g.1, w.1),
            _ => {}
        }
    }
    for g in got {
        if !want.iter().any(|w| w.0 == g.0) {
            return format!("series {:?} = {:?} should not exist", g.0, g.1);
        }
    }
    "order".into()
}

fn same<M: PartialEq>(a: &[(Labels, M)], b: &[(Labels, M)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1)
}

fn history<K: Kind, S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, mode: Mode) {
    let repr = match rng.below(3) as u8 {
        1 if !S::DENSE => 2,
        x => x,
    };
    let mut v = build::<K, S>(repr);
    // the other representations get the same history through other paths
    let mut others: Vec<(u8, V<K, S>)> = vec![];
    if mode == Mode::C09 {
        for r in 0..3 {
            if r != repr && (r != 1 || S::DENSE) {
                others.push((r, build::<K, S>(r)));
            }
        }
    }
    let mut model: Model<K> = BTreeMap::new();
    let mut ids: Vec<(usize, LabelId<S::Set>)> = vec![];
    let n = S::n();
    let hot = if rng.chance(1, 3) { n } else { n.min(1 + rng.below(6)) };
    let base = rng.below(n - hot + 1);
    let len = ctx.n(rng.range(5, 120), 12);
    let bulk = !ctx.small && rng.chance(1, 6);
    let ctxs = format!("{} {} repr {repr}", S::NAME, K::NAME);
    let mut log: Vec<String> = vec![];
    macro_rules! bad {
        ($($a:tt)*) => {
            rep.violation(format!("{ctxs}: {} after {:?}", format!($($a)*), &log[log.len().saturating_sub(40)..]))
        };
    }
    for step in 0..len {
        let i = base + rng.below(hot);
        match rng.below(20) {
            0..=8 => {
                let op = K::rand(rng);
                let p = *rng.pick(&PATHS);
                log.push(format!("{op:?} on {i} via {p:?}"));
                record::<K, _>(&mut v, p, S::group(i), op);
                K::apply(model.entry(i).or_insert_with(K::init), op);
                for (_, o) in &mut others {
                    let q = *rng.pick(&PATHS);
                    record::<K, _>(o, q, S::group(i), op);
                }
            }
            9 => {
                log.push(format!("touch {i}"));
                let id = v.with_labels(S::group(i));
                if rng.chance(1, 2) {
                    drop(v.get_metric(id));
                } else {
                    let _ = v.get_metric_mut(id);
                }
                model.entry(i).or_insert_with(K::init);
                for (_, o) in &mut others {
                    let id = o.with_labels(S::group(i));
                    if rng.chance(1, 2) {
                        drop(o.get_metric(id));
                    } else {
                        let _ = o.get_metric_mut(id);
                    }
                }
            }
            10 => {
                log.push(format!("lookup {i}"));
                let id = v.with_labels(S::group(i));
                let Some(id2) = v.try_with_labels(S::group(i)) else { bad!("try_with_labels({i}) is None, with_labels is not") };
                if id != id2 {
                    bad!("identifiers of equal groups differ ({i})");
                }
                if let Some((j, old)) = ids.last() {
                    if (*j == i) != (*old == id) {
                        bad!("identifiers of {j} and {i}: equality is {}", *old == id);
                    }
                }
                ids.push((i, id));
            }
            11 | 12 if !ids.is_empty() => {
                let (j, id) = *rng.pick(&ids);
                let op = K::rand(rng);
                let p = *rng.pick(&PATHS);
                log.push(format!("{op:?} on {j} via old id {p:?}"));
                record_id::<K, _>(&mut v, p, id, op);
                K::apply(model.entry(j).or_insert_with(K::init), op);
                for (_, o) in &mut others {
                    record::<K, _>(o, *rng.pick(&PATHS), S::group(j), op);
                }
            }
            13 | 14 if mode != Mode::C09 && (mode != Mode::C10 || rng.chance(1, 3)) => {
                log.push(format!("remove {i}"));
                let id = if rng.chance(1, 2) { ids.iter().find(|x| x.0 == i).map(|x| x.1) } else { None };
                let r = v.remove_metric(id.unwrap_or_else(|| v.with_labels(S::group(i))));
                // dense vecs never remove; for the default representation either is fine but must be consistent
                let dense = repr == 1 || (repr == 0 && r.is_none() && model.contains_key(&i) && S::DENSE);
                if repr == 1 && r.is_some() {
                    bad!("a dense vec removed {i}");
                }
                if !dense {
                    let want = model.remove(&i);
                    let got = r.map(K::state);
                    if got != want {
                        bad!("remove of {i} returned {got:?}, its state was {want:?}");
                    }
                    rep.count("removals checked", want.is_some() as u64);
                }
            }
            15 if mode == Mode::C10 => {
                log.push("init_all_dense".into());
                let read = |v: &V<K, S>| scrape::<K, _>(v).map(|g| sorted(&g));
                let before = read(&v);
                v.init_all_dense();
                let (before, after) = match (before, read(&v)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(e), _) | (_, Err(e)) => bad!("{e}"),
                };
                for (l, m) in &after {
                    let want = before.iter().find(|x| x.0 == *l).map(|x| x.1.clone());
                    if *m != want.clone().unwrap_or_else(K::init) {
                        bad!("init_all_dense left series {l:?} at {m:?}, it was at {want:?} before");
                    }
                }
                rep.count("series compared across eager initialisation", after.len() as u64);
                let dense = match repr {
                    1 => true,
                    2 => false,
                    _ => S::cardinality() == Some(v.get_cardinality().0) && S::cardinality() == Some(n) && S::DENSE,
                };
                if dense {
                    for k in 0..n {
                        model.entry(k).or_insert_with(K::init);
                    }
                    if S::cardinality() != Some(n) {
                        bad!("harness: keys do not cover the set");
                    }
                }
            }
            16 => {
                if let Some(b) = S::bad(rng.below(1000)) {
                    log.push("outside group".into());
                    if v.try_with_labels(b).is_some() {
                        bad!("a label group outside the set got an identifier");
                    }
                    let k = rng.below(1000);
                    let op = K::rand(rng);
                    let how = rng.below(3);
                    let one = |v: &mut V<K, S>| {
                        catch(|| match how {
                            0 => {
                                v.with_labels(S::bad(k).unwrap());
                            }
                            1 => K::label(v, S::bad(k).unwrap(), op),
                            _ => K::label_mut(v, S::bad(k).unwrap(), op),
                        })
                        .is_err()
                    };
                    let mut rejected = vec![one(&mut v)];
                    for (r, o) in &mut others {
                        if o.try_with_labels(S::bad(k).unwrap()).is_some() {
                            bad!("a label group outside the set got an identifier in repr {r}");
                        }
                        rejected.push(one(o));
                    }
                    if rejected.contains(&false) {
                        bad!("recording a group outside the set was not rejected: {rejected:?}");
                    }
                    rep.count("groups outside the set rejected", 1);
                }
            }
            17 => {
                // metadata as constructed, everywhere
                if !K::meta_same(v.metadata()) {
                    bad!("metadata() differs from the metadata given");
                }
                if let Some(k) = model.keys().next().copied() {
                    let id = v.with_labels(S::group(k));
                    let a = K::meta_same(v.get_metric(id).metadata());
                    let b = K::meta_same(v.get_metric_mut(id).metadata());
                    if !a || !b {
                        bad!("metadata of a series differs from the metadata given");
                    }
                }
            }
            _ => {}
        }
        if bulk && step == len / 2 {
            // grow: many series at once
            let m = n.min(600);
            for k in 0..m {
                let op = K::unit();
                K::label(&v, S::group(k), op);
                K::apply(model.entry(k).or_insert_with(K::init), op);
                for (_, o) in &mut others {
                    K::label(o, S::group(k), op);
                }
            }
            log.push(format!("bulk {m}"));
        }
        rep.count("operations", 1);
        if mode == Mode::C10 {
            let (lo, hi) = v.get_cardinality();
            if lo != model.len() {
                bad!("get_cardinality reports {lo} series, {} are present", model.len());
            }
            if hi != S::cardinality() {
                bad!("upper bound {hi:?}, the label cardinalities multiply to {:?}", S::cardinality());
            }
            rep.count("cardinalities compared", 1);
        }
        let every = if model.len() > 200 { 40 } else { 5 };
        if step % every == 0 || step + 1 == len {
            let want = expect::<K, S>(&model);
            let got = match scrape::<K, _>(&v) {
                Ok(g) => g,
                Err(e) => bad!("{e}"),
            };
            let gs = sorted(&got);
            if mode == Mode::C10 {
                // presence only: the values belong to other properties
                let a: Vec<_> = gs.iter().map(|x| &x.0).collect();
                let b: Vec<_> = want.iter().map(|x| &x.0).collect();
                if a != b {
                    bad!("the export shows {} series, {} are present", a.len(), b.len());
                }
            } else if !same(&gs, &want) {
                bad!("{}", diff(&gs, &want));
            }
            for (r, o) in &others {
                let g = match scrape::<K, _>(o) {
                    Ok(g) => sorted(&g),
                    Err(e) => bad!("repr {r}: {e}"),
                };
                if !same(&g, &gs) {
                    bad!("repr {r} differs from repr {repr}: {}", diff(&g, &gs));
                }
            }
            rep.count("exports compared", 1 + others.len() as u64);
            rep.count("max series in one export", 0);
            let mx = rep.counters.get_mut("max series in one export").unwrap();
            *mx = (*mx).max(want.len() as u64);
        }
    }
    rep.eval();
    if model.len() > 0 {
        rep.distinct(format!("{ctxs}{log:?}").as_bytes());
    }
    rep.sample(|| format!("{ctxs}: {:?} -> {} series", &log[..log.len().min(12)], model.len()));
}

/// single metrics: shared and exclusive paths, metadata
fn singles<K: Kind>(rep: &mut Report, rng: &mut Rng) {
    let mut a = measured::metric::Metric::<K::M>::with_metadata(K::meta());
    let mut b = measured::metric::Metric::<K::M>::with_metadata(K::meta());
    let mut m = K::init();
    let mut log = vec![];
    for _ in 0..rng.range(1, 30) {
        let op = K::rand(rng);
        log.push(op);
        K::apply(&mut m, op);
        match rng.below(3) {
            0 => K::single(&a, op),
            1 => K::guard(a.get_metric(), op),
            _ => K::ex(a.get_metric_mut(), op),
        }
        match rng.below(2) {
            0 => K::single_mut(&mut b, op),
            _ => K::single(&b, op),
        }
    }
    for x in [&a, &b] {
        match scrape::<K, _>(x) {
            Ok(v) if same(&v, &[(vec![], m.clone())]) => {}
            r => rep.violation(format!("single {}: exported {r:?}, should be {m:?} after {log:?}", K::NAME)),
        }
    }
    let md = K::meta_same(a.get_metric().metadata()) && K::meta_same(a.get_metric_mut().metadata());
    rep.check(md, || format!("single {}: metadata differs", K::NAME));
    rep.eval();
    rep.distinct(format!("{}{log:?}", K::NAME).as_bytes());
}

/// every constructor of a vec over a default-able label set yields an equivalent empty vec
fn constructors(rep: &mut Report, rng: &mut Rng) {
    use measured::metric::counter::CounterState;
    type L = vh::derived::SmallSet;
    let mk = || L::new();
    let mut vs: Vec<(&str, MetricVec<CounterState, L>)> = vec![
        ("new", MetricVec::new()),
        ("dense", MetricVec::dense()),
        ("sparse", MetricVec::sparse()),
        ("default", Default::default()),
        ("with_metadata", MetricVec::with_metadata(())),
        ("dense_with_metadata", MetricVec::dense_with_metadata(())),
        ("sparse_with_metadata", MetricVec::sparse_with_metadata(())),
        ("with_label_set", MetricVec::with_label_set(mk())),
        ("dense_with_label_set", MetricVec::dense_with_label_set(mk())),
        ("sparse_with_label_set", MetricVec::sparse_with_label_set(mk())),
        ("with_label_set_and_metadata", MetricVec::with_label_set_and_metadata(mk(), ())),
        ("dense_with_label_set_and_metadata", MetricVec::dense_with_label_set_and_metadata(mk(), ())),
        ("sparse_with_label_set_and_metadata", MetricVec::sparse_with_label_set_and_metadata(mk(), ())),
    ];
    let ops: Vec<(usize, u64, Path)> = (0..rng.range(1, 30)).map(|_| (rng.below(12), rng.u64() >> 30, *rng.pick(&PATHS))).collect();
    let mut want: BTreeMap<usize, u64> = BTreeMap::new();
    for (i, x, _) in &ops {
        *want.entry(*i).or_default() += x;
    }
    let w = sorted(&want.iter().map(|(i, x)| (KSmall::labels(*i), *x)).collect::<Vec<_>>());
    for (name, v) in &mut vs {
        for (i, x, p) in &ops {
            record::<KCounter, _>(v, *p, KSmall::group(*i), Rec::IncBy(*x as i64));
        }
        let g = scrape::<KCounter, _>(v).unwrap_or_else(|e| rep.violation(e));
        let g = sorted(&g);
        rep.check(same(&g, &w), || format!("constructor {name}: {}", diff(&g, &w)));
        let removed = v.remove_metric(v.with_labels(KSmall::group(ops[0].0))).is_some();
        if name.starts_with("dense") || name.starts_with("sparse") {
            rep.check(removed == name.starts_with("sparse"), || format!("constructor {name}: removal gives {removed}"));
        }
    }
    // metadata reaches the series through every constructor that takes it
    use measured::metric::histogram::{HistogramState, Thresholds};
    let md = || Thresholds::<2>::with_buckets([1.0, 2.0]);
    let hs: Vec<(&str, MetricVec<HistogramState<2>, L>)> = vec![
        ("with_metadata", MetricVec::with_metadata(md())),
        ("dense_with_metadata", MetricVec::dense_with_metadata(md())),
        ("sparse_with_metadata", MetricVec::sparse_with_metadata(md())),
        ("with_label_set_and_metadata", MetricVec::with_label_set_and_metadata(mk(), md())),
        ("dense_with_label_set_and_metadata", MetricVec::dense_with_label_set_and_metadata(mk(), md())),
        ("sparse_with_label_set_and_metadata", MetricVec::sparse_with_label_set_and_metadata(mk(), md())),
    ];
    for (name, h) in &hs {
        h.observe(KSmall::group(3), 1.5);
        let out = export(h, "m");
        let f = vh::prom::families(&out).unwrap_or_else(|e| rep.violation(e));
        let r = read_hist(&f[0], &[1.0, 2.0]);
        rep.check(matches!(&r, Ok(s) if s.len() == 1 && s[0].1.buckets == [0, 1, 0]), || format!("histogram constructor {name}: {r:?}"));
    }
    rep.eval();
    rep.distinct(format!("{ops:?}").as_bytes());
    rep.count("constructors compared", 19);
}

/// label sets of no, one and about as many values as decide the default representation
fn sizes(rep: &mut Report, rng: &mut Rng) {
    use measured::metric::counter::CounterState;
    use vh::derived::{Big, BigSet};
    let (a, b) = *rng.pick(&[(0, 0), (0, 5), (5, 0), (0, 2000), (1, 1), (1, 2), (1, 1023), (32, 32), (25, 41), (1025, 1), (3, 700)]);
    for repr in 0..3 {
        let set = BigSet::new((0..a).map(vh::keys::Num).collect(), (0..b).map(vh::keys::Num).collect());
        let mut v: MetricVec<CounterState, BigSet> = match repr {
            0 => MetricVec::with_label_set(set),
            1 => MetricVec::dense_with_label_set(set),
            _ => MetricVec::sparse_with_label_set(set),
        };
        let n = (a * b) as usize;
        let ctx = |m: String| format!("a vec (representation {repr}) over {a} x {b} values: {m}");
        rep.check(v.get_cardinality() == (0, Some(n)), || ctx(format!("starts with cardinality {:?}", v.get_cardinality())));
        rep.check(v.try_with_labels(Big { row: Num(a), col: Num(0) }).is_none(), || ctx("has an identifier for a value that is not there".into()));
        rep.check(v.try_with_labels(Big { row: Num(0), col: Num(b) }).is_none(), || ctx("has an identifier for a value that is not there".into()));
        let mut live = 0;
        if n > 0 {
            v.inc_by(Big { row: Num(a - 1), col: Num(b - 1) }, 3);
            live = 1;
            rep.check(v.get_cardinality() == (1, Some(n)), || ctx(format!("has cardinality {:?} with one series", v.get_cardinality())));
        }
        let series = |v: &MetricVec<CounterState, BigSet>| scrape::<KCounter, _>(v);
        if rng.chance(1, 2) {
            v.init_all_dense();
            let c = v.get_cardinality();
            let ok = match repr {
                0 => c.0 == n || c.0 == live,
                1 => c.0 == n,
                _ => c.0 == live,
            };
            rep.check(ok && c.1 == Some(n), || ctx(format!("has cardinality {c:?} after init_all_dense")));
            live = c.0;
        }
        match series(&v) {
            Ok(s) => {
                rep.check(s.len() == live, || ctx(format!("exports {} series, {live} are live", s.len())));
                rep.check(s.iter().map(|x| x.1).sum::<u64>() == if n > 0 { 3 } else { 0 }, || ctx(format!("exports {s:?}")));
            }
            Err(e) => rep.violation(ctx(e)),
        }
    }
    rep.eval();
    rep.count("vecs over sets of particular sizes", 3);
}

/// Few of very many possible series, through every path and in every representation.
fn wide<K: Kind, S: KeySpace>(rep: &mut Report, rng: &mut Rng, mode: Mode) {
    let n = S::n();
    let reprs: &[u8] = if S::DENSE { &[0, 1, 2] } else { &[0, 2] };
    let mut vs: Vec<(u8, V<K, S>)> = reprs.iter().map(|&r| (r, build::<K, S>(r))).collect();
    let mut model: Model<K> = BTreeMap::new();
    let mut sig = vec![];
    for _ in 0..rng.range(50, 800) {
        // all over the set, more often near powers of two and the end
        let i = match rng.below(4) {
            0 => ((1usize << rng.range(6, 17)) + rng.below(5)).saturating_sub(2),
            1 => n - 1 - rng.below(5),
            _ => rng.below(n),
        } % n;
        sig.extend((i as u32).to_le_bytes());
        let op = K::rand(rng);
        for (_, v) in &mut vs {
            record::<K, _>(v, *rng.pick(&PATHS), S::group(i), op);
        }
        K::apply(model.entry(i).or_insert_with(K::init), op);
    }
    let want = expect::<K, S>(&model);
    for (r, v) in &vs {
        let what = format!("{} {} repr {r}, {} of {n} series", S::NAME, K::NAME, model.len());
        let got = match scrape::<K, _>(v) {
            Ok(g) => sorted(&g),
            Err(e) => rep.violation(format!("{what}: {e}")),
        };
        if mode != Mode::C10 {
            rep.check(same(&got, &want), || format!("{what}: {}", diff(&got, &want)));
        }
        rep.check(got.len() == want.len(), || format!("{what}: {} series are exported", got.len()));
        let c = v.get_cardinality();
        rep.check(mode != Mode::C10 || c == (model.len(), S::cardinality()), || format!("{what}: get_cardinality reports {c:?}, {} are present", model.len()));
    }
    rep.eval();
    rep.count("series in sets of more than 65536", model.len() as u64);
    rep.distinct(&sig);
}
struct WideKinds<'a>(&'a mut Report, &'a mut Rng, Mode);
impl WithKind for WideKinds<'_> {
    fn run<K: Kind>(&mut self) {
        wide::<K, KManyIdx>(self.0, self.1, self.2);
        wide::<K, KManyDyn>(self.0, self.1, self.2);
    }
}

struct Keys<'a, K>(&'a Ctx, &'a mut Report, &'a mut Rng, Mode, std::marker::PhantomData<K>);
impl<K: Kind> WithKeys for Keys<'_, K> {
    fn run<S: KeySpace>(&mut self) {
        if self.0.time_left() {
            history::<K, S>(self.0, self.1, self.2, self.3);
        }
    }
}
struct Kinds<'a>(&'a Ctx, &'a mut Report, &'a mut Rng, Mode);
impl WithKind for Kinds<'_> {
    fn run<K: Kind>(&mut self) {
        if self.3 == Mode::C09 {
            singles::<K>(self.1, self.2);
        }
        each_key_space(&mut Keys::<K>(self.0, self.1, self.2, self.3, std::marker::PhantomData));
    }
}

fn main() {
    vh::report::run(|ctx, rep| {
        let mode = match ctx.phase.as_str() {
            "C07" => Mode::C07,
            "C08" => Mode::C08,
            "C09" => Mode::C09,
            "C10" => Mode::C10,
            p => panic!("unknown phase {p:?}"),
        };
        rep.rule = "one evaluation = one random operation history on a vec (13 label sets x 4 metric types x 3 representations x 4 recording paths), compared with a reference model; non-trivial = distinct operation history that created at least one series";
        let mut rng = ctx.rng(7);
        if !ctx.small && mode != Mode::C08 {
            ctx.beside(|| each_kind(&mut WideKinds(rep, &mut rng, mode)));
        }
        let mut turn = 0;
        loop {
            turn += 1;
            if turn % 40 == 0 && !ctx.small && mode != Mode::C08 {
                each_kind(&mut WideKinds(rep, &mut rng, mode));
            }
            if mode == Mode::C09 {
                constructors(rep, &mut rng);
            }
            if matches!(mode, Mode::C09 | Mode::C10) {
                for _ in 0..ctx.n(10, 2) {
                    sizes(rep, &mut rng);
                }
            }
            each_kind(&mut Kinds(ctx, rep, &mut rng, mode));
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
