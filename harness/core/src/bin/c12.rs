//! C12: runtime label sets map values to indices one to one.
use std::collections::HashMap;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher, RandomState};
use std::sync::Arc;

use indexmap::IndexSet;
use lasso::{Capacity, Key, LargeSpur, MemoryLimits, MicroSpur, MiniSpur, Rodeo, RodeoReader, Spur, ThreadedRodeo};
use measured::label::{DynamicLabelSet, FixedCardinalityLabel, FixedCardinalitySet, LabelSet, LabelTestVisitor, LabelValue, StaticLabelSet};
use measured::{CounterVec, LabelGroup};
use vh::keys::Num;
use vh::kinds::{scrape, KCounter};
use vh::report::{catch, run, worker};
use vh::sched::{delay, Gate};
use vh::{Ctx, Report, Rng};

mod derived_sets {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
    pub enum Seven {
        A,
        Bc,
        Def,
        G1,
        H,
        I,
        Last,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = DynGroupSet)]
    pub struct DynGroup<'a> {
        #[label(dynamic_with = ThreadedRodeo<MicroSpur>)]
        pub s: &'a str,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = SharedGroupSet)]
    pub struct SharedGroup<'a> {
        pub kind: Seven,
        #[label(dynamic_with = Arc<ThreadedRodeo<MiniSpur>>)]
        pub s: &'a str,
    }
}
use derived_sets::*;

/// everything hashes alike (or nearly so)
#[derive(Default, Clone)]
struct Poor(u64);
impl Hasher for Poor {
    fn finish(&self) -> u64 {
        self.0 & 1
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_add(b.iter().map(|x| *x as u64).sum::<u64>());
    }
}
type PoorState = BuildHasherDefault<Poor>;

fn words(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut k = 0;
    while v.len() < n {
        k += 1;
        let w = match r.below(5) {
            0 => format!("/api/v1/{k}"),
            1 => "a".repeat(r.below(20)),
            2 if r.chance(1, 10) => {
                let n = r.below(3000);
                r.any_string(n)
            }
            _ => r.any_string(8),
        };
        // the same word with a suffix, a prefix, other case: near misses
        for x in [w.clone(), format!("{w} "), w.to_uppercase()] {
            if v.len() < n && (x == w || r.chance(1, 4)) && seen.insert(x.clone()) {
                v.push(x);
            }
        }
    }
    r.shuffle(&mut v);
    v
}
fn strangers(r: &mut Rng, ws: &[String]) -> Vec<String> {
    let mut v = vec![String::new(), "\0".into()];
    for _ in 0..20 {
        v.push(r.any_string(10));
        if !ws.is_empty() {
            let w = r.pick(ws);
            v.extend([format!("{w}x"), format!(" {w}"), w.chars().skip(1).collect(), w.to_lowercase(), format!("{w}\0")]);
        }
    }
    v.retain(|x| !ws.contains(x));
    v
}

/// The judge for sets that do not grow. `vals` are the members, `out` are not in it.
fn fixed<'a, S, T>(rep: &mut Report, name: &str, set: &S, card: Option<usize>, vals: &[T], out: &[T])
where
    S: for<'x> LabelSet<Value<'x> = T>,
    T: Clone + PartialEq + std::fmt::Debug + LabelValue + 'a,
{
    let n = vals.len();
    let ctx = |m: String| format!("{name} of {n} values: {m}");
    rep.eval();
    rep.check(set.dynamic_cardinality() == Some(n), || ctx(format!("cardinality {:?}", set.dynamic_cardinality())));
    if let Some(c) = card {
        rep.check(c == n, || ctx(format!("fixed cardinality {c}")));
    }
    let mut at: HashMap<usize, usize> = HashMap::new();
    for round in 0..2 {
        for (k, v) in vals.iter().enumerate() {
            let Some(i) = set.encode(v.clone()) else { rep.violation(ctx(format!("{v:?} is in the set but absent"))) };
            rep.check(i < n, || ctx(format!("{v:?} has index {i}")));
            match at.insert(i, k) {
                None => rep.check(round == 0, || ctx(format!("{v:?} got another index {i}"))),
                Some(o) => rep.check(o == k, || ctx(format!("{v:?} and {:?} share index {i}", vals[o]))),
            }
            let back = set.decode(i);
            rep.check(&back == v, || ctx(format!("{v:?} has index {i}, which is {back:?}")));
            rep.check(back.visit(LabelTestVisitor) == v.visit(LabelTestVisitor), || ctx(format!("{v:?} renders differently once decoded")));
            rep.count("values encoded and decoded", 1);
        }
    }
    for o in out {
        match catch(|| set.encode(o.clone())) {
            Ok(None) => rep.count("values outside the set reported absent", 1),
            Ok(Some(i)) => rep.violation(ctx(format!("{o:?} is not in the set but has index {i}"))),
            Err(p) => rep.violation(ctx(format!("asking for {o:?} panics: {p}"))),
        }
    }
    let mut sig = format!("{name}{n}").into_bytes();
    for v in vals.iter().take(50) {
        sig.extend(v.visit(LabelTestVisitor).bytes());
        sig.push(0);
    }
    rep.distinct(&sig);
}

/// sets of borrowed strings: Value<'x> = &'x str is no single type, so this mirrors `fixed`
fn fixed_str<S>(rep: &mut Report, name: &str, set: &S, card: Option<usize>, vals: &[String], out: &[String])
where
    S: for<'x> LabelSet<Value<'x> = &'x str>,
{
    let n = vals.len();
    let ctx = |m: String| format!("{name} of {n} values: {m}");
    rep.eval();
    rep.check(set.dynamic_cardinality() == Some(n), || ctx(format!("cardinality {:?}", set.dynamic_cardinality())));
    if let Some(c) = card {
        rep.check(c == n, || ctx(format!("fixed cardinality {c}")));
    }
    let mut at: HashMap<usize, usize> = HashMap::new();
    for round in 0..2 {
        for (k, v) in vals.iter().enumerate() {
            let Some(i) = set.encode(v) else { rep.violation(ctx(format!("{v:?} is in the set but absent"))) };
            rep.check(i < n, || ctx(format!("{v:?} has index {i}")));
            match at.insert(i, k) {
                None => rep.check(round == 0, || ctx(format!("{v:?} got another index {i}"))),
                Some(o) => rep.check(o == k, || ctx(format!("{v:?} and {:?} share index {i}", vals[o]))),
            }
            let back = set.decode(i);
            rep.check(back == v, || ctx(format!("{v:?} has index {i}, which is {back:?}")));
            rep.count("values encoded and decoded", 1);
        }
    }
    for o in out {
        match catch(|| set.encode(o)) {
            Ok(None) => rep.count("values outside the set reported absent", 1),
            Ok(Some(i)) => rep.violation(ctx(format!("{o:?} is not in the set but has index {i}"))),
            Err(p) => rep.violation(ctx(format!("asking for {o:?} panics: {p}"))),
        }
    }
    let mut sig = format!("{name}{n}").into_bytes();
    for v in vals.iter().take(50) {
        sig.extend(v.bytes());
        sig.push(0);
    }
    rep.distinct(&sig);
}

fn reader<K: Key + std::hash::Hash, B: BuildHasher + Clone + Default>(rep: &mut Report, name: &str, ws: &[String], out: &[String]) {
    let mut rd = Rodeo::<K, B>::with_hasher(B::default());
    for w in ws {
        rd.get_or_intern(w);
    }
    let set: RodeoReader<K, B> = rd.into_reader();
    let c = FixedCardinalitySet::cardinality(&set);
    fixed_str(rep, name, &set, Some(c), ws, out);
    let a = Arc::new(set);
    let c = FixedCardinalitySet::cardinality(&a);
    fixed_str(rep, &format!("Arc of {name}"), &a, Some(c), ws, out);
    let a = Arc::new(a);
    let c = FixedCardinalitySet::cardinality(&a);
    fixed_str(rep, &format!("Arc of Arc of {name}"), &a, Some(c), ws, out);
    // a reader made from a concurrent interner
    let t = ThreadedRodeo::<K, RandomState>::with_hasher(RandomState::new());
    for w in ws {
        t.get_or_intern(w);
    }
    let set = t.into_reader();
    let c = FixedCardinalitySet::cardinality(&set);
    fixed_str(rep, &format!("{name} from a concurrent interner"), &set, Some(c), ws, out);
}

static PHF1: phf::OrderedSet<&'static str> = phf::phf_ordered_set! { "only" };
static PHF0: phf::OrderedSet<&'static str> = phf::phf_ordered_set! {};
static PHF: phf::OrderedSet<&'static str> = phf::phf_ordered_set! {
    "loop", "continue", "break", "fn", "extern", "", " ", "a", "b", "ab", "ba", "é", "日本", "\n", "/api/v1/users", "/api/v1/users/:id",
    "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "LOOP", "Loop"
};

fn fixed_sets(rep: &mut Report, r: &mut Rng) {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(200, 255),
        _ => r.range(2, 60),
    };
    let ws = words(r, n);
    let out = strangers(r, &ws);
    match r.below(9) {
        0 => reader::<Spur, RandomState>(rep, "RodeoReader", &ws, &out),
        1 => reader::<MiniSpur, RandomState>(rep, "RodeoReader of MiniSpur", &ws, &out),
        2 => reader::<MicroSpur, RandomState>(rep, "RodeoReader of MicroSpur", &ws, &out),
        3 => reader::<LargeSpur, PoorState>(rep, "RodeoReader with colliding hashes", &ws, &out),
        4 => {
            let set: IndexSet<String> = ws.iter().cloned().collect();
            let c = FixedCardinalitySet::cardinality(&set);
            fixed(rep, "IndexSet of String", &set, Some(c), &ws, &out);
            let a = Arc::new(set);
            let c = FixedCardinalitySet::cardinality(&a);
            fixed(rep, "Arc of IndexSet", &a, Some(c), &ws, &out);
        }
        5 => {
            let set: IndexSet<String, PoorState> = ws.iter().cloned().collect();
            let c = FixedCardinalitySet::cardinality(&set);
            fixed(rep, "IndexSet with colliding hashes", &set, Some(c), &ws, &out);
        }
        6 => {
            let ints: Vec<i64> = (0..n).map(|i| r.any_i64() ^ i as i64).collect();
            let mut vals: Vec<Num> = vec![];
            for i in ints {
                if !vals.contains(&Num(i)) {
                    vals.push(Num(i));
                }
            }
            let mut out: Vec<Num> = (0..20).map(|_| Num(r.any_i64())).chain((0..5).map(Num)).collect();
            out.retain(|x| !vals.contains(x));
            // a set that lost and regained members before use
            let mut set: IndexSet<Num> = vals.iter().cloned().collect();
            for o in out.iter().take(3) {
                set.insert(*o);
            }
            for o in out.iter().take(3) {
                set.shift_remove(o);
            }
            let c = FixedCardinalitySet::cardinality(&set);
            fixed(rep, "IndexSet of integers", &set, Some(c), &vals, &out);
            fixed(rep, "Arc of IndexSet of integers", &Arc::new(Arc::new(set)), None, &vals, &out);
        }
        7 => {
            for (s, name) in [(&PHF, "phf::OrderedSet"), (&PHF1, "phf::OrderedSet of one"), (&PHF0, "phf::OrderedSet of none")] {
                let ws: Vec<String> = s.iter().map(|x| x.to_string()).collect();
                let out: Vec<String> = out.iter().chain(ws.iter().map(|w| Box::leak(format!("{w}{w}!").into_boxed_str()) as &str).map(String::from).collect::<Vec<_>>().iter()).filter(|x| !ws.contains(x)).cloned().collect();
                let c = FixedCardinalitySet::cardinality(s);
                fixed_str(rep, name, s, Some(c), &ws, &out);
                for (i, w) in ws.iter().enumerate() {
                    rep.check(s.encode(w) == Some(i), || format!("{name}: {w:?} is not at its declared position {i}"));
                }
            }
        }
        _ => {
            let all = [Seven::A, Seven::Bc, Seven::Def, Seven::G1, Seven::H, Seven::I, Seven::Last];
            let s = StaticLabelSet::<Seven>::new();
            let c = FixedCardinalitySet::cardinality(&s);
            fixed(rep, "StaticLabelSet", &s, Some(c), &all, &[]);
            fixed(rep, "Arc of StaticLabelSet", &Arc::new(StaticLabelSet::<Seven>::default()), Some(Seven::cardinality()), &all, &[]);
        }
    }
}

// ---------------------------------------------------------------- growing sets

fn is_dynamic<S: DynamicLabelSet>(_: &S) {}

/// sequential growth, until the set is full (which it may be after `holds` words, not before)
fn grow<S>(rep: &mut Report, r: &mut Rng, name: &str, set: &S, ws: &[String], holds: usize)
where
    S: for<'x> LabelSet<Value<'x> = &'x str> + DynamicLabelSet,
{
    let ctx = |m: String| format!("{name}: {m}");
    rep.eval();
    is_dynamic(set);
    rep.check(set.dynamic_cardinality().is_none(), || ctx("a growing set has a cardinality".into()));
    let mut known: HashMap<&str, usize> = HashMap::new();
    let mut taken: HashMap<usize, &str> = HashMap::new();
    let mut refused = 0u64;
    let mut full_after = None;
    for (k, w) in ws.iter().enumerate() {
        // mostly new words, sometimes old ones
        for w in [w, &ws[r.below(k + 1)]] {
            let got = match catch(|| set.encode(w)) {
                Ok(g) => g,
                Err(p) => rep.violation(ctx(format!("encoding the {k}th word panics: {p}"))),
            };
            match (got, known.get(w.as_str())) {
                (None, Some(i)) => rep.violation(ctx(format!("{w:?} had index {i} and is now refused"))),
                (None, None) => {
                    refused += 1;
                    full_after.get_or_insert(known.len());
                }
                (Some(i), Some(o)) => rep.check(i == *o, || ctx(format!("{w:?} had index {o} and now has {i}"))),
                (Some(i), None) => {
                    if let Some(o) = taken.insert(i, w) {
                        rep.violation(ctx(format!("{w:?} and {o:?} share index {i}")));
                    }
                    known.insert(w, i);
                }
            }
        }
        if r.chance(1, 8) {
            // earlier assignments stay valid while it grows
            for (w, i) in known.iter().take(20) {
                rep.check(set.decode(*i) == *w, || ctx(format!("index {i} of {w:?} is now {:?}", set.decode(*i))));
            }
        }
    }
    for (w, i) in &known {
        rep.check(set.decode(*i) == *w && set.encode(w) == Some(*i), || ctx(format!("index {i} no longer belongs to {w:?}")));
    }
    rep.count("words interned", known.len() as u64);
    rep.count("new words refused by a full set", refused);
    if let Some(n) = full_after {
        rep.count("sets driven to full", 1);
        rep.check(n >= holds, || ctx(format!("refuses a new word after {n}")));
    }
    rep.distinct(format!("{name}{:?}", ws.iter().take(30).collect::<Vec<_>>()).as_bytes());
}

fn growing(rep: &mut Report, r: &mut Rng) {
    match r.below(5) {
        0 => {
            let n = r.range(1, 200);
            let ws = words(r, n);
            grow(rep, r, "ThreadedRodeo", &ThreadedRodeo::<Spur>::new(), &ws, usize::MAX);
        }
        1 => {
            // 255 keys
            let n = r.range(250, 300);
            let ws = words(r, n);
            let set = Arc::new(ThreadedRodeo::<MicroSpur>::new());
            grow(rep, r, "Arc of ThreadedRodeo with 255 keys", &set, &ws, 255);
            if n > 256 {
                rep.check(set.len() == 255, || format!("a set of 255 keys holds {} words", set.len()));
            }
        }
        2 => {
            let n = r.range(20, 200);
            let ws = words(r, n);
            let bytes = r.range(64, 1500);
            // everything allocated at once: growing up to a limit makes lasso 0.7 overrun its own arena
            let set = ThreadedRodeo::<Spur>::with_capacity_and_memory_limits(
                Capacity::new(8, std::num::NonZeroUsize::new(bytes).unwrap()),
                MemoryLimits::new(bytes),
            );
            grow(rep, r, "ThreadedRodeo with limited memory", &set, &ws, 0);
        }
        3 => {
            let n = r.range(1, 100);
            let ws = words(r, n);
            grow(rep, r, "ThreadedRodeo with colliding hashes", &Arc::new(Arc::new(ThreadedRodeo::<LargeSpur, PoorState>::with_hasher(PoorState::default()))), &ws, usize::MAX);
        }
        _ => {
            // through a vec: no two words share a series, a full set refuses
            let ws = words(r, 270);
            let v = CounterVec::with_label_set(DynGroupSet::new(ThreadedRodeo::<MicroSpur>::new()));
            let mut want: HashMap<String, u64> = HashMap::new();
            rep.eval();
            for k in 0..1500 {
                let w = r.pick(&ws);
                let Ok(id) = catch(|| v.try_with_labels(DynGroup { s: w })) else { rep.violation("a full set panics in try_with_labels") };
                match id {
                    Some(id) => {
                        v.get_metric(id).inc_by(k);
                        *want.entry(w.clone()).or_default() += k;
                    }
                    None => {
                        rep.check(!want.contains_key(w), || format!("{w:?} is known but refused"));
                        rep.check(want.len() == 255, || format!("a set of 255 keys refuses after {}", want.len()));
                        rep.count("new series refused by a full set", 1);
                    }
                }
            }
            let got = match scrape::<KCounter, _>(&v) {
                Ok(x) => x,
                Err(e) => rep.violation(format!("vec over a full set: {e}")),
            };
            let got: HashMap<String, u64> = got.into_iter().map(|(l, x)| (l[0].1.clone(), x)).collect();
            rep.check(got == want, || format!("vec over a full set exports {} series, recorded were {}", got.len(), want.len()));
            rep.distinct(format!("vec{:?}", &ws[..30]).as_bytes());
        }
    }
}

/// racing first uses: one index per word, the same for all threads, decodable at once
fn race<S>(ctx: &Ctx, rep: &mut Report, r: &mut Rng, name: &str, set: &S, ws: &[String], limit: Option<usize>)
where
    S: for<'x> LabelSet<Value<'x> = &'x str> + Sync,
{
    let threads = ctx.n(6, 3);
    let gate = Gate::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let logs: Vec<Result<Vec<Option<usize>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let gate = &gate;
                worker(s, move || {
                    let mut r = Rng::new(*seed);
                    let mut order: Vec<usize> = (0..ws.len()).collect();
                    // roughly the same order, so that threads meet at the same word
                    for i in 0..order.len() {
                        let j = (i + r.below(3)).min(order.len() - 1);
                        order.swap(i, j);
                    }
                    let mut log = vec![None; ws.len()];
                    gate.wait();
                    for k in order {
                        if r.chance(1, 16) {
                            delay(r.u64());
                        }
                        let i = set.encode(&ws[k]);
                        if let Some(i) = i {
                            let b = set.decode(i);
                            if b != ws[k] {
                                return Err(format!("{:?} got index {i}, which is {b:?}", ws[k]));
                            }
                        }
                        log[k] = i;
                    }
                    Ok(log)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a worker panicked".into()))).collect()
    });
    rep.eval();
    let mut final_ix: HashMap<usize, usize> = HashMap::new();
    let mut by_word: HashMap<usize, usize> = HashMap::new();
    let mut raced = 0u64;
    for l in logs {
        let l = match l {
            Ok(l) => l,
            Err(e) => rep.violation(format!("{name}: {e}")),
        };
        for (k, i) in l.into_iter().enumerate() {
            let Some(i) = i else { continue };
            if let Some(o) = by_word.insert(k, i) {
                raced += 1;
                rep.check(o == i, || format!("{name}: two threads got indices {o} and {i} for {:?}", ws[k]));
            }
            if let Some(o) = final_ix.insert(i, k) {
                rep.check(o == k, || format!("{name}: {:?} and {:?} share index {i}", ws[k], ws[o]));
            }
        }
    }
    for (k, i) in &by_word {
        rep.check(set.encode(&ws[*k]) == Some(*i) && set.decode(*i) == ws[*k], || format!("{name}: index {i} no longer belongs to {:?}", ws[*k]));
    }
    match limit {
        None => rep.check(by_word.len() == ws.len(), || format!("{name}: {} of {} words were refused", ws.len() - by_word.len(), ws.len())),
        Some(n) => {
            rep.check(by_word.len() <= n, || format!("{name}: {} words in a set of {n}", by_word.len()));
            rep.count("concurrent races into a full set", 1);
        }
    }
    rep.count("words first used by racing threads", raced);
    rep.distinct(format!("race{name}{:?}", ws.iter().take(30).collect::<Vec<_>>()).as_bytes());
}
fn races(ctx: &Ctx, rep: &mut Report, r: &mut Rng) {
    let n = ctx.n(r.range(20, 150), 6);
    let ws = words(r, n);
    match r.below(3) {
        0 => race(ctx, rep, r, "ThreadedRodeo", &ThreadedRodeo::<Spur>::new(), &ws, None),
        1 => race(ctx, rep, r, "Arc of ThreadedRodeo with colliding hashes", &Arc::new(ThreadedRodeo::<MiniSpur, PoorState>::with_hasher(PoorState::default())), &ws, None),
        _ => {
            let n = ctx.n(300, 6);
            let ws = words(r, n);
            race(ctx, rep, r, "ThreadedRodeo with 255 keys", &ThreadedRodeo::<MicroSpur>::new(), &ws, if ctx.small { None } else { Some(255) });
        }
    }
}

/// more members than any narrower index could tell apart
fn large(rep: &mut Report, r: &mut Rng, kind: usize) {
    let n = if kind < 4 { 66_000 } else { *r.pick(&[5_000, 33_000, 70_000, 132_000]) } + r.below(500);
    let ws: Vec<String> = (0..n).map(|i| format!("{:x}", i as u64 * 0x9e37_79b9)).collect();
    let out = strangers(r, &ws[..100]);
    let out: Vec<String> = out.into_iter().filter(|o| !o.is_empty() && !o.bytes().all(|b| b.is_ascii_hexdigit())).collect();
    match kind % 4 {
        0 => {
            let set: IndexSet<String> = ws.iter().cloned().collect();
            let c = FixedCardinalitySet::cardinality(&set);
            if kind % 8 < 4 {
                fixed(rep, "large IndexSet", &set, Some(c), &ws, &out);
            } else {
                let set = Arc::new(set);
                let c = FixedCardinalitySet::cardinality(&set);
                fixed(rep, "Arc of a large IndexSet", &set, Some(c), &ws, &out);
            }
        }
        1 => {
            let mut rd = Rodeo::<Spur>::new();
            for w in &ws {
                rd.get_or_intern(w);
            }
            let set = rd.into_reader();
            let c = FixedCardinalitySet::cardinality(&set);
            if kind % 8 >= 4 {
                fixed_str(rep, "large RodeoReader", &set, Some(c), &ws, &out);
            } else {
                let set = Arc::new(set);
                let c = FixedCardinalitySet::cardinality(&set);
                fixed_str(rep, "Arc of a large RodeoReader", &set, Some(c), &ws, &out);
            }
        }
        2 => grow(rep, r, "large ThreadedRodeo", &ThreadedRodeo::<Spur>::new(), &ws, usize::MAX),
        _ => {
            // 65535 keys
            let set = Arc::new(ThreadedRodeo::<MiniSpur>::new());
            grow(rep, r, "Arc of ThreadedRodeo with 65535 keys", &set, &ws, 65_535);
            if n > 66_000 {
                rep.check(set.len() == 65_535, || format!("a set of 65535 keys holds {} words", set.len()));
            }
        }
    }
    rep.count("large sets (more than 5000 values)", 1);
}

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct (kind of set, members) or a distinct race of first uses";
        let mut r = ctx.rng(12);
        let mut i = 0;
        while ctx.time_left() && i < ctx.n(usize::MAX, 3) {
            i += 1;
            fixed_sets(rep, &mut r);
            if i % 3 == 0 {
                growing(rep, &mut r);
            }
            races(ctx, rep, &mut r);
            if !ctx.small && i % 50 == 20 {
                large(rep, &mut r, i / 50);
            }
            rep.sample(|| "readers, index sets, compile-time sets and growing interners over generated words".into());
        }
        let _ = SharedGroupSet::new;
    })
}
