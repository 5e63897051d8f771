//! C29: metric states are created once and dropped exactly once. A user defined metric type keeps a
//! ledger of every state ever created (live, dropped, guards held on it); all ways of creating,
//! touching, removing and dropping states are run against it, sequentially, racing and panicking.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use measured::label::LabelGroup;
use measured::metric::group::Encoding;
use measured::metric::name::MetricNameEncoder;
use measured::metric::{Metric, MetricEncoding, MetricFamilyEncoding, MetricLockGuard, MetricType, MetricVec};
use vh::keys::*;
use vh::prom::Labels;
use vh::report::{catch, worker};
use vh::sched::{self, Gate};
use vh::{Ctx, Report, Rng};

// ---------------------------------------------------------------- the ledger

const MAX: usize = if cfg!(miri) { 1 << 12 } else { 1 << 20 };
const MAGIC: u64 = 0x5eed_0f_7ac3d;
struct Slot {
    /// 0 unused, 1 live, 2 dropped
    state: AtomicUsize,
    guards: AtomicI64,
}
static SLOTS: [Slot; MAX] = [const { Slot { state: AtomicUsize::new(0), guards: AtomicI64::new(0) } }; MAX];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static CREATED: AtomicUsize = AtomicUsize::new(0);
static DROPPED: AtomicUsize = AtomicUsize::new(0);
static META: AtomicI64 = AtomicI64::new(0);
/// one in this many constructions panics (0: none)
static PANIC_EVERY: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);
static COLLECT_PANIC: AtomicBool = AtomicBool::new(false);
static FAULTS: Mutex<Vec<String>> = Mutex::new(vec![]);
thread_local!(static CTR: Cell<u64> = const { Cell::new(0) });

fn fault(m: String) {
    FAULTS.lock().unwrap_or_else(|e| e.into_inner()).push(m);
}

struct Tracked {
    id: usize,
    magic: u64,
    hits: AtomicU64,
    heap: Box<u64>,
}
struct Meta(u64);
impl Default for Meta {
    fn default() -> Self {
        META.fetch_add(1, SeqCst);
        Meta(MAGIC)
    }
}
impl Drop for Meta {
    fn drop(&mut self) {
        META.fetch_sub(1, SeqCst);
        if self.0 != MAGIC {
            fault(format!("metadata dropped with content {:#x}", self.0));
        }
        self.0 = 0;
    }
}
impl Default for Tracked {
    fn default() -> Self {
        sched::user_point();
        let e = PANIC_EVERY.load(SeqCst);
        if e > 0 {
            let n = CTR.with(|c| c.replace(c.get() + 1));
            if sched::rnd().wrapping_add(n) % e == 0 {
                PANICS.fetch_add(1, SeqCst);
                panic!("the constructor of a metric state panics");
            }
        }
        let id = NEXT.fetch_add(1, SeqCst);
        assert!(id < MAX, "ledger full");
        SLOTS[id].state.store(1, SeqCst);
        CREATED.fetch_add(1, SeqCst);
        sched::user_point();
        Tracked { id, magic: MAGIC ^ id as u64, hits: AtomicU64::new(0), heap: Box::new(id as u64) }
    }
}
impl Tracked {
    /// is this a state that exists?
    fn sound(&self, when: &str) -> bool {
        let ok = self.magic == MAGIC ^ self.id as u64 && self.id < MAX;
        if !ok {
            fault(format!("{when}: a state holds garbage (id {:#x})", self.id));
            return false;
        }
        let st = SLOTS[self.id].state.load(SeqCst);
        if st != 1 {
            fault(format!("{when}: state {} is used but it was {}", self.id, ["never created", "", "dropped"][st.min(2)]));
            return false;
        }
        if *self.heap != self.id as u64 {
            fault(format!("{when}: state {} points to the heap of another", self.id));
        }
        true
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        sched::user_point();
        if self.magic != MAGIC ^ self.id as u64 || self.id >= MAX {
            fault(format!("a state that holds garbage is dropped (id {:#x})", self.id));
            return;
        }
        let s = &SLOTS[self.id];
        match s.state.swap(2, SeqCst) {
            1 => {
                DROPPED.fetch_add(1, SeqCst);
            }
            2 => fault(format!("state {} is dropped twice", self.id)),
            _ => fault(format!("state {} is dropped but was never created", self.id)),
        }
        let g = s.guards.load(SeqCst);
        if g != 0 {
            fault(format!("state {} is dropped while {g} guards to it are alive", self.id));
        }
    }
}
impl MetricType for Tracked {
    type Metadata = Meta;
}

/// what an export sees: the labels and the identity of each state
#[derive(Default)]
struct Seen(Vec<(Labels, usize)>);
impl Encoding for Seen {
    type Err = std::convert::Infallible;
    fn write_help(&mut self, _: impl MetricNameEncoder, _: &str) -> Result<(), Self::Err> {
        Ok(())
    }
}
struct Collect(Labels);
impl measured::label::LabelGroupVisitor for Collect {
    type Output = ();
    fn write_value(&mut self, name: &measured::label::LabelName, x: &impl measured::label::LabelValue) {
        struct S;
        impl measured::label::LabelVisitor for S {
            type Output = String;
            fn write_int(self, x: i64) -> String {
                x.to_string()
            }
            fn write_float(self, x: f64) -> String {
                x.to_string()
            }
            fn write_str(self, x: &str) -> String {
                x.to_string()
            }
        }
        self.0.push((name.as_str().to_string(), x.visit(S)));
    }
}
impl MetricEncoding<Seen> for Tracked {
    fn write_type(_: impl MetricNameEncoder, _: &mut Seen) -> Result<(), std::convert::Infallible> {
        Ok(())
    }
    fn collect_into(&self, m: &Meta, labels: impl LabelGroup, _: impl MetricNameEncoder, e: &mut Seen) -> Result<(), std::convert::Infallible> {
        if COLLECT_PANIC.load(SeqCst) && sched::rnd() % 4 == 0 {
            panic!("exporting a metric state panics");
        }
        sched::user_point();
        if m.0 != MAGIC {
            fault("an export sees dead metadata".into());
        }
        if self.sound("export") {
            let mut c = Collect(vec![]);
            labels.visit_values(&mut c);
            sched::user_point();
            self.sound("export");
            e.0.push((c.0, self.id));
        }
        Ok(())
    }
}

/// use a guard the harness counts; its count falls before the guard is gone, so a state dropped with
/// a positive count is dropped under a guard
fn hold<R>(g: MetricLockGuard<'_, Tracked>, f: impl FnOnce(&Tracked) -> R) -> Option<R> {
    struct Un(usize);
    impl Drop for Un {
        fn drop(&mut self) {
            SLOTS[self.0].guards.fetch_sub(1, SeqCst);
        }
    }
    if !g.sound("fresh guard") {
        return None;
    }
    SLOTS[g.id].guards.fetch_add(1, SeqCst);
    let u = Un(g.id);
    if g.metadata().0 != MAGIC {
        fault("a guard sees dead metadata".into());
    }
    g.hits.fetch_add(1, SeqCst);
    let r = f(&g);
    g.sound("guard in use");
    drop(u);
    Some(r)
}

type TVec<S> = MetricVec<Tracked, <S as KeySpace>::Set>;

fn make<S: KeySpace>(repr: u8) -> TVec<S> {
    match repr {
        0 => MetricVec::with_label_set(S::make_set()),
        1 if S::DENSE => MetricVec::dense_with_label_set(S::make_set()),
        _ => MetricVec::sparse_with_label_set(S::make_set()),
    }
}
fn is_dense<S: KeySpace>(repr: u8) -> bool {
    repr == 1 && S::DENSE || repr == 0 && S::cardinality().is_some_and(|c| c <= 1024)
}
fn seen<F: MetricFamilyEncoding<Seen>>(f: &F) -> Vec<(Labels, usize)> {
    let mut e = Seen::default();
    let Ok(()) = f.collect_family_into(measured::metric::name::MetricName::from_str("m"), &mut e);
    e.0
}

/// books at the start of a run
struct Books {
    created: usize,
    dropped: usize,
    meta: i64,
}
impl Books {
    fn open() -> Books {
        NEXT.store(0, SeqCst);
        for s in &SLOTS[..CREATED.load(SeqCst).min(MAX)] {
            s.state.store(0, SeqCst);
        }
        CREATED.store(0, SeqCst);
        DROPPED.store(0, SeqCst);
        FAULTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        Books { created: 0, dropped: 0, meta: META.load(SeqCst) }
    }
    fn created(&self) -> usize {
        CREATED.load(SeqCst) - self.created
    }
    fn dropped(&self) -> usize {
        DROPPED.load(SeqCst) - self.dropped
    }
    fn faults(&self, rep: &mut Report, what: &str) {
        let f = FAULTS.lock().unwrap_or_else(|e| e.into_inner()).first().cloned();
        if let Some(f) = f {
            rep.violation(format!("{what}: {f}"));
        }
    }
    /// everything is gone: every state was dropped once
    fn close(&self, rep: &mut Report, what: &str) {
        self.faults(rep, what);
        rep.check(self.created() == self.dropped(), || format!("{what}: {} states were created, {} dropped after everything is gone", self.created(), self.dropped()));
        rep.check(META.load(SeqCst) == self.meta, || format!("{what}: metadata leaked or dropped twice ({})", META.load(SeqCst) - self.meta));
        rep.count("states created and dropped", self.created() as u64);
    }
}
fn live_ids<S: KeySpace>(rep: &mut Report, v: &TVec<S>, what: &str) -> BTreeMap<Labels, usize> {
    let s = seen(v);
    let ids: BTreeSet<usize> = s.iter().map(|x| x.1).collect();
    let m: BTreeMap<Labels, usize> = s.iter().cloned().collect();
    rep.check(ids.len() == s.len() && m.len() == s.len(), || format!("{what}: states or series exported twice: {s:?}"));
    m
}

// ---------------------------------------------------------------- one thread, all operations

fn sequential<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let dense = is_dense::<S>(repr);
    let b = Books::open();
    let mut v = make::<S>(repr);
    let n = S::n().min(*rng.pick(&[1, 2, 5, 30, 300]));
    let steps = ctx.n(rng.range(5, 400), 30);
    let panics = rng.chance(1, 2);
    PANIC_EVERY.store(if panics { rng.range(2, 6) as u64 } else { 0 }, SeqCst);
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let mut removed: Vec<Tracked> = vec![];
    let mut gone = 0; // removed and dropped already
    let mut hist: Vec<String> = vec![];
    let what = |h: &[String]| format!("{} repr {repr}: {}", S::NAME, h.join(" "));
    let mut inits = 0;
    for _ in 0..steps {
        let i = rng.below(n);
        let before = b.created();
        let op = rng.below(20);
        let mut fresh = None; // (index, id) reported by a touch
        match op {
            0..=5 => {
                hist.push(format!("touch{i}"));
                let r = catch(|| hold(v.get_metric(v.with_labels(S::group(i))), |t| t.id));
                match r {
                    Ok(Some(id)) => fresh = Some((i, id)),
                    Ok(None) => {}
                    Err(p) => rep.check(p.contains("the constructor"), || format!("{}: {p}", what(&hist))),
                }
            }
            6..=9 => {
                hist.push(format!("mut{i}"));
                let id = v.with_labels(S::group(i));
                let r = catch(|| {
                    let m = v.get_metric_mut(id);
                    m.sound("exclusive guard");
                    m.id
                });
                match r {
                    Ok(id) => fresh = Some((i, id)),
                    Err(p) => rep.check(p.contains("the constructor"), || format!("{}: {p}", what(&hist))),
                }
            }
            10..=13 => {
                hist.push(format!("remove{i}"));
                let got = v.remove_metric(v.with_labels(S::group(i)));
                match (got, if dense { None } else { model.remove(&i) }) {
                    (None, None) => {}
                    (Some(t), Some(id)) => {
                        t.sound("removed state");
                        rep.check(t.id == id, || format!("{}: removed state {} instead of {id}", what(&hist), t.id));
                        if rng.chance(1, 2) {
                            removed.push(t);
                        } else {
                            gone += 1;
                        }
                    }
                    (g, m) => rep.violation(format!("{}: removal returned {:?}, the series held {m:?}", what(&hist), g.as_ref().map(|t| t.id))),
                }
            }
            14 => {
                // leave one guard alive across other reading calls of another series
                hist.push("lookup".into());
                let _ = v.try_with_labels(S::group(i));
                if let Some(bad) = S::bad(i) {
                    rep.check(v.try_with_labels(bad).is_none(), || format!("{}: group outside the set accepted", what(&hist)));
                }
                rep.check(b.created() == before, || format!("{}: a lookup created a state", what(&hist)));
            }
            15 if inits < 2 && rng.chance(1, 3) => {
                inits += 1;
                hist.push("init".into());
                let r = catch(|| v.init_all_dense());
                if let Err(p) = &r {
                    rep.check(p.contains("the constructor"), || format!("{}: {p}", what(&hist)));
                }
                if dense {
                    // whatever it created appears; what was there stays
                    let now = live_ids::<S>(rep, &v, &what(&hist));
                    if r.is_ok() {
                        rep.check(now.len() == S::cardinality().unwrap(), || format!("{}: {} states after init_all_dense", what(&hist), now.len()));
                    }
                    for (i, id) in &model {
                        rep.check(now.get(&S::labels(*i)) == Some(id), || format!("{}: init replaced a state", what(&hist)));
                    }
                    for i in 0..S::n() {
                        if let Some(id) = now.get(&S::labels(i)) {
                            model.insert(i, *id);
                        }
                    }
                } else {
                    rep.check(b.created() == before, || format!("{}: init created states of a sparse vec", what(&hist)));
                }
            }
            16 => {
                hist.push("export".into());
                COLLECT_PANIC.store(panics && rng.chance(1, 3), SeqCst);
                let _ = catch(|| seen(&v));
                COLLECT_PANIC.store(false, SeqCst);
                rep.check(b.created() == before, || format!("{}: an export created a state", what(&hist)));
            }
            17 => {
                hist.push("drop-removed".into());
                gone += removed.len();
                removed.clear();
            }
            18 => {
                hist.push("move".into());
                let boxed = Box::new(v);
                v = *boxed;
            }
            _ => {
                hist.push("card".into());
                let c = v.get_cardinality().0;
                rep.check(c == model.len(), || format!("{}: cardinality {c}, live series {}", what(&hist), model.len()));
            }
        }
        if let Some((i, id)) = fresh {
            let made = b.created() - before;
            match model.insert(i, id) {
                Some(old) => rep.check(old == id && made == 0, || format!("{}: an existing series has state {id} instead of {old}, {made} created", what(&hist))),
                None => rep.check(made == 1 && id + 1 == NEXT.load(SeqCst), || format!("{}: {made} states created for one new series", what(&hist))),
            }
        }
        b.faults(rep, &what(&hist));
        let live = model.len() + removed.len();
        rep.check(b.created() == live + gone && b.dropped() == gone, || {
            format!("{}: {} created and {} dropped, but {live} alive and {gone} dropped by their owner", what(&hist), b.created(), b.dropped())
        });
        if hist.len() > 60 {
            hist.drain(..20);
        }
    }
    let now = live_ids::<S>(rep, &v, &what(&hist));
    let want: BTreeMap<Labels, usize> = model.iter().map(|(i, id)| (S::labels(*i), *id)).collect();
    rep.check(now == want, || format!("{}: states {now:?}, expected {want:?}", what(&hist)));
    drop(v);
    rep.check(b.dropped() == gone + model.len(), || format!("{}: dropping the vec dropped {} states of {}", what(&hist), b.dropped() - gone, model.len()));
    for t in &removed {
        t.sound("removed state, after the vec is gone");
    }
    drop(removed);
    PANIC_EVERY.store(0, SeqCst);
    b.close(rep, &what(&hist));
    rep.eval();
    rep.count("sequential histories", 1);
    rep.distinct(format!("{}{repr}{hist:?}", S::NAME).as_bytes());
    rep.sample(|| what(&hist));
}

fn singles(rep: &mut Report, rng: &mut Rng) {
    let b = Books::open();
    {
        let mut m: Metric<Tracked> = match rng.below(3) {
            0 => Metric::new(),
            1 => Metric::with_metadata(Meta::default()),
            _ => Default::default(),
        };
        let id = hold(m.get_metric(), |t| t.id);
        let id2 = m.get_metric_mut().id;
        let m = Box::new(m);
        let id3 = hold(m.get_metric(), |t| t.id);
        rep.check(id == Some(id2) && id3 == id && b.created() == 1, || format!("a single metric has states {id:?} {id2} {id3:?}, {} created", b.created()));
        rep.check(seen(&*m).len() == 1 && seen(&Some(*m)).len() == 1, || "a single metric is not exported once".into());
        b.faults(rep, "single metric");
    }
    b.close(rep, "single metric");
    PANIC_EVERY.store(1, SeqCst);
    let r = catch(|| drop(Metric::<Tracked>::new()));
    PANIC_EVERY.store(0, SeqCst);
    rep.check(r.is_err(), || "the panic of a constructor vanished".into());
    b.close(rep, "single metric whose constructor panics");
    rep.eval();
}

// ---------------------------------------------------------------- racing

fn racing<S: KeySpace>(ctx: &Ctx, rep: &mut Report, rng: &mut Rng) {
    let repr = rng.below(3) as u8;
    let dense = is_dense::<S>(repr);
    let b = Books::open();
    let v = Arc::new(make::<S>(repr));
    let threads = ctx.n(rng.range(2, 8), 3);
    let n = S::n().min(ctx.n(*rng.pick(&[1, 2, 3, 10, 60]), 2));
    let base = rng.below(S::n() - n + 1);
    let removers = rng.chance(2, 3);
    let ops = ctx.n(rng.range(20, 600), 12);
    let panics = rng.chance(1, 3);
    let lockstep = !removers && rng.chance(1, 2);
    PANIC_EVERY.store(if panics { 3 } else { 0 }, SeqCst);
    COLLECT_PANIC.store(panics, SeqCst);
    sched::CHAOS.store(if rng.chance(2, 3) { 150 } else { 0 }, SeqCst);
    let gate = Gate::new(threads);
    let what = format!("{} repr {repr}, {threads} threads, {n} series, removers {removers}, panics {panics}, lockstep {lockstep}", S::NAME);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    // the last one to finish drops the vec, sometimes
    let shared_end = rng.chance(1, 2);
    let kept: Mutex<Vec<Tracked>> = Mutex::new(vec![]);
    let mut got: HashMap<usize, BTreeSet<usize>> = HashMap::new();
    let mut removed_ids: Vec<usize> = vec![];
    let survivors = if shared_end { None } else { Some(v.clone()) };
    std::thread::scope(|s| {
        let (gate, kept) = (&gate, &kept);
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let v = v.clone();
                worker(s, move || {
                    sched::seed_thread(seed);
                    let mut r = Rng::new(seed);
                    let mut mine: Vec<(usize, usize)> = vec![];
                    let mut taken = vec![];
                    gate.wait();
                    for k in 0..ops {
                        let i = base + if lockstep { k % n } else { r.below(n) };
                        if lockstep && k < n {
                            gate.wait();
                        }
                        match r.below(if removers { 12 } else { 8 }) {
                            0..=5 => {
                                let x = catch(|| {
                                    hold(v.get_metric(v.with_labels(S::group(i))), |t| {
                                        // held for a while, and possibly unwound
                                        if r.chance(1, 4) {
                                            sched::delay(r.u64());
                                        }
                                        if r.chance(1, 50) {
                                            panic!("the user of a guard panics");
                                        }
                                        t.id
                                    })
                                });
                                match x {
                                    Ok(Some(id)) => mine.push((i, id)),
                                    Ok(None) => {}
                                    Err(p) if p.contains("the constructor") || p.contains("the user") => {}
                                    Err(p) => fault(p),
                                }
                            }
                            6 => {
                                if let Err(p) = catch(|| seen(&*v)) {
                                    if !p.contains("exporting a metric") {
                                        fault(p)
                                    }
                                }
                            }
                            7 => {
                                let c = v.get_cardinality().0;
                                if c > n {
                                    fault(format!("cardinality {c}"));
                                }
                            }
                            _ => {
                                if let Some(t) = v.remove_metric(v.with_labels(S::group(i))) {
                                    t.sound("removed state");
                                    let g = SLOTS[t.id].guards.load(SeqCst);
                                    if g != 0 {
                                        fault(format!("state {} was removed while {g} guards to it are alive", t.id));
                                    }
                                    taken.push(t.id);
                                    if r.chance(1, 3) {
                                        kept.lock().unwrap().push(t);
                                    }
                                }
                            }
                        }
                    }
                    (mine, taken)
                })
            })
            .collect();
        drop(v);
        for h in hs {
            let (m, t) = h.join().unwrap();
            for (i, id) in m {
                got.entry(i).or_default().insert(id);
            }
            removed_ids.extend(t);
        }
    });
    sched::CHAOS.store(0, SeqCst);
    PANIC_EVERY.store(0, SeqCst);
    COLLECT_PANIC.store(false, SeqCst);
    b.faults(rep, &what);
    // no state was handed out twice, none served two series
    let uniq: BTreeSet<usize> = removed_ids.iter().copied().collect();
    rep.check(uniq.len() == removed_ids.len(), || format!("{what}: one state was removed twice"));
    rep.check(!dense || removed_ids.is_empty(), || format!("{what}: a dense vec handed out states"));
    let all: Vec<usize> = got.values().flatten().copied().collect();
    rep.check(all.iter().collect::<BTreeSet<_>>().len() == all.len(), || format!("{what}: one state serves two series: {got:?}"));
    if !removers {
        for (i, ids) in &got {
            rep.check(ids.len() == 1, || format!("{what}: series {:?} was seen with states {ids:?}", S::labels(*i)));
        }
    }
    match &survivors {
        Some(v) => {
            let now = live_ids::<S>(rep, v, &what);
            rep.check(b.created() == now.len() + removed_ids.len(), || {
                format!("{what}: {} states created, {} live and {} removed", b.created(), now.len(), removed_ids.len())
            });
            for (l, id) in &now {
                let i = (base..base + n).find(|i| S::labels(*i) == *l);
                let ok = i.is_some_and(|i| !uniq.contains(id) && got.get(&i).is_none_or(|g| g.contains(id) || removers || panics));
                rep.check(ok, || format!("{what}: series {l:?} holds state {id}, seen {got:?}, removed {uniq:?}"));
            }
            rep.check(v.get_cardinality().0 == now.len(), || format!("{what}: cardinality {} with {} states", v.get_cardinality().0, now.len()));
            let k = kept.lock().unwrap().len();
            rep.check(b.dropped() == removed_ids.len() - k, || format!("{what}: {} dropped while the vec is alive, {} by their owners", b.dropped(), removed_ids.len() - k));
        }
        None => {
            let k = kept.lock().unwrap().len();
            rep.check(b.dropped() + k == b.created(), || format!("{what}: {} created, {} dropped, {k} kept after the vec is gone", b.created(), b.dropped()));
        }
    }
    drop(survivors);
    for t in kept.lock().unwrap().iter() {
        t.sound("removed state, after the vec is gone");
    }
    drop(kept);
    b.close(rep, &what);
    rep.eval();
    rep.count("racing histories", 1);
    rep.count("states removed in races", removed_ids.len() as u64);
    rep.count("constructor panics", PANICS.swap(0, SeqCst));
    rep.distinct(format!("{what}{}{}{:?}", b.created(), removed_ids.len(), all.len()).as_bytes());
    rep.sample(|| format!("{what}: {} states, {} removed", b.created(), removed_ids.len()));
}

struct Go<'a>(&'a Ctx, &'a mut Report, &'a mut Rng);
impl WithKeys for Go<'_> {
    fn run<S: KeySpace>(&mut self) {
        if !self.0.time_left() || (self.0.small && !["routes-reader", "colliding-hashes"].contains(&S::NAME)) {
            return;
        }
        let (c, r, g) = (self.0, &mut *self.1, &mut *self.2);
        sequential::<S>(c, r, g);
        singles(r, g);
        for _ in 0..c.n(3, 1) {
            racing::<S>(c, r, g);
        }
    }
}

fn main() {
    vh::report::run(|ctx, rep| {
        rep.rule = "one evaluation = one history (sequential with all operations, or 2..8 racing threads) on a fresh vec of ledger-keeping states, judged per step or at its end; distinct = (configuration, history or outcome)";
        let mut rng = ctx.rng(29);
        loop {
            each_key_space(&mut Go(ctx, rep, &mut rng));
            if ctx.small || !ctx.time_left() {
                break;
            }
        }
    });
}
