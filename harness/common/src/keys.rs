//! Key spaces: label group sets together with the harness's own idea of their members.
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use indexmap::IndexSet;
use lasso::{Rodeo, RodeoReader, ThreadedRodeo};
use measured::label::{
    ComposedGroup, FixedCardinalityLabel, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor,
    StaticLabelSet,
};
use measured::LabelGroup;

use crate::derived::*;
use crate::prom::Labels;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Num(pub i64);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0)
    }
}

/// 2^40 possible values
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Bits40(pub u64);
impl LabelValue for Bits40 {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
impl FixedCardinalityLabel for Bits40 {
    fn cardinality() -> usize {
        1 << (usize::BITS / 2 + 8)
    }
    fn encode(&self) -> usize {
        self.0 as usize
    }
    fn decode(value: usize) -> Self {
        Bits40(value as u64)
    }
}

pub type Gr<'a, S> = <S as LabelGroupSet>::Group<'a>;

pub trait KeySpace: Send + Sync + 'static {
    type Set: LabelGroupSet<Unique = Self::U> + Send + Sync + 'static;
    type U: Send + Sync + Copy + Hash + Eq + 'static;
    const NAME: &'static str;
    /// can a dense vec be built?
    const DENSE: bool;
    fn make_set() -> Self::Set;
    /// number of keys the harness uses, all inside the set
    fn n() -> usize;
    fn group<'a>(i: usize) -> Gr<'a, Self::Set>;
    fn labels(i: usize) -> Labels;
    /// groups outside the set
    fn bad<'a>(_i: usize) -> Option<Gr<'a, Self::Set>> {
        None
    }
    /// expected total cardinality
    fn cardinality() -> Option<usize>;
}

fn l(x: &[(&str, &str)]) -> Labels {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub static ROUTES: [&str; 20] = [
    "/", "/a", "/b", "/a/b", "/\"q\"", "/back\\slash", "/new\nline", "/é", "/日本", "", " ", "/x y", "/{}", "/,", "/=", "/n\\n", "/c",
    "/d", "/e", "/f",
];
pub static NOT_ROUTES: [&str; 4] = ["/zz", "/A", "/ ", "//"];

pub fn users() -> &'static [String] {
    static U: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    U.get_or_init(|| {
        (0..400)
            .map(|i| match i % 5 {
                0 => format!("user-{i}"),
                1 => format!("u\"{i}\\"),
                2 => format!("ü\n{i}"),
                3 => format!("{i}"),
                _ => format!("U {i} "),
            })
            .collect()
    })
}

pub fn rodeo(xs: &[&'static str]) -> RodeoReader {
    xs.iter().copied().collect::<Rodeo>().into_reader()
}

pub struct KSmall;
impl KeySpace for KSmall {
    type Set = SmallSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "small-enums";
    const DENSE: bool = true;
    fn make_set() -> SmallSet {
        SmallSet::new()
    }
    fn n() -> usize {
        12
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Small { kind: KIND3[i / 4], code: CODE4[i % 4] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("kind", KIND3_S[i / 4]), ("status", CODE4_S[i % 4])])
    }
    fn cardinality() -> Option<usize> {
        Some(12)
    }
}

pub struct KArc;
impl KeySpace for KArc {
    type Set = Arc<SmallSet>;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "arc-small-enums";
    const DENSE: bool = true;
    fn make_set() -> Self::Set {
        Arc::new(SmallSet::new())
    }
    fn n() -> usize {
        12
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        KSmall::group(i)
    }
    fn labels(i: usize) -> Labels {
        KSmall::labels(i)
    }
    fn cardinality() -> Option<usize> {
        Some(12)
    }
}

/// 1200 combinations: sparse by default, dense on request
pub struct KBig;
impl KeySpace for KBig {
    type Set = BigSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "index-sets-1200";
    const DENSE: bool = true;
    fn make_set() -> BigSet {
        BigSet::new((0..30).map(|i| Num(i * 1000 - 7)).collect::<IndexSet<Num>>(), (0..40).map(|i| Num(-i)).collect::<IndexSet<Num>>())
    }
    fn n() -> usize {
        1200
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Big { row: Num((i / 40) as i64 * 1000 - 7), col: Num(-((i % 40) as i64)) }
    }
    fn labels(i: usize) -> Labels {
        let g = Self::group(i);
        l(&[("row", &g.row.0.to_string()), ("col", &g.col.0.to_string())])
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(match i % 3 {
            0 => Big { row: Num(1), col: Num(0) },
            1 => Big { row: Num(-7), col: Num(1) },
            _ => Big { row: Num(30_000 - 7), col: Num(-40) },
        })
    }
    fn cardinality() -> Option<usize> {
        Some(1200)
    }
}

pub struct KRoute;
impl KeySpace for KRoute {
    type Set = RouteSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "routes-reader";
    const DENSE: bool = true;
    fn make_set() -> RouteSet {
        RouteSet::new(rodeo(&ROUTES))
    }
    fn n() -> usize {
        60
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Route { route: ROUTES[i % 20], kind: KIND3[i / 20] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("route", ROUTES[i % 20]), ("route_kind", KIND3_S[i / 20])])
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(Route { route: NOT_ROUTES[i % 4], kind: KIND3[i % 3] })
    }
    fn cardinality() -> Option<usize> {
        Some(60)
    }
}

pub struct KDyn;
impl KeySpace for KDyn {
    type Set = DynSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "dynamic-users";
    const DENSE: bool = false;
    fn make_set() -> DynSet {
        DynSet::new(rodeo(&ROUTES[..5]))
    }
    fn n() -> usize {
        3 * 5 * 100
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Dyn { kind: KIND3[i % 3], route: ROUTES[(i / 3) % 5], user: &users()[i / 15] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("kind", KIND3_S[i % 3]), ("user", &users()[i / 15]), ("route", ROUTES[(i / 3) % 5])])
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(Dyn { kind: KIND3[i % 3], route: NOT_ROUTES[i % 4], user: &users()[i % 7] })
    }
    fn cardinality() -> Option<usize> {
        None
    }
}

pub struct KDyn2;
impl KeySpace for KDyn2 {
    type Set = Dyn2Set;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "two-dynamic";
    const DENSE: bool = false;
    fn make_set() -> Dyn2Set {
        Dyn2Set::new(Arc::new(ThreadedRodeo::new()))
    }
    fn n() -> usize {
        900
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Dyn2 { user: &users()[i % 30], tenant: &users()[i / 30] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("user", &users()[i % 30]), ("tenant", &users()[i / 30])])
    }
    fn cardinality() -> Option<usize> {
        None
    }
}

/// composed, fixed
pub struct KComp;
impl KeySpace for KComp {
    type Set = ComposedGroup<SmallSet, RouteSet>;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "composed-fixed";
    const DENSE: bool = true;
    fn make_set() -> Self::Set {
        ComposedGroup(SmallSet::new(), RouteSet::new(rodeo(&ROUTES[..4])))
    }
    fn n() -> usize {
        12 * 12
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        let j = i / 12;
        ComposedGroup(KSmall::group(i % 12), Route { route: ROUTES[j % 4], kind: KIND3[j / 4] })
    }
    fn labels(i: usize) -> Labels {
        let j = i / 12;
        let mut x = l(&[("kind", KIND3_S[(i % 12) / 4]), ("status", CODE4_S[i % 4])]);
        x.extend(l(&[("route", ROUTES[j % 4]), ("route_kind", KIND3_S[j / 4])]));
        x
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(ComposedGroup(KSmall::group(i % 12), Route { route: ROUTES[4 + i % 3], kind: KIND3[0] }))
    }
    fn cardinality() -> Option<usize> {
        Some(144)
    }
}

/// composed, with a dynamic half; nested composition and a shared pointer inside
pub struct KComp3;
impl KeySpace for KComp3 {
    type Set = ComposedGroup<StaticLabelSet<Op5>, ComposedGroup<Arc<SmallSet>, Dyn2Set>>;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "composed-dynamic";
    const DENSE: bool = false;
    fn make_set() -> Self::Set {
        ComposedGroup(StaticLabelSet::new(), ComposedGroup(Arc::new(SmallSet::new()), KDyn2::make_set()))
    }
    fn n() -> usize {
        5 * 12 * 20
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        ComposedGroup(OP5[i % 5], ComposedGroup(KSmall::group((i / 5) % 12), KDyn2::group(i / 60 * 31)))
    }
    fn labels(i: usize) -> Labels {
        let mut x = l(&[("op", OP5_S[i % 5])]);
        x.extend(KSmall::labels((i / 5) % 12));
        x.extend(KDyn2::labels(i / 60 * 31));
        x
    }
    fn cardinality() -> Option<usize> {
        None
    }
}

pub struct KSingle;
impl KeySpace for KSingle {
    type Set = StaticLabelSet<Op5>;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "singleton-enum";
    const DENSE: bool = true;
    fn make_set() -> Self::Set {
        StaticLabelSet::new()
    }
    fn n() -> usize {
        5
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        OP5[i]
    }
    fn labels(i: usize) -> Labels {
        l(&[("op", OP5_S[i])])
    }
    fn cardinality() -> Option<usize> {
        Some(5)
    }
}

pub static WORDS: [&str; 5] = ["loop", "continue", "break", "fn", "extern"];
pub struct KPhf;
impl KeySpace for KPhf {
    type Set = PhfKeySet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "phf-words";
    const DENSE: bool = true;
    fn make_set() -> Self::Set {
        PhfKeySet::new(phf::phf_ordered_set! {"loop", "continue", "break", "fn", "extern"})
    }
    fn n() -> usize {
        20
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        PhfKey { word: WORDS[i % 5], code: CODE4[i / 5] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("word", WORDS[i % 5]), ("code", CODE4_S[i / 5])])
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(PhfKey { word: ["Loop", "", "f", "externn"][i % 4], code: CODE4[i % 4] })
    }
    fn cardinality() -> Option<usize> {
        Some(20)
    }
}

pub struct KEmpty;
impl KeySpace for KEmpty {
    type Set = EmptySet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "no-fields";
    const DENSE: bool = true;
    fn make_set() -> Self::Set {
        EmptySet::new()
    }
    fn n() -> usize {
        1
    }
    fn group<'a>(_: usize) -> Gr<'a, Self::Set> {
        Empty {}
    }
    fn labels(_: usize) -> Labels {
        vec![]
    }
    fn cardinality() -> Option<usize> {
        Some(1)
    }
}

/// huge fixed cardinality: only sparse is possible
pub struct KWide;
impl KeySpace for KWide {
    type Set = WideSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "wide-2^40";
    const DENSE: bool = false;
    fn make_set() -> Self::Set {
        WideSet::new()
    }
    fn n() -> usize {
        600
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        // low bits all equal for half of them: differs only in high bits
        let j = (i / 3) as u64;
        let hi = if j % 2 == 0 { j << (usize::BITS / 2 - 2) } else { j };
        Wide { hi: Bits40(hi), kind: KIND3[i % 3] }
    }
    fn labels(i: usize) -> Labels {
        let g = Self::group(i);
        l(&[("hi", &g.hi.0.to_string()), ("kind", KIND3_S[i % 3])])
    }
    fn cardinality() -> Option<usize> {
        Some(3 << (usize::BITS / 2 + 8))
    }
}

/// More series than small tables, 16 bit identifiers and usual thresholds expect. Not part of
/// `each_key_space`.
pub struct KManyDyn;
impl KeySpace for KManyDyn {
    type Set = Dyn2Set;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "many-dynamic";
    const DENSE: bool = false;
    fn make_set() -> Dyn2Set {
        Dyn2Set::new(Arc::new(ThreadedRodeo::new()))
    }
    fn n() -> usize {
        400 * 400
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Dyn2 { user: &users()[i % 400], tenant: &users()[i / 400] }
    }
    fn labels(i: usize) -> Labels {
        l(&[("user", &users()[i % 400]), ("tenant", &users()[i / 400])])
    }
    fn cardinality() -> Option<usize> {
        None
    }
}
pub struct KManyIdx;
impl KeySpace for KManyIdx {
    type Set = BigSet;
    type U = <Self::Set as LabelGroupSet>::Unique;
    const NAME: &'static str = "many-index-sets";
    const DENSE: bool = true;
    fn make_set() -> BigSet {
        BigSet::new((0..350).map(Num).collect::<IndexSet<Num>>(), (0..400).map(|i| Num(-i)).collect::<IndexSet<Num>>())
    }
    fn n() -> usize {
        350 * 400
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Big { row: Num((i / 400) as i64), col: Num(-((i % 400) as i64)) }
    }
    fn labels(i: usize) -> Labels {
        let g = Self::group(i);
        l(&[("row", &g.row.0.to_string()), ("col", &g.col.0.to_string())])
    }
    fn cardinality() -> Option<usize> {
        Some(350 * 400)
    }
}

/// A hand-written set whose identifiers all (or mostly) hash alike and whose callbacks yield.
#[derive(Clone, Copy, Debug)]
pub struct ClashId(pub u32);
impl Hash for ClashId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        crate::sched::user_point();
        // 0..64 share one hash value; the rest fall on 4 values
        if self.0 < 64 {
            h.write_u64(7)
        } else {
            h.write_u64((self.0 % 4) as u64)
        }
    }
}
impl PartialEq for ClashId {
    fn eq(&self, o: &Self) -> bool {
        crate::sched::user_point();
        self.0 == o.0
    }
}
impl Eq for ClashId {}
pub struct ClashSet;
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Clash(pub u32);
impl LabelGroup for Clash {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        const N: &LabelName = LabelName::from_str("clash");
        v.write_value(N, &Num(self.0 as i64));
    }
}
impl LabelGroupSet for ClashSet {
    type Group<'a> = Clash;
    type Unique = ClashId;
    fn cardinality(&self) -> Option<usize> {
        None
    }
    fn encode_dense(&self, _: ClashId) -> Option<usize> {
        None
    }
    fn decode_dense(&self, _: usize) -> Clash {
        unreachable!()
    }
    fn encode(&self, v: Clash) -> Option<ClashId> {
        if v.0 >= 1_000_000 {
            return None;
        }
        Some(ClashId(v.0))
    }
    fn decode(&self, v: &ClashId) -> Clash {
        Clash(v.0)
    }
}
pub struct KClash;
impl KeySpace for KClash {
    type Set = ClashSet;
    type U = ClashId;
    const NAME: &'static str = "colliding-hashes";
    const DENSE: bool = false;
    fn make_set() -> Self::Set {
        ClashSet
    }
    fn n() -> usize {
        128
    }
    fn group<'a>(i: usize) -> Gr<'a, Self::Set> {
        Clash(i as u32)
    }
    fn labels(i: usize) -> Labels {
        l(&[("clash", &i.to_string())])
    }
    fn bad<'a>(i: usize) -> Option<Gr<'a, Self::Set>> {
        Some(Clash(1_000_000 + i as u32))
    }
    fn cardinality() -> Option<usize> {
        None
    }
}

/// Visit every key space with a generic closure-like type.
pub trait WithKeys {
    fn run<K: KeySpace>(&mut self);
}
pub fn each_key_space(f: &mut impl WithKeys) {
    f.run::<KSmall>();
    f.run::<KRoute>();
    f.run::<KDyn>();
    f.run::<KClash>();
    f.run::<KComp>();
    f.run::<KComp3>();
    f.run::<KBig>();
    f.run::<KDyn2>();
    f.run::<KSingle>();
    f.run::<KPhf>();
    f.run::<KArc>();
    f.run::<KEmpty>();
    f.run::<KWide>();
}
