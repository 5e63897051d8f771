//! must not compile: a user defined metric bound to its thread is created in another
use measured::metric::{MetricType, MetricVec};
use std::rc::Rc;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

thread_local!(static SHARED: Rc<u64> = Rc::new(5));
struct Bound(Rc<u64>);
impl Default for Bound {
    fn default() -> Self {
        Bound(SHARED.with(|s| s.clone()))
    }
}
impl MetricType for Bound {
    type Metadata = ();
}
fn main() {
    let v = MetricVec::<Bound, Set>::sparse();
    let mine = v.get_metric(v.with_labels(Kind::A)).0.clone();
    std::thread::scope(|s| {
        s.spawn(|| {
            for _ in 0..50 {
                drop(v.get_metric(v.with_labels(Kind::A)).0.clone());
            }
        });
        for _ in 0..50 {
            drop(mine.clone());
        }
    });
}
