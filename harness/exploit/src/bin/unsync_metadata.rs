//! must not compile: metadata without synchronisation shared by threads
use measured::metric::{MetricType, MetricVec};
use std::cell::Cell;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

#[derive(Default)]
struct M;
impl MetricType for M {
    type Metadata = Cell<u64>;
}
fn main() {
    let v = MetricVec::<M, Set>::new();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                let m = v.metadata();
                m.set(m.get() + 1);
            });
        }
    });
}
