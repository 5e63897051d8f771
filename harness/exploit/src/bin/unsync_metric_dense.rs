//! must not compile: a user defined metric without synchronisation shared by threads
use measured::metric::{MetricType, MetricVec};
use std::cell::Cell;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

#[derive(Default)]
struct Plain(Cell<u64>);
impl MetricType for Plain {
    type Metadata = ();
}
fn main() {
    let v = MetricVec::<Plain, Set>::dense();
    drop(v.get_metric(v.with_labels(Kind::A)));
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                let g = v.get_metric(v.with_labels(Kind::A));
                g.0.set(g.0.get() + 1);
            });
        }
    });
}
