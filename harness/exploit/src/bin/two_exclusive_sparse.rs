//! must not compile: shared and exclusive access to one series at once
use measured::CounterVec;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

fn main() {
    let mut v = CounterVec::<Set>::sparse();
    let id = v.with_labels(Kind::A);
    let a = v.get_metric_mut(id);
    let b = v.get_metric_mut(id);
    a.inc();
    b.inc();
}
