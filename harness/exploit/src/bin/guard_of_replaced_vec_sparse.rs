//! must not compile: a guard is used after exclusive access replaced the vec
use measured::CounterVec;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

fn main() {
    let mut v = CounterVec::<Set>::sparse();
    v.inc(Kind::A);
    let g = v.get_metric(v.with_labels(Kind::A));
    v = CounterVec::<Set>::sparse();
    g.inc();
    drop(v);
}
