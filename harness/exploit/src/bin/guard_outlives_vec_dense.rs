//! must not compile: a guard outlives its vec
use measured::CounterVec;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

fn main() {
    let g;
    {
        let v = CounterVec::<Set>::dense();
        v.inc(Kind::A);
        g = v.get_metric(v.with_labels(Kind::A));
    }
    g.inc();
}
