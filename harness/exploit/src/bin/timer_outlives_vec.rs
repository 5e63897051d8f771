//! must not compile: a timer outlives its vec
use measured::metric::histogram::Thresholds;
use measured::HistogramVec;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

fn main() {
    let t;
    {
        let h = Box::new(HistogramVec::<Set, 2>::with_metadata(Thresholds::with_buckets([1.0, 2.0])));
        t = h.start_timer(Kind::A);
    }
    t.observe();
}
