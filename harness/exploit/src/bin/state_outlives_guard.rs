//! must not compile: a reference out of a guard outlives the guard, the state is removed meanwhile
use measured::metric::{MetricType, MetricVec};
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, measured::FixedCardinalityLabel)]
#[label(singleton = "kind")]
#[allow(dead_code)]
enum Kind {
    A,
    B,
}
type Set = measured::label::StaticLabelSet<Kind>;

#[derive(Default)]
struct Text(Box<u64>);
impl MetricType for Text {
    type Metadata = ();
}
fn main() {
    let v = MetricVec::<Text, Set>::sparse();
    let id = v.with_labels(Kind::A);
    let r: &Text = {
        let g = v.get_metric(id);
        &*g
    };
    drop(v.remove_metric(id));
    println!("{}", r.0);
}
