//! must not compile: a label set without synchronisation shared by threads
use measured::label::{LabelGroupSet, LabelName, LabelGroup, LabelGroupVisitor};
use measured::CounterVec;
use std::cell::Cell;
#[derive(Default)]
struct Set(Cell<u64>);
struct G;
impl LabelGroup for G {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("x"), &"y");
    }
}
impl LabelGroupSet for Set {
    type Group<'a> = G;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        Some(1)
    }
    fn encode_dense(&self, v: usize) -> Option<usize> {
        Some(v)
    }
    fn decode_dense(&self, _: usize) -> G {
        G
    }
    fn encode(&self, _: G) -> Option<usize> {
        self.0.set(self.0.get() + 1);
        Some(0)
    }
    fn decode(&self, _: &usize) -> G {
        G
    }
}
fn main() {
    let v = CounterVec::<Set>::new();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| v.inc(G));
        }
    });
}
