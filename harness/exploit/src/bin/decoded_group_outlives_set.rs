//! must not compile: a decoded label group outlives the set that owns its text
use measured::label::{LabelGroupSet, LabelSet};
use measured::LabelGroup;
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = TextSet)]
struct Text<'a> {
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    text: &'a str,
}
fn main() {
    let g;
    {
        let set = TextSet::default();
        let id = LabelGroupSet::encode(&set, Text { text: "some text" }).unwrap();
        g = LabelGroupSet::decode(&set, &id);
    }
    println!("{}", g.text);
    let s;
    {
        let set: lasso::ThreadedRodeo = Default::default();
        let id = LabelSet::encode(&set, "more text").unwrap();
        s = LabelSet::decode(&set, id);
    }
    println!("{s}");
}
