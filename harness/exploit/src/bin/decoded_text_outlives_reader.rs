//! must not compile: the text of a decoded static label outlives a reader set
use measured::label::LabelSet;
fn main() {
    let s;
    {
        let set = ["some text"].into_iter().collect::<lasso::Rodeo>().into_reader();
        s = LabelSet::decode(&set, 0);
    }
    println!("{s}");
}
