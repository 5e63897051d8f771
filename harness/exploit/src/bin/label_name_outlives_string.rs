//! must not compile: a label name outlives the string it was made of
use measured::label::LabelName;
fn main() {
    let name;
    {
        let s = String::from("some_label_name");
        name = LabelName::from_str(&s);
    }
    println!("{}", name.as_str());
}
