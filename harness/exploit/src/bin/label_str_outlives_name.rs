//! must not compile: the text of a label name outlives the name
use measured::label::LabelName;
fn main() {
    let text: &str;
    {
        let s = String::from("some_label_name");
        let name: &LabelName = LabelName::from_str(&s);
        text = name.as_str();
        drop(s);
    }
    println!("{text}");
}
