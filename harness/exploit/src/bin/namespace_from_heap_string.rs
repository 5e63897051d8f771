//! must not compile: a namespace outlives its string
use measured::metric::name::{MetricName, MetricNameEncoder};
fn main() {
    let name;
    {
        let s = String::from("some_namespace");
        name = MetricName::from_str("x").in_namespace(&s);
    }
    let mut out = vec![];
    name.encode_utf8(&mut out).unwrap();
    println!("{out:?}");
}
