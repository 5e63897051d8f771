//! must not compile: a metric name outlives the string it was made of
use measured::metric::name::{MetricName, MetricNameEncoder};
fn main() {
    let name;
    {
        let s = String::from("some_metric_name");
        name = MetricName::try_from_str(&s).unwrap();
    }
    let mut out = vec![];
    name.encode_utf8(&mut out).unwrap();
    println!("{out:?}");
}
