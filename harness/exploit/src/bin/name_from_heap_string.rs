//! must not compile: a metric name for ever, of a string that is not
use measured::metric::name::{MetricName, MetricNameEncoder};
fn main() {
    let name;
    {
        let s = String::from("some_metric_name");
        name = MetricName::from_str(&s);
    }
    let mut out = vec![];
    name.encode_utf8(&mut out).unwrap();
    println!("{out:?}");
}
