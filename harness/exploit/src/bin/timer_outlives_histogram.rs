//! must not compile: a timer outlives its histogram
use measured::metric::histogram::Thresholds;
use measured::Histogram;
fn main() {
    let t;
    {
        let h = Box::new(Histogram::<2>::with_metadata(Thresholds::with_buckets([1.0, 2.0])));
        t = h.start_timer();
    }
    t.observe();
}
