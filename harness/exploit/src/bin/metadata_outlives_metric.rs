//! must not compile: metadata reached through a guard outlives the vec
use measured::metric::histogram::Thresholds;
use measured::Histogram;
fn main() {
    let m;
    {
        let h = Box::new(Histogram::<2>::with_metadata(Thresholds::with_buckets([1.0, 2.0])));
        m = h.get_metric().metadata().get();
    }
    println!("{m:?}");
}
