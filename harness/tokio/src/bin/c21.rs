//! Phase C21 for the runtime collectors: writer failures during their export.
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::TextEncoder;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use vh::faulty::{blank_values, inject, Faulty};
use vh::report::run;
use vh::{Ctx, Report};

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct (export, write call, kind of fault) with its outcome judged";
        let mut r = ctx.rng(2121);
        let mut i = 0;
        while ctx.time_left() {
            i += 1;
            let mut rts = vec![];
            for k in 0..r.range(1, 2) {
                let mut b = if r.chance(1, 2) { tokio::runtime::Builder::new_current_thread() } else { tokio::runtime::Builder::new_multi_thread() };
                b.worker_threads(r.range(1, 3)).enable_all();
                if (i + k) % 2 == 0 {
                    b.enable_metrics_poll_count_histogram();
                    b.metrics_poll_count_histogram_buckets(r.range(2, 5));
                }
                let Ok(rt) = b.build() else { return };
                rt.block_on(async { tokio::spawn(async {}).await.unwrap() });
                rts.push(rt);
            }
            let named = NamedRuntimesCollector::new();
            for (k, rt) in rts.iter().enumerate() {
                named.add(rt.metrics(), format!("runtime {k}"));
            }
            let one = RuntimeCollector::new(rts[0].metrics());
            let export = |e: &mut TextEncoder<Faulty>| match i % 3 {
                0 => one.collect_group_into(e),
                1 => named.collect_group_into(e),
                _ => WithNamespace::new("tokio", &named).collect_group_into(e),
            };
            let mut clean = TextEncoder::new(Faulty::new(None, 0));
            export(&mut clean).expect("no fault");
            let want = blank_values(&clean.writer.out);
            rep.check(want.len() > 1000, || format!("too little was exported:\n{}", String::from_utf8_lossy(&want)));
            inject(rep, &mut r, &blank_values, &export, &|out| {
                let out = out.strip_prefix(b"\n").unwrap_or(out);
                if blank_values(out) == want { Ok(()) } else { Err("it differs from a fault-free export".into()) }
            });
            rep.count("exports of runtimes failed at every write", 1);
        }
    })
}
