//! Phase C21 for the process collector: writer failures during its export.
use measured::metric::group::{ComposedGroup, MetricGroup};
use measured::metric::name::WithNamespace;
use measured::text::TextEncoder;
use measured_process::ProcessCollector;
use vh::faulty::{blank_values, inject, Faulty};
use vh::report::run;
use vh::{Ctx, Report};

fn main() {
    run(|ctx: &Ctx, rep: &mut Report| {
        rep.rule = "a distinct (export, write call, kind of fault) with its outcome judged";
        let mut r = ctx.rng(21);
        let own = ProcessCollector::for_self();
        let init = ProcessCollector::new(1);
        // no such process
        let none = ProcessCollector::new(i32::MAX);
        let mut i = 0;
        while ctx.time_left() {
            i += 1;
            let export = |e: &mut TextEncoder<Faulty>| match i % 4 {
                0 => own.collect_group_into(e),
                1 => WithNamespace::new("process", &own).collect_group_into(e),
                2 => ComposedGroup(&none, WithNamespace::new("init", &init)).collect_group_into(e),
                _ => ComposedGroup(WithNamespace::new("process", Some(&own)), WithNamespace::new("init", &init)).collect_group_into(e),
            };
            let mut clean = TextEncoder::new(Faulty::new(None, 0));
            export(&mut clean).expect("no fault");
            let want = blank_values(&clean.writer.out);
            rep.check(want.len() > 200, || format!("too little was exported:\n{}", String::from_utf8_lossy(&want)));
            inject(rep, &mut r, &blank_values, &export, &|out| {
                let out = out.strip_prefix(b"\n").unwrap_or(out);
                if blank_values(out) == want { Ok(()) } else { Err("it differs from a fault-free export".into()) }
            });
            rep.count("exports of the process collector failed at every write", 1);
        }
    })
}
