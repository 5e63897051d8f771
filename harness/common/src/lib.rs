//! Shared monitor machinery: PRNG, reporting/evidence, panic policy, exposition parser,
//! key spaces, metric kinds and the reference models used by the checks.
pub mod alloc;
pub mod derived;
pub mod faulty;
pub mod keys;
pub mod kinds;
pub mod lin;
pub mod prom;
pub mod reg;
pub mod report;
pub mod rng;
pub mod sched;

pub use report::{Ctx, Report};
pub use rng::Rng;
