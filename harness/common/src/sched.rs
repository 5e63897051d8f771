//! Schedule perturbation: user callbacks and explicit points that sometimes yield, spin or sleep,
//! and a global event clock for recorded histories.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

/// 0 = off; otherwise the chance (per 1024) that a point delays.
pub static CHAOS: AtomicU32 = AtomicU32::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(1);
thread_local! { static R: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) }; }

pub fn seed_thread(s: u64) {
    R.with(|r| r.set(s.wrapping_mul(0x9E3779B97F4A7C15) | 1));
}
pub fn rnd() -> u64 {
    R.try_with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        x.wrapping_mul(0x2545F4914F6CDD1D)
    })
    .unwrap_or(0)
}
/// A point inside user callbacks (Hash, Eq, Default, Write): with CHAOS on it sometimes delays.
pub fn user_point() {
    let c = CHAOS.load(Ordering::Relaxed);
    if c == 0 {
        return;
    }
    let r = rnd();
    if (r >> 20) % 1024 < c as u64 {
        POINTS.fetch_add(1, Ordering::Relaxed);
        delay(r);
    }
}
pub fn delay(r: u64) {
    if cfg!(miri) {
        std::thread::yield_now();
        return;
    }
    match r % 4 {
        0 | 1 => {
            for _ in 0..(r >> 8) % 200 {
                std::hint::spin_loop();
            }
        }
        2 => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros((r >> 8) % 60)),
    }
}
/// event clock: strictly increasing, consistent with real time
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// A spinning barrier that releases all threads as simultaneously as possible.
pub struct Gate {
    n: u32,
    waiting: AtomicU32,
    gen: AtomicU32,
    stop: AtomicBool,
}
impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate { n: n as u32, waiting: AtomicU32::new(0), gen: AtomicU32::new(0), stop: AtomicBool::new(false) }
    }
    pub fn wait(&self) {
        let g = self.gen.load(Ordering::SeqCst);
        if self.waiting.fetch_add(1, Ordering::SeqCst) + 1 == self.n {
            self.waiting.store(0, Ordering::SeqCst);
            self.gen.fetch_add(1, Ordering::SeqCst);
        } else {
            let mut k = 0u32;
            while self.gen.load(Ordering::SeqCst) == g {
                k += 1;
                if cfg!(miri) || k > 20_000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
    }
    pub fn stop(&self) {
        self.stop.store(true, Ordering::SeqCst)
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }
}
