//! Linearizability checker (Wing & Gong with memoisation) for short histories on one number.
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LOp {
    Add(i64),
    Set(i64),
    Read(i64),
}
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub op: LOp,
    pub inv: u64,
    pub res: u64,
    pub thread: usize,
}

/// Is there a sequential order respecting real time in which every read sees the current value
/// (starting from `init`)? Ok(states explored) or Err(longest explainable prefix length).
pub fn linearizable(h: &[Ev], init: i64) -> Result<usize, usize> {
    assert!(h.len() <= 60);
    let full: u64 = if h.is_empty() { 0 } else { (1u64 << h.len()) - 1 };
    let mut seen: HashSet<(u64, i64)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    let mut best = 0;
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            return Ok(seen.len() + 1);
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        best = best.max(mask.count_ones() as usize);
        // an operation may come next if no other pending operation finished before it began
        let min_res = (0..h.len()).filter(|i| mask >> i & 1 == 0).map(|i| h[i].res).min().unwrap();
        for i in 0..h.len() {
            if mask >> i & 1 == 1 || h[i].inv > min_res {
                continue;
            }
            let next = match h[i].op {
                LOp::Add(d) => st.wrapping_add(d),
                LOp::Set(v) => v,
                LOp::Read(v) => {
                    if v != st {
                        continue;
                    }
                    st
                }
            };
            stack.push((mask | 1 << i, next));
        }
    }
    Err(best)
}

/// number of pairs of operations of different threads that overlap in time
pub fn overlaps(h: &[Ev]) -> usize {
    let mut n = 0;
    for i in 0..h.len() {
        for j in i + 1..h.len() {
            if h[i].thread != h[j].thread && h[i].inv < h[j].res && h[j].inv < h[i].res {
                n += 1;
            }
        }
    }
    n
}

/// signature of the interleaving: the order of invocation/response events with their operations
pub fn signature(h: &[Ev]) -> u64 {
    let mut ev: Vec<(u64, String)> = vec![];
    for e in h {
        ev.push((e.inv, format!("i{}{:?}", e.thread, e.op)));
        ev.push((e.res, format!("r{}", e.thread)));
    }
    ev.sort();
    let s: String = ev.into_iter().map(|x| x.1).collect();
    crate::rng::hash_bytes(s.as_bytes())
}
