//! Wakers, input generators over the choice tree, assertion macros.
use crate::engine::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Wake, Waker};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Counts wake-ups.
pub struct Count(pub AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
pub fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
impl Count {
    pub fn get(&self) -> usize {
        self.0.load(SeqCst)
    }
}

/// Every string over `alpha` of length `min..=max`.
pub fn string(alpha: &[u8], min: usize, max: usize) -> Vec<u8> {
    let n = min + choose(max - min + 1);
    (0..n).map(|_| alpha[choose(alpha.len())]).collect()
}
/// Every concatenation of `min..=max` tokens.
pub fn tokens(toks: &[&[u8]], min: usize, max: usize) -> Vec<u8> {
    let n = min + choose(max - min + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.extend_from_slice(toks[choose(toks.len())]);
    }
    v
}

/// How a byte string is cut into pieces.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cuts {
    /// one piece
    Whole,
    /// every composition (free choice at every inner position)
    All,
    /// every composition, with an optional empty piece at every cut and at both ends
    Empties,
    /// every set of cuts within the deviation budget; empty pieces count as another
    Dev,
    /// one byte per piece
    Bytes,
}
pub fn cut(b: &[u8], how: Cuts) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    match how {
        Cuts::Whole => return vec![b.to_vec()],
        Cuts::Bytes => return b.iter().map(|c| vec![*c]).collect(),
        _ => (),
    }
    if how == Cuts::Empties && flip() {
        out.push(vec![]);
    }
    if how == Cuts::Dev && dev(2) == 1 {
        out.push(vec![]);
    }
    for (i, c) in b.iter().enumerate() {
        if i > 0 {
            let k = match how {
                Cuts::All => choose(2),
                Cuts::Empties => choose(3),
                _ => dev(3),
            };
            if k > 0 {
                out.push(std::mem::take(&mut cur));
            }
            if k > 1 {
                out.push(vec![]);
            }
        }
        cur.push(*c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    if how == Cuts::Empties && flip() {
        out.push(vec![]);
    }
    out
}
pub fn show_pieces(p: &[Vec<u8>]) -> String {
    let v: Vec<String> = p.iter().take(40).map(|x| show(x)).collect();
    format!("[{}]{}", v.join(", "), if p.len() > 40 { "..." } else { "" })
}
/// Lengths that are interesting for anything that works in blocks.
pub fn block_lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    let mut p = 128;
    while p <= max {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((p as i64 + d) as usize);
        }
        p *= 2;
    }
    for m in [76usize, 78, 80, 100, 255, 256, 500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 998, 999, 1000, 1001, 1002, 1460, 1500] {
        v.push(m);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
/// Lengths around the larger powers of two (pages, pipe buffers, 16-bit counts).
pub fn large_lengths() -> Vec<usize> {
    let mut v = vec![];
    for p in [4096usize, 8192, 16384, 32768, 65536] {
        v.extend([p - 2, p - 1, p, p + 1, p + 2]);
    }
    v
}
/// Both of the above.
pub fn long_lengths(max: usize) -> Vec<usize> {
    let mut v = block_lengths(max);
    v.extend(large_lengths());
    v.sort();
    v.dedup();
    v
}
