//! Randomness, the event clock, time boxes.

use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix64(seed ^ 0xA5A5_1234_DEAD_BEEF))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix64(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// One total order for everything the harness does and sees: a ticket taken before a send is
/// smaller than one taken after the corresponding receive.
static CLOCK: AtomicU64 = AtomicU64::new(1);

pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix64(h)
}

pub fn sleep_ms(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}

#[derive(Clone, Copy)]
pub struct TimeBox {
    start: Instant,
    len: Duration,
}

impl TimeBox {
    pub fn secs(s: f64) -> TimeBox {
        TimeBox { start: Instant::now(), len: Duration::from_secs_f64(s) }
    }
    pub fn over(&self) -> bool {
        self.start.elapsed() >= self.len
    }
}

pub fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

/// workload seconds: quick or thorough
pub fn budget(quick: f64, thorough_s: f64) -> f64 {
    if let Ok(v) = std::env::var("VERIF_BUDGET") {
        if let Ok(f) = v.parse() {
            return f;
        }
    }
    if thorough() {
        thorough_s
    } else {
        quick
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 64 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
