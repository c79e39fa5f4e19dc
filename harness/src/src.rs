//! Choice source: every random decision of a case is one integer drawn here, so a case is a list of integers.
//! Smaller integers are simpler choices (0 is the simplest), which is what shrinking aims for.

use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_CHOICES: usize = 100_000;

/// Shared-memory log of the choices of the case a thread is running, readable by the supervisor after a crash.
pub struct Log {
    pub base: *mut AtomicU32, // [0] = state (0 idle, 1 running), [1] = len, [2..] choices
    pub cap: usize,
}
unsafe impl Send for Log {}
impl Log {
    pub fn begin(&self) {
        unsafe {
            (*self.base.add(1)).store(0, Ordering::SeqCst);
            (*self.base).store(1, Ordering::SeqCst);
        }
    }
    pub fn end(&self) {
        unsafe { (*self.base).store(0, Ordering::SeqCst) }
    }
    fn push(&self, v: u32) {
        unsafe {
            let n = (*self.base.add(1)).load(Ordering::Relaxed) as usize;
            if n < self.cap {
                (*self.base.add(2 + n)).store(v, Ordering::Relaxed);
                (*self.base.add(1)).store(n as u32 + 1, Ordering::Relaxed);
            }
        }
    }
}

enum Mode {
    Random([u64; 4]),
    Replay(Vec<u32>),
}

pub struct Src<'a> {
    mode: Mode,
    pub rec: Vec<u32>,
    log: Option<&'a Log>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl<'a> Src<'a> {
    pub fn random(seed: u64, log: Option<&'a Log>) -> Self {
        let mut s = seed;
        let st = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
        Self { mode: Mode::Random(st), rec: vec![], log }
    }
    pub fn replay(choices: Vec<u32>, log: Option<&'a Log>) -> Self {
        Self { mode: Mode::Replay(choices), rec: vec![], log }
    }
    /// A source that always makes the simplest choice.
    pub fn zero() -> Src<'static> {
        Src { mode: Mode::Replay(vec![]), rec: vec![], log: None }
    }

    fn bits(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Random(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Mode::Replay(_) => unreachable!(),
        }
    }

    /// A choice in 0..n.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.rec.len() >= MAX_CHOICES {
            0
        } else if matches!(self.mode, Mode::Random(_)) {
            ((self.bits() >> 32) * n as u64 >> 32) as u32
        } else {
            let i = self.rec.len();
            match &self.mode {
                Mode::Replay(c) => c.get(i).copied().unwrap_or(0).min(n - 1),
                _ => unreachable!(),
            }
        };
        self.rec.push(v);
        if let Some(l) = self.log {
            l.push(v);
        }
        v
    }
    /// Integer in lo..=hi, lo simplest.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo + 1).min(u32::MAX as i64) as u32) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    /// True with probability about pct/100; false is simpler.
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        if pct >= 100 {
            return true;
        }
        self.below(100) >= 100 - pct
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize].clone()
    }
    /// Index with the given weights; earlier indices are simpler.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// Geometric-ish count in lo..=hi: small mostly, occasionally up to hi.
    pub fn count(&mut self, lo: usize, typical: usize, hi: usize) -> usize {
        match self.weighted(&[70, 24, 6]) {
            0 => self.usize(lo, typical.min(hi)),
            1 => self.usize(lo, (typical * 2).min(hi)),
            _ => self.usize(lo, hi),
        }
    }
    /// A decimal with at most three fractional digits in [lo, hi]; simplest is the value nearest zero.
    pub fn num(&mut self, lo: f64, hi: f64) -> f64 {
        match self.weighted(&[45, 30, 25]) {
            0 => self.grid(lo, hi, 1.0),
            1 => self.grid(lo, hi, 0.25),
            _ => self.grid(lo, hi, 0.001),
        }
    }
    pub fn grid(&mut self, lo: f64, hi: f64, step: f64) -> f64 {
        let a = (lo / step).ceil() as i64;
        let b = (hi / step).floor() as i64;
        let k = if a <= 0 && b >= 0 {
            // zigzag around zero so that 0 is simplest
            let span = (b - a) as u32;
            let z = self.below(span.saturating_add(1)) as i64;
            let pos = b.min(-a);
            if z <= 2 * pos {
                if z % 2 == 0 { z / 2 } else { -(z + 1) / 2 }
            } else if b > -a {
                z - pos
            } else {
                -(z - pos)
            }
        } else if b < 0 {
            b - self.below((b - a) as u32 + 1) as i64
        } else {
            a + self.below((b - a).max(0) as u32 + 1) as i64
        };
        // exact decimal: k * step computed as integer thousandths
        let milli = (step * 1000.0).round() as i64;
        (k * milli) as f64 / 1000.0
    }
    pub fn seed(&mut self) -> u64 {
        (self.below(u32::MAX) as u64) << 16 ^ self.below(65536) as u64
    }
}
