//! Generation of cases from a recorded sequence of choices.

use std::io::Write;

/// Finaliser used for seeding and for hashing choice sequences.
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
    z ^ (z >> 32)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ (w.len() as u64);
    for v in w {
        h = mix(h ^ *v).wrapping_add(0x2545f4914f6cdd1d);
    }
    h
}

/// Source of all decisions of one case.
///
/// Every decision is an integer below a bound. Replayed decisions come from
/// a list (exhausted: 0), fresh ones from a seeded stream. By convention,
/// smaller numbers mean simpler cases.
pub struct G {
    replay: Vec<u64>,
    fresh: bool,
    state: u64,
    pub choices: Vec<u64>,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub want_notes: bool,
    trace: Option<std::fs::File>,
}

impl G {
    /// Fresh random case, optionally starting with fixed choices.
    pub fn fresh(seed: u64, prefix: Vec<u64>) -> Self {
        G { replay: prefix, fresh: true, state: seed, ..Self::empty() }
    }

    /// Replay of recorded choices.
    pub fn replay(choices: Vec<u64>) -> Self {
        G { replay: choices, fresh: false, ..Self::empty() }
    }

    fn empty() -> Self {
        G {
            replay: Vec::new(),
            fresh: false,
            state: 0,
            choices: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            notes: Vec::new(),
            want_notes: false,
            trace: None,
        }
    }

    /// Write every choice through to a file (used when a case may crash).
    pub fn trace_to(&mut self, path: &std::path::Path) {
        self.trace = std::fs::File::create(path).ok();
    }

    fn next_random(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    /// Choose an integer in `0..bound` (the full range if `bound` is 0).
    pub fn draw(&mut self, bound: u64) -> u64 {
        let pos = self.choices.len();
        let raw = if pos < self.replay.len() {
            self.replay[pos]
        } else if self.fresh {
            self.next_random()
        } else {
            0
        };
        let v = if bound == 0 {
            raw
        } else if raw < bound {
            raw
        } else {
            // Multiply-shift keeps fresh draws uniform.
            if pos < self.replay.len() {
                raw % bound
            } else {
                ((raw as u128 * bound as u128) >> 64) as u64
            }
        };
        if self.choices.len() > 2_000_000 {
            panic!("harness: case makes too many choices");
        }
        self.choices.push(v);
        if let Some(f) = self.trace.as_mut() {
            let _ = writeln!(f, "{}", v);
            let _ = f.flush();
        }
        v
    }

    /// Integer in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            self.draw(n as u64) as usize
        }
    }

    /// Integer in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            self.draw(0)
        } else {
            lo + self.draw(hi - lo + 1)
        }
    }

    /// Like `range()` but as `usize`.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True in `num` of `den` cases; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    /// Pick an element; shrinks to the first.
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        assert!(!v.is_empty());
        let i = self.below(v.len());
        &v[i]
    }

    /// Pick an index by weight; shrinks to the first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.draw(total);
        for (i, v) in w.iter().enumerate() {
            if r < *v {
                return i;
            }
            r -= *v;
        }
        unreachable!()
    }

    /// Number that is usually small but reaches up to `max`.
    pub fn small(&mut self, max: usize) -> usize {
        match self.weighted(&[6, 3, 1]) {
            0 => self.size(0, max.min(3)),
            1 => self.size(0, max.min(10)),
            _ => self.size(0, max),
        }
    }

    /// List with a varied length up to `max`. Each element is preceded by its
    /// own continue-decision, so that removing a block of choices removes the
    /// element.
    pub fn list<T>(&mut self, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut r = Vec::new();
        let hint = [2u64, 3, 5, 9, 20, 60][self.below(6)];
        while r.len() < max && self.draw(hint) != 0 {
            r.push(f(self));
        }
        r
    }

    /// Interesting unsigned value of the given bit width.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let mask: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v: u128 = match self.weighted(&[3, 3, 2, 2, 2]) {
            0 => self.draw(16) as u128,
            1 => {
                // random bits of random length
                let n = self.range(1, bits as u64) as u32;
                let r = ((self.draw(0) as u128) << 64) | if bits > 64 { self.draw(0) as u128 } else { 0 };
                r >> (128 - n)
            },
            2 => {
                // around a power of two
                let s = self.draw(bits as u64) as u32;
                let d = self.draw(3) as u128;
                (1u128 << s).wrapping_add(d).wrapping_sub(1)
            },
            3 => mask.wrapping_sub(self.draw(4) as u128),
            _ => {
                // distinct bytes, asymmetric under byte swaps
                let mut r = 0u128;
                let base = self.draw(200) as u128 + 1;
                let mut i = 0;
                while i < bits {
                    r |= ((base + 3 * (i as u128 / 8)) & 0xff) << i;
                    i += 8;
                }
                r
            },
        };
        v & mask
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        self.list(max, |g| g.draw(256) as u8)
    }

    /// Exactly `n` bytes, cheap in choices for large `n`.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let mut r = Vec::with_capacity(n);
        if n <= 16 {
            for _ in 0..n {
                r.push(self.draw(256) as u8);
            }
            return r;
        }
        let mut s = self.draw(0);
        for _ in 0..n {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            r.push((s >> 56) as u8);
        }
        r
    }

    /// Any unicode scalar value, biased to class boundaries.
    pub fn unicode(&mut self) -> char {
        match self.weighted(&[8, 2, 2, 2, 1]) {
            0 => (0x20 + self.draw(0x5f)) as u8 as char,
            1 => self.draw(0x20) as u8 as char,
            2 => *self.pick(&[
                '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{b2}', '\u{bd}', '\u{df}', '\u{e9}', '\u{130}',
                '\u{345}', '\u{660}', '\u{669}', '\u{7ff}', '\u{800}', '\u{966}', '\u{1680}', '\u{2000}',
                '\u{2028}', '\u{2029}', '\u{202f}', '\u{2160}', '\u{2460}', '\u{3000}', '\u{4e00}', '\u{d7ff}',
                '\u{e000}', '\u{feff}', '\u{ff10}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1d7d8}',
                '\u{1f600}', '\u{10ffff}',
            ]),
            3 => {
                let v = self.draw(0x800) as u32;
                char::from_u32(v).unwrap()
            },
            _ => {
                let v = self.draw(0x110000 - 0x800) as u32;
                char::from_u32(if v >= 0xd800 { v + 0x800 } else { v }).unwrap()
            },
        }
    }

    pub fn text(&mut self, max: usize) -> String {
        self.list(max, |g| g.unicode()).into_iter().collect()
    }

    /// Record a class this case belongs to.
    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|v| v == l) {
            self.labels.push(l.to_string());
        }
    }

    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l);
        }
    }

    /// Mark the case non-trivial by the rule of the facet.
    pub fn nontrivial_if(&mut self, cond: bool) {
        if cond {
            self.nontrivial = true;
        }
    }

    /// Describe the case (evaluated only when needed).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            let s = f();
            self.notes.push(s);
        }
    }
}
