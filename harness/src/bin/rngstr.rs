//! C13 SplitMix64, C14 Xoshiro256++, C15 natural order, C16 symbol names.

use core::cmp::Ordering;
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

// --- SplitMix64 ----------------------------------------------------------------

const PHI: u64 = 0x9e37_79b9_7f4a_7c15;

/// Reference after Steele, Lea, Flood: "Fast Splittable Pseudorandom Number
/// Generators" (java.util.SplittableRandom).
#[derive(Clone, Copy)]
struct Ref {
    seed: u64,
    gamma: u64,
}

impl Ref {
    fn step(&mut self) -> u64 {
        self.seed = self.seed.wrapping_add(self.gamma);
        self.seed
    }
    fn next64(&mut self) -> u64 {
        let z = self.step();
        let z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn next32(&mut self) -> u32 {
        let z = self.step();
        let z = (z ^ z >> 33).wrapping_mul(0x62a9_d9ed_7997_05f5);
        ((z ^ z >> 28).wrapping_mul(0xcb24_d0a5_c88c_35b3) >> 32) as u32
    }
    /// Returns the child and whether its increment needed the correction.
    fn split(&mut self) -> (Ref, bool) {
        let seed = self.next64();
        let z = self.step();
        let z = (z ^ z >> 33).wrapping_mul(0xff51_afd7_ed55_8ccd);
        let z = (z ^ z >> 33).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        let z = (z ^ z >> 33) | 1;
        let poor = (z ^ z >> 1).count_ones() < 24;
        (Ref { seed, gamma: if poor { z ^ 0xaaaa_aaaa_aaaa_aaaa } else { z } }, poor)
    }
}

fn seed64(g: &mut G) -> u64 {
    if g.chance(1, 3) {
        g.uint(64) as u64
    } else {
        g.draw(0)
    }
}

enum Gen {
    Plain(Mix64),
    Split(SplitMix64),
}

fn splitmix(g: &mut G) -> Outcome {
    let seed = seed64(g);
    let plain = g.bool();
    let first = if plain { Gen::Plain(Mix64::with_seed(seed)) } else { Gen::Split(SplitMix64::with_seed(seed)) };
    let mut pool = vec![(first, Ref { seed, gamma: PHI })];
    let mut log = format!("{} seed {:#x}: ", if plain { "plain" } else { "splittable" }, seed);
    let (mut splits, mut poor, mut n32, mut conv) = (0, 0, 0, 0);
    let n = g.size(1, 40);
    for _ in 0..n {
        let i = g.below(pool.len());
        match g.weighted(&[4, 3, 4, 1, 1]) {
            0 => {
                let a = match &mut pool[i].0 {
                    Gen::Plain(v) => v.next64(),
                    Gen::Split(v) => v.next64(),
                };
                let b = pool[i].1.next64();
                ensure_eq!(a, b, "64-bit draw from generator {} after {}", i, log);
                log += &format!("n64[{}] ", i);
            },
            1 => {
                let a = match &mut pool[i].0 {
                    Gen::Plain(v) => v.next32(),
                    Gen::Split(v) => v.next32(),
                };
                let b = pool[i].1.next32();
                ensure_eq!(a, b, "32-bit draw from generator {} after {}", i, log);
                log += &format!("n32[{}] ", i);
                n32 += 1;
            },
            2 => {
                let a = match &mut pool[i].0 {
                    Gen::Plain(v) => v.split(),
                    Gen::Split(v) => v.split(),
                };
                let (b, p) = pool[i].1.split();
                poor += p as usize;
                splits += 1;
                log += &format!("split[{}] ", i);
                if pool.len() < 12 {
                    pool.push((Gen::Split(a), b));
                } else {
                    pool[(i + 1) % 12] = (Gen::Split(a), b);
                }
            },
            3 => {
                // Verbatim copy.
                let c = match &pool[i].0 {
                    Gen::Plain(v) => Gen::Plain(*v),
                    Gen::Split(v) => Gen::Split(v.clone()),
                };
                let r = pool[i].1;
                log += &format!("copy[{}] ", i);
                if pool.len() < 12 {
                    pool.push((c, r));
                }
            },
            _ => {
                // Conversion of the plain form.
                if let Gen::Plain(v) = &pool[i].0 {
                    let s = if g.bool() { SplitMix64::from_mix64(*v) } else { SplitMix64::from(*v) };
                    log += &format!("convert[{}] ", i);
                    pool[i].0 = Gen::Split(s);
                    conv += 1;
                }
            },
        }
    }
    // All generators agree with their model at the end.
    for (i, (a, b)) in pool.iter_mut().enumerate() {
        for _ in 0..2 {
            let x = match a {
                Gen::Plain(v) => v.next64(),
                Gen::Split(v) => v.next64(),
            };
            ensure_eq!(x, b.next64(), "final draw from generator {} after {}", i, log);
        }
    }
    g.label_if(splits > 0, "splits");
    g.label_if(poor > 0, "increment corrected");
    g.label_if(n32 > 0, "32-bit draws");
    g.label_if(conv > 0, "conversion");
    g.nontrivial_if(n > 1);
    g.note(|| log.clone());
    Ok(())
}

/// Chains of splits, compared at every level.
fn split_chain(g: &mut G) -> Outcome {
    let seed = seed64(g);
    let mut a = SplitMix64::with_seed(seed);
    let mut m = Mix64::with_seed(seed);
    ensure!(SplitMix64::from_mix64(m) == a, "plain and splittable differ for seed {:#x}", seed);
    let mut r = Ref { seed, gamma: PHI };
    let depth = g.size(1, 300);
    let mut poor = 0;
    let c = m.split();
    for d in 0..depth {
        let mut parent = a;
        let (child, p) = r.split();
        poor += p as usize;
        let next = a.split();
        if d == 0 {
            ensure!(next == c, "plain and splittable form split differently for seed {:#x}", seed);
        }
        parent.next64();
        parent.next32();
        ensure!(parent == a, "split does not advance by two draws at depth {}", d);
        a = next;
        r = child;
        let (mut ca, mut cr) = (a, r);
        ensure_eq!(ca.next64(), cr.next64(), "draw at depth {} of seed {:#x}", d, seed);
    }
    g.label_if(poor > 0, "increment corrected");
    g.nontrivial_if(true);
    g.note(|| format!("seed {:#x} depth {}", seed, depth));
    Ok(())
}

// --- Xoshiro256++ ----------------------------------------------------------------

fn xo_step(s: &mut [u64; 4]) {
    // Linear engine of Blackman and Vigna, "Scrambled linear pseudorandom
    // number generators".
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = (s[3] << 45) | (s[3] >> 19);
}

fn xo_next(s: &mut [u64; 4]) -> u64 {
    let v = s[0].wrapping_add(s[3]);
    let r = ((v << 23) | (v >> 41)).wrapping_add(s[0]);
    xo_step(s);
    r
}

type Mat = Vec<[u64; 4]>;

fn apply(m: &Mat, s: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for (i, col) in m.iter().enumerate() {
        if s[i / 64] >> (i % 64) & 1 != 0 {
            for k in 0..4 {
                r[k] ^= col[k];
            }
        }
    }
    r
}

/// Columns of the transition matrix raised to 2^n, by repeated squaring.
fn jump_matrix(n: u32) -> Mat {
    let mut m: Mat = (0..256)
        .map(|i| {
            let mut s = [0u64; 4];
            s[i / 64] = 1 << (i % 64);
            xo_step(&mut s);
            s
        })
        .collect();
    for _ in 0..n {
        m = m.iter().map(|c| apply(&m, c)).collect();
    }
    m
}

fn jumps() -> &'static (Mat, Mat) {
    static J: std::sync::OnceLock<(Mat, Mat)> = std::sync::OnceLock::new();
    J.get_or_init(|| (jump_matrix(128), jump_matrix(192)))
}

fn seed256(g: &mut G) -> [u64; 4] {
    match g.weighted(&[5, 2, 1, 2]) {
        0 => [g.draw(0), g.draw(0), g.draw(0), g.draw(0)],
        1 => {
            let mut s = [0u64; 4];
            s[g.below(4)] = 1 << g.below(64);
            s
        },
        2 => [0; 4],
        _ => [g.uint(64) as u64, g.uint(64) as u64, g.uint(64) as u64, g.uint(64) as u64],
    }
}

fn model_seed(s: [u64; 4]) -> [u64; 4] {
    if s == [0; 4] {
        let mut m = Ref { seed: 0, gamma: PHI };
        [m.next64(), m.next64(), m.next64(), m.next64()]
    } else {
        s
    }
}

fn xoshiro(g: &mut G) -> Outcome {
    let (j128, j192) = jumps();
    let mut log;
    let (mut a, mut s);
    match g.weighted(&[4, 1, 1]) {
        0 => {
            let seed = seed256(g);
            g.label_if(seed == [0; 4], "zero seed");
            a = Xoshiro256pp::with_seed(seed);
            s = model_seed(seed);
            log = format!("seed {:x?}: ", seed);
        },
        k => {
            let seed = seed64(g);
            let pre = g.below(3);
            let mut sm = SplitMix64::with_seed(seed);
            let mut r = Ref { seed, gamma: PHI };
            if g.bool() {
                sm = sm.split();
                r = r.split().0;
            }
            for _ in 0..pre {
                sm.next64();
                r.next64();
            }
            log = format!("from splitmix {:#x}+{}: ", seed, pre);
            s = [r.next64(), r.next64(), r.next64(), r.next64()];
            if k == 1 {
                a = Xoshiro256pp::from_splitmix64(&mut sm);
                ensure_eq!(sm.next64(), r.next64(), "seeding does not consume four outputs, {}", log);
            } else {
                a = Xoshiro256pp::from(sm);
            }
            g.label("from splitmix");
        },
    }
    let n = g.size(1, 12);
    let mut nj = 0;
    for _ in 0..n {
        match g.weighted(&[6, 1, 1, 1]) {
            0 => {
                log += "n ";
                ensure_eq!(a.next64(), xo_next(&mut s), "draw after {}", log);
            },
            1 => {
                log += "j128 ";
                a.jump128();
                s = apply(j128, &s);
                nj += 1;
            },
            2 => {
                log += "j192 ";
                a.jump192();
                s = apply(j192, &s);
                nj += 1;
            },
            _ => {
                let b = a.clone();
                ensure!(a == b, "copy differs");
                let mut b = b;
                let mut t = s;
                ensure_eq!(b.next64(), xo_next(&mut t), "draw of copy after {}", log);
            },
        }
    }
    for _ in 0..4 {
        ensure_eq!(a.next64(), xo_next(&mut s), "final draw after {}", log);
    }
    g.label_if(nj > 0, "jumps");
    g.label_if(nj > 1, "several jumps");
    g.nontrivial_if(true);
    g.note(|| log.clone());
    Ok(())
}

/// Every unit state: linearity makes this a complete basis for the jumps.
fn xo_basis(g: &mut G) -> Outcome {
    let i = g.below(512);
    let (j128, j192) = jumps();
    let mut s = [0u64; 4];
    s[(i / 2) / 64] = 1 << ((i / 2) % 64);
    let mut a = Xoshiro256pp::with_seed(s);
    let mut m = if i % 2 == 0 {
        a.jump128();
        apply(j128, &s)
    } else {
        a.jump192();
        apply(j192, &s)
    };
    // Four outputs do not determine the state by themselves, so compare with
    // a generator seeded by the expected state.
    ensure!(a == Xoshiro256pp::with_seed(m), "jump of unit state {:x?}", s);
    for _ in 0..4 {
        ensure_eq!(a.next64(), xo_next(&mut m), "draw after jump of unit state {:x?}", s);
    }
    g.nontrivial_if(true);
    g.note(|| format!("unit {} jump {}", i / 2, if i % 2 == 0 { 128 } else { 192 }));
    Ok(())
}

// --- natural order ------------------------------------------------------------------

const DIGIT_LIKE: [char; 8] = ['\u{b2}', '\u{bd}', '\u{660}', '\u{669}', '\u{2160}', '\u{ff11}', '\u{4e00}', '\u{1d7d8}'];

fn digits(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..(if g.chance(1, 4) { g.size(1, 3) } else { 0 }) {
        s.push('0');
    }
    match g.weighted(&[4, 3, 3, 1]) {
        0 => s += &g.draw(120).to_string(),
        1 => {
            let v = g.uint(72);
            s += &v.to_string();
        },
        2 => {
            let n = g.size(1, 45);
            for _ in 0..n {
                s.push((b'0' + g.draw(10) as u8) as char);
            }
        },
        _ => s += g.pick(&["18446744073709551615", "18446744073709551616", "18446744073709551614", "99999999999999999999", "4294967296", "340282366920938463463374607431768211456"]),
    }
    s
}

fn word(g: &mut G, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..g.size(0, max) {
        s.push(match g.weighted(&[5, 2, 1]) {
            0 => *g.pick(&['a', 'b', '-', 'c', ' ', '~', 'A', '.', '/', ':']),
            1 => *g.pick(&['\u{e9}', '\u{fffd}', '\u{1f600}', '\u{0}', 'z']),
            _ => {
                let c = g.unicode();
                if c.is_numeric() { 'n' } else { c }
            },
        });
    }
    s
}

fn nat_text(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.size(0, 4) {
        match g.weighted(&[4, 4, 1]) {
            0 => s += &word(g, 2),
            1 => s += &digits(g),
            _ => s.push(*g.pick(&DIGIT_LIKE)),
        }
    }
    s
}

/// A variation of `s` that stays close to it.
fn nearby(g: &mut G, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..g.size(1, 2) {
        let i = g.below(v.len() + 1);
        match g.below(4) {
            0 => v.insert(i, *g.pick(&['0', '1', '9', 'a', '-', '\u{b2}'])),
            1 => {
                if i < v.len() {
                    v.remove(i);
                }
            },
            2 => {
                if i < v.len() {
                    v[i] = *g.pick(&['0', '5', '9', 'b', '\u{660}', '~']);
                }
            },
            _ => {
                let tail = digits(g);
                v.truncate(i);
                v.extend(tail.chars());
            },
        }
    }
    v.into_iter().collect()
}

fn cmp(a: &str, b: &str) -> Ordering {
    osi::str::cmp_natural(a, b)
}

fn laws(g: &mut G) -> Outcome {
    let mut v = vec![nat_text(g)];
    for _ in 0..3 {
        let s = if g.chance(2, 3) {
            let b = g.pick(&v).clone();
            nearby(g, &b)
        } else {
            nat_text(g)
        };
        v.push(s);
    }
    for a in &v {
        for b in &v {
            let r = cmp(a, b);
            ensure_eq!(r == Ordering::Equal, a == b, "{:?} against {:?} is {:?}", a, b, r);
            ensure_eq!(cmp(b, a), r.reverse(), "{:?} against {:?} is not antisymmetric", a, b);
            for c in &v {
                if r == Ordering::Less && cmp(b, c) == Ordering::Less {
                    ensure_eq!(cmp(a, c), Ordering::Less, "not transitive: {:?} < {:?} < {:?}", a, b, c);
                }
            }
        }
    }
    g.label_if(v.iter().any(|s| s.chars().filter(|c| c.is_ascii_digit()).count() > 20), "long run");
    g.label_if(v.iter().any(|s| s.chars().any(|c| c.is_numeric() && !c.is_ascii_digit())), "other numerals");
    g.nontrivial_if(v.iter().filter(|s| s.chars().any(|c| c.is_numeric())).count() >= 2);
    g.note(|| format!("{:?}", v));
    Ok(())
}

/// All triples over a small fixed alphabet of strings.
fn small_triples(g: &mut G) -> Outcome {
    const ALPHA: [&str; 8] = ["", "0", "1", "9", "a", "-", "\u{b2}", "99999999999999999999"];
    let i = g.below(512 * 8);
    let mk = |i: usize| format!("{}{}{}", ALPHA[i & 7], ALPHA[i >> 3 & 7], ALPHA[i >> 6 & 7]);
    let a = mk(i & 511);
    // The first string is enumerated, the others cover one eighth each.
    let part = i >> 9;
    let all: Vec<String> = (0..512).map(mk).collect();
    let row: Vec<Ordering> = all.iter().map(|b| cmp(&a, b)).collect();
    for j in part * 64..part * 64 + 64 {
        let b = &all[j];
        ensure_eq!(row[j] == Ordering::Equal, &a == b, "{:?} against {:?}", a, b);
        ensure_eq!(cmp(b, &a), row[j].reverse(), "{:?} against {:?}", b, a);
        if row[j] == Ordering::Less {
            for (k, c) in all.iter().enumerate() {
                if cmp(b, c) == Ordering::Less {
                    ensure_eq!(row[k], Ordering::Less, "not transitive: {:?} < {:?} < {:?}", a, b, c);
                }
            }
        }
    }
    g.nontrivial_if(true);
    g.note(|| format!("{:?} against strings {}..", a, part * 64));
    Ok(())
}

fn value_cmp(a: &str, b: &str) -> Ordering {
    // Schoolbook comparison of decimal strings.
    let n = a.len().max(b.len());
    let pad = |s: &str| "0".repeat(n - s.len()) + s;
    pad(a).cmp(&pad(b))
}

fn numeric(g: &mut G) -> Outcome {
    // Shared prefix, may contain earlier digit runs but does not end in one.
    let mut prefix = String::new();
    if g.bool() {
        prefix = nat_text(g);
        if prefix.chars().last().map(|c| c.is_numeric()).unwrap_or(false) {
            prefix.push(*g.pick(&['a', '-', '\u{e9}']));
        }
    }
    let a = digits(g);
    let b = match g.below(3) {
        0 => digits(g),
        1 => {
            // Same length, one digit changed.
            let mut v: Vec<u8> = a.bytes().collect();
            let i = g.below(v.len());
            v[i] = b'0' + g.draw(10) as u8;
            String::from_utf8(v).unwrap()
        },
        _ => {
            // One digit more or less.
            let mut v = a.clone();
            if g.bool() && v.len() > 1 {
                v.pop();
            } else {
                v.push((b'0' + g.draw(10) as u8) as char);
            }
            v
        },
    };
    let tail = |g: &mut G| -> String {
        let mut t = nat_text(g);
        if t.chars().next().map(|c| c.is_numeric()).unwrap_or(false) {
            t.insert(0, *g.pick(&['a', '-', ' ']));
        }
        t
    };
    let (ta, tb) = (tail(g), tail(g));
    let (sa, sb) = (format!("{}{}{}", prefix, a, ta), format!("{}{}{}", prefix, b, tb));
    let e = value_cmp(&a, &b);
    if e != Ordering::Equal {
        ensure_eq!(cmp(&sa, &sb), e, "{:?} against {:?}", sa, sb);
    }
    // Identical runs: the remainders decide.
    let sc = format!("{}{}{}", prefix, a, tb);
    ensure_eq!(cmp(&sa, &sc), cmp(&ta, &tb), "{:?} against {:?} with equal runs", sa, sc);
    g.label_if(a.len() > 19 || b.len() > 19, "long run");
    g.label_if(a.starts_with('0') || b.starts_with('0'), "leading zeroes");
    g.label_if(e == Ordering::Equal && a != b, "same value, different text");
    g.nontrivial_if(a != b);
    g.note(|| format!("{:?} {:?}", sa, sb));
    Ok(())
}

fn plain_text(g: &mut G) -> Outcome {
    let a = word(g, 6);
    let b = if g.bool() {
        word(g, 6)
    } else {
        let mut v: Vec<char> = a.chars().collect();
        let i = g.below(v.len() + 1);
        v.truncate(i);
        v.extend(word(g, 2).chars());
        v.into_iter().collect()
    };
    ensure_eq!(cmp(&a, &b), a.cmp(&b), "{:?} against {:?}", a, b);
    // Texts that differ in a position both have are decided there, whatever
    // digits follow.
    if let Some((x, y)) = a.chars().zip(b.chars()).find(|(x, y)| x != y) {
        let (sa, sb) = (format!("{}{}", a, digits(g)), format!("{}{}", b, digits(g)));
        ensure_eq!(cmp(&sa, &sb), x.cmp(&y), "{:?} against {:?}", sa, sb);
        g.label("followed by digits");
    }
    g.nontrivial_if(a != b && !a.is_empty() && !b.is_empty());
    g.note(|| format!("{:?} {:?}", a, b));
    Ok(())
}

fn sorting(g: &mut G) -> Outcome {
    let base = g.list(12, nat_text);
    let mut v = base.clone();
    for _ in 0..g.size(0, 3) {
        if !v.is_empty() {
            let s = g.pick(&v).clone();
            let n = nearby(g, &s);
            v.push(n);
        }
    }
    let mut a = v.clone();
    let mut b = v.clone();
    for i in (1..b.len()).rev() {
        let j = g.below(i + 1);
        b.swap(i, j);
    }
    a.sort_by(|x, y| cmp(x, y));
    b.sort_by(|x, y| cmp(x, y));
    ensure_eq!(a, b, "sorting depends on the input order");
    for w in a.windows(2) {
        ensure!(cmp(&w[0], &w[1]) != Ordering::Greater, "not sorted: {:?} {:?}", w[0], w[1]);
    }
    g.nontrivial_if(v.len() >= 3);
    g.note(|| format!("{:?}", a));
    Ok(())
}

const LONG: [usize; 16] = [17, 18, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65536, 70000];

/// Texts of many parts with long runs, and variations in single places.
fn long_text(g: &mut G) -> String {
    let mut s = String::new();
    let parts = if g.chance(1, 3) { *g.pick(&[20, 64, 130, 257, 300]) } else { 1 + g.small(4) };
    let mut room = 150_000;
    for _ in 0..parts {
        let n = if parts > 10 || room < 70_000 { 1 + g.small(6) } else { *g.pick(&LONG) };
        room -= n.min(room);
        match g.weighted(&[3, 3, 1]) {
            0 => s += &g.pick(&["a", "b", "-", "\u{e9}", "\u{1f600}"]).repeat(n),
            1 => s += &g.pick(&["0", "1", "9", "12", "00", "90"]).repeat(n),
            _ => s += &word(g, 3),
        }
    }
    s
}

fn change_one(g: &mut G, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let i = match g.below(3) {
        0 => 0,
        1 => v.len().saturating_sub(1),
        _ => g.below(v.len() + 1),
    };
    match g.below(3) {
        0 => v.insert(i.min(v.len()), *g.pick(&['0', '1', '9', 'a', '~'])),
        1 if i < v.len() => v[i] = *g.pick(&['0', '5', '9', 'b', '~']),
        _ if i < v.len() => {
            v.remove(i);
        },
        _ => {},
    }
    v.into_iter().collect()
}

/// Reference order of texts that hold no numerals but ASCII digits.
fn ordered(a: &str, b: &str) -> Ordering {
    fn parts(s: &str) -> Vec<(String, String)> {
        let mut v = Vec::new();
        let (mut name, mut run) = (String::new(), String::new());
        for c in s.chars() {
            if c.is_ascii_digit() {
                run.push(c);
            } else {
                if !run.is_empty() {
                    v.push((core::mem::take(&mut name), core::mem::take(&mut run)));
                }
                name.push(c);
            }
        }
        v.push((name, run));
        v
    }
    let (a, b) = (parts(a), parts(b));
    for (x, y) in a.iter().zip(&b) {
        let r = x.0.cmp(&y.0).then_with(|| value_cmp(&x.1, &y.1)).then_with(|| x.1.cmp(&y.1));
        if r != Ordering::Equal {
            return r;
        }
    }
    a.len().cmp(&b.len())
}

fn long_texts(g: &mut G) -> Outcome {
    let a = long_text(g);
    let b = if g.chance(7, 8) { change_one(g, &a) } else { long_text(g) };
    let c = change_one(g, &b);
    let v = [&a, &b, &c];
    let mut t = [[Ordering::Equal; 3]; 3];
    for (i, x) in v.iter().enumerate() {
        for (j, y) in v.iter().enumerate() {
            t[i][j] = cmp(x, y);
        }
    }
    for (i, x) in v.iter().enumerate() {
        for (j, y) in v.iter().enumerate() {
            let r = t[i][j];
            ensure_eq!(r == Ordering::Equal, x == y, "{:?} against {:?} is {:?}", x, y, r);
            if i < j && !one_sided(x, y) && !x.chars().chain(y.chars()).any(|c| c.is_numeric() && !c.is_ascii_digit()) {
                ensure_eq!(r, ordered(x, y), "{:?} against {:?}", x, y);
            }
            ensure_eq!(t[j][i], r.reverse(), "{:?} against {:?} is not antisymmetric", x, y);
            for (k, z) in v.iter().enumerate() {
                if r == Ordering::Less && t[j][k] == Ordering::Less {
                    ensure_eq!(t[i][k], Ordering::Less, "not transitive: {:?} < {:?} < {:?}", x, y, z);
                }
            }
        }
    }
    g.label_if(a.len() > 4096, "over 4096 bytes");
    g.nontrivial_if(a != b);
    g.note(|| format!("{} bytes {:.60?} {:.60?}", a.len(), a, b));
    Ok(())
}

/// Whether the first difference is a run of digits against no digit, where
/// the documentation leaves the order open.
fn one_sided(a: &str, b: &str) -> bool {
    let mut run = false;
    for (x, y) in a.chars().zip(b.chars()) {
        if x != y {
            return !run && x.is_ascii_digit() != y.is_ascii_digit();
        }
        run = x.is_ascii_digit();
    }
    false
}

fn long_symbols(g: &mut G) -> Outcome {
    let s = long_text(g);
    let s = change_one(g, &s);
    g.nontrivial_if(s.len() > 256);
    g.note(|| format!("{} bytes {:.60?}", s.len(), s));
    symbol_check(&s)
}

// --- symbol names --------------------------------------------------------------------

fn symbol_check(s: &str) -> Outcome {
    let r = osi::str::symbolize(s);
    let prefix = s.chars().next().map(|c| c.is_numeric()).unwrap_or(true);
    let mut e = String::new();
    if prefix {
        e.push('_');
    }
    for c in s.chars() {
        e.push(if c.is_alphanumeric() { c } else { '_' });
    }
    ensure_eq!(r, e, "symbol for {:?}", s);
    ensure!(!r.is_empty() && !r.chars().next().unwrap().is_numeric(), "malformed symbol {:?} for {:?}", r, s);
    ensure_eq!(osi::str::symbolize(&r), r, "symbol for {:?} is not stable", s);
    match osi::str::some(s) {
        None => ensure!(s.is_empty(), "filter drops {:?}", s),
        Some(v) => {
            ensure!(!s.is_empty(), "filter keeps the empty string");
            ensure!(v == s && v.as_ptr() == s.as_ptr(), "filter changes {:?} to {:?}", s, v);
        },
    }
    Ok(())
}

fn symbols(g: &mut G) -> Outcome {
    let s = if g.bool() { g.text(12) } else { nat_text(g) };
    g.label_if(s.chars().next().map(|c| c.is_numeric()).unwrap_or(false), "numeric start");
    g.label_if(s.chars().any(|c| !c.is_alphanumeric()), "replaced characters");
    g.label_if(!s.is_ascii(), "non-ASCII");
    g.nontrivial_if(!s.is_empty());
    g.note(|| format!("{:?}", s));
    symbol_check(&s)
}

/// Every unicode scalar value, first and later in the string.
fn symbols_all(g: &mut G) -> Outcome {
    let block = g.below(0x1100);
    for v in block * 256..block * 256 + 256 {
        if let Some(c) = char::from_u32(v as u32) {
            symbol_check(&c.to_string())?;
            symbol_check(&format!("a{}b", c))?;
            symbol_check(&format!("{}9", c))?;
        }
    }
    g.nontrivial_if(true);
    g.note(|| format!("code points {:#x}..", block * 256));
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C13",
            facets: vec![
                Facet::new("histories", 600_000, 10_000_000, splitmix, "draws, splits, copies and conversions on up to twelve generators; non-trivial: more than one operation"),
                Facet::new("split-chain", 20_000, 400_000, split_chain, "chains of up to 300 nested splits; every case is non-trivial"),
            ],
            assumptions: vec!["reference transcribed from the published SplittableRandom algorithm"],
        },
        Property {
            id: "C14",
            facets: vec![
                Facet::all("basis", 512, xo_basis, "both jumps on all 256 unit states, a basis of the linear state space; every case is non-trivial"),
                Facet::new("histories", 300_000, 4_000_000, xoshiro, "seeds, draws, jumps and copies; every case is non-trivial"),
            ],
            assumptions: vec!["reference jump computed as the state transition matrix raised to 2^128 and 2^192"],
        },
        Property {
            id: "C15",
            facets: vec![
                Facet::all("small-triples", 4096, small_triples, "all triples of strings made of three parts from an eight part alphabet; every case is non-trivial"),
                Facet::new("laws", 400_000, 10_000_000, laws, "four related strings, all pairs and triples; non-trivial: two of them contain numerals"),
                Facet::new("numeric", 600_000, 10_000_000, numeric, "shared prefix, two digit runs, two remainders; non-trivial: runs differ"),
                Facet::new("plain", 300_000, 4_000_000, plain_text, "texts without numerals; non-trivial: different and non-empty"),
                Facet::new("sorting", 100_000, 2_000_000, sorting, "sorting two permutations; non-trivial: at least three strings"),
                Facet::new("long", 10_000, 200_000, long_texts, "three texts of up to 150 KiB that differ in one place; non-trivial: they differ").shrinks(3000),
            ],
            assumptions: vec!["the value of runs with numerals other than 0-9 is left open, only the order laws are required of them"],
        },
        Property {
            id: "C16",
            facets: vec![
                Facet::all("all-characters", 0x1100, symbols_all, "every unicode scalar value alone, inside and before a digit; every case is non-trivial"),
                Facet::new("strings", 600_000, 10_000_000, symbols, "random strings; non-trivial: non-empty"),
                Facet::new("long", 10_000, 200_000, long_symbols, "texts of up to 150 KiB; non-trivial: over 256 bytes").shrinks(3000),
            ],
            assumptions: vec!["character classes as defined by the Rust standard library"],
        },
    ])
}
