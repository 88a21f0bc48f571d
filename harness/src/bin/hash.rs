//! C11 SHA-256, C12 HMAC-SHA256.

use harness::sha256_ref::{hmac_sha256, sha256};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::hash::{self, Engine as _};
use osi::hmac::{Hmac, HmacSha256};

fn hex(b: &[u8]) -> String {
    b.iter().map(|v| format!("{:02x}", v)).collect()
}

/// Length biased to the block structure.
fn length(g: &mut G, blocks: usize) -> usize {
    match g.weighted(&[3, 4, 2]) {
        0 => g.size(0, 130),
        1 => {
            let base = g.size(0, blocks) * 64;
            let off = *g.pick(&[0i64, 1, -1, 55, 56, 57, 63, 62, 64, 8, 9, 7]);
            (base as i64 + off).max(0) as usize
        },
        _ => g.size(0, blocks * 64 + 64),
    }
}

fn piece(g: &mut G) -> Vec<u8> {
    let n = match g.weighted(&[4, 3, 2]) {
        0 => g.size(0, 9),
        1 => {
            let off = *g.pick(&[64i64, 63, 65, 55, 56, 1, 128, 127, 32, 0]);
            off as usize
        },
        _ => g.size(0, 200),
    };
    g.blob(n)
}

/// One message, hashed in one shot.
fn one_shot(g: &mut G) -> Outcome {
    let blocks = if g.chance(1, 20) { 40 } else { 5 };
    let n = length(g, blocks);
    let msg = g.blob(n);
    g.nontrivial_if(n > 0);
    g.label(&format!("len%64 class {}", match n % 64 { 0 => "0", 1..=54 => "1-54", 55 => "55", 56 => "56", 57..=62 => "57-62", _ => "63" }));
    g.label_if(n > 64, "more than one block");
    g.note(|| format!("len {} data {}..", n, hex(&msg[..n.min(8)])));
    let h = hash::hash::<hash::sha256::Engine>(&msg);
    let e = sha256(&msg);
    ensure_eq!(hex(h.as_bytes()), hex(&e), "digest of {} bytes", n);
    ensure_eq!(h.to_hex(), hex(&e), "hex of {} bytes", n);
    Ok(())
}

/// Every length 0..=N, several contents.
fn all_lengths(g: &mut G) -> Outcome {
    let n = g.below(1025);
    let kind = g.below(4);
    let msg: Vec<u8> = match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        _ => g.blob(n),
    };
    g.nontrivial_if(true);
    g.note(|| format!("len {} kind {}", n, kind));
    ensure_eq!(hash::hash::<hash::sha256::Engine>(&msg).to_hex(), hex(&sha256(&msg)), "digest of {} bytes", n);
    Ok(())
}

/// Histories of operations on a set of engines.
fn histories(g: &mut G) -> Outcome {
    let mut pool: Vec<(hash::sha256::Engine, Vec<u8>)> = vec![(Default::default(), Vec::new())];
    let mut log = String::new();
    let mut fins = 0;
    let mut used_after = false;
    let ops = g.list(30, |g| (g.weighted(&[8, 4, 1, 1, 3, 1]), g.draw(8), piece(g)));
    for (op, sel, data) in ops {
        let i = sel as usize % pool.len();
        match op {
            0 => {
                log += &format!("push[{}]({}) ", i, data.len());
                used_after |= fins > 0 && !data.is_empty();
                pool[i].0.push(&data);
                pool[i].1.extend_from_slice(&data);
            },
            1 => {
                log += &format!("zero[{}]({}) ", i, data.len());
                pool[i].0.push_zero(data.len());
                let n = pool[i].1.len() + data.len();
                pool[i].1.resize(n, 0);
            },
            2 => {
                log += &format!("reset[{}] ", i);
                pool[i].0.reset();
                pool[i].1.clear();
            },
            3 => {
                if pool.len() < 4 {
                    log += &format!("clone[{}] ", i);
                    let c = (pool[i].0.clone(), pool[i].1.clone());
                    pool.push(c);
                }
            },
            4 => {
                log += &format!("fin[{}] ", i);
                let h = pool[i].0.finalize();
                let e = sha256(&pool[i].1);
                ensure_eq!(h.to_hex(), hex(&e), "digest of {} bytes after {}", pool[i].1.len(), log);
                pool[i].1.clear();
                fins += 1;
            },
            _ => {},
        }
        for (j, (e, m)) in pool.iter().enumerate() {
            ensure_eq!(e.is_reset(), m.is_empty(), "reset query of engine {} after {}", j, log);
        }
    }
    for (e, m) in pool.iter_mut() {
        ensure_eq!(e.finalize().to_hex(), hex(&sha256(m)), "final digest of {} bytes after {}", m.len(), log);
    }
    g.label_if(fins > 0, "finalize mid-history");
    g.label_if(used_after, "reuse after finalize");
    g.label_if(pool.len() > 1, "clones");
    g.nontrivial_if(log.matches("push").count() + log.matches("zero").count() >= 2);
    g.note(|| log.clone());
    Ok(())
}

/// Metamorphic: any split of a message gives the digest of the whole.
fn splits(g: &mut G) -> Outcome {
    let n = length(g, 4);
    let msg = g.blob(n);
    let mut e = hash::sha256::Engine::default();
    let mut pos = 0;
    let mut cuts = Vec::new();
    while pos < n {
        let k = (1 + g.small(130)).min(n - pos);
        e.push(&msg[pos..pos + k]);
        cuts.push(k);
        pos += k;
        if g.chance(1, 8) {
            e.push(&[]);
        }
    }
    g.nontrivial_if(cuts.len() >= 2);
    g.label_if(n > 64 && cuts.len() >= 2, "split across blocks");
    g.note(|| format!("len {} cuts {:?}", n, cuts));
    ensure_eq!(e.finalize().to_hex(), hex(&sha256(&msg)), "digest of {} bytes in pieces {:?}", n, cuts);
    Ok(())
}

/// Digests of `n` zero bytes followed by "tail" (from Python's hashlib).
const LONG: [(u64, &str); 8] = [
    (4294967303, "46abb89f31986deec657f537f949bfe3fb58d68abf0f20e0bb144ff08ecd72c4"),
    (536870908, "7e3fbeb72ec8a6af1d0a45f868833faf3795baa7b411249b4aabe13835c43785"),
    (536870909, "3708444ab77259595a21d57bbf949bee202c2cec5e57d09a8471819674257c58"),
    (536870971, "a5219bec6e5a4e685e3a7c182f74f08d771961b069d7be7a53852f816dcb21bf"),
    (16777277, "9cfff75b00d2b210455a352546c0ac98970e72819bb151faeb69600714416f4b"),
    (16777215, "8a69fb40a516a2f5ca6ffc33ff32f24be95783c82bf006484da49599ebcad6dc"),
    (65536, "c9e69b1a392e125c9700b539f8de5d723be3c412cac90e87daf0222ef6d3d8a4"),
    (65531, "749b0491b9fdc517504b2206feeeecb3c121db3b0a26052ac0355b6f7122f064"),
];

/// Messages whose length crosses 2^16, 2^24, 2^32 bits and 2^32 bytes.
fn long(g: &mut G) -> Outcome {
    let i = g.below(LONG.len());
    // The short ones only where everything is slow.
    let (n, e) = LONG[if harness::sanitized() { LONG.len() - 1 - i } else { i }];
    let zero_run = g.bool();
    g.nontrivial_if(true);
    g.note(|| format!("{} zero bytes ({}), then \"tail\"", n, if zero_run { "zero runs" } else { "pushed" }));
    let mut h = hash::sha256::Engine::default();
    let block = vec![0u8; 1 << 20];
    let mut left = n;
    while left > 0 {
        let k = left.min(if zero_run { 1 << 30 } else { block.len() as u64 });
        if zero_run {
            h.push_zero(k as usize);
        } else {
            h.push(&block[..k as usize]);
        }
        left -= k;
    }
    h.push(b"tail");
    ensure_eq!(h.finalize().to_hex(), e, "digest of {} zero bytes and a tail", n);
    Ok(())
}

/// Hexadecimal text and byte views of arbitrary hash values.
fn hex_text(g: &mut G) -> Outcome {
    let b = g.blob(32);
    let a: [u8; 32] = b.as_slice().try_into().unwrap();
    let h = hash::Hash::from_bytes(&a);
    let e: String = b.iter().map(|v| format!("{:02x}", v)).collect();
    ensure_eq!(h.to_hex(), e, "hex");
    ensure_eq!(h.as_bytes(), &a, "bytes");
    let h2: hash::Hash<32> = (&a).into();
    ensure_eq!(h2.0, a, "bytes via From");
    ensure_eq!(hash::Hash::<32>::default().0, [0u8; 32], "default");
    let c: [u8; 5] = [b[0], b[1], b[2], b[3], b[4]];
    ensure_eq!(hash::Hash(c).to_hex(), e[..10].to_string(), "short hex");
    g.nontrivial_if(true);
    g.note(|| e.clone());
    Ok(())
}

/// Engine that records what it is fed and "hashes" by a simple rule, used to
/// observe the generic code around engines.
#[derive(Default, Clone)]
struct Recorder {
    data: Vec<u8>,
}

fn toy(data: &[u8]) -> [u8; 4] {
    let mut h = 0x811c9dc5u32 ^ (data.len() as u32);
    for b in data {
        h = (h ^ *b as u32).wrapping_mul(0x01000193).rotate_left(5);
    }
    h.to_be_bytes()
}

impl hash::Engine for Recorder {
    type Hash = hash::Hash<4>;
    fn is_reset(&self) -> bool {
        self.data.is_empty()
    }
    fn reset(&mut self) {
        self.data.clear();
    }
    fn push(&mut self, data: &[u8]) {
        self.data.extend_from_slice(data);
    }
    fn finalize(&mut self) -> Self::Hash {
        let r = hash::Hash(toy(&self.data));
        self.data.clear();
        r
    }
}

/// Default zero-run of the engine interface on a foreign engine.
fn default_zero(g: &mut G) -> Outcome {
    let mut e = Recorder::default();
    let mut m = Vec::new();
    for _ in 0..g.size(1, 4) {
        let d = piece(g);
        if g.bool() {
            e.push(&d);
            m.extend_from_slice(&d);
        } else {
            let n = match g.below(3) { 0 => d.len(), 1 => 127 + g.below(4), _ => g.below(1000) };
            e.push_zero(n);
            m.resize(m.len() + n, 0);
            g.label_if(n > 128, "zero run over 128");
            g.nontrivial_if(n > 0);
        }
    }
    g.note(|| format!("{} bytes fed", m.len()));
    ensure!(e.data == m, "engine received {} bytes, expected {}", e.data.len(), m.len());
    ensure_eq!(hash::hash::<Recorder>(&m).0, toy(&m), "one-shot on a foreign engine");
    Ok(())
}

fn key(g: &mut G, chunk: usize) -> Vec<u8> {
    let n = match g.weighted(&[3, 4, 2]) {
        0 => g.size(0, 12),
        1 => {
            let off = *g.pick(&[0i64, -1, 1, 2, 63, 64]);
            (chunk as i64 + off).max(0) as usize
        },
        _ => g.size(0, 3 * chunk),
    };
    g.blob(n)
}

/// Sequences of messages on one keyed engine.
fn hmac_hist(g: &mut G) -> Outcome {
    let k = key(g, 64);
    let mut e = if g.bool() { HmacSha256::new(&k) } else { HmacSha256::with_engine(&k, Default::default()) };
    let mut msg: Vec<u8> = Vec::new();
    let mut log = String::new();
    let mut fins = 0;
    g.label(match k.len() { 0 => "empty key", 1..=63 => "short key", 64 => "block key", _ => "long key" });
    let ops = g.list(16, |g| (g.weighted(&[6, 3, 1, 3]), piece(g)));
    for (op, d) in ops {
        match op {
            0 => {
                log += &format!("push({}) ", d.len());
                e.push(&d);
                msg.extend_from_slice(&d);
            },
            1 => {
                log += &format!("zero({}) ", d.len());
                e.push_zero(d.len());
                msg.resize(msg.len() + d.len(), 0);
            },
            2 => {
                log += "reset ";
                e.reset();
                msg.clear();
            },
            _ => {
                log += "fin ";
                ensure_eq!(e.finalize().to_hex(), hex(&hmac_sha256(&k, &msg)), "code, key {} bytes, after {}", k.len(), log);
                msg.clear();
                fins += 1;
            },
        }
    }
    ensure_eq!(e.finalize().to_hex(), hex(&hmac_sha256(&k, &msg)), "final code, key {} bytes, message {} bytes, after {}", k.len(), msg.len(), log);
    ensure_eq!(e.finalize().to_hex(), hex(&hmac_sha256(&k, b"")), "code of the empty message after reuse");
    g.label_if(fins > 0, "reuse");
    g.nontrivial_if(!log.is_empty());
    g.note(|| format!("key {} bytes: {}", k.len(), log));
    Ok(())
}

/// Long messages in few pieces, long keys.
fn hmac_long(g: &mut G) -> Outcome {
    let far = |g: &mut G| match g.below(3) {
        0 => 65_536 - 70 + g.below(140),
        1 => 4096 - 70 + g.below(140),
        _ => g.below(300_000),
    };
    let n = if g.chance(1, 3) { far(g) } else { g.below(130) };
    let k = g.blob(n.min(64)).into_iter().cycle().take(n).collect::<Vec<_>>();
    let mut e = HmacSha256::new(&k);
    let mut log = String::new();
    for _ in 0..g.size(1, 2) {
        let mut msg: Vec<u8> = Vec::new();
        for _ in 0..g.size(1, 3) {
            let n = if g.chance(2, 3) { far(g) } else { g.below(130) };
            if g.chance(1, 4) {
                log += &format!("zero({}) ", n);
                e.push_zero(n);
                msg.resize(msg.len() + n, 0);
            } else {
                log += &format!("push({}) ", n);
                let s = g.draw(256) as usize;
                let d: Vec<u8> = (0..n).map(|i| (s + i * 7 + (i >> 8) * 3) as u8).collect();
                e.push(&d);
                msg.extend_from_slice(&d);
            }
        }
        ensure_eq!(e.finalize().to_hex(), hex(&hmac_sha256(&k, &msg)), "code, key {} bytes, after {}", k.len(), log);
        g.nontrivial_if(msg.len() > 65536);
        log += "fin ";
    }
    g.label_if(k.len() > 65536, "key over 65536");
    g.note(|| format!("key {} bytes: {}", k.len(), log));
    Ok(())
}

/// All key lengths around the block size against all message residues.
fn hmac_grid(g: &mut G) -> Outcome {
    let i = g.below(200 * 70);
    let (kl, ml) = (i / 70, i % 70);
    let k = g.blob(kl);
    let m = g.blob(ml);
    let mut e = HmacSha256::new(&k);
    e.push(&m);
    g.nontrivial_if(true);
    g.note(|| format!("key {} message {}", kl, ml));
    ensure_eq!(e.finalize().to_hex(), hex(&hmac_sha256(&k, &m)), "code, key {} bytes, message {} bytes", kl, ml);
    Ok(())
}

fn hmac_toy_ref(chunk: usize, key: &[u8], msg: &[u8]) -> [u8; 4] {
    let mut k = if key.len() > chunk { toy(key).to_vec() } else { key.to_vec() };
    k.resize(chunk, 0);
    let mut inner: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    outer.extend_from_slice(&toy(&inner));
    toy(&outer)
}

fn hmac_generic_n<const N: usize>(g: &mut G) -> Outcome {
    let k = key(g, N);
    let mut e = Hmac::<N, Recorder>::new(&k);
    let rounds = g.size(1, 3);
    for _ in 0..rounds {
        let mut m = Vec::new();
        for d in g.list(4, piece) {
            e.push(&d);
            m.extend_from_slice(&d);
        }
        ensure_eq!(e.finalize().0, hmac_toy_ref(N, &k, &m), "code with block {} key {} message {}", N, k.len(), m.len());
    }
    g.nontrivial_if(!k.is_empty());
    g.label_if(k.len() > N, "long key");
    g.note(|| format!("block {} key {}", N, k.len()));
    Ok(())
}

/// The construction over a foreign engine and other block sizes.
fn hmac_generic(g: &mut G) -> Outcome {
    match g.below(4) {
        0 => hmac_generic_n::<4>(g),
        1 => hmac_generic_n::<8>(g),
        2 => hmac_generic_n::<64>(g),
        _ => hmac_generic_n::<128>(g),
    }
}

fn main() {
    let msg_rule = "non-trivial: at least one byte hashed";
    harness::main(vec![
        Property {
            id: "C11",
            facets: vec![
                Facet::all("all-lengths", 1025, all_lengths, "every message length 0..=1024 with one of four contents; every case is non-trivial"),
                Facet::all("long", if harness::sanitized() { 3 } else { 8 }, long, "messages of up to 2^32 bytes; every case is non-trivial"),
                Facet::new("one-shot", 600_000, 20_000_000, one_shot, msg_rule),
                Facet::new("splits", 600_000, 20_000_000, splits, "one message cut into pieces; non-trivial: at least two pieces"),
                Facet::new("histories", 600_000, 20_000_000, histories, "operations push/zero/reset/clone/finalize on up to four engines; non-trivial: at least two feeding operations"),
                Facet::new("default-zero", 200_000, 2_000_000, default_zero, "zero runs through the default implementation on a recording engine; non-trivial: a non-empty zero run"),
                Facet::new("hex", 20_000, 200_000, hex_text, "random digests; every case is non-trivial"),
            ],
            assumptions: vec!["reference SHA-256 in the harness is correct (constants derived from primes; cross-checked with hashlib during development)"],
        },
        Property {
            id: "C12",
            facets: vec![
                Facet::all("grid", 200 * 70, hmac_grid, "every key length 0..200 with every message length 0..70; every case is non-trivial"),
                Facet::new("histories", 600_000, 20_000_000, hmac_hist, "push/zero/reset/finalize histories on one keyed engine; non-trivial: at least one operation"),
                Facet::new("long", 2_000, 60_000, hmac_long, "messages and keys around and beyond 2^16 bytes; non-trivial: message over 65536 bytes").shrinks(200),
                Facet::new("foreign-engine", 600_000, 10_000_000, hmac_generic, "construction over a recording toy engine with block sizes 4, 8, 64, 128; non-trivial: non-empty key"),
            ],
            assumptions: vec!["reference HMAC in the harness is correct"],
        },
    ])
}
