//! Reference SHA-256 and HMAC, written from FIPS 180-4 and RFC 2104 on whole
//! messages, with the constants computed from primes.

fn primes(n: usize) -> Vec<u64> {
    let mut r: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while r.len() < n {
        if r.iter().all(|p| c % p != 0) {
            r.push(c);
        }
        c += 1;
    }
    r
}

/// First 32 bits of the fractional part of the `k`-th root of `p`.
fn root_frac(p: u64, k: u32) -> u32 {
    // Find floor(p^(1/k) * 2^32) by bisection.
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 37;
    let target = |v: u128| -> bool {
        // v^k <= p * 2^(32k)
        if k == 2 {
            v * v <= (p as u128) << 64
        } else {
            // v < 2^37, v^3 < 2^111
            v * v * v <= (p as u128) << 96
        }
    };
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if target(mid) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u32
}

pub struct Tables {
    h: [u32; 8],
    k: [u32; 64],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(64);
        let mut t = Tables { h: [0; 8], k: [0; 64] };
        for i in 0..8 {
            t.h[i] = root_frac(p[i], 2);
        }
        for i in 0..64 {
            t.k[i] = root_frac(p[i], 3);
        }
        t
    })
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let t = tables();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());

    let mut h = t.h;
    for block in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = h;
        for i in 0..64 {
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & f) | (!e & g);
            let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(t.k[i]).wrapping_add(w[i]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let maj = (a & b) | (a & c) | (b & c);
            let t2 = s0.wrapping_add(maj);
            hh = g;
            g = f;
            f = e;
            e = d.wrapping_add(t1);
            d = c;
            c = b;
            b = a;
            a = t1.wrapping_add(t2);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut r = [0u8; 32];
    for i in 0..8 {
        r[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    r
}

pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut inner: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    outer.extend_from_slice(&sha256(&inner));
    sha256(&outer)
}
