//! Reference grammar of D-Bus type signatures, and generators for it.

use crate::G;

pub const BASIC: &[u8] = b"yqnuitxdbsogh";
pub const ELEMENTS: &[u8] = b"yqnuitxdbsoghvam(){}";

pub fn is_basic(c: u8) -> bool {
    BASIC.contains(&c)
}

/// End of the single complete type that starts at `i`.
pub fn complete(s: &[u8], i: usize) -> Option<usize> {
    // Iterative, since types may nest deeply: opening character and number
    // of complete members of everything that is open.
    let mut open: Vec<(u8, usize)> = Vec::new();
    let mut j = i;
    loop {
        let c = *s.get(j)?;
        if let Some((b'{', n)) = open.last() {
            let fits = match n {
                0 => is_basic(c),
                1 => c != b'}',
                _ => c == b'}',
            };
            if !fits {
                return None;
            }
        }
        j += 1;
        match c {
            b'a' | b'm' | b'(' | b'{' => {
                open.push((c, 0));
                continue;
            },
            b')' | b'}' => {
                let (o, _) = open.pop()?;
                if (o, c) != (b'(', b')') && (o, c) != (b'{', b'}') {
                    return None;
                }
            },
            b'v' => {},
            c if is_basic(c) => {},
            _ => return None,
        }
        // A complete type ends here, and so do all arrays of it.
        while let Some((b'a' | b'm', _)) = open.last() {
            open.pop();
        }
        match open.last_mut() {
            None => return Some(j),
            Some(v) => v.1 += 1,
        }
    }
}

pub fn valid(s: &[u8]) -> bool {
    complete(s, 0) == Some(s.len())
}

/// What a signature says about one of its characters.
#[derive(Clone, Debug)]
pub struct Info {
    pub code: u8,
    /// length of the complete type starting here (1 for closing brackets)
    pub len: usize,
    pub up: Option<usize>,
    pub pos: usize,
    pub gvar: u8,
}

pub fn dvar_align(c: u8) -> u8 {
    match c {
        b'y' | b'g' | b'v' => 0,
        b'q' | b'n' => 1,
        b'u' | b'i' | b'b' | b's' | b'o' | b'h' | b'a' | b'm' => 2,
        b't' | b'x' | b'd' | b'(' | b'{' => 3,
        _ => 0,
    }
}

fn gvar_base(c: u8) -> u8 {
    match c {
        b'q' | b'n' => 1,
        b'u' | b'i' | b'h' => 2,
        b't' | b'x' | b'd' | b'v' => 3,
        _ => 0,
    }
}

/// Describe every character of a valid signature.
pub fn describe(s: &[u8]) -> Vec<Info> {
    let mut r: Vec<Info> = s
        .iter()
        .map(|c| Info { code: *c, len: 1, up: None, pos: 0, gvar: gvar_base(*c) })
        .collect();
    // (index of the opener, members seen)
    let mut stack: Vec<(usize, usize)> = Vec::new();
    for i in 0..s.len() {
        r[i].up = stack.last().map(|v| v.0);
        r[i].pos = stack.last().map(|v| v.1).unwrap_or(0);
        let mut done = match s[i] {
            b'a' | b'm' | b'(' | b'{' => {
                stack.push((i, 0));
                None
            },
            b')' | b'}' => {
                let (o, _) = stack.pop().unwrap();
                Some(o)
            },
            _ => Some(i),
        };
        // A complete type from `t` to `i`.
        while let Some(t) = done {
            r[t].len = i + 1 - t;
            done = None;
            if let Some((o, n)) = stack.last_mut() {
                *n += 1;
                let (o, g) = (*o, r[t].gvar);
                r[o].gvar = r[o].gvar.max(g);
                if matches!(s[o], b'a' | b'm') {
                    stack.pop();
                    done = Some(o);
                }
            }
        }
    }
    r
}

// ---------------------------------------------------------------------------

fn basic(g: &mut G) -> u8 {
    *g.pick(BASIC)
}

fn one(g: &mut G, out: &mut Vec<u8>, depth: usize, budget: usize) {
    let kinds: &[u64] = if depth == 0 || out.len() + 4 >= budget { &[6, 2] } else { &[6, 2, 4, 1, 5, 3] };
    match g.weighted(kinds) {
        0 => out.push(basic(g)),
        1 => out.push(b'v'),
        2 => {
            out.push(b'a');
            one(g, out, depth - 1, budget);
        },
        3 => {
            out.push(b'm');
            one(g, out, depth - 1, budget);
        },
        4 => {
            out.push(b'(');
            let hint = *g.pick(&[2u64, 4, 10, 30]);
            while out.len() + 2 < budget && g.draw(hint) != 0 {
                one(g, out, depth - 1, budget - 1);
            }
            out.push(b')');
        },
        _ => {
            out.push(b'{');
            out.push(basic(g));
            one(g, out, depth - 1, budget - 1);
            out.push(b'}');
        },
    }
}

/// A valid signature; lengths concentrate below 20, around 32 and up to
/// several hundred.
pub fn gen_valid(g: &mut G) -> Vec<u8> {
    let mut out = Vec::new();
    let shape = g.weighted(&[6, 4, 3, 2, 1]);
    match shape {
        0 => one(g, &mut out, 4, 12),
        1 => {
            // near the limit of the compact form
            one(g, &mut out, 6, 24);
            let want = g.size(28, 36);
            stretch(g, &mut out, want);
        },
        2 => {
            one(g, &mut out, 12, 60);
            let want = g.size(2, 70);
            stretch(g, &mut out, want);
        },
        3 => {
            // a long structure of varied members
            let want = g.size(30, 300);
            out.push(b'(');
            while out.len() + 1 < want {
                one(g, &mut out, 8, want + 10);
            }
            out.push(b')');
        },
        _ => {
            // deep nesting
            let n = g.size(1, 260);
            let mut close = Vec::new();
            let style = g.below(4);
            for _ in 0..n {
                match if style == 3 { g.below(3) } else { style } {
                    0 => out.push(b'a'),
                    1 => {
                        out.push(b'(');
                        if g.chance(1, 6) {
                            out.push(basic(g));
                        }
                        close.push(b')');
                    },
                    _ => {
                        out.push(b'{');
                        out.push(basic(g));
                        close.push(b'}');
                    },
                }
            }
            one(g, &mut out, 2, n + 20);
            close.reverse();
            out.extend(close);
        },
    }
    out
}

/// Sizes around the limits of narrow counters.
fn far(g: &mut G) -> usize {
    let base = *g.pick(&[256usize, 256, 512, 1024, 4096, 65536]);
    match g.weighted(&[3, 2]) {
        0 => base - 4 + g.below(8),
        _ => base + g.below(base / 8),
    }
}

/// A valid signature of hundreds to thousands of characters, made of few
/// different parts.
pub fn gen_huge(g: &mut G) -> Vec<u8> {
    let mut out = Vec::new();
    let mut close = Vec::new();
    for _ in 0..g.below(3) {
        match g.below(3) {
            0 => out.push(b'a'),
            1 => {
                out.push(b'(');
                if g.bool() {
                    one(g, &mut out, 2, 8);
                }
                close.push(b')');
            },
            _ => {
                out.push(b'{');
                out.push(basic(g));
                close.push(b'}');
            },
        }
    }
    let part = |g: &mut G| {
        let mut p = Vec::new();
        if g.bool() {
            p.push(basic(g));
        } else {
            let n = g.size(1, 12);
            one(g, &mut p, 3, n);
        }
        p
    };
    let n = far(g);
    match g.weighted(&[4, 1, 1, 1, 1, 1]) {
        0 => {
            // a wide structure
            let parts = [part(g), part(g)];
            let mut members = 0;
            out.push(b'(');
            let special = g.below(n);
            while members < n {
                out.extend(&parts[(members == special) as usize]);
                members += 1;
            }
            out.push(b')');
        },
        1 => {
            out.extend(std::iter::repeat(b'a').take(n));
            out.extend(part(g));
        },
        2 => {
            let p = part(g);
            let q = part(g);
            let k = n.min(5000);
            for _ in 0..k {
                out.push(b'(');
                if k < 600 {
                    out.extend(&p);
                }
            }
            out.extend(&q);
            out.extend(std::iter::repeat(b')').take(k));
        },
        3 => {
            let c = basic(g);
            for _ in 0..n {
                out.extend([b'{', c]);
            }
            out.extend(part(g));
            out.extend(std::iter::repeat(b'}').take(n));
        },
        4 => {
            // a long member followed by another one
            let p = part(g);
            out.push(b'(');
            out.push(b'(');
            while out.len() < n {
                out.extend(&p);
            }
            out.push(b')');
            out.extend(part(g));
            out.push(b')');
        },
        _ => {
            // deep, then wide
            let k = g.below(n.min(300));
            out.extend(std::iter::repeat(b'(').take(k));
            let p = part(g);
            out.push(b'(');
            while out.len() < n {
                out.extend(&p);
            }
            out.push(b')');
            for _ in 0..k {
                if k < 100 {
                    out.extend(&p);
                }
                out.push(b')');
            }
        },
    }
    close.reverse();
    out.extend(close);
    out
}

/// Wrap into a structure to reach a length exactly, if still possible.
fn stretch(g: &mut G, out: &mut Vec<u8>, want: usize) {
    if out.len() + 2 > want {
        return;
    }
    let fill = want - out.len() - 2;
    let before = g.size(0, fill);
    let c = basic(g);
    let mut r = vec![b'('];
    r.extend(std::iter::repeat(c).take(before));
    r.extend(out.iter());
    r.extend(std::iter::repeat(c).take(fill - before));
    r.push(b')');
    *out = r;
}

fn any_code(g: &mut G) -> u8 {
    match g.weighted(&[10, 8, 1, 1]) {
        0 => *g.pick(b"yvam(){}s"),
        1 => *g.pick(ELEMENTS),
        2 => g.draw(128) as u8,
        _ => g.draw(256) as u8,
    }
}

/// Any byte string, mostly near the grammar.
pub fn gen_any(g: &mut G) -> Vec<u8> {
    match g.weighted(&[3, 6, 3, 1]) {
        0 => gen_valid(g),
        1 => {
            let mut s = gen_valid(g);
            for _ in 0..g.size(1, 3) {
                mutate(g, &mut s);
            }
            s
        },
        2 => g.list(40, any_code),
        _ => g.bytes(20),
    }
}

/// Some complete type within the text.
fn span(g: &mut G, s: &[u8]) -> Option<(usize, usize)> {
    for _ in 0..4 {
        let i = g.below(s.len().max(1));
        if let Some(j) = complete(s, i) {
            return Some((i, j));
        }
    }
    None
}

/// Change a complete type within the text as a whole.
fn mutate_type(g: &mut G, s: &mut Vec<u8>) {
    let Some((i, j)) = span(g, s) else { return };
    let t = s[i..j].to_vec();
    let mut r = Vec::new();
    match g.below(10) {
        0 => {
            // key of a dictionary
            r.push(b'{');
            r.extend(&t);
            one(g, &mut r, 2, 6);
            r.push(b'}');
        },
        1 => {
            // value of a dictionary, maybe one too many
            r.push(b'{');
            r.push(basic(g));
            for _ in 0..g.size(1, 2) {
                r.extend(&t);
            }
            r.push(b'}');
        },
        2 => {
            r.push(b'{');
            r.extend(&t);
            r.push(b'}');
        },
        3 => {},
        4 => {
            r.extend(&t);
            r.extend(&t);
        },
        5 | 6 => {
            // the other kind of bracket, on both sides
            r.extend(&t);
            let (a, b) = match t[0] {
                b'(' => (b'{', b'}'),
                b'{' => (b'(', b')'),
                c => (c, t[t.len() - 1]),
            };
            let n = r.len();
            r[0] = a;
            r[n - 1] = b;
        },
        7 => {
            // key and value exchanged
            r.extend(&t);
            if t[0] == b'{' {
                let n = r.len();
                r[1..n - 1].rotate_left(1);
            }
        },
        8 => {
            // members in front or behind
            r.push(t[0]);
            r.extend(&t[..]);
        },
        _ => one(g, &mut r, 3, 12),
    }
    s.splice(i..j, r);
}

pub fn mutate(g: &mut G, s: &mut Vec<u8>) {
    let n = s.len();
    match g.weighted(&[3, 3, 4, 2, 2, 2, 1, 5]) {
        7 => mutate_type(g, s),
        0 => {
            if n > 0 {
                let i = g.below(n);
                s.remove(i);
            }
        },
        1 => {
            let i = g.below(n + 1);
            let c = any_code(g);
            s.insert(i, c);
        },
        2 => {
            if n > 0 {
                let i = g.below(n);
                s[i] = any_code(g);
            }
        },
        3 => {
            let i = g.below(n + 1);
            s.truncate(i);
        },
        4 => {
            // another closing bracket
            let at: Vec<usize> = (0..n).filter(|i| matches!(s[*i], b')' | b'}')).collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                s[i] = if s[i] == b')' { b'}' } else { b')' };
            }
        },
        5 => {
            let mut t = Vec::new();
            one(g, &mut t, 2, 8);
            let i = g.below(n + 1);
            let tail = s.split_off(i);
            s.extend(t);
            s.extend(tail);
        },
        _ => {
            if n > 1 {
                let i = g.below(n - 1);
                s.swap(i, i + 1);
            }
        },
    }
}
