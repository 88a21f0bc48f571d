//! JSON texts with tokens known by construction, and malformed relatives.

use crate::G;

/// Significance of one piece of a text.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Tok {
    Space,
    Colon,
    Comma,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
    Null,
    False,
    True,
    /// Minus sign, integer, fraction, exponent with its explicit sign.
    Num { minus: bool, int: String, frac: Option<String>, exp: Option<(Option<char>, String)> },
    Str(String),
}

/// One token with its source text.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Piece {
    pub text: String,
    pub tok: Tok,
}

pub fn text(v: &[Piece]) -> String {
    v.iter().map(|p| p.text.as_str()).collect()
}

fn piece(text: &str, tok: Tok) -> Piece {
    Piece { text: text.to_string(), tok }
}

pub fn space(g: &mut G) -> Piece {
    let mut t = String::new();
    let n = 1 + g.small(3);
    for _ in 0..n {
        t.push(*g.pick(&[' ', '\n', '\t', '\r']));
    }
    Piece { text: t, tok: Tok::Space }
}

pub fn digits(g: &mut G) -> String {
    let n = match g.weighted(&[8, 2, 1]) {
        0 => 1 + g.small(4),
        1 => g.size(1, 24),
        _ => g.size(20, 60),
    };
    (0..n).map(|_| (b'0' + g.below(10) as u8) as char).collect()
}

pub fn number(g: &mut G) -> Piece {
    let minus = g.chance(1, 3);
    let int = if g.chance(1, 4) {
        "0".to_string()
    } else {
        let mut d = digits(g);
        if d.starts_with('0') {
            d.replace_range(..1, "7");
        }
        d
    };
    let frac = if g.chance(1, 3) { Some(digits(g)) } else { None };
    let exp = if g.chance(1, 3) {
        let sign = match g.below(3) {
            0 => None,
            1 => Some('+'),
            _ => Some('-'),
        };
        Some((sign, digits(g)))
    } else {
        None
    };
    let mut t = String::new();
    if minus {
        t.push('-');
    }
    t += &int;
    if let Some(f) = &frac {
        t.push('.');
        t += f;
    }
    if let Some((s, e)) = &exp {
        t.push(if g.bool() { 'e' } else { 'E' });
        if let Some(s) = s {
            t.push(*s);
        }
        t += e;
    }
    Piece { text: t, tok: Tok::Num { minus, int, frac, exp } }
}

pub fn hex4(g: &mut G, v: u32, t: &mut String) {
    t.push_str("\\u");
    for i in (0..4).rev() {
        let d = char::from_digit(v >> (4 * i) & 15, 16).unwrap();
        t.push(if g.bool() { d.to_ascii_uppercase() } else { d });
    }
}

/// Any character a string may contain.
fn character(g: &mut G) -> char {
    match g.weighted(&[6, 3, 2, 2, 1]) {
        0 => *g.pick(&['a', 'b', 'u', 'n', '0', '9', 'd', ' ', '{', ',', '/', '-', 'e']),
        1 => *g.pick(&['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t']),
        2 => *g.pick(&[
            '\0', '\u{1}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}',
            '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{103ff}', '\u{1d11e}', '\u{10fc00}', '\u{10ffff}', '\u{feff}',
        ]),
        3 => g.unicode(),
        _ => char::from_u32(0x10000 + g.draw(0x100000) as u32).unwrap_or('x'),
    }
}

pub fn string(g: &mut G) -> Piece {
    let n = match g.weighted(&[10, 2, 1]) {
        0 => g.small(8),
        1 => g.size(0, 40),
        _ => g.size(20, 120),
    };
    let mut t = String::from('"');
    let mut v = String::new();
    for _ in 0..n {
        let c = character(g);
        v.push(c);
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c < ' ' || c == '"' || c == '\\';
        let how = g.weighted(&[4, 2, 2]);
        if how == 0 && !must {
            t.push(c);
        } else if let (Some(s), true) = (short, how != 2) {
            t.push('\\');
            t.push(s);
        } else {
            let mut u = [0u16; 2];
            for w in c.encode_utf16(&mut u) {
                hex4(g, *w as u32, &mut t);
            }
        }
    }
    t.push('"');
    Piece { text: t, tok: Tok::Str(v) }
}

pub fn primitive(g: &mut G) -> Piece {
    match g.below(6) {
        0 => piece("null", Tok::Null),
        1 => piece("false", Tok::False),
        2 => piece("true", Tok::True),
        3 => string(g),
        _ => number(g),
    }
}

fn maybe_space(g: &mut G, out: &mut Vec<Piece>) {
    if g.chance(1, 3) {
        out.push(space(g));
    }
}

fn value(g: &mut G, depth: usize, budget: &mut usize, out: &mut Vec<Piece>) {
    let kind = if depth == 0 || *budget == 0 { 0 } else { g.weighted(&[3, 2, 2]) };
    match kind {
        0 => out.push(primitive(g)),
        1 => {
            out.push(piece("[", Tok::ArrayOpen));
            maybe_space(g, out);
            let n = g.small(4);
            for i in 0..n {
                *budget = budget.saturating_sub(1);
                if i > 0 {
                    out.push(piece(",", Tok::Comma));
                    maybe_space(g, out);
                }
                value(g, depth - 1, budget, out);
                maybe_space(g, out);
            }
            out.push(piece("]", Tok::ArrayClose));
        },
        _ => {
            out.push(piece("{", Tok::ObjectOpen));
            maybe_space(g, out);
            let n = g.small(4);
            for i in 0..n {
                *budget = budget.saturating_sub(1);
                if i > 0 {
                    out.push(piece(",", Tok::Comma));
                    maybe_space(g, out);
                }
                out.push(string(g));
                maybe_space(g, out);
                out.push(piece(":", Tok::Colon));
                maybe_space(g, out);
                value(g, depth - 1, budget, out);
                maybe_space(g, out);
            }
            out.push(piece("}", Tok::ObjectClose));
        },
    }
}

/// One JSON text.
pub fn document(g: &mut G) -> Vec<Piece> {
    let mut out = Vec::new();
    maybe_space(g, &mut out);
    let depth = g.size(0, 5);
    let mut budget = 24;
    value(g, depth, &mut budget, &mut out);
    maybe_space(g, &mut out);
    join_spaces(out)
}

/// Adjacent whitespace is one token.
fn join_spaces(v: Vec<Piece>) -> Vec<Piece> {
    let mut out: Vec<Piece> = Vec::new();
    for p in v {
        match out.last_mut() {
            Some(l) if l.tok == Tok::Space && p.tok == Tok::Space => l.text += &p.text,
            _ => out.push(p),
        }
    }
    out
}

/// Several JSON texts one after the other.
pub fn documents(g: &mut G) -> Vec<Piece> {
    let mut out = document(g);
    while g.chance(1, 4) && out.len() < 200 {
        let glue = !matches!(
            out.last().unwrap().tok,
            Tok::Num { .. } | Tok::Null | Tok::False | Tok::True
        );
        if !glue || g.bool() {
            out.push(space(g));
        }
        out.extend(document(g));
    }
    join_spaces(out)
}

/// Fragments malformed texts are made of.
pub const FRAGMENTS: &[&str] = &[
    "{", "}", "[", "]", ":", ",", " ", "\n", "\t", "\r", "null", "true", "false", "nul", "truex", "nulll", "Null", "0", "1", "12", "01",
    "00", "-", "+", "--", "-+", "++", "+-", ".", "..", "1.", ".5", "1.5", "-0", "e", "E", "1e", "1e+", "1E-5", "1e++5", "1.e5", "-.5",
    "-e3", "5e5e5", "1.2.3", "1-2", "1e5+3", "1e5.2", "\"", "\"\"", "\"a\"", "\\", "\\n", "\\x", "\\\"", "\\u", "\\u0041", "\\u00",
    "\\u00g0", "\\ud800", "\\ud834\\udd1e", "\\udc00", "\\udfff", "\\udbff", "\\ud800\\n", "\\ud800\\ud800", "\\ud800\\u0041",
    "\\ud800\\u00", "\\ud800\\x", "\\ud800x", "\\ud800\"", "\\u\"", "\\ud8", "\u{0}", "\u{1}", "\u{1e}", "\u{1f}", "\u{7f}", "\u{c}",
    "\u{b}", "é", "€", "\u{1d11e}", "\u{2028}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{85}", "/", "//", "//x\n", "// \"", "/*", "*/", "#",
    "#x\n", "=", "_", "'", "$", "x", "foo", "foo_bar", "NaN", "Infinity", "-Infinity", "u", "\\/", "1true", "true1", "0x1f", "1_000",
];

/// Text near JSON: fragments, pieces of documents, single edits.
pub fn near(g: &mut G) -> String {
    let mut t = match g.weighted(&[4, 3, 2]) {
        0 => {
            let mut t = String::new();
            let n = 1 + g.small(10);
            for _ in 0..n {
                t += g.pick(FRAGMENTS);
            }
            t
        },
        1 => {
            // A document with fragments inserted or pieces lost.
            let mut t = String::new();
            for p in documents(g) {
                match g.weighted(&[12, 1, 1, 1]) {
                    0 => t += &p.text,
                    1 => t += g.pick(FRAGMENTS),
                    2 => {
                        t += &p.text;
                        t += g.pick(FRAGMENTS);
                    },
                    _ => {},
                }
            }
            t
        },
        _ => {
            // A string full of fragments.
            let mut t = String::from("\"");
            let n = g.small(8);
            for _ in 0..n {
                t += g.pick(FRAGMENTS);
            }
            if g.chance(3, 4) {
                t.push('"');
            }
            t
        },
    };
    // Character level edits.
    let mut edits = g.small(3);
    while edits > 0 && !t.is_empty() {
        edits -= 1;
        let at = g.below(t.chars().count());
        let (i, c) = t.char_indices().nth(at).unwrap();
        match g.below(3) {
            0 => {
                t.remove(i);
            },
            1 => {
                let n = *g.pick(&['"', '\\', 'u', 'd', '0', '-', '.', 'e', ' ', '\u{1f}', ',', 'é']);
                t.insert(i, n);
            },
            _ => t.insert(i, c),
        }
    }
    t
}

/// Counts around the limits of narrow counters and buffers.
pub fn far(g: &mut G) -> usize {
    let base = *g.pick(&[256usize, 512, 1024, 4096, 4096, 8192, 65536]);
    match g.weighted(&[3, 2]) {
        0 => base - 14 + g.below(20),
        _ => base + g.below(base / 4),
    }
}

/// One token of thousands of characters.
pub fn large(g: &mut G) -> Piece {
    let n = far(g);
    let fill = |g: &mut G, n: usize| -> String {
        let s = g.size(1, 5);
        let d: Vec<char> = (0..s).map(|_| (b'0' + g.below(10) as u8) as char).collect();
        (0..n).map(|i| d[i % s]).collect()
    };
    match g.weighted(&[6, 1, 3]) {
        0 => {
            // Runs of one character between varied content.
            let (mut t, mut v) = (String::from('"'), String::new());
            let runs = 1 + g.small(3);
            let long = g.below(runs);
            for i in 0..runs {
                let k = if i == long { n } else { g.small(20) };
                let (c, e) = *g.pick(&[
                    ('a', "a"),
                    ('a', "a"),
                    ('é', "é"),
                    ('€', "€"),
                    ('\u{1d11e}', "\u{1d11e}"),
                    ('\n', "\\n"),
                    ('\\', "\\\\"),
                    ('"', "\\\""),
                    ('A', "\\u0041"),
                    ('€', "\\u20ac"),
                    ('\u{1d11e}', "\\ud834\\udd1e"),
                ]);
                for _ in 0..k {
                    v.push(c);
                    t += e;
                }
                let p = string(g);
                t += &p.text[1..p.text.len() - 1];
                if let Tok::Str(s) = p.tok {
                    v += &s;
                }
            }
            t.push('"');
            Piece { text: t, tok: Tok::Str(v) }
        },
        1 => {
            let s = space(g).text;
            let k = n / s.len();
            Piece { text: s.repeat(k), tok: Tok::Space }
        },
        _ => {
            let minus = g.bool();
            let mut int = "7".to_string();
            let mut frac = if g.bool() { Some("25".to_string()) } else { None };
            let sign = *g.pick(&[None, Some('+'), Some('-')]);
            let mut exp = if g.bool() { Some((sign, "30".to_string())) } else { None };
            let f = fill(g, n);
            match g.below(3) {
                0 => int += &f,
                1 => frac = Some(f),
                _ => exp = Some((sign, f)),
            }
            let mut t = String::new();
            if minus {
                t.push('-');
            }
            t += &int;
            if let Some(f) = &frac {
                t.push('.');
                t += f;
            }
            if let Some((s, e)) = &exp {
                t.push(if g.bool() { 'e' } else { 'E' });
                t.extend(s);
                t += e;
            }
            Piece { text: t, tok: Tok::Num { minus, int, frac, exp } }
        },
    }
}

/// Texts with large tokens, many tokens or deep nesting.
pub fn large_document(g: &mut G) -> Vec<Piece> {
    let mut out = Vec::new();
    match g.weighted(&[5, 1, 1, 1]) {
        0 => {
            out.push(piece("[", Tok::ArrayOpen));
            let n = 1 + g.small(2);
            for i in 0..n {
                if i > 0 {
                    out.push(piece(",", Tok::Comma));
                }
                let p = large(g);
                let blank = p.tok == Tok::Space;
                out.push(p);
                if blank || g.chance(1, 3) {
                    if !blank {
                        out.push(piece(",", Tok::Comma));
                    }
                    out.push(primitive(g));
                }
            }
            out.push(piece("]", Tok::ArrayClose));
        },
        1 => {
            let a = primitive(g);
            let n = far(g);
            out.push(piece("[", Tok::ArrayOpen));
            for _ in 0..n {
                out.push(a.clone());
                out.push(piece(",", Tok::Comma));
            }
            out.push(primitive(g));
            out.push(piece("]", Tok::ArrayClose));
        },
        2 => {
            let k = string(g);
            let a = primitive(g);
            let n = far(g).min(10_000);
            out.push(piece("{", Tok::ObjectOpen));
            for i in 0..n {
                if i > 0 {
                    out.push(piece(",", Tok::Comma));
                }
                out.push(k.clone());
                out.push(piece(":", Tok::Colon));
                out.push(a.clone());
            }
            out.push(piece("}", Tok::ObjectClose));
        },
        _ => {
            // Levels of a repeated pattern of kinds.
            let n = far(g);
            let kinds: Vec<bool> = (0..g.size(1, 6)).map(|_| g.bool()).collect();
            let at = |i: usize| kinds[i % kinds.len()];
            for i in 0..n {
                if at(i) {
                    out.push(piece("[", Tok::ArrayOpen));
                } else {
                    out.push(piece("{", Tok::ObjectOpen));
                    out.push(piece("\"k\"", Tok::Str("k".to_string())));
                    out.push(piece(":", Tok::Colon));
                }
            }
            out.push(primitive(g));
            for i in (0..n).rev() {
                out.push(if at(i) { piece("]", Tok::ArrayClose) } else { piece("}", Tok::ObjectClose) });
            }
        },
    }
    if g.bool() {
        out.push(space(g));
        out.push(primitive(g));
        if g.bool() {
            out.push(space(g));
        }
    }
    join_spaces(out)
}

/// Text near JSON with some part repeated very often.
pub fn stretched(g: &mut G) -> String {
    let t = near(g);
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return t;
    }
    let k = 1 + g.small(6);
    let n = far(g) / k;
    let at = g.below(c.len());
    let end = (at + k).min(c.len());
    let part: String = c[at..end].iter().collect();
    let mut r: String = c[..at].iter().collect();
    r += &part.repeat(n);
    r.extend(&c[end..]);
    r
}
