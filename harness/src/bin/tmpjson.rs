//! C47 valid JSON bytes, C48 delivery, C49 malformed bytes, C50 completion,
//! C51 item stream.

use core::ops::ControlFlow as Flow;
use harness::jsonref::{self, Tok};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use std::cell::Cell;
use std::rc::Rc;
use tmp::fmt::json::token::{Dec, Error, Sign, Token};
use tmp::fmt::json::{stream as items, token};
use tmp::io::stream::{More, Read};

// ---------------------------------------------------------------------------
// Events

#[derive(Clone, Debug, Eq, PartialEq)]
enum Ev {
    Space(Vec<u8>),
    Colon,
    Comma,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
    Null,
    False,
    True,
    Num { raw: Vec<u8>, minus: bool, int: String, frac: Option<String>, exp: Option<(bool, String)> },
    Str { raw: Vec<u8>, str: String },
    Bad(Bad),
}

#[derive(Clone, Debug, Eq, PartialEq)]
enum Bad {
    Remaining,
    Changed,
    Word(Vec<u8>),
    WordNonUtf8(Vec<u8>),
    NumIncomplete,
    NumPlus,
    NumSigns,
    NumEmpty,
    StrIncomplete,
    StrNonUtf8 { raw: Vec<u8>, str: Vec<u8> },
    StrUnescaped(u8),
    EscUnknown(u8),
    EscInvalid,
    Lead(u32),
    Trail(u32),
}

/// Owned copy of a token, with the redundant parts checked.
fn own(t: Token<'_>) -> Result<Ev, String> {
    Ok(match t {
        Token::Whitespace { raw, str } => {
            ensure_eq!(raw, str.as_bytes(), "text of whitespace");
            Ev::Space(raw.to_vec())
        },
        Token::Colon => Ev::Colon,
        Token::Comma => Ev::Comma,
        Token::ArrayOpen => Ev::ArrayOpen,
        Token::ArrayClose => Ev::ArrayClose,
        Token::ObjectOpen => Ev::ObjectOpen,
        Token::ObjectClose => Ev::ObjectClose,
        Token::Null => Ev::Null,
        Token::False => Ev::False,
        Token::True => Ev::True,
        Token::Number(n) => Ev::Num {
            raw: n.raw.to_vec(),
            minus: n.sign == Sign::Minus,
            int: n.integer.to_string(),
            frac: n.fraction.map(|v| v.to_string()),
            exp: n.exponent.map(|(s, v)| (s == Sign::Minus, v.to_string())),
        },
        Token::String { raw, str } => Ev::Str { raw: raw.to_vec(), str: str.to_string() },
        Token::Error(e) => Ev::Bad(match e {
            Error::BufferRemaining => Bad::Remaining,
            Error::BufferChanged => Bad::Changed,
            Error::ItemNonUtf8 { raw, error } => {
                ensure_eq!(core::str::from_utf8(raw).err(), Some(error), "detail of a non-UTF-8 word");
                Bad::WordNonUtf8(raw.to_vec())
            },
            Error::ItemUnknown { raw, str } => {
                ensure_eq!(raw, str.as_bytes(), "text of an unknown word");
                Bad::Word(raw.to_vec())
            },
            Error::NumberIncomplete => Bad::NumIncomplete,
            Error::NumberLeadingPlus => Bad::NumPlus,
            Error::NumberMultipleSigns => Bad::NumSigns,
            Error::NumberRangeEmpty => Bad::NumEmpty,
            Error::StringIncomplete => Bad::StrIncomplete,
            Error::StringNonUtf8 { raw, str, error } => {
                ensure_eq!(core::str::from_utf8(str).err(), Some(error), "detail of a non-UTF-8 string");
                Bad::StrNonUtf8 { raw: raw.to_vec(), str: str.to_vec() }
            },
            Error::StringUnescaped { code } => Bad::StrUnescaped(code),
            Error::StringEscapeUnknown { code } => Bad::EscUnknown(code),
            Error::StringEscapeInvalid => Bad::EscInvalid,
            Error::StringEscapeUnpairedLeadSurrogate { lead } => Bad::Lead(lead),
            Error::StringEscapeUnpairedTrailSurrogate { trail } => Bad::Trail(trail),
        }),
    })
}

// ---------------------------------------------------------------------------
// Reference

/// Event with the number of input bytes that determine it and the end of what
/// it consumes (unless it is a remark within a token).
#[derive(Clone, Debug)]
struct At {
    ev: Ev,
    need: usize,
    end: Option<usize>,
}

/// What is left open at the end of the data.
#[derive(Clone, Debug, Eq, PartialEq)]
enum Open {
    Nothing,
    Space,
    Word,
    Number,
    String,
}

impl Open {
    fn name(&self) -> &'static str {
        match self {
            Open::Nothing => "nothing pending",
            Open::Space => "whitespace pending",
            Open::Word => "word pending",
            Open::Number => "number pending",
            Open::String => "string pending",
        }
    }
}

struct Ref {
    /// Determined by the data.
    evs: Vec<At>,
    /// Produced by the end of the data.
    last: Vec<Ev>,
    open: Open,
}

fn word(raw: &[u8]) -> Ev {
    match raw {
        b"null" => Ev::Null,
        b"true" => Ev::True,
        b"false" => Ev::False,
        _ if core::str::from_utf8(raw).is_ok() => Ev::Bad(Bad::Word(raw.to_vec())),
        _ => Ev::Bad(Bad::WordNonUtf8(raw.to_vec())),
    }
}

/// Number at `at`: remarks with the bytes they need, then the parts and end.
fn ref_number(d: &[u8], at: usize) -> (Vec<(Bad, usize)>, Ev, bool, usize) {
    let dig = |mut i: usize| {
        while i < d.len() && d[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let text = |a: usize, b: usize| String::from_utf8(d[a..b].to_vec()).unwrap();
    let is = |i: usize, set: &[u8]| i < d.len() && set.contains(&d[i]);
    let mut notes = Vec::new();
    let mut i = at;
    let mut minus = false;
    // The last of many signs counts.
    while is(i, b"+-") {
        minus = d[i] == b'-';
        if i == at && !minus {
            notes.push((Bad::NumPlus, i + 1));
        }
        if i == at + 1 {
            notes.push((Bad::NumSigns, i + 1));
        }
        i += 1;
    }
    let (a, b) = (i, dig(i));
    let int = text(a, b);
    i = b;
    let mut frac = None;
    if is(i, b".") {
        let e = dig(i + 1);
        frac = Some(text(i + 1, e));
        i = e;
    }
    let mut exp = None;
    if is(i, b"eE") {
        let first = i + 1;
        i += 1;
        let mut m = false;
        while is(i, b"+-") {
            m = d[i] == b'-';
            if i != first {
                notes.push((Bad::NumSigns, i + 1));
            }
            i += 1;
        }
        let e = dig(i);
        exp = Some((m, text(i, e)));
        i = e;
    }
    let empty = int.is_empty() || frac.as_deref() == Some("") || exp.as_ref().map(|v| v.1.is_empty()) == Some(true);
    (notes, Ev::Num { raw: d[at..i].to_vec(), minus, int, frac, exp }, empty, i)
}

fn hex(d: &[u8], at: usize) -> Result<u32, usize> {
    let mut v = 0;
    for i in at..at + 4 {
        match d.get(i).and_then(|c| (*c as char).to_digit(16)) {
            Some(x) => v = v * 16 + x,
            None => return Err(i),
        }
    }
    Ok(v)
}

/// String at `at`: remarks, then content and end if it is complete.
fn ref_string(d: &[u8], at: usize) -> (Vec<(Bad, usize)>, Option<(Vec<u8>, usize)>) {
    let mut notes = Vec::new();
    let mut s: Vec<u8> = Vec::new();
    let push = |s: &mut Vec<u8>, c: u32| {
        let c = char::from_u32(c).unwrap_or('\u{fffd}');
        s.extend(c.to_string().as_bytes());
    };
    let mut i = at + 1;
    loop {
        let Some(&c) = d.get(i) else {
            return (notes, None);
        };
        if c == b'"' {
            return (notes, Some((s, i + 1)));
        }
        if c != b'\\' {
            if c < 0x20 {
                notes.push((Bad::StrUnescaped(c), i + 1));
            }
            s.push(c);
            i += 1;
            continue;
        }
        let Some(&c) = d.get(i + 1) else {
            return (notes, None);
        };
        i += 2;
        if c != b'u' {
            match b"\"\\/bfnrt".iter().position(|v| *v == c) {
                Some(k) => s.push(b"\"\\/\x08\x0c\x0a\x0d\x09"[k]),
                None => {
                    notes.push((Bad::EscUnknown(c), i));
                    s.push(c);
                },
            }
            continue;
        }
        let mut code = match hex(d, i) {
            Ok(v) => v,
            Err(e) if e >= d.len() => return (notes, None),
            Err(e) => {
                notes.push((Bad::EscInvalid, e + 1));
                push(&mut s, 0xfffd);
                i = e;
                continue;
            },
        };
        i += 4;
        // Leads look at what follows.
        while (0xd800..0xdc00).contains(&code) {
            let lead = code;
            let bad = match (d.get(i), d.get(i + 1)) {
                (None, _) => return (notes, None),
                (Some(b'\\'), None) => return (notes, None),
                (Some(b'\\'), Some(b'u')) => match hex(d, i + 2) {
                    Ok(v) => {
                        i += 6;
                        if (0xdc00..0xe000).contains(&v) {
                            push(&mut s, 0x10000 + (lead - 0xd800) * 0x400 + (v - 0xdc00));
                            code = u32::MAX;
                            continue;
                        }
                        // Another character on its own.
                        notes.push((Bad::Lead(lead), i));
                        push(&mut s, 0xfffd);
                        code = v;
                        continue;
                    },
                    Err(e) if e >= d.len() => return (notes, None),
                    Err(e) => e,
                },
                (Some(b'\\'), _) => i + 1,
                _ => i,
            };
            notes.push((Bad::Lead(lead), bad + 1));
            push(&mut s, 0xfffd);
            code = u32::MAX;
        }
        if code == u32::MAX {
            continue;
        }
        if (0xdc00..0xe000).contains(&code) {
            notes.push((Bad::Trail(code), i));
            code = 0xfffd;
        }
        push(&mut s, code);
    }
}

fn reference(d: &[u8]) -> Ref {
    let mut evs = Vec::new();
    let mut last = Vec::new();
    let mut i = 0;
    let is_space = |c: &u8| b" \n\r\t".contains(c);
    let is_word = |c: &u8| c.is_ascii_alphanumeric() || b"+-.".contains(c);
    while i < d.len() {
        let start = i;
        let single = match d[i] {
            b':' => Some(Ev::Colon),
            b',' => Some(Ev::Comma),
            b'[' => Some(Ev::ArrayOpen),
            b']' => Some(Ev::ArrayClose),
            b'{' => Some(Ev::ObjectOpen),
            b'}' => Some(Ev::ObjectClose),
            _ => None,
        };
        if let Some(ev) = single {
            i += 1;
            evs.push(At { ev, need: i, end: Some(i) });
        } else if is_space(&d[i]) {
            while i < d.len() && is_space(&d[i]) {
                i += 1;
            }
            let ev = Ev::Space(d[start..i].to_vec());
            if i == d.len() {
                last.push(ev);
                return Ref { evs, last, open: Open::Space };
            }
            evs.push(At { ev, need: i + 1, end: Some(i) });
        } else if d[i] == b'"' {
            let (notes, done) = ref_string(d, i);
            for (b, need) in notes {
                evs.push(At { ev: Ev::Bad(b), need, end: None });
            }
            let Some((s, end)) = done else {
                last.push(Ev::Bad(Bad::StrIncomplete));
                return Ref { evs, last, open: Open::String };
            };
            i = end;
            let raw = d[start..i].to_vec();
            let ev = match String::from_utf8(s) {
                Ok(str) => Ev::Str { raw, str },
                Err(e) => Ev::Bad(Bad::StrNonUtf8 { raw, str: e.into_bytes() }),
            };
            evs.push(At { ev, need: i, end: Some(i) });
        } else if d[i].is_ascii_digit() || b"+-".contains(&d[i]) {
            let (notes, ev, empty, end) = ref_number(d, i);
            for (b, need) in notes {
                evs.push(At { ev: Ev::Bad(b), need, end: None });
            }
            i = end;
            let mut tail = Vec::new();
            if empty {
                tail.push(Ev::Bad(Bad::NumEmpty));
            }
            tail.push(ev);
            if i == d.len() {
                last.extend(tail);
                return Ref { evs, last, open: Open::Number };
            }
            for ev in tail {
                let end = if matches!(ev, Ev::Num { .. }) { Some(i) } else { None };
                evs.push(At { ev, need: i + 1, end });
            }
        } else {
            i += 1;
            while i < d.len() && is_word(&d[i]) {
                i += 1;
            }
            let ev = word(&d[start..i]);
            if i == d.len() {
                last.push(ev);
                return Ref { evs, last, open: Open::Word };
            }
            evs.push(At { ev, need: i + 1, end: Some(i) });
        }
    }
    Ref { evs, last, open: Open::Nothing }
}

// ---------------------------------------------------------------------------
// Source

struct Shared {
    pos: Cell<usize>,
    avail: Cell<usize>,
    calls: Cell<u64>,
}

/// Stream of bytes that become available over time.
struct Source<'d> {
    data: &'d [u8],
    sh: Rc<Shared>,
    /// Extra bytes handed out beyond the minimum, per call.
    extra: Vec<usize>,
}

impl<'d> Source<'d> {
    fn new(data: &'d [u8], avail: usize, extra: Vec<usize>) -> Self {
        let sh = Shared { pos: Cell::new(0), avail: Cell::new(avail), calls: Cell::new(0) };
        Self { data, sh: Rc::new(sh), extra }
    }
}

impl<'d> Read for Source<'d> {
    fn advance(&mut self, len: usize) {
        let to = self.sh.pos.get() + len;
        assert!(to <= self.sh.avail.get(), "advanced behind the available data");
        self.sh.pos.set(to);
    }

    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        let calls = self.sh.calls.get() + 1;
        self.sh.calls.set(calls);
        assert!(calls < 200_000 + 100 * self.data.len() as u64, "the stream is asked over and over");
        let have = &self.data[self.sh.pos.get()..self.sh.avail.get()];
        if min > have.len() {
            return Flow::Break(More { min, max });
        }
        let extra = if self.extra.is_empty() { usize::MAX } else { self.extra[calls as usize % self.extra.len()] };
        Flow::Continue(&have[..min.saturating_add(extra).min(have.len())])
    }
}

/// All tokens of contiguous data, and those of the end.
fn run(d: &[u8]) -> Result<(Vec<Ev>, Vec<Ev>), String> {
    let mut s: &[u8] = d;
    let mut dec = Dec::with(&mut s);
    let mut evs = Vec::new();
    while let Flow::Continue(t) = dec.pop() {
        evs.push(own(t)?);
        ensure!(evs.len() <= 4 * d.len() + 8, "endless tokens");
    }
    let mut last = Vec::new();
    while let Some(t) = dec.complete() {
        last.push(own(t)?);
        ensure!(last.len() <= 8, "completion does not end: {:?}", last);
    }
    ensure!(dec.complete().is_none(), "token after completion");
    Ok((evs, last))
}

fn compare(got: &[Ev], want: &[Ev], d: &[u8]) -> Outcome {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure_eq!(a, b, "token {} of {:?}", i, String::from_utf8_lossy(d));
    }
    ensure!(
        got.len() == want.len(),
        "{:?}: got {} tokens, expected {}: {:?}",
        String::from_utf8_lossy(d),
        got.len(),
        want.len(),
        if got.len() > want.len() { &got[want.len()] } else { &want[got.len()] },
    );
    Ok(())
}

fn show(d: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(d))
}

// ---------------------------------------------------------------------------
// C47

fn expected(p: &jsonref::Piece) -> Ev {
    let raw = p.text.as_bytes().to_vec();
    match &p.tok {
        Tok::Space => Ev::Space(raw),
        Tok::Colon => Ev::Colon,
        Tok::Comma => Ev::Comma,
        Tok::ArrayOpen => Ev::ArrayOpen,
        Tok::ArrayClose => Ev::ArrayClose,
        Tok::ObjectOpen => Ev::ObjectOpen,
        Tok::ObjectClose => Ev::ObjectClose,
        Tok::Null => Ev::Null,
        Tok::False => Ev::False,
        Tok::True => Ev::True,
        Tok::Num { minus, int, frac, exp } => Ev::Num {
            raw,
            minus: *minus,
            int: int.clone(),
            frac: frac.clone(),
            exp: exp.as_ref().map(|(s, d)| (*s == Some('-'), d.clone())),
        },
        Tok::Str(s) => Ev::Str { raw, str: s.clone() },
    }
}

fn judge_valid(g: &mut G, ps: &[jsonref::Piece]) -> Outcome {
    let text = jsonref::text(ps);
    let d = text.as_bytes();
    g.label_if(ps.iter().any(|p| p.text.contains("\\u")), "unicode escapes");
    g.label_if(ps.iter().any(|p| matches!(p.tok, Tok::Num { .. })), "numbers");
    g.label_if(ps.iter().any(|p| matches!(p.tok, Tok::ObjectOpen)), "objects");
    g.nontrivial_if(ps.len() > 1 || matches!(ps[0].tok, Tok::Str(_) | Tok::Num { .. }));
    g.note(|| text.clone());
    let want: Vec<Ev> = ps.iter().map(expected).collect();
    let (mut got, last) = run(d)?;
    ensure!(last.len() <= 1, "several tokens at the end: {:?}", last);
    got.extend(last);
    compare(&got, &want, d)
}

fn valid(g: &mut G) -> Outcome {
    let ps = jsonref::documents(g);
    judge_valid(g, &ps)
}

fn valid_large(g: &mut G) -> Outcome {
    let ps = jsonref::large_document(g);
    g.label_if(ps.iter().any(|p| p.text.len() > 4096), "token over 4096 bytes");
    g.label_if(ps.len() > 4096, "over 4096 tokens");
    judge_valid(g, &ps)
}

fn valid_prims(g: &mut G) -> Outcome {
    let p = match g.below(3) {
        0 => jsonref::number(g),
        _ => jsonref::string(g),
    };
    judge_valid(g, &[p])
}

/// Every scalar value in a string, plain and escaped.
fn valid_chars(g: &mut G) -> Outcome {
    let base = (g.below(0x110000 / 256) * 256) as u32;
    g.nontrivial_if(true);
    g.note(|| format!("U+{:04X}..", base));
    let mut plain = String::from("\"");
    let mut esc = String::from("\"");
    let mut value = String::new();
    let mut value_plain = String::new();
    for c in (base..base + 256).filter_map(char::from_u32) {
        value.push(c);
        if c >= ' ' && c != '"' && c != '\\' {
            plain.push(c);
            value_plain.push(c);
        }
        let mut u = [0u16; 2];
        for w in c.encode_utf16(&mut u) {
            esc += &format!("\\u{:04x}", w);
        }
    }
    plain.push('"');
    esc.push('"');
    for (t, v) in [(plain, value_plain), (esc, value)] {
        let (got, last) = run(t.as_bytes())?;
        ensure_eq!(got, vec![Ev::Str { raw: t.as_bytes().to_vec(), str: v }], "string of the characters from U+{:04X}", base);
        ensure!(last.is_empty(), "more tokens: {:?}", last);
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C48, C49

/// Bytes near JSON, often with broken UTF-8.
fn near(g: &mut G) -> Vec<u8> {
    let mut d = jsonref::near(g).into_bytes();
    if g.chance(1, 4) && !d.is_empty() {
        let n = 1 + g.small(3);
        for _ in 0..n {
            if d.is_empty() {
                break;
            }
            let at = g.below(d.len());
            match g.below(3) {
                0 => d[at] = *g.pick(&[0x80u8, 0xff, 0xc3, 0xe2, 0xed, 0xf0, 0x1f, 0x22, 0x5c, 0]),
                1 => {
                    d.remove(at);
                },
                _ => {
                    let v = *g.pick(&[0x80u8, 0xbf, 0xc0, 0xc3, 0xe2, 0xf4, 0xff, 0x1f, 0x20, 0x22, 0x5c]);
                    d.insert(at, v);
                },
            }
        }
    }
    d
}

fn bytes_any(g: &mut G) -> Vec<u8> {
    if g.chance(1, 3) {
        jsonref::text(&jsonref::documents(g)).into_bytes()
    } else {
        near(g)
    }
}

fn judge(g: &mut G, d: &[u8]) -> Outcome {
    let r = reference(d);
    for a in &r.evs {
        if let Ev::Bad(b) = &a.ev {
            g.label(match b {
                Bad::Word(_) => "unknown word",
                Bad::WordNonUtf8(_) => "non-UTF-8 word",
                Bad::NumPlus => "leading plus",
                Bad::NumSigns => "many signs",
                Bad::NumEmpty => "missing digits",
                Bad::StrNonUtf8 { .. } => "non-UTF-8 string",
                Bad::StrUnescaped(_) => "control character",
                Bad::EscUnknown(_) => "unknown escape",
                Bad::EscInvalid => "invalid escape",
                Bad::Lead(_) => "lone lead",
                Bad::Trail(_) => "lone trail",
                _ => "other",
            });
        }
    }
    g.label_if(r.open == Open::String, "unterminated string");
    let bad = r.evs.iter().any(|a| matches!(a.ev, Ev::Bad(_))) || r.open == Open::String;
    g.nontrivial_if(bad && r.evs.len() > 1);
    g.note(|| show(d));
    let (got, last) = run(d)?;
    let want: Vec<Ev> = r.evs.iter().map(|a| a.ev.clone()).collect();
    compare(&got, &want, d)?;
    ensure_eq!(last, r.last, "end of {}", show(d));
    Ok(())
}

fn malformed(g: &mut G) -> Outcome {
    let d = near(g);
    judge(g, &d)
}

fn malformed_large(g: &mut G) -> Outcome {
    let d = jsonref::stretched(g).into_bytes();
    g.label_if(d.len() > 4096, "over 4096 bytes");
    judge(g, &d)
}

fn malformed_bytes(g: &mut G) -> Outcome {
    let d = g.bytes(24);
    judge(g, &d)
}

/// All short texts over an alphabet that matters.
const SHORT: &[u8] = b"\"\\ud8c0-+.e1,x\x1f\xc3\xa9 ";

fn short(g: &mut G) -> Outcome {
    let n = SHORT.len();
    let mut i = g.below(n * n * n * n);
    let mut d = Vec::new();
    for _ in 0..4 {
        d.push(SHORT[i % n]);
        i /= n;
    }
    judge(g, &d)?;
    // The same inside of a string, and behind an escape.
    let mut s = b"\"".to_vec();
    s.extend(&d);
    s.extend(b"\",1 ");
    judge(g, &s)?;
    let mut s = b"\"\\n".to_vec();
    s.extend(&d);
    s.extend(b"\",1 ");
    judge(g, &s)?;
    // Behind a lead.
    let mut s = b"\"\\ud834".to_vec();
    s.extend(&d);
    s.extend(b"00\",1 ");
    judge(g, &s)
}

/// Garbage between good tokens leaves them alone.
fn islands(g: &mut G) -> Outcome {
    let a = jsonref::documents(g);
    let b = jsonref::documents(g);
    let bad: &[u8] = *g.pick(&[
        &b"nul"[..], b"x", b"+1", b"--1", b"1.", b"-", b"1e", b"\"\\x\"", b"\"\\u12\"", b"\"\\ud800\"", b"\"\\udc00\"", b"\"\x01\"",
        b"\"\x1f\\n\x1f\"", b"\xff", b"\"\xff\"", b"\xc3\xa9", b"/", b"=", b"'a'", b"\"\\n\x00\x00\\n\"", b"\"\\", b"1e++2", b".5",
    ]);
    // Cut off strings need their end.
    let tail: &[u8] = if bad == b"\"\\" { b"x\"" } else { b"" };
    let mut d = jsonref::text(&a).into_bytes();
    d.extend(b",");
    d.extend(bad);
    d.extend(tail);
    d.extend(b",");
    d.extend(jsonref::text(&b).as_bytes());
    g.nontrivial_if(true);
    g.note(|| show(&d));
    let (mut got, last) = run(&d)?;
    got.extend(last);
    let first: Vec<Ev> = a.iter().map(expected).chain([Ev::Comma]).collect();
    let second: Vec<Ev> = [Ev::Comma].into_iter().chain(b.iter().map(expected)).collect();
    ensure!(got.len() > first.len() + second.len(), "malformed piece vanished in {}", show(&d));
    let mid = got.len() - second.len();
    compare(&got[..first.len()], &first, &d)?;
    compare(&got[mid..], &second, &d)?;
    ensure!(got[first.len()..mid].iter().any(|e| matches!(e, Ev::Bad(_))), "no error for {} in {}", show(bad), show(&d));
    Ok(())
}

/// Any schedule of arrival.
fn delivery(g: &mut G) -> Outcome {
    let d = bytes_any(g);
    deliver(g, d, &[1, 2, 7, 1000])
}

fn bytes_large(g: &mut G) -> Vec<u8> {
    let d = match g.below(2) {
        0 => jsonref::text(&jsonref::large_document(g)),
        _ => jsonref::stretched(g),
    };
    g.label_if(d.len() > 4096, "over 4096 bytes");
    g.label_if(d.len() > 65536, "over 65536 bytes");
    d.into_bytes()
}

fn delivery_large(g: &mut G) -> Outcome {
    let d = bytes_large(g);
    let n = d.len();
    deliver(g, d, &[(n / 50).max(1), (n / 5).max(1)])
}

fn deliver(g: &mut G, d: Vec<u8>, steps: &[usize]) -> Outcome {
    let r = reference(&d);
    let first = g.size(0, d.len());
    let step = *g.pick(steps);
    let extra = g.list(4, |g| *g.pick(&[0usize, 1, 3, 1000]));
    let eager = g.chance(1, 4);
    g.label_if(step == 1, "single bytes");
    g.note(|| format!("{} first {} step {} blocks {:?}", show(&d), first, step, extra));
    let mut s = Source::new(&d, first, extra);
    let sh = s.sh.clone();
    let mut dec = Dec::with(&mut s);
    let mut n = 0;
    let mut consumed = 0;
    let mut waits = 0;
    loop {
        let avail = sh.avail.get();
        match dec.pop() {
            Flow::Continue(t) => {
                let ev = own(t)?;
                let Some(want) = r.evs.get(n) else {
                    return Err(format!("{}: more tokens than expected: {:?}", show(&d), ev));
                };
                ensure_eq!(ev, want.ev, "token {} of {} with {} bytes there", n, show(&d), avail);
                ensure!(want.need <= avail, "token {} of {} is not determined by {} bytes", n, show(&d), avail);
                if let Some(e) = want.end {
                    consumed = e;
                }
                ensure!(sh.pos.get() <= consumed, "{} bytes consumed, the last token ends at {}", sh.pos.get(), consumed);
                n += 1;
            },
            Flow::Break(more) => {
                waits += 1;
                let have = avail - sh.pos.get();
                ensure!(sh.pos.get() <= consumed, "{} bytes consumed, the last token ends at {}", sh.pos.get(), consumed);
                ensure!(more.min > have, "{}: asked for {} bytes while {} are there", show(&d), more.min, have);
                ensure!(more.max.map(|m| m >= more.min).unwrap_or(true), "{}: maximum below minimum: {:?}", show(&d), more);
                match r.evs.get(n) {
                    Some(next) => {
                        ensure!(next.need > avail, "token {} of {} is determined by {} bytes, but not returned: {:?}", n, show(&d), avail, next.ev);
                        ensure!(more.min <= next.need - sh.pos.get(), "{}: asked for {} bytes, {} suffice", show(&d), more.min, next.need - sh.pos.get());
                    },
                    None => {},
                }
                if avail == d.len() {
                    break;
                }
                // Asking again changes nothing.
                if eager {
                    ensure_eq!(dec.pop().break_value(), Some(more), "repeated request");
                }
                sh.avail.set((avail + 1 + if step > 1 { g.below(step) } else { 0 }).min(d.len()));
            },
        }
    }
    ensure_eq!(n, r.evs.len(), "tokens of {}", show(&d));
    let mut last = Vec::new();
    while let Some(t) = dec.complete() {
        last.push(own(t)?);
        ensure!(last.len() <= 8, "completion of {} does not end", show(&d));
    }
    ensure_eq!(last, r.last, "end of {}", show(&d));
    g.label(r.open.name());
    g.nontrivial_if(waits > 2 && r.evs.len() > 1);
    Ok(())
}

// ---------------------------------------------------------------------------
// C50

fn completion(g: &mut G) -> Outcome {
    let all = bytes_any(g);
    complete_at(g, all)
}

fn completion_large(g: &mut G) -> Outcome {
    let all = bytes_large(g);
    complete_at(g, all)
}

fn complete_at(g: &mut G, all: Vec<u8>) -> Outcome {
    let cut = if g.bool() { all.len() } else { g.size(0, all.len()) };
    let d = &all[..cut];
    let r = reference(d);
    g.label(r.open.name());
    g.nontrivial_if(r.open != Open::Nothing);
    g.note(|| show(d));
    let mut s = Source::new(d, if g.bool() { d.len() } else { g.size(0, d.len()) }, vec![]);
    let sh = s.sh.clone();
    let mut dec = Dec::with(&mut s);
    let mut evs = Vec::new();
    loop {
        match dec.pop() {
            Flow::Continue(t) => evs.push(own(t)?),
            Flow::Break(_) if sh.avail.get() == d.len() => break,
            Flow::Break(_) => sh.avail.set((sh.avail.get() + 1 + d.len() / 200).min(d.len())),
        }
    }
    let want: Vec<Ev> = r.evs.iter().map(|a| a.ev.clone()).collect();
    compare(&evs, &want, d)?;
    let mut last = Vec::new();
    for _ in 0..12 {
        match dec.complete() {
            Some(t) => last.push(own(t)?),
            None => break,
        }
    }
    ensure_eq!(last, r.last, "end of {}", show(d));
    for _ in 0..g.small(3) {
        ensure!(dec.complete().is_none(), "token after completion of {}", show(d));
    }
    ensure_eq!(sh.pos.get(), d.len(), "bytes consumed at the end of {}", show(d));
    Ok(())
}

/// Data that arrives behind the last request is not part of the last token.
fn completion_late(g: &mut G) -> Outcome {
    let all = bytes_any(g);
    let cut = g.size(0, all.len());
    let r = reference(&all[..cut]);
    g.label(r.open.name());
    g.nontrivial_if(r.open != Open::Nothing && cut < all.len());
    g.note(|| format!("{} then {}", show(&all[..cut]), show(&all[cut..])));
    let mut s = Source::new(&all, cut, vec![]);
    let sh = s.sh.clone();
    let mut dec = Dec::with(&mut s);
    let mut evs = Vec::new();
    while let Flow::Continue(t) = dec.pop() {
        evs.push(own(t)?);
    }
    let want: Vec<Ev> = r.evs.iter().map(|a| a.ev.clone()).collect();
    compare(&evs, &want, &all[..cut])?;
    sh.avail.set(all.len());
    let mut last = Vec::new();
    for _ in 0..r.last.len() {
        match dec.complete() {
            Some(t) => last.push(own(t)?),
            None => break,
        }
    }
    ensure_eq!(last, r.last, "end of {} with {} following", show(&all[..cut]), show(&all[cut..]));
    let end = match dec.complete() {
        Some(t) => Some(own(t)?),
        None => None,
    };
    let want = if cut < all.len() { Some(Ev::Bad(Bad::Remaining)) } else { None };
    ensure_eq!(end, want, "data behind the end of {}", show(&all[..cut]));
    Ok(())
}

// ---------------------------------------------------------------------------
// C51

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum It {
    Error,
    Prim,
    Key,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
}

fn own_item(i: items::Item<'_>) -> It {
    match i {
        items::Item::Error(_) => It::Error,
        items::Item::Prim => It::Prim,
        items::Item::Key => It::Key,
        items::Item::ArrayOpen => It::ArrayOpen,
        items::Item::ArrayClose => It::ArrayClose,
        items::Item::ObjectOpen => It::ObjectOpen,
        items::Item::ObjectClose => It::ObjectClose,
    }
}

/// Recognizer: items up to the first token that no value can continue with.
/// `None` if there is no such token.
fn recognize(toks: &[Tok]) -> (Vec<It>, Option<usize>) {
    #[derive(Clone, Copy, PartialEq)]
    enum Want {
        Value,
        ValueOrClose,
        KeyOrClose,
        Key,
        Colon,
        CommaOrClose,
        End,
    }
    let mut out = Vec::new();
    let mut stack: Vec<bool> = Vec::new(); // true: object
    let mut want = Want::Value;
    for (i, t) in toks.iter().enumerate() {
        let after = |stack: &[bool]| if stack.is_empty() { Want::End } else { Want::CommaOrClose };
        match (want, t) {
            (_, Tok::Space) => {},
            (Want::Value | Want::ValueOrClose, Tok::Null | Tok::True | Tok::False | Tok::Num { .. } | Tok::Str(_)) => {
                out.push(It::Prim);
                want = after(&stack);
            },
            (Want::Value | Want::ValueOrClose, Tok::ArrayOpen) => {
                out.push(It::ArrayOpen);
                stack.push(false);
                want = Want::ValueOrClose;
            },
            (Want::Value | Want::ValueOrClose, Tok::ObjectOpen) => {
                out.push(It::ObjectOpen);
                stack.push(true);
                want = Want::KeyOrClose;
            },
            (Want::ValueOrClose, Tok::ArrayClose) => {
                out.push(It::ArrayClose);
                stack.pop();
                want = after(&stack);
            },
            (Want::CommaOrClose, Tok::ArrayClose) if stack.last() == Some(&false) => {
                out.push(It::ArrayClose);
                stack.pop();
                want = after(&stack);
            },
            (Want::KeyOrClose, Tok::ObjectClose) => {
                out.push(It::ObjectClose);
                stack.pop();
                want = after(&stack);
            },
            (Want::CommaOrClose, Tok::ObjectClose) if stack.last() == Some(&true) => {
                out.push(It::ObjectClose);
                stack.pop();
                want = after(&stack);
            },
            (Want::KeyOrClose | Want::Key, Tok::Str(_)) => {
                out.push(It::Key);
                want = Want::Colon;
            },
            (Want::Colon, Tok::Colon) => want = Want::Value,
            (Want::CommaOrClose, Tok::Comma) => want = if stack.last() == Some(&true) { Want::Key } else { Want::Value },
            _ => return (out, Some(i)),
        }
    }
    (out, None)
}

fn judge_items(g: &mut G, ps: &[jsonref::Piece]) -> Outcome {
    // Adjacent words and numbers would merge.
    let mut text = String::new();
    let mut toks: Vec<Tok> = Vec::new();
    for p in ps {
        let wordy = |t: &Tok| matches!(t, Tok::Num { .. } | Tok::Null | Tok::True | Tok::False);
        if wordy(&p.tok) && toks.last().map(wordy).unwrap_or(false) {
            text.push(' ');
        }
        text += &p.text;
        toks.push(p.tok.clone());
    }
    // Terminates a number.
    text.push(' ');
    let (want, bad) = recognize(&toks);
    g.label_if(bad.is_none(), "follows the grammar");
    g.label_if(bad.is_some(), "violates the grammar");
    g.nontrivial_if(toks.len() > 2);
    g.note(|| text.clone());
    let d = text.as_bytes();
    let mut s = Source::new(d, g.size(0, d.len()), vec![]);
    let sh = s.sh.clone();
    let mut dec = items::Dec::with(&mut s);
    let mut got = Vec::new();
    loop {
        match dec.pop() {
            Flow::Continue(i) => got.push(own_item(i)),
            Flow::Break(_) if sh.avail.get() == d.len() => break,
            Flow::Break(_) => sh.avail.set((sh.avail.get() + 1 + g.below(4) + d.len() / 200).min(d.len())),
        }
        ensure!(got.len() <= 2 * toks.len() + 4, "endless items");
    }
    match bad {
        None => ensure_eq!(got, want, "items of {:?}", text),
        Some(i) => {
            ensure!(got.len() > want.len(), "{:?}: token {} ({:?}) accepted", text, i, ps[i].text);
            ensure_eq!(&got[..want.len()], &want[..], "items of {:?} up to token {}", text, i);
            ensure_eq!(got[want.len()], It::Error, "item of {:?} for token {} ({:?})", text, i, ps[i].text);
        },
    }
    Ok(())
}

fn items_valid(g: &mut G) -> Outcome {
    let ps = jsonref::document(g);
    judge_items(g, &ps)
}

fn items_large(g: &mut G) -> Outcome {
    let ps = jsonref::large_document(g);
    g.label_if(ps.len() > 4096, "over 4096 tokens");
    judge_items(g, &ps)
}

fn items_mutated(g: &mut G) -> Outcome {
    let mut ps = jsonref::document(g);
    let n = 1 + g.small(2);
    for _ in 0..n {
        if ps.is_empty() {
            break;
        }
        let at = g.below(ps.len());
        match g.below(4) {
            0 => {
                ps.remove(at);
            },
            1 => {
                let p = ps[at].clone();
                ps.insert(at, p);
            },
            2 => {
                let b = g.below(ps.len());
                ps.swap(at, b);
            },
            _ => {
                let p = any_token(g);
                ps.insert(at, p);
            },
        }
    }
    judge_items(g, &ps)
}

fn any_token(g: &mut G) -> jsonref::Piece {
    let (t, tok) = match g.below(9) {
        0 => ("[", Tok::ArrayOpen),
        1 => ("]", Tok::ArrayClose),
        2 => ("{", Tok::ObjectOpen),
        3 => ("}", Tok::ObjectClose),
        4 => (",", Tok::Comma),
        5 => (":", Tok::Colon),
        6 => ("\"k\"", Tok::Str("k".to_string())),
        7 => ("null", Tok::Null),
        _ => return jsonref::primitive(g),
    };
    jsonref::Piece { text: t.to_string(), tok }
}

/// All short token sequences.
fn items_short(g: &mut G) -> Outcome {
    let all = ["[", "]", "{", "}", ",", ":", "\"k\"", "1"];
    let toks = [
        Tok::ArrayOpen,
        Tok::ArrayClose,
        Tok::ObjectOpen,
        Tok::ObjectClose,
        Tok::Comma,
        Tok::Colon,
        Tok::Str("k".to_string()),
        Tok::Num { minus: false, int: "1".to_string(), frac: None, exp: None },
    ];
    let mut i = g.below(8usize.pow(6));
    let mut ps = Vec::new();
    for _ in 0..6 {
        ps.push(jsonref::Piece { text: all[i % 8].to_string(), tok: toks[i % 8].clone() });
        i /= 8;
    }
    judge_items(g, &ps)
}

/// Broken tokens are errors, and never a failure.
fn items_bytes(g: &mut G) -> Outcome {
    let mut d = near(g);
    d.push(b' ');
    let r = reference(&d);
    let broken = r.evs.iter().any(|a| matches!(a.ev, Ev::Bad(_)));
    g.label_if(broken, "broken tokens");
    g.nontrivial_if(r.evs.len() > 1);
    g.note(|| show(&d));
    let mut s: &[u8] = &d;
    let mut dec = items::Dec::with(&mut s);
    let mut got = Vec::new();
    while let Flow::Continue(i) = dec.pop() {
        got.push(own_item(i));
        ensure!(got.len() <= 4 * d.len() + 8, "endless items");
    }
    if broken {
        ensure!(got.contains(&It::Error), "no error for {}", show(&d));
    }
    // Balanced up to the first error.
    let mut stack = Vec::new();
    for i in got.iter().take_while(|i| **i != It::Error) {
        match i {
            It::ArrayOpen | It::ObjectOpen => stack.push(*i),
            It::ArrayClose => ensure_eq!(stack.pop(), Some(It::ArrayOpen), "what is closed in {}", show(&d)),
            It::ObjectClose => ensure_eq!(stack.pop(), Some(It::ObjectOpen), "what is closed in {}", show(&d)),
            It::Key => ensure_eq!(stack.last(), Some(&It::ObjectOpen), "where a key is in {}", show(&d)),
            _ => {},
        }
    }
    Ok(())
}

/// The defaults of the plain data types.
fn plain(g: &mut G) -> Outcome {
    let _ = g.below(1);
    let n = token::Number::default();
    ensure!(n.raw.is_empty() && n.sign == Sign::Plus && n.integer.is_empty() && n.fraction.is_none() && n.exponent.is_none(), "default number");
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C47",
            facets: vec![
                Facet::new("documents", 150_000, 3_000_000, valid, "more than one token, or a number or string"),
                Facet::new("primitives", 200_000, 3_000_000, valid_prims, "every case"),
                Facet::new("large", 3_000, 60_000, valid_large, "more than one token, or a number or string"),
                Facet::all("characters", 0x110000 / 256, valid_chars, "every block of 256 characters"),
                Facet::all("defaults", 1, plain, "the default number"),
            ],
            assumptions: vec!["the stream holds all data from the start (delivery is C48)"],
        },
        Property {
            id: "C48",
            facets: vec![
                Facet::new("schedules", 400_000, 6_000_000, delivery, "three or more requests for data and two or more tokens"),
                Facet::new("large", 3_000, 60_000, delivery_large, "three or more requests for data and two or more tokens"),
            ],
            assumptions: vec!["buffered data never changes or shrinks"],
        },
        Property {
            id: "C49",
            facets: vec![
                Facet::new("texts", 300_000, 5_000_000, malformed, "an error token and another one"),
                Facet::new("large", 5_000, 80_000, malformed_large, "an error token and another one"),
                Facet::new("bytes", 100_000, 1_000_000, malformed_bytes, "an error token and another one"),
                Facet::all("short", (SHORT.len() as u64).pow(4), short, "an error token and another one"),
                Facet::new("islands", 100_000, 1_000_000, islands, "every case"),
            ],
            assumptions: vec![
                "words are maximal runs of ASCII letters, digits, dot and signs behind any other byte, as documented by the code only",
                "leading zeros are not diagnosed by this decoder",
            ],
        },
        Property {
            id: "C50",
            facets: vec![
                Facet::new("cuts", 300_000, 5_000_000, completion, "a token is pending"),
                Facet::new("large", 3_000, 60_000, completion_large, "a token is pending"),
                Facet::new("late", 100_000, 1_000_000, completion_late, "a token is pending and data follows"),
            ],
            assumptions: vec!["the end is signalled after the decoder asked for more data"],
        },
        Property {
            id: "C51",
            facets: vec![
                Facet::new("documents", 100_000, 2_000_000, items_valid, "three or more tokens"),
                Facet::new("large", 2_000, 40_000, items_large, "three or more tokens"),
                Facet::new("mutated", 300_000, 5_000_000, items_mutated, "three or more tokens"),
                Facet::all("short", 8u64.pow(6), items_short, "every sequence of six tokens"),
                Facet::new("bytes", 100_000, 1_000_000, items_bytes, "two or more tokens"),
            ],
            assumptions: vec!["a missing rest is not diagnosed, as the decoder has no notion of the end of input"],
        },
    ])
}
