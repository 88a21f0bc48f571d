//! C07 valid JSON text, C08 splits, C09 malformed text, C10 reset, stop and
//! clone.

use core::ops::ControlFlow as Flow;
use harness::jsonref::{self, Piece, Tok};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::json::token::{
    Error, Report, Sign, Status, Token, Tokenizer, FLAG_ALLOW_LEADING_ZERO, FLAG_ALLOW_PLUS_SIGN,
};

// ---------------------------------------------------------------------------
// Events

#[derive(Clone, Debug, Eq, PartialEq)]
enum Ev {
    Colon,
    Comma,
    ArrayOpen,
    ArrayClose,
    ObjectOpen,
    ObjectClose,
    Null,
    False,
    True,
    Space(String),
    /// Source text, minus, integer, fraction, minus of the exponent, exponent.
    Num(String, bool, Vec<u8>, Vec<u8>, bool, Vec<u8>),
    Str(String, String),
    Stray(char),
    Word(String),
    NumIncomplete,
    StrIncomplete,
    StrChar(char),
    EscInvalid(char),
    EscIncomplete,
    Unpaired,
    Comment(String),
}

impl Ev {
    fn bad(&self) -> bool {
        !matches!(
            self,
            Ev::Colon
                | Ev::Comma
                | Ev::ArrayOpen
                | Ev::ArrayClose
                | Ev::ObjectOpen
                | Ev::ObjectClose
                | Ev::Null
                | Ev::False
                | Ev::True
                | Ev::Space(_)
                | Ev::Num(..)
                | Ev::Str(..)
        )
    }
}

fn minus(s: Sign) -> bool {
    matches!(s, Sign::Minus)
}

fn of_token(t: &Token<'_>) -> Ev {
    match t {
        Token::Colon => Ev::Colon,
        Token::Comma => Ev::Comma,
        Token::ArrayOpen => Ev::ArrayOpen,
        Token::ArrayClose => Ev::ArrayClose,
        Token::ObjectOpen => Ev::ObjectOpen,
        Token::ObjectClose => Ev::ObjectClose,
        Token::Null => Ev::Null,
        Token::False => Ev::False,
        Token::True => Ev::True,
        Token::Whitespace { raw } => Ev::Space(raw.to_string()),
        Token::Number { raw, integer, fraction, exponent, integer_sign, exponent_sign } => Ev::Num(
            raw.to_string(),
            minus(*integer_sign),
            integer.to_vec(),
            fraction.to_vec(),
            minus(*exponent_sign),
            exponent.to_vec(),
        ),
        Token::String { raw, chars } => Ev::Str(raw.to_string(), chars.to_string()),
    }
}

fn of_error(e: &Error<'_>) -> Ev {
    match e {
        Error::CharacterStray(c) => Ev::Stray(*c),
        Error::KeywordUnknown(s) => Ev::Word(s.to_string()),
        Error::NumberIncomplete => Ev::NumIncomplete,
        Error::StringIncomplete => Ev::StrIncomplete,
        Error::StringCharacterInvalid(c) => Ev::StrChar(*c),
        Error::StringEscapeInvalid(c) => Ev::EscInvalid(*c),
        Error::StringEscapeIncomplete => Ev::EscIncomplete,
        Error::StringSurrogateUnpaired => Ev::Unpaired,
        Error::Comment(s) => Ev::Comment(s.to_string()),
    }
}

/// Receiver of reports, stopping at a given report.
#[derive(Default)]
struct Log {
    evs: Vec<Ev>,
    stop: Option<(usize, u64)>,
    own: bool,
    own_bad: Option<String>,
}

impl Log {
    fn take(&mut self, ev: Ev) -> Flow<u64> {
        self.evs.push(ev);
        match self.stop {
            Some((at, with)) if self.evs.len() == at + 1 => Flow::Break(with),
            _ => Flow::Continue(()),
        }
    }
}

impl Report<u64> for Log {
    fn report_error(&mut self, error: Error<'_>) -> Flow<u64> {
        let ev = of_error(&error);
        if self.own {
            let copy = error.clone();
            let own: Error<'static> = error.own();
            if own != copy || of_error(&own) != ev {
                self.own_bad = Some(format!("owned copy {own:?} of {copy:?}"));
            }
        }
        self.take(ev)
    }

    fn report_token(&mut self, token: Token<'_>) -> Flow<u64> {
        let ev = of_token(&token);
        if self.own {
            let copy = token.clone();
            let own: Token<'static> = token.own();
            if own != copy || of_token(&own) != ev {
                self.own_bad = Some(format!("owned copy {own:?} of {copy:?}"));
            }
        }
        self.take(ev)
    }
}

fn busy(s: Status) -> bool {
    match s {
        Status::Busy => true,
        Status::Done => false,
    }
}

fn parse(tk: &mut Tokenizer, text: &str) -> Result<Vec<Ev>, String> {
    let mut log = Log::default();
    match tk.parse_str(&mut log, text) {
        Flow::Continue(s) => ensure!(!busy(s), "a finished text leaves status busy"),
        Flow::Break(v) => return Err(format!("break {v} out of nowhere")),
    }
    ensure!(!busy(tk.status()), "a finished text leaves the tokenizer busy");
    Ok(log.evs)
}

// ---------------------------------------------------------------------------
// Expectation by construction

fn values(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b - b'0').collect()
}

fn expect(p: &Piece) -> Ev {
    match &p.tok {
        Tok::Space => Ev::Space(p.text.clone()),
        Tok::Colon => Ev::Colon,
        Tok::Comma => Ev::Comma,
        Tok::ArrayOpen => Ev::ArrayOpen,
        Tok::ArrayClose => Ev::ArrayClose,
        Tok::ObjectOpen => Ev::ObjectOpen,
        Tok::ObjectClose => Ev::ObjectClose,
        Tok::Null => Ev::Null,
        Tok::False => Ev::False,
        Tok::True => Ev::True,
        Tok::Num { minus, int, frac, exp } => Ev::Num(
            p.text.clone(),
            *minus,
            values(int),
            frac.as_deref().map(values).unwrap_or_default(),
            matches!(exp, Some((Some('-'), _))),
            exp.as_ref().map(|v| values(&v.1)).unwrap_or_default(),
        ),
        Tok::Str(v) => Ev::Str(p.text[1..p.text.len() - 1].to_string(), v.clone()),
    }
}

// ---------------------------------------------------------------------------
// Reference

/// Reports of a text with the number of characters that determine each (one
/// more than the text has for those made at the end), and whether a token is
/// pending after each prefix.
struct Ref {
    evs: Vec<(Ev, usize)>,
    busy: Vec<bool>,
}

impl Ref {
    fn all(&self) -> Vec<Ev> {
        self.evs.iter().map(|v| v.0.clone()).collect()
    }
}

fn json_space(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\r' | '\t')
}

fn ends_word(c: char) -> bool {
    c.is_whitespace() || ":,[]{}-\"#/+=".contains(c)
}

fn simple(c: char) -> Option<char> {
    Some(match c {
        '"' | '\\' | '/' => c,
        'b' => '\u{8}',
        'f' => '\u{c}',
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        _ => return None,
    })
}

struct Lex<'a> {
    s: &'a [char],
    flags: u32,
    evs: Vec<(Ev, usize)>,
}

impl Lex<'_> {
    fn put(&mut self, ev: Ev, need: usize) {
        self.evs.push((ev, need));
    }

    fn at(&self, i: usize) -> Option<char> {
        self.s.get(i).copied()
    }

    fn run(&self, mut i: usize, f: impl Fn(char) -> bool) -> usize {
        while self.at(i).is_some_and(&f) {
            i += 1;
        }
        i
    }

    fn slice(&self, a: usize, b: usize) -> String {
        self.s[a..b].iter().collect()
    }

    fn digits(&self, a: usize, b: usize) -> Vec<u8> {
        self.s[a..b].iter().map(|c| *c as u8 - b'0').collect()
    }

    /// Number starting at `a`; returns its end.
    fn number(&mut self, a: usize) -> usize {
        let dec = |c: char| c.is_ascii_digit();
        let mut i = a;
        let neg = self.at(a) == Some('-');
        if matches!(self.at(a), Some('-' | '+')) {
            i += 1;
        }
        let int = (i, self.run(i, dec));
        i = int.1;
        let mut frac = (0, 0);
        let mut exp = (0, 0);
        let mut exp_neg = false;
        let mut whole = int.0 != int.1;
        if int.1 - int.0 > 1 && self.s[int.0] == '0' && self.flags & FLAG_ALLOW_LEADING_ZERO == 0 {
            self.put(Ev::Stray(self.s[int.0 + 1]), int.0 + 2);
        }
        if whole && self.at(i) == Some('.') {
            frac = (i + 1, self.run(i + 1, dec));
            i = frac.1;
            whole = frac.0 != frac.1;
        }
        if whole && matches!(self.at(i), Some('e' | 'E')) {
            i += 1;
            if let Some(c @ ('+' | '-')) = self.at(i) {
                exp_neg = c == '-';
                i += 1;
            }
            exp = (i, self.run(i, dec));
            i = exp.1;
            whole = exp.0 != exp.1;
        }
        if !whole {
            self.put(Ev::NumIncomplete, i + 1);
        }
        let ev = Ev::Num(
            self.slice(a, i),
            neg,
            self.digits(int.0, int.1),
            self.digits(frac.0, frac.1),
            exp_neg,
            self.digits(exp.0, exp.1),
        );
        self.put(ev, i + 1);
        i
    }

    /// Up to four hexadecimal digits; returns the value and where they end.
    fn hex(&self, a: usize) -> (Option<u32>, usize) {
        let mut i = a;
        let mut v = 0;
        while i < a + 4 {
            match self.at(i).and_then(|c| c.to_digit(16)) {
                Some(d) => v = v * 16 + d,
                None => return (None, i),
            }
            i += 1;
        }
        (Some(v), i)
    }

    /// String starting at `a`; returns its end and whether it is terminated.
    fn string(&mut self, a: usize) -> (usize, bool) {
        let mut i = a + 1;
        let mut chars = String::new();
        loop {
            let Some(c) = self.at(i) else { break };
            if c == '"' {
                let raw = self.slice(a + 1, i);
                self.put(Ev::Str(raw, chars), i + 1);
                return (i + 1, true);
            }
            if c != '\\' {
                if c < ' ' {
                    self.put(Ev::StrChar(c), i + 1);
                }
                chars.push(c);
                i += 1;
                continue;
            }
            let Some(e) = self.at(i + 1) else { break };
            i += 2;
            if let Some(c) = simple(e) {
                chars.push(c);
                continue;
            }
            if e != 'u' {
                self.put(Ev::EscInvalid(e), i);
                chars.push(e);
                continue;
            }
            let (v, end) = self.hex(i);
            i = end;
            let Some(v) = v else {
                if i < self.s.len() {
                    self.put(Ev::EscIncomplete, i + 1);
                }
                continue;
            };
            if let Some(c) = char::from_u32(v) {
                chars.push(c);
                continue;
            }
            if v >= 0xdc00 {
                self.put(Ev::Unpaired, i);
                continue;
            }
            // A lead surrogate demands an escaped trail surrogate.
            let Some(b) = self.at(i) else { break };
            if b != '\\' {
                self.put(Ev::Unpaired, i + 1);
                continue;
            }
            let Some(e) = self.at(i + 1) else { break };
            i += 2;
            if e != 'u' {
                self.put(Ev::Unpaired, i);
                if simple(e).is_none() {
                    self.put(Ev::EscInvalid(e), i);
                }
                chars.push(simple(e).unwrap_or(e));
                continue;
            }
            let (w, end) = self.hex(i);
            i = end;
            match w {
                None if i < self.s.len() => self.put(Ev::EscIncomplete, i + 1),
                None => {},
                Some(w) => match char::decode_utf16([v as u16, w as u16]).next() {
                    Some(Ok(c)) => chars.push(c),
                    _ => self.put(Ev::Unpaired, i),
                },
            }
        }
        self.put(Ev::StrIncomplete, self.s.len() + 1);
        (self.s.len(), false)
    }
}

fn lex(s: &[char], flags: u32) -> Ref {
    let mut l = Lex { s, flags, evs: Vec::new() };
    let mut pending = vec![false; s.len() + 1];
    let mut i = 0;
    while let Some(c) = l.at(i) {
        let a = i;
        // End of the token, and how much of it leaves the tokenizer pending.
        let (end, open) = match c {
            ':' => (l.put(Ev::Colon, a + 1), (a + 1, a)).1,
            ',' => (l.put(Ev::Comma, a + 1), (a + 1, a)).1,
            '[' => (l.put(Ev::ArrayOpen, a + 1), (a + 1, a)).1,
            ']' => (l.put(Ev::ArrayClose, a + 1), (a + 1, a)).1,
            '{' => (l.put(Ev::ObjectOpen, a + 1), (a + 1, a)).1,
            '}' => (l.put(Ev::ObjectClose, a + 1), (a + 1, a)).1,
            '=' => {
                l.put(Ev::Stray(c), a + 1);
                l.put(Ev::Colon, a + 1);
                (a + 1, a)
            },
            c if c.is_whitespace() => {
                let end = l.run(a, char::is_whitespace);
                let mut raw = String::new();
                for k in a..end {
                    if json_space(s[k]) {
                        raw.push(s[k]);
                    } else {
                        l.put(Ev::Stray(s[k]), k + 1);
                    }
                }
                l.put(Ev::Space(raw), end + 1);
                (end, end)
            },
            '-' | '0'..='9' => {
                let end = l.number(a);
                (end, end)
            },
            '+' if flags & FLAG_ALLOW_PLUS_SIGN != 0 => {
                let end = l.number(a);
                (end, end)
            },
            '+' => (l.put(Ev::Stray(c), a + 1), (a + 1, a)).1,
            '"' => {
                let (end, closed) = l.string(a);
                (end, end - closed as usize)
            },
            '#' => {
                let end = l.run(a, |c| c != '\n');
                l.put(Ev::Comment(l.slice(a + 1, end)), end + 1);
                (end, end)
            },
            '/' if l.at(a + 1) == Some('/') => {
                let end = l.run(a, |c| c != '\n');
                l.put(Ev::Comment(l.slice(a, end)), end + 1);
                (end, end)
            },
            _ => {
                let end = l.run(a + 1, |c| !ends_word(c));
                let ev = match l.slice(a, end) {
                    v if v == "null" => Ev::Null,
                    v if v == "true" => Ev::True,
                    v if v == "false" => Ev::False,
                    v => Ev::Word(v),
                };
                l.put(ev, end + 1);
                (end, end)
            },
        };
        for k in a + 1..=open {
            pending[k] = true;
        }
        i = end;
    }
    Ref { evs: l.evs, busy: pending }
}

// ---------------------------------------------------------------------------
// C07

/// Compare the reports on a well-formed text with what it was built from.
fn conforms(g: &mut G, pieces: &[Piece]) -> Outcome {
    let text = jsonref::text(pieces);
    g.note(|| text.clone());
    let want: Vec<Ev> = pieces.iter().map(expect).collect();
    let flags = g.below(4) as u32;
    let got = parse(&mut Tokenizer::with_flags(flags), &text)?;
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "report {i} of {text:?}");
    }
    ensure_eq!(got.len(), want.len(), "number of reports for {text:?}");
    let mut again = String::new();
    for ev in &got {
        match ev {
            Ev::Colon => again.push(':'),
            Ev::Comma => again.push(','),
            Ev::ArrayOpen => again.push('['),
            Ev::ArrayClose => again.push(']'),
            Ev::ObjectOpen => again.push('{'),
            Ev::ObjectClose => again.push('}'),
            Ev::Null => again.push_str("null"),
            Ev::False => again.push_str("false"),
            Ev::True => again.push_str("true"),
            Ev::Space(v) => again.push_str(v),
            Ev::Num(v, ..) => again.push_str(v),
            Ev::Str(v, _) => {
                again.push('"');
                again.push_str(v);
                again.push('"');
            },
            _ => {},
        }
    }
    ensure_eq!(again, text, "source text of all tokens");
    Ok(())
}

fn c07_documents(g: &mut G) -> Outcome {
    let pieces = jsonref::documents(g);
    let num = pieces.iter().any(|p| matches!(&p.tok, Tok::Num { frac, exp, .. } if frac.is_some() || exp.is_some()));
    let esc = pieces.iter().any(|p| matches!(&p.tok, Tok::Str(_)) && p.text.contains('\\'));
    g.label_if(num, "fraction or exponent");
    g.label_if(esc, "escape");
    g.label_if(pieces.len() > 5, "over five tokens");
    g.nontrivial_if(pieces.len() > 2 && (num || esc));
    conforms(g, &pieces)
}

fn c07_numbers(g: &mut G) -> Outcome {
    let mut pieces = Vec::new();
    let n = 1 + g.small(4);
    for _ in 0..n {
        if !pieces.is_empty() {
            if g.bool() {
                pieces.push(jsonref::space(g));
            } else {
                pieces.push(Piece { text: ",".into(), tok: Tok::Comma });
            }
        }
        pieces.push(jsonref::number(g));
    }
    let long = pieces.iter().any(|p| p.text.len() > 20);
    g.label_if(long, "over twenty characters");
    g.nontrivial_if(pieces.iter().any(|p| matches!(&p.tok, Tok::Num { frac: Some(_), exp: Some(_), .. })));
    conforms(g, &pieces)
}

fn c07_strings(g: &mut G) -> Outcome {
    let mut pieces = Vec::new();
    let n = 1 + g.small(4);
    for _ in 0..n {
        pieces.push(jsonref::string(g));
    }
    g.label_if(pieces.len() > 1, "adjacent strings");
    g.nontrivial_if(pieces.iter().any(|p| p.text.contains("\\u")));
    conforms(g, &pieces)
}

/// Every scalar value, verbatim and escaped.
fn c07_scalars(g: &mut G) -> Outcome {
    let v = g.draw(0x110000 - 0x800) as u32;
    let c = char::from_u32(if v < 0xd800 { v } else { v + 0x800 }).unwrap_or('x');
    g.nontrivial_if(!c.is_ascii_alphanumeric());
    let mut pieces = Vec::new();
    if c >= ' ' && c != '"' && c != '\\' {
        pieces.push(Piece { text: format!("\"a{c}b\""), tok: Tok::Str(format!("a{c}b")) });
    }
    let mut u = [0u16; 2];
    let (mut lo, mut up) = (String::from("\"x"), String::from("\""));
    for w in c.encode_utf16(&mut u) {
        lo.push_str(&format!("\\u{w:04x}"));
        up.push_str(&format!("\\u{w:04X}"));
    }
    lo.push('"');
    up.push_str("0\"");
    pieces.push(Piece { text: lo, tok: Tok::Str(format!("x{c}")) });
    pieces.push(Piece { text: up, tok: Tok::Str(format!("{c}0")) });
    let want: Vec<Ev> = pieces.iter().map(expect).collect();
    let text = jsonref::text(&pieces);
    ensure_eq!(parse(&mut Tokenizer::new(), &text)?, want, "tokens of {text:?}");
    Ok(())
}

/// Tokens larger than the buffers that are kept around.
fn c07_large(g: &mut G) -> Outcome {
    let mut pieces = jsonref::large_document(g);
    g.nontrivial_if(pieces.len() > 4096 || pieces.iter().any(|p| p.text.len() > 4096));
    // Small tokens afterwards see nothing of the large ones.
    pieces.push(Piece { text: ",".into(), tok: Tok::Comma });
    pieces.push(jsonref::string(g));
    pieces.push(Piece { text: ":".into(), tok: Tok::Colon });
    pieces.push(jsonref::number(g));
    conforms(g, &pieces)
}

/// Deep nesting needs no memory of its own.
fn c07_nesting(g: &mut G) -> Outcome {
    let n = g.size(1, 3000);
    let mut pieces = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..n {
        if g.bool() {
            pieces.push(Piece { text: "[".into(), tok: Tok::ArrayOpen });
            ends.push(Piece { text: "]".into(), tok: Tok::ArrayClose });
        } else {
            pieces.push(Piece { text: "{".into(), tok: Tok::ObjectOpen });
            pieces.push(Piece { text: "\"\"".into(), tok: Tok::Str(String::new()) });
            pieces.push(Piece { text: ":".into(), tok: Tok::Colon });
            ends.push(Piece { text: "}".into(), tok: Tok::ObjectClose });
        }
    }
    pieces.push(jsonref::primitive(g));
    ends.reverse();
    pieces.extend(ends);
    g.nontrivial_if(n > 100);
    conforms(g, &pieces)
}

// ---------------------------------------------------------------------------
// Texts of any kind

/// Texts of thousands of characters.
fn large_text(g: &mut G) -> String {
    let t = match g.below(2) {
        0 => jsonref::text(&jsonref::large_document(g)),
        _ => jsonref::stretched(g),
    };
    g.label_if(t.len() > 4096, "over 4096 bytes");
    t
}

fn any_char(g: &mut G) -> char {
    match g.weighted(&[6, 2, 2]) {
        0 => *g.pick(ALPHABET),
        1 => (b' ' + g.below(95) as u8) as char,
        _ => g.unicode(),
    }
}

fn any_text(g: &mut G) -> String {
    match g.weighted(&[4, 2, 2]) {
        0 => jsonref::near(g),
        1 => jsonref::text(&jsonref::documents(g)),
        _ => {
            let n = g.small(24);
            (0..n).map(|_| any_char(g)).collect()
        },
    }
}

// ---------------------------------------------------------------------------
// C08

fn c08_splits(g: &mut G) -> Outcome {
    c08_splits_of(g, any_text)
}

fn c08_splits_large(g: &mut G) -> Outcome {
    c08_splits_of(g, large_text)
}

fn c08_splits_of(g: &mut G, source: fn(&mut G) -> String) -> Outcome {
    let text = source(g);
    let flags = g.below(4) as u32;
    let chars: Vec<char> = text.chars().collect();
    g.note(|| format!("{text:?} flags {flags}"));
    let whole = parse(&mut Tokenizer::with_flags(flags), &text)?;
    let r = lex(&chars, flags);

    // Random pieces, some pushed by character, the end in one of three ways.
    let mut tk = Tokenizer::with_flags(flags);
    let mut log = Log { own: true, ..Log::default() };
    let mut i = 0;
    let mut cuts = 0;
    let mut inside = 0;
    let mut ended = false;
    ensure!(!busy(tk.status()), "a new tokenizer is busy");
    while i < chars.len() {
        let n = match g.weighted(&[6, 2, 1]) {
            0 => g.size(1, 4).min(chars.len() - i),
            1 => g.size(0, chars.len() - i),
            _ => 0,
        };
        let part: String = chars[i..i + n].iter().collect();
        let s = if n == 1 && g.bool() {
            tk.push(&mut log, Some(chars[i]))
        } else if i + n == chars.len() && g.chance(1, 3) {
            ended = true;
            tk.parse_str(&mut log, &part)
        } else {
            tk.push_str(&mut log, &part)
        };
        i += n;
        cuts += 1;
        let Flow::Continue(s) = s else {
            return Err(format!("stopped on its own in {text:?}"));
        };
        ensure_eq!(busy(s), busy(tk.status()), "returned status vs queried status");
        if !ended {
            ensure_eq!(busy(s), r.busy[i], "status after {i} characters of {text:?}");
            inside += (i < chars.len() && r.busy[i]) as usize;
        }
    }
    if !ended {
        let s = if g.bool() { tk.push(&mut log, None) } else { tk.parse_str(&mut log, "") };
        let Flow::Continue(s) = s else {
            return Err(format!("stopped on its own at the end of {text:?}"));
        };
        ensure!(!busy(s), "busy after the end of {text:?}");
    }
    ensure!(!busy(tk.status()), "busy after the end of {text:?}");
    if let Some(e) = log.own_bad {
        return Err(e);
    }
    g.label_if(inside > 0, "cut inside a token");
    g.label_if(whole.iter().any(Ev::bad), "malformed");
    g.nontrivial_if(inside > 0 && cuts > 1);
    ensure_eq!(log.evs, whole, "reports for {text:?} in {cuts} pieces vs in one");
    Ok(())
}

fn c08_characters(g: &mut G) -> Outcome {
    c08_characters_of(g, any_text)
}

fn c08_characters_large(g: &mut G) -> Outcome {
    c08_characters_of(g, large_text)
}

fn c08_characters_of(g: &mut G, source: fn(&mut G) -> String) -> Outcome {
    let text = source(g);
    let flags = g.below(4) as u32;
    let chars: Vec<char> = text.chars().collect();
    g.note(|| format!("{text:?} flags {flags}"));
    let whole = parse(&mut Tokenizer::with_flags(flags), &text)?;
    let r = lex(&chars, flags);
    let mut tk = Tokenizer::with_flags(flags);
    let mut log = Log { own: true, ..Log::default() };
    let mut idle = 0;
    let mut n = 0;
    for (i, c) in chars.iter().enumerate() {
        let Flow::Continue(s) = tk.push(&mut log, Some(*c)) else {
            return Err(format!("stopped on its own in {text:?}"));
        };
        ensure_eq!(busy(s), r.busy[i + 1], "status after {} characters of {text:?}", i + 1);
        ensure_eq!(busy(tk.status()), busy(s), "status query after {} characters of {text:?}", i + 1);
        if !busy(s) {
            // Everything is reported when nothing is pending.
            idle += 1;
            while n < r.evs.len() && r.evs[n].1 <= i + 1 {
                n += 1;
            }
            ensure_eq!(log.evs.len(), n, "reports made for {} characters of {text:?}", i + 1);
        }
    }
    let Flow::Continue(s) = tk.push(&mut log, None) else {
        return Err(format!("stopped on its own at the end of {text:?}"));
    };
    ensure!(!busy(s) && !busy(tk.status()), "busy after the end of {text:?}");
    if let Some(e) = log.own_bad {
        return Err(e);
    }
    g.label_if(whole.iter().any(Ev::bad), "malformed");
    g.nontrivial_if(idle > 0 && chars.len() > 2);
    ensure_eq!(log.evs, whole, "reports for {text:?} by character vs in one");
    Ok(())
}

// ---------------------------------------------------------------------------
// C09

fn versus(g: &mut G, text: &str, flags: u32) -> Outcome {
    g.note(|| format!("{text:?} flags {flags}"));
    let chars: Vec<char> = text.chars().collect();
    let want = lex(&chars, flags).all();
    let got = parse(&mut Tokenizer::with_flags(flags), text)?;
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "report {i} of {text:?} with options {flags}");
    }
    ensure_eq!(got.len(), want.len(), "number of reports for {text:?} with options {flags}: {got:?} vs {want:?}");
    Ok(())
}

fn c09_texts(g: &mut G) -> Outcome {
    c09_texts_of(g, any_text)
}

fn c09_texts_large(g: &mut G) -> Outcome {
    c09_texts_of(g, large_text)
}

fn c09_texts_of(g: &mut G, source: fn(&mut G) -> String) -> Outcome {
    let text = source(g);
    let flags = g.below(4) as u32;
    let r = lex(&text.chars().collect::<Vec<_>>(), flags).all();
    let bad = r.iter().position(Ev::bad);
    for ev in &r {
        match ev {
            Ev::Stray(_) => g.label("stray character"),
            Ev::Word(_) => g.label("unknown word"),
            Ev::NumIncomplete => g.label("incomplete number"),
            Ev::StrIncomplete => g.label("incomplete string"),
            Ev::StrChar(_) => g.label("control character"),
            Ev::EscInvalid(_) => g.label("invalid escape"),
            Ev::EscIncomplete => g.label("incomplete escape"),
            Ev::Unpaired => g.label("unpaired surrogate"),
            Ev::Comment(_) => g.label("comment"),
            _ => {},
        }
    }
    g.nontrivial_if(bad.is_some_and(|i| i + 1 < r.len()));
    versus(g, &text, flags)
}

const ALPHABET: &[char] = &[
    '0', '1', '-', '+', '.', 'e', 'E', '"', '\\', 'u', 'n', 'd', '8', ' ', '\n', '\u{a0}', '{', ']', ':', ',', '=', '/', '#', 'x', '*',
    '\u{1f}', '\'', 'é', '\r', '\t', '_', '[', '}', 'f', '\u{b}',
];

/// All short texts over the significant characters.
fn c09_short(g: &mut G) -> Outcome {
    let n = ALPHABET.len() as u64;
    let mut v = g.draw(n * n * n * n * 4);
    let flags = (v % 4) as u32;
    v /= 4;
    let mut text = String::new();
    for _ in 0..4 {
        text.push(ALPHABET[(v % n) as usize]);
        v /= n;
    }
    g.nontrivial_if(true);
    versus(g, &text, flags)
}

const INNER: &[&str] = &[
    "\\", "u", "n", "d834", "dd1e", "0041", "00", "d8", "\"", "x", "\u{1}", "/", "g", "dbff", "dfff", "\\u", "\\ud800", "\\udc00", "\\b",
];

/// All short sequences of pieces of escapes within a string.
fn c09_escapes(g: &mut G) -> Outcome {
    let n = INNER.len() as u64;
    let mut v = g.draw(n * n * n * n);
    let mut text = String::from("\"");
    for _ in 0..4 {
        text += INNER[(v % n) as usize];
        v /= n;
    }
    text += "\" 1";
    g.nontrivial_if(text.contains('\\'));
    versus(g, &text, 0)
}

/// Every scalar value in the contexts that treat characters differently.
fn c09_scalars(g: &mut G) -> Outcome {
    let v = g.draw(0x110000 - 0x800) as u32;
    let c = char::from_u32(if v < 0xd800 { v } else { v + 0x800 }).unwrap_or('x');
    g.nontrivial_if(true);
    for text in [
        format!("{c}"),
        format!("[{c}1{c}"),
        format!("{c}{c} true{c}null"),
        format!("-{c}0{c}1.{c}1.5{c}1e{c}1e-{c}1e+5{c}"),
        format!("\"{c}\\{c}\" \"\\u{c}\" \"\\u004{c}\" \"\\ud834{c}\" \"\\ud834\\{c}\" \"\\ud834\\udd1{c}\""),
        format!("#{c}\n//{c}\n/{c}\n"),
    ] {
        versus(g, &text, v & 3)?;
    }
    Ok(())
}

/// Options suppress their own diagnostic and nothing else.
fn c09_options(g: &mut G) -> Outcome {
    // Numbers with leading zeroes or plus signs among ordinary tokens.
    let mut text = String::new();
    // Every token with whether it has leading zeroes and a plus sign.
    let mut want: Vec<(Ev, Option<char>, bool)> = Vec::new();
    let n = 1 + g.small(6);
    for i in 0..n {
        if i > 0 {
            text.push(',');
            want.push((Ev::Comma, None, false));
        }
        if g.chance(1, 4) {
            let p = jsonref::primitive(g);
            text += &p.text;
            want.push((expect(&p), None, false));
            continue;
        }
        let p = jsonref::number(g);
        let zeroes = g.small(3);
        let plus = g.chance(1, 2) && !p.text.starts_with('-');
        let (sign, rest) = match p.text.strip_prefix('-') {
            Some(r) => ("-", r),
            None => ("", p.text.as_str()),
        };
        let body = format!("{sign}{}{rest}", "0".repeat(zeroes));
        let digit = (zeroes > 0).then(|| format!("{}{rest}", "0".repeat(zeroes)).chars().nth(1).unwrap_or('0'));
        let Ev::Num(_, m, int, frac, em, exp) = expect(&p) else { continue };
        let mut all = vec![0u8; zeroes];
        all.extend(int);
        if plus {
            text.push('+');
        }
        text += &body;
        want.push((Ev::Num(body, m, all, frac, em, exp), digit, plus));
    }
    g.note(|| text.clone());
    g.nontrivial_if(want.iter().any(|v| v.1.is_some()) && want.iter().any(|v| v.2));
    for flags in 0..4u32 {
        let mut evs = Vec::new();
        for (ev, digit, plus) in &want {
            let mut ev = ev.clone();
            if *plus {
                if flags & FLAG_ALLOW_PLUS_SIGN == 0 {
                    evs.push(Ev::Stray('+'));
                } else if let Ev::Num(raw, ..) = &mut ev {
                    raw.insert(0, '+');
                }
            }
            if let (Some(d), true) = (digit, flags & FLAG_ALLOW_LEADING_ZERO == 0) {
                evs.push(Ev::Stray(*d));
            }
            evs.push(ev);
        }
        ensure_eq!(parse(&mut Tokenizer::with_flags(flags), &text)?, evs, "reports for {text:?} with options {flags}");
    }
    Ok(())
}

/// Broken pieces on a line of their own never affect later lines.
fn c09_resume(g: &mut G) -> Outcome {
    let mut text = String::new();
    let mut tail = Vec::new();
    // No string fragment, as an open string extends over lines.
    let n = 1 + g.small(5);
    for _ in 0..n {
        let f = *g.pick(jsonref::FRAGMENTS);
        if !f.contains('"') {
            text += f;
        }
    }
    let bad = lex(&text.chars().collect::<Vec<_>>(), 0).evs.iter().any(|v| v.0.bad());
    let open = text.chars().next_back().is_some_and(char::is_whitespace);
    text.push('\n');
    let pieces = jsonref::documents(g);
    let mut rest = &pieces[..];
    if let [first, others @ ..] = rest {
        if first.tok == Tok::Space {
            text += &first.text;
            rest = others;
        }
    }
    tail.extend(rest.iter().map(expect));
    text += &jsonref::text(rest);
    g.note(|| text.clone());
    g.label_if(open, "whitespace joined");
    g.nontrivial_if(bad && tail.len() > 1);
    let got = parse(&mut Tokenizer::new(), &text)?;
    ensure!(got.len() > tail.len(), "too few reports for {text:?}");
    ensure_eq!(&got[got.len() - tail.len()..], &tail[..], "tokens after a broken line in {text:?}");
    ensure!(matches!(got[got.len() - tail.len() - 1], Ev::Space(_)), "whitespace after a broken line in {text:?}");
    if bad {
        ensure!(got[..got.len() - tail.len()].iter().any(Ev::bad), "no diagnostic for {text:?}");
    }
    Ok(())
}

/// A text is accepted without diagnostics just if all its tokens are valid.
fn c09_accept(g: &mut G) -> Outcome {
    let text = any_text(g);
    let got = parse(&mut Tokenizer::new(), &text)?;
    let mut again = String::new();
    let bad = got.iter().any(Ev::bad);
    g.label_if(bad, "malformed");
    g.nontrivial_if(!text.is_empty());
    if bad {
        return Ok(());
    }
    for ev in &got {
        match ev {
            Ev::Colon => again.push(':'),
            Ev::Comma => again.push(','),
            Ev::ArrayOpen => again.push('['),
            Ev::ArrayClose => again.push(']'),
            Ev::ObjectOpen => again.push('{'),
            Ev::ObjectClose => again.push('}'),
            Ev::Null => again.push_str("null"),
            Ev::False => again.push_str("false"),
            Ev::True => again.push_str("true"),
            Ev::Space(v) => {
                ensure!(!v.is_empty() && v.chars().all(json_space), "whitespace {v:?} in {text:?}");
                again.push_str(v);
            },
            Ev::Num(v, ..) => {
                ensure!(serde_json::from_str::<&serde_json::value::RawValue>(v).is_ok(), "number {v:?} in {text:?}");
                again.push_str(v);
            },
            Ev::Str(v, c) => {
                let q = format!("\"{v}\"");
                ensure_eq!(serde_json::from_str::<String>(&q).ok().as_ref(), Some(c), "string {q:?} in {text:?}");
                again.push_str(&q);
            },
            _ => {},
        }
    }
    ensure_eq!(again, text, "source text of all tokens");
    Ok(())
}

// ---------------------------------------------------------------------------
// C10

fn c10_restart(g: &mut G) -> Outcome {
    c10_restart_of(g, any_text)
}

fn c10_restart_large(g: &mut G) -> Outcome {
    c10_restart_of(g, large_text)
}

fn c10_restart_of(g: &mut G, source: fn(&mut G) -> String) -> Outcome {
    let flags = g.below(4) as u32;
    let mut tk = Tokenizer::with_flags(flags);
    let rounds = 1 + g.small(3);
    let mut inside = false;
    for _ in 0..rounds {
        let first = source(g);
        let chars: Vec<char> = first.chars().collect();
        let r = lex(&chars, flags);
        let how = g.below(4);
        match how {
            // Reset, at any position.
            0 => {
                let n = g.size(0, chars.len());
                let mut log = Log::default();
                for c in &chars[..n] {
                    let _ = tk.push(&mut log, Some(*c));
                }
                inside |= r.busy[n];
                g.label_if(r.busy[n], "reset inside a token");
                let before = log.evs.len();
                tk.reset();
                ensure_eq!(log.evs.len(), before, "reports made by a reset");
            },
            // End of input, at any position.
            1 => {
                let n = g.size(0, chars.len());
                let mut log = Log::default();
                let part: String = chars[..n].iter().collect();
                inside |= r.busy[n];
                g.label_if(r.busy[n], "end inside a token");
                let s = if g.bool() {
                    tk.parse_str(&mut log, &part)
                } else {
                    let _ = tk.push_str(&mut log, &part);
                    tk.push(&mut log, None)
                };
                ensure!(matches!(s, Flow::Continue(Status::Done)), "end of {part:?} yields {s:?}");
                let want = lex(&chars[..n], flags).all();
                ensure_eq!(log.evs, want, "reports for {part:?}");
            },
            // Stop, at any report.
            _ => {
                let n = r.evs.len();
                if n == 0 {
                    continue;
                }
                let at = g.size(0, n - 1);
                let with = g.draw(1 << 20);
                let mut log = Log { stop: Some((at, with)), ..Log::default() };
                g.label("stop");
                inside = true;
                let s = match g.below(3) {
                    0 => tk.parse_str(&mut log, &first),
                    1 => {
                        let mut s = tk.push_str(&mut log, &first);
                        if matches!(s, Flow::Continue(_)) {
                            s = tk.push(&mut log, None);
                        }
                        s
                    },
                    _ => {
                        let mut s = Flow::Continue(Status::Done);
                        for (i, c) in chars.iter().map(|c| Some(*c)).chain([None]).enumerate() {
                            s = tk.push(&mut log, c);
                            if s.is_break() {
                                ensure_eq!(i + 1, r.evs[at].1, "characters of {first:?} before the stop at report {at}");
                                break;
                            }
                        }
                        s
                    },
                };
                match s {
                    Flow::Break(v) => ensure_eq!(v, with, "value returned by a stop in {first:?}"),
                    Flow::Continue(_) => return Err(format!("a stop at report {at} of {first:?} is ignored")),
                }
                ensure_eq!(log.evs.len(), at + 1, "reports made until the stop at {at} in {first:?}");
                let want = r.all();
                ensure_eq!(&log.evs[..], &want[..at + 1], "reports before the stop in {first:?}");
            },
        }
        ensure!(!busy(tk.status()), "busy after a restart ({how}) in {first:?}");
        let second = source(g);
        g.note(|| format!("{first:?} restart {how} {second:?} flags {flags}"));
        let fresh = parse(&mut Tokenizer::with_flags(flags), &second)?;
        let cs: Vec<char> = second.chars().collect();
        let sr = lex(&cs, flags);
        let mut log = Log::default();
        for (i, c) in cs.iter().enumerate() {
            let s = tk.push(&mut log, Some(*c));
            ensure!(matches!(&s, Flow::Continue(s) if busy(*s) == sr.busy[i + 1]), "status {s:?} after {i} characters of {second:?}");
        }
        let _ = tk.push(&mut log, None);
        ensure_eq!(log.evs, fresh, "reports for {second:?} after a restart ({how}) in {first:?}");
    }
    g.nontrivial_if(inside);
    Ok(())
}

fn c10_clone(g: &mut G) -> Outcome {
    c10_clone_of(g, any_text)
}

fn c10_clone_large(g: &mut G) -> Outcome {
    c10_clone_of(g, large_text)
}

fn c10_clone_of(g: &mut G, source: fn(&mut G) -> String) -> Outcome {
    let text = source(g);
    let flags = g.below(4) as u32;
    let chars: Vec<char> = text.chars().collect();
    let n = g.size(0, chars.len());
    let r = lex(&chars, flags);
    g.note(|| format!("{text:?} cloned at {n} flags {flags}"));
    g.nontrivial_if(r.busy[n]);
    let head: String = chars[..n].iter().collect();
    let tail: String = chars[n..].iter().collect();
    let mut a = Tokenizer::with_flags(flags);
    let mut log = Log::default();
    let _ = a.push_str(&mut log, &head);
    let mut b = a.clone();
    ensure_eq!(busy(a.status()), busy(b.status()), "status of a clone");
    let order = g.bool();
    let other = source(g);
    let (mut la, mut lb) = (Log::default(), Log::default());
    la.evs = log.evs.clone();
    lb.evs = log.evs;
    if order {
        // The clone sees the same rest after the original finished.
        let _ = a.parse_str(&mut la, &tail);
        let _ = b.parse_str(&mut lb, &tail);
    } else {
        // The original sees something else in between.
        let mut x = Log::default();
        let _ = b.parse_str(&mut lb, &tail);
        let _ = b.parse_str(&mut x, &other);
        let _ = a.parse_str(&mut la, &tail);
    }
    let want = r.all();
    ensure_eq!(la.evs, want, "reports of the original for {text:?}");
    ensure_eq!(lb.evs, want, "reports of the clone for {text:?}");
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C07",
            facets: vec![
                Facet::new("documents", 300_000, 20_000_000, c07_documents, "over two tokens with an escape, fraction or exponent"),
                Facet::new("numbers", 300_000, 20_000_000, c07_numbers, "has both fraction and exponent"),
                Facet::new("strings", 300_000, 20_000_000, c07_strings, "has a unicode escape"),
                Facet::all("scalars", 0x110000 - 0x800, c07_scalars, "not an ASCII letter or digit"),
                Facet::new("large", 2_000, 40_000, c07_large, "over 4096 tokens or characters"),
                Facet::new("nesting", 2_000, 40_000, c07_nesting, "over 100 levels"),
            ],
            assumptions: vec!["the reports carry the complete source text, as documented"],
        },
        Property {
            id: "C08",
            facets: vec![
                Facet::new("splits", 400_000, 30_000_000, c08_splits, "some cut is inside a token"),
                Facet::new("large splits", 2_000, 40_000, c08_splits_large, "some cut is inside a token"),
                Facet::new("large characters", 2_000, 40_000, c08_characters_large, "idle within a text of over two characters"),
                Facet::new("characters", 400_000, 30_000_000, c08_characters, "idle within a text of over two characters"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C09",
            facets: vec![
                Facet::new("texts", 500_000, 40_000_000, c09_texts, "something is reported after a diagnostic"),
                Facet::new("large", 5_000, 80_000, c09_texts_large, "something is reported after a diagnostic"),
                Facet::all("short", (ALPHABET.len() as u64).pow(4) * 4, c09_short, "all"),
                Facet::all("escapes", (INNER.len() as u64).pow(4), c09_escapes, "has a backslash"),
                Facet::all("scalars", 0x110000 - 0x800, c09_scalars, "all"),
                Facet::new("options", 200_000, 10_000_000, c09_options, "has both leading zeroes and a plus sign"),
                Facet::new("resume", 200_000, 10_000_000, c09_resume, "broken line followed by tokens"),
                Facet::new("accept", 200_000, 10_000_000, c09_accept, "text is not empty"),
            ],
            assumptions: vec!["words extend to the next character that can start another token, as the source documents"],
        },
        Property {
            id: "C10",
            facets: vec![
                Facet::new("restart", 300_000, 20_000_000, c10_restart, "restart inside a token or by a stop"),
                Facet::new("large restart", 2_000, 40_000, c10_restart_large, "restart inside a token or by a stop"),
                Facet::new("large clone", 2_000, 40_000, c10_clone_large, "cloned inside a token"),
                Facet::new("clone", 300_000, 20_000_000, c10_clone, "cloned inside a token"),
            ],
            assumptions: vec![],
        },
    ]);
}
