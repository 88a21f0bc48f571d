//! C35 acceptance, C36 rejection reasons, C37 walking, C38 comparison and
//! text, C39 element table.

use core::mem::MaybeUninit;
use harness::sigref::{self, describe, gen_any, gen_valid, valid, Info};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use std::sync::Arc;
use tmp::fmt::dbus::signature::Error;
use tmp::fmt::dbus::{element, Cursor, Element, Sig};

fn show(s: &[u8]) -> String {
    s.escape_ascii().to_string()
}

// ---------------------------------------------------------------------------
// Entry points

/// Parse into caller provided memory of the given size. Guard words around
/// the memory reveal an overrun.
fn parse_into(s: &[u8], size: usize) -> Result<Result<Vec<u64>, Error>, String> {
    const GUARD: u64 = 0xa5a5_5a5a_1234_8765;
    let mut mem: Vec<MaybeUninit<u64>> = vec![MaybeUninit::new(GUARD); size + 4];
    let r = Sig::parse(&mut mem[2..2 + size], s);
    let words: Vec<u64> = mem.iter().map(|v| unsafe { v.assume_init() }).collect();
    let (a, b) = (&words[..2], &words[2 + size..]);
    if a.iter().chain(b).any(|v| *v != GUARD) {
        return Err(format!("memory next to the buffer of {} words was written", size));
    }
    Ok(r.map(|_| words[2..2 + size].to_vec()))
}

macro_rules! fixed_sizes {
    ($($n:literal)*) => {
        /// Parse into a fixed-size signature, if there is one for the size.
        fn fixed(s: &[u8], size: usize) -> Option<Result<String, Error>> {
            match size {
                $($n => Some(Sig::<[u64; $n]>::try_make(s).map(|v| {
                    let r: &Sig = &v;
                    // unsizing only works on the node array, so view it
                    text_of(r)
                })),)*
                _ => None,
            }
        }

        fn fixed_make(s: &[u8], size: usize) -> Option<String> {
            match size {
                $($n => Some({
                    let v = Sig::<[u64; $n]>::make(s);
                    let r: &Sig = &v;
                    text_of(r)
                }),)*
                _ => None,
            }
        }
    };
}

fixed_sizes!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    192 193 195 197 198 200 203 204 210 216 222 240);

fn text_of(s: &Sig) -> String {
    s.cursor().map(|v| v.char()).collect()
}

fn is_long(s: &[u8]) -> bool {
    Sig::size_for_length(s.len()) > s.len()
}

fn check_accept(g: &mut G, s: &[u8]) -> Outcome {
    let ok = valid(s);
    g.label(if ok { "valid" } else { "invalid" });
    g.label_if(s.len() > 31, "longer than 31");
    g.nontrivial_if(s.len() > 1);
    g.note(|| format!("{:?} {}", show(s), if ok { "valid" } else { "invalid" }));

    let a = Sig::new(s);
    ensure_eq!(a.is_ok(), ok, "acceptance of {:?}", show(s));
    if let Ok(ref v) = a {
        ensure_eq!(text_of(v).as_bytes(), s, "text of an accepted signature");
        ensure_eq!(v.len(), s.len(), "length of {:?}", show(s));
    }
    let err = a.as_ref().err().copied();
    let b = Sig::arc(s);
    ensure_eq!(b.as_ref().err().copied(), err, "shared parse of {:?}", show(s));
    ensure_eq!(b.is_ok(), ok, "shared parse of {:?}", show(s));
    if let Ok(ref v) = b {
        ensure_eq!(text_of(v).as_bytes(), s, "text of a shared signature");
    }

    let size = Sig::size_for_length(s.len());
    let c = parse_into(s, size)?;
    ensure_eq!(c.as_ref().err().copied(), err, "parse of {:?} into a buffer", show(s));
    ensure_eq!(c.is_ok(), ok, "parse of {:?} into a buffer", show(s));
    if let Some(d) = fixed(s, size) {
        ensure_eq!(d.as_ref().err().copied(), err, "fixed-size parse of {:?}", show(s));
        ensure_eq!(d.is_ok(), ok, "fixed-size parse of {:?}", show(s));
        if let Ok(t) = d {
            ensure_eq!(t.as_bytes(), s, "text of a fixed-size signature");
            ensure_eq!(fixed_make(s, size).unwrap().as_bytes(), s, "text of a made signature");
        }
    }

    // Trailing words that hold no complete node are permitted.
    if is_long(s) {
        let pad = g.size(1, 5);
        g.label("padded buffer");
        let c = parse_into(s, size + pad)?;
        ensure_eq!(c.as_ref().err().copied(), err, "parse of {:?} with {} words of padding", show(s), pad);
        if let Some(d) = fixed(s, size + pad) {
            g.label("padded fixed-size");
            ensure_eq!(d.as_ref().err().copied(), err, "fixed-size parse of {:?} with padding", show(s));
            if let Ok(t) = d {
                ensure_eq!(t.as_bytes(), s, "text of a padded fixed-size signature");
            }
        }
    }

    // Anything smaller is refused.
    if size > 0 {
        let less = if g.chance(1, 3) { g.size(0, size - 1) } else { size - 1 - g.below(size.min(7)) };
        let c = parse_into(s, less)?;
        match c {
            Ok(_) => return Err(format!("{:?} accepted into {} of {} words", show(s), less, size)),
            Err(e) => {
                if ok {
                    g.label("too small for a valid one");
                    ensure_eq!(e, Error::DataExceeded, "{:?} into {} of {} words", show(s), less, size);
                } else if e != Error::DataExceeded {
                    truth(s, &e)?;
                }
            },
        }
        if let Some(d) = fixed(s, less) {
            match d {
                Ok(_) => return Err(format!("{:?} accepted into fixed {} of {} words", show(s), less, size)),
                Err(e) => ensure!(!ok || e == Error::DataExceeded, "{:?} into fixed {} words: {:?}", show(s), less, e),
            }
        }
    }
    Ok(())
}

fn accept(g: &mut G) -> Outcome {
    let s = gen_any(g);
    check_accept(g, &s)
}

fn accept_valid(g: &mut G) -> Outcome {
    let s = gen_valid(g);
    if !valid(&s) {
        return Err(format!("harness: generated {:?}", show(&s)));
    }
    check_accept(g, &s)
}

fn accept_huge(g: &mut G) -> Outcome {
    let mut s = sigref::gen_huge(g);
    if !valid(&s) {
        return Err(format!("harness: generated {:?}", show(&s)));
    }
    if g.bool() {
        sigref::mutate(g, &mut s);
    }
    g.label_if(s.len() > 65536, "longer than 65536");
    check_accept(g, &s)
}

const SMALL: &[u8] = b"yva(){}";

/// All strings of up to 7 characters over a reduced alphabet.
fn count_small() -> u64 {
    (0..=7u32).map(|n| (SMALL.len() as u64).pow(n)).sum()
}

fn nth_small(mut i: u64) -> Vec<u8> {
    let k = SMALL.len() as u64;
    let mut n = 0;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    (0..n)
        .map(|_| {
            let c = SMALL[(i % k) as usize];
            i /= k;
            c
        })
        .collect()
}

fn accept_small(g: &mut G) -> Outcome {
    let s = nth_small(g.draw(count_small()));
    check_accept(g, &s)
}

/// All strings of one and two bytes.
fn accept_pairs(g: &mut G) -> Outcome {
    let i = g.below(256 + 65536);
    let s = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
    check_accept(g, &s)
}

/// All strings of three known elements.
fn accept_triples(g: &mut G) -> Outcome {
    let i = g.below(8000);
    let e = sigref::ELEMENTS;
    let s = vec![e[i / 400], e[i / 20 % 20], e[i % 20]];
    check_accept(g, &s)
}

// ---------------------------------------------------------------------------
// Reasons

/// Containers open before a character, as far as the text is sane.
fn open_at(s: &[u8], upto: usize) -> Option<Vec<usize>> {
    open_until(s, upto, |_, _| false)
}

/// Does the dictionary end with a bracket of its own?
fn closed(s: &[u8], position: usize) -> bool {
    let mut found = false;
    open_until(s, s.len(), |i, open| {
        // Open containers are in ascending order.
        let gone = i > position && open.binary_search(&position).is_err();
        found |= gone && s[i] == b'}';
        gone
    });
    found
}

fn open_until(s: &[u8], upto: usize, mut stop: impl FnMut(usize, &[usize]) -> bool) -> Option<Vec<usize>> {
    let mut stack: Vec<usize> = Vec::new();
    for i in 0..upto {
        let done = match s[i] {
            b'a' | b'm' | b'(' | b'{' => {
                stack.push(i);
                false
            },
            b')' | b'}' => {
                let o = stack.pop()?;
                if (s[o], s[i]) != (b'(', b')') && (s[o], s[i]) != (b'{', b'}') {
                    return None;
                }
                true
            },
            b'v' => true,
            c if sigref::is_basic(c) => true,
            _ => return None,
        };
        if done {
            while let Some(o) = stack.last() {
                if !matches!(s[*o], b'a' | b'm') {
                    break;
                }
                stack.pop();
            }
        }
        if stop(i, &stack) {
            break;
        }
    }
    Some(stack)
}

/// Is the given reason a true statement about the text?
fn truth(s: &[u8], e: &Error) -> Outcome {
    let t = show(s);
    match *e {
        Error::DataExceeded => Err(format!("{:?} refused for lack of space", t)),
        Error::SignatureEmpty => {
            ensure!(s.is_empty(), "{:?} reported as empty", t);
            Ok(())
        },
        Error::SignatureSequence { break_idx } => {
            ensure_eq!(sigref::complete(s, 0), Some(break_idx), "end of the first type of {:?}", t);
            ensure!(break_idx < s.len(), "{:?} reported as sequence at its end", t);
            Ok(())
        },
        Error::SignatureIncomplete { container_idx } => {
            let Some(open) = open_at(s, s.len()) else {
                return Err(format!("{:?} reported as incomplete, but is malformed", t));
            };
            ensure!(open.contains(&container_idx), "{:?}: container {} is not open at the end (open: {:?})", t, container_idx, open);
            Ok(())
        },
        Error::ElementInvalid { idx, code } => {
            ensure_eq!(s.get(idx).copied(), Some(code), "character {} of {:?}", idx, t);
            ensure!(!code.is_ascii(), "{:?}: character {} is ASCII", t, idx);
            Ok(())
        },
        Error::ElementUnknown { position, code } => {
            ensure_eq!(s.get(position).copied(), Some(code), "character {} of {:?}", position, t);
            ensure!(code.is_ascii() && !sigref::ELEMENTS.contains(&code), "{:?}: character {} is known", t, position);
            Ok(())
        },
        Error::ElementUnpaired { idx } => {
            ensure!(matches!(s.get(idx), Some(b')' | b'}')), "{:?}: no closing bracket at {}", t, idx);
            let Some(open) = open_at(s, idx) else {
                return Err(format!("{:?}: {} follows an earlier error", t, idx));
            };
            // Nothing open, or something that is not bracketed.
            ensure!(open.last().map(|o| matches!(s[*o], b'a' | b'm')).unwrap_or(true), "{:?}: bracket {} does have an opener at {:?}", t, idx, open.last());
            Ok(())
        },
        Error::ElementMispaired { idx, pair_idx, expected } => {
            let want = match s.get(pair_idx) {
                Some(b')') => Element::StructOpen,
                Some(b'}') => Element::DictOpen,
                _ => return Err(format!("{:?}: no closing bracket at {}", t, pair_idx)),
            };
            let Some(open) = open_at(s, pair_idx) else {
                return Err(format!("{:?}: {} follows an earlier error", t, pair_idx));
            };
            ensure_eq!(Some(idx), open.last().copied(), "{:?}: container closed by bracket {}", t, pair_idx);
            ensure!(s[idx] != want.code(), "{:?}: {} and {} do pair", t, idx, pair_idx);
            ensure_eq!(expected, Some(want), "{:?}: opener expected for bracket {}", t, pair_idx);
            Ok(())
        },
        Error::DictInvalid { position } => {
            ensure_eq!(s.get(position).copied(), Some(b'{'), "{:?}: dictionary at {}", t, position);
            // The dictionary closes, but is not a valid one.
            ensure!(closed(s, position), "{:?}: dictionary at {} is not closed", t, position);
            ensure!(sigref::complete(s, position).is_none(), "{:?}: dictionary at {} is fine", t, position);
            Ok(())
        },
    }
}

fn kind(e: &Error) -> &'static str {
    match e {
        Error::DataExceeded => "data exceeded",
        Error::SignatureEmpty => "empty",
        Error::SignatureSequence { .. } => "sequence",
        Error::SignatureIncomplete { .. } => "incomplete",
        Error::ElementInvalid { .. } => "invalid code",
        Error::ElementUnknown { .. } => "unknown code",
        Error::ElementUnpaired { .. } => "unpaired",
        Error::ElementMispaired { .. } => "mispaired",
        Error::DictInvalid { .. } => "dictionary",
    }
}

fn check_reason(g: &mut G, s: &[u8]) -> Outcome {
    let r = Sig::new(s);
    g.note(|| format!("{:?} -> {:?}", show(s), r.as_ref().err()));
    g.nontrivial_if(!valid(s) && s.len() > 1);
    match r {
        Ok(_) => ensure!(valid(s), "{:?} not rejected", show(s)),
        Err(e) => {
            g.label(kind(&e));
            g.label_if(s.len() > 31, "longer than 31");
            ensure!(!valid(s), "{:?} rejected: {:?}", show(s), e);
            truth(s, &e)?;
        },
    }
    Ok(())
}

fn reason(g: &mut G) -> Outcome {
    let mut s = gen_any(g);
    if valid(&s) {
        sigref::mutate(g, &mut s);
    }
    check_reason(g, &s)
}

fn reason_huge(g: &mut G) -> Outcome {
    let mut s = sigref::gen_huge(g);
    for _ in 0..g.size(1, 2) {
        sigref::mutate(g, &mut s);
    }
    g.label_if(s.len() > 65536, "longer than 65536");
    check_reason(g, &s)
}

fn reason_small(g: &mut G) -> Outcome {
    let s = nth_small(g.draw(count_small()));
    check_reason(g, &s)
}

fn reason_pairs(g: &mut G) -> Outcome {
    let i = g.below(65536);
    check_reason(g, &[(i >> 8) as u8, i as u8])
}

// ---------------------------------------------------------------------------
// Walking

/// The walk as described by the text.
struct Model {
    text: Vec<u8>,
    info: Vec<Info>,
}

impl Model {
    fn new(s: &[u8]) -> Self {
        Model { text: s.to_vec(), info: describe(s) }
    }

    fn len(&self) -> usize {
        self.text.len()
    }

    fn element(&self, i: usize) -> Option<Element> {
        self.text.get(i).map(|c| Element::from_code(*c).unwrap())
    }

    fn closing(&self, i: usize) -> bool {
        matches!(self.text[i], b')' | b'}')
    }

    fn sub(&self, i: usize) -> Option<&[u8]> {
        if i < self.len() && !self.closing(i) {
            Some(&self.text[i..i + self.info[i].len])
        } else {
            None
        }
    }

    fn down(&self, i: usize) -> Option<usize> {
        (i < self.len() && matches!(self.text[i], b'a' | b'm' | b'(' | b'{')).then(|| i + 1)
    }

    fn up(&self, i: usize) -> Option<usize> {
        self.info.get(i).and_then(|v| v.up)
    }

    fn step(&self, i: usize) -> Option<usize> {
        let v = self.info.get(i)?;
        match v.up {
            None => Some(i + v.len),
            Some(u) if matches!(self.text[u], b'a' | b'm') => None,
            Some(_) if self.closing(i) => None,
            Some(_) => Some(i + v.len),
        }
    }

    fn next(&self, i: usize) -> Option<usize> {
        (i < self.len()).then(|| i + 1)
    }
}

fn text_opt(s: Option<&Sig>) -> Option<Vec<u8>> {
    s.map(|v| text_of(v).into_bytes())
}

/// An index, at times far off the end.
fn any_idx(g: &mut G, len: usize) -> usize {
    if g.chance(1, 12) {
        let v = *g.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 3, usize::MAX / 6, usize::MAX / 8, 1 << 32, 1 << 16, 1 << 8]);
        v.wrapping_add(g.below(len + 2)).max(len)
    } else {
        g.size(0, len + 3)
    }
}

fn query_cheap<O: std::borrow::Borrow<Sig>>(m: &Model, c: &Cursor<'_, O>, i: usize) -> Outcome {
    ensure_eq!(c.idx(), i, "index in {:?}", show(&m.text));
    ensure_eq!(c.element(), m.element(i), "element at {} of {:?}", i, show(&m.text));
    ensure_eq!(c.length(), m.info.get(i).map(|v| v.len), "length at {} of {:?}", i, show(&m.text));
    ensure_eq!(c.position(), m.info.get(i).map(|v| v.pos), "position at {} of {:?}", i, show(&m.text));
    ensure_eq!(c.down(), m.down(i).and_then(|v| m.element(v)), "element below {} of {:?}", i, show(&m.text));
    ensure_eq!(c.up(), m.up(i).and_then(|v| m.element(v)), "element above {} of {:?}", i, show(&m.text));
    ensure_eq!(c.idx_down(), m.down(i), "down from {} of {:?}", i, show(&m.text));
    ensure_eq!(c.idx_up(), m.up(i), "up from {} of {:?}", i, show(&m.text));
    ensure_eq!(c.idx_step(), m.step(i), "step from {} of {:?}", i, show(&m.text));
    ensure_eq!(c.idx_next(), m.next(i), "next from {} of {:?}", i, show(&m.text));
    ensure_eq!(c.idx_prev(), i.checked_sub(1), "previous from {} of {:?}", i, show(&m.text));
    let left = m.len() - i;
    ensure_eq!(c.size_hint(), (left, Some(left)), "remaining at {} of {:?}", i, show(&m.text));
    if i < m.len() && !m.closing(i) {
        ensure_eq!(c.dvar_alignment_exp(), Some(sigref::dvar_align(m.text[i])), "alignment at {} of {:?}", i, show(&m.text));
        ensure_eq!(c.gvar_alignment_exp(), Some(m.info[i].gvar), "second alignment at {} of {:?}", i, show(&m.text));
    }
    if i >= m.len() {
        ensure_eq!(c.dvar_alignment_exp(), None, "alignment at the end");
        ensure_eq!(c.gvar_alignment_exp(), None, "second alignment at the end");
    }
    Ok(())
}

fn query<O: std::borrow::Borrow<Sig>>(g: &mut G, m: &Model, c: &Cursor<'_, O>, i: usize) -> Outcome {
    query_cheap(m, c, i)?;
    if g.chance(1, 3) {
        ensure_eq!(text_opt(c.sig()), m.sub(i).map(|v| v.to_vec()), "type at {} of {:?}", i, show(&m.text));
    }
    if g.chance(1, 3) {
        let k = any_idx(g, m.len());
        ensure_eq!(c.element_at(k), m.element(k), "element at {} of {:?}", k, show(&m.text));
        ensure_eq!(c.length_at(k), m.info.get(k).map(|v| v.len), "length at {} of {:?}", k, show(&m.text));
        ensure_eq!(c.position_at(k), m.info.get(k).map(|v| v.pos), "position at {} of {:?}", k, show(&m.text));
        ensure_eq!(text_opt(c.sig_at(k)), m.sub(k).map(|v| v.to_vec()), "type at {} of {:?}", k, show(&m.text));
    }
    Ok(())
}

fn walk<O: std::borrow::Borrow<Sig> + Clone>(g: &mut G, m: &Model, mut c: Cursor<'_, O>, start: usize) -> Outcome {
    let mut i = start;
    query(g, m, &c, i)?;
    let mut moves = 0;
    let mut log: Vec<String> = Vec::new();
    let hint = *g.pick(&[4u64, 12, 40, 100]);
    while moves < 200 && g.draw(hint) != 0 {
        moves += 1;
        let op = g.weighted(&[4, 2, 5, 5, 2, 2, 2, 1, 1, 1]);
        let want = match op {
            0 => {
                c.move_next();
                m.next(i)
            },
            1 => {
                c.move_prev();
                i.checked_sub(1)
            },
            2 => {
                c.move_step();
                m.step(i)
            },
            3 => {
                c.move_down();
                m.down(i)
            },
            4 => {
                c.move_up();
                m.up(i)
            },
            5 => {
                let e = c.next();
                ensure_eq!(e, m.element(i), "iterated element at {} of {:?}", i, show(&m.text));
                m.next(i)
            },
            6 => {
                let k = any_idx(g, m.len());
                c.move_to(k);
                g.label_if(k > m.len(), "moved past the end");
                Some(k.min(m.len()))
            },
            7 => {
                let k = any_idx(g, m.len());
                let o = if g.bool() { Some(k) } else { None };
                c.maybe_move(o);
                o.map(|v| v.min(m.len()))
            },
            8 => {
                let k = g.size(0, m.len());
                let (root, idx) = c.raw();
                ensure_eq!(root.len(), m.len(), "length of the root");
                *idx = k;
                Some(k)
            },
            _ => {
                let mut d = c.clone();
                query(g, m, &d, i)?;
                let n = g.size(0, m.len() + 1);
                ensure_eq!(d.by_ref().nth(n), m.element(i + n), "element {} behind {} of {:?}", n, i, show(&m.text));
                ensure_eq!(d.idx(), (i + n + 1).min(m.len()), "index after skipping {} from {} of {:?}", n, i, show(&m.text));
                ensure_eq!(c.clone().count(), m.len() - i, "count from {} of {:?}", i, show(&m.text));
                ensure_eq!(c.len(), m.len() - i, "remaining from {} of {:?}", i, show(&m.text));
                let last = if i < m.len() { m.element(m.len() - 1) } else { None };
                ensure_eq!(c.clone().last(), last, "last element from {} of {:?}", i, show(&m.text));
                let d = c.clone();
                let rest: Vec<u8> = d.map(|v| v.code()).collect();
                ensure_eq!(rest, m.text[i..].to_vec(), "rest from {} of {:?}", i, show(&m.text));
                None
            },
        };
        i = want.unwrap_or(i);
        if g.want_notes {
            log.push(format!("{}>{}", ["next", "prev", "step", "down", "up", "iter", "to", "maybe", "raw", "clone"][op], i));
        }
        query(g, m, &c, i)?;
    }
    g.nontrivial_if(moves > 2 && m.len() > 1);
    g.note(|| format!("{:?} from {}: {}", show(&m.text), start, log.join(" ")));
    ensure_eq!(text_of(c.root()).as_bytes(), &m.text[..], "root of the cursor");
    Ok(())
}

/// Hand the signature (or a sub-signature of a larger one) to a walk.
fn walking(g: &mut G) -> Outcome {
    let s = gen_valid(g);
    check_walking(g, s)
}

fn walking_huge(g: &mut G) -> Outcome {
    let s = sigref::gen_huge(g);
    g.label_if(s.len() > 65536, "longer than 65536");
    check_walking(g, s)
}

/// Properties of every character of a large signature.
fn everywhere_huge(g: &mut G) -> Outcome {
    let s = sigref::gen_huge(g);
    g.label_if(s.len() > 65536, "longer than 65536");
    g.nontrivial_if(true);
    g.note(|| show(&s));
    let sig = Sig::new(&s).map_err(|e| format!("{:?} refused: {:?}", show(&s), e))?;
    let m = Model::new(&s);
    let mut c = sig.cursor();
    for i in 0..=s.len() {
        query_cheap(&m, &c, i)?;
        c.next();
    }
    Ok(())
}

fn check_walking(g: &mut G, s: Vec<u8>) -> Outcome {
    let whole = Sig::new(&s).map_err(|e| format!("{:?} refused: {:?}", show(&s), e))?;
    let full = Model::new(&s);

    let at = if g.chance(1, 3) { g.below(s.len()) } else { 0 };
    let (sig, m): (&Sig, Model) = match whole.at(at) {
        Some(v) => {
            ensure!(!full.closing(at), "type at closing bracket {} of {:?}", at, show(&s));
            let t = full.sub(at).unwrap();
            (v, Model::new(t))
        },
        None => {
            ensure!(full.closing(at), "no type at {} of {:?}", at, show(&s));
            (&whole, full)
        },
    };
    g.label_if(m.len() < s.len(), "sub-signature");
    g.label_if(m.len() > 31, "longer than 31");
    ensure_eq!(sig.len(), m.len(), "length of {:?}", show(&m.text));

    let way = g.below(7);
    match way {
        0 => walk(g, &m, sig.cursor(), 0),
        1 => walk(g, &m, Cursor::<&Sig>::new_borrowed(sig), 0),
        2 => {
            g.label("shared cursor");
            let arc: Arc<Sig> = Sig::arc(&m.text).map_err(|e| format!("refused: {:?}", e))?;
            walk(g, &m, Cursor::<Arc<Sig>>::new_owned(arc), 0)
        },
        3 => {
            g.label("owned cursor");
            walk(g, &m, Cursor::<Box<Sig>>::new_owned(sig.clone()), 0)
        },
        4 => {
            let k = any_idx(g, m.len());
            g.label("started elsewhere");
            walk(g, &m, Cursor::<&Sig>::with(osi::mown::Mown::new_borrowed(sig), k), k.min(m.len()))
        },
        5 => {
            let k = any_idx(g, m.len());
            g.label("started elsewhere, owned");
            let arc: Arc<Sig> = Sig::arc(&m.text).map_err(|e| format!("refused: {:?}", e))?;
            walk(g, &m, Cursor::with(osi::mown::Mown::new_owned(arc), k), k.min(m.len()))
        },
        _ => walk(g, &m, sig.into_iter(), 0),
    }
}

/// Every index of one signature.
fn everywhere(g: &mut G) -> Outcome {
    let s = gen_valid(g);
    let sig = Sig::new(&s).map_err(|e| format!("{:?} refused: {:?}", show(&s), e))?;
    let m = Model::new(&s);
    g.nontrivial_if(s.len() > 3);
    g.label_if(s.len() > 31, "longer than 31");
    g.note(|| show(&s));
    let mut c = sig.cursor();
    for i in 0..=s.len() {
        query(g, &m, &c, i)?;
        let at = sig.at(i);
        ensure_eq!(text_opt(at), m.sub(i).map(|v| v.to_vec()), "type at {} of {:?}", i, show(&s));
        let e = c.next();
        ensure_eq!(e, m.element(i), "iterated element {} of {:?}", i, show(&s));
    }
    ensure_eq!(c.next(), None, "element after the end");
    ensure_eq!(c.len(), 0, "remaining after the end");
    let k = any_idx(g, s.len());
    ensure!(k < s.len() || sig.at(k).is_none(), "type at {} of {:?}", k, show(&s));
    ensure!(sig.at(usize::MAX).is_none(), "type at an absurd index");
    // Tree recursion through down and step alone.
    fn rec(s: &Sig, depth: usize, out: &mut Vec<u8>) {
        if depth > 400 {
            return;
        }
        let mut c = s.cursor();
        let Some(e) = c.element() else { return };
        out.push(e.code());
        if c.down().is_none() {
            return;
        }
        c.move_down();
        let mut fuel = 2000;
        loop {
            fuel -= 1;
            if fuel == 0 {
                return;
            }
            match c.sig() {
                Some(t) => rec(t, depth + 1, out),
                None => {
                    out.push(c.element().map(|v| v.code()).unwrap_or(b'?'));
                    return;
                },
            }
            if c.idx_step().is_none() {
                return;
            }
            c.move_step();
        }
    }
    let mut out = Vec::new();
    rec(&sig, 0, &mut out);
    ensure_eq!(out, s, "text rebuilt from the tree");
    Ok(())
}

// ---------------------------------------------------------------------------
// Comparison

fn hash_of(s: &Sig) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// The same signature in some storage.
fn stored(g: &mut G, s: &[u8], f: &mut dyn FnMut(&mut G, &Sig) -> Outcome) -> Outcome {
    let way = g.below(8);
    g.label(["boxed", "shared", "cloned", "to owned", "box cloned", "sub of long", "sub of short", "re-parsed"][way]);
    let e = |e: Error| format!("{:?} refused: {:?}", show(s), e);
    match way {
        0 => {
            let v = Sig::new(s).map_err(e)?;
            f(g, &v)
        },
        1 => {
            let v = Sig::arc(s).map_err(e)?;
            let w = v.clone();
            drop(v);
            f(g, &w)
        },
        2 => {
            let v = Sig::new(s).map_err(e)?;
            let w = Sig::clone(&v);
            drop(v);
            f(g, &w)
        },
        3 => {
            let v = Sig::new(s).map_err(e)?;
            let w = std::borrow::ToOwned::to_owned(&*v);
            drop(v);
            f(g, &w)
        },
        4 => {
            let v = Sig::new(s).map_err(e)?;
            let w = <Box<Sig> as Clone>::clone(&v);
            drop(v);
            f(g, &w)
        },
        5 | 6 => {
            let mut big = vec![b'('];
            let fill = if way == 5 { g.size(32, 40) } else { g.size(0, 3) };
            big.extend(std::iter::repeat(b'q').take(fill));
            let at = big.len();
            big.extend(s);
            big.push(b')');
            let v = Sig::new(&big).map_err(e)?;
            let w = v.at(at).ok_or_else(|| format!("no type at {} of {:?}", at, show(&big)))?;
            if g.bool() {
                f(g, w)
            } else {
                let x = w.clone();
                drop(v);
                f(g, &x)
            }
        },
        _ => {
            let v = Sig::new(s).map_err(e)?;
            let w = Sig::new(v.to_string().as_bytes()).map_err(e)?;
            f(g, &w)
        },
    }
}

fn compare(g: &mut G) -> Outcome {
    let a = gen_valid(g);
    compare_with(g, a)
}

fn compare_huge(g: &mut G) -> Outcome {
    let a = sigref::gen_huge(g);
    g.label_if(a.len() > 65536, "longer than 65536");
    compare_with(g, a)
}

fn compare_with(g: &mut G, a: Vec<u8>) -> Outcome {
    let b = match g.weighted(&[3, 4, 2]) {
        0 => a.clone(),
        1 => {
            // change a single primitive
            let mut b = a.clone();
            let at: Vec<usize> = (0..b.len()).filter(|i| sigref::is_basic(b[*i])).collect();
            if !at.is_empty() {
                let i = *g.pick(&at);
                b[i] = *g.pick(sigref::BASIC);
            }
            b
        },
        _ => gen_valid(g),
    };
    g.nontrivial_if(a.len() > 1);
    g.label(if a == b { "equal" } else { "different" });
    g.label_if(a.len() > 31 || b.len() > 31, "longer than 31");
    g.note(|| format!("{:?} against {:?}", show(&a), show(&b)));
    stored(g, &a.clone(), &mut |g, x| {
        stored(g, &b.clone(), &mut |_, y| {
            let t = String::from_utf8(a.clone()).unwrap();
            ensure_eq!(Sig::to_string(x), t, "text");
            ensure_eq!(format!("{}", x), t, "displayed text");
            ensure_eq!(format!("{:?}", x), t, "debug text");
            ensure_eq!(x.len(), a.len(), "length of {:?}", t);
            ensure_eq!(x == y, a == b, "equality of {:?} and {:?}", show(&a), show(&b));
            ensure_eq!(y == x, a == b, "equality of {:?} and {:?}", show(&b), show(&a));
            ensure_eq!(x != y, a != b, "inequality of {:?} and {:?}", show(&a), show(&b));
            ensure_eq!(x.cmp(y), a.cmp(&b), "order of {:?} and {:?}", show(&a), show(&b));
            ensure_eq!(y.cmp(x), b.cmp(&a), "order of {:?} and {:?}", show(&b), show(&a));
            ensure_eq!(x.partial_cmp(y), Some(a.cmp(&b)), "partial order of {:?} and {:?}", show(&a), show(&b));
            ensure_eq!(x < y, a < b, "less of {:?} and {:?}", show(&a), show(&b));
            ensure!(x == x, "{:?} differs from itself", t);
            if a == b {
                ensure_eq!(hash_of(x), hash_of(y), "hashes of {:?}", t);
            }
            Ok(())
        })
    })
}

/// Signatures as keys.
fn keyed(g: &mut G) -> Outcome {
    let texts: Vec<Vec<u8>> = g.list(12, |g| if g.chance(2, 3) { g.list(2, |g| *g.pick(sigref::BASIC)) } else { vec![] })
        .into_iter()
        .map(|t| {
            let mut r = b"(".to_vec();
            r.extend(t);
            r.push(b')');
            r
        })
        .collect();
    g.nontrivial_if(texts.len() > 2);
    g.note(|| texts.iter().map(|v| show(v)).collect::<Vec<_>>().join(" "));
    let mut hs = std::collections::HashSet::new();
    let mut bs = std::collections::BTreeSet::new();
    let mut ms = std::collections::BTreeSet::new();
    for t in &texts {
        let new = ms.insert(t.clone());
        ensure_eq!(hs.insert(Sig::new(t).map_err(|e| format!("refused: {:?}", e))?), new, "{:?} as hash key", show(t));
        ensure_eq!(bs.insert(Sig::new(t).map_err(|e| format!("refused: {:?}", e))?), new, "{:?} as ordered key", show(t));
    }
    let got: Vec<String> = bs.iter().map(|v| v.to_string()).collect();
    let want: Vec<String> = ms.iter().map(|v| show(v)).collect();
    ensure_eq!(got, want, "ordered keys");
    Ok(())
}

/// Literals evaluated at compile time agree with run time.
fn literals(g: &mut G) -> Outcome {
    use tmp::fmt::dbus::{sig, signature};
    // Longer ones at run time only, as any failure to evaluate one of them at
    // compile time would leave no program to report it.
    macro_rules! made {
        ($t:expr) => {{
            const N: usize = Sig::size_for_length($t.len());
            &Sig::<[u64; N]>::make($t)
        }};
    }
    let all: [(&Sig, &[u8]); 10] = [
        (sig!(b"y"), b"y"),
        (sig!(b"as"), b"as"),
        (sig!(b"a{sv}"), b"a{sv}"),
        (made!(b"(a{s(vvam(t))}h)"), b"(a{s(vvam(t))}h)"),
        (made!(b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyy)"), b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyy)"),
        (made!(b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy)"), b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy)"),
        (made!(b"(tttttttttttttttta{sv}tttttttttttttttttttt)"), b"(tttttttttttttttta{sv}tttttttttttttttttttt)"),
        (made!(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{sv}"), b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{sv}"),
        (signature::builtin::s, b"s"),
        (signature::builtin::asv, b"a{sv}"),
    ];
    let (v, t) = all[g.below(all.len())];
    g.nontrivial_if(t.len() > 1);
    g.note(|| show(t));
    let w = Sig::new(t).map_err(|e| format!("refused: {:?}", e))?;
    ensure!(*v == *w, "literal {:?} differs from the parsed one", show(t));
    ensure_eq!(v.len(), t.len(), "length of literal {:?}", show(t));
    ensure_eq!(hash_of(v), hash_of(&w), "hash of literal {:?}", show(t));
    let m = Model::new(t);
    let k = g.below(t.len() + 1);
    query(g, &m, &Cursor::<&Sig>::with(osi::mown::Mown::new_borrowed(v), k), k)
}

// ---------------------------------------------------------------------------
// Elements

struct Def {
    code: u8,
    element: Element,
    pair: Option<Element>,
    d: (u8, u8),
    g: (u8, u8),
    class: &'static str,
}

/// Code, alignment exponent and size in both encodings, and class:
/// p(refix) o(pen) c(lose) b(asic) d(ynamic) v(ariant) h(andle) u(nsupported in D-Bus).
const DEFS: &[Def] = &[
    Def { code: b'y', element: Element::U8, pair: None, d: (0, 1), g: (0, 1), class: "pb" },
    Def { code: b'q', element: Element::U16, pair: None, d: (1, 2), g: (1, 2), class: "pb" },
    Def { code: b'n', element: Element::I16, pair: None, d: (1, 2), g: (1, 2), class: "pb" },
    Def { code: b'u', element: Element::U32, pair: None, d: (2, 4), g: (2, 4), class: "pb" },
    Def { code: b'i', element: Element::I32, pair: None, d: (2, 4), g: (2, 4), class: "pb" },
    Def { code: b't', element: Element::U64, pair: None, d: (3, 8), g: (3, 8), class: "pb" },
    Def { code: b'x', element: Element::I64, pair: None, d: (3, 8), g: (3, 8), class: "pb" },
    Def { code: b'd', element: Element::F64, pair: None, d: (3, 8), g: (3, 8), class: "pb" },
    Def { code: b'b', element: Element::Bool, pair: None, d: (2, 4), g: (0, 1), class: "pb" },
    Def { code: b's', element: Element::String, pair: None, d: (2, 0), g: (0, 0), class: "pbd" },
    Def { code: b'o', element: Element::Object, pair: None, d: (2, 0), g: (0, 0), class: "pbd" },
    Def { code: b'g', element: Element::Signature, pair: None, d: (0, 0), g: (0, 0), class: "pbd" },
    Def { code: b'h', element: Element::Handle, pair: None, d: (2, 4), g: (2, 4), class: "pbh" },
    Def { code: b'v', element: Element::Variant, pair: None, d: (0, 0), g: (3, 0), class: "pdv" },
    Def { code: b'a', element: Element::Array, pair: None, d: (2, 0), g: (0, 0), class: "pod" },
    Def { code: b'm', element: Element::Maybe, pair: None, d: (2, 0), g: (0, 0), class: "podu" },
    Def { code: b'(', element: Element::StructOpen, pair: Some(Element::StructClose), d: (3, 0), g: (0, 0), class: "po" },
    Def { code: b')', element: Element::StructClose, pair: Some(Element::StructOpen), d: (0, 0), g: (0, 0), class: "c" },
    Def { code: b'{', element: Element::DictOpen, pair: Some(Element::DictClose), d: (3, 0), g: (0, 0), class: "po" },
    Def { code: b'}', element: Element::DictClose, pair: Some(Element::DictOpen), d: (0, 0), g: (0, 0), class: "c" },
];

const FLAGS: &[(char, element::Flag)] = &[
    ('p', element::FLAG_PREFIX),
    ('o', element::FLAG_OPEN),
    ('c', element::FLAG_CLOSE),
    ('b', element::FLAG_BASIC),
    ('d', element::FLAG_DYNAMIC),
    ('v', element::FLAG_VARIANT),
    ('h', element::FLAG_HANDLE),
    ('u', element::FLAG_DVAR_UNSUPPORTED),
];

fn codes(g: &mut G) -> Outcome {
    let c = g.below(256) as u8;
    let def = DEFS.iter().find(|d| d.code == c);
    g.nontrivial_if(def.is_some());
    g.note(|| show(&[c]));
    let e = Element::from_code(c);
    ensure_eq!(e, def.map(|d| d.element), "element of code {:?}", show(&[c]));
    let (Some(e), Some(d)) = (e, def) else { return Ok(()) };
    ensure_eq!(e.code(), c, "code of {:?}", e);
    ensure_eq!(e.char(), c as char, "character of {:?}", e);
    ensure_eq!(e.str(), (c as char).to_string(), "string of {:?}", e);
    ensure_eq!(e.pair(), d.pair, "pair of {:?}", e);
    ensure!(e.id() != 0, "id of {:?} is zero", e);
    ensure_eq!(unsafe { Element::from_id(e.id()) }, e, "element of its id");
    ensure_eq!(e.dvar_alignment_exp(), d.d.0, "alignment of {:?}", e);
    ensure_eq!(e.dvar_size(), d.d.1, "size of {:?}", e);
    ensure_eq!(e.gvar_alignment_exp(), d.g.0, "second alignment of {:?}", e);
    ensure_eq!(e.gvar_size(), d.g.1, "second size of {:?}", e);
    for (n, f) in FLAGS {
        ensure_eq!(e.all(*f), d.class.contains(*n), "class {} of {:?}", n, e);
        ensure_eq!(e.any(*f), d.class.contains(*n), "class {} of {:?}", n, e);
    }
    for o in DEFS {
        if o.code != c {
            ensure!(o.element != e && o.element.id() != e.id(), "{:?} and {:?} are the same", o.element, e);
        }
    }
    Ok(())
}

/// Queries for several classes at once.
fn classes(g: &mut G) -> Outcome {
    let d = g.pick(DEFS);
    let mask = g.below(256);
    let set: Vec<&(char, element::Flag)> = FLAGS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, v)| v).collect();
    let flags = set.iter().fold(0, |a, v| a | v.1);
    g.nontrivial_if(set.len() > 1);
    g.note(|| format!("{:?} {:?}", d.element, set.iter().map(|v| v.0).collect::<String>()));
    ensure_eq!(d.element.all(flags), set.iter().all(|v| d.class.contains(v.0)), "{:?} has all of {:?}", d.element, set);
    ensure_eq!(d.element.any(flags), set.iter().any(|v| d.class.contains(v.0)), "{:?} has any of {:?}", d.element, set);
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C35",
            facets: vec![
                Facet::all("short", count_small(), accept_small, "more than one character"),
                Facet::all("bytes", 256 + 65536, accept_pairs, "more than one character"),
                Facet::all("triples", 8000, accept_triples, "more than one character"),
                Facet::new("any", 400_000, 8_000_000, accept, "more than one character"),
                Facet::new("valid", 200_000, 4_000_000, accept_valid, "more than one character"),
                Facet::new("huge", 3_000, 40_000, accept_huge, "more than one character"),
            ],
            assumptions: vec![
                "buffers are sized for the signature, smaller, or larger by less than one node, as documented",
                "signatures of up to about 800,000 characters",
            ],
        },
        Property {
            id: "C36",
            facets: vec![
                Facet::all("short", count_small(), reason_small, "rejected and more than one character"),
                Facet::all("bytes", 65536, reason_pairs, "rejected and more than one character"),
                Facet::new("any", 600_000, 12_000_000, reason, "rejected and more than one character"),
                Facet::new("huge", 3_000, 40_000, reason_huge, "rejected and more than one character"),
            ],
            assumptions: vec![
                "any true reason is accepted, not only the leftmost",
                "a closing bracket inside an array without element type may count as unpaired or as mispaired",
            ],
        },
        Property {
            id: "C37",
            facets: vec![
                Facet::new("walk", 150_000, 2_000_000, walking, "three or more moves on a compound type"),
                Facet::new("everywhere", 60_000, 600_000, everywhere, "four or more characters"),
                Facet::new("walk huge", 2_000, 30_000, walking_huge, "three or more moves on a compound type"),
                Facet::new("everywhere huge", 1_500, 30_000, everywhere_huge, "every case"),
            ],
            assumptions: vec!["indices set through the raw accessor stay within the signature"],
        },
        Property {
            id: "C38",
            facets: vec![
                Facet::new("pairs", 300_000, 4_000_000, compare, "the first has more than one character"),
                Facet::new("huge", 2_000, 40_000, compare_huge, "the first has more than one character"),
                Facet::new("keys", 60_000, 600_000, keyed, "three or more signatures"),
                Facet::new("literals", 20_000, 100_000, literals, "a compound literal"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C39",
            facets: vec![
                Facet::all("codes", 256, codes, "a defined code"),
                Facet::new("classes", 60_000, 200_000, classes, "two or more classes"),
            ],
            assumptions: vec!["the reference table is transcribed from the D-Bus and GVariant specifications"],
        },
    ])
}
