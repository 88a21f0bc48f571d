//! C40 encoding, C41 refused steps, C42 nesting, C43 decoding, C44 hostile
//! data.

use core::ops::ControlFlow as Flow;
use harness::mapio::{In, Out, Script, Sink};
use harness::{alloc_meter, ensure, ensure_eq, Facet, Outcome, Property, G};
use std::rc::Rc;
use std::sync::Arc;
use tmp::fmt::dbus::{self, dvar, Sig};
use tmp::io::map;

#[global_allocator]
static METER: alloc_meter::Meter = alloc_meter::Meter;

type Mown<'a> = osi::mown::Mown<'a, Sig, Arc<Sig>>;

// ---------------------------------------------------------------------------
// Values and their reference encoding

#[derive(Debug)]
enum V {
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Obj(String),
    Sig(String),
    Var(Arc<Sig>, Box<V>),
    /// alignment of the element, elements
    Arr(usize, Vec<V>),
    Struct(Vec<V>),
    Dict(Box<V>, Box<V>),
}

fn align_of(code: u8) -> usize {
    1 << harness::sigref::dvar_align(code)
}

fn basic(g: &mut G) -> u8 {
    *g.pick(b"qutsog")
}

/// Type of supported elements.
fn gen_type(g: &mut G, out: &mut Vec<u8>, depth: usize) {
    let w: &[u64] = if depth == 0 { &[6, 1] } else { &[6, 2, 5, 4, 2] };
    match g.weighted(w) {
        0 => out.push(basic(g)),
        1 => out.push(b'v'),
        2 => {
            out.push(b'a');
            gen_type(g, out, depth - 1);
        },
        3 => {
            out.push(b'(');
            gen_type(g, out, depth - 1);
            for _ in 0..g.small(4) {
                gen_type(g, out, depth - 1);
            }
            out.push(b')');
        },
        _ => {
            out.push(b'{');
            out.push(basic(g));
            gen_type(g, out, depth - 1);
            out.push(b'}');
        },
    }
}

fn gen_string(g: &mut G) -> String {
    match g.weighted(&[4, 8, 1]) {
        0 => String::new(),
        1 => g.text(12),
        _ => {
            let n = *g.pick(&[100usize, 254, 255, 256, 257, 1000, 65535, 65536]);
            // sizes are in bytes, the pattern starts anywhere
            let c = *g.pick(&["x", "\0", "0123456", "\u{e4}", "a\u{20ac}", "\u{1f600}", "\u{7ff}\u{800}b"]);
            let mut s: String = "z".repeat(g.below(4));
            s.extend(std::iter::repeat(c).take((n - s.len()) / c.len()));
            s.extend(std::iter::repeat('y').take(n - s.len()));
            s
        },
    }
}

fn gen_number(g: &mut G, bits: u32) -> u64 {
    g.uint(bits) as u64
}

/// Value of the type at the start of `t`; returns the rest of the type.
fn gen_value<'t>(g: &mut G, t: &'t [u8], budget: &mut usize, depth: usize) -> (V, &'t [u8]) {
    *budget = budget.saturating_sub(1);
    match t[0] {
        b'q' => (V::U16(gen_number(g, 16) as u16), &t[1..]),
        b'u' => (V::U32(gen_number(g, 32) as u32), &t[1..]),
        b't' => (V::U64(gen_number(g, 64)), &t[1..]),
        b's' | b'o' => {
            let s = gen_string(g);
            *budget = budget.saturating_sub(s.len() / 64);
            (if t[0] == b's' { V::Str(s) } else { V::Obj(s) }, &t[1..])
        },
        b'g' => {
            let mut s = gen_string(g);
            if s.len() > 255 {
                s = std::iter::repeat('y').take(*g.pick(&[254usize, 255])).collect();
            }
            (V::Sig(s), &t[1..])
        },
        b'v' => {
            let mut s = Vec::new();
            if depth == 0 || *budget == 0 {
                s.push(basic(g));
            } else if g.chance(1, 40) {
                // the longest signatures that fit
                let n = *g.pick(&[32usize, 250, 253, 254, 255]);
                s = vec![b'a'; n - 1];
                s.push(b'y');
            } else {
                gen_type(g, &mut s, 3);
            }
            let sig = if s[0] == b'a' && s.len() > 20 && s[s.len() - 1] == b'y' {
                (V::Arr(4, vec![]), Sig::arc(&s).unwrap())
            } else {
                let (v, rest) = gen_value(g, &s, budget, depth.saturating_sub(1));
                assert!(rest.is_empty());
                (v, Sig::arc(&s).unwrap())
            };
            (V::Var(sig.1, Box::new(sig.0)), &t[1..])
        },
        b'a' => {
            let end = harness::sigref::complete(t, 0).unwrap();
            let elem = &t[1..end];
            let mut v = Vec::new();
            let can = elem.iter().all(|c| b"qutsogva(){}".contains(c));
            let hint = if *budget > 200 { *g.pick(&[8u64, 64, 1024, 8192]) } else { *g.pick(&[2u64, 4, 8]) };
            while can && *budget > 0 && depth > 0 && g.draw(hint) != 0 {
                v.push(gen_value(g, elem, budget, depth - 1).0);
            }
            (V::Arr(align_of(elem[0]), v), &t[end..])
        },
        b'(' => {
            let mut v = Vec::new();
            let mut rest = &t[1..];
            while rest[0] != b')' {
                let (e, r) = gen_value(g, rest, budget, depth.saturating_sub(1));
                v.push(e);
                rest = r;
            }
            (V::Struct(v), &rest[1..])
        },
        b'{' => {
            let (k, rest) = gen_value(g, &t[1..], budget, depth.saturating_sub(1));
            let (v, rest) = gen_value(g, rest, budget, depth.saturating_sub(1));
            assert!(rest[0] == b'}');
            (V::Dict(Box::new(k), Box::new(v)), &rest[1..])
        },
        _ => unreachable!(),
    }
}

fn pad(out: &mut Vec<u8>, n: usize) {
    while out.len() % n != 0 {
        out.push(0);
    }
}

fn num(out: &mut Vec<u8>, be: bool, v: u64, n: usize) {
    pad(out, n);
    for i in 0..n {
        let i = if be { n - 1 - i } else { i };
        out.push((v >> (8 * i)) as u8);
    }
}

/// Marshalling rules of the D-Bus specification.
fn reference(out: &mut Vec<u8>, be: bool, v: &V) {
    match v {
        V::U16(n) => num(out, be, *n as u64, 2),
        V::U32(n) => num(out, be, *n as u64, 4),
        V::U64(n) => num(out, be, *n, 8),
        V::Str(s) | V::Obj(s) => {
            num(out, be, s.len() as u64, 4);
            out.extend(s.bytes());
            out.push(0);
        },
        V::Sig(s) => {
            out.push(s.len() as u8);
            out.extend(s.bytes());
            out.push(0);
        },
        V::Var(s, v) => {
            let t = s.to_string();
            out.push(t.len() as u8);
            out.extend(t.bytes());
            out.push(0);
            reference(out, be, v);
        },
        V::Arr(a, l) => {
            num(out, be, 0, 4);
            let at = out.len() - 4;
            pad(out, *a);
            let from = out.len();
            for v in l {
                reference(out, be, v);
            }
            let mut n = Vec::new();
            num(&mut n, be, (out.len() - from) as u64, 4);
            out[at..at + 4].copy_from_slice(&n);
        },
        V::Struct(l) => {
            pad(out, 8);
            for v in l {
                reference(out, be, v);
            }
        },
        V::Dict(k, v) => {
            pad(out, 8);
            reference(out, be, k);
            reference(out, be, v);
        },
    }
}

fn nodes(v: &V) -> usize {
    1 + match v {
        V::Var(_, v) => nodes(v),
        V::Arr(_, l) | V::Struct(l) => l.iter().map(nodes).sum(),
        V::Dict(k, v) => nodes(k) + nodes(v),
        _ => 0,
    }
}

fn depth(v: &V) -> usize {
    1 + match v {
        V::Var(_, v) => depth(v),
        V::Arr(_, l) | V::Struct(l) => l.iter().map(depth).max().unwrap_or(0),
        V::Dict(_, v) => depth(v),
        _ => 0,
    }
}

struct Case {
    text: Vec<u8>,
    sig: Arc<Sig>,
    value: V,
    be: bool,
    bytes: Vec<u8>,
}

/// Types with many levels or many members.
fn gen_type_large(g: &mut G, text: &mut Vec<u8>) {
    match g.below(4) {
        0 => gen_type(g, text, 6),
        1 => {
            // one container in another
            let mut close = Vec::new();
            for _ in 0..*g.pick(&[20usize, 60, 120, 300]) {
                match g.below(3) {
                    0 => text.push(b'a'),
                    1 => {
                        text.push(b'(');
                        close.push(b')');
                        if g.bool() {
                            text.push(basic(g));
                        }
                    },
                    _ => {
                        text.push(b'{');
                        text.push(basic(g));
                        close.push(b'}');
                    },
                }
            }
            text.push(basic(g));
            text.extend(close.iter().rev());
        },
        2 => {
            text.push(b'(');
            for _ in 0..*g.pick(&[40usize, 130, 260, 700]) {
                gen_type(g, text, 1);
            }
            text.push(b')');
        },
        _ => {
            text.push(b'a');
            gen_type(g, text, 2);
        },
    }
}

fn gen_case(g: &mut G, large: bool, most: usize) -> Case {
    let mut text = Vec::new();
    if large {
        gen_type_large(g, &mut text);
    }
    match g.weighted(&[12, 1, 1]) {
        _ if large => {},
        0 => gen_type(g, &mut text, 4),
        1 => {
            // arrays of types that have no values to offer, but alignments
            text.push(b'(');
            for _ in 0..g.size(1, 5) {
                text.push(b'a');
                let c = *g.pick(b"yqnuitxdbsogh");
                text.push(c);
                gen_type(g, &mut text, 1);
            }
            text.push(b')');
        },
        _ => {
            // the large representation
            text.push(b'(');
            while text.len() < 31 {
                gen_type(g, &mut text, 2);
            }
            text.push(b')');
        },
    }
    let mut budget = if large { *g.pick(&[300, 1000, 3000, most]) } else { 40 };
    let (value, rest) = gen_value(g, &text, &mut budget, if large { 1000 } else { 7 });
    assert!(rest.is_empty());
    let be = g.bool();
    let mut bytes = Vec::new();
    reference(&mut bytes, be, &value);
    let sig = Sig::arc(&text).unwrap();
    let n = nodes(&value);
    g.label(if be { "big endian" } else { "little endian" });
    g.label_if(n > 4, "more than four values");
    g.label_if(n > 4096, "more than 4096 values");
    g.label_if(bytes.len() > 65536, "more than 65536 bytes");
    g.label_if(large && depth(&value) > 16, "more than 16 levels");
    g.label_if(text.contains(&b'v'), "with variants");
    g.label_if(text.len() > 31, "long signature");
    g.nontrivial_if(n > 2);
    g.note(|| format!("{} {} {:?}", if be { "be" } else { "le" }, String::from_utf8_lossy(&text), short(&value)));
    Case { text, sig, value, be, bytes }
}

fn short(v: &V) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

fn hex(v: &[u8]) -> String {
    let s: Vec<String> = v.iter().take(120).map(|b| format!("{:02x}", b)).collect();
    format!("{} bytes {}", v.len(), s.join(" "))
}

fn same(got: &[u8], want: &[u8]) -> Outcome {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("wire bytes differ at {}: got {}, expected {}", at, hex(got), hex(want)));
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Driving the encoder

type Enc<'s, 'w> = dvar::Enc<'s, 'w>;
type Res = Result<(), Option<dbus::Error>>;

fn flow<T>(f: Flow<Option<dbus::Error>, T>) -> Res {
    match f {
        Flow::Continue(_) => Ok(()),
        Flow::Break(e) => Err(e),
    }
}

struct Opts {
    /// use nested encoders
    nest: bool,
    /// make calls that must be refused
    bad: bool,
    /// the output may fail
    sink: Option<Rc<Sink>>,
    initial: usize,
    refused: usize,
    nested: usize,
    abandoned: usize,
    faults: usize,
    log: Vec<String>,
}

/// Where the encoder stands.
#[derive(Clone, Copy, PartialEq)]
enum At {
    /// before a value of this code
    Value(u8),
    /// same, as element of an array
    Element(u8),
    /// a container that takes no more, but was not closed
    Full,
    /// everything encoded
    Done,
}

fn code_of(v: &V) -> u8 {
    match v {
        V::U16(_) => b'q',
        V::U32(_) => b'u',
        V::U64(_) => b't',
        V::Str(_) => b's',
        V::Obj(_) => b'o',
        V::Sig(_) => b'g',
        V::Var(..) => b'v',
        V::Arr(..) => b'a',
        V::Struct(_) => b'(',
        V::Dict(..) => b'{',
    }
}

thread_local! {
    static LONG: Arc<Sig> = {
        let mut s = vec![b'a'; 255];
        s.push(b'y');
        Sig::arc(&s).unwrap()
    };
    static SMALL: Vec<Arc<Sig>> = ["q", "s", "as", "v", "(q)", "a{sv}", "ay", "{sv}", "t"].iter().map(|v| Sig::arc(v.as_bytes()).unwrap()).collect();
}

/// A type that is not the given one, often one that is hard to tell apart.
fn other_type(g: &mut G, whole: Option<&[u8]>) -> Option<Arc<Sig>> {
    let Some(w) = whole else {
        return Some(SMALL.with(|v| g.pick(v).clone()));
    };
    let t = match g.below(4) {
        0 => return Some(SMALL.with(|v| g.pick(v).clone())).filter(|v| v.to_string().as_bytes() != w),
        1 => {
            let mut t = w.to_vec();
            let i = g.below(t.len());
            t[i] = *g.pick(b"ybnqiuxtdsogvha");
            t
        },
        2 if w[0] == b'(' => {
            let mut t = w.to_vec();
            let i = 1 + g.below(w.len() - 1);
            t.insert(i, *g.pick(b"yus"));
            t
        },
        2 => [b"a", w].concat(),
        _ if w.len() > 2 => w[1..w.len() - g.below(2)].to_vec(),
        _ => [b"(", w, b")"].concat(),
    };
    if t == w {
        return None;
    }
    Sig::arc(&t).ok()
}

/// Nothing may be visible before the commit.
fn invisible(o: &Opts) -> Outcome {
    if let Some(s) = &o.sink {
        ensure_eq!(s.out.borrow().len(), o.initial, "bytes visible before the commit");
        ensure_eq!(s.commits.get(), 0, "commits seen by the output");
    }
    Ok(())
}

/// Calls that do not fit here.
fn bad_calls<'s>(g: &mut G, e: &mut Enc<'s, '_>, at: At, o: &mut Opts, whole: Option<&[u8]>) -> Outcome {
    if !o.bad {
        return Ok(());
    }
    while g.chance(1, 3) {
        let here = match at {
            At::Value(c) | At::Element(c) => c,
            _ => 0,
        };
        let op = g.below(14);
        let code = [b'q', b'u', b't', b's', b'o', b'g', b'v', b'a', b'(', b'{'];
        let (name, want, got): (&str, dbus::Error, Res) = if op < 10 {
            let c = code[op];
            if c == here {
                // the right type, but too much of it
                match c {
                    b'g' => {
                        let s: String = std::iter::repeat('y').take(g.size(256, 300)).collect();
                        ("oversize signature", dbus::Error::DataOverflow, flow(e.signature(&s)))
                    },
                    b'v' => {
                        let l = LONG.with(|v| v.clone());
                        ("oversize variant", dbus::Error::DataOverflow, flow(e.variant_with(Mown::new_owned(l))))
                    },
                    _ => continue,
                }
            } else {
                let r = match c {
                    b'q' => flow(e.u16(7)),
                    b'u' => flow(e.u32(7)),
                    b't' => flow(e.u64(7)),
                    b's' => flow(e.string("wrong")),
                    b'o' => flow(e.object("wrong")),
                    b'g' => flow(e.signature("wrong")),
                    b'v' => {
                        let s = SMALL.with(|v| g.pick(v).clone());
                        flow(e.variant_with(Mown::new_owned(s)))
                    },
                    b'a' => flow(e.array()),
                    b'(' => flow(e.structure()),
                    _ => flow(e.dict()),
                };
                (["u16", "u32", "u64", "string", "object", "signature", "variant", "array", "structure", "dict"][op], dbus::Error::Mismatch, r)
            }
        } else if op == 10 {
            match at {
                At::Value(_) | At::Done => ("close", dbus::Error::Mismatch, flow(e.close())),
                _ => continue,
            }
        } else if op == 11 {
            match at {
                At::Done => continue,
                _ => ("commit", dbus::Error::Pending, e.commit().map_err(Some)),
            }
        } else if op == 12 {
            match at {
                At::Full | At::Done => {
                    let r = e.enc().map(|_| ()).map_err(Some);
                    ("nested", dbus::Error::Mismatch, r)
                },
                _ => continue,
            }
        } else {
            if here != 0 && whole.is_none() {
                continue;
            }
            let Some(s) = other_type(g, if here != 0 { whole } else { None }) else {
                continue;
            };
            let r = e.enc_with(Mown::new_owned(s)).map(|_| ()).map_err(Some);
            ("nested with", dbus::Error::Mismatch, r)
        };
        if g.want_notes {
            o.log.push(format!("bad {}", name));
        }
        o.refused += 1;
        ensure_eq!(got, Err(Some(want)), "call {} that does not fit", name);
        invisible(o)?;
    }
    Ok(())
}

/// Perform one step, repeating it as long as the output fails.
fn step<'s, 'w>(e: &mut Enc<'s, 'w>, o: &mut Opts, name: &str, f: &mut dyn FnMut(&mut Enc<'s, 'w>) -> Res) -> Outcome {
    let mut tries = 0;
    loop {
        let before = o.sink.as_ref().map(|s| s.failed.get());
        let r = f(e);
        let failed = o.sink.as_ref().map(|s| s.failed.get()) != before;
        match r {
            Ok(()) => {
                ensure!(!failed, "{} succeeded though the output failed", name);
                return Ok(());
            },
            Err(r) => {
                ensure!(failed, "{} refused: {:?}", name, r);
                ensure!(matches!(r, None | Some(dbus::Error::Io(_))), "{} on failing output: {:?}", name, r);
                o.faults += 1;
                tries += 1;
                ensure!(tries < 100, "{} does not recover", name);
                invisible(o)?;
            },
        }
    }
}

/// Encode one value.
fn put<'s>(g: &mut G, e: &mut Enc<'s, '_>, v: &'s V, text: &'s [u8], elem: bool, o: &mut Opts) -> Outcome {
    let c = code_of(v);
    let at = if elem { At::Element(c) } else { At::Value(c) };
    bad_calls(g, e, at, o, Some(text))?;

    if o.nest && g.chance(1, 4) {
        // A nested encoder that is given up half way.
        if o.abandoned < 12 && g.chance(1, 3) {
            o.abandoned += 1;
            let mut n = e.enc().map_err(|e| format!("nested encoder refused: {:?}", e))?;
            match g.below(3) {
                0 => (),
                1 => put_partial(g, &mut n, v),
                _ => put_in(g, &mut n, v, text, false, o)?,
            }
        }
        o.nested += 1;
        if g.want_notes {
            o.log.push(format!("nest {}", String::from_utf8_lossy(text)));
        }
        let mut n = if g.bool() {
            e.enc().map_err(|e| format!("nested encoder refused: {:?}", e))?
        } else {
            let s = Sig::arc(text).unwrap();
            let b = Sig::new(text).unwrap();
            let s = if g.bool() { Mown::new_owned(s) } else { Mown::new_borrowed(&b) };
            e.enc_with(s).map_err(|e| format!("nested encoder refused: {:?}", e))?
        };
        put(g, &mut n, v, text, false, o)?;
        bad_calls(g, &mut n, At::Done, o, None)?;
        n.commit().map_err(|e| format!("nested commit refused: {:?}", e))?;
        invisible(o)?;
        if g.chance(1, 4) {
            n.commit().map_err(|e| format!("second nested commit refused: {:?}", e))?;
            bad_calls(g, &mut n, At::Done, o, None)?;
        }
        return Ok(());
    }
    put_in(g, e, v, text, elem, o)
}

/// Some of a value, results ignored.
fn put_partial<'s>(g: &mut G, e: &mut Enc<'s, '_>, v: &'s V) {
    match v {
        V::Struct(l) => {
            if flow(e.structure()).is_ok() {
                let n = g.below(l.len() + 1);
                for v in &l[..n] {
                    put_partial(g, e, v);
                }
            }
        },
        V::Dict(k, _) => {
            if flow(e.dict()).is_ok() {
                put_partial(g, e, k);
            }
        },
        V::Arr(_, l) => {
            if flow(e.array()).is_ok() {
                for v in l {
                    put_partial(g, e, v);
                }
            }
        },
        V::Var(s, v) => {
            if flow(e.variant(s)).is_ok() {
                put_partial(g, e, v);
            }
        },
        V::Str(_) => {
            let _ = flow(e.string("garbage to be dropped"));
        },
        V::U64(_) => {
            let _ = flow(e.u64(u64::MAX));
        },
        V::U32(_) => {
            let _ = flow(e.u32(u32::MAX));
        },
        V::U16(_) => {
            let _ = flow(e.u16(u16::MAX));
        },
        V::Obj(_) => {
            let _ = flow(e.object("garbage"));
        },
        V::Sig(_) => {
            let _ = flow(e.signature("garbage"));
        },
    }
}

fn put_in<'s>(g: &mut G, e: &mut Enc<'s, '_>, v: &'s V, text: &'s [u8], _elem: bool, o: &mut Opts) -> Outcome {
    match v {
        V::U16(n) => step(e, o, "u16", &mut |e| flow(e.u16(*n))),
        V::U32(n) => step(e, o, "u32", &mut |e| flow(e.u32(*n))),
        V::U64(n) => step(e, o, "u64", &mut |e| flow(e.u64(*n))),
        V::Str(s) => step(e, o, "string", &mut |e| flow(e.string(s))),
        V::Obj(s) => step(e, o, "object", &mut |e| flow(e.object(s))),
        V::Sig(s) => step(e, o, "signature", &mut |e| flow(e.signature(s))),
        V::Var(s, v) => {
            let way = g.below(3);
            step(e, o, "variant", &mut |e| match way {
                0 => flow(e.variant(s)),
                1 => flow(e.variant_with(Mown::new_borrowed(s))),
                _ => flow(e.variant_with(Mown::new_owned(s.clone()))),
            })?;
            let t: Vec<u8> = s.to_string().into_bytes();
            // The text lives as long as the case.
            let t: &'static [u8] = TEXTS.with(|k| k.keep(t));
            put(g, e, v, t, false, o)?;
            bad_calls(g, e, At::Full, o, None)?;
            step(e, o, "close of a variant", &mut |e| flow(e.close()))
        },
        V::Arr(_, l) => {
            step(e, o, "array", &mut |e| flow(e.array()))?;
            for v in l {
                put(g, e, v, &text[1..], true, o)?;
            }
            if o.bad {
                bad_calls(g, e, At::Element(text[1]), o, Some(&text[1..]))?;
            }
            step(e, o, "close of an array", &mut |e| flow(e.close()))
        },
        V::Struct(l) => {
            step(e, o, "structure", &mut |e| flow(e.structure()))?;
            let mut rest = &text[1..];
            for v in l {
                let n = harness::sigref::complete(rest, 0).unwrap();
                put(g, e, v, &rest[..n], false, o)?;
                rest = &rest[n..];
            }
            bad_calls(g, e, At::Full, o, None)?;
            step(e, o, "close of a structure", &mut |e| flow(e.close()))
        },
        V::Dict(k, v) => {
            step(e, o, "dictionary entry", &mut |e| flow(e.dict()))?;
            put(g, e, k, &text[1..2], false, o)?;
            put(g, e, v, &text[2..text.len() - 1], false, o)?;
            bad_calls(g, e, At::Full, o, None)?;
            step(e, o, "close of a dictionary entry", &mut |e| flow(e.close()))
        },
    }
}

/// Texts of variant signatures, interned for good. Bounded by the variety of
/// signatures.
struct Texts(std::cell::RefCell<std::collections::HashSet<&'static [u8]>>);

impl Texts {
    fn keep(&self, t: Vec<u8>) -> &'static [u8] {
        let mut m = self.0.borrow_mut();
        if let Some(v) = m.get(&t[..]) {
            return v;
        }
        let v: &'static [u8] = Box::leak(t.into_boxed_slice());
        m.insert(v);
        v
    }
}

thread_local! {
    static TEXTS: Texts = Texts(Default::default());
}

fn encode(g: &mut G, nest: bool, bad: bool, faults: bool, large: bool) -> Outcome {
    let c = gen_case(g, large, if nest || bad { 5000 } else { 20000 });
    let initial = if g.chance(1, 3) { g.bytes(12) } else { vec![] };
    g.label_if(!initial.is_empty(), "output not empty");
    let scripted = faults || bad || g.bool();
    let mut o = Opts { nest, bad, sink: None, initial: initial.len(), refused: 0, nested: 0, abandoned: 0, faults: 0, log: vec![] };

    let mut vec = Vec::new();
    let mut out;
    let write: &mut dyn map::Write = if scripted {
        g.label("scripted output");
        out = Out::new(Script::gen(g, faults), &initial);
        o.sink = Some(out.sink.clone());
        &mut out
    } else {
        vec = initial.clone();
        if g.bool() {
            vec.reserve(g.size(0, 200));
        }
        &mut vec
    };

    let format = if c.be { dvar::Format::DVarBe } else { dvar::Format::DVarLe };
    let mut e = match g.below(5) {
        0 if c.be => Enc::new_be(&c.sig, write),
        0 => Enc::new_le(&c.sig, write),
        1 => Enc::with(Mown::new_borrowed(&c.sig), format, write),
        2 => {
            let f = if c.be { dbus::ende::Format::DVarBe } else { dbus::ende::Format::DVarLe };
            match dbus::ende::Enc::new(&c.sig, f, write) {
                dbus::ende::Enc::DVar(e) => e,
            }
        },
        _ => Enc::with(Mown::new_owned(c.sig.clone()), format, write),
    };
    put(g, &mut e, &c.value, &c.text, false, &mut o)?;
    bad_calls(g, &mut e, At::Done, &mut o, None)?;
    invisible(&o)?;
    e.commit().map_err(|e| format!("commit refused: {:?}", e))?;
    o.sink.as_ref().map(|s| s.commits.set(0));
    let seen = o.sink.as_ref().map(|s| s.out.borrow().len());
    if bad {
        o.initial = seen.unwrap_or(0);
        bad_calls(g, &mut e, At::Done, &mut o, None)?;
        for _ in 0..g.below(3) {
            e.commit().map_err(|e| format!("further commit refused: {:?}", e))?;
            g.label("committed again");
        }
        ensure_eq!(seen, o.sink.as_ref().map(|s| s.out.borrow().len()), "bytes added by a further commit");
    }
    drop(e);

    g.label_if(o.refused > 0, "with refused calls");
    g.label_if(o.nested > 0, "with nested encoders");
    g.label_if(o.abandoned > 0, "with abandoned encoders");
    g.label_if(o.faults > 0, "with output failures");
    if bad {
        g.nontrivial = o.refused + o.faults > 0;
    }
    if nest && !bad {
        g.nontrivial = o.nested > 0;
    }
    g.note(|| o.log.join(", "));

    let got = match &o.sink {
        Some(s) => s.out.borrow().clone(),
        None => vec,
    };
    ensure!(got.len() >= initial.len() && got[..initial.len()] == initial[..], "previous output changed: {}", hex(&got));
    same(&got[initial.len()..], &c.bytes)
}

fn encode_flat(g: &mut G) -> Outcome {
    encode(g, false, false, false, false)
}

fn encode_flat_large(g: &mut G) -> Outcome {
    encode(g, false, false, false, true)
}

fn encode_refused(g: &mut G) -> Outcome {
    let nest = g.bool();
    let faults = g.bool();
    encode(g, nest, true, faults, false)
}

fn encode_refused_large(g: &mut G) -> Outcome {
    let nest = g.bool();
    let faults = g.bool();
    encode(g, nest, true, faults, true)
}

fn encode_nested(g: &mut G) -> Outcome {
    let bad = g.chance(1, 3);
    encode(g, true, bad, false, false)
}

fn encode_nested_large(g: &mut G) -> Outcome {
    let bad = g.chance(1, 3);
    encode(g, true, bad, false, true)
}

// ---------------------------------------------------------------------------
// Decoding

type Dec<'s, 'r> = dvar::Dec<'s, 'r>;

/// Arrays over q, s, g, or empty arrays over anything.
fn gen_dec_case(g: &mut G, large: bool) -> Case {
    let n = if large && g.chance(1, 3) { *g.pick(&[20usize, 70, 260]) } else { g.small(4) };
    let mut text = vec![b'a'; n];
    if !text.is_empty() && g.chance(1, 4) {
        // never any elements
        text.extend(harness::sigref::gen_valid(g));
    } else {
        text.push(*g.pick(b"qsg"));
    }
    let mut budget = if large { *g.pick(&[300, 1000, 3000, 8000]) } else { 30 };
    let only = text.iter().all(|c| b"aqsg".contains(c));
    let (value, _) = if only {
        gen_value(g, &text, &mut budget, if large { 1000 } else { 6 })
    } else {
        let n = text.iter().take_while(|c| **c == b'a').count();
        (gen_empty(g, &text, n, &mut budget), &text[..0])
    };
    let be = g.bool();
    let mut bytes = Vec::new();
    reference(&mut bytes, be, &value);
    let sig = Sig::arc(&text).unwrap();
    g.label(if be { "big endian" } else { "little endian" });
    g.label_if(!only, "empty array of another type");
    g.label_if(nodes(&value) > 4096, "more than 4096 values");
    g.label_if(bytes.len() > 65536, "more than 65536 bytes");
    g.label_if(large && depth(&value) > 16, "more than 16 levels");
    g.label_if(text.len() > 2 && only, "nested arrays");
    g.nontrivial_if(nodes(&value) > 2);
    g.note(|| format!("{} {} {:?}", if be { "be" } else { "le" }, String::from_utf8_lossy(&text), short(&value)));
    Case { text, sig, value, be, bytes }
}

/// `n` levels of arrays, the innermost without elements.
fn gen_empty(g: &mut G, t: &[u8], n: usize, budget: &mut usize) -> V {
    let mut v = Vec::new();
    if n > 1 {
        for _ in 0..g.small(3) {
            if *budget > 0 {
                *budget -= 1;
                v.push(gen_empty(g, &t[1..], n - 1, budget));
            }
        }
    }
    V::Arr(align_of(t[1]), v)
}

struct Reads {
    failed: Rc<std::cell::Cell<u64>>,
    bad: bool,
    nest: bool,
    refused: usize,
    nested: usize,
    abandoned: usize,
    faults: usize,
}

fn dec_bad(g: &mut G, d: &mut Dec<'_, '_>, at: At, r: &mut Reads, whole: Option<&[u8]>) -> Outcome {
    if !r.bad {
        return Ok(());
    }
    while g.chance(1, 3) {
        let here = match at {
            At::Value(c) | At::Element(c) => c,
            _ => 0,
        };
        let mut n = 4711u16;
        let mut s = String::from("untouched");
        let op = g.below(8);
        let (name, want, got): (&str, dbus::Error, Res) = match op {
            0 if here != b'q' => ("u16", dbus::Error::Mismatch, flow(d.u16(&mut n))),
            1 if here != b's' => ("string", dbus::Error::Mismatch, flow(d.string(&mut s))),
            2 if here != b'g' => ("signature", dbus::Error::Mismatch, flow(d.signature(&mut s))),
            3 if here != b'a' => ("array", dbus::Error::Mismatch, flow(d.array())),
            4 if matches!(at, At::Value(_) | At::Done) => ("close", dbus::Error::Mismatch, flow(d.close())),
            5 if at != At::Done => ("commit", dbus::Error::Pending, d.commit().map_err(Some)),
            6 if here == 0 => ("nested", dbus::Error::Mismatch, d.dec().map(|_| ()).map_err(Some)),
            7 => {
                let Some(t) = other_type(g, whole) else {
                    continue;
                };
                ("nested with", dbus::Error::Mismatch, d.dec_with(Mown::new_owned(t)).map(|_| ()).map_err(Some))
            },
            _ => continue,
        };
        r.refused += 1;
        ensure_eq!(got, Err(Some(want)), "call {} that does not fit", name);
        ensure!(n == 4711 && s == "untouched", "refused {} delivered data", name);
    }
    Ok(())
}

fn dec_step<'s, 'w>(d: &mut Dec<'s, 'w>, r: &mut Reads, name: &str, f: &mut dyn FnMut(&mut Dec<'s, 'w>) -> Res) -> Outcome {
    let mut tries = 0;
    loop {
        let before = r.failed.get();
        let v = f(d);
        let failed = r.failed.get() != before;
        match v {
            Ok(()) => {
                ensure!(!failed, "{} succeeded though the input failed", name);
                return Ok(());
            },
            Err(e) => {
                ensure!(failed, "{} refused: {:?}", name, e);
                ensure!(matches!(e, None | Some(dbus::Error::Io(_))), "{} on failing input: {:?}", name, e);
                r.faults += 1;
                tries += 1;
                ensure!(tries < 100, "{} does not recover", name);
            },
        }
    }
}

fn get(g: &mut G, d: &mut Dec<'_, '_>, v: &V, text: &[u8], elem: bool, r: &mut Reads) -> Outcome {
    let c = code_of(v);
    dec_bad(g, d, if elem { At::Element(c) } else { At::Value(c) }, r, Some(text))?;
    if r.nest && g.chance(1, 4) {
        r.nested += 1;
        if r.abandoned < 12 && g.chance(1, 3) {
            // given up
            r.abandoned += 1;
            let mut n = d.dec().map_err(|e| format!("nested decoder refused: {:?}", e))?;
            if g.bool() {
                get_in(g, &mut n, v, text, r)?;
            }
        }
        let mut n = if g.bool() {
            d.dec().map_err(|e| format!("nested decoder refused: {:?}", e))?
        } else {
            let s = Sig::arc(text).unwrap();
            d.dec_with(Mown::new_owned(s)).map_err(|e| format!("nested decoder refused: {:?}", e))?
        };
        ensure!(!n.more(), "more elements announced outside of arrays");
        get(g, &mut n, v, text, false, r)?;
        dec_bad(g, &mut n, At::Done, r, None)?;
        n.commit().map_err(|e| format!("nested commit refused: {:?}", e))?;
        return Ok(());
    }
    get_in(g, d, v, text, r)
}

fn get_in(g: &mut G, d: &mut Dec<'_, '_>, v: &V, text: &[u8], r: &mut Reads) -> Outcome {
    match v {
        V::U16(want) => {
            let mut n = !*want;
            dec_step(d, r, "u16", &mut |d| flow(d.u16(&mut n)))?;
            ensure_eq!(n, *want, "decoded number");
        },
        V::Str(want) => {
            let mut s = String::from("previous");
            dec_step(d, r, "string", &mut |d| flow(d.string(&mut s)))?;
            ensure_eq!(s, *want, "decoded string");
        },
        V::Sig(want) => {
            let mut s = String::from("previous");
            dec_step(d, r, "signature", &mut |d| flow(d.signature(&mut s)))?;
            ensure_eq!(s, *want, "decoded signature");
        },
        V::Arr(_, l) => {
            dec_step(d, r, "array", &mut |d| flow(d.array()))?;
            for (i, v) in l.iter().enumerate() {
                ensure!(d.more(), "no more elements announced at {} of {}", i, l.len());
                get(g, d, v, &text[1..], true, r)?;
            }
            ensure!(!d.more(), "more elements announced after all {}", l.len());
            dec_bad(g, d, At::Element(text[1]), r, Some(&text[1..]))?;
            dec_step(d, r, "close", &mut |d| flow(d.close()))?;
        },
        _ => unreachable!(),
    }
    Ok(())
}

fn decode(g: &mut G) -> Outcome {
    decode_sized(g, false)
}

fn decode_large(g: &mut G) -> Outcome {
    decode_sized(g, true)
}

fn decode_sized(g: &mut G, large: bool) -> Outcome {
    let c = gen_dec_case(g, large);
    let mut bytes = c.bytes.clone();
    if g.chance(1, 3) {
        let b = g.bytes(10);
        bytes.extend(b);
        g.label("trailing bytes");
    }
    let faults = g.chance(1, 3);
    let mut input = In::new(Script::gen(g, faults), &bytes);
    let mut r = Reads { failed: input.failed.clone(), bad: g.bool(), nest: g.bool(), refused: 0, nested: 0, abandoned: 0, faults: 0 };
    let format = if c.be { dvar::Format::DVarBe } else { dvar::Format::DVarLe };
    let mut d = match g.below(4) {
        0 if c.be => Dec::new_be(&c.sig, &mut input),
        0 => Dec::new_le(&c.sig, &mut input),
        1 => Dec::with(Mown::new_borrowed(&c.sig), format, &mut input),
        2 => {
            let f = if c.be { dbus::ende::Format::DVarBe } else { dbus::ende::Format::DVarLe };
            match dbus::ende::Dec::new(&c.sig, f, &mut input) {
                dbus::ende::Dec::DVar(e) => e,
            }
        },
        _ => Dec::with(Mown::new_owned(c.sig.clone()), format, &mut input),
    };
    ensure!(!d.more(), "more elements announced before any array");
    get(g, &mut d, &c.value, &c.text, false, &mut r)?;
    ensure!(!d.more(), "more elements announced after the end");
    dec_bad(g, &mut d, At::Done, &mut r, None)?;
    d.commit().map_err(|e| format!("commit refused: {:?}", e))?;
    g.label_if(r.refused > 0, "with refused calls");
    g.label_if(r.nested > 0, "with nested decoders");
    g.label_if(r.faults > 0, "with input failures");
    Ok(())
}

/// Lengths that need more than 24 bits, both ways.
fn huge(g: &mut G) -> Outcome {
    let which = g.draw(6);
    let be = g.bool();
    let n = (1usize << 24) - 2 + g.below(5);
    let text = format!("(qa{}qs)", ["s", "q", "q", "t", "(qu)", "as"][which as usize]);
    let one = "0123456789abcdef".repeat(1 << 16);
    let inner = match which {
        0 => vec![V::Str(one.repeat(16)[..(1 << 24) - 20].into()), V::Str(String::new()), V::Str("x".repeat(n + 20 - (1 << 24)))],
        1 | 2 => (0..n / 2 + 1).map(|i| V::U16(i as u16)).collect(),
        3 => (0..n / 8 + 1).map(|i| V::U64(i as u64 * 0x1_0000_0001)).collect(),
        4 => (0..n / 8 + 1).map(|i| V::Struct(vec![V::U16(i as u16), V::U32(i as u32)])).collect(),
        _ => (0..5).map(|_| V::Arr(4, (0..4).map(|_| V::Str(one.clone())).collect())).collect(),
    };
    let align = [4, 2, 2, 8, 8, 4][which as usize];
    let value = V::Struct(vec![V::U16(1), V::Arr(align, inner), V::U16(2), V::Str("end".into())]);
    let sig = Sig::arc(text.as_bytes()).unwrap();
    let mut bytes = Vec::new();
    reference(&mut bytes, be, &value);
    let format = if be { dvar::Format::DVarBe } else { dvar::Format::DVarLe };
    let mut out = Vec::new();
    let mut o = Opts { nest: false, bad: false, sink: None, initial: 0, refused: 0, nested: 0, abandoned: 0, faults: 0, log: vec![] };
    let mut e = Enc::with(Mown::new_borrowed(&sig), format, &mut out);
    put(g, &mut e, &value, text.as_bytes(), false, &mut o)?;
    e.commit().map_err(|e| format!("commit refused: {:?}", e))?;
    drop(e);
    g.nontrivial_if(true);
    g.note(|| format!("{} of {} bytes", text, bytes.len()));
    same(&out, &bytes)
}

fn huge_decode(g: &mut G) -> Outcome {
    let which = g.draw(4);
    let be = g.bool();
    let n = (1usize << 24) - 2 + g.below(5);
    let text = ["s", "aq", "as", "aas"][which as usize];
    let one = "0123456789abcdef".repeat(1 << 16);
    let long = || V::Str(one.repeat(17)[..n].into());
    let value = match which {
        0 => long(),
        1 => V::Arr(2, (0..n / 2 + 1).map(|i| V::U16(i as u16)).collect()),
        2 => V::Arr(4, vec![V::Str("x".into()), long(), V::Str("y".into())]),
        _ => V::Arr(4, (0..5).map(|_| V::Arr(4, (0..4).map(|_| V::Str(one.clone())).collect())).collect()),
    };
    let sig = Sig::arc(text.as_bytes()).unwrap();
    let mut bytes = Vec::new();
    reference(&mut bytes, be, &value);
    let mut input = In::new(Script::plain(), &bytes);
    let mut r = Reads { failed: input.failed.clone(), bad: false, nest: false, refused: 0, nested: 0, abandoned: 0, faults: 0 };
    let format = if be { dvar::Format::DVarBe } else { dvar::Format::DVarLe };
    let mut d = Dec::with(Mown::new_borrowed(&sig), format, &mut input);
    get(g, &mut d, &value, text.as_bytes(), false, &mut r)?;
    ensure!(!d.more(), "more elements announced after the end");
    d.commit().map_err(|e| format!("commit refused: {:?}", e))?;
    g.nontrivial_if(true);
    g.note(|| format!("{} of {} bytes", text, bytes.len()));
    Ok(())
}

// ---------------------------------------------------------------------------
// Hostile data

/// Reference position of a decoder.
struct Pos<'a> {
    data: &'a [u8],
    be: bool,
    at: usize,
}

#[derive(Debug, PartialEq)]
enum Want<T> {
    /// well-formed and available
    Must(T),
    /// value if accepted, but accepting is not required
    May(T),
    Not,
}

impl<'a> Pos<'a> {
    /// Aligned position and whether the padding is clean.
    fn aligned(&self, n: usize) -> (usize, bool) {
        let to = self.at.next_multiple_of(n);
        let clean = (self.at..to).all(|i| self.data.get(i) == Some(&0));
        (to, clean)
    }

    fn num(&self, n: usize) -> Option<(usize, usize, bool)> {
        let (at, clean) = self.aligned(n);
        let b = self.data.get(at..at + n)?;
        let mut v = 0;
        for i in 0..n {
            let x = b[if self.be { i } else { n - 1 - i }];
            v = v << 8 | x as usize;
        }
        Some((v, at + n, clean))
    }

    fn u16(&self) -> (Want<u16>, usize) {
        match self.num(2) {
            None => (Want::Not, self.at),
            Some((v, at, true)) => (Want::Must(v as u16), at),
            Some((v, at, false)) => (Want::May(v as u16), at),
        }
    }

    fn text(&self, n: usize) -> (Want<&'a str>, usize) {
        let Some((len, at, clean)) = self.num(n) else { return (Want::Not, self.at) };
        let Some(b) = at.checked_add(len).and_then(|e| self.data.get(at..e)) else { return (Want::Not, self.at) };
        let Ok(s) = std::str::from_utf8(b) else { return (Want::Not, self.at) };
        let end = at + len;
        if clean && self.data.get(end) == Some(&0) {
            (Want::Must(s), end + 1)
        } else {
            (Want::May(s), end + 1)
        }
    }
}

fn hostile_bytes(g: &mut G, c: &Case, large: bool) -> Vec<u8> {
    let mut b = if large || g.chance(4, 5) { c.bytes.clone() } else { g.bytes(40) };
    if b.len() > 400 && !large {
        b.truncate(400);
    }
    for _ in 0..g.small(4) {
        match g.weighted(&[4, 4, 2, 2, 2]) {
            0 => {
                let n = g.below(b.len() + 1);
                b.truncate(n);
            },
            1 => {
                // a length field
                if b.len() >= 4 {
                    let i = g.below(b.len() / 4) * 4;
                    let v = match g.weighted(&[2, 2, 2, 2]) {
                        0 => g.uint(32) as u32,
                        1 => (b.len() as u32).wrapping_add(g.below(16) as u32).wrapping_sub(8 + i as u32),
                        2 => *g.pick(&[u32::MAX, u32::MAX - 1, 0x7fffffff, 0x80000000, 0x10000, 0x1000000, 0x40000000]),
                        _ => g.below(20) as u32,
                    };
                    let v = if c.be { v.to_be_bytes() } else { v.to_le_bytes() };
                    b[i..i + 4].copy_from_slice(&v);
                }
            },
            2 => {
                if !b.is_empty() {
                    let i = g.below(b.len());
                    b[i] = g.draw(256) as u8;
                }
            },
            3 => {
                let i = g.below(b.len() + 1);
                let v = g.draw(256) as u8;
                b.insert(i, v);
            },
            _ => {
                let x = g.bytes(8);
                b.extend(x);
            },
        }
    }
    b
}

fn mem_ok(n: usize, data: usize, what: &str) -> Outcome {
    ensure!(n <= 4 * data + 2048, "{} allocated {} bytes for {} bytes of data", what, n, data);
    Ok(())
}

fn hostile(g: &mut G) -> Outcome {
    hostile_sized(g, false)
}

fn hostile_large(g: &mut G) -> Outcome {
    hostile_sized(g, true)
}

fn hostile_sized(g: &mut G, large: bool) -> Outcome {
    let c = gen_dec_case(g, large);
    let data = hostile_bytes(g, &c, large);
    g.nontrivial = data.len() > 3 && data != c.bytes;
    g.label(if data == c.bytes { "unchanged" } else { "damaged" });
    g.note(|| hex(&data));
    let script = if g.bool() { Script::plain() } else { Script::gen(g, false) };
    let mut input = In::new(script, &data);
    let format = if c.be { dvar::Format::DVarBe } else { dvar::Format::DVarLe };
    let mut d = Dec::with(Mown::new_owned(c.sig.clone()), format, &mut input);
    let mut p = Pos { data: &data, be: c.be, at: 0 };

    // Ends of the open arrays, as claimed by the data.
    let mut open: Vec<usize> = Vec::new();
    let levels = c.text.iter().take_while(|v| **v == b'a').count();
    let base = if levels < c.text.len() { c.text[levels] } else { 0 };
    let mut done = false;
    let mut accepted = 0;
    let random = g.chance(1, 3);
    let mut fuel = 3000 + 2 * data.len();
    loop {
        fuel -= 1;
        if fuel == 0 {
            break;
        }
        // Elements remain exactly as claimed.
        if let Some(end) = open.last() {
            ensure_eq!(d.more(), p.at < *end, "more elements announced at {} of an array up to {}", p.at, end);
        }
        // Next call: either what a user would do, or anything.
        let user = if done {
            4
        } else if !open.is_empty() && p.at >= *open.last().unwrap() {
            4
        } else if open.len() < levels {
            3
        } else {
            match base {
                b'q' => 0,
                b's' => 1,
                b'g' => 2,
                _ => 4,
            }
        };
        if done && !random {
            break;
        }
        let op = if random && g.chance(1, 2) {
            if g.draw(12) == 0 {
                break;
            }
            g.below(7)
        } else {
            user
        };
        let fits = !done && match op {
            0 => open.len() == levels && base == b'q',
            1 => open.len() == levels && base == b's',
            2 => open.len() == levels && base == b'g',
            3 => open.len() < levels,
            4 => !open.is_empty(),
            _ => false,
        };
        alloc_meter::start();
        let live = alloc_meter::live();
        match op {
            0 => {
                let mut n = 0;
                let r = flow(d.u16(&mut n));
                mem_ok(alloc_meter::largest(), data.len() + 64 * levels, "number")?;
                if !fits {
                    ensure_eq!(r, Err(Some(dbus::Error::Mismatch)), "number out of place");
                    continue;
                }
                let (w, at) = p.u16();
                match (&r, &w) {
                    (Ok(()), Want::Must(v) | Want::May(v)) => {
                        ensure_eq!(n, *v, "number decoded at {}", p.at);
                        p.at = at;
                        accepted += 1;
                    },
                    (Err(_), Want::May(_) | Want::Not) => {
                        g.label("refused");
                        if !random { break } else { continue }
                    },
                    _ => return Err(format!("number at {}: got {:?}, expected {:?}", p.at, r, w)),
                }
            },
            1 | 2 => {
                let mut s = String::new();
                let r = if op == 1 { flow(d.string(&mut s)) } else { flow(d.signature(&mut s)) };
                mem_ok(alloc_meter::largest(), data.len() + 64 * levels, "text")?;
                ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "text is not UTF-8: {:?}", s.as_bytes());
                if !fits {
                    ensure_eq!(r, Err(Some(dbus::Error::Mismatch)), "text out of place");
                    continue;
                }
                let (w, at) = p.text(if op == 1 { 4 } else { 1 });
                match (&r, &w) {
                    (Ok(()), Want::Must(v) | Want::May(v)) => {
                        ensure_eq!(s, *v, "text decoded at {}", p.at);
                        p.at = at;
                        accepted += 1;
                    },
                    (Err(_), Want::May(_) | Want::Not) => {
                        g.label("refused");
                        if !random { break } else { continue }
                    },
                    _ => return Err(format!("text at {}: got {:?}, expected {:?}", p.at, r, w)),
                }
            },
            3 => {
                let r = flow(d.array());
                mem_ok(alloc_meter::largest(), data.len() + 64 * levels, "array")?;
                if !fits {
                    ensure_eq!(r, Err(Some(dbus::Error::Mismatch)), "array out of place");
                    continue;
                }
                match (r, p.num(4)) {
                    (Ok(()), Some((n, at, _))) => {
                        p.at = at;
                        let a = align_of(c.text[open.len() + 1]);
                        p.at = p.aligned(a).0;
                        open.push(p.at.saturating_add(n));
                        g.label_if(p.at.saturating_add(n) > data.len(), "array beyond the data");
                        accepted += 1;
                    },
                    // A claimed end beyond the data may be refused at once.
                    (Err(_), Some((n, at, clean))) => {
                        let a = align_of(c.text[open.len() + 1]);
                        let q = Pos { data: &data, be: c.be, at };
                        let (to, clean2) = q.aligned(a);
                        ensure!(!clean || !clean2 || to.saturating_add(n) > data.len(), "array at {} refused", p.at);
                        g.label("refused");
                        if !random { break } else { continue }
                    },
                    (Err(_), None) => {
                        g.label("refused");
                        if !random { break } else { continue }
                    },
                    (Ok(()), None) => return Err(format!("array at {} accepted beyond the data", p.at)),
                }
            },
            4 => {
                let r = flow(d.close());
                if !fits {
                    ensure_eq!(r, Err(Some(dbus::Error::Mismatch)), "close out of place");
                    continue;
                }
                let end = *open.last().unwrap();
                match r {
                    Ok(()) => {
                        open.pop();
                        accepted += 1;
                        if p.at != end {
                            // Where this resumes is not specified.
                            g.label("closed elsewhere");
                            break;
                        }
                        if open.is_empty() {
                            done = true;
                        }
                    },
                    Err(e) => {
                        ensure!(p.at != end, "close at the end refused: {:?}", e);
                        g.label("refused");
                        break;
                    },
                }
            },
            5 => {
                let r = d.commit();
                if done {
                    ensure_eq!(r, Ok(()), "commit at the end");
                } else {
                    ensure_eq!(r, Err(dbus::Error::Pending), "early commit");
                }
            },
            _ => {
                let r = d.dec().map(|_| ());
                ensure_eq!(r.is_ok(), !done, "nested decoder");
            },
        }
        ensure!(alloc_meter::live() - live <= (4 * data.len() + 4096 + 256 * levels) as isize, "memory held after a call");
        if levels == 0 {
            done = done || accepted > 0;
        }
        // Every accepted element moves on, so a user's loop ends.
        ensure!(p.at <= data.len() + 8, "decoder moved to {} of {} bytes", p.at, data.len());
    }
    ensure!(random || fuel > 0, "decoder does not come to an end");
    g.label_if(accepted > 1, "two or more accepted calls");
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C40",
            facets: vec![
                Facet::new("values", 1_200_000, 4_000_000, encode_flat, "three or more values"),
                Facet::new("large", 12_000, 300_000, encode_flat_large, "three or more values").shrinks(3000),
                Facet::all("huge", 6, huge, "over 2^24 bytes").shrinks(10),
            ],
            assumptions: vec!["types without an encoding function only occur as element type of empty arrays", "no empty structures", "strings and arrays up to 16 MiB"],
        },
        Property {
            id: "C41",
            facets: vec![
                Facet::new("histories", 1_200_000, 8_000_000, encode_refused, "a refused call or an output failure"),
                Facet::new("large", 12_000, 300_000, encode_refused_large, "a refused call or an output failure").shrinks(3000),
            ],
            assumptions: vec!["strings beyond 4 GiB are not generated"],
        },
        Property {
            id: "C42",
            facets: vec![
                Facet::new("cuts", 1_200_000, 4_000_000, encode_nested, "a nested encoder"),
                Facet::new("large", 12_000, 300_000, encode_nested_large, "a nested encoder").shrinks(3000),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C43",
            facets: vec![
                Facet::new("round trip", 1_200_000, 5_000_000, decode, "three or more values"),
                Facet::new("large", 12_000, 300_000, decode_large, "three or more values").shrinks(3000),
                Facet::all("huge", 4, huge_decode, "over 2^24 bytes").shrinks(10),
            ],
            assumptions: vec!["decodable types are numbers of 16 bits, strings, signatures, and arrays"],
        },
        Property {
            id: "C44",
            facets: vec![
                Facet::new("damaged", 2_000_000, 8_000_000, hostile, "damaged data of four or more bytes"),
                Facet::new("large", 12_000, 300_000, hostile_large, "damaged data of four or more bytes").shrinks(3000),
            ],
            assumptions: vec!["memory is measured as the largest allocation of a call, up to 4 times the data plus 2 KiB, and 256 bytes per level of the type"],
        },
    ])
}
