//! C54 to C57: what the compiler makes of programs.
//!
//! C54: programs that misuse brands and handles are rejected. Every case generates a program twice, once using the interface as intended
//! and once with a single misuse. The compiler decides: the first must be
//! accepted, the second rejected. For variance and thread-safety the expected
//! answer comes from a model computed over a randomly composed type.
//!
//! C55: markers, brands and the never type exist at compile time only. C56:
//! cascading conditions. C57: coercions the borrow checker does not see.

#![allow(unexpected_cfgs)]

use std::cell::RefCell;
use std::io::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use harness::{ensure, Facet, Outcome, Property, G};

const PRELUDE: &str = "
use core::cell::Cell;
use core::pin::Pin;
use osi::brand::{unique, Id, Unique};
use osi::convert::{FromDeref, IntoDeref};
use osi::marker::{PhantomInvariant, PhantomInvariantLifetime};
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};
use osi::test::{ContravariantType, CovariantType, InvariantType, SubType, SuperType};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
pub struct Wrap<T>(pub T);
#[derive(Clone, Debug, Default, PartialEq)]
pub struct User { pub n: u32, pub s: String }
fn touch<T: ?Sized>(_: &T) {}
fn take<T>(_: T) {}
fn pass<T>(v: T) -> T { v }
fn same<T>(_: T, _: T) {}
fn yes() -> bool { true }
fn need_static<T: 'static>(_: T) {}
fn need_clone<T: Clone>() {}
fn need_copy<T: Copy>() {}
fn need_default<T: Default>() {}
fn need_send<T: Send + ?Sized>() {}
fn need_sync<T: Sync + ?Sized>() {}
fn run_fn<F: Fn()>(f: F) { f() }
fn run_mut<F: FnMut()>(mut f: F) { f() }
fn run_once<F: FnOnce()>(f: F) { f() }
";

/// What is known about the compiler and the libraries.
struct Setup {
    rustc: PathBuf,
    osi: String,
    dir: PathBuf,
}

fn broken(msg: &str) -> ! {
    eprintln!("harness: {}", msg);
    std::process::exit(70);
}

fn setup() -> &'static Setup {
    static S: OnceLock<Setup> = OnceLock::new();
    S.get_or_init(|| {
        let out = match Command::new("rustc").args(["--print", "sysroot"]).output() {
            Ok(v) if v.status.success() => v.stdout,
            _ => broken("no compiler"),
        };
        let rustc = PathBuf::from(String::from_utf8_lossy(&out).trim()).join("bin/rustc");
        let Ok(osi) = std::env::var("HARNESS_LIB_OSI") else {
            broken("HARNESS_LIB_OSI is not set");
        };
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".to_string());
        let dir = PathBuf::from(verif).join("target/programs");
        Setup { rustc, osi, dir }
    })
}

thread_local! {
    static OUT: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

fn out_dir() -> PathBuf {
    OUT.with(|o| {
        o.borrow_mut()
            .get_or_insert_with(|| {
                let id = format!("{}-{:?}", std::process::id() % 64, std::thread::current().id());
                let id: String = id.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
                let d = setup().dir.join(id);
                if std::fs::create_dir_all(&d).is_err() {
                    broken("cannot create the output directory");
                }
                d
            })
            .clone()
    })
}

/// Whether the compiler accepts a program, and what it said.
fn accepts(text: &str) -> (bool, String) {
    accepts_cfg(text, &[])
}

fn accepts_cfg(text: &str, cfg: &[String]) -> (bool, String) {
    let s = setup();
    let child = Command::new(&s.rustc)
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "program", "--emit", "metadata"])
        .args(["-A", "warnings", "--error-format", "short", "--extern"])
        .arg(format!("osi={}", s.osi))
        .arg("--out-dir")
        .arg(out_dir())
        .args(cfg.iter().flat_map(|c| ["--cfg", c]))
        .arg("-")
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut child) = child else { broken("cannot run the compiler") };
    if child.stdin.take().expect("stdin").write_all(text.as_bytes()).is_err() {
        broken("cannot feed the compiler");
    }
    let Ok(out) = child.wait_with_output() else { broken("cannot wait for the compiler") };
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    match out.status.code() {
        Some(0) => (true, err),
        Some(1) => {
            for k in ["internal compiler error", "can't find crate", "No space left", "couldn't create", "failed to", "could not write"] {
                if err.contains(k) {
                    broken(&err);
                }
            }
            (false, err)
        },
        _ => broken(&format!("the compiler ended abnormally: {}", err)),
    }
}

/// The two programs of a case, and a short name of the misuse.
struct Pair {
    name: String,
    good: String,
    bad: String,
}

fn indent(s: &str) -> String {
    s.lines().map(|l| format!("    {}", l)).collect::<Vec<_>>().join("\n")
}

fn check_pair(g: &mut G, p: Pair) -> Outcome {
    let good = format!("{}{}", PRELUDE, p.good);
    let bad = format!("{}{}", PRELUDE, p.bad);
    g.label(&p.name);
    g.note(|| format!("intended use:\n{}", indent(&p.good)));
    g.note(|| format!("misuse ({}):\n{}", p.name, indent(&p.bad)));
    g.nontrivial_if(p.good != p.bad);
    let (ok, why) = accepts(&good);
    ensure!(ok, "the intended use next to `{}` is rejected: {}", p.name, why.lines().next().unwrap_or(""));
    let (ok, _) = accepts(&bad);
    ensure!(!ok, "a program with this misuse is accepted: {}", p.name);
    Ok(())
}

/// One program with a known answer.
fn check_one(g: &mut G, name: &str, text: &str, expect: bool) -> Outcome {
    g.note(|| format!("{}, to be {}:\n{}", name, if expect { "accepted" } else { "rejected" }, indent(text)));
    g.label(if expect { "to be accepted" } else { "to be rejected" });
    let (ok, why) = accepts(&format!("{}{}", PRELUDE, text));
    if expect {
        ensure!(ok, "{}: a valid program is rejected: {}", name, why.lines().next().unwrap_or(""));
    } else {
        ensure!(!ok, "{}: an invalid program is accepted", name);
    }
    Ok(())
}

/// Carry a value through some expressions that hand it on unchanged.
fn carry(g: &mut G, e: &str) -> String {
    let mut e = e.to_string();
    for _ in 0..g.small(3) {
        e = match g.below(12) {
            0 => format!("pass({})", e),
            1 => format!("({}, 7u8).0", e),
            2 => format!("Some({}).unwrap()", e),
            3 => format!("vec![{}].pop().unwrap()", e),
            4 => format!("*Box::new({})", e),
            5 => format!("{{ let t = {}; t }}", e),
            6 => format!("(|| {})()", e),
            7 => format!("Wrap({}).0", e),
            8 => format!("match {} {{ t => t }}", e),
            9 => format!("if yes() {{ {} }} else {{ panic!() }}", e),
            10 => format!("Ok::<_, ()>({}).unwrap()", e),
            _ => format!("core::iter::once({}).next().unwrap()", e),
        };
    }
    // Parentheses keep the result usable as a receiver or an operand.
    if e.contains(' ') || e.starts_with('*') {
        e = format!("({})", e);
    }
    e
}

/// A statement that has nothing to do with the case.
fn noise(g: &mut G) -> String {
    let n = g.small(2);
    let mut r = String::new();
    for _ in 0..n {
        r.push_str(match g.below(5) {
            0 => "let _noise = 5u8; ",
            1 => "touch(&[1, 2, 3]); ",
            2 => "if yes() { take(String::new()); } ",
            3 => "for i in 0..3 { touch(&i); } ",
            _ => "let _noise = |x: u8| x; ",
        });
    }
    r
}

/// A target type with an expression of it.
fn target(g: &mut G) -> (&'static str, &'static str) {
    *g.pick(&[
        ("i32", "71i32"),
        ("String", "String::from(\"abc\")"),
        ("[u8; 4]", "[1u8, 2, 3, 4]"),
        ("Vec<u8>", "vec![1u8, 2]"),
        ("(u8, u16)", "(1u8, 2u16)"),
        ("Box<i32>", "Box::new(5i32)"),
        ("User", "User::default()"),
        ("Option<String>", "Some(String::new())"),
        ("fn()", "(|| ()) as fn()"),
        ("Cell<i32>", "Cell::new(3i32)"),
    ])
}

/// Nest the scopes of `n` brands `u0`..., with their identifiers `i0`...
fn scopes(g: &mut G, n: usize, ids: bool, body: &str) -> String {
    let mut s = String::new();
    for k in 0..n {
        s.push_str(&format!("unique(|u{}| {{ {}", k, noise(g)));
        if ids {
            let c = carry(g, &format!("u{}", k));
            match g.below(3) {
                0 => s.push_str(&format!("let i{}: Id<'_> = {}.into(); ", k, c)),
                1 => s.push_str(&format!("let i{} = Id::from({}); ", k, c)),
                _ => s.push_str(&format!("let i{}: Id = From::from({}); ", k, c)),
            }
        }
    }
    s.push_str(body);
    for _ in 0..n {
        s.push_str(" })");
    }
    s
}

const KEYED: &str = "
#[derive(Clone, Copy, PartialEq)]
pub struct Key<'b> { id: Id<'b>, n: usize }
pub struct Arena<'b> { id: Id<'b>, v: Vec<u8> }
impl<'b> Arena<'b> {
    pub fn new(id: Id<'b>) -> Self { Arena { id, v: vec![0] } }
    pub fn key(&self) -> Key<'b> { Key { id: self.id, n: 0 } }
    pub fn get(&self, k: Key<'b>) -> &u8 { &self.v[k.n] }
    pub fn join(&mut self, o: &Arena<'b>) { self.v.extend_from_slice(&o.v); }
}
fn same_id<'b>(_: Id<'b>, _: Id<'b>) {}
fn same_unique<'b>(_: &Unique<'b>, _: &Unique<'b>) {}
trait Tied<'b> { fn tie(&self, _: Id<'b>) {} }
impl<'b> Tied<'b> for Arena<'b> {}
";

/// Two different brands meet where the same brand is needed.
fn mix(g: &mut G) -> Outcome {
    let n = g.size(2, 4);
    let i = g.below(n);
    let mut j = g.below(n - 1);
    if j >= i {
        j += 1;
    }
    let ids = g.chance(3, 4);
    // Text with X and Y; the intended use has the same brand for both.
    let (name, text) = if ids {
        *g.pick(&[
            ("comparing identifiers of two brands", "touch(&(X == Y));"),
            ("ordering identifiers of two brands", "touch(&(X < Y));"),
            ("ordering identifiers of two brands by call", "touch(&X.cmp(&Y));"),
            ("an array with two brands", "touch(&[X, Y]);"),
            ("a vector with two brands", "touch(&vec![X, Y]);"),
            ("one type parameter for two brands", "same(X, Y);"),
            ("one type parameter for references to two brands", "same(&X, &Y);"),
            ("one type parameter for options of two brands", "same(Some(X), Some(Y));"),
            ("one lifetime parameter for two brands", "same_id(X, Y);"),
            ("assigning a different brand", "let mut m = X; touch(&m); m = Y; touch(&m);"),
            ("branches with two brands", "let m = if yes() { X } else { Y }; touch(&m);"),
            ("match arms with two brands", "let m = match 1u8 { 1 => X, _ => Y }; touch(&m);"),
            ("a cell with two brands", "let m = Cell::new(X); m.set(Y);"),
            ("a set with two brands", "let mut m = std::collections::HashSet::new(); m.insert(X); m.insert(Y);"),
            ("an option with two brands", "let mut m = Some(X); m.replace(Y);"),
            ("a pushed identifier of a different brand", "let mut m = vec![X]; m.push(Y);"),
            ("swapping two brands", "let (mut a, mut b) = (X, Y); core::mem::swap(&mut a, &mut b);"),
            ("a closure called with two brands", "let f = |v| touch(&v); f(X); f(Y);"),
            ("a key of a different arena", "let a = Arena::new(X); let b = Arena::new(Y); touch(a.get(b.key()));"),
            ("joining different arenas", "let mut a = Arena::new(X); let b = Arena::new(Y); a.join(&b);"),
            ("comparing keys of different arenas", "let a = Arena::new(X); let b = Arena::new(Y); touch(&(a.key() == b.key()));"),
            ("a key built with a different brand", "let a = Arena::new(X); touch(a.get(Key { id: Y, n: 0 }));"),
            ("replacing an arena by one of a different brand", "let mut a = Arena::new(X); let b = Arena::new(Y); a = b; touch(&a);"),
            ("a trait tied to a different brand", "let a = Arena::new(X); a.tie(Y);"),
            ("a function pointer taking two brands", "let f = if yes() { take as fn(_) } else { panic!() }; f(X); f(Y);"),
        ])
    } else {
        *g.pick(&[
            ("comparing two brands", "touch(&(X == Y));"),
            ("ordering two brands", "touch(&(X <= Y));"),
            ("an array of references to two brands", "touch(&[&X, &Y]);"),
            ("one type parameter for two unique brands", "same(&X, &Y);"),
            ("one lifetime parameter for two unique brands", "same_unique(&X, &Y);"),
            ("branches with two unique brands", "let m = if yes() { &X } else { &Y }; touch(m);"),
            ("the larger of two brands", "touch(core::cmp::max(&X, &Y));"),
        ])
    };
    let (x, y) = if ids {
        (carry(g, &format!("i{}", i)), carry(g, &format!("i{}", j)))
    } else {
        (format!("u{}", i), format!("u{}", j))
    };
    let x2 = if ids { y.replace(&format!("i{}", j), &format!("i{}", i)) } else { x.clone() };
    let good = text.replace('X', "\u{1}").replace('Y', &x2).replace('\u{1}', &x);
    let bad = text.replace('X', "\u{1}").replace('Y', &y).replace('\u{1}', &x);
    let frame = scopes(g, n, ids, "@");
    let wrap = |b: &str| format!("{}pub fn program() {{ {} }}\n", KEYED, frame.replace('@', b));
    check_pair(g, Pair { name: name.to_string(), good: wrap(&good), bad: wrap(&bad) })
}

/// A brand gets out of the scope it was created for.
fn leak(g: &mut G) -> Outcome {
    let what = *g.pick(&["u0", "Id::from(u0)"]);
    let v = carry(g, what);
    let n = noise(g);
    let (name, good, bad): (&str, String, String) = match g.below(13) {
        0 => {
            let w = *g.pick(&["V", "Some(V)", "vec![V]", "Box::new(V)", "(V, 1u8)", "Ok::<_, ()>(V)", "Wrap(V)", "[V]", "Cell::new(V)"]);
            (
                "returning a brand from its scope",
                format!("let r = unique(|u0| {{ {}let v = {}; touch(&v); 1u8 }}); touch(&r);", n, w.replace('V', &v)),
                format!("let r = unique(|u0| {{ {}let v = {}; touch(&v); v }}); touch(&r);", n, w.replace('V', &v)),
            )
        },
        1 => (
            "storing a brand outside of its scope",
            format!("let mut out = None; unique(|u0| {{ {}touch(&{}); out = Some(1u8); }}); touch(&out);", n, v),
            format!("let mut out = None; unique(|u0| {{ {}out = Some({}); }}); touch(&out);", n, v),
        ),
        2 => (
            "pushing a brand out of its scope",
            format!("let mut out = Vec::new(); unique(|u0| {{ {}touch(&{}); out.push(1u8); }}); touch(&out);", n, v),
            format!("let mut out = Vec::new(); unique(|u0| {{ {}out.push({}); }}); touch(&out);", n, v),
        ),
        3 => (
            "sending a brand out of its scope",
            format!("let (tx, rx) = std::sync::mpsc::channel(); unique(|u0| {{ {}touch(&{}); tx.send(1u8).ok(); }}); touch(&rx);", n, v),
            format!("let (tx, rx) = std::sync::mpsc::channel(); unique(|u0| {{ {}tx.send({}).ok(); }}); touch(&rx);", n, v),
        ),
        4 => (
            "a brand that lives forever",
            format!("unique(|u0| {{ {}let v = {}; touch(&v); need_static(1u8); }});", n, v),
            format!("unique(|u0| {{ {}let v = {}; need_static(v); }});", n, v),
        ),
        5 => (
            "naming the brand static",
            format!("unique(|u0| {{ {}let v: Id<'_> = {}.into(); touch(&v); }});", n, carry(g, "u0")),
            format!("unique(|u0| {{ {}let v: Id<'static> = {}.into(); touch(&v); }});", n, carry(g, "u0")),
        ),
        6 => (
            "a brand moved into a detached thread",
            format!("unique(|u0| {{ {}let v = {}; std::thread::scope(|s| {{ s.spawn(move || touch(&v)); }}); }});", n, v),
            format!("unique(|u0| {{ {}let v = {}; std::thread::spawn(move || touch(&v)); }});", n, v),
        ),
        7 => (
            "a boxed closure holding a brand",
            format!("let f: Box<dyn Fn()> = unique(|u0| {{ {}let v = {}; touch(&v); Box::new(move || ()) as Box<dyn Fn()> }}); f();", n, v),
            format!("let f: Box<dyn Fn()> = unique(|u0| {{ {}let v = {}; Box::new(move || touch(&v)) as Box<dyn Fn()> }}); f();", n, v),
        ),
        8 => (
            "an operation that asks for a static brand",
            "fn op<'b>(v: Unique<'b>) { touch(&v); } unique(op);".to_string(),
            "fn op(v: Unique<'static>) { touch(&v); } unique(op);".to_string(),
        ),
        9 => (
            "an operation that chooses the brand",
            "fn out<'x>(_: &'x u8) { fn op<'b>(v: Unique<'b>) { touch(&v); } unique(op); } out(&1);".to_string(),
            "fn out<'x>(_: &'x u8) { let op = |v: Unique<'x>| touch(&v); unique(op); } out(&1);".to_string(),
        ),
        10 => (
            "a scope returning its own brand",
            "fn out() -> u8 { unique(|u0| { touch(&u0); 1u8 }) } touch(&out());".to_string(),
            "fn out<'x>() -> Unique<'x> { unique(|u0| u0) } touch(&out());".to_string(),
        ),
        11 => (
            "an identifier of an outer brand replaced from the inside",
            "unique(|u0| { let mut o = Id::from(u0); let k = o; unique(|u1| { touch(&u1); o = k; }); touch(&o); });".to_string(),
            "unique(|u0| { let mut o = Id::from(u0); let k = o; unique(|u1| { touch(&k); o = u1.into(); }); touch(&o); });".to_string(),
        ),
        _ => (
            "a brand hidden behind an untyped box",
            format!("unique(|u0| {{ {}let v = {}; touch(&v); let b: Box<dyn core::any::Any> = Box::new(1u8); touch(&b); }});", n, v),
            format!("unique(|u0| {{ {}let v = {}; let b: Box<dyn core::any::Any> = Box::new(v); touch(&b); }});", n, v),
        ),
    };
    check_pair(g, Pair { name: name.to_string(), good: format!("pub fn program() {{ {} }}\n", good), bad: format!("pub fn program() {{ {} }}\n", bad) })
}

/// A brand comes into being without a scope, or exists twice.
fn forge(g: &mut G) -> Outcome {
    let u = carry(g, "u0");
    let n = noise(g);
    let (name, good, bad): (&str, String, String) = match g.below(16) {
        0 => ("a default identifier", "touch(&i0);".into(), "let f: Id<'_> = Default::default(); same(f, i0);".into()),
        1 => ("an identifier from its parts", "touch(&i0);".into(), "let f = Id { _brand: Default::default() }; same(f, i0);".into()),
        2 => ("an identifier from a marker", "touch(&i0);".into(), "let f: Id<'_> = PhantomInvariantLifetime::new().into(); same(f, i0);".into()),
        3 => ("a brand from an identifier", "let f: Id<'_> = i0.into(); touch(&f);".into(), "let f: Unique<'_> = i0.into(); touch(&f);".into()),
        4 => ("a brand from its parts", "touch(&i0);".into(), "let f = Unique { id: i0 }; touch(&f);".into()),
        5 => ("a default brand", "need_default::<u8>(); touch(&i0);".into(), "need_default::<Unique<'static>>(); touch(&i0);".into()),
        6 => ("a default static identifier", "need_default::<u8>(); touch(&i0);".into(), "need_default::<Id<'static>>(); touch(&i0);".into()),
        7 => ("a cloned brand", "need_clone::<Id<'_>>();".into(), "need_clone::<Unique<'_>>();".into()),
        8 => ("a copied brand", "need_copy::<Id<'_>>();".into(), "need_copy::<Unique<'_>>();".into()),
        9 => ("zeroed memory as a brand", "touch(&i0);".into(), "let f: Id<'_> = core::mem::zeroed(); same(f, i0);".into()),
        10 => ("an identifier from nothing", "touch(&i0);".into(), "let f: Id<'_> = ().into(); same(f, i0);".into()),
        11 => ("the marker inside an identifier", "touch(&i0);".into(), "touch(&i0._brand);".into()),
        _ => {
            // The same brand handed out twice.
            let second = *g.pick(&["let j: Id<'_> = u0.into(); touch(&j);", "take(u0);", "touch(&u0);", "touch(&Id::from(u0));", "let w = Wrap(u0); touch(&w);", "run_once(|| take(u0));"]);
            let first = *g.pick(&["let j: Id<'_> = @.into(); touch(&j);", "take(@);", "touch(&Id::from(@));", "let w = Wrap(@); touch(&w);"]);
            let first = first.replace('@', &u);
            let name = "a brand used again after it was given away";
            let good = format!("pub fn program() {{ unique(|u0| {{ {}{} }}); unique(|u0| {{ {} }}); }}\n", n, first, second);
            let bad = format!("pub fn program() {{ unique(|u0| {{ {}{} {} }}); unique(|u0| {{ take(u0); }}); }}\n", n, first, second);
            return check_pair(g, Pair { name: name.to_string(), good, bad });
        },
    };
    let frame = scopes(g, 1, true, "@");
    let wrap = |b: &str| format!("pub fn program() {{ {} }}\n", frame.replace('@', b));
    check_pair(g, Pair { name: name.to_string(), good: wrap(&good), bad: wrap(&bad) })
}

/// A once-only reference is used more than once.
fn once(g: &mut G) -> Outcome {
    let (ty, val) = target(g);
    let make = match g.below(6) {
        0 => "OnceRef::from_ref(&x)",
        1 => "OnceRef::from_mut(&mut x)",
        2 => "OnceRef::from(&x)",
        3 => "OnceRef::from(&mut x)",
        4 => "IntoDeref::into_deref(&x)",
        _ => "IntoDeref::into_deref(&mut x)",
    };
    let make = carry_made(g, make);
    let head = format!("let mut x: {ty} = {val}; {}let mut h: OnceRef<'_, {ty}> = {make}; ", noise(g));
    let c = carry(g, "h");
    let (name, good, bad): (String, String, String) = match g.below(8) {
        0..=2 => {
            let first = *g.pick(&[
                "let k = @; touch(&k);",
                "take(@);",
                "touch(@.into_ref());",
                "touch(&@.into_nonnull());",
                "touch(&@.into_ptr());",
                "touch(unsafe { @.into_mut() });",
                "run_once(move || take(h));",
                "let w = Wrap(h); touch(&w);",
            ]);
            let second = *g.pick(&[
                "touch(h.as_ref());",
                "touch(&h.as_ptr());",
                "touch(&h.as_nonnull());",
                "touch(&*h);",
                "take(h);",
                "touch(h.into_ref());",
                "touch(&h.into_ptr());",
                "touch(&h.into_nonnull());",
                "touch(unsafe { h.into_mut() });",
                "touch(unsafe { h.as_mut() });",
                "touch(&h);",
                "let l: OnceRef<'_, T> = h; touch(&l);",
            ]);
            let second = second.replace('T', ty);
            // Put back in between, the second use is fine.
            let again = format!("h = {};", make);
            (
                "using a reference that was given away".to_string(),
                format!("{} {} {}", first.replace('@', &c), again, second),
                format!("{} {} {}", first.replace('@', &c), "", second),
            )
        },
        3 => (
            "a cloned reference".into(),
            format!("need_clone::<Ptr<'static, {ty}>>(); touch(&h);"),
            format!("need_clone::<OnceRef<'static, {ty}>>(); touch(&h);"),
        ),
        4 => (
            "a copied reference".into(),
            format!("need_copy::<Ptr<'static, {ty}>>(); touch(&h);"),
            format!("need_copy::<OnceRef<'static, {ty}>>(); touch(&h);"),
        ),
        5 => (
            "giving a reference away in a loop".into(),
            format!("for i in 0..2 {{ touch(&i); touch(&h); }} take({c});"),
            format!("for i in 0..2 {{ touch(&i); take({c}); }}"),
        ),
        6 => {
            let f = *g.pick(&["run_fn", "run_mut"]);
            (
                "giving a reference away from a closure that runs repeatedly".into(),
                format!("run_once(move || take({}));", c),
                format!("{}(move || take({}));", f, c),
            )
        },
        _ => (
            "moving a reference out of a borrow".into(),
            format!("let b = &h; touch(b.as_ref()); take({});", c),
            "let b = &h; let k: OnceRef<'_, _> = *b; touch(&k);".into(),
        ),
    };
    let wrap = |b: &str| format!("pub fn program() {{ {}{} }}\n", head, b);
    check_pair(g, Pair { name, good: wrap(&good), bad: wrap(&bad) })
}

/// Carriers for expressions that borrow; none of them captures by closure.
fn carry_made(g: &mut G, e: &str) -> String {
    let e = e.to_string();
    match g.below(6) {
        0 => format!("pass({})", e),
        1 => format!("({}, 7u8).0", e),
        2 => format!("{{ let t = {}; t }}", e),
        3 => format!("Some({}).unwrap()", e),
        _ => e,
    }
}

struct Maker {
    /// The handle's type, with `T` and `'a`.
    ty: &'static str,
    /// An expression making it from a place `P`.
    make: &'static str,
    /// From a reference `R` of lifetime `'a`.
    from: &'static str,
    exclusive: bool,
}

const MAKERS: &[Maker] = &[
    Maker { ty: "Ptr<'a, T>", make: "Ptr::from_ref(&P)", from: "Ptr::from_ref(R)", exclusive: false },
    Maker { ty: "Ptr<'a, T>", make: "Ptr::from(&P)", from: "R.into()", exclusive: false },
    Maker { ty: "OnceRef<'a, T>", make: "OnceRef::from_ref(&P)", from: "OnceRef::from_ref(R)", exclusive: false },
    Maker { ty: "OnceRef<'a, T>", make: "OnceRef::from(&P)", from: "R.into()", exclusive: false },
    Maker { ty: "OnceRef<'a, T>", make: "OnceRef::from_mut(&mut P)", from: "OnceRef::from_mut(R)", exclusive: true },
    Maker { ty: "OnceRef<'a, T>", make: "OnceRef::from(&mut P)", from: "R.into()", exclusive: true },
    Maker { ty: "OnceRef<'a, T>", make: "IntoDeref::into_deref(&P)", from: "IntoDeref::into_deref(R)", exclusive: false },
    Maker { ty: "OnceRef<'a, T>", make: "IntoDeref::into_deref(&mut P)", from: "IntoDeref::into_deref(R)", exclusive: true },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "OnceRef::pin_from_ref(Pin::new(&P))", from: "OnceRef::pin_from_ref(Pin::new(R))", exclusive: false },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "OnceRef::pin_from_mut(Pin::new(&mut P))", from: "OnceRef::pin_from_mut(Pin::new(R))", exclusive: true },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "Pin::<OnceRef<'_, T>>::from(Pin::new(&P))", from: "Pin::new(R).into()", exclusive: false },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "Pin::<OnceRef<'_, T>>::from(Pin::new(&mut P))", from: "Pin::new(R).into()", exclusive: true },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "IntoDeref::pin_into_deref(Pin::new(&P))", from: "IntoDeref::pin_into_deref(Pin::new(R))", exclusive: false },
    Maker { ty: "Pin<OnceRef<'a, T>>", make: "IntoDeref::pin_into_deref(Pin::new(&mut P))", from: "IntoDeref::pin_into_deref(Pin::new(R))", exclusive: true },
    Maker { ty: "Mown<'a, T>", make: "Mown::<'_, T>::new_borrowed(&P)", from: "Mown::new_borrowed(R)", exclusive: false },
    Maker { ty: "Mown<'a, T, u8>", make: "Mown::<'_, T, u8>::new_borrowed(&P)", from: "Mown::new_borrowed(R)", exclusive: false },
    Maker { ty: "Mown<'a, T, T>", make: "Mown::<'_, T, T>::new_borrowed(&P)", from: "Mown::new_borrowed(R)", exclusive: false },
    Maker { ty: "&'a core::mem::MaybeUninit<T>", make: "osi::mem::as_uninit(&P)", from: "osi::mem::as_uninit(R)", exclusive: false },
    Maker { ty: "&'a [u8]", make: "unsafe { osi::mem::as_bytes(&P) }", from: "unsafe { osi::mem::as_bytes(R) }", exclusive: false },
    Maker { ty: "&'a mut [u8]", make: "unsafe { osi::mem::as_bytes_mut(&mut P) }", from: "unsafe { osi::mem::as_bytes_mut(R) }", exclusive: true },
    Maker { ty: "&'a T", make: "unsafe { osi::mem::assume_init(osi::mem::as_uninit(&P)) }", from: "unsafe { osi::mem::assume_init(osi::mem::as_uninit(R)) }", exclusive: false },
    Maker { ty: "&'a T", make: "OnceRef::from_ref(&P).into_ref()", from: "OnceRef::from_ref(R).into_ref()", exclusive: false },
    Maker { ty: "&'a T", make: "unsafe { Ptr::from_ref(&P).into_ref() }", from: "unsafe { Ptr::from_ref(R).into_ref() }", exclusive: false },
    Maker { ty: "&'a mut T", make: "unsafe { OnceRef::from_mut(&mut P).into_mut() }", from: "unsafe { OnceRef::from_mut(R).into_mut() }", exclusive: true },
];

/// A handle is used although its object is gone or was changed.
fn lifetimes(g: &mut G) -> Outcome {
    let (ty, val) = loop_target(g);
    let m = g.below(MAKERS.len());
    let m = &MAKERS[m];
    let hty = m.ty.replace('T', ty);
    let lty = hty.replace("'a", "'_");
    let make = |p: &str| m.make.replace('T', ty).replace("Pin<OnceRef", "Pin<OnceRef").replace('P', "\u{1}").replace("\u{1}in", "Pin").replace("\u{1}tr", "Ptr").replace('\u{1}', p);
    let from = |r: &str| {
        // `R` is the only capital that stands alone.
        let mut out = String::new();
        let b: Vec<char> = m.from.chars().collect();
        for (i, c) in b.iter().enumerate() {
            let alone = *c == 'R' && !(i > 0 && b[i - 1].is_alphanumeric()) && !b.get(i + 1).is_some_and(|c| c.is_alphanumeric());
            if alone {
                out.push_str(r);
            } else {
                out.push(*c);
            }
        }
        out
    };
    let n = noise(g);
    let made = carry_made(g, &make("x"));
    let amut = if m.exclusive { "mut " } else { "" };
    let (name, good, bad): (&str, String, String) = match g.below(7) {
        0 => (
            "a handle that outlives its object",
            format!("let h: {lty}; {n}let mut x: {ty} = {val}; {{ h = {made}; touch(&h); }}"),
            format!("let h: {lty}; {n}{{ let mut x: {ty} = {val}; h = {made}; }} touch(&h);"),
        ),
        1 | 2 => {
            let mut v = vec![
                ("an object changed while a handle is in use", "x = VAL;".replace("VAL", val)),
                ("an object borrowed for writing while a handle is in use", "touch(&mut x);".to_string()),
                ("an object replaced while a handle is in use", format!("touch(&core::mem::replace(&mut x, {}));", val)),
            ];
            if ["String", "Vec<u8>", "Box<i32>", "User", "Option<String>"].contains(&ty) {
                v.push(("an object moved while a handle is in use", "take(x);".to_string()));
                v.push(("an object dropped while a handle is in use", "drop(x);".to_string()));
                v.push(("an object moved elsewhere while a handle is in use", "let y = x; touch(&y);".to_string()));
            }
            if m.exclusive {
                v.push(("an object read while an exclusive handle is in use", "touch(&x);".to_string()));
                v.push(("a second handle next to an exclusive one", "touch(&Ptr::from_ref(&x));".to_string()));
            }
            let k = g.below(v.len());
            let (name, act) = v.swap_remove(k);
            (
                name,
                format!("let mut x: {ty} = {val}; {n}let h: {lty} = {made}; touch(&h); {act}"),
                format!("let mut x: {ty} = {val}; {n}let h: {lty} = {made}; {act} touch(&h);"),
            )
        },
        3 => {
            return check_pair(
                g,
                Pair {
                    name: "returning a handle of a local object".to_string(),
                    good: format!("pub fn program<'a>(x: &'a {amut}{ty}) -> {hty} {{ {n}{} }}\n", from("x")),
                    bad: format!("pub fn program<'a>() -> {hty} {{ {n}let mut x: {ty} = {val}; {} }}\n", make("x")),
                },
            )
        },
        4 => (
            "a handle of a local object that lives forever",
            format!("{n}let mut x: {ty} = {val}; need_static(1u8); let h: {lty} = {made}; touch(&h);"),
            format!("{n}let mut x: {ty} = {val}; let h: {lty} = {made}; need_static(h);"),
        ),
        5 => {
            // Lifetimes in signatures: never longer than what was put in.
            let (a, b) = if g.bool() { ("'s", "'l") } else { ("'s", "'static") };
            let t = |l: &str| hty.replace("'a", l);
            return check_pair(
                g,
                Pair {
                    name: "a handle with a longer lifetime than its source".to_string(),
                    good: format!("pub fn program<'l: 's, 's>(x: &'s {amut}{ty}, y: &'l u8) -> {} {{ {n}{} }}\n", t(a), from("x")),
                    bad: format!("pub fn program<'l: 's, 's>(x: &'s {amut}{ty}, y: &'l u8) -> {} {{ {n}{} }}\n", t(b), from("x")),
                },
            );
        },
        _ => {
            // Handles can be stored in something that lives longer, but only
            // if the object does as well.
            let push = *g.pick(&["let mut o = Vec::new();|o.push(H);", "let mut o = None;|o = Some(H);", "let o = Cell::new(None);|o.set(Some(H));", "let mut o = std::collections::VecDeque::new();|o.push_front(H);"]);
            let (decl, put) = push.split_once('|').expect("split");
            let put = put.replace('H', &made);
            (
                "a stored handle that outlives its object",
                format!("let mut x: {ty} = {val}; {decl} {n}{{ {put} }} touch(&o);"),
                format!("{decl} {n}{{ let mut x: {ty} = {val}; {put} }} touch(&o);"),
            )
        },
    };
    g.label(m.ty);
    let wrap = |b: &str| format!("pub fn program() {{ {} }}\n", b);
    check_pair(g, Pair { name: name.to_string(), good: wrap(&good), bad: wrap(&bad) })
}

/// Target types whose text has none of the letters used as placeholders.
fn loop_target(g: &mut G) -> (&'static str, &'static str) {
    *g.pick(&[
        ("i32", "71i32"),
        ("String", "String::from(\"abc\")"),
        ("[u8; 4]", "[1u8, 2, 3, 4]"),
        ("Vec<u8>", "vec![1u8, 2]"),
        ("(u8, u16)", "(1u8, 2u16)"),
        ("Box<i32>", "Box::new(5i32)"),
        ("User", "User::default()"),
        ("Option<String>", "Some(String::new())"),
    ])
}

/// What a handle lends is tied to the handle, or to the object.
fn lent(g: &mut G) -> Outcome {
    let (ty, _) = target(g);
    let n = noise(g);
    let (name, good, bad): (&str, String, String) = match g.below(12) {
        0 => (
            "a lent reference that outlives a once-only reference",
            format!("pub fn program<'a>(h: OnceRef<'a, {ty}>) -> &'a {ty} {{ {n}h.into_ref() }}"),
            format!("pub fn program<'a>(h: OnceRef<'a, {ty}>) -> &'a {ty} {{ {n}h.as_ref() }}"),
        ),
        1 => (
            "a dereferenced value that outlives a once-only reference",
            format!("pub fn program<'a>(h: &'a OnceRef<'a, {ty}>) -> &'a {ty} {{ {n}&**h }}"),
            format!("pub fn program<'a>(h: OnceRef<'a, {ty}>) -> &'a {ty} {{ {n}&*h }}"),
        ),
        2 => (
            "a lent reference that outlives the borrow of a once-only reference",
            format!("pub fn program<'s, 'a>(h: &'s OnceRef<'a, {ty}>) -> &'s {ty} {{ {n}h.as_ref() }}"),
            format!("pub fn program<'s, 'a>(h: &'s OnceRef<'a, {ty}>) -> &'a {ty} {{ {n}h.as_ref() }}"),
        ),
        3 => (
            "a lent reference that outlives a pointer",
            format!("pub fn program<'a>(h: Ptr<'a, {ty}>) -> &'a {ty} {{ {n}unsafe {{ h.into_ref() }} }}"),
            format!("pub fn program<'a>(h: Ptr<'a, {ty}>) -> &'a {ty} {{ {n}unsafe {{ h.as_ref() }} }}"),
        ),
        4 => (
            "an exclusive reference that outlives a pointer",
            format!("pub fn program<'a>(mut h: Ptr<'a, {ty}>) -> &'a mut {ty} {{ {n}unsafe {{ h.into_mut() }} }}"),
            format!("pub fn program<'a>(mut h: Ptr<'a, {ty}>) -> &'a mut {ty} {{ {n}unsafe {{ h.as_mut() }} }}"),
        ),
        5 => (
            "an exclusive reference that outlives a once-only reference",
            format!("pub fn program<'a>(mut h: OnceRef<'a, {ty}>) -> &'a mut {ty} {{ {n}unsafe {{ h.into_mut() }} }}"),
            format!("pub fn program<'a>(mut h: OnceRef<'a, {ty}>) -> &'a mut {ty} {{ {n}unsafe {{ h.as_mut() }} }}"),
        ),
        6 => {
            let k = *g.pick(&["Ptr", "OnceRef"]);
            let l = *g.pick(&["h.as_mut()", "h.as_ref()"]);
            (
                "two exclusive references lent by one handle",
                format!("pub fn program(mut h: {k}<'_, {ty}>) {{ {n}let a = unsafe {{ h.as_mut() }}; touch(a); let b = unsafe {{ {l} }}; touch(b); }}"),
                format!("pub fn program(mut h: {k}<'_, {ty}>) {{ {n}let a = unsafe {{ h.as_mut() }}; let b = unsafe {{ {l} }}; touch(a); touch(b); }}"),
            )
        },
        7 => {
            let k = *g.pick(&["Ptr", "OnceRef"]);
            (
                "an exclusive reference lent by a shared handle",
                format!("pub fn program(h: &mut {k}<'_, {ty}>) {{ {n}touch(unsafe {{ h.as_mut() }}); }}"),
                format!("pub fn program(h: &{k}<'_, {ty}>) {{ {n}touch(unsafe {{ h.as_mut() }}); }}"),
            )
        },
        8 => (
            "moving a once-only reference while it lends",
            format!("pub fn program(h: OnceRef<'_, {ty}>) {{ {n}let r = h.as_ref(); touch(r); take(h); }}"),
            format!("pub fn program(h: OnceRef<'_, {ty}>) {{ {n}let r = h.as_ref(); take(h); touch(r); }}"),
        ),
        9 => (
            "a lent value that outlives a maybe-owned one",
            format!("pub fn program<'s, 'a>(h: &'s Mown<'a, {ty}, {ty}>) -> &'s {ty} {{ {n}h.deref() }}"),
            format!("pub fn program<'s, 'a>(h: &'s Mown<'a, {ty}, {ty}>) -> &'a {ty} {{ {n}h.deref() }}"),
        ),
        10 => (
            "writing through a once-only reference",
            "pub fn program(h: &mut OnceRef<'_, User>) { touch(&(**h)); touch(&h.n); }".to_string(),
            "pub fn program(h: &mut OnceRef<'_, User>) { touch(&(**h)); h.n = 5; }".to_string(),
        ),
        _ => (
            "an exclusive borrow through a once-only reference",
            format!("pub fn program(mut h: OnceRef<'_, {ty}>) {{ {n}let r: &{ty} = &h; touch(r); }}"),
            format!("pub fn program(mut h: OnceRef<'_, {ty}>) {{ {n}let r: &mut {ty} = &mut h; touch(r); }}"),
        ),
    };
    check_pair(g, Pair { name: name.to_string(), good: good + "\n", bad: bad + "\n" })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Var {
    Co,
    Contra,
    In,
}

fn compose(a: Var, b: Var) -> Var {
    match (a, b) {
        (Var::In, _) | (_, Var::In) => Var::In,
        (x, y) if x == y => Var::Co,
        _ => Var::Contra,
    }
}

/// Conversions between two instances of a composed type are accepted exactly
/// as the variance of the composition says.
fn variance(g: &mut G) -> Outcome {
    // Either lifetimes, or the two function types of the test utilities.
    let fns = g.chance(1, 3);
    let (mut ty, mut var, mut known) = if fns {
        ("H".to_string(), Var::Co, false)
    } else {
        let (t, v, k) = *g.pick(&[
            ("&'h u8", Var::Co, false),
            ("Ptr<'h, u8>", Var::Co, true),
            ("OnceRef<'h, u8>", Var::Co, true),
            ("Pin<OnceRef<'h, u8>>", Var::Co, true),
            ("Mown<'h, u8>", Var::Co, true),
            ("Mown<'h, str, String>", Var::Co, true),
            ("Id<'h>", Var::In, true),
            ("Unique<'h>", Var::In, true),
            ("PhantomInvariantLifetime<'h>", Var::In, true),
        ]);
        (t.to_string(), v, k)
    };
    let n = g.size(if known { 0 } else { 1 }, 4);
    let mut crate_types = known as usize;
    for k in 0..n {
        // The last one is one of the library's if there was none so far.
        let own = (k + 1 == n && !known) || g.chance(1, 2);
        let (c, v) = if own {
            *g.pick(&[
                ("CovariantType<@>", Var::Co),
                ("ContravariantType<@>", Var::Contra),
                ("InvariantType<@>", Var::In),
                ("PhantomInvariant<@>", Var::In),
                ("Ptr<'static, @>", Var::In),
                ("OnceRef<'static, @>", Var::In),
                ("NonNull4<@>", Var::Co),
                ("Mown<'static, u8, @>", Var::Co),
            ])
        } else {
            *g.pick(&[
                ("Option<@>", Var::Co),
                ("Box<@>", Var::Co),
                ("(u8, @)", Var::Co),
                ("[@; 2]", Var::Co),
                ("Wrap<@>", Var::Co),
                ("Rc<@>", Var::Co),
                ("fn() -> @", Var::Co),
                ("fn(@)", Var::Contra),
                ("*const @", Var::Co),
                ("*mut @", Var::In),
                ("Cell<@>", Var::In),
                ("core::marker::PhantomData<@>", Var::Co),
            ])
        };
        // These need their argument to outlive everything.
        if c.contains("'static, @") && !fns {
            continue;
        }
        if own {
            known = true;
            crate_types += 1;
        }
        // A function type as the argument of a constructor keeps its meaning
        // only in parentheses.
        let arg = if ty.starts_with("fn") { format!("({})", ty) } else { ty.clone() };
        ty = c.replace('@', &arg);
        var = compose(v, var);
    }
    g.nontrivial_if(crate_types > 0);
    g.label(match var {
        Var::Co => "covariant",
        Var::Contra => "contravariant",
        Var::In => "invariant",
    });
    let up = g.bool();
    // From the subtype to the supertype, or the other way.
    let expect = match var {
        Var::Co => up,
        Var::Contra => !up,
        Var::In => false,
    };
    let text = if fns {
        let (a, b) = if up { ("SubType", "SuperType") } else { ("SuperType", "SubType") };
        format!("pub fn program(v: {}) -> {} {{ v }}\n", ty.replace('H', a), ty.replace('H', b))
    } else {
        let (a, b) = if up { ("'l", "'s") } else { ("'s", "'l") };
        format!("pub fn program<'l: 's, 's>(v: {}) -> {} {{ v }}\n", ty.replace("'h", a), ty.replace("'h", b))
    };
    check_one(g, &format!("conversion of {} type", if var == Var::In { "an invariant" } else { "a variant" }), &text, expect)
}

/// Send and Sync of a composed type.
#[derive(Clone, Copy)]
struct Auto {
    send: bool,
    sync: bool,
}

fn auto_type(g: &mut G, depth: usize) -> (String, Auto) {
    let a = |send, sync| Auto { send, sync };
    if depth == 0 || g.chance(1, 3) {
        let leaves = [
            ("i32", a(true, true)),
            ("Rc<u8>", a(false, false)),
            ("Cell<u8>", a(true, false)),
            ("std::sync::MutexGuard<'static, u8>", a(false, true)),
            ("String", a(true, true)),
            ("core::cell::RefCell<String>", a(true, false)),
            ("*const u8", a(false, false)),
            ("*mut u8", a(false, false)),
            ("std::sync::mpsc::Receiver<u8>", a(true, false)),
            ("Box<dyn Fn()>", a(false, false)),
            ("Box<dyn Fn() + Send>", a(true, false)),
            ("Box<dyn Fn() + Sync>", a(false, true)),
            ("Box<dyn Fn() + Send + Sync>", a(true, true)),
            ("fn(*const u8)", a(true, true)),
        ];
        let (t, s) = g.pick(&leaves);
        return (t.to_string(), *s);
    }
    let (t, s) = auto_type(g, depth - 1);
    match g.below(16) {
        0 => (format!("Vec<{}>", t), s),
        1 => (format!("Option<{}>", t), s),
        2 => {
            let (u, v) = auto_type(g, depth - 1);
            (format!("({}, {})", t, u), a(s.send && v.send, s.sync && v.sync))
        },
        3 => (format!("Arc<{}>", t), a(s.send && s.sync, s.send && s.sync)),
        4 => (format!("Mutex<{}>", t), a(s.send, s.send)),
        5 => (format!("Cell<{}>", t), a(s.send, false)),
        6 => (format!("&'static {}", t), a(s.sync, s.sync)),
        7 => (format!("&'static mut {}", t), s),
        8 => (format!("[{}; 3]", t), s),
        9 | 10 => (format!("Ptr<'static, {}>", t), a(s.send && s.sync, s.sync)),
        11 | 12 => (format!("OnceRef<'static, {}>", t), a(s.send && s.sync, s.sync)),
        13 => {
            let (u, v) = auto_type(g, depth - 1);
            (format!("Mown<'static, {}, {}>", t, u), a(s.sync && v.send, s.sync && v.sync))
        },
        14 => (format!("NonNull4<{}>", t), a(false, false)),
        _ => (format!("PhantomInvariant<{}>", t), a(true, true)),
    }
}

/// Handles can be sent and shared exactly if their target allows it.
fn threads(g: &mut G) -> Outcome {
    let (t, s) = auto_type(g, 2);
    let (ty, s) = match g.below(8) {
        0 | 1 => (format!("Ptr<'static, {}>", t), Auto { send: s.send && s.sync, sync: s.sync }),
        2 | 3 => (format!("OnceRef<'static, {}>", t), Auto { send: s.send && s.sync, sync: s.sync }),
        4 => (format!("Pin<OnceRef<'static, {}>>", t), Auto { send: s.send && s.sync, sync: s.sync }),
        5 => (format!("Ptr<'static, [{}]>", t), Auto { send: s.send && s.sync, sync: s.sync }),
        6 => (format!("NonNull4<{}>", t), Auto { send: false, sync: false }),
        _ => (format!("Mown<'static, [{}], {}>", t, t), Auto { send: s.sync && s.send, sync: s.sync }),
    };
    let send = g.bool();
    g.nontrivial_if(s.send != s.sync || ty.len() > 30);
    g.label_if(s.send != s.sync, "sending and sharing differ");
    let (need, expect) = if send { ("need_send", s.send) } else { ("need_sync", s.sync) };
    let text = format!("pub fn program(v: Option<{}>) {{ touch(&v); {}::<{}>(); }}\n", ty, need, ty);
    check_one(g, if send { "sending a handle" } else { "sharing a handle" }, &text, expect)
}

/// Handles really moved to or shared with a thread.
fn spawned(g: &mut G) -> Outcome {
    let (ok, ok_val) = *g.pick(&[("i32", "5i32"), ("String", "String::new()"), ("Mutex<u8>", "Mutex::new(1u8)"), ("Vec<u8>", "vec![1u8]")]);
    let share = g.bool();
    let (no, no_val) = if share {
        *g.pick(&[("Rc<u8>", "Rc::new(1u8)"), ("Cell<u8>", "Cell::new(1u8)"), ("core::cell::RefCell<u8>", "core::cell::RefCell::new(1u8)"), ("*const u8", "core::ptr::null::<u8>()")])
    } else {
        *g.pick(&[
            ("Rc<u8>", "Rc::new(1u8)"),
            ("Cell<u8>", "Cell::new(1u8)"),
            ("core::cell::RefCell<u8>", "core::cell::RefCell::new(1u8)"),
            ("*const u8", "core::ptr::null::<u8>()"),
            ("Arc<Cell<u8>>", "Arc::new(Cell::new(1u8))"),
            ("Box<dyn Fn()>", "Box::new(|| ()) as Box<dyn Fn()>"),
        ])
    };
    let make = *g.pick(&["Ptr::from_ref(&x)", "OnceRef::from_ref(&x)", "OnceRef::from_mut(&mut x)", "OnceRef::from(&x)", "Ptr::from(&x)"]);
    let make = carry_made(g, make);
    let act = if share {
        "std::thread::scope(|s| { let r = &h; s.spawn(move || touch(r)); });"
    } else {
        "std::thread::scope(|s| { s.spawn(move || { let k = h; touch(&k); }); });"
    };
    let n = noise(g);
    let text = |t: &str, v: &str| format!("pub fn program() {{ let mut x: {t} = {v}; {n}let h = {make}; {act} }}\n");
    check_pair(
        g,
        Pair {
            name: if share { "sharing a handle of an unshareable object with a thread".into() } else { "moving a handle of a thread-bound object to a thread".into() },
            good: text(ok, ok_val),
            bad: text(no, no_val),
        },
    )
}

/// Operations with obligations for the caller need an unsafe block.
const UNSAFE: &[(&str, &str)] = &[
    ("making a pointer from an address", "let p: Ptr<'_, T> = @(Ptr::new(core::ptr::NonNull::from(&x))); touch(&p);"),
    ("making a pointer from a raw pointer", "let p: Ptr<'_, T> = @(Ptr::from_ptr(&raw mut x)); touch(&p);"),
    ("turning a pointer into a reference", "touch(@(Ptr::from_ref(&x).into_ref()));"),
    ("turning a pointer into an exclusive reference", "touch(@(Ptr::from_ref(&x).into_mut()));"),
    ("borrowing through a pointer", "touch(@(Ptr::from_ref(&x).as_ref()));"),
    ("borrowing exclusively through a pointer", "touch(@(Ptr::from_ref(&x).as_mut()));"),
    ("making a once-only reference from an address", "let p: OnceRef<'_, T> = @(OnceRef::from_nonnull(core::ptr::NonNull::from(&x))); touch(&p);"),
    ("making a once-only reference from a raw pointer", "let p: OnceRef<'_, T> = @(OnceRef::from_ptr(&raw mut x)); touch(&p);"),
    ("turning a once-only reference into an exclusive one", "touch(@(OnceRef::from_mut(&mut x).into_mut()));"),
    ("borrowing exclusively through a once-only reference", "touch(@(OnceRef::from_mut(&mut x).as_mut()));"),
    ("tagging an unchecked pointer", "touch(&@(NonNull4::new_unchecked(core::ptr::NonNull::from(&x))));"),
    ("setting an unchecked tagged pointer", "let mut p = unsafe { NonNull4::new_unchecked(core::ptr::NonNull::from(&x)) }; @(p.set_ptr_unchecked(core::ptr::NonNull::from(&x)));"),
    ("copying memory as a different type", "let v: core::mem::MaybeUninit<T> = @(osi::mem::transmute_copy_uninit(&x)); touch(&v);"),
    ("swapping the bytes of a value", "touch(&@(osi::mem::bswap_copy(&5u32)));"),
    ("taking memory as initialized", "touch(@(osi::mem::assume_init(osi::mem::as_uninit(&x))));"),
    ("taking exclusive memory as initialized", "let mut u = core::mem::MaybeUninit::<T>::uninit(); touch(@(osi::mem::assume_init_mut(&mut u)));"),
    ("taking a slice as initialized", "let s = [1u8, 2]; touch(@(osi::mem::slice_assume_init(osi::mem::slice_as_uninit(&s))));"),
    ("taking an exclusive slice as initialized", "let mut s = [core::mem::MaybeUninit::<u8>::uninit()]; touch(@(osi::mem::slice_assume_init_mut(&mut s)));"),
    ("viewing a value as bytes", "touch(@(osi::mem::as_bytes(&x)));"),
    ("viewing a value as writable bytes", "touch(@(osi::mem::as_bytes_mut(&mut x)));"),
    ("comparing values bytewise", "touch(&@(osi::mem::eq(&x, &x)));"),
    ("reading what is pinned", "let p = Pin::new(&x); touch(@(osi::pin::as_inner(&p)));"),
    ("mapping a pinned pointer", "touch(&@(osi::pin::map_unchecked(Pin::new(&x), |v| v)));"),
    ("turning a once-only reference back into its source", "let b: &T = @(FromDeref::from_deref(OnceRef::from_ref(&x))); touch(b);"),
    ("turning a pinned once-only reference back into its source", "let b: Pin<&T> = @(FromDeref::pin_from_deref(OnceRef::pin_from_ref(Pin::new(&x)))); touch(&b);"),
    ("taking bytes as an operating system string", "touch(@(osi::compat::OsStr::from_encoded_bytes_unchecked(b\"a\")));"),
    ("making a foreign pointer from an unchecked address", "let p: usize = @(osi::ffi::NativeAddress::<T>::from_usize_unchecked(8)); touch(&p);"),
    ("following a foreign pointer", "let p: usize = 8; touch(@(osi::ffi::NativeAddress::<T>::as_ref(&p)));"),
    ("the marker of unsafe code", "@(osi::marker::phantom_unsafe());"),
];

fn unsafes(g: &mut G) -> Outcome {
    let k = g.below(UNSAFE.len());
    let (ty, val) = target(g);
    let (name, text) = UNSAFE[k];
    let text = text.replace("<T>", "<\u{1}>").replace(", T>", ", \u{1}>").replace("&T", "&\u{1}").replace("const T", "const \u{1}").replace('\u{1}', ty);
    // `@(...)` is the operation in question.
    let (a, b) = text.split_once("@(").expect("operation");
    let mut depth = 1;
    let end = b
        .char_indices()
        .find(|(_, c)| {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                _ => {},
            }
            depth == 0
        })
        .map(|(i, _)| i)
        .expect("closed");
    let (op, rest) = (&b[..end], &b[end + 1..]);
    let lends = op.contains(".as_ref()") || op.contains(".as_mut()");
    let form = g.below(2);
    let shape = |keyword: &str| match (lends, form) {
        (true, _) => format!("{} {{ touch({}); &1u8 }}", keyword, op),
        (false, 0) => format!("{} {{ {} }}", keyword, op),
        (false, _) => format!("{{ let t = {} {{ {} }}; t }}", keyword, op),
    };
    let (wrapped, plain) = (shape("unsafe"), shape(""));
    let n = noise(g);
    let prog = |b: &str| format!("pub fn program() {{ let mut x: {ty} = {val}; {n}{} }}\n", b);
    check_pair(
        g,
        Pair {
            name: format!("{} without opting in", name),
            good: prog(&format!("{}{}{}", a, wrapped, rest)),
            bad: prog(&format!("{}{}{}", a, plain, rest)),
        },
    )
}

// C55

const MARKERS: &[&str] = &[
    "PhantomInvariant<@>",
    "PhantomInvariant<@>",
    "PhantomInvariantLifetime<'static>",
    "Id<'static>",
    "Unique<'static>",
    "CovariantType<@>",
    "ContravariantType<@>",
    "InvariantType<@>",
];

/// A type parameter for a marker.
fn marked(g: &mut G, sized: bool) -> String {
    let (t, _) = auto_type(g, 2);
    if sized {
        return t;
    }
    match g.below(5) {
        0 => format!("[{}]", t),
        1 => "str".to_string(),
        2 => "dyn core::fmt::Debug".to_string(),
        _ => t,
    }
}

/// Structures with markers in them are laid out as if they were not there.
fn marker_layout(g: &mut G) -> Outcome {
    let mut text = String::new();
    let n = g.size(1, 12);
    for k in 0..n {
        let m = *g.pick(MARKERS);
        let arg = marked(g, m.starts_with("Contra"));
        let m = m.replace('@', &arg);
        let repr = *g.pick(&["#[repr(C)]", "#[repr(C, packed)]", "", "#[repr(C, align(16))]"]);
        let fields: Vec<&str> = g.list(4, |g| *g.pick(&["u8", "u16", "u32", "u64", "[u8; 3]", "*const u8", "bool"]));
        let at = g.below(fields.len() + 1);
        let mut with = String::new();
        let mut without = String::new();
        for (i, f) in fields.iter().enumerate() {
            if i == at {
                with.push_str(&format!("m: {}, ", m));
            }
            with.push_str(&format!("f{}: {}, ", i, f));
            without.push_str(&format!("f{}: {}, ", i, f));
        }
        if at == fields.len() {
            with.push_str(&format!("m: {}, ", m));
        }
        text.push_str(&format!("{repr} pub struct A{k} {{ {with}}}\n{repr} pub struct B{k} {{ {without}}}\n"));
        text.push_str(&format!("const _: () = assert!(size_of::<A{k}>() == size_of::<B{k}>() && align_of::<A{k}>() == align_of::<B{k}>());\n"));
        text.push_str(&format!("const _: () = assert!(size_of::<{m}>() == 0 && align_of::<{m}>() == 1);\n"));
        if repr.contains("C") {
            for i in 0..fields.len() {
                text.push_str(&format!("const _: () = assert!(core::mem::offset_of!(A{k}, f{i}) == core::mem::offset_of!(B{k}, f{i}));\n"));
            }
        }
        text.push_str(&format!("const _: () = assert!(size_of::<[{m}; 1000]>() == 0);\n"));
    }
    for (t, n) in [("u32", 4), ("u8", 1), ("()", 0), ("&'static u8", 8)] {
        text.push_str(&format!("const _: () = assert!(size_of::<Result<{t}, osi::never::Never>>() == {n} && size_of::<Option<osi::never::Never>>() == 0);\n"));
    }
    g.nontrivial_if(n > 1);
    check_one(g, "layout with markers", &text, true)
}

/// Programs around the type without values.
fn never(g: &mut G) -> Outcome {
    let (ty, val) = target(g);
    let n = noise(g);
    let (name, good, bad): (&str, String, String) = match g.below(6) {
        0 => (
            "a value of the type without values",
            format!("pub fn program() -> Result<{ty}, osi::never::Never> {{ {n}Ok({val}) }}\n"),
            format!("pub fn program() -> Result<{ty}, osi::never::Never> {{ {n}Err({val}) }}\n"),
        ),
        1 => (
            "a function that returns without a value",
            format!("pub fn program() -> osi::never::Never {{ {n}panic!() }}\n"),
            format!("pub fn program() -> osi::never::Never {{ {n} }}\n"),
        ),
        2 => (
            "an unhandled case next to the impossible one",
            format!("pub fn program(r: Result<{ty}, osi::never::Never>) -> {ty} {{ {n}match r {{ Ok(v) => v, Err(v) => v }} }}\n"),
            format!("pub fn program(r: Result<{ty}, osi::never::Never>) -> {ty} {{ {n}match r {{ Err(v) => v }} }}\n"),
        ),
        3 => (
            "a default of the type without values",
            format!("pub fn program(r: osi::never::Never) -> {ty} {{ r }}\n"),
            format!("pub fn program() {{ {n}need_default::<osi::never::Never>(); }}\n"),
        ),
        4 => (
            "a coercion to the type without values",
            format!("pub fn program(r: osi::never::Never) -> {ty} {{ let v: {ty} = r; v }}\n"),
            format!("pub fn program(r: {ty}) -> osi::never::Never {{ let v: osi::never::Never = r; v }}\n"),
        ),
        _ => (
            "an irrefutable pattern over two possible cases",
            format!("pub fn program(r: Result<{ty}, osi::never::Never>) -> {ty} {{ {n}let Ok(v) = r; v }}\n"),
            format!("pub fn program(r: Result<{ty}, u8>) -> {ty} {{ {n}let Ok(v) = r; v }}\n"),
        ),
    };
    check_pair(g, Pair { name: name.to_string(), good, bad })
}

/// A hasher that records all that is written to it.
#[derive(Default)]
struct Trace(Vec<u8>);

impl std::hash::Hasher for Trace {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn hashed(v: &impl std::hash::Hash) -> Vec<u8> {
    let mut t = Trace::default();
    v.hash(&mut t);
    t.0
}

/// Histories of keyed containers, with markers being part of the keys.
fn marker_keys<M>(g: &mut G, mark: impl Fn(&mut G) -> M) -> Outcome
where
    M: Copy + Eq + Ord + std::hash::Hash + std::fmt::Debug,
{
    use std::collections::{BTreeMap, HashMap};
    let mut b: BTreeMap<(M, u8, M), u32> = BTreeMap::new();
    let mut h: HashMap<(u8, M), u32> = HashMap::new();
    let mut model: BTreeMap<u8, u32> = BTreeMap::new();
    let ops = g.size(1, 30);
    for i in 0..ops {
        let k = g.below(8) as u8;
        let (m, n) = (mark(g), mark(g));
        ensure!(m == n && !(m != n) && !(m < n) && !(m > n) && m <= n && m >= n, "two markers differ");
        ensure!(m.cmp(&n) == std::cmp::Ordering::Equal && m.partial_cmp(&n) == Some(std::cmp::Ordering::Equal), "two markers are ordered");
        ensure!(hashed(&m).is_empty(), "a marker contributes to a hash");
        ensure!(hashed(&(k, m)) == hashed(&k), "a marker changes a hash");
        match g.below(3) {
            0 => {
                let want = model.insert(k, i as u32);
                ensure!(b.insert((m, k, n), i as u32) == want && h.insert((k, n), i as u32) == want, "insert with markers in the key");
            },
            1 => {
                let want = model.remove(&k);
                ensure!(b.remove(&(m, k, n)) == want && h.remove(&(k, m)) == want, "remove with markers in the key");
            },
            _ => {
                let want = model.get(&k);
                ensure!(b.get(&(m, k, n)) == want && h.get(&(k, m)) == want, "lookup with markers in the key");
            },
        }
        ensure!(b.len() == model.len() && h.len() == model.len(), "number of entries with markers in the key");
        ensure!(b.keys().map(|k| k.1).eq(model.keys().copied()), "order with markers in the key");
    }
    g.nontrivial_if(ops > 3);
    Ok(())
}

fn marker_values(g: &mut G) -> Outcome {
    use osi::marker::{PhantomInvariant, PhantomInvariantLifetime};

    fn invariant<T: ?Sized + 'static>(g: &mut G) -> Outcome {
        let name = format!("PhantomInvariant<{}>", std::any::type_name::<T>());
        ensure!(format!("{:?}", PhantomInvariant::<T>::new()) == name, "text of a marker");
        marker_keys(g, |g| match g.below(4) {
            0 => PhantomInvariant::<T>::new(),
            1 => Default::default(),
            2 => PhantomInvariant::<T>::new().clone(),
            _ => {
                let a: PhantomInvariant<T> = Default::default();
                let b = a;
                std::cmp::max(a, b)
            },
        })
    }

    match g.below(9) {
        0 => invariant::<u8>(g),
        1 => invariant::<str>(g),
        2 => invariant::<[u32]>(g),
        3 => invariant::<dyn Fn(&u8) -> u16>(g),
        4 => invariant::<std::rc::Rc<std::cell::Cell<f64>>>(g),
        // Not even comparable, still the markers are.
        5 => invariant::<std::sync::Mutex<Box<dyn FnOnce()>>>(g),
        6 => {
            ensure!(format!("{:?}", PhantomInvariantLifetime::new()) == "PhantomInvariantLifetime", "text of a marker");
            marker_keys(g, |g| match g.below(3) {
                0 => PhantomInvariantLifetime::<'static>::new(),
                1 => Default::default(),
                _ => PhantomInvariantLifetime::new().clone(),
            })
        },
        7 => osi::brand::unique(|u| {
            ensure!(u == u && u <= u && u.cmp(&u) == std::cmp::Ordering::Equal, "a brand differs from itself");
            ensure!(size_of_val(&u) == 0 && align_of_val(&u) == 1, "a brand takes up memory");
            ensure!(format!("{:?}", u) == "Unique { id: Id<#[unique] '_> }", "text of a brand");
            let id = osi::brand::Id::from(u);
            ensure!(size_of_val(&id) == 0 && align_of_val(&id) == 1, "an identifier takes up memory");
            ensure!(format!("{:?}", id) == "Id<#[unique] '_>", "text of an identifier");
            marker_keys(g, move |g| match g.below(2) {
                0 => id,
                _ => id.clone(),
            })
        }),
        _ => {
            // Scopes hand on what the operation returns, run it once, and nest.
            let n = g.size(0, 6);
            let v = g.draw(u64::MAX);
            let mut runs = 0;
            fn nest(n: usize, v: u64, runs: &mut usize) -> (u64, usize) {
                *runs += 1;
                if n == 0 {
                    return (v, 0);
                }
                osi::brand::unique(|u| {
                    let r = nest(n - 1, v, runs);
                    drop(u);
                    (r.0, r.1 + 1)
                })
            }
            let r = nest(n, v, &mut runs);
            g.nontrivial_if(n > 1);
            ensure!(r == (v, n) && runs == n + 1, "a scope does not hand on the result of its operation");
            // Panics pass through as well.
            let text = g.text(8);
            let t2 = text.clone();
            let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| osi::brand::unique(|_| -> u8 { std::panic::panic_any(t2) })));
            match p {
                Err(e) => ensure!(e.downcast_ref::<String>() == Some(&text), "a scope changes a panic"),
                Ok(_) => ensure!(false, "a scope swallows a panic"),
            }
            Ok(())
        },
    }
}

// C56

/// A configuration predicate and its value.
fn predicate(g: &mut G, flags: &[bool; 4], depth: usize) -> (String, bool) {
    match if depth == 0 { 0 } else { g.below(5) } {
        0 | 1 => match g.below(8) {
            0 => ("all()".to_string(), true),
            1 => ("any()".to_string(), false),
            k @ 2..=5 => (format!("flag{}", k - 2), flags[k - 2]),
            6 => ("unix".to_string(), cfg!(unix)),
            _ => {
                // A key with values, of which one may be set.
                let k = g.below(3);
                (format!("key = \"v{}\"", k), flags[0] && k == 1)
            },
        },
        2 => {
            let (t, v) = predicate(g, flags, depth - 1);
            (format!("not({})", t), !v)
        },
        k => {
            let parts = g.list(3, |g| predicate(g, flags, depth - 1));
            let all = k == 3;
            let v = if all { parts.iter().all(|p| p.1) } else { parts.iter().any(|p| p.1) };
            let t: Vec<String> = parts.into_iter().map(|p| p.0).collect();
            (format!("{}({})", if all { "all" } else { "any" }, t.join(", ")), v)
        },
    }
}

/// A cascade; pushes the numbers of the arms that must be selected.
fn cascade(g: &mut G, flags: &[bool; 4], next: &mut usize, live: bool, depth: usize, items: bool, picked: &mut Vec<usize>) -> String {
    let n = g.size(1, if depth == 0 { 3 } else { 5 });
    let mut text = "osi::cfg::cond! {\n".to_string();
    let mut done = false;
    let els = g.bool();
    for k in 0..n + els as usize {
        let (cond, v) = if k == n { (String::new(), true) } else { predicate(g, flags, 2) };
        let hit = live && v && !done;
        done |= v;
        let id = *next;
        *next += 1;
        if hit {
            picked.push(id);
        }
        let mut body = if items {
            format!("pub const ARM{id}: bool = true;\nconst _: () = assert!(PICKED[{id}]);\n")
        } else {
            format!("v.push({id});\n")
        };
        if depth > 0 && g.chance(1, 3) {
            body.push_str(&cascade(g, flags, next, hit, depth - 1, items, picked));
        }
        // Arms may be empty, and an arm that is not selected may hold anything
        // that consists of tokens.
        if !hit && g.chance(1, 4) {
            body.push_str("compile_error!(\"selected\");\n");
        }
        if k == n {
            text.push_str(&format!("{{ {} }},\n", body));
        } else {
            text.push_str(&format!("({}) {{ {} }},\n", cond, body));
        }
    }
    text.push_str("}\n");
    text
}

fn conditions(g: &mut G) -> Outcome {
    let flags = [g.bool(), g.bool(), g.bool(), g.bool()];
    let items = g.bool();
    let (mut next, mut picked) = (0, vec![]);
    let body = cascade(g, &flags, &mut next, true, 2, items, &mut picked);
    let mut cfg: Vec<String> = (0..4).filter(|k| flags[*k]).map(|k| format!("flag{}", k)).collect();
    if flags[0] {
        cfg.push("key=\"v1\"".to_string());
    }
    g.nontrivial_if(next > 1);
    g.label_if(picked.is_empty(), "no arm is selected");
    g.label_if(picked.len() > 1, "nested arms are selected");
    g.label(if items { "items" } else { "statements" });
    let text = if items {
        // Every arm that counts defines its constant, no other one does.
        let mut t = format!("const PICKED: [bool; {next}] = {:?};\n", (0..next).map(|i| picked.contains(&i)).collect::<Vec<_>>());
        t.push_str(&body);
        for i in 0..next {
            if picked.contains(&i) {
                t.push_str(&format!("const _: () = assert!(ARM{i});\n"));
            } else {
                // Would be a duplicate if the arm had been selected.
                t.push_str(&format!("pub const ARM{i}: bool = false;\n"));
            }
        }
        t
    } else {
        let want: Vec<String> = picked.iter().map(|p| p.to_string()).collect();
        format!(
            "struct List {{ a: [usize; 100], n: usize }}\nimpl List {{ const fn push(&mut self, i: usize) {{ self.a[self.n] = i; self.n += 1; }} }}\n\
             const fn run() -> List {{ let mut v = List {{ a: [0; 100], n: 0 }};\n{body}v }}\n\
             const GOT: List = run();\nconst WANT: &[usize] = &[{}];\n\
             const _: () = {{ assert!(GOT.n == WANT.len()); let mut i = 0; while i < GOT.n {{ assert!(GOT.a[i] == WANT[i]); i += 1; }} }};\n",
            want.join(", ")
        )
    };
    g.note(|| format!("configuration {:?}, to be accepted:\n{}", cfg, indent(&text)));
    let (ok, why) = accepts_cfg(&text, &cfg);
    ensure!(ok, "the wrong arm is selected: {}", why.lines().next().unwrap_or(""));
    Ok(())
}

/// A cascade is plain syntax: what it is not made for is rejected.
fn conditions_syntax(g: &mut G) -> Outcome {
    let (name, good, bad) = *g.pick(&[
        ("a cascade without any condition", "osi::cfg::cond! { (all()) { pub const A: u8 = 1; }, { pub const B: u8 = 2; }, }\n", "osi::cfg::cond! { { pub const A: u8 = 1; }, }\n"),
        ("an arm after the last one", "osi::cfg::cond! { (any()) { pub const A: u8 = 1; }, { pub const A: u8 = 2; }, }\n", "osi::cfg::cond! { { pub const A: u8 = 1; }, (any()) { pub const A: u8 = 2; }, }\n"),
        ("two final arms", "osi::cfg::cond! { (any()) { pub const A: u8 = 1; }, { pub const A: u8 = 2; }, }\n", "osi::cfg::cond! { (any()) { pub const A: u8 = 1; }, { pub const A: u8 = 2; }, { pub const B: u8 = 3; }, }\n"),
        ("an empty cascade", "osi::cfg::cond! { (any()) { }, }\n", "osi::cfg::cond! { }\n"),
        ("using what an arm that is not selected defines", "osi::cfg::cond! { (all()) { pub const A: u8 = 1; }, { pub const B: u8 = 1; }, }\npub const C: u8 = A;\n", "osi::cfg::cond! { (all()) { pub const A: u8 = 1; }, { pub const B: u8 = 1; }, }\npub const C: u8 = B;\n"),
        ("errors in the selected arm", "osi::cfg::cond! { (any()) { compile_error!(\"no\"); }, { pub const B: u8 = 1; }, }\n", "osi::cfg::cond! { (any()) { pub const B: u8 = 1; }, { compile_error!(\"no\"); }, }\n"),
        ("defining what the selected arm defines", "osi::cfg::cond! { (any()) { pub const A: u8 = 1; }, (all()) { pub const B: u8 = 1; }, (all()) { pub const A: u8 = 3; }, }\npub const A: u8 = 9;\n", "osi::cfg::cond! { (any()) { pub const A: u8 = 1; }, (all()) { pub const B: u8 = 1; }, (all()) { pub const A: u8 = 3; }, }\npub const B: u8 = 9;\n"),
    ]);
    check_pair(g, Pair { name: name.to_string(), good: good.to_string(), bad: bad.to_string() })
}

// C57

fn coerced(g: &mut G) -> Outcome {
    use osi::polonius::coerce_unsafe;
    use std::cell::Cell;

    struct Counted<'a>(&'a Cell<usize>, u64);
    impl Drop for Counted<'_> {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
        }
    }

    let text = g.text(12);
    let nums: Vec<u32> = g.list(8, |g| g.uint(32) as u32);
    let x = g.draw(u64::MAX);
    g.nontrivial_if(!nums.is_empty());
    let evals = Cell::new(0);
    let once = || evals.set(evals.get() + 1);
    match g.below(9) {
        0 => {
            let mut v = x;
            let p = &raw const v;
            let r: &u64 = unsafe { coerce_unsafe!(&mut u64, &u64, { once(); &mut v }) };
            ensure!(std::ptr::eq(r, p) && *r == x, "a coerced reference points elsewhere");
        },
        1 => {
            let mut v = nums.clone();
            let (p, n) = (v.as_ptr(), v.len());
            let r: &mut [u32] = unsafe { coerce_unsafe!(&mut [u32], &mut [u32], { once(); &mut v[..] }) };
            ensure!(r.as_ptr() == p && r.len() == n && *r == nums[..], "a coerced slice differs");
        },
        2 => {
            let s = text.as_str();
            let r: &str = unsafe { coerce_unsafe!(&str, &str, { once(); s }) };
            ensure!(std::ptr::eq(r, s) && *r == *text, "a coerced string differs");
        },
        3 => {
            // Values with drop glue are moved, not duplicated.
            let drops = Cell::new(0);
            {
                let v = Counted(&drops, x);
                let r: Counted<'_> = unsafe { coerce_unsafe!(Counted<'_>, Counted<'_>, { once(); v }) };
                ensure!(drops.get() == 0 && r.1 == x, "a coerced value was dropped early");
            }
            ensure!(drops.get() == 1, "a coerced value is dropped {} times", drops.get());
        },
        4 => {
            let drops = Cell::new(0);
            {
                let v = Box::new(Counted(&drops, x));
                let p = &raw const *v;
                let r: Box<Counted<'_>> = unsafe { coerce_unsafe!(Box<Counted<'_>>, Box<Counted<'_>>, { once(); v }) };
                ensure!(std::ptr::eq(&raw const *r, p) && r.1 == x, "a coerced box points elsewhere");
            }
            ensure!(drops.get() == 1, "a coerced box is dropped {} times", drops.get());
        },
        5 => {
            let v = if x & 1 == 0 { None } else { nums.first() };
            let r: Option<&u32> = unsafe { coerce_unsafe!(Option<&u32>, Option<&u32>, { once(); v }) };
            ensure!(r == v && r.map(|r| &raw const *r) == v.map(|r| &raw const *r), "a coerced option differs");
        },
        6 => {
            let d: &dyn std::fmt::Debug = &nums;
            let r: &dyn std::fmt::Debug = unsafe { coerce_unsafe!(&dyn std::fmt::Debug, &dyn std::fmt::Debug, { once(); d }) };
            ensure!(std::ptr::addr_eq(r, d) && format!("{:?}", r) == format!("{:?}", nums), "a coerced trait object differs");
        },
        7 => {
            let v: Result<(u64, &str), Vec<u32>> = if x & 1 == 0 { Ok((x, &text)) } else { Err(nums.clone()) };
            let w = v.clone();
            let r: Result<(u64, &str), Vec<u32>> = unsafe { coerce_unsafe!(Result<(u64, &str), Vec<u32>>, Result<(u64, &str), Vec<u32>>, { once(); v }) };
            ensure!(r == w, "a coerced result differs");
        },
        _ => {
            // A coercion within a coercion, and one of a coerced part.
            let mut v = (nums.clone(), x);
            let p = &raw const v;
            let r: &(Vec<u32>, u64) = unsafe { coerce_unsafe!(&(Vec<u32>, u64), &(Vec<u32>, u64), coerce_unsafe!(&mut (Vec<u32>, u64), &(Vec<u32>, u64), { once(); &mut v })) };
            let s: &[u32] = unsafe { coerce_unsafe!(&[u32], &[u32], &r.0[..]) };
            ensure!(std::ptr::eq(r, p) && r.1 == x && *s == nums[..], "a nested coercion differs");
        },
    }
    ensure!(evals.get() == 1, "the value expression is evaluated {} times", evals.get());
    Ok(())
}

/// The coercion compiles with either borrow checker, and only as an unsafe
/// operation between types that fit.
fn coerce_programs(g: &mut G) -> Outcome {
    let (ty, val) = loop_target(g);
    let n = noise(g);
    let polonius = g.bool();
    let cfg: Vec<String> = if polonius { vec!["polonius".to_string()] } else { vec![] };
    let (a, b, e) = *g.pick(&[
        ("&mut T", "&T", "&mut x"),
        ("&T", "&T", "&x"),
        ("&mut T", "&mut T", "&mut x"),
        ("Option<&T>", "Option<&T>", "Some(&x)"),
        ("(&T, u8)", "(&T, u8)", "(&x, 1u8)"),
        ("Box<&T>", "Box<&T>", "Box::new(&x)"),
        ("Ptr<'_, T>", "Ptr<'_, T>", "Ptr::from_ref(&x)"),
    ]);
    let (a, b) = (a.replace('T', ty), b.replace('T', ty));
    let prog = |a: &str, b: &str, kw: &str| format!("pub fn program() {{ let mut x: {ty} = {val}; {n}let r: {b} = {kw} {{ osi::polonius::coerce_unsafe!({a}, {b}, {e}) }}; touch(&r); }}\n");
    let good = prog(&a, &b, "unsafe");
    let (name, bad) = match g.below(4) {
        0 => ("a coercion without opting in", prog(&a, &b, "")),
        1 => ("a coercion to a type of a different size", prog(&a, "[u8; 77]", "unsafe")),
        2 => ("a coercion of a value of a different type", prog("Vec<u16>", "Vec<u16>", "unsafe")),
        _ => ("a coercion with a target of a different type", format!("pub fn program() {{ let mut x: {ty} = {val}; {n}let r: Vec<u16> = unsafe {{ osi::polonius::coerce_unsafe!({a}, {b}, {e}) }}; touch(&r); }}\n")),
    };
    g.note(|| format!("configuration {:?}, intended use:\n{}misuse ({}):\n{}", cfg, indent(&good), name, indent(&bad)));
    g.label(name);
    g.nontrivial_if(true);
    let (ok, why) = accepts_cfg(&format!("{}{}", PRELUDE, good), &cfg);
    ensure!(ok, "a coercion is rejected: {}", why.lines().next().unwrap_or(""));
    let (ok, _) = accepts_cfg(&format!("{}{}", PRELUDE, bad), &cfg);
    ensure!(!ok, "a program with this misuse is accepted: {}", name);
    if !polonius {
        // The very point: a borrow that is handed out early.
        let k = *g.pick(&["loop", "while yes()"]);
        let text = format!(
            "fn get(v: &mut Vec<{ty}>) -> Option<&mut {ty}> {{ v.first_mut() }}\n\
             pub fn program<'a>(v: &'a mut Vec<{ty}>) -> &'a mut {ty} {{ {n}{k} {{ if let Some(r) = get(v) {{ return COERCED; }} v.push({val}); }} panic!() }}\n"
        );
        let with = text.replace("COERCED", &format!("unsafe {{ osi::polonius::coerce_unsafe!(&'_ mut {ty}, &'a mut {ty}, r) }}"));
        let (ok, why) = accepts(&format!("{}{}", PRELUDE, with));
        ensure!(ok, "an early return of a borrow is rejected: {}", why.lines().next().unwrap_or(""));
    }
    Ok(())
}

fn main() {
    harness::main(vec![Property {
        id: "C54",
        facets: vec![
            Facet::new("mix", 400, 6000, mix, "Two to four nested brand scopes and a use of two identifiers (or brands) that needs both to be of one brand, with values carried through random expressions; both programs differ in which brand one operand is of.").shrinks(300),
            Facet::new("leak", 250, 4000, leak, "A brand or identifier returned, stored, sent or otherwise taken out of its scope, next to a program that takes out a plain value.").shrinks(300),
            Facet::new("forge", 250, 3000, forge, "A brand or identifier made without a scope, cloned, or used again after it was given away.").shrinks(300),
            Facet::new("once", 500, 8000, once, "A once-only reference, made in one of six ways over one of ten target types, used again after it was given away; the intended program assigns a new one in between.").shrinks(300),
            Facet::new("lifetimes", 600, 10000, lifetimes, "Handles made in 24 ways over eight target types, and an object that goes away, is moved, changed or borrowed while the handle is still used; both programs differ in the order of the steps or the place of the declaration.").shrinks(300),
            Facet::new("lent", 250, 3000, lent, "References lent by a handle kept for longer than the signature allows, exclusive ones taken twice or through a shared handle.").shrinks(300),
            Facet::new("variance", 900, 12000, variance, "A type composed of up to five constructors; a conversion between two lifetimes (or function types) in one direction, expected to be accepted as the product of the variances says. Non-trivial if a type of the library is part of it.").shrinks(300),
            Facet::new("threads", 900, 12000, threads, "A handle of a target type composed of up to three constructors, required to be sendable or shareable; expected as the model over the composition says. Non-trivial if nested or sending and sharing differ.").shrinks(300),
            Facet::new("spawned", 200, 2000, spawned, "A handle moved to or shared with a scoped thread, over targets that allow it and targets that do not.").shrinks(300),
            Facet::new("unsafe", 300, 3000, unsafes, "One of 29 operations with obligations for the caller, inside and outside of an unsafe block.").shrinks(300),
        ],
        assumptions: vec![
            "the installed compiler implements the language rules; misuses are drawn from templates with random carriers, types and nesting",
            "programs are checked as libraries up to borrow checking, code generation cannot reject what passed",
        ],
    },
    Property {
        id: "C55",
        facets: vec![
            Facet::new("layout", 250, 4000, marker_layout, "Up to 12 structures per program, in four representations, with and without a marker of a random type among up to four fields; sizes, alignments and offsets are compared by the compiler. Non-trivial with more than one structure.").shrinks(300),
            Facet::new("never", 150, 1500, never, "Programs with the type without values, as intended and misused.").shrinks(300),
            Facet::new("values", 60_000, 1_000_000, marker_values, "Histories on ordered and hashed maps with markers or brands in the keys against a map without them, comparison and hashing of pairs of markers, nested scopes with results and panics. Non-trivial with more than three operations."),
        ],
        assumptions: vec!["the installed compiler lays out types as it does for the users of the library"],
    },
    Property {
        id: "C56",
        facets: vec![
            Facet::new("cascades", 900, 15000, conditions, "Cascades of up to six arms, nested up to two levels, over predicates composed of four random flags, a key with values and empty lists, used for items and for statements; the constants of the program are compared with the arms a model selects. Non-trivial with more than one arm.").shrinks(300),
            Facet::new("syntax", 60, 600, conditions_syntax, "Uses the macro is not made for, next to intended ones.").shrinks(300),
        ],
        assumptions: vec!["the compiler evaluates configuration predicates as documented"],
    },
    Property {
        id: "C57",
        facets: vec![
            Facet::new("values", 200_000, 3_000_000, coerced, "Values of nine kinds (references, slices, strings, trait objects, options, results, boxes, values with drop glue, nested coercions) and how they come out of the coercion: same address, content, number of drops and evaluations. Non-trivial if the list is not empty."),
            Facet::new("programs", 200, 3000, coerce_programs, "Programs using the coercion for seven pairs of types over eight target types with either borrow checker setting, as intended and misused, and the early return of a borrow.").shrinks(300),
        ],
        assumptions: vec!["the alternative borrow checker itself is not available, its setting is checked with coercions both accept"],
    }]);
}
