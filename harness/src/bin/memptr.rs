//! C23/C24 memory views and copies, C25 fields, C26 tagged pointers, C27
//! pointer wrappers, C28 smart pointer conversion, C29 maybe-owned values, C30
//! bridges, C31 uncaught errors.

use core::fmt::Write as _;
use core::hash::{Hash, Hasher};
use core::mem::MaybeUninit;
use core::pin::Pin;
use core::ptr::NonNull;
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::convert::{FromDeref, IntoDeref};
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

/// Hasher that records what it is fed.
#[derive(Default)]
struct Rec(Vec<u8>);

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}

fn hashed<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

type Tally = Rc<RefCell<Vec<u32>>>;

/// Value whose drops are counted per identity.
#[derive(Debug)]
struct Tracked {
    id: usize,
    drops: Tally,
}

impl Tracked {
    fn new(d: &Tally) -> Self {
        let mut v = d.borrow_mut();
        v.push(0);
        Tracked { id: v.len() - 1, drops: d.clone() }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops.borrow_mut()[self.id] += 1;
    }
}

// --- C23 -----------------------------------------------------------------------------

fn view_value<T: Copy + PartialEq + core::fmt::Debug>(g: &mut G, name: &'static str) -> Outcome {
    use osi::mem;
    let n = size_of::<T>();
    let init = g.blob(n);
    // Three neighbours, the middle one is viewed.
    let mut arr: [MaybeUninit<T>; 3] = [MaybeUninit::zeroed(); 3];
    for a in arr.iter_mut() {
        unsafe { core::ptr::copy_nonoverlapping(init.as_ptr(), a.as_mut_ptr() as *mut u8, n) };
    }
    let mut arr: [T; 3] = arr.map(|v| unsafe { v.assume_init() });
    let base = arr[1];
    let mut model = init.clone();
    let addr = &arr[1] as *const T as usize;
    let edits = g.list(6, |g| (g.below(n.max(1)), g.draw(256) as u8));
    unsafe {
        let v = mem::as_bytes(&arr[1]);
        ensure_eq!((v.as_ptr() as usize, v.len()), (addr, n), "extent of byte view of {}", name);
        ensure_eq!(v, &model[..], "byte view of {}", name);
        ensure_eq!(mem::as_uninit(&arr[1]).as_ptr() as usize, addr, "uninit view of {}", name);
        ensure!(*mem::assume_init(mem::as_uninit(&arr[1])) == base, "uninit round trip of {}", name);
        ensure_eq!(mem::assume_init(mem::as_uninit(&arr[1])) as *const T as usize, addr, "init view of {}", name);
        for (i, b) in &edits {
            if n > 0 {
                let v = mem::as_bytes_mut(&mut arr[1]);
                ensure_eq!((v.as_ptr() as usize, v.len()), (addr, n), "extent of mutable byte view of {}", name);
                v[*i] = *b;
                model[*i] = *b;
            }
        }
        ensure_eq!(mem::as_bytes(&arr[1]), &model[..], "edited bytes of {}", name);
        ensure!(arr[0] == base && arr[2] == base, "neighbours of {}", name);
        let p = &raw mut arr[1] as *mut MaybeUninit<T>;
        let m = mem::assume_init_mut(&mut *p);
        ensure_eq!(m as *mut T as usize, addr, "mutable init view of {}", name);
        *m = base;
        ensure_eq!(mem::as_bytes(&arr[1]), &init[..], "write through mutable view of {}", name);
    }
    g.nontrivial_if(!edits.is_empty() && n > 0);
    g.note(|| format!("{} edits {:?}", name, edits));
    g.label(name);
    Ok(())
}

fn views(g: &mut G) -> Outcome {
    match g.below(16) {
        0 => view_value::<u8>(g, "u8"),
        1 => view_value::<u16>(g, "u16"),
        2 => view_value::<u32>(g, "u32"),
        3 => view_value::<u64>(g, "u64"),
        4 => view_value::<u128>(g, "u128"),
        5 => view_value::<()>(g, "()"),
        6 => view_value::<[u8; 3]>(g, "[u8; 3]"),
        7 => view_value::<[u16; 5]>(g, "[u16; 5]"),
        8 => view_value::<[u32; 0]>(g, "[u32; 0]"),
        9 => view_value::<[[u8; 7]; 3]>(g, "[[u8; 7]; 3]"),
        10 => view_value::<(u32, u16, u16)>(g, "(u32, u16, u16)"),
        11 => view_value::<[u64; 9]>(g, "[u64; 9]"),
        12 => view_value::<[u8; 257]>(g, "[u8; 257]"),
        13 => view_value::<i64>(g, "i64"),
        14 => view_value::<usize>(g, "usize"),
        _ => view_value::<[i16; 64]>(g, "[i16; 64]"),
    }
}

fn view_slice<T: Copy + PartialEq + core::fmt::Debug>(g: &mut G, name: &'static str, mk: fn(u64) -> T) -> Outcome {
    use osi::mem;
    let n = g.small(40);
    let mut v: Vec<T> = (0..n + 2).map(|_| mk(g.draw(0))).collect();
    let mut model = v.clone();
    let edits = g.list(5, |g| (g.below(n.max(1)), g.draw(0)));
    let want = (v[1..].as_ptr() as usize, n);
    unsafe {
        let u = mem::slice_as_uninit(&v[1..n + 1]);
        ensure_eq!((u.as_ptr() as usize, u.len()), want, "extent of uninit view of {} x {}", n, name);
        let b = mem::slice_assume_init(u);
        ensure_eq!((b.as_ptr() as usize, b.len()), want, "extent of init view of {} x {}", n, name);
        ensure_eq!(b, &model[1..n + 1], "content of init view");
        let p = &raw mut v[1..n + 1] as *mut [MaybeUninit<T>];
        let m = mem::slice_assume_init_mut(&mut *p);
        ensure_eq!((m.as_ptr() as usize, m.len()), want, "extent of mutable init view of {} x {}", n, name);
        for (i, x) in &edits {
            if n > 0 {
                m[*i] = mk(*x);
                model[i + 1] = mk(*x);
            }
        }
    }
    ensure_eq!(v, model, "content after edits through the view of {}", name);
    g.nontrivial_if(n > 0 && !edits.is_empty());
    g.label_if(n == 0, "empty slice");
    g.note(|| format!("{} x {} edits {:?}", n, name, edits));
    Ok(())
}

fn slices(g: &mut G) -> Outcome {
    match g.below(5) {
        0 => view_slice::<u8>(g, "u8", |v| v as u8),
        1 => view_slice::<u32>(g, "u32", |v| v as u32),
        2 => view_slice::<u128>(g, "u128", |v| (v as u128) << 37 | v as u128),
        3 => view_slice::<(u64, u16)>(g, "(u64, u16)", |v| (v, v as u16)),
        _ => view_slice::<()>(g, "()", |_| ()),
    }
}

fn eq_sizes<const N: usize, const M: usize>(g: &mut G) -> Outcome {
    let a: [u8; N] = g.blob(N).try_into().unwrap();
    let mut b = [0u8; M];
    for i in 0..M {
        b[i] = if i < N { a[i] } else { 0 };
    }
    let flip = g.bool();
    if flip && M > 0 {
        let i = g.below(M);
        b[i] ^= 1 << g.below(8);
    }
    let want = a[..] == b[..];
    unsafe {
        ensure_eq!(osi::mem::eq(&a, &b), want, "memory equality of {:?} and {:?}", a, b);
        ensure_eq!(osi::mem::eq(&b, &a), want, "memory equality of {:?} and {:?}", b, a);
        ensure!(osi::mem::eq(&a, &a.clone()), "memory equality of {:?} with its copy", a);
        let x = g.uint(64) as u64;
        ensure!(osi::mem::eq(&x, &x.to_ne_bytes()), "memory equality of {} with its bytes", x);
        ensure!(!osi::mem::eq(&x, &[x, x]), "memory equality of {} with itself twice", x);
        ensure_eq!(osi::mem::eq(&(x as u32), &[(x >> 16) as u16, x as u16]), (x as u32).to_ne_bytes()[..] == [((x >> 16) as u16).to_ne_bytes(), (x as u16).to_ne_bytes()].concat()[..], "memory equality of parts of {}", x);
    }
    g.nontrivial_if(N > 0 && M > 0);
    g.label_if(want, "equal");
    g.label_if(N != M, "different sizes");
    g.note(|| format!("{:?} {:?}", a, b));
    Ok(())
}

/// Objects of some size, equal up to at most one bit.
fn eq_large<const N: usize>(g: &mut G) -> Outcome {
    let seed = g.blob(7);
    let mut a = Box::new([0u8; N]);
    for (i, v) in a.iter_mut().enumerate() {
        *v = seed[i % 7].wrapping_add((i / 7) as u8);
    }
    let mut b = a.clone();
    ensure!(unsafe { osi::mem::eq(&*a, &*b) }, "memory equality of {} equal bytes", N);
    let at = if g.bool() { N - 1 - g.below(8) } else { g.below(N) };
    b[at] ^= 1 << g.below(8);
    ensure!(!unsafe { osi::mem::eq(&*a, &*b) }, "memory equality of {} bytes that differ at {}", N, at);
    ensure!(!unsafe { osi::mem::eq(&*b, &*a) }, "memory equality of {} bytes that differ at {}", N, at);
    g.nontrivial_if(true);
    g.note(|| format!("{} bytes, different at {}", N, at));
    Ok(())
}

fn equality_large(g: &mut G) -> Outcome {
    match g.below(4) {
        0 => eq_large::<129>(g),
        1 => eq_large::<1500>(g),
        2 => eq_large::<5000>(g),
        _ => eq_large::<70000>(g),
    }
}

fn equality(g: &mut G) -> Outcome {
    macro_rules! m {
        ($n:literal) => {
            match g.below(10) {
                0 | 1 => eq_sizes::<$n, $n>(g),
                2 => eq_sizes::<$n, 0>(g), 3 => eq_sizes::<$n, 1>(g), 4 => eq_sizes::<$n, 2>(g), 5 => eq_sizes::<$n, 4>(g),
                6 => eq_sizes::<$n, 5>(g), 7 => eq_sizes::<$n, 8>(g), 8 => eq_sizes::<$n, 16>(g), _ => eq_sizes::<$n, 33>(g),
            }
        };
    }
    match g.below(9) {
        0 => m!(4), 1 => m!(0), 2 => m!(1), 3 => m!(2), 4 => m!(5), 5 => m!(8), 6 => m!(16), 7 => m!(33), _ => m!(100),
    }
}

// --- C24 -----------------------------------------------------------------------------

fn swap_n<T: Copy>(g: &mut G) -> Outcome {
    let n = size_of::<T>();
    let bytes = g.blob(n);
    let mut m = MaybeUninit::<T>::zeroed();
    unsafe { core::ptr::copy_nonoverlapping(bytes.as_ptr(), m.as_mut_ptr() as *mut u8, n) };
    let v = unsafe { m.assume_init() };
    let r = unsafe { osi::mem::bswap_copy(&v) };
    let get = |v: &T| -> Vec<u8> { unsafe { core::slice::from_raw_parts(v as *const T as *const u8, n) }.to_vec() };
    let rev: Vec<u8> = bytes.iter().rev().copied().collect();
    ensure_eq!(get(&r), rev, "reversal of {} bytes at alignment {}", n, align_of::<T>());
    ensure_eq!(get(&v), bytes, "source of a reversal of {} bytes", n);
    ensure_eq!(get(&unsafe { osi::mem::bswap_copy(&r) }), bytes, "double reversal of {} bytes", n);
    g.nontrivial_if(rev != bytes);
    g.label(if n == 0 { "size 0" } else if n.is_power_of_two() && n <= 16 { "size 1/2/4/8/16" } else { "other size" });
    g.note(|| format!("{:?}", bytes));
    Ok(())
}

/// Large objects.
fn large(g: &mut G) -> Outcome {
    match g.below(10) {
        0 => swap_n::<[u8; 255]>(g),
        1 => swap_n::<[u8; 256]>(g),
        2 => swap_n::<[u8; 1030]>(g),
        3 => swap_n::<[u64; 513]>(g),
        4 => copy_between::<A1<300>, A1<301>>(g),
        5 => copy_between::<A1<300>, A8<1000>>(g),
        6 => copy_between::<A4<5000>, A1<4999>>(g),
        7 => copy_between::<A1<4100>, A16<4112>>(g),
        8 => copy_between::<A2<258>, A64<256>>(g),
        _ => copy_between::<A8<136>, A4<200>>(g),
    }
}

fn swaps(g: &mut G) -> Outcome {
    macro_rules! n {
        ($i:expr, $($n:literal)*) => { match $i { $($n => swap_n::<[u8; $n]>(g),)* _ => swap_n::<[u8; 300]>(g) } };
    }
    let i = g.below(80);
    match i {
        0..=66 => n!(i, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65),
        67 => swap_n::<u8>(g),
        68 => swap_n::<u16>(g),
        69 => swap_n::<u32>(g),
        70 => swap_n::<u64>(g),
        71 => swap_n::<u128>(g),
        72 => swap_n::<[u16; 2]>(g),
        73 => swap_n::<[u16; 3]>(g),
        74 => swap_n::<[u32; 2]>(g),
        75 => swap_n::<[u64; 3]>(g),
        76 => swap_n::<[u128; 2]>(g),
        77 => swap_n::<(u32, u32, u32)>(g),
        78 => swap_n::<usize>(g),
        _ => swap_n::<[[u8; 4]; 2]>(g),
    }
}

macro_rules! aligned_types {
    ($($n:ident $a:literal)*) => { $(
        #[derive(Clone, Copy)]
        #[repr(C, align($a))]
        struct $n<const N: usize>([u8; N]);
        impl<const N: usize> Blob for $n<N> {
            const LEN: usize = N;
        }
    )* };
}

/// Copyable bytes at some alignment.
trait Blob: Copy {
    const LEN: usize;
}

aligned_types! { A1 1 A2 2 A4 4 A8 8 A16 16 A64 64 }

/// Memory that starts aligned and ends after exactly the given size.
struct Ending {
    ptr: *mut u8,
    layout: std::alloc::Layout,
}

impl Ending {
    fn new(size: usize) -> Self {
        let layout = std::alloc::Layout::from_size_align(size, 128).unwrap();
        let ptr = unsafe { std::alloc::alloc_zeroed(layout) };
        assert!(!ptr.is_null(), "harness: no memory");
        Ending { ptr, layout }
    }

    fn get(&mut self) -> &mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.ptr, self.layout.size()) }
    }
}

impl Drop for Ending {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) };
    }
}

fn copy_between<S: Blob, D: Blob>(g: &mut G) -> Outcome {
    let bytes = g.blob(S::LEN);
    // Source at an address that has its own alignment, but no more, and at the
    // very end of its memory.
    let a = align_of::<S>();
    let mut off = 128;
    if a < 64 {
        off += a * (1 + 2 * g.below(2));
    }
    let mut own = Ending::new(off + size_of::<S>());
    let mem = own.get();
    mem[off..off + S::LEN].copy_from_slice(&bytes);
    let before = mem.to_vec();
    let src: &S = unsafe { &*(mem.as_ptr().add(off) as *const S) };
    let dst = unsafe { osi::mem::transmute_copy_uninit::<S, core::mem::MaybeUninit<D>>(src) };
    let n = S::LEN.min(D::LEN);
    let got = unsafe { core::slice::from_raw_parts(dst.as_ptr() as *const u8, n) }.to_vec();
    ensure_eq!(got, bytes[..n].to_vec(), "copy of {} bytes at alignment {} to {} bytes at alignment {}", S::LEN, a, D::LEN, align_of::<D>());
    ensure!(*mem == before[..], "source changed by a copy of {} bytes to {}", S::LEN, D::LEN);
    g.nontrivial_if(n > 0);
    g.label(if S::LEN < D::LEN { "widening" } else if S::LEN > D::LEN { "truncating" } else { "same size" });
    g.label_if(align_of::<D>() > a, "more alignment");
    g.note(|| format!("{} bytes align {} -> {} bytes align {}", S::LEN, a, D::LEN, align_of::<D>()));
    Ok(())
}

fn copies(g: &mut G) -> Outcome {
    macro_rules! dst {
        ($s:ty) => {
            match g.below(12) {
                0 => copy_between::<$s, A1<1>>(g), 1 => copy_between::<$s, A1<0>>(g), 2 => copy_between::<$s, A1<7>>(g),
                3 => copy_between::<$s, A2<2>>(g), 4 => copy_between::<$s, A2<6>>(g), 5 => copy_between::<$s, A4<4>>(g),
                6 => copy_between::<$s, A4<12>>(g), 7 => copy_between::<$s, A8<8>>(g), 8 => copy_between::<$s, A8<3>>(g),
                9 => copy_between::<$s, A16<16>>(g), 10 => copy_between::<$s, A16<48>>(g), _ => copy_between::<$s, A64<64>>(g),
            }
        };
    }
    match g.below(12) {
        0 => dst!(A1<1>), 1 => dst!(A1<3>), 2 => dst!(A1<16>), 3 => dst!(A1<65>), 4 => dst!(A2<2>), 5 => dst!(A2<10>),
        6 => dst!(A4<4>), 7 => dst!(A4<20>), 8 => dst!(A8<8>), 9 => dst!(A8<24>), 10 => dst!(A16<16>), _ => dst!(A64<64>),
    }
}

// --- C25 -----------------------------------------------------------------------------

trait Fill: Clone + PartialEq {
    fn fill(g: &mut G) -> Self;
}

macro_rules! fill_int {
    ($($t:ty)*) => { $(impl Fill for $t { fn fill(g: &mut G) -> Self { g.draw(0) as $t } })* };
}

fill_int!(u8 u16 u32 u64 i8 i16 i32 i64 usize u128);

impl Fill for () {
    fn fill(_: &mut G) -> Self {}
}

impl Fill for bool {
    fn fill(g: &mut G) -> Self {
        g.bool()
    }
}

impl Fill for String {
    fn fill(g: &mut G) -> Self {
        g.draw(0).to_string()
    }
}

impl<T: Fill> Fill for Option<T> {
    fn fill(g: &mut G) -> Self {
        if g.bool() { Some(T::fill(g)) } else { None }
    }
}

impl<T: Fill, const N: usize> Fill for [T; N] {
    fn fill(g: &mut G) -> Self {
        core::array::from_fn(|_| T::fill(g))
    }
}

#[derive(Clone, Copy, PartialEq)]
#[repr(align(64))]
struct Over(u8);

impl Fill for Over {
    fn fill(g: &mut G) -> Self {
        Over(g.draw(256) as u8)
    }
}

/// Bytes that take long to fill one by one.
#[derive(Clone, Copy, PartialEq)]
struct Gap<const N: usize>([u8; N]);

impl<const N: usize> Fill for Gap<N> {
    fn fill(g: &mut G) -> Self {
        let mut v = [g.draw(256) as u8; N];
        v[N - 1] = g.draw(256) as u8;
        Gap(v)
    }
}

macro_rules! containers {
    ($($(#[$m:meta])* $name:ident { $($f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Clone, PartialEq)]
        $(#[$m])*
        struct $name { $($f: $t),* }

        $(unsafe impl osi::meta::Field<{ osi::mem::typed_offset_of!($name, $f, $t) }, $t> for $name {})*

        impl Fill for $name {
            fn fill(g: &mut G) -> Self {
                $name { $($f: Fill::fill(g)),* }
            }
        }

        impl $name {
            fn check(g: &mut G) -> Outcome {
                use osi::meta::{container_of_ptr, field_of, field_of_mut, field_of_ptr};
                let mut arr: Vec<$name> = (0..g.size(1, 4)).map(|_| Fill::fill(g)).collect();
                let k = g.below(arr.len());
                let mut model = arr.clone();
                $({
                    const OFF: usize = osi::mem::typed_offset_of!($name, $f, $t);
                    let what = concat!(stringify!($name), ".", stringify!($f));
                    let c: *mut $name = &raw mut arr[k];
                    let f: *mut $t = unsafe { &raw mut (*c).$f };
                    ensure_eq!(OFF, f as usize - c as usize, "offset of {}", what);
                    ensure_eq!(field_of_ptr::<OFF, $t, $name>(c) as usize, f as usize, "pointer to {}", what);
                    ensure_eq!(container_of_ptr::<OFF, $t, $name>(f) as usize, c as usize, "container of {}", what);
                    ensure_eq!(container_of_ptr::<OFF, $t, $name>(field_of_ptr::<OFF, $t, $name>(c)) as usize, c as usize, "round trip of {}", what);
                    ensure_eq!(field_of::<OFF, $t, $name>(&arr[k]) as *const $t as usize, f as usize, "reference to {}", what);
                    ensure!(*field_of::<OFF, $t, $name>(&arr[k]) == model[k].$f, "value of {}", what);
                    ensure_eq!(field_of_mut::<OFF, $t, $name>(&mut arr[k]) as *mut $t as usize, f as usize, "mutable reference to {}", what);
                    let new: $t = Fill::fill(g);
                    *field_of_mut::<OFF, $t, $name>(&mut arr[k]) = new.clone();
                    model[k].$f = new;
                    ensure!(arr == model, "objects after writing {}", what);
                    let new: $t = Fill::fill(g);
                    unsafe { *field_of_ptr::<OFF, $t, $name>(&raw mut arr[k]) = new.clone() };
                    model[k].$f = new;
                    ensure!(arr == model, "objects after writing {} by pointer", what);
                })*
                g.nontrivial_if(true);
                g.label(stringify!($name));
                g.note(|| format!("{} element {} of {}", stringify!($name), k, model.len()));
                Ok(())
            }
        }
    )* };
}

containers! {
    #[repr(C)]
    SC { a: u8, b: u64, c: u16, d: u32 }
    SRust { a: u8, b: u64, c: u16, d: u8, e: u32, f: u8 }
    #[repr(C, packed)]
    SPacked { a: u8, b: [u8; 5], c: i8, d: [u8; 17] }
    #[repr(C, align(32))]
    SAligned { a: u16, b: u8, c: [u16; 3] }
    SOver { a: u8, b: Over, c: u16 }
    SZero { a: (), b: u32, c: [u64; 0], d: u8 }
    SOwned { a: u8, b: String, c: Option<String>, d: bool, e: u16 }
    SBig { a: [u8; 1000], b: u64, c: [u32; 65], d: u8 }
    SOne { a: u128 }
    SNest { a: u8, b: SC, c: SOwned, d: u16 }
    SSame { a: u32, b: u32, c: u32, d: u32 }
    #[repr(C)]
    SUsize { a: usize, b: usize, c: u8 }
    #[repr(C)]
    SFar { a: u8, b: Gap<200>, c: u8, d: Gap<32700>, e: u32, f: Gap<32900>, g: u64, h: u16 }
    SFarRust { a: Gap<33000>, b: u16, c: Gap<33001>, d: u32, e: u8 }
}

/// Structure far larger than anything touched, to look at pointers only.
#[cfg(target_pointer_width = "64")]
#[repr(C)]
struct SHuge {
    a: u8,
    b: [u8; 1 << 31],
    c: u32,
    d: [u8; 1 << 31],
    e: u64,
    f: u8,
}

#[cfg(target_pointer_width = "64")]
fn huge_fields(g: &mut G) -> Outcome {
    use osi::meta::{container_of_ptr, field_of, field_of_mut, field_of_ptr};
    let which = g.below(5);
    g.nontrivial_if(true);
    g.note(|| format!("field {} of a structure of {} bytes", which, size_of::<SHuge>()));
    let layout = std::alloc::Layout::new::<SHuge>();
    // Pages never touched cost nothing.
    let c: *mut SHuge = unsafe { std::alloc::alloc_zeroed(layout) }.cast();
    if c.is_null() {
        g.label("no memory");
        return Ok(());
    }
    macro_rules! one {
        ($f:ident, $t:ty) => {{
            const OFF: usize = osi::mem::typed_offset_of!(SHuge, $f, $t);
            let f: *mut $t = unsafe { &raw mut (*c).$f };
            let r = unsafe { &mut *c };
            (
                OFF == f as usize - c as usize,
                field_of_ptr::<OFF, $t, SHuge>(c) == f,
                container_of_ptr::<OFF, $t, SHuge>(f) == c,
                field_of::<OFF, $t, SHuge>(r) as *const $t == f.cast_const(),
                field_of_mut::<OFF, $t, SHuge>(r) as *mut $t == f,
            )
        }};
    }
    let r = match which {
        0 => one!(a, u8),
        1 => one!(c, u32),
        2 => one!(d, [u8; 1 << 31]),
        3 => one!(e, u64),
        _ => one!(f, u8),
    };
    unsafe { std::alloc::dealloc(c.cast(), layout) };
    ensure_eq!(r, (true, true, true, true, true), "field {}", which);
    Ok(())
}

#[cfg(target_pointer_width = "64")]
macro_rules! huge {
    ($($f:ident: $t:ty),*) => { $(unsafe impl osi::meta::Field<{ osi::mem::typed_offset_of!(SHuge, $f, $t) }, $t> for SHuge {})* };
}

#[cfg(target_pointer_width = "64")]
huge! { a: u8, c: u32, d: [u8; 1 << 31], e: u64, f: u8 }

fn far_fields(g: &mut G) -> Outcome {
    if g.bool() { SFar::check(g) } else { SFarRust::check(g) }
}

fn fields(g: &mut G) -> Outcome {
    match g.below(12) {
        0 => SC::check(g),
        1 => SRust::check(g),
        2 => SPacked::check(g),
        3 => SAligned::check(g),
        4 => SOver::check(g),
        5 => SZero::check(g),
        6 => SOwned::check(g),
        7 => SBig::check(g),
        8 => SOne::check(g),
        9 => SNest::check(g),
        10 => SSame::check(g),
        _ => SUsize::check(g),
    }
}

// --- C26 -----------------------------------------------------------------------------

fn tagged_hist<T: ?Sized>(g: &mut G, pool: &[NonNull<T>], name: &str) -> Outcome {
    let same = |a: NonNull<T>, b: NonNull<T>| a.addr() == b.addr() && size_of_val(&a) == size_of_val(&b) && raw(&a) == raw(&b);
    let mut cur = pool[g.below(pool.len())];
    let fits = cur.addr().get() % 4 == 0;
    let made = NonNull4::new(cur);
    ensure_eq!(made.is_some(), fits, "creation at {:#x}", cur.addr());
    let Some(mut o) = made else {
        g.label("refused");
        g.note(|| format!("{} {:#x} refused", name, cur.addr()));
        g.nontrivial_if(true);
        return Ok(());
    };
    ensure_eq!((size_of::<NonNull4<T>>(), align_of::<NonNull4<T>>()), (size_of::<NonNull<T>>(), align_of::<NonNull<T>>()), "layout");
    let good: Vec<NonNull<T>> = pool.iter().copied().filter(|p| p.addr().get() % 4 == 0).collect();
    let mut meta = 0usize;
    let mut log = format!("{} {:#x}: ", name, cur.addr());
    let ops = g.list(20, |g| g.below(7));
    for op in &ops {
        match op {
            0 => {
                let m = g.uint(64) as usize;
                log += &format!("meta {:#x} ", m);
                o.set_meta(m);
                meta = m % 4;
            },
            1 => {
                let f = g.bool();
                log += &format!("bit0 {} ", f);
                o.set0(f);
                meta = meta & 2 | f as usize;
            },
            2 => {
                let f = g.bool();
                log += &format!("bit1 {} ", f);
                o.set1(f);
                meta = meta & 1 | (f as usize) << 1;
            },
            3 => {
                let (b, f) = (g.small(usize::BITS as usize - 1) as u8, g.bool());
                log += &format!("bit {} {} ", b, f);
                o.set_meta_bit(b, f);
                if b < 2 {
                    meta = meta & !(1 << b) | (f as usize) << b;
                }
            },
            4 => {
                cur = good[g.below(good.len())];
                log += &format!("ptr {:#x} ", cur.addr());
                unsafe { o.set_ptr_unchecked(cur) };
            },
            5 => {
                log += "rewrap ";
                o = unsafe { NonNull4::new_unchecked(o.ptr()) };
                meta = 0;
            },
            _ => {
                log += "copy ";
                let mut c = unsafe { core::ptr::read(&o) };
                c.set_meta(!meta);
                ensure_eq!((c.meta(), o.meta()), (3 - meta, meta), "tags of a copy after {}", log);
                ensure!(c.ptr().addr() == cur.addr(), "pointer of a copy after {}", log);
            },
        }
        ensure!(same(o.ptr(), cur), "pointer after {}: got {:?}, expected {:?}", log, raw(&o.ptr()), raw(&cur));
        ensure_eq!(o.meta(), meta, "tag after {}", log);
        ensure_eq!((o.get0(), o.get1()), (meta & 1 == 1, meta & 2 == 2), "tag bits after {}", log);
        for b in 0..usize::BITS as u8 {
            ensure_eq!(o.meta_bit(b), b < 2 && meta >> b & 1 == 1, "bit {} after {}", b, log);
        }
    }
    g.nontrivial_if(ops.len() >= 2);
    g.note(|| log.clone());
    Ok(())
}

fn raw<T>(v: &T) -> Vec<u8> {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, size_of::<T>()) }.to_vec()
}

fn tagged(g: &mut G) -> Outcome {
    match g.below(3) {
        0 => {
            // Arbitrary addresses, never dereferenced.
            let pool: Vec<NonNull<u8>> = (0..4)
                .map(|_| {
                    let mut a = g.uint(64) as usize;
                    if g.bool() {
                        a &= !3;
                    }
                    NonNull::new(a as *mut u8).unwrap_or(NonNull::new(4 as *mut u8).unwrap())
                })
                .collect();
            let mut pool = pool;
            pool.push(NonNull::new(8 as *mut u8).unwrap());
            tagged_hist(g, &pool, "address")
        },
        1 => {
            let mut objs: Vec<u32> = (0..4).collect();
            let pool: Vec<NonNull<u32>> = objs.iter_mut().map(NonNull::from).collect();
            tagged_hist(g, &pool, "object")
        },
        _ => {
            let mut a = [1u64, 2, 3, 4];
            let p = a.as_mut_ptr();
            let pool: Vec<NonNull<[u64]>> = (0..4).map(|i| NonNull::slice_from_raw_parts(NonNull::new(unsafe { p.add(i) }).unwrap(), 4 - i)).collect();
            tagged_hist(g, &pool, "slice")
        },
    }
}

// --- C27 -----------------------------------------------------------------------------

/// Chains of conversions between all pointer forms; the raw bits of the
/// pointer (address and metadata) must never change.
fn chain<T: ?Sized>(g: &mut G, start: *mut T, name: &str) -> Outcome {
    let want = raw(&start);
    let mut p: *mut T = start;
    let mut log = format!("{}: ", name);
    let steps = g.list(12, |g| (g.below(8), g.below(8)));
    for (i, o) in &steps {
        log += &format!("{}>{} ", i, o);
        unsafe {
            match i {
                0..=3 => {
                    let v: Ptr<T> = match i {
                        0 => Ptr::from_ref(&*p),
                        1 => Ptr::from(&*p),
                        2 => Ptr::from_ptr(p),
                        _ => Ptr::new(NonNull::new_unchecked(p)),
                    };
                    let v = if g.bool() { v.clone() } else { v };
                    p = match o {
                        0 => v.into_ptr(),
                        1 => v.as_ptr(),
                        2 => v.into_nonnull().as_ptr(),
                        3 => v.as_nonnull().as_ptr(),
                        4 => v.as_ref() as *const T as *mut T,
                        5 => v.into_ref() as *const T as *mut T,
                        6 => NonNull::from(v).as_ptr(),
                        _ => if g.bool() { <*mut T>::from(v) } else { <*const T>::from(v) as *mut T },
                    };
                },
                _ => {
                    let v: OnceRef<T> = match i {
                        4 => OnceRef::from_ref(&*p),
                        5 => OnceRef::from(&mut *p),
                        6 => OnceRef::from_ptr(p),
                        _ => if g.bool() { OnceRef::from_nonnull(NonNull::new_unchecked(p)) } else { OnceRef::from_mut(&mut *p) },
                    };
                    p = match o {
                        0 => v.into_ptr(),
                        1 => v.as_ptr(),
                        2 => v.into_nonnull().as_ptr(),
                        3 => v.as_nonnull().as_ptr(),
                        4 => v.as_ref() as *const T as *mut T,
                        5 => v.into_ref() as *const T as *mut T,
                        6 => NonNull::from(v).as_ptr(),
                        _ => match g.below(3) {
                            0 => <*mut T>::from(v),
                            1 => <*const T>::from(v) as *mut T,
                            _ => &raw const *v as *mut T,
                        },
                    };
                },
            }
        }
        ensure_eq!(raw(&p), want, "pointer after {}", log);
    }
    unsafe {
        ensure_eq!(raw(&osi::ptr::nonnull_from_ref(&*p)), want, "non-null from reference, {}", name);
        ensure_eq!(raw(&osi::ptr::nonnull_from_mut(&mut *p)), want, "non-null from mutable reference, {}", name);
        ensure_eq!(raw(&osi::ptr::nonnull_from_pin_ref(Pin::new_unchecked(&*p))), want, "non-null from pinned reference, {}", name);
        ensure_eq!(raw(&osi::ptr::nonnull_from_pin_ref(Pin::new_unchecked(&mut *p))), want, "non-null from pinned mutable reference, {}", name);
        ensure_eq!(raw(&osi::ptr::nonnull_from_pin_mut(Pin::new_unchecked(&mut *p))), want, "non-null from pinned mutable reference, {}", name);
        ensure_eq!(raw(&osi::pin::as_ptr(Pin::new_unchecked(&*p))), want, "pinned pointer, {}", name);
        ensure_eq!(raw(&osi::pin::as_mut_ptr(Pin::new_unchecked(&mut *p))), want, "pinned mutable pointer, {}", name);
        ensure_eq!(raw(&(*osi::pin::as_inner(&Pin::new_unchecked(&*p)) as *const T)), want, "inner of pinned reference, {}", name);
        let m: Pin<&T> = osi::pin::map_unchecked(Pin::new_unchecked(&mut *p), |v| &*v);
        ensure_eq!(raw(&(&raw const *m)), want, "mapped pinned reference, {}", name);
        let a = OnceRef::pin_from_ref(Pin::new_unchecked(&*p));
        ensure_eq!(raw(&(&raw const *a)), want, "pinned once-reference, {}", name);
        let a = OnceRef::pin_from_mut(Pin::new_unchecked(&mut *p));
        ensure_eq!(raw(&(&raw const *a)), want, "pinned once-reference from mutable, {}", name);
        let a: Pin<OnceRef<T>> = Pin::new_unchecked(&*p).into();
        ensure_eq!(raw(&(&raw const *a)), want, "pinned once-reference by conversion, {}", name);
        let a: Pin<OnceRef<T>> = Pin::new_unchecked(&mut *p).into();
        ensure_eq!(raw(&Pin::into_inner_unchecked(a).into_ptr()), want, "pinned once-reference by mutable conversion, {}", name);
    }
    g.nontrivial_if(steps.len() >= 2);
    g.label(name);
    g.note(|| log.clone());
    Ok(())
}

trait Shape {
    fn get(&self) -> u64;
}

impl Shape for u64 {
    fn get(&self) -> u64 {
        *self
    }
}

fn chains(g: &mut G) -> Outcome {
    match g.below(5) {
        0 => {
            let mut v = g.draw(0);
            chain(g, &raw mut v, "u64")
        },
        1 => {
            let n = g.size(0, 6);
            let mut v = vec![0u16; n + 2];
            chain(g, &raw mut v[1..n + 1], "[u16]")
        },
        2 => {
            let mut s = g.draw(0).to_string();
            let p: *mut str = s.as_mut_str();
            chain(g, p, "str")
        },
        3 => {
            let mut v = g.draw(0);
            let p: *mut dyn Shape = &mut v;
            chain(g, p, "dyn")?;
            ensure_eq!(unsafe { Ptr::from_ptr(p).into_ref() }.get(), v, "call through pointer");
            Ok(())
        },
        _ => {
            let mut v = ();
            chain(g, &raw mut v, "()")
        },
    }
}

fn access(g: &mut G) -> Outcome {
    // Reads and writes act on the object the wrapper was made from.
    let mut objs: Vec<u64> = (0..4).map(|_| g.draw(0)).collect();
    let mut model = objs.clone();
    let base = objs.as_mut_ptr();
    let ops = g.list(12, |g| (g.below(6), g.below(4), g.draw(0)));
    for (k, i, v) in &ops {
        let p = unsafe { base.add(*i) };
        unsafe {
            match k {
                0 => *Ptr::from_ptr(p).into_mut() = *v,
                1 => *Ptr::from_ptr(p).as_mut() = *v,
                2 => *OnceRef::from_ptr(p).into_mut() = *v,
                3 => *OnceRef::from_ptr(p).as_mut() = *v,
                4 => *OnceRef::from_mut(&mut *p).into_mut() = *v,
                _ => *osi::pin::as_mut_ptr(Pin::new(&mut *p)) = *v,
            }
            model[*i] = *v;
            let q = Ptr::from_ptr(p);
            ensure_eq!(*q.as_ref(), *v, "value through pointer");
            let q = OnceRef::from_ptr(p);
            ensure_eq!(*q, *v, "value through once-reference");
        }
        ensure_eq!(objs, model, "objects after write kind {} to {}", k, i);
    }
    g.nontrivial_if(!ops.is_empty());
    g.note(|| format!("{:?}", ops));
    Ok(())
}

fn compare_ptrs(g: &mut G) -> Outcome {
    let objs: Vec<u64> = vec![7; 4];
    let (i, j) = (g.below(4), g.below(4));
    let (a, b) = (&objs[i], &objs[j]);
    let (p, q) = (Ptr::from_ref(a), Ptr::from_ref(b));
    ensure_eq!((p == q, p != q, p.cmp(&q), p.partial_cmp(&q)), (i == j, i != j, i.cmp(&j), i.partial_cmp(&j)), "pointers to {} and {}", i, j);
    ensure_eq!(hashed(&p) == hashed(&q), i == j, "hashes of pointers to {} and {}", i, j);
    let (p, q) = (OnceRef::from_ref(a), OnceRef::from_ref(b));
    ensure_eq!((p == q, p != q, p.cmp(&q), p.partial_cmp(&q)), (i == j, i != j, i.cmp(&j), i.partial_cmp(&j)), "once-references to {} and {}", i, j);
    ensure_eq!(hashed(&p) == hashed(&q), i == j, "hashes of once-references to {} and {}", i, j);
    // Wide targets: address first, then length.
    let (n, m) = (g.size(0, 4 - i), g.size(0, 4 - j));
    let (s, t) = (&objs[i..i + n], &objs[j..j + m]);
    let want = ((i, n) == (j, m), (i, n).cmp(&(j, m)));
    let (p, q) = (Ptr::from_ref(s), Ptr::from_ref(t));
    ensure_eq!((p == q, p.cmp(&q)), want, "wide pointers to {:?} and {:?}", (i, n), (j, m));
    ensure_eq!(hashed(&p) == hashed(&q), want.0, "hashes of wide pointers");
    let (p, q) = (OnceRef::from_ref(s), OnceRef::from_ref(t));
    ensure_eq!((p == q, p.cmp(&q)), want, "wide once-references to {:?} and {:?}", (i, n), (j, m));
    g.nontrivial_if(true);
    g.label_if(want.0, "same wide target");
    g.note(|| format!("{:?} {:?}", (i, n), (j, m)));
    Ok(())
}

fn identity(g: &mut G) -> Outcome {
    use osi::cmp::Identity;
    let objs: Vec<u64> = (0..4).map(|_| g.draw(2)).collect();
    let (i, j) = (g.below(4), g.below(4));
    let (a, b) = (Identity(&objs[i]), Identity(&objs[j]));
    ensure_eq!((a == b, a != b, a.cmp(&b), a.partial_cmp(&b)), (i == j, i != j, i.cmp(&j), i.partial_cmp(&j)), "identity of {} and {} in {:?}", i, j, objs);
    ensure_eq!((a < b, a <= b, a > b, a >= b), (i < j, i <= j, i > j, i >= j), "identity order of {} and {}", i, j);
    ensure_eq!(hashed(&a) == hashed(&b), i == j, "identity hash of {} and {}", i, j);
    // Other pointer kinds.
    let rcs: Vec<Rc<u64>> = objs.iter().map(|v| Rc::new(*v)).collect();
    let (a, b) = (Identity(rcs[i].clone()), Identity(rcs[j].clone()));
    ensure_eq!(a == b, i == j, "identity of counted objects {} and {}", i, j);
    ensure_eq!(a.cmp(&b), (Rc::as_ptr(&rcs[i])).cmp(&Rc::as_ptr(&rcs[j])), "identity order of counted objects");
    ensure_eq!(hashed(&a) == hashed(&b), i == j, "identity hash of counted objects");
    let boxes: Vec<Box<u64>> = objs.iter().map(|v| Box::new(*v)).collect();
    ensure_eq!(Identity(&*boxes[i]) == Identity(&*boxes[j]), i == j, "identity of boxed objects");
    ensure!(Identity(boxes[i].clone()) != Identity(boxes[i].clone()), "identity of two copies");
    // Parts of one slice.
    let (n, m) = (g.size(0, 4 - i), g.size(0, 4 - j));
    ensure_eq!(Identity(&objs[i..i + n]) == Identity(&objs[j..j + m]), (i, n) == (j, m), "identity of parts {:?} and {:?}", (i, n), (j, m));
    let (a, b) = (Identity(&objs[i..i + n]), Identity(&objs[j..j + m]));
    ensure_eq!(a.cmp(&b).is_eq(), a == b, "order of parts {:?} and {:?} against their identity", (i, n), (j, m));
    ensure_eq!((a.cmp(&b), a.partial_cmp(&b)), (b.cmp(&a).reverse(), Some(a.cmp(&b))), "order of parts {:?} and {:?}", (i, n), (j, m));
    if i != j {
        ensure_eq!(a.cmp(&b), i.cmp(&j), "order of parts {:?} and {:?} at different addresses", (i, n), (j, m));
    }
    let parts: std::collections::BTreeSet<Identity<&[u64]>> = (0..=4).flat_map(|k| (k..=4).map(move |l| (k, l))).map(|(k, l)| Identity(&objs[k..l])).collect();
    ensure_eq!(parts.len(), 15, "distinct parts in a set");
    // As a map key.
    let set: std::collections::BTreeSet<Identity<&u64>> = objs.iter().chain(objs.iter()).map(Identity).collect();
    ensure_eq!(set.len(), 4, "distinct objects in a set");
    g.nontrivial_if(i != j && objs[i] == objs[j]);
    g.label_if(i != j && objs[i] == objs[j], "equal but distinct");
    g.note(|| format!("{:?} {} {}", objs, i, j));
    Ok(())
}

// --- C28 -----------------------------------------------------------------------------

macro_rules! smart {
    ($fname:ident, $kind:ident, $target:ty, $mk:expr, $id:expr, $clone:expr, $count:expr) => {
        fn $fname(g: &mut G) -> Outcome {
            enum Slot {
                Full(usize, $kind<$target>),
                Pinned(usize, Pin<$kind<$target>>),
                Bare(usize, OnceRef<'static, $target>),
                BarePinned(usize, Pin<OnceRef<'static, $target>>),
            }
            let tally: Tally = Default::default();
            let mk: fn(&Tally) -> $kind<$target> = $mk;
            let id: fn(&$target) -> usize = $id;
            let dup: Option<fn(&$kind<$target>) -> $kind<$target>> = $clone;
            let count: fn(&$kind<$target>) -> usize = $count;
            let mut slots: Vec<Slot> = Vec::new();
            let mut addr: Vec<usize> = Vec::new();
            let ops = g.list(24, |g| (g.below(7), g.draw(64)));
            let mut log = String::new();
            for (op, sel) in &ops {
                if *op == 0 || slots.is_empty() {
                    let v = mk(&tally);
                    addr.push(&raw const *v as *const u8 as usize);
                    log += &format!("new{} ", addr.len() - 1);
                    slots.push(Slot::Full(addr.len() - 1, v));
                } else {
                    let i = *sel as usize % slots.len();
                    let s = slots.swap_remove(i);
                    log += &format!("op{}@{} ", op, i);
                    match (op, s) {
                        (1 | 2, Slot::Full(n, v)) => {
                            if op == &1 {
                                slots.push(Slot::Bare(n, IntoDeref::into_deref(v)));
                            } else {
                                let p: Pin<$kind<$target>> = unsafe { Pin::new_unchecked(v) };
                                slots.push(Slot::BarePinned(n, IntoDeref::pin_into_deref(p)));
                            }
                        },
                        (1 | 2, Slot::Pinned(n, v)) => slots.push(Slot::BarePinned(n, IntoDeref::pin_into_deref(v))),
                        (1 | 3, Slot::Bare(n, v)) => slots.push(Slot::Full(n, unsafe { FromDeref::from_deref(v) })),
                        (2, Slot::Bare(n, v)) => slots.push(Slot::Bare(n, unsafe { OnceRef::from_ptr(v.into_ptr()) })),
                        (1 | 2 | 3, Slot::BarePinned(n, v)) => slots.push(Slot::Pinned(n, unsafe { FromDeref::pin_from_deref(v) })),
                        (4, Slot::Full(n, v)) => {
                            if let Some(f) = dup {
                                slots.push(Slot::Full(n, f(&v)));
                            }
                            slots.push(Slot::Full(n, v));
                        },
                        (5, Slot::Bare(n, v)) => {
                            let v: $kind<$target> = unsafe { FromDeref::from_deref(v) };
                            let _ = n;
                            drop(v);
                        },
                        (5, Slot::BarePinned(_, v)) => {
                            let v: Pin<$kind<$target>> = unsafe { FromDeref::pin_from_deref(v) };
                            drop(v);
                        },
                        (5, s) => drop(s),
                        (_, Slot::Full(n, v)) => slots.push(Slot::Pinned(n, unsafe { Pin::new_unchecked(v) })),
                        (_, s) => slots.push(s),
                    }
                }
                let mut held = vec![0usize; addr.len()];
                for s in &slots {
                    match s {
                        Slot::Full(n, _) | Slot::Pinned(n, _) | Slot::Bare(n, _) | Slot::BarePinned(n, _) => held[*n] += 1,
                    }
                }
                for s in &slots {
                    let (n, a, i) = match s {
                        Slot::Full(n, v) => {
                            ensure_eq!(count(v), held[*n], "references to object {} after {}", n, log);
                            (*n, &raw const **v as *const u8 as usize, id(&**v))
                        },
                        Slot::Pinned(n, v) => (*n, &raw const **v as *const u8 as usize, id(&**v)),
                        Slot::Bare(n, v) => (*n, &raw const **v as *const u8 as usize, id(&**v)),
                        Slot::BarePinned(n, v) => (*n, &raw const **v as *const u8 as usize, id(&**v)),
                    };
                    ensure_eq!(a, addr[n], "address of object {} after {}", n, log);
                    ensure_eq!(i, n, "content of object {} after {}", n, log);
                }
                for (n, d) in tally.borrow().iter().enumerate() {
                    ensure_eq!(*d, (held[n] == 0) as u32, "drops of object {} after {}", n, log);
                }
            }
            for s in slots {
                match s {
                    Slot::Full(_, v) => drop(v),
                    Slot::Pinned(_, v) => drop(v),
                    Slot::Bare(_, v) => drop(unsafe { <$kind<$target> as FromDeref>::from_deref(v) }),
                    Slot::BarePinned(_, v) => drop(unsafe { <$kind<$target> as FromDeref>::pin_from_deref(v) }),
                }
            }
            for (n, d) in tally.borrow().iter().enumerate() {
                ensure_eq!(*d, 1, "final drops of object {} after {}", n, log);
            }
            g.nontrivial_if(ops.len() >= 3);
            g.label(stringify!($fname));
            g.note(|| format!("{} {}", stringify!($fname), log));
            Ok(())
        }
    };
}

trait Known {
    fn id(&self) -> usize;
}

impl Known for Tracked {
    fn id(&self) -> usize {
        self.id
    }
}

smart!(box_sized, Box, Tracked, |t| Box::new(Tracked::new(t)), |v| v.id, None, |_| 1);
smart!(box_slice, Box, [Tracked], |t| vec![Tracked::new(t)].into_boxed_slice(), |v| v[0].id, None, |_| 1);
smart!(box_dyn, Box, dyn Known, |t| Box::new(Tracked::new(t)), |v| v.id(), None, |_| 1);
smart!(rc_sized, Rc, Tracked, |t| Rc::new(Tracked::new(t)), |v| v.id, Some(Rc::clone), Rc::strong_count);
smart!(rc_slice, Rc, [Tracked], |t| vec![Tracked::new(t)].into(), |v| v[0].id, Some(Rc::clone), Rc::strong_count);
smart!(rc_dyn, Rc, dyn Known, |t| Rc::new(Tracked::new(t)), |v| v.id(), Some(Rc::clone), Rc::strong_count);
smart!(arc_sized, Arc, Tracked, |t| Arc::new(Tracked::new(t)), |v| v.id, Some(Arc::clone), Arc::strong_count);
smart!(arc_slice, Arc, [Tracked], |t| vec![Tracked::new(t)].into(), |v| v[0].id, Some(Arc::clone), Arc::strong_count);
smart!(arc_dyn, Arc, dyn Known, |t| Arc::new(Tracked::new(t)), |v| v.id(), Some(Arc::clone), Arc::strong_count);

fn smarts(g: &mut G) -> Outcome {
    match g.below(9) {
        0 => box_sized(g),
        1 => box_slice(g),
        2 => box_dyn(g),
        3 => rc_sized(g),
        4 => rc_slice(g),
        5 => rc_dyn(g),
        6 => arc_sized(g),
        7 => arc_slice(g),
        _ => arc_dyn(g),
    }
}

macro_rules! weak {
    ($fname:ident, $kind:ident, $weak:path, $target:ty, $make:expr) => {
        fn $fname(g: &mut G) -> Outcome {
            let tally: Tally = Default::default();
            let make: fn(&Tally) -> $kind<$target> = $make;
            let mut strong: Vec<$kind<$target>> = vec![make(&tally)];
            let mut weak: Vec<$weak> = Vec::new();
            let mut bare: Vec<OnceRef<'static, $target>> = Vec::new();
            let addr = &raw const *strong[0] as *const u8 as usize;
            let mut log = String::new();
            let ops = g.list(12, |g| (g.below(6), g.below(8)));
            for (op, i) in &ops {
                match op {
                    0 if !strong.is_empty() => {
                        let v = strong[i % strong.len()].clone();
                        strong.push(v);
                        log += "share ";
                    },
                    1 if !strong.is_empty() => {
                        weak.push($kind::downgrade(&strong[i % strong.len()]));
                        log += "weak ";
                    },
                    2 if strong.len() + bare.len() > 1 && !strong.is_empty() => {
                        strong.swap_remove(i % strong.len());
                        log += "drop ";
                    },
                    3 if !strong.is_empty() => {
                        let v = strong.swap_remove(i % strong.len());
                        bare.push(IntoDeref::into_deref(v));
                        log += "apart ";
                    },
                    4 if !bare.is_empty() => {
                        let v = bare.swap_remove(i % bare.len());
                        strong.push(unsafe { FromDeref::from_deref(v) });
                        log += "rebuild ";
                    },
                    5 if !weak.is_empty() => {
                        drop(weak.swap_remove(i % weak.len()));
                        log += "unweak ";
                    },
                    _ => continue,
                }
                let n = strong.len() + bare.len();
                for v in &strong {
                    ensure_eq!(($kind::strong_count(v), $kind::weak_count(v)), (n, weak.len()), "references after {}", log);
                    ensure_eq!(&raw const **v as *const u8 as usize, addr, "address after {}", log);
                }
                for v in &weak {
                    ensure_eq!((v.strong_count(), v.weak_count()), (n, weak.len()), "references seen by weak ones after {}", log);
                    let u = v.upgrade();
                    ensure_eq!(u.map(|v| &raw const *v as *const u8 as usize), Some(addr), "upgrade after {}", log);
                }
                ensure_eq!(tally.borrow()[0], 0, "drops after {}", log);
            }
            for v in bare {
                drop(unsafe { <$kind<$target> as FromDeref>::from_deref(v) });
            }
            drop(strong);
            ensure_eq!(tally.borrow()[0], 1, "final drops after {}", log);
            for v in &weak {
                ensure!(v.upgrade().is_none(), "upgrade of a dropped object after {}", log);
            }
            g.nontrivial_if(log.contains("apart ") && log.contains("weak "));
            g.label(stringify!($fname));
            g.note(|| format!("{} {}", stringify!($fname), log));
            Ok(())
        }
    };
}

weak!(weak_rc, Rc, std::rc::Weak<Tracked>, Tracked, |t| Rc::new(Tracked::new(t)));
weak!(weak_rc_slice, Rc, std::rc::Weak<[Tracked]>, [Tracked], |t| vec![Tracked::new(t)].into());
weak!(weak_arc, Arc, std::sync::Weak<Tracked>, Tracked, |t| Arc::new(Tracked::new(t)));
weak!(weak_arc_dyn, Arc, std::sync::Weak<dyn Known>, dyn Known, |t| Arc::new(Tracked::new(t)));

fn weaks(g: &mut G) -> Outcome {
    match g.below(4) {
        0 => weak_rc(g),
        1 => weak_rc_slice(g),
        2 => weak_arc(g),
        _ => weak_arc_dyn(g),
    }
}

fn plain_refs(g: &mut G) -> Outcome {
    let mut v = g.draw(0);
    let mut s: Vec<u16> = (0..g.size(0, 5)).map(|i| i as u16).collect();
    let a = &raw const v as usize;
    let b = (s.as_ptr() as usize, s.len());
    let rounds = g.size(1, 6);
    {
        let mut r: &u64 = &v;
        let mut w: &[u16] = &s;
        let mut p: Pin<&u64> = Pin::new(&v);
        for _ in 0..rounds {
            let d = IntoDeref::into_deref(r);
            ensure_eq!(d.as_ptr() as usize, a, "bare shared reference");
            r = unsafe { FromDeref::from_deref(d) };
            w = unsafe { FromDeref::from_deref(IntoDeref::into_deref(w)) };
            let d = IntoDeref::pin_into_deref(p);
            ensure_eq!(&raw const *d as usize, a, "bare pinned reference");
            p = unsafe { FromDeref::pin_from_deref(d) };
        }
        ensure_eq!((r as *const u64 as usize, &raw const *p as usize), (a, a), "rebuilt shared references");
        ensure_eq!((w.as_ptr() as usize, w.len()), b, "rebuilt slice reference");
    }
    let x = g.draw(0);
    {
        let mut r: &mut u64 = &mut v;
        let mut w: &mut [u16] = &mut s;
        for _ in 0..rounds {
            let d = IntoDeref::into_deref(r);
            ensure_eq!(d.as_ptr() as usize, a, "bare mutable reference");
            r = unsafe { FromDeref::from_deref(d) };
            let mut p: Pin<&mut u64> = unsafe { FromDeref::pin_from_deref(IntoDeref::pin_into_deref(Pin::new(r))) };
            *p = x;
            r = Pin::into_inner(p);
            w = unsafe { FromDeref::from_deref(IntoDeref::into_deref(w)) };
        }
        ensure_eq!(*r, x, "write through rebuilt mutable reference");
        ensure_eq!((w.as_ptr() as usize, w.len()), b, "rebuilt mutable slice reference");
    }
    ensure_eq!(v, x, "object after write through rebuilt reference");
    g.nontrivial_if(rounds > 1);
    g.note(|| format!("{} rounds", rounds));
    Ok(())
}

// --- C29 -----------------------------------------------------------------------------

fn mown_text(g: &mut G) -> Outcome {
    let a = g.text(5);
    let b = if g.chance(1, 3) { a.clone() } else { g.text(5) };
    let mk = |own: bool, v: &'static str| -> Mown<'static, str, String> {
        if own { Mown::new_owned(v.to_string()) } else { Mown::new_borrowed(v) }
    };
    // Contents outlive the case on purpose: borrowed for 'static, then freed.
    let (pa, pb) = (Box::into_raw(a.clone().into_boxed_str()), Box::into_raw(b.clone().into_boxed_str()));
    let (sa, sb): (&'static str, &'static str) = unsafe { (&*pa, &*pb) };
    let (oa, ob) = (g.bool(), g.bool());
    let r = (|| -> Outcome {
        let (x, y) = (mk(oa, sa), mk(ob, sb));
        ensure_eq!((x.is_owned(), x.is_borrowed(), y.is_owned(), y.is_borrowed()), (oa, !oa, ob, !ob), "ownership");
        ensure_eq!((&*x, Mown::deref(&y)), (sa, sb), "content");
        if !oa {
            ensure_eq!((*x).as_ptr() as usize, sa.as_ptr() as usize, "borrowed content address");
        }
        ensure_eq!((x == y, x != y), (a == b, a != b), "equality of {:?} and {:?}", a, b);
        ensure_eq!((x.cmp(&y), x.partial_cmp(&y)), (a.cmp(&b), a.partial_cmp(&b)), "order of {:?} and {:?}", a, b);
        ensure_eq!(hashed(&x), hashed(&a[..]), "hash of {:?}", a);
        let t: &[u8] = x.as_ref();
        ensure_eq!(t, a.as_bytes(), "bytes of {:?}", a);
        let t: &str = x.as_ref();
        ensure_eq!(t, a, "text of {:?}", a);
        let dbg = format!("{:?}", x);
        ensure!(dbg.contains(&format!("{:?}", a)), "debug text {} of {:?}", dbg, a);
        let c = x.clone();
        ensure!(c == x && c.is_owned() == oa && *c == *a, "clone of {:?}", a);
        if !oa {
            ensure_eq!((*c).as_ptr() as usize, sa.as_ptr() as usize, "cloned borrow address");
        } else if !a.is_empty() {
            ensure!((*c).as_ptr() != (*x).as_ptr(), "clone of owned content shares memory");
        }
        drop(x);
        ensure_eq!(&*c, a, "clone outlives the original");
        let d: Mown<str, String> = Default::default();
        ensure!(d.is_owned() && d.is_empty(), "default");
        let f: Mown<str, String> = Mown::from(sa);
        ensure!(f.is_borrowed() && *f == *a, "conversion from a reference");
        Ok(())
    })();
    unsafe {
        drop(Box::from_raw(pa));
        drop(Box::from_raw(pb));
    }
    r?;
    g.nontrivial_if(a != b || oa != ob);
    g.label(match (oa, ob) { (true, true) => "owned/owned", (false, false) => "borrowed/borrowed", _ => "mixed" });
    g.label_if(a == b, "equal");
    g.note(|| format!("{:?} {} {:?} {}", a, oa, b, ob));
    Ok(())
}

/// Owned type that counts copies and drops; borrows as its inner object.
struct Owner(Tracked, Rc<RefCell<u32>>);

impl core::borrow::Borrow<Tracked> for Owner {
    fn borrow(&self) -> &Tracked {
        &self.0
    }
}

impl Clone for Owner {
    fn clone(&self) -> Self {
        *self.1.borrow_mut() += 1;
        Owner(Tracked::new(&self.0.drops), self.1.clone())
    }
}

fn mown_drops(g: &mut G) -> Outcome {
    let tally: Tally = Default::default();
    let clones = Rc::new(RefCell::new(0u32));
    let base = Tracked::new(&tally);
    let mut log = String::new();
    let mut n_clones = 0;
    let ops = g.list(14, |g| (g.below(4), g.draw(64)));
    {
        let mut v: Vec<(usize, Mown<Tracked, Owner>)> = Vec::new();
        for (op, sel) in &ops {
            match op {
                0 => {
                    log += "borrow ";
                    v.push((base.id, Mown::new_borrowed(&base)));
                },
                1 => {
                    log += "own ";
                    let t = Tracked::new(&tally);
                    v.push((t.id, Mown::new_owned(Owner(t, clones.clone()))));
                },
                2 if !v.is_empty() => {
                    let i = *sel as usize % v.len();
                    log += &format!("clone{} ", i);
                    let next = tally.borrow().len();
                    let c = v[i].1.clone();
                    ensure_eq!(c.is_owned(), v[i].1.is_owned(), "ownership of a clone after {}", log);
                    let id = if c.is_owned() { n_clones += 1; next } else { base.id };
                    v.push((id, c));
                },
                3 if !v.is_empty() => {
                    let i = *sel as usize % v.len();
                    log += &format!("drop{} ", i);
                    v.swap_remove(i);
                },
                _ => {},
            }
            ensure_eq!(*clones.borrow(), n_clones, "copies of content after {}", log);
            for (id, m) in &v {
                ensure_eq!(m.deref().id, *id, "content after {}", log);
                ensure_eq!(m.is_borrowed(), *id == base.id, "kind after {}", log);
            }
            for (i, d) in tally.borrow().iter().enumerate() {
                let held = i == base.id || v.iter().any(|(id, _)| *id == i);
                ensure_eq!(*d, !held as u32, "drops of {} after {}", i, log);
            }
        }
    }
    let b = base.id;
    ensure_eq!(tally.borrow()[b], 0, "drops of borrowed content after {}", log);
    drop(base);
    for (i, d) in tally.borrow().iter().enumerate() {
        ensure_eq!(*d, 1, "final drops of {} after {}", i, log);
    }
    g.nontrivial_if(ops.len() >= 3);
    g.note(|| log.clone());
    Ok(())
}

fn mown_slices(g: &mut G) -> Outcome {
    let a: Vec<u16> = g.list(5, |g| g.draw(4) as u16);
    let b: Vec<u16> = g.list(5, |g| g.draw(4) as u16);
    let xs: [Mown<[u16], Vec<u16>>; 2] = [Mown::new_borrowed(&a), Mown::new_owned(a.clone())];
    let ys: [Mown<[u16], Vec<u16>>; 2] = [Mown::new_borrowed(&b), Mown::new_owned(b.clone())];
    for x in &xs {
        for y in &ys {
            ensure_eq!((x == y, x.cmp(y), x < y), (a == b, a.cmp(&b), a < b), "comparison of {:?} and {:?}", a, b);
            ensure_eq!(hashed(x), hashed(&a[..]), "hash of {:?}", a);
            ensure_eq!((x.len(), y.len()), (a.len(), b.len()), "lengths");
        }
    }
    // Parts of one object.
    let cut = |g: &mut G| {
        let (i, j) = (g.below(a.len() + 1), g.below(a.len() + 1));
        &a[i.min(j)..i.max(j)]
    };
    let (u, v) = (cut(g), cut(g));
    let (x, y): (Mown<[u16], Vec<u16>>, Mown<[u16], Vec<u16>>) = (Mown::new_borrowed(u), Mown::new_borrowed(v));
    ensure_eq!((x == y, x.cmp(&y), x.partial_cmp(&y), x < y), (u == v, u.cmp(v), u.partial_cmp(v), u < v), "comparison of {:?} and {:?} in one object", u, v);
    // The default owned type is a reference.
    let z: Mown<[u16]> = Mown::new_owned(&a);
    ensure!(z.is_owned() && z.as_ptr() == a.as_ptr() && z.len() == a.len(), "owned reference");
    // Partial orders stay partial.
    let f = [1.0f64, f64::NAN];
    let (i, j) = (g.below(2), g.below(2));
    let (x, y): (Mown<f64, f64>, Mown<f64, f64>) = (Mown::new_owned(f[i]), Mown::new_borrowed(&f[j]));
    ensure_eq!((x == y, x.partial_cmp(&y)), (f[i] == f[j], f[i].partial_cmp(&f[j])), "partial order of {} and {}", f[i], f[j]);
    // Which object is wrapped does not matter, nor whether it is wrapped once or twice.
    let (x, y): (Mown<f64, f64>, Mown<f64, f64>) = (Mown::new_borrowed(&f[i]), Mown::new_borrowed(&f[j]));
    let same = |x: &Mown<f64, f64>, y: &Mown<f64, f64>| (x == y, x != y, x.partial_cmp(y), x < y, x <= y, x > y, x >= y);
    let plain = |x: &f64, y: &f64| (x == y, x != y, x.partial_cmp(y), x < y, x <= y, x > y, x >= y);
    ensure_eq!(same(&x, &y), plain(&f[i], &f[j]), "comparisons of borrowed {} and {}", f[i], f[j]);
    ensure_eq!(same(&x, &x), plain(&f[i], &f[i]), "comparisons of {} with itself", f[i]);
    let o: Mown<f64, f64> = Mown::new_owned(f[i]);
    ensure_eq!(same(&o, &o), plain(&f[i], &f[i]), "comparisons of owned {} with itself", f[i]);
    g.nontrivial_if(a != b);
    g.note(|| format!("{:?} {:?}", a, b));
    Ok(())
}

// --- C30 -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Act {
    Take(usize),
    Interrupt,
    Fail,
    Zero,
}

struct Sink {
    script: Vec<Act>,
    pos: usize,
    got: Vec<u8>,
    failed: bool,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let a = self.script.get(self.pos).copied().unwrap_or(Act::Take(usize::MAX));
        self.pos += 1;
        match a {
            Act::Take(n) => {
                let n = n.max(1).min(b.len());
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            },
            Act::Interrupt => Err(std::io::ErrorKind::Interrupted.into()),
            Act::Fail => {
                self.failed = true;
                Err(std::io::ErrorKind::BrokenPipe.into())
            },
            Act::Zero => {
                self.failed |= !b.is_empty();
                Ok(0)
            },
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(feature = "std")]
fn bridge(g: &mut G) -> Outcome {
    bridge_case(g, 24, 6, false)
}

/// Long texts, delivered in many pieces.
#[cfg(feature = "std")]
fn bridge_long(g: &mut G) -> Outcome {
    bridge_case(g, 300, 4, true)
}

#[cfg(feature = "std")]
fn bridge_case(g: &mut G, acts: usize, calls: usize, long: bool) -> Outcome {
    let faults = g.bool();
    let script = g.list(acts, |g| match g.weighted(&[8, 2, if faults { 2 } else { 0 }, if faults { 1 } else { 0 }]) {
        0 if long => Act::Take(*g.pick(&[1, 7, 127, 128, 255, 256, 257, 1023, 4096, 65536])),
        0 => Act::Take(g.small(20)),
        1 => Act::Interrupt,
        2 => Act::Fail,
        _ => Act::Zero,
    });
    let mut w = osi::compat::Write(Sink { script: script.clone(), pos: 0, got: Vec::new(), failed: false });
    let mut model: Vec<u8> = Vec::new();
    let calls = g.list(calls, |g| {
        let t = g.text(12);
        let t = if long { t.repeat(*g.pick(&[1, 9, 22, 100, 700, 6000])) } else { t };
        (g.below(6), t, g.uint(32) as u32)
    });
    for (k, t, n) in &calls {
        w.0.failed = false;
        let (r, want) = match k {
            0 => (w.write_str(t), t.clone()),
            1 => (w.write_fmt(format_args!("{}<{:>4}>{:?}", t, n, t)), format!("{}<{:>4}>{:?}", t, n, t)),
            2 => (write!(w, "{}", n), n.to_string()),
            // Texts without any argument.
            3 => match n % 4 {
                0 => (write!(w, ""), String::new()),
                1 => (write!(w, "plain"), "plain".into()),
                2 => (writeln!(w, "some longer text \u{20ac} in one piece"), "some longer text \u{20ac} in one piece\n".into()),
                _ => (write!(w, "{{}}{}", "const"), "{}const".into()),
            },
            // Text in front of or behind a single argument, which may be empty.
            4 => match n % 3 {
                0 => (write!(w, "head{}", t), format!("head{}", t)),
                1 => (write!(w, "{}tail", t), format!("{}tail", t)),
                _ => (write!(w, "{0}{0}", t), format!("{0}{0}", t)),
            },
            _ => {
                let c = t.chars().next().unwrap_or('x');
                (w.write_char(c), c.to_string())
            },
        };
        let new = w.0.got[model.len()..].to_vec();
        if r.is_ok() {
            ensure!(!w.0.failed, "sink failure not reported: {:?} {:?}", script, calls);
            ensure_eq!(String::from_utf8_lossy(&new), want, "delivered text");
            ensure!(new == want.as_bytes(), "delivered bytes of {:?}", want);
        } else {
            ensure!(w.0.failed, "failure reported without a sink failure: {:?} {:?}", script, calls);
            ensure!(want.as_bytes().starts_with(&new), "delivered bytes {:?} are no prefix of {:?}", new, want);
            g.label("failure");
        }
        model.extend_from_slice(&new);
        ensure_eq!(w.0.got, model, "sink content");
    }
    g.label_if(script.iter().any(|a| matches!(a, Act::Interrupt)), "interrupted");
    g.label_if(model.len() > 4096, "over 4096 bytes delivered");
    g.nontrivial_if(!calls.is_empty() && !script.is_empty());
    g.note(|| format!("{:?} {:?}", script, calls));
    Ok(())
}

fn os_bytes(g: &mut G) -> Vec<u8> {
    let mut v = g.text(6).into_bytes();
    let edits = g.below(4);
    for _ in 0..edits {
        if !v.is_empty() {
            let i = g.below(v.len());
            v[i] = g.draw(256) as u8;
        }
    }
    if g.chance(1, 3) && !v.is_empty() {
        let n = g.below(v.len());
        v.truncate(n);
    }
    v
}

fn os_strings(g: &mut G) -> Outcome {
    use osi::compat::OsStr;
    let a = os_bytes(g);
    let b = if g.chance(1, 4) { a.clone() } else { os_bytes(g) };
    let valid = std::str::from_utf8(&a).ok();
    let x = unsafe { OsStr::from_encoded_bytes_unchecked(&a) };
    let y = unsafe { OsStr::from_encoded_bytes_unchecked(&b) };
    #[cfg(feature = "std")]
    let std_a = std::os::unix::ffi::OsStrExt::from_bytes(&a[..]);
    let mut all: Vec<&OsStr> = vec![x];
    #[cfg(feature = "std")]
    all.extend([OsStr::from_osstr(std_a), std_a.into()]);
    match OsStr::from_utf8(&a) {
        Ok(v) => {
            ensure!(valid.is_some(), "invalid UTF-8 {:?} accepted", a);
            all.push(v);
        },
        Err(e) => ensure_eq!(Some(e), std::str::from_utf8(&a).err(), "refusal of {:?}", a),
    }
    if let Some(s) = valid {
        all.push(OsStr::from_str(s));
        all.push(s.into());
    }
    for o in &all {
        ensure_eq!(o.as_encoded_bytes(), &a[..], "bytes");
        ensure_eq!(o.as_encoded_bytes().as_ptr() as usize, a.as_ptr() as usize, "address");
        #[cfg(feature = "std")]
        {
            ensure_eq!(o.as_osstr(), std_a, "system string");
            let r: &std::ffi::OsStr = o.as_ref();
            ensure_eq!(r, std_a, "system string by reference");
        }
        ensure_eq!(o.to_str().ok(), valid, "text of {:?}", a);
        ensure_eq!(o.to_str().err(), std::str::from_utf8(&a).err(), "text error of {:?}", a);
        ensure_eq!(o.to_string_lossy(), String::from_utf8_lossy(&a), "lossy text of {:?}", a);
        ensure_eq!((*o == y, (*o).cmp(y), (*o).partial_cmp(y)), (a == b, a.cmp(&b), a.partial_cmp(&b)), "comparison of {:?} and {:?}", a, b);
    }
    g.nontrivial_if(!a.is_empty() && a != b);
    g.label(if valid.is_some() { "valid" } else { "invalid" });
    g.note(|| format!("{:?} {:?}", a, b));
    Ok(())
}

// --- C31 -----------------------------------------------------------------------------

/// Error with separate display and debug texts and a chain of sources.
struct Sample {
    display: String,
    debug: String,
    next: Option<Box<Sample>>,
    _t: Option<Tracked>,
}

impl core::fmt::Display for Sample {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.display)
    }
}

impl core::fmt::Debug for Sample {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.debug)
    }
}

impl std::error::Error for Sample {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.next.as_ref().map(|v| &**v as &(dyn std::error::Error + 'static))
    }
}

fn gen_sample(g: &mut G, t: Option<Tracked>) -> Sample {
    let depth = g.below(4);
    let mut next = None;
    for _ in 0..depth {
        next = Some(Box::new(Sample { display: g.text(4), debug: g.text(4), next, _t: None }));
    }
    Sample { display: g.text(8), debug: g.text(8), next, _t: t }
}

fn uncaught_texts(e: &osi::error::Uncaught, kind: &str, body: Option<(&str, &str)>, chain: &[(String, String)]) -> Outcome {
    match body {
        None => {
            ensure_eq!(format!("{}", e), format!("Uncaught({})", kind), "display text");
            ensure_eq!(format!("{:?}", e), format!("Uncaught::{}()", kind), "debug text");
        },
        Some((display, debug)) => {
            ensure_eq!(format!("{}", e), format!("Uncaught({}): {}", kind, display), "display text");
            ensure_eq!(format!("{:?}", e), format!("Uncaught::{}({})", kind, debug), "debug text");
        },
    }
    // Sources are of the standard library.
    #[cfg(feature = "std")]
    source_chain(e, kind, chain)?;
    #[cfg(not(feature = "std"))]
    let _ = chain;
    Ok(())
}

#[cfg(feature = "std")]
fn source_chain(e: &osi::error::Uncaught, kind: &str, chain: &[(String, String)]) -> Outcome {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    let mut n = 0;
    while let Some(s) = cur {
        ensure!(n < chain.len(), "{} chain longer than {}", kind, chain.len());
        ensure_eq!((s.to_string(), format!("{:?}", s)), chain[n].clone(), "{} chain element {}", kind, n);
        n += 1;
        cur = s.source();
    }
    ensure_eq!(n, chain.len(), "{} chain length", kind);
    Ok(())
}

/// Without the standard library, errors are known by their display text only.
fn error_debug<'a>(display: &'a str, debug: &'a str) -> &'a str {
    if cfg!(feature = "std") { debug } else { display }
}

fn uncaught(g: &mut G) -> Outcome {
    use osi::error::Uncaught;
    let tally: Tally = Default::default();
    let s = gen_sample(g, Some(Tracked::new(&tally)));
    let (di, de) = (s.display.clone(), s.debug.clone());
    let mut chain = Vec::new();
    let mut c = s.next.as_ref();
    while let Some(v) = c {
        chain.push((v.display.clone(), v.debug.clone()));
        c = v.next.as_ref();
    }
    let k = g.below(8);
    g.note(|| format!("kind {} {:?} {:?} chain {}", k, di, de, chain.len()));
    g.label_if(!chain.is_empty(), "with chain");
    g.nontrivial_if(!di.is_empty() && di != de);
    let e = match k {
        0 => Uncaught::box_any(s),
        1 => Uncaught::fold_any(Box::new(s)),
        2 => Uncaught::box_debug(s),
        3 => Uncaught::fold_debug(Box::new(s)),
        4 => Uncaught::box_display(s),
        5 => Uncaught::fold_display(Box::new(s)),
        6 => Uncaught::box_error(s),
        _ => Uncaught::fold_error(Box::new(s)),
    };
    ensure_eq!(tally.borrow()[0], 0, "drops before the error is dropped");
    match k / 2 {
        0 => uncaught_texts(&e, "Any", None, &[])?,
        1 => uncaught_texts(&e, "Debug", Some((&de, &de)), &[])?,
        2 => uncaught_texts(&e, "Display", Some((&di, &di)), &[])?,
        _ => uncaught_texts(&e, "Error", Some((&di, error_debug(&di, &de))), &chain)?,
    }
    if let Uncaught::Any(v) = &e {
        ensure!(v.downcast_ref::<Sample>().is_some_and(|v| v.display == di), "opaque value");
    }
    ensure_eq!(tally.borrow()[0], 0, "drops after formatting");
    drop(e);
    ensure_eq!(tally.borrow()[0], 1, "drops after the error is dropped");

    // Static forms; the object is released once they are gone.
    let s = gen_sample(g, None);
    let (di, de) = (s.display.clone(), s.debug.clone());
    let mut chain = Vec::new();
    let mut c = s.next.as_ref();
    while let Some(v) = c {
        chain.push((v.display.clone(), v.debug.clone()));
        c = v.next.as_ref();
    }
    let p = Box::into_raw(Box::new(s));
    let r: &'static Sample = unsafe { &*p };
    let out = (|| -> Outcome {
        uncaught_texts(&Uncaught::fold_static_any(r), "StaticAny", None, &[])?;
        uncaught_texts(&Uncaught::fold_static_debug(r), "StaticDebug", Some((&de, &de)), &[])?;
        uncaught_texts(&Uncaught::fold_static_display(r), "StaticDisplay", Some((&di, &di)), &[])?;
        uncaught_texts(&Uncaught::fold_static_error(r), "StaticError", Some((&di, error_debug(&di, &de))), &chain)
    })();
    drop(unsafe { Box::from_raw(p) });
    out
}

fn main() {
    harness::main(vec![
        Property {
            id: "C23",
            facets: vec![
                Facet::new("values", 400_000, 8_000_000, views, "16 types, middle of three neighbours; non-trivial: edited through the view"),
                Facet::new("slices", 300_000, 6_000_000, slices, "slices of 0 to 40 elements of five types; non-trivial: non-empty and edited"),
                Facet::new("equality", 400_000, 8_000_000, equality, "pairs of 9 x 10 sizes; non-trivial: both non-empty"),
                Facet::new("large equality", 20_000, 200_000, equality_large, "objects of 129 to 70000 bytes that differ in one bit; every case is non-trivial").shrinks(500),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C24",
            facets: vec![
                Facet::new("reversal", 400_000, 8_000_000, swaps, "sizes 0 to 65, 300 and 13 further types; non-trivial: not a palindrome"),
                Facet::new("copies", 400_000, 8_000_000, copies, "12 x 12 size and alignment combinations, sources at minimal alignment; non-trivial: at least one byte"),
                Facet::new("large", 10_000, 200_000, large, "objects of 136 to 5000 bytes; non-trivial: at least one byte, not a palindrome").shrinks(1000),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C25",
            facets: vec![
                Facet::new("layouts", 300_000, 6_000_000, fields, "12 structure shapes in arrays; every case is non-trivial"),
                Facet::new("far fields", 3_000, 40_000, far_fields, "structures with fields beyond 2^15 and 2^16 bytes; every case is non-trivial").shrinks(500),
                // Not where untouched memory is paid for.
                #[cfg(target_pointer_width = "64")]
                Facet::all("huge", if harness::sanitized() { 0 } else { 5 }, huge_fields, "fields beyond 2^31 and 2^32 bytes; every case is non-trivial"),
            ],
            assumptions: vec!["structure shapes are fixed at compile time of the harness"],
        },
        Property {
            id: "C26",
            facets: vec![Facet::new("histories", 600_000, 12_000_000, tagged, "histories over arbitrary addresses, objects and slices; non-trivial: at least two operations or refused")],
            assumptions: vec![],
        },
        Property {
            id: "C27",
            facets: vec![
                Facet::new("chains", 500_000, 10_000_000, chains, "conversion chains over five targets; non-trivial: at least two conversions"),
                Facet::new("access", 200_000, 4_000_000, access, "writes through wrappers; non-trivial: at least one write"),
                Facet::new("comparison", 200_000, 4_000_000, compare_ptrs, "pairs of pointers into one array; every case is non-trivial"),
                Facet::new("identity", 300_000, 6_000_000, identity, "pairs of objects with few values; non-trivial: distinct objects of equal value"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C28",
            facets: vec![
                Facet::new("histories", 400_000, 8_000_000, smarts, "histories over three pointer kinds and three target kinds; non-trivial: at least three operations"),
                Facet::new("weak", 200_000, 4_000_000, weaks, "histories of shared and weak references to one object; non-trivial: taken apart with weak references around"),
                Facet::new("references", 200_000, 2_000_000, plain_refs, "repeated round trips of plain references; non-trivial: more than one round"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C29",
            facets: vec![
                Facet::new("texts", 300_000, 6_000_000, mown_text, "pairs of texts; non-trivial: different content or ownership"),
                Facet::new("slices", 200_000, 4_000_000, mown_slices, "pairs of slices; non-trivial: different content"),
                Facet::new("drops", 200_000, 4_000_000, mown_drops, "histories with drop-counting content; non-trivial: at least three operations"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C30",
            facets: vec![
                #[cfg(feature = "std")]
                Facet::new("bridge", 300_000, 6_000_000, bridge, "call sequences against scripted sinks; non-trivial: at least one call and one scripted action"),
                #[cfg(feature = "std")]
                Facet::new("long bridge", 20_000, 300_000, bridge_long, "long texts against scripted sinks; non-trivial: at least one call and one scripted action").shrinks(3000),
                Facet::new("os-strings", 300_000, 6_000_000, os_strings, "pairs of byte strings, half of them damaged text; non-trivial: non-empty and different"),
            ],
            assumptions: vec!["unix OS strings"],
        },
        Property {
            id: "C31",
            facets: vec![Facet::new("errors", 300_000, 6_000_000, uncaught, "all wrapping kinds of errors with generated texts and chains; non-trivial: display and debug text differ")],
            assumptions: vec![],
        },
    ])
}
