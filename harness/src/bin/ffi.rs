//! C17/C18 fixed-endian numbers, C19 fixed-layout integers, C20 packed values,
//! C21 fixed-layout pointers, C22 foreign ABI tables.

use core::fmt::{Debug, Display};
use core::hash::{Hash, Hasher};
use core::mem::{align_of, size_of};
use core::num::*;
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use osi::align::{AlignAs, Aligned};
use osi::ffi::{self, BigEndian, Integer, LittleEndian, NativeEndian, Packed, Pointer};

// --- value types -----------------------------------------------------------------

trait Val: Copy + Debug + Display + Eq + Ord + Hash + 'static {
    const NAME: &'static str;
    fn gen(g: &mut G) -> Self;
    /// Little-endian bytes, most significant last.
    fn le(self) -> Vec<u8>;
    fn default_value() -> Option<Self>;
    fn ne(self) -> Vec<u8> {
        let mut v = self.le();
        if cfg!(target_endian = "big") {
            v.reverse();
        }
        v
    }
    fn be(self) -> Vec<u8> {
        let mut v = self.le();
        v.reverse();
        v
    }
}

macro_rules! val_int {
    ($($t:ty, $nz:ty;)*) => { $(
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(g: &mut G) -> Self { g.uint(<$t>::BITS) as $t }
            fn le(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
            fn default_value() -> Option<Self> { Some(0) }
        }
        impl Val for $nz {
            const NAME: &'static str = stringify!($nz);
            fn gen(g: &mut G) -> Self {
                let v = g.uint(<$t>::BITS) as $t;
                <$nz>::new(v).unwrap_or(<$nz>::new(1).unwrap())
            }
            fn le(self) -> Vec<u8> { self.get().to_le_bytes().to_vec() }
            fn default_value() -> Option<Self> { None }
        }
    )* };
}

val_int! {
    i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize;
    u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize;
}

const N_TYPES: usize = 24;

macro_rules! for_type {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i {
            0 => $f::<u16>($($a),*), 1 => $f::<u32>($($a),*), 2 => $f::<u64>($($a),*), 3 => $f::<u128>($($a),*),
            4 => $f::<i16>($($a),*), 5 => $f::<i32>($($a),*), 6 => $f::<i64>($($a),*), 7 => $f::<i128>($($a),*),
            8 => $f::<u8>($($a),*), 9 => $f::<i8>($($a),*), 10 => $f::<usize>($($a),*), 11 => $f::<isize>($($a),*),
            12 => $f::<NonZeroU16>($($a),*), 13 => $f::<NonZeroU32>($($a),*), 14 => $f::<NonZeroU64>($($a),*),
            15 => $f::<NonZeroU128>($($a),*), 16 => $f::<NonZeroI16>($($a),*), 17 => $f::<NonZeroI32>($($a),*),
            18 => $f::<NonZeroI64>($($a),*), 19 => $f::<NonZeroI128>($($a),*), 20 => $f::<NonZeroU8>($($a),*),
            21 => $f::<NonZeroI8>($($a),*), 22 => $f::<NonZeroUsize>($($a),*), _ => $f::<NonZeroIsize>($($a),*),
        }
    };
}

/// Bytes of an object without padding.
fn raw_bytes<T>(v: &T) -> Vec<u8> {
    let mut r = vec![0u8; size_of::<T>()];
    unsafe { core::ptr::copy_nonoverlapping(v as *const T as *const u8, r.as_mut_ptr(), r.len()) };
    r
}

/// First bytes of an object.
fn lead_bytes<T>(v: &T, n: usize) -> Vec<u8> {
    let mut r = vec![0u8; n.min(size_of::<T>())];
    unsafe { core::ptr::copy_nonoverlapping(v as *const T as *const u8, r.as_mut_ptr(), r.len()) };
    r
}

/// Hasher that records what it is fed.
#[derive(Default, PartialEq, Eq, Debug)]
struct Rec(Vec<u8>);

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}

fn hashed<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut h = Rec::default();
    v.hash(&mut h);
    h.0
}

fn formats<T: Display>(v: &T, width: usize, prec: usize) -> Vec<String> {
    vec![
        format!("{}", v),
        format!("{:+}", v),
        format!("{:08}", v),
        format!("{:<1$}|", v, width),
        format!("{:>1$}", v, width),
        format!("{:^1$}|", v, width),
        format!("{:*^+1$}", v, width),
        format!("{:01$}", v, width),
        format!("{:#}", v),
        format!("{:.*}", prec, v),
    ]
}

// --- C17 -----------------------------------------------------------------------------

fn endian_value<T: Val + NativeEndian<T>>(g: &mut G) -> Outcome
where
    BigEndian<T>: NativeEndian<T>,
    LittleEndian<T>: NativeEndian<T>,
{
    let v = T::gen(g);
    g.nontrivial_if(v.le() != v.be());
    g.label(T::NAME);
    g.note(|| format!("{} {}", T::NAME, v));

    macro_rules! order {
        ($w:ident, $bytes:expr, $what:expr) => {{
            let e = $bytes;
            ensure_eq!((size_of::<$w<T>>(), align_of::<$w<T>>()), (size_of::<T>(), align_of::<T>()), "layout of {} {}", $what, T::NAME);
            // Stored bytes, for every way of creation.
            let made: [(&str, $w<T>); 5] = [
                ("inherent", $w::<T>::from_native(v)),
                ("trait", <$w<T> as NativeEndian<T>>::from_native(v)),
                ("free", ffi::from_native::<$w<T>, T>(v)),
                ("module", ffi::endian::from_native::<$w<T>, T>(v)),
                ("num", ffi::abi::native::num::<$w<T>, T>(v)),
            ];
            for (path, w) in made {
                ensure_eq!(raw_bytes(&w), e, "{} bytes of {} {} by {}", $what, T::NAME, v, path);
                // Read back, for every way of access.
                ensure_eq!(w.to_native(), v, "{} {} {} read back (inherent) of {}", $what, T::NAME, v, path);
                ensure_eq!(<$w<T> as NativeEndian<T>>::to_native(w), v, "{} {} {} read back (trait)", $what, T::NAME, v);
                ensure_eq!(ffi::to_native::<$w<T>, T>(w), v, "{} {} {} read back (free)", $what, T::NAME, v);
                ensure_eq!(ffi::endian::to_native::<$w<T>, T>(w), v, "{} {} {} read back (module)", $what, T::NAME, v);
                // Raw access keeps the bytes.
                ensure_eq!(w.to_raw().ne(), e, "raw of {} {} {}", $what, T::NAME, v);
                ensure_eq!(<$w<T> as NativeEndian<T>>::to_raw(w).ne(), e, "raw (trait) of {} {} {}", $what, T::NAME, v);
                ensure_eq!(ffi::to_raw::<$w<T>, T>(w).ne(), e, "raw (free) of {} {} {}", $what, T::NAME, v);
                ensure_eq!(ffi::endian::to_raw::<$w<T>, T>(w).ne(), e, "raw (module) of {} {} {}", $what, T::NAME, v);
            }
            let raws: [$w<T>; 4] = [
                $w::<T>::from_raw(v),
                <$w<T> as NativeEndian<T>>::from_raw(v),
                ffi::from_raw::<$w<T>, T>(v),
                ffi::endian::from_raw::<$w<T>, T>(v),
            ];
            for w in raws {
                ensure_eq!(raw_bytes(&w), v.ne(), "{} {} {} from raw", $what, T::NAME, v);
                ensure_eq!(w.to_raw(), v, "{} {} {} raw round trip", $what, T::NAME, v);
            }
        }};
    }
    order!(BigEndian, v.be(), "big-endian");
    order!(LittleEndian, v.le(), "little-endian");

    // Native types convert to themselves.
    ensure_eq!(<T as NativeEndian<T>>::from_native(v), v, "native {}", T::NAME);
    ensure_eq!(<T as NativeEndian<T>>::to_native(v), v, "native {}", T::NAME);
    ensure_eq!(<T as NativeEndian<T>>::from_raw(v), v, "native raw {}", T::NAME);
    ensure_eq!(<T as NativeEndian<T>>::to_raw(v), v, "native raw {}", T::NAME);
    ensure_eq!(ffi::abi::native::num::<T, T>(v), v, "native number {}", T::NAME);
    Ok(())
}

fn endian_values(g: &mut G) -> Outcome {
    let i = g.below(N_TYPES);
    for_type!(i, endian_value, g)
}

/// All 16-bit values.
fn endian_u16(g: &mut G) -> Outcome {
    let hi = g.below(256) as u16;
    for lo in (0..256u16).step_by(if cfg!(miri) { 17 } else { 1 }) {
        let v = hi << 8 | lo;
        ensure_eq!(raw_bytes(&BigEndian::<u16>::from_native(v)), vec![(v >> 8) as u8, v as u8], "big-endian {}", v);
        ensure_eq!(raw_bytes(&LittleEndian::<u16>::from_native(v)), vec![v as u8, (v >> 8) as u8], "little-endian {}", v);
        ensure_eq!(BigEndian::<i16>::from_native(v as i16).to_native(), v as i16, "big-endian {}", v as i16);
        ensure_eq!(BigEndian::<u16>::from_raw(v).to_native(), u16::from_be(v), "raw {}", v);
        ensure_eq!(raw_bytes(&BigEndian::<u8>::from_native(lo as u8)), vec![lo as u8], "byte {}", lo);
    }
    g.nontrivial_if(true);
    g.note(|| format!("{:#x}..", hi << 8));
    Ok(())
}

// --- C18 -----------------------------------------------------------------------------

fn gen_pair<T: Val>(g: &mut G) -> (T, T) {
    let a = T::gen(g);
    let b = if g.chance(1, 4) { a } else { T::gen(g) };
    (a, b)
}

fn follow<T: Val, W: Copy + Eq + Ord + Hash + Display>(g: &mut G, what: &str, mk: impl Fn(T) -> W) -> Outcome {
    let (a, b) = gen_pair::<T>(g);
    let (wa, wb) = (mk(a), mk(b));
    let (width, prec) = (g.size(0, 45), g.size(0, 5));
    g.note(|| format!("{} {} {} {}", what, T::NAME, a, b));
    g.nontrivial_if(a != b);
    ensure_eq!(wa == wb, a == b, "{} {} {} == {}", what, T::NAME, a, b);
    ensure_eq!(wa != wb, a != b, "{} {} {} != {}", what, T::NAME, a, b);
    ensure_eq!(wa.cmp(&wb), a.cmp(&b), "{} {} order of {} and {}", what, T::NAME, a, b);
    ensure_eq!(wa.partial_cmp(&wb), a.partial_cmp(&b), "{} {} partial order of {} and {}", what, T::NAME, a, b);
    ensure_eq!((wa < wb, wa <= wb, wa > wb, wa >= wb), (a < b, a <= b, a > b, a >= b), "{} {} operators on {} and {}", what, T::NAME, a, b);
    ensure!(wa.max(wb) == mk(a.max(b)) && wa.min(wb) == mk(a.min(b)), "{} {} max/min of {} and {}", what, T::NAME, a, b);
    ensure_eq!(hashed(&wa), hashed(&a), "{} {} hash of {}", what, T::NAME, a);
    ensure_eq!(hashed(&[wa, wb][..]), {
        let mut h = Rec::default();
        h.write_usize(2);
        a.hash(&mut h);
        b.hash(&mut h);
        h.0
    }, "{} {} slice hash of {} {}", what, T::NAME, a, b);
    ensure_eq!(formats(&wa, width, prec), formats(&a, width, prec), "{} {} formatting of {} width {}", what, T::NAME, a, width);
    let c = wa.clone();
    ensure!(c == wa, "{} {} clone of {}", what, T::NAME, a);
    // Sorting follows the values.
    let list: Vec<T> = (0..g.size(0, 6)).map(|_| T::gen(g)).collect();
    let mut l: Vec<W> = list.iter().map(|v| mk(*v)).collect();
    let mut e = list.clone();
    l.sort();
    e.sort();
    ensure!(l.iter().zip(&e).all(|(x, y)| *x == mk(*y)), "{} {} sorting {:?}", what, T::NAME, list);
    Ok(())
}

fn endian_follow<T: Val>(g: &mut G) -> Outcome
where
    BigEndian<T>: NativeEndian<T>,
    LittleEndian<T>: NativeEndian<T>,
{
    g.label(T::NAME);
    follow::<T, _>(g, "big-endian", BigEndian::<T>::from_native)?;
    follow::<T, _>(g, "little-endian", LittleEndian::<T>::from_native)
}

fn endian_follows(g: &mut G) -> Outcome {
    let i = g.below(N_TYPES);
    for_type!(i, endian_follow, g)
}

fn endian_defaults(g: &mut G) -> Outcome {
    macro_rules! d {
        ($($t:ty),*) => { $(
            ensure_eq!(BigEndian::<$t>::default().to_native(), <$t>::default(), "default of big-endian {}", stringify!($t));
            ensure_eq!(LittleEndian::<$t>::default().to_native(), <$t>::default(), "default of little-endian {}", stringify!($t));
            ensure_eq!(Integer::<BigEndian<$t>, AlignAs<4>>::default().to_native::<$t>(), <$t>::default(), "default of integer {}", stringify!($t));
            ensure_eq!(Packed::<$t>::default().get(), <$t>::default(), "default of packed {}", stringify!($t));
        )* };
    }
    d!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    g.nontrivial_if(true);
    g.note(|| "all defaults".to_string());
    Ok(())
}

// --- C19 -----------------------------------------------------------------------------

fn round_up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

#[repr(C)]
struct Around<X>(u8, X, u8);

fn layout_of<T: Val>(_: ()) -> Outcome {
    macro_rules! l {
        ($($a:literal),*) => { $(
            let (s, a) = (size_of::<Integer<T, AlignAs<$a>>>(), align_of::<Integer<T, AlignAs<$a>>>());
            ensure_eq!((s, a), (round_up(size_of::<T>(), $a), $a), "layout of {} at alignment {}", T::NAME, $a);
            let (s, a) = (size_of::<Integer<BigEndian<T>, AlignAs<$a>>>(), align_of::<Integer<LittleEndian<T>, AlignAs<$a>>>());
            ensure_eq!((s, a), (round_up(size_of::<T>(), $a), $a), "layout of endian {} at alignment {}", T::NAME, $a);
            if T::default_value().is_none() {
                ensure_eq!(size_of::<Option<Integer<T, AlignAs<$a>>>>(), round_up(size_of::<T>(), $a), "optional {} at {}", T::NAME, $a);
                ensure_eq!(size_of::<Option<Integer<BigEndian<T>, AlignAs<$a>>>>(), round_up(size_of::<T>(), $a), "optional {} at {}", T::NAME, $a);
            }
            ensure_eq!(core::mem::offset_of!(Around<Integer<T, AlignAs<$a>>>, 1), $a, "placement of {} at {}", T::NAME, $a);
            ensure_eq!(core::mem::offset_of!(Around<Integer<T, AlignAs<$a>>>, 2), $a + round_up(size_of::<T>(), $a), "placement after {} at {}", T::NAME, $a);
        )* };
    }
    l!(1, 2, 4, 8, 16, 32, 64, 128);
    ensure_eq!((size_of::<Integer<T, usize>>(), align_of::<Integer<T, usize>>()),
        (round_up(size_of::<T>(), align_of::<usize>()), align_of::<usize>()), "layout of {} at native alignment", T::NAME);
    Ok(())
}

fn integer_layout(g: &mut G) -> Outcome {
    let i = g.below(N_TYPES);
    g.nontrivial_if(true);
    g.note(|| format!("type {}", i));
    for_type!(i, layout_of, ())
}

/// Alignment markers themselves.
fn markers(g: &mut G) -> Outcome {
    use osi::align::*;
    macro_rules! m {
        ($($t:ty, $a:expr;)*) => { $(
            ensure_eq!((size_of::<$t>(), align_of::<$t>()), (0, $a), "marker {}", stringify!($t));
            ensure_eq!(size_of::<[$t; 3]>(), 0, "marker array {}", stringify!($t));
        )* };
    }
    m! {
        Align1, 1; Align2, 2; Align4, 4; Align8, 8; Align16, 16; Align32, 32; Align64, 64; Align128, 128;
        AlignAs<1>, 1; AlignAs<2>, 2; AlignAs<4>, 4; AlignAs<8>, 8; AlignAs<16>, 16; AlignAs<32>, 32; AlignAs<64>, 64; AlignAs<128>, 128;
        AlignAny, 1; AlignNative, align_of::<usize>();
    }
    macro_rules! o {
        ($($t:ty),*) => { $(
            ensure_eq!((size_of::<AlignOf<$t>>(), align_of::<AlignOf<$t>>()), (0, align_of::<$t>()), "marker of {}", stringify!($t));
            ensure_eq!((size_of::<<$t as Aligned>::Align>(), align_of::<<$t as Aligned>::Align>()), (0, align_of::<$t>()), "alignment of {}", stringify!($t));
        )* };
    }
    o!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, char, bool, (), [u16; 3], [u64; 0], &u8, &mut u64, *const u8, *mut u16);
    ensure_eq!((size_of::<AlignOf<str>>(), align_of::<AlignOf<str>>()), (0, 1), "marker of str");
    ensure_eq!((size_of::<AlignOf<[u32]>>(), align_of::<AlignOf<[u32]>>()), (0, 4), "marker of slice");
    macro_rules! c {
        ($($t:ty),*) => { $(
            let (a, b) = (<$t>::default(), <$t>::default());
            ensure!(a == b && a.cmp(&b) == core::cmp::Ordering::Equal && a.partial_cmp(&b) == Some(core::cmp::Ordering::Equal), "markers {} differ", stringify!($t));
            ensure_eq!(hashed(&a), hashed(&b), "marker hash {}", stringify!($t));
            ensure!(a.clone() == b, "marker clone");
        )* };
    }
    c!(Align1, Align2, Align4, Align8, Align16, Align32, Align64, Align128, AlignAs<1>, AlignAs<8>, AlignAs<128>, AlignOf<u64>, AlignOf<[u32]>, AlignNative);
    g.nontrivial_if(true);
    g.note(|| "all markers".to_string());
    Ok(())
}

#[derive(Clone, Copy)]
struct Ops {
    kind: usize,
    sel: usize,
}

fn gen_ops(g: &mut G) -> Vec<Ops> {
    g.list(16, |g| Ops { kind: g.below(9), sel: g.below(3) })
}

/// Histories on one slot of an array of three; `stored` gives the expected
/// memory of a value.
fn integer_hist<T, V, A>(g: &mut G, what: &str, wrap: fn(T) -> V, stored: fn(T) -> Vec<u8>) -> Outcome
where
    T: Val,
    V: Copy + NativeEndian<T> + Debug + Eq + Ord + Hash + Display,
    A: Aligned,
{
    let mut cur: [T; 3] = [T::gen(g), T::gen(g), T::gen(g)];
    let mut obj: [Integer<V, A>; 3] = [Integer::new(wrap(cur[0])), Integer::from(wrap(cur[1])), Integer::from_native(cur[2])];
    let ops = gen_ops(g);
    let mut log = format!("{} {} align {}: ", what, T::NAME, align_of::<A::Align>());
    for op in &ops {
        let s = op.sel;
        let v = T::gen(g);
        match op.kind {
            0 => {
                log += &format!("set[{}]={} ", s, v);
                obj[s].set(wrap(v));
                cur[s] = v;
            },
            1 => {
                log += &format!("replace[{}]={} ", s, v);
                let old = obj[s].replace(wrap(v));
                ensure!(old == wrap(cur[s]), "replaced value {:?} after {}", old, log);
                cur[s] = v;
            },
            2 => {
                log += &format!("assign[{}]={} ", s, v);
                obj[s] = Integer::from_native(v);
                cur[s] = v;
            },
            3 => {
                log += &format!("copy[{}] ", s);
                let mut c = obj[s];
                c.set(wrap(v));
                let d = obj[s].clone();
                obj[(s + 1) % 3] = d;
                cur[(s + 1) % 3] = cur[s];
            },
            4 => {
                log += &format!("ptr[{}]={} ", s, v);
                unsafe { core::ptr::write_unaligned(obj[s].as_mut_ptr(), wrap(v)) };
                cur[s] = v;
            },
            5 => {
                log += &format!("raw[{}] ", s);
                let r: T = obj[s].to_raw();
                ensure_eq!(r.ne(), stored(cur[s]), "raw value after {}", log);
                let b: Integer<V, A> = Integer::from_raw(r);
                ensure!(b == obj[s], "raw round trip after {}", log);
                obj[s] = b;
            },
            6 => {
                log += &format!("inner[{}] ", s);
                let i = obj[s].into_inner();
                ensure!(i == wrap(cur[s]), "inner value after {}", log);
                obj[s] = Integer::new(i);
            },
            7 => {
                log += &format!("traits[{}] ", s);
                let t = (s + 1) % 3;
                ensure_eq!(obj[s] == obj[t], wrap(cur[s]) == wrap(cur[t]), "equality after {}", log);
                ensure_eq!(obj[s].cmp(&obj[t]), wrap(cur[s]).cmp(&wrap(cur[t])), "order after {}", log);
                ensure_eq!(obj[s].partial_cmp(&obj[t]), wrap(cur[s]).partial_cmp(&wrap(cur[t])), "partial order after {}", log);
                ensure_eq!(hashed(&obj[s]), hashed(&wrap(cur[s])), "hash after {}", log);
                ensure_eq!(formats(&obj[s], 12, 2), formats(&wrap(cur[s]), 12, 2), "format after {}", log);
                ensure_eq!(format!("{:?}", obj[s]), format!("Integer({:?})", wrap(cur[s])), "debug format after {}", log);
            },
            _ => {
                log += &format!("opt[{}] ", s);
                if T::default_value().is_none() {
                    let o: Option<Integer<V, A>> = Some(obj[s]);
                    let n: Option<Integer<V, A>> = None;
                    ensure!(o.is_some() && n.is_none(), "optional forms after {}", log);
                    ensure_eq!(lead_bytes(&o, size_of::<T>()), stored(cur[s]), "optional memory after {}", log);
                    ensure_eq!(lead_bytes(&n, size_of::<T>()), vec![0; size_of::<T>()], "absent memory after {}", log);
                }
            },
        }
        for i in 0..3 {
            ensure!(obj[i].get() == wrap(cur[i]), "value {} is {:?} after {}", i, obj[i].get(), log);
            ensure_eq!(obj[i].to_native::<T>(), cur[i], "native value {} after {}", i, log);
            ensure_eq!(lead_bytes(&obj[i], size_of::<T>()), stored(cur[i]), "memory of {} after {}", i, log);
            ensure_eq!(obj[i].as_ptr() as usize, &obj[i] as *const _ as usize, "address of {} after {}", i, log);
        }
    }
    g.nontrivial_if(ops.len() >= 2);
    g.label(T::NAME);
    g.label(what);
    g.note(|| log.clone());
    Ok(())
}

fn integer_t<T: Val + NativeEndian<T>, A: Aligned>(g: &mut G) -> Outcome
where
    BigEndian<T>: NativeEndian<T>,
    LittleEndian<T>: NativeEndian<T>,
{
    match g.below(3) {
        0 => integer_hist::<T, T, A>(g, "native", |v| v, |v| v.ne()),
        1 => integer_hist::<T, BigEndian<T>, A>(g, "big", BigEndian::from_native, |v| v.be()),
        _ => integer_hist::<T, LittleEndian<T>, A>(g, "little", LittleEndian::from_native, |v| v.le()),
    }
}

fn integers(g: &mut G) -> Outcome {
    // Each value type with three alignments: none, its own or more, much more.
    macro_rules! t {
        ($g:expr, $($i:literal: $t:ty, $a:literal, $b:literal;)*) => {
            match $g.below(12) {
                $($i => match $g.below(3) {
                    0 => integer_t::<$t, AlignAs<1>>($g),
                    1 => integer_t::<$t, AlignAs<$a>>($g),
                    _ => integer_t::<$t, AlignAs<$b>>($g),
                },)*
                _ => unreachable!(),
            }
        };
    }
    t! { g,
        0: u32, 4, 8; 1: u16, 2, 4; 2: u64, 4, 8; 3: u128, 16, 8; 4: i32, 2, 64; 5: i64, 8, 16; 6: u8, 2, 128;
        7: NonZeroU32, 4, 8; 8: NonZeroU64, 8, 32; 9: NonZeroI16, 2, 16; 10: NonZeroU128, 4, 16; 11: isize, 8, 32;
    }
}

// --- owned values -----------------------------------------------------------------------

/// Value whose drops are counted per identity.
#[derive(Debug)]
struct Tracked {
    id: usize,
    drops: std::rc::Rc<std::cell::RefCell<Vec<u32>>>,
}

thread_local! {
    static DEFAULTS: std::cell::RefCell<Option<std::rc::Rc<std::cell::RefCell<Vec<u32>>>>> = const { std::cell::RefCell::new(None) };
}

impl Tracked {
    fn new(d: &std::rc::Rc<std::cell::RefCell<Vec<u32>>>) -> Self {
        let mut v = d.borrow_mut();
        v.push(0);
        Tracked { id: v.len() - 1, drops: d.clone() }
    }
}

impl Default for Tracked {
    fn default() -> Self {
        DEFAULTS.with(|d| Tracked::new(d.borrow().as_ref().expect("harness: no tally")))
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops.borrow_mut()[self.id] += 1;
    }
}

trait Slot: Sized {
    fn new(v: Tracked) -> Self;
    fn set(&mut self, v: Tracked);
    fn replace(&mut self, v: Tracked) -> Tracked;
    fn take(&mut self) -> Tracked;
    fn into_inner(self) -> Tracked;
    fn ptr(&self) -> *const Tracked;
    fn ptr_mut(&mut self) -> *mut Tracked;
}

macro_rules! slot {
    ($t:ty) => {
        impl Slot for $t {
            fn new(v: Tracked) -> Self { <$t>::new(v) }
            fn set(&mut self, v: Tracked) { <$t>::set(self, v) }
            fn replace(&mut self, v: Tracked) -> Tracked { <$t>::replace(self, v) }
            fn take(&mut self) -> Tracked { <$t>::take(self) }
            fn into_inner(self) -> Tracked { <$t>::into_inner(self) }
            fn ptr(&self) -> *const Tracked { <$t>::as_ptr(self) }
            fn ptr_mut(&mut self) -> *mut Tracked { <$t>::as_mut_ptr(self) }
        }
    };
}

slot!(Packed<Tracked>);
slot!(Integer<Tracked, AlignAs<1>>);
slot!(Integer<Tracked, AlignAs<32>>);

fn owned<S: Slot>(g: &mut G, what: &str) -> Outcome {
    let tally = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    DEFAULTS.with(|d| *d.borrow_mut() = Some(tally.clone()));
    let id_of = |s: &S| -> usize { unsafe { core::ptr::read_unaligned(core::ptr::addr_of!((*s.ptr()).id)) } };
    // A boxed buffer to place the slot at any address its alignment permits.
    let a = align_of::<S>();
    let mut buf = vec![0u8; size_of::<S>() + 128];
    let base = buf.as_mut_ptr() as usize;
    let off = if a == 1 { g.below(64) } else { base.next_multiple_of(a) - base };
    let p = unsafe { buf.as_mut_ptr().add(off) as *mut S };
    let first = Tracked::new(&tally);
    let mut cur = first.id;
    unsafe { core::ptr::write(p, S::new(first)) };
    let s: &mut S = unsafe { &mut *p };
    let mut log = format!("{} at +{}: ", what, off);
    let mut live: Vec<Tracked> = Vec::new();
    let ops = g.list(14, |g| g.below(6));
    for op in &ops {
        match op {
            0 => {
                let v = Tracked::new(&tally);
                let id = v.id;
                log += &format!("set {} ", id);
                s.set(v);
                ensure_eq!(tally.borrow()[cur], 1, "drops of the overwritten value after {}", log);
                cur = id;
            },
            1 => {
                let v = Tracked::new(&tally);
                let id = v.id;
                log += &format!("replace {} ", id);
                let old = s.replace(v);
                ensure_eq!(old.id, cur, "replaced value after {}", log);
                cur = id;
                live.push(old);
            },
            2 => {
                log += "take ";
                let old = s.take();
                ensure_eq!(old.id, cur, "taken value after {}", log);
                cur = id_of(s);
                ensure_eq!(cur, tally.borrow().len() - 1, "default left behind after {}", log);
                live.push(old);
            },
            3 => {
                log += "unwrap/rewrap ";
                let v = unsafe { core::ptr::read(s) }.into_inner();
                ensure_eq!(v.id, cur, "inner value after {}", log);
                unsafe { core::ptr::write(s, S::new(v)) };
            },
            4 => {
                log += "through pointer ";
                let v = Tracked::new(&tally);
                let id = v.id;
                let old = unsafe {
                    let q = s.ptr_mut();
                    let o = core::ptr::read_unaligned(q);
                    core::ptr::write_unaligned(q, v);
                    o
                };
                ensure_eq!(old.id, cur, "value behind pointer after {}", log);
                cur = id;
                live.push(old);
            },
            _ => {
                log += "drop taken ";
                live.pop();
            },
        }
        ensure_eq!(id_of(s), cur, "stored value after {}", log);
        // Exactly the values that are neither stored nor held are dropped.
        let t = tally.borrow();
        for (i, n) in t.iter().enumerate() {
            let held = i == cur || live.iter().any(|v| v.id == i);
            ensure_eq!(*n, if held { 0 } else { 1 }, "drops of value {} after {}", i, log);
        }
    }
    drop(live);
    if g.bool() {
        let v = unsafe { core::ptr::read(p) }.into_inner();
        ensure_eq!(v.id, cur, "final inner value after {}", log);
        ensure_eq!(tally.borrow()[cur], 0, "drops of the final value after {}", log);
        drop(v);
    } else {
        unsafe { core::ptr::drop_in_place(p) };
    }
    DEFAULTS.with(|d| *d.borrow_mut() = None);
    for (i, n) in tally.borrow().iter().enumerate() {
        ensure_eq!(*n, 1, "final drops of value {} after {}", i, log);
    }
    g.nontrivial_if(ops.len() >= 2);
    g.label_if(off % 8 != 0, "misaligned");
    g.note(|| log.clone());
    Ok(())
}

fn owned_packed(g: &mut G) -> Outcome {
    owned::<Packed<Tracked>>(g, "packed")
}

fn owned_integer(g: &mut G) -> Outcome {
    if g.bool() {
        owned::<Integer<Tracked, AlignAs<1>>>(g, "integer align 1")
    } else {
        owned::<Integer<Tracked, AlignAs<32>>>(g, "integer align 32")
    }
}

fn packed_plain<T: Val>(g: &mut G) -> Outcome {
    ensure_eq!((size_of::<Packed<T>>(), align_of::<Packed<T>>()), (size_of::<T>(), 1), "layout of packed {}", T::NAME);
    let n = size_of::<T>();
    let off = g.below(17);
    let mut mem = g.blob(n + 48);
    let mut model = mem.clone();
    let at = off + 8;
    let p = unsafe { mem.as_mut_ptr().add(at) as *mut Packed<T> };
    let mut cur = T::gen(g);
    unsafe { core::ptr::write(p, Packed::new(cur)) };
    model[at..at + n].copy_from_slice(&cur.ne());
    let mut log = format!("{} at +{}: ", T::NAME, off);
    let ops = g.list(12, |g| g.below(6));
    for op in &ops {
        let v = T::gen(g);
        let o: &mut Packed<T> = unsafe { &mut *p };
        match op {
            0 => {
                log += &format!("set {} ", v);
                o.set(v);
                cur = v;
            },
            1 => {
                log += &format!("replace {} ", v);
                ensure_eq!(o.replace(v), cur, "replaced value after {}", log);
                cur = v;
            },
            2 => {
                log += "copy ";
                let mut c = *o;
                c.set(v);
                let d = o.clone();
                ensure_eq!((c.get(), d.get(), d.into_inner()), (v, cur, cur), "copies after {}", log);
            },
            3 => {
                log += &format!("ptr {} ", v);
                ensure_eq!(o.as_ptr() as usize, p as usize, "address after {}", log);
                unsafe { core::ptr::write_unaligned(o.as_mut_ptr(), v) };
                cur = v;
            },
            4 => {
                log += "traits ";
                let w = if g.bool() { cur } else { v };
                let q = Packed::from(w);
                ensure_eq!(*o == q, cur == w, "equality after {}", log);
                ensure_eq!((*o).cmp(&q), cur.cmp(&w), "order after {}", log);
                ensure_eq!((*o).partial_cmp(&q), cur.partial_cmp(&w), "partial order after {}", log);
                ensure_eq!(hashed(&*o), hashed(&cur), "hash after {}", log);
                ensure_eq!(formats(&*o, 14, 3), formats(&cur, 14, 3), "format after {}", log);
                ensure_eq!(format!("{:?}", *o), format!("Packed({:?})", cur), "debug after {}", log);
            },
            _ => {
                log += "assign ";
                *o = Packed::new(v);
                cur = v;
            },
        }
        ensure_eq!(unsafe { (*p).get() }, cur, "value after {}", log);
        model[at..at + n].copy_from_slice(&cur.ne());
        ensure!(mem == model, "memory around the value changed after {}", log);
    }
    g.nontrivial_if(!ops.is_empty());
    g.label_if(off % 8 != 0, "misaligned");
    g.label(T::NAME);
    g.note(|| log.clone());
    Ok(())
}

fn packed(g: &mut G) -> Outcome {
    let i = g.below(N_TYPES);
    for_type!(i, packed_plain, g)
}

fn packed_take(g: &mut G) -> Outcome {
    // Default-able plain and composite values.
    let (a, b) = (g.uint(64) as u64, g.uint(32) as u32);
    let mut p = Packed::new((a, b, [b as u16; 3]));
    ensure_eq!(p.take(), (a, b, [b as u16; 3]), "taken composite");
    ensure_eq!(p.get(), Default::default(), "default composite left");
    ensure_eq!((size_of::<Packed<(u64, u32, [u16; 3])>>(), align_of::<Packed<(u64, u32, [u16; 3])>>()), (size_of::<(u64, u32, [u16; 3])>(), 1), "composite layout");
    let mut i = Integer::<u64, AlignAs<16>>::new(a);
    ensure_eq!(i.take(), a, "taken integer");
    ensure_eq!(i.get(), 0, "default integer left");
    let s: String = b.to_string();
    let mut q = Packed::new(s.clone());
    ensure_eq!(q.take(), s, "taken string");
    ensure_eq!(q.into_inner(), String::new(), "default string left");
    g.nontrivial_if(a != 0);
    g.note(|| format!("{} {}", a, b));
    Ok(())
}

// --- C21 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Obj {
    a: u64,
    b: [u8; 3],
}

fn pointer_native<A>(g: &mut G, what: &'static str) -> Outcome
where
    A: Copy + ffi::NativeAddress<Obj> + ffi::NativeAddress<u8> + Eq + Ord + Hash,
{
    // Addresses of real objects.
    let mut objs: Vec<Box<Obj>> = (0..3).map(|i| Box::new(Obj { a: g.uint(64) as u64, b: [i as u8; 3] })).collect();
    let addr: Vec<usize> = objs.iter_mut().map(|o| &mut **o as *mut Obj as usize).collect();
    let i = g.below(3);
    let made: Vec<(&str, Pointer<A, Obj>)> = vec![
        ("reference", Pointer::from(&*objs[i])),
        ("mutable reference", Pointer::from(&mut *objs[i])),
        ("machine word", Pointer::from_usize(addr[i]).ok_or("valid address refused".to_string())?),
        ("unchecked word", unsafe { Pointer::from_usize_unchecked(addr[i]) }),
        ("converted word", Pointer::try_from(addr[i]).map_err(|_| "valid address refused".to_string())?),
        ("const pointer", Pointer::try_from(addr[i] as *const Obj).map_err(|_| "valid pointer refused".to_string())?),
        ("mut pointer", Pointer::try_from(addr[i] as *mut Obj).map_err(|_| "valid pointer refused".to_string())?),
    ];
    for (how, p) in &made {
        ensure_eq!(p.to_usize(), addr[i], "{} address made from {}", what, how);
        ensure_eq!(p.into_usize(), addr[i], "{} address (by value) made from {}", what, how);
        ensure_eq!((p.as_ptr() as usize, p.as_mut_ptr() as usize), (addr[i], addr[i]), "{} pointers made from {}", what, how);
        ensure!(unsafe { p.as_ref() } == &*objs[i], "{} object reached from {}", what, how);
        let v = g.uint(64) as u64;
        unsafe { p.as_mut() }.a = v;
        ensure_eq!(objs[i].a, v, "{} write through {}", what, how);
        ensure!(<A as ffi::NativeAddress<Obj>>::to_usize(p.address()) == addr[i], "{} inner address from {}", what, how);
        ensure_eq!(p.cast::<u8>().to_usize(), addr[i], "{} cast from {}", what, how);
        ensure_eq!(p.cast_into::<u8>().cast::<Obj>().to_usize(), addr[i], "{} double cast from {}", what, how);
        ensure_eq!(Pointer::<A, Obj>::new(p.into_inner()).to_usize(), addr[i], "{} rewrap from {}", what, how);
        ensure_eq!(<A as ffi::NativeAddress<Obj>>::into_usize(p.get()), addr[i], "{} copied address from {}", what, how);
    }
    // Arbitrary words, never dereferenced.
    let (x, y) = (g.uint(64) as usize, g.uint(64) as usize);
    for w in [x, y, 0] {
        let r = [
            Pointer::<A, Obj>::from_usize(w),
            Pointer::try_from(w).ok(),
            Pointer::try_from(w as *const Obj).ok(),
            Pointer::try_from(w as *mut Obj).ok(),
            <A as ffi::NativeAddress<Obj>>::from_usize(w).map(Pointer::new),
        ];
        for v in r {
            ensure_eq!(v.map(|p| p.to_usize()), if w == 0 { None } else { Some(w) }, "{} made from word {:#x}", what, w);
        }
    }
    if let (Some(p), Some(q)) = (Pointer::<A, Obj>::from_usize(x), Pointer::<A, Obj>::from_usize(y)) {
        ensure_eq!((p == q, p.cmp(&q), p.partial_cmp(&q)), (x == y, x.cmp(&y), x.partial_cmp(&y)), "{} comparison of {:#x} and {:#x}", what, x, y);
        ensure_eq!(hashed(&p), hashed(&x), "{} hash of {:#x}", what, x);
        let mut m = p;
        ensure!(m.replace(q.get()) == p.get() && m == q, "{} replace {:#x} by {:#x}", what, x, y);
        m.set(p.get());
        ensure!(m == p && m.clone().to_usize() == x, "{} set back {:#x}", what, x);
        g.nontrivial_if(true);
    }
    ensure!(Pointer::<A, Obj>::dangling().to_usize() != 0, "{} dangling is null", what);
    ensure!(Pointer::<A, u8>::dangling().to_usize() != 0, "{} dangling is null", what);
    ensure!(<A as ffi::NativeAddress<Obj>>::to_usize(&<A as ffi::NativeAddress<Obj>>::dangling()) != 0, "{} dangling address is null", what);
    ensure_eq!((size_of::<Pointer<A, Obj>>(), align_of::<Pointer<A, Obj>>()), (size_of::<A>(), align_of::<A>()), "{} layout", what);
    g.label(what);
    g.note(|| format!("{} words {:#x} {:#x}", what, x, y));
    Ok(())
}

// The fixed-width integers that can hold an address on this platform.
#[cfg(target_pointer_width = "32")]
type Word = u32;
#[cfg(target_pointer_width = "32")]
type NonZeroWord = NonZeroU32;
#[cfg(target_pointer_width = "64")]
type Word = u64;
#[cfg(target_pointer_width = "64")]
type NonZeroWord = NonZeroU64;

/// Placeholder addresses for targets of various layouts.
fn danglings(g: &mut G) -> Outcome {
    #[repr(align(4096))]
    struct Page;
    #[repr(align(65536))]
    struct Far([u8; 65537]);
    let _ = Far([0; 65537]).0[0];
    let i = g.below(4);
    macro_rules! d {
        ($($t:ty),*) => { $(
            let v = match i {
                0 => Pointer::<usize, $t>::dangling().to_usize(),
                1 => Pointer::<NonZeroUsize, $t>::dangling().to_usize(),
                2 => Pointer::<Integer<Word, AlignAs<4>>, $t>::dangling().to_usize(),
                _ => Pointer::<Integer<NonZeroWord, AlignAs<16>>, $t>::dangling().to_usize(),
            };
            ensure!(v != 0, "dangling pointer to {} is null", stringify!($t));
        )* };
    }
    d!((), [u64; 0], [u8; 0], Page, Far, u8, u16, u128, [u8; 3], String);
    g.nontrivial_if(true);
    g.note(|| format!("representation {}", i));
    Ok(())
}

fn pointers(g: &mut G) -> Outcome {
    match g.below(8) {
        0 => pointer_native::<usize>(g, "usize"),
        1 => pointer_native::<NonZeroUsize>(g, "NonZeroUsize"),
        2 => pointer_native::<Word>(g, "word"),
        3 => pointer_native::<NonZeroWord>(g, "non-zero word"),
        4 => pointer_native::<Integer<usize, AlignAs<8>>>(g, "Integer usize 8"),
        5 => pointer_native::<Integer<Word, AlignAs<4>>>(g, "Integer word 4"),
        6 => pointer_native::<Integer<NonZeroWord, AlignAs<16>>>(g, "Integer non-zero word 16"),
        _ => pointer_native::<Integer<NonZeroUsize, AlignAs<1>>>(g, "Integer NonZeroUsize 1"),
    }
}

/// Pointers over foreign representations: only the address value matters.
fn pointer_foreign<T: Val, A>(g: &mut G, what: &'static str, stored: fn(T) -> Vec<u8>) -> Outcome
where
    A: Copy + NativeEndian<T> + Eq + Ord + Hash + Display + Debug,
{
    let (x, y) = gen_pair::<T>(g);
    let p: Pointer<A, Obj> = Pointer::from_native(x);
    let mut q: Pointer<A, Obj> = Pointer::new(A::from_native(y));
    ensure_eq!((size_of::<Pointer<A, Obj>>(), align_of::<Pointer<A, Obj>>()), (size_of::<A>(), align_of::<A>()), "{} layout", what);
    ensure_eq!(lead_bytes(&p, size_of::<T>()), stored(x), "{} memory of {}", what, x);
    ensure_eq!((p.to_native::<T>(), q.to_native::<T>()), (x, y), "{} addresses", what);
    ensure_eq!(p.to_raw::<T>().ne(), stored(x), "{} raw of {}", what, x);
    ensure!(Pointer::<A, Obj>::from_raw(p.to_raw::<T>()) == p, "{} raw round trip of {}", what, x);
    ensure!(ffi::abi::native::num::<Pointer<A, Obj>, T>(x) == p, "{} number {}", what, x);
    ensure!(p.get() == A::from_native(x) && *p.address() == A::from_native(x) && p.into_inner() == A::from_native(x), "{} inner of {}", what, x);
    ensure_eq!((p == q, p.cmp(&q), p.partial_cmp(&q)), (x == y, x.cmp(&y), x.partial_cmp(&y)), "{} comparison of {} and {}", what, x, y);
    ensure_eq!(hashed(&p), hashed(&x), "{} hash of {}", what, x);
    ensure_eq!(formats(&p, 20, 2), formats(&x, 20, 2), "{} format of {}", what, x);
    ensure_eq!(format!("{:?}", p), format!("Pointer({:?})", A::from_native(x)), "{} debug of {}", what, x);
    ensure_eq!(p.cast::<u16>().to_native::<T>(), x, "{} cast of {}", what, x);
    ensure_eq!(p.cast_into::<[u64; 4]>().to_native::<T>(), x, "{} cast of {}", what, x);
    ensure!(q.replace(p.get()) == A::from_native(y) && q == p, "{} replace", what);
    q.set(A::from_native(y));
    ensure!(q.to_native::<T>() == y && p.to_native::<T>() == x, "{} set", what);
    g.nontrivial_if(x != y);
    g.label(what);
    g.note(|| format!("{} {} {}", what, x, y));
    Ok(())
}

fn pointers_foreign(g: &mut G) -> Outcome {
    match g.below(8) {
        0 => pointer_foreign::<u64, BigEndian<u64>>(g, "big u64", |v| v.be()),
        1 => pointer_foreign::<u32, LittleEndian<u32>>(g, "little u32", |v| v.le()),
        2 => pointer_foreign::<NonZeroU64, Integer<BigEndian<NonZeroU64>, AlignAs<8>>>(g, "big NonZeroU64 8", |v| v.be()),
        3 => pointer_foreign::<NonZeroU32, Integer<BigEndian<NonZeroU32>, AlignAs<8>>>(g, "big NonZeroU32 8", |v| v.be()),
        4 => pointer_foreign::<NonZeroU64, Integer<LittleEndian<NonZeroU64>, AlignAs<8>>>(g, "x86_64 address", |v| v.le()),
        5 => pointer_foreign::<NonZeroU32, Integer<LittleEndian<NonZeroU32>, AlignAs<4>>>(g, "x86 address", |v| v.le()),
        6 => pointer_foreign::<NonZeroU64, Integer<LittleEndian<NonZeroU64>, AlignAs<1>>>(g, "packed address", |v| v.le()),
        _ => pointer_foreign::<u16, u16>(g, "u16", |v| v.ne()),
    }
}

// --- C22 -------------------------------------------------------------------------------------

#[repr(C)]
struct Pair<A, B>(A, B);
#[repr(C)]
struct Quad<A, B, C, D>(A, B, C, D);

/// Name, size and alignment as given by the platform ABI documents.
type Row = (&'static str, usize, usize);

const LP64: [Row; 16] = [
    ("I8", 1, 1), ("I16", 2, 2), ("I32", 4, 4), ("I64", 8, 8), ("I128", 16, 16), ("Isize", 8, 8),
    ("U8", 1, 1), ("U16", 2, 2), ("U32", 4, 4), ("U64", 8, 8), ("U128", 16, 16), ("Usize", 8, 8),
    ("F32", 4, 4), ("F64", 8, 8), ("Addr", 8, 8), ("Ptr", 8, 8),
];

/// System V i386: 8-byte types are 4-byte aligned.
const ILP32_I386: [Row; 16] = [
    ("I8", 1, 1), ("I16", 2, 2), ("I32", 4, 4), ("I64", 8, 4), ("I128", 16, 16), ("Isize", 4, 4),
    ("U8", 1, 1), ("U16", 2, 2), ("U32", 4, 4), ("U64", 8, 4), ("U128", 16, 16), ("Usize", 4, 4),
    ("F32", 4, 4), ("F64", 8, 4), ("Addr", 4, 4), ("Ptr", 4, 4),
];

/// System V s390x: nothing is aligned to more than 8 bytes.
#[cfg(target_arch = "s390x")]
const LP64_S390X: [Row; 16] = [
    ("I8", 1, 1), ("I16", 2, 2), ("I32", 4, 4), ("I64", 8, 8), ("I128", 16, 8), ("Isize", 8, 8),
    ("U8", 1, 1), ("U16", 2, 2), ("U32", 4, 4), ("U64", 8, 8), ("U128", 16, 8), ("Usize", 8, 8),
    ("F32", 4, 4), ("F64", 8, 8), ("Addr", 8, 8), ("Ptr", 8, 8),
];

fn struct_layout(rows: &[Row]) -> (Vec<usize>, usize, usize) {
    let (mut pos, mut al) = (0, 1);
    let mut offs = Vec::new();
    for (_, s, a) in rows {
        pos = round_up(pos, *a);
        offs.push(pos);
        pos += s;
        al = al.max(*a);
    }
    (offs, round_up(pos, al), al)
}

macro_rules! abi_check {
    ($fname:ident, $pname:ident, $abi:ident, $table:expr, $($i:literal $t:ident),*) => {
        fn $pname<A>(a: usize) -> Outcome {
            use ffi::abi::$abi::*;
            let t = &$table;
            $(
                let (o, s, al) = struct_layout(&[t[a], t[$i]]);
                ensure_eq!(vec![core::mem::offset_of!(Pair<A, $t>, 0), core::mem::offset_of!(Pair<A, $t>, 1)], o, "members {} {} of {}", t[a].0, t[$i].0, stringify!($abi));
                ensure_eq!((size_of::<Pair<A, $t>>(), align_of::<Pair<A, $t>>()), (s, al), "structure {} {} of {}", t[a].0, t[$i].0, stringify!($abi));
                let (o, s, al) = struct_layout(&[t[6], t[a], t[7], t[$i]]);
                ensure_eq!(core::mem::offset_of!(Quad<U8, A, U16, $t>, 3), o[3], "members u8 {} u16 {} of {}", t[a].0, t[$i].0, stringify!($abi));
                ensure_eq!((size_of::<Quad<U8, A, U16, $t>>(), align_of::<Quad<U8, A, U16, $t>>()), (s, al), "structure u8 {} u16 {} of {}", t[a].0, t[$i].0, stringify!($abi));
                ensure_eq!(size_of::<[Pair<A, $t>; 3]>(), 3 * struct_layout(&[t[a], t[$i]]).1, "array of {} {}", t[a].0, t[$i].0);
            )*
            Ok(())
        }
        fn $fname(i: usize) -> Outcome {
            use ffi::abi::$abi::*;
            let t = &$table;
            match i {
                $($i => {
                    ensure_eq!((size_of::<$t>(), align_of::<$t>()), (t[$i].1, t[$i].2), "layout of {} of {}", t[$i].0, stringify!($abi));
                    $pname::<$t>($i)
                },)*
                _ => {
                    ensure_eq!((size_of::<Ptr<u64>>(), align_of::<Ptr<u64>>()), (t[15].1, t[15].2), "layout of pointers of {}", stringify!($abi));
                    ensure_eq!((size_of::<Ptr<u8>>(), size_of::<Option<Ptr<u8>>>(), size_of::<Option<Addr>>()), (t[15].1, t[15].1, t[14].1), "optional pointers of {}", stringify!($abi));
                    $pname::<Ptr<u16>>(15)
                },
            }
        }
    };
    ($fname:ident, $pname:ident, $abi:ident, $table:expr) => {
        abi_check!($fname, $pname, $abi, $table,
            0 I8, 1 I16, 2 I32, 3 I64, 4 I128, 5 Isize, 6 U8, 7 U16, 8 U32, 9 U64, 10 U128, 11 Usize, 12 F32, 13 F64, 14 Addr);
    };
}

abi_check!(abi_x86_64, pairs_x86_64, x86_64_sysv, LP64);
abi_check!(abi_x86, pairs_x86, x86_sysv, ILP32_I386);
abi_check!(abi_aarch64, pairs_aarch64, aarch64_sysv, LP64);
#[cfg(target_arch = "x86_64")]
abi_check!(abi_native, pairs_native, native, LP64);
#[cfg(target_arch = "x86_64")]
abi_check!(abi_target, pairs_target, target, LP64);
#[cfg(target_arch = "x86")]
abi_check!(abi_native, pairs_native, native, ILP32_I386);
#[cfg(target_arch = "x86")]
abi_check!(abi_target, pairs_target, target, ILP32_I386);
#[cfg(target_arch = "s390x")]
abi_check!(abi_native, pairs_native, native, LP64_S390X);
#[cfg(target_arch = "s390x")]
fn abi_target(_: usize) -> Outcome {
    Ok(())
}

fn abi_layout(g: &mut G) -> Outcome {
    let i = g.below(80);
    g.nontrivial_if(true);
    let (abi, row) = (i / 16, i % 16);
    g.note(|| format!("table {} row {} with every other row", abi, LP64[row].0));
    match abi {
        0 => abi_x86_64(row),
        1 => abi_x86(row),
        2 => abi_aarch64(row),
        3 => abi_native(row),
        _ => abi_target(row),
    }
}

/// Stores a number as an ABI type, if the type holds such numbers at all. The
/// methods of the type itself win over those of the trait.
struct Probe<T, N>(core::marker::PhantomData<(T, N)>);

impl<T: NativeEndian<N>, N: Copy> Probe<T, N> {
    fn store(&self, abi: &str, x: N) -> Option<(Vec<u8>, N)> {
        let o: T = match abi {
            "x86_64_sysv" => ffi::abi::x86_64_sysv::num(x),
            "x86_sysv" => ffi::abi::x86_sysv::num(x),
            "aarch64_sysv" => ffi::abi::aarch64_sysv::num(x),
            #[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
            "target" => ffi::abi::target::num(x),
            _ => ffi::abi::native::num(x),
        };
        Some((raw_bytes(&o), ffi::to_native::<T, N>(o)))
    }
}

trait Refuse<N> {
    fn store(&self, _: &str, _: N) -> Option<(Vec<u8>, N)> {
        None
    }
}

impl<T, N> Refuse<N> for Probe<T, N> {}

fn abi_values(g: &mut G) -> Outcome {
    macro_rules! v {
        ($abi:ident: $($t:ident $n:ty),*) => {{
            let mut k = [$(stringify!($t)),*].len();
            let pick = g.below(k);
            k = 0;
            $(
                if pick == k {
                    let x = <$n as Val>::gen(g);
                    let stored = if stringify!($abi) == "native" { x.ne() } else { x.le() };
                    let Some((bytes, back)) = Probe::<ffi::abi::$abi::$t, $n>(core::marker::PhantomData).store(stringify!($abi), x) else {
                        return Err(format!("{} of {} does not hold numbers of type {}", stringify!($t), stringify!($abi), stringify!($n)));
                    };
                    ensure_eq!(bytes, stored, "{} {} stored by {}", stringify!($t), x, stringify!($abi));
                    ensure_eq!(back, x, "{} {} read back by {}", stringify!($t), x, stringify!($abi));
                    g.label(concat!(stringify!($abi), " ", stringify!($t)));
                    g.nontrivial_if(x.le() != x.be() || size_of::<$n>() == 1);
                    g.note(|| format!("{} {} {}", stringify!($abi), stringify!($t), x));
                }
                k += 1;
            )*
            let _ = k;
        }};
    }
    match g.below(5) {
        0 => v!(x86_64_sysv: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize i64, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize u64, Addr NonZeroU64),
        1 => v!(x86_sysv: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize i32, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize u32, Addr NonZeroU32),
        2 => v!(aarch64_sysv: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize i64, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize u64, Addr NonZeroU64),
        #[cfg(target_arch = "x86_64")]
        3 => v!(target: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize i64, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize u64, Addr NonZeroU64),
        #[cfg(target_arch = "x86")]
        3 => v!(target: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize i32, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize u32, Addr NonZeroU32),
        _ => v!(native: I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize isize, U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize usize, Addr NonZeroUsize),
    }
    // A pointer-sized foreign pointer keeps its address.
    let x = NonZeroU64::gen(g);
    ensure_eq!(Probe::<ffi::abi::x86_64_sysv::Ptr<u8>, NonZeroU64>(core::marker::PhantomData).store("x86_64_sysv", x), Some((x.le(), x)), "x86_64 pointer {}", x);
    ensure_eq!(Probe::<ffi::abi::aarch64_sysv::Ptr<u16>, NonZeroU64>(core::marker::PhantomData).store("aarch64_sysv", x), Some((x.le(), x)), "aarch64 pointer {}", x);
    let y = NonZeroU32::gen(g);
    ensure_eq!(Probe::<ffi::abi::x86_sysv::Ptr<u8>, NonZeroU32>(core::marker::PhantomData).store("x86_sysv", y), Some((y.le(), y)), "x86 pointer {}", y);
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C17",
            facets: vec![
                Facet::all("all-16-bit", 256, endian_u16, "all 16-bit values; every case is non-trivial"),
                Facet::new("values", 500_000, 10_000_000, endian_values, "24 number types, both orders, all access paths; non-trivial: the bytes are not a palindrome"),
            ],
            assumptions: vec!["little-endian host; the big-endian half of the tables is only compiled on big-endian hosts"],
        },
        Property {
            id: "C18",
            facets: vec![
                Facet::all("defaults", 1, endian_defaults, "defaults of all types; every case is non-trivial"),
                Facet::new("pairs", 300_000, 6_000_000, endian_follows, "pairs and short lists of 24 number types in both orders; non-trivial: the pair differs"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C19",
            facets: vec![
                Facet::all("markers", 1, markers, "all alignment markers; every case is non-trivial"),
                Facet::all("layout", N_TYPES as u64, integer_layout, "24 number types at 8 alignments and in three representations; every case is non-trivial"),
                Facet::new("histories", 600_000, 10_000_000, integers, "operation histories on three neighbours, 12 types x 3 representations x 3 alignments; non-trivial: at least two operations"),
                Facet::new("owned", 200_000, 4_000_000, owned_integer, "histories with drop-counting values; non-trivial: at least two operations"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C20",
            facets: vec![
                Facet::new("plain", 600_000, 10_000_000, packed, "histories on values placed at any offset in random memory; non-trivial: at least one operation"),
                Facet::new("owned", 300_000, 6_000_000, owned_packed, "histories with drop-counting values at any offset; non-trivial: at least two operations"),
                Facet::new("take", 50_000, 500_000, packed_take, "taking composite values; non-trivial: non-zero value"),
            ],
            assumptions: vec![],
        },
        Property {
            id: "C21",
            facets: vec![
                Facet::all("placeholders", 4, danglings, "placeholder addresses of ten targets; every case is non-trivial"),
                Facet::new("native", 300_000, 6_000_000, pointers, "eight native address representations, real objects and arbitrary words; non-trivial: two non-zero words"),
                Facet::new("foreign", 300_000, 6_000_000, pointers_foreign, "eight foreign representations; non-trivial: two different addresses"),
            ],
            assumptions: vec!["64-bit host"],
        },
        Property {
            id: "C22",
            facets: vec![
                Facet::all("layout", 80, abi_layout, "every type of five tables, alone and in structures with every other type; every case is non-trivial"),
                Facet::new("values", 300_000, 4_000_000, abi_values, "numbers of every type of five tables; non-trivial: the bytes are not a palindrome"),
            ],
            assumptions: vec!["sizes and alignments transcribed from the System V ABI supplements; x86-64 host", "floating point types: layout only, they have no conversion"],
        },
    ])
}
