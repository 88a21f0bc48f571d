//! C32 ELF records, C33 ELF constants, C34 error numbers.

use harness::{ensure_eq, Facet, Outcome, Property, G};
use sys::ffi::elf::{elf32, elf64, elfn};
use sys::ffi::linux;

/// Numeric value of a field, sign preserved.
trait Val: Copy {
    fn val(self) -> i128;
}

macro_rules! val {
    ($($t:ty)*) => { $(impl Val for $t { fn val(self) -> i128 { self as i128 } })* };
}
val!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

/// The value the gABI gives to a field: native order, width, signedness.
fn decode(raw: &[u8], signed: bool) -> i128 {
    let mut v: u128 = 0;
    for (i, b) in raw.iter().enumerate() {
        let at = if cfg!(target_endian = "little") { i } else { raw.len() - 1 - i };
        v |= (*b as u128) << (8 * at);
    }
    let bits = 8 * raw.len() as u32;
    if signed && (v >> (bits - 1)) & 1 == 1 {
        v as i128 - (1i128 << bits)
    } else {
        v as i128
    }
}

/// One field as laid down by the specification.
struct F {
    name: &'static str,
    off: usize,
    width: usize,
}

/// Contents of a record with each field drawn on its own.
fn contents(g: &mut G, size: usize, fields: &[F]) -> Vec<u8> {
    let mut b = g.blob(size);
    for f in fields {
        if g.chance(2, 3) {
            let v = g.uint(8 * f.width as u32);
            let raw = v.to_le_bytes();
            for i in 0..f.width {
                b[f.off + i] = raw[i];
            }
        }
    }
    b
}

macro_rules! record {
    ($fname:ident, $t:ty, $size:literal, $align:literal, { $($field:ident : $off:literal $kind:ident),* $(,)? }) => {
        fn $fname(g: &mut G) -> Outcome {
            let name = stringify!($t);
            let fields = [$(F { name: stringify!($field), off: $off, width: width!($kind) }),*];
            // The specification leaves no gap and no overlap.
            let mut end = 0;
            for f in &fields {
                if f.off != end && f.name != "e_type" {
                    return Err(format!("harness: table of {} is inconsistent at {}", name, f.name));
                }
                end = f.off + f.width;
            }
            ensure_eq!(core::mem::size_of::<$t>(), $size, "size of {}", name);
            ensure_eq!(core::mem::align_of::<$t>(), $align, "alignment of {}", name);
            $(ensure_eq!(core::mem::offset_of!($t, $field), $off, "offset of {} {}", name, stringify!($field));)*

            let raw = contents(g, $size, &fields);
            g.nontrivial_if(raw.iter().any(|v| *v != 0));
            g.note(|| format!("{} {:02x?}", name, raw));
            let rec: $t = unsafe { core::ptr::read_unaligned(raw.as_ptr() as *const $t) };
            // Bytes to fields.
            $(
                {
                    let v = rec.$field;
                    ensure_eq!(core::mem::size_of_val(&v), width!($kind), "width of {} {}", name, stringify!($field));
                    ensure_eq!(v.val(), decode(&raw[$off..$off + width!($kind)], signed!($kind)), "value of {} {}", name, stringify!($field));
                }
            )*
            // Fields to bytes: move the values over one by one.
            let mut other: $t = unsafe { core::mem::zeroed() };
            ident!(other, rec, $fname);
            $(other.$field = rec.$field;)*
            let back: [u8; $size] = unsafe { core::mem::transmute_copy(&other) };
            ensure_eq!(&back[..], &raw[..], "bytes of a rebuilt {}", name);
            // Records in an array are contiguous.
            let pair = [other, rec];
            let raw2: [u8; 2 * $size] = unsafe { core::mem::transmute_copy(&pair) };
            ensure_eq!(&raw2[$size..], &raw[..], "second {} of an array", name);
            Ok(())
        }
    };
}

macro_rules! width {
    (b) => { 1 };
    (h) => { 2 };
    (w) => { 4 };
    (x) => { 8 };
    (sw) => { 4 };
    (sx) => { 8 };
}

macro_rules! signed {
    (sw) => { true };
    (sx) => { true };
    ($o:ident) => { false };
}

macro_rules! ident {
    ($o:ident, $r:ident, ehdr32) => { $o.e_ident = $r.e_ident; };
    ($o:ident, $r:ident, ehdr64) => { $o.e_ident = $r.e_ident; };
    ($o:ident, $r:ident, $any:ident) => { };
}

record!(ehdr32, elf32::Ehdr, 52, 4, {
    e_type: 16 h, e_machine: 18 h, e_version: 20 w, e_entry: 24 w, e_phoff: 28 w, e_shoff: 32 w, e_flags: 36 w,
    e_ehsize: 40 h, e_phentsize: 42 h, e_phnum: 44 h, e_shentsize: 46 h, e_shnum: 48 h, e_shstrndx: 50 h,
});
record!(ehdr64, elf64::Ehdr, 64, 8, {
    e_type: 16 h, e_machine: 18 h, e_version: 20 w, e_entry: 24 x, e_phoff: 32 x, e_shoff: 40 x, e_flags: 48 w,
    e_ehsize: 52 h, e_phentsize: 54 h, e_phnum: 56 h, e_shentsize: 58 h, e_shnum: 60 h, e_shstrndx: 62 h,
});
record!(shdr32, elf32::Shdr, 40, 4, {
    sh_name: 0 w, sh_type: 4 w, sh_flags: 8 w, sh_addr: 12 w, sh_offset: 16 w, sh_size: 20 w, sh_link: 24 w,
    sh_info: 28 w, sh_addralign: 32 w, sh_entsize: 36 w,
});
record!(shdr64, elf64::Shdr, 64, 8, {
    sh_name: 0 w, sh_type: 4 w, sh_flags: 8 x, sh_addr: 16 x, sh_offset: 24 x, sh_size: 32 x, sh_link: 40 w,
    sh_info: 44 w, sh_addralign: 48 x, sh_entsize: 56 x,
});
record!(phdr32, elf32::Phdr, 32, 4, {
    p_type: 0 w, p_offset: 4 w, p_vaddr: 8 w, p_paddr: 12 w, p_filesz: 16 w, p_memsz: 20 w, p_flags: 24 w, p_align: 28 w,
});
record!(phdr64, elf64::Phdr, 56, 8, {
    p_type: 0 w, p_flags: 4 w, p_offset: 8 x, p_vaddr: 16 x, p_paddr: 24 x, p_filesz: 32 x, p_memsz: 40 x, p_align: 48 x,
});
record!(sym32, elf32::Sym, 16, 4, {
    st_name: 0 w, st_value: 4 w, st_size: 8 w, st_info: 12 b, st_other: 13 b, st_shndx: 14 h,
});
record!(sym64, elf64::Sym, 24, 8, {
    st_name: 0 w, st_info: 4 b, st_other: 5 b, st_shndx: 6 h, st_value: 8 x, st_size: 16 x,
});
record!(dyn32, elf32::Dyn, 8, 4, { d_tag: 0 w, d_val: 4 w });
record!(dyn64, elf64::Dyn, 16, 8, { d_tag: 0 x, d_val: 8 x });
record!(rel32, elf32::Rel, 8, 4, { r_offset: 0 w, r_info: 4 w });
record!(rel64, elf64::Rel, 16, 8, { r_offset: 0 x, r_info: 8 x });
record!(rela32, elf32::Rela, 12, 4, { r_offset: 0 w, r_info: 4 w, r_addend: 8 sw });
record!(rela64, elf64::Rela, 24, 8, { r_offset: 0 x, r_info: 8 x, r_addend: 16 sx });

/// The identification table at the start of each file, in both classes.
fn ident(g: &mut G) -> Outcome {
    let raw = g.blob(64);
    g.nontrivial_if(true);
    g.note(|| format!("ident {:02x?}", &raw[..16]));
    macro_rules! one {
        ($m:ident) => {{
            ensure_eq!(core::mem::size_of::<$m::Ident>(), 16, "size of the identification");
            ensure_eq!(core::mem::align_of::<$m::Ident>(), 1, "alignment of the identification");
            ensure_eq!(core::mem::offset_of!($m::Ehdr, e_ident), 0, "offset of the identification");
            let e: $m::Ehdr = unsafe { core::ptr::read_unaligned(raw.as_ptr() as *const $m::Ehdr) };
            let i = e.e_ident;
            ensure_eq!(&i.i_magic[..], &raw[..4], "magic");
            ensure_eq!(i.i_class.val(), raw[4].val(), "class");
            ensure_eq!(i.i_data.val(), raw[5].val(), "data encoding");
            ensure_eq!(i.i_version.val(), raw[6].val(), "ident version");
            ensure_eq!(i.i_osabi.val(), raw[7].val(), "os abi");
            ensure_eq!(i.i_abiversion.val(), raw[8].val(), "abi version");
            ensure_eq!(&i.i_pad[..], &raw[9..16], "padding");
        }};
    }
    one!(elf32);
    one!(elf64);
    Ok(())
}

/// A generated small image, walked through the records alone.
fn image(g: &mut G) -> Outcome {
    macro_rules! walk {
        ($m:ident, $eh:literal, $ph:literal, $sh:literal, $w:literal, $eph:literal, $esh:literal, $ephn:literal, $eshn:literal, $poff:literal, $soff:literal) => {{
            let np = g.size(0, 5);
            let ns = g.size(0, 5);
            let pad1 = g.size(0, 9);
            let pad2 = g.size(0, 9);
            let phoff = $eh + pad1;
            let shoff = phoff + np * $ph + pad2;
            let mut b = g.blob(shoff + ns * $sh);
            let put = |b: &mut [u8], off: usize, w: usize, v: u64| {
                let raw = if cfg!(target_endian = "little") { v.to_le_bytes().to_vec() } else { v.to_be_bytes()[8 - w..].to_vec() };
                b[off..off + w].copy_from_slice(&raw[..w]);
            };
            put(&mut b, $eph, $w, phoff as u64);
            put(&mut b, $esh, $w, shoff as u64);
            put(&mut b, $ephn, 2, np as u64);
            put(&mut b, $eshn, 2, ns as u64);
            let mut pv = vec![];
            let mut sv = vec![];
            for i in 0..np {
                let v = g.uint(8 * $w) as u64;
                put(&mut b, phoff + i * $ph + $poff, $w, v);
                pv.push(v);
            }
            for i in 0..ns {
                let v = g.uint(8 * $w) as u64;
                put(&mut b, shoff + i * $sh + $soff, $w, v);
                sv.push(v);
            }
            g.nontrivial_if(np + ns > 0);
            g.note(|| format!("image of {} segments and {} sections", np, ns));
            // Walk.
            let e: $m::Ehdr = unsafe { core::ptr::read_unaligned(b.as_ptr() as *const $m::Ehdr) };
            ensure_eq!(e.e_phnum as usize, np, "segment count");
            ensure_eq!(e.e_shnum as usize, ns, "section count");
            ensure_eq!(e.e_phoff as usize, phoff, "segment table");
            ensure_eq!(e.e_shoff as usize, shoff, "section table");
            for i in 0..np {
                let p: $m::Phdr = unsafe {
                    core::ptr::read_unaligned((b.as_ptr() as *const u8).add(phoff).cast::<$m::Phdr>().add(i))
                };
                ensure_eq!(p.p_vaddr as u64, pv[i], "address of segment {}", i);
            }
            for i in 0..ns {
                let s: $m::Shdr = unsafe {
                    core::ptr::read_unaligned((b.as_ptr() as *const u8).add(shoff).cast::<$m::Shdr>().add(i))
                };
                ensure_eq!(s.sh_size as u64, sv[i], "size of section {}", i);
            }
        }};
    }
    if g.bool() {
        g.label("64-bit");
        walk!(elf64, 64, 56, 64, 8, 32, 40, 56, 60, 16, 32);
    } else {
        g.label("32-bit");
        walk!(elf32, 52, 32, 40, 4, 28, 32, 44, 48, 8, 20);
    }
    Ok(())
}

// ---------------------------------------------------------------------------

struct Constant {
    name: &'static str,
    bits: u32,
    expect: u64,
    /// value and width in the 32-bit, 64-bit and native interface
    got: [(i128, usize); 3],
}

macro_rules! elf_constants {
    ($($name:ident $t:ident $v:literal)*) => {
        static CONSTANTS: &[fn() -> Constant] = &[
            $(|| Constant {
                name: stringify!($name),
                bits: $t::BITS,
                expect: $v,
                got: [
                    (elf32::$name as i128, core::mem::size_of_val(&elf32::$name)),
                    (elf64::$name as i128, core::mem::size_of_val(&elf64::$name)),
                    (elfn::$name as i128, core::mem::size_of_val(&elfn::$name)),
                ],
            },)*
        ];
    };
}

include!("sys_elf_table.in");

fn family(name: &str) -> &str {
    if name.starts_with("ELF") {
        name.split('_').next().unwrap().trim_end_matches(|c: char| c.is_ascii_digit())
    } else {
        name.split('_').next().unwrap()
    }
}

fn constant(g: &mut G) -> Outcome {
    let i = g.below(CONSTANTS.len());
    let c = CONSTANTS[i]();
    g.nontrivial_if(true);
    g.label(family(c.name));
    g.note(|| format!("{} = {:#x}", c.name, c.expect));
    for (which, (v, w)) in ["32-bit", "64-bit", "native"].iter().zip(c.got.iter()) {
        ensure_eq!(*v, c.expect as i128, "{} through the {} interface", c.name, which);
        ensure_eq!(*w, c.bits as usize / 8, "width of {} through the {} interface", c.name, which);
    }
    Ok(())
}

/// Two names are merged exactly if the registry merges them.
fn merged(g: &mut G) -> Outcome {
    let i = g.below(CONSTANTS.len());
    let a = CONSTANTS[i]();
    let peers: Vec<Constant> = CONSTANTS.iter().map(|f| f()).filter(|c| family(c.name) == family(a.name)).collect();
    g.nontrivial_if(peers.len() > 1);
    g.note(|| format!("{} against {} names of its numbering", a.name, peers.len()));
    for b in &peers {
        ensure_eq!(
            a.got[1].0 == b.got[1].0,
            a.expect == b.expect,
            "{} and {} share a number",
            a.name,
            b.name
        );
    }
    Ok(())
}

/// A file header written with the constants carries the assigned bytes.
fn stamped(g: &mut G) -> Outcome {
    let machines: Vec<Constant> =
        CONSTANTS.iter().map(|f| f()).filter(|c| c.name.starts_with("EM_")).collect();
    let c = g.pick(&machines);
    let mut e: elf64::Ehdr = unsafe { core::mem::zeroed() };
    e.e_ident.i_magic = elf64::ELFMAG;
    e.e_ident.i_class = elf64::ELFCLASS64 as _;
    e.e_ident.i_data = if cfg!(target_endian = "little") { elf64::ELFDATA2LSB as _ } else { elf64::ELFDATA2MSB as _ };
    e.e_ident.i_version = elf64::EV_CURRENT as _;
    e.e_type = elf64::ET_DYN as _;
    e.e_machine = c.got[1].0 as _;
    let b: [u8; 64] = unsafe { core::mem::transmute_copy(&e) };
    g.nontrivial_if(c.expect > 0);
    g.note(|| c.name.to_string());
    ensure_eq!(&b[..7], &[0x7f, b'E', b'L', b'F', 2, if cfg!(target_endian = "little") { 1 } else { 2 }, 1][..], "start of the file");
    ensure_eq!(&b[16..18], &3u16.to_ne_bytes()[..], "file type");
    ensure_eq!(&b[18..20], &(c.expect as u16).to_ne_bytes()[..], "machine {}", c.name);
    ensure_eq!(elf32::ELFMAG, *b"\x7fELF", "magic of the 32-bit interface");
    Ok(())
}

// ---------------------------------------------------------------------------

struct Errno {
    name: &'static str,
    expect: i32,
    libc: i32,
    tables: [(&'static str, u64, Vec<u8>); 6],
}

macro_rules! entry {
    ($label:literal, $m:ident, $name:ident) => {{
        let v = linux::$m::errno::$name;
        let n = errno_native!($m, v) as u64;
        let p = &v as *const _ as *const u8;
        let raw = unsafe { core::slice::from_raw_parts(p, core::mem::size_of_val(&v)) }.to_vec();
        ($label, n, raw)
    }};
}

macro_rules! errno_native {
    (native, $v:ident) => { $v };
    (libc, $v:ident) => { $v };
    ($m:ident, $v:ident) => { osi::ffi::Integer::get(&$v).to_native() };
}

macro_rules! errnos {
    ($($name:ident $v:literal)*) => {
        static ERRNOS: &[fn() -> Errno] = &[
            $(|| Errno {
                name: stringify!($name),
                expect: $v,
                libc: libc::$name,
                tables: [
                    entry!("aarch64", aarch64, $name),
                    entry!("x86", x86, $name),
                    entry!("x86_64", x86_64, $name),
                    entry!("target", target, $name),
                    entry!("native", native, $name),
                    entry!("libc", libc, $name),
                ],
            },)*
        ];
    };
}

include!("sys_errno_table.in");

fn errno(g: &mut G) -> Outcome {
    let i = g.below(ERRNOS.len());
    let e = ERRNOS[i]();
    g.nontrivial_if(true);
    g.note(|| format!("{} = {}", e.name, e.expect));
    ensure_eq!(e.libc, e.expect, "harness: {} of the C library", e.name);
    for (t, v, raw) in &e.tables {
        ensure_eq!(*v, e.expect as u64, "{} of table {}", e.name, t);
        // All supported platforms are little-endian, and store it in two bytes.
        let exp = if matches!(*t, "native" | "libc") {
            (e.expect as u16).to_ne_bytes()
        } else {
            (e.expect as u16).to_le_bytes()
        };
        ensure_eq!(&raw[..], &exp[..], "stored form of {} of table {}", e.name, t);
    }
    Ok(())
}

/// What the kernel returns for a failed call, told apart by the tables.
fn errno_return(g: &mut G) -> Outcome {
    let raw = -(g.range(1, 4095) as i64);
    let t = g.below(6);
    let n = (-raw) as u64;
    let named: Vec<&str> = ERRNOS.iter().map(|f| f()).filter(|e| e.tables[t].1 == n).map(|e| e.name).collect();
    let expect: Vec<&str> = ERRNOS.iter().map(|f| f()).filter(|e| e.expect as u64 == n).map(|e| e.name).collect();
    g.nontrivial_if(!expect.is_empty());
    g.label_if(expect.len() > 1, "aliased");
    g.note(|| format!("return {} -> {:?}", raw, expect));
    ensure_eq!(named, expect, "names for return value {}", raw);
    Ok(())
}

fn main() {
    let n = CONSTANTS.len() as u64;
    let m = ERRNOS.len() as u64;
    let mut records: Vec<Facet> = vec![];
    macro_rules! recs {
        ($($f:ident)*) => { $(records.push(Facet::new(stringify!($f), 40_000, 400_000, $f, "the record holds a non-zero byte"));)* };
    }
    recs!(ehdr32 ehdr64 shdr32 shdr64 phdr32 phdr64 sym32 sym64 dyn32 dyn64 rel32 rel64 rela32 rela64);
    records.push(Facet::new("ident", 40_000, 400_000, ident, "every case"));
    records.push(Facet::new("image", 100_000, 1_000_000, image, "the image has a table"));
    harness::main(vec![
        Property {
            id: "C32",
            facets: records,
            assumptions: vec![
                "field offsets and widths are transcribed from the System V gABI",
                "records are plain native-endian memory",
            ],
        },
        Property {
            id: "C33",
            facets: vec![
                Facet::all("constant", n, constant, "every constant"),
                Facet::all("merged", n, merged, "the numbering has more than one name"),
                Facet::new("stamped", 20_000, 200_000, stamped, "machine number is not zero"),
            ],
            assumptions: vec!["the reference values are transcribed from the gABI registry and from platform headers"],
        },
        Property {
            id: "C34",
            facets: vec![
                Facet::all("errno", m, errno, "every error name"),
                Facet::all("errno-return", 4095, errno_return, "the number is assigned"),
            ],
            assumptions: vec!["reference numbers are those of asm-generic/errno.h, which all supported platforms share"],
        },
    ])
}
