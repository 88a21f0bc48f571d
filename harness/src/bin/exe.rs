//! C52 MZ headers, C53 PE/COFF records and constants.

use core::mem::{align_of, offset_of, size_of, MaybeUninit};
use harness::{ensure, ensure_eq, Facet, Outcome, Property, G};
use tmp::msdosmz as mz;
use tmp::pecoff as pe;

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, v| a << 8 | *v as u64)
}

/// Bytes with every position distinguishable.
fn content(g: &mut G, n: usize) -> Vec<u8> {
    match g.weighted(&[3, 1, 1]) {
        0 => g.blob(n),
        1 => (0..n).map(|i| (i * 7 + 1) as u8).collect(),
        _ => {
            let mut v = vec![0; n];
            if n > 0 {
                let at = g.below(n);
                v[at] = 1 + g.draw(255) as u8;
            }
            v
        },
    }
}

// ---------------------------------------------------------------------------
// C52

/// Number held by a field, whatever its declared type is.
trait Num {
    fn num(&self) -> u64;
    fn put(&mut self, v: u64);
}

macro_rules! nums {
    ($($t:ty)*) => { $(
        impl<A: osi::align::Aligned> Num for osi::ffi::Integer<osi::ffi::LittleEndian<$t>, A> {
            fn num(&self) -> u64 { self.to_native() as u64 }
            fn put(&mut self, v: u64) { *self = osi::ffi::Integer::from_native(v as $t) }
        }
        impl<A: osi::align::Aligned> Num for osi::ffi::Integer<osi::ffi::BigEndian<$t>, A> {
            fn num(&self) -> u64 { self.to_native() as u64 }
            fn put(&mut self, v: u64) { *self = osi::ffi::Integer::from_native(v as $t) }
        }
        impl Num for $t {
            fn num(&self) -> u64 { *self as u64 }
            fn put(&mut self, v: u64) { *self = v as $t }
        }
    )* };
}

nums!(u8 u16 u32 u64 i8 i16 i32 i64);

impl Num for () {
    fn num(&self) -> u64 { 0 }
    fn put(&mut self, _: u64) {}
}

/// Check fields of a decoded record against bytes, both ways.
macro_rules! fields {
    ($rec:expr, $bytes:expr, $name:literal, [$($f:ident @ $off:literal + $n:literal),* $(,)?]) => {
        $(
            ensure_eq!($rec.$f.num(), le(&$bytes[$off..$off + $n]), "{}: field {}", $name, stringify!($f));
        )*
    };
}

/// Assign every field and observe the bytes.
macro_rules! assign {
    ($g:expr, $rec:expr, $bytes:expr, [$($f:ident @ $off:literal + $n:literal: $t:ty),* $(,)?]) => {
        $(
            if $g.chance(1, 3) {
                let v = $g.uint($n * 8) as $t;
                $rec.$f.put(v as u64);
                $bytes[$off..$off + $n].copy_from_slice(&v.to_le_bytes());
            }
        )*
    };
}

fn mz_header(g: &mut G) -> Outcome {
    let mut b: [u8; 28] = content(g, 28).try_into().unwrap();
    g.nontrivial_if(b.iter().any(|v| *v != 0));
    g.note(|| format!("{:02x?}", b));
    let mut h = mz::Header::from_bytes(&b);
    for _ in 0..2 {
        ensure_eq!(h.as_bytes(), &b, "bytes of the header");
        ensure_eq!(&h.magic[..], &b[..2], "magic");
        fields!(h, b, "MZ header", [
            cblp @ 2 + 2, cp @ 4 + 2, crlc @ 6 + 2, cparhdr @ 8 + 2, minalloc @ 10 + 2, maxalloc @ 12 + 2, ss @ 14 + 2,
            sp @ 16 + 2, csum @ 18 + 2, ip @ 20 + 2, cs @ 22 + 2, lfarlc @ 24 + 2, ovno @ 26 + 2,
        ]);
        let again = mz::Header::from_bytes(h.as_bytes());
        ensure_eq!(again.as_bytes(), &b, "bytes of a copied header");
        assign!(g, h, b, [
            cblp @ 2 + 2: u16, cp @ 4 + 2: u16, crlc @ 6 + 2: u16, cparhdr @ 8 + 2: u16, minalloc @ 10 + 2: u16,
            maxalloc @ 12 + 2: u16, ss @ 14 + 2: u16, sp @ 16 + 2: u16, csum @ 18 + 2: u16, ip @ 20 + 2: u16,
            cs @ 22 + 2: u16, lfarlc @ 24 + 2: u16, ovno @ 26 + 2: u16,
        ]);
    }
    Ok(())
}

fn mz_ext(g: &mut G) -> Outcome {
    let mut b: [u8; 36] = content(g, 36).try_into().unwrap();
    g.nontrivial_if(b.iter().any(|v| *v != 0));
    g.note(|| format!("{:02x?}", b));
    let mut h = mz::HeaderExt::from_bytes(&b);
    for _ in 0..2 {
        ensure_eq!(h.as_bytes(), &b, "bytes of the extended header");
        ensure_eq!(&h.res[..], &b[..8], "first reserved area");
        ensure_eq!(&h.res2[..], &b[12..32], "second reserved area");
        fields!(h, b, "extended header", [oemid @ 8 + 2, oeminfo @ 10 + 2, lfanew @ 32 + 4]);
        let again = mz::HeaderExt::from_bytes(h.as_bytes());
        ensure_eq!(again.as_bytes(), &b, "bytes of a copied extended header");
        assign!(g, h, b, [oemid @ 8 + 2: u16, oeminfo @ 10 + 2: u16, lfanew @ 32 + 4: u32]);
    }
    Ok(())
}

fn mz_reloc(g: &mut G) -> Outcome {
    let mut b: [u8; 4] = content(g, 4).try_into().unwrap();
    g.nontrivial_if(b.iter().any(|v| *v != 0));
    g.note(|| format!("{:02x?}", b));
    let mut h = mz::Relocation::from_bytes(&b);
    for _ in 0..2 {
        ensure_eq!(h.as_bytes(), &b, "bytes of the relocation");
        fields!(h, b, "relocation", [offset @ 0 + 2, segment @ 2 + 2]);
        let again = mz::Relocation::from_bytes(h.as_bytes());
        ensure_eq!(again.as_bytes(), &b, "bytes of a copied relocation");
        assign!(g, h, b, [offset @ 0 + 2: u16, segment @ 2 + 2: u16]);
    }
    Ok(())
}

fn sum(g: &mut G) -> Outcome {
    let n = match g.weighted(&[6, 3, 1]) {
        0 => g.small(20),
        1 => g.size(0, 600),
        _ => g.size(0, 140_000),
    };
    let high = g.chance(1, 3);
    let d = if high { vec![0xff; n] } else { g.blob(n) };
    g.label_if(n % 2 == 1, "odd length");
    g.label_if(n > 1000, "long");
    g.nontrivial_if(n > 2);
    g.note(|| format!("{} bytes", n));
    let mut wide = 0u64;
    for (i, v) in d.iter().enumerate() {
        wide += (*v as u64) << (8 * (i % 2));
    }
    ensure_eq!(mz::sum16(&d) as u64, wide % 0x10000, "sum of {} bytes", n);
    // A trailing zero changes nothing, parts at even offsets add up.
    if n % 2 == 1 {
        let mut e = d.clone();
        e.push(0);
        ensure_eq!(mz::sum16(&e), mz::sum16(&d), "sum with the missing byte");
    }
    let cut = g.size(0, n / 2) * 2;
    ensure_eq!(mz::sum16(&d[..cut]).wrapping_add(mz::sum16(&d[cut..])), mz::sum16(&d), "sum of parts at {}", cut);
    // A file with the complement of its sum balances.
    if n >= 28 {
        let mut f = d.clone();
        f[18] = 0;
        f[19] = 0;
        let c = !mz::sum16(&f);
        f[18..20].copy_from_slice(&c.to_le_bytes());
        ensure_eq!(!mz::sum16(&f), 0, "balance of a file with its checksum");
    }
    Ok(())
}

/// The shipped stub is one consistent image.
fn stub(g: &mut G) -> Outcome {
    let _ = g.below(1);
    g.nontrivial_if(true);
    let s = &mz::STUB_X86;
    ensure_eq!(&s[..2], b"MZ", "magic of the stub");
    ensure_eq!(mz::MAGIC, *b"MZ", "magic");
    ensure_eq!((mz::WORD_SIZE, mz::PARAGRAPH_SIZE, mz::PAGE_SIZE), (2, 16, 512), "unit sizes");
    let w = |at: usize| le(&s[at..at + 2]) as usize;
    let size = if w(2) == 0 { w(4) * 512 } else { (w(4) - 1) * 512 + w(2) };
    ensure_eq!(size, s.len(), "size of the image");
    ensure_eq!(w(6), 0, "number of relocations");
    ensure_eq!(w(8) * 16, 64, "size of the header");
    ensure!(w(0x18) >= 64 && w(0x18) <= s.len(), "relocation table at {}", w(0x18));
    ensure_eq!(le(&s[60..64]) as usize, s.len(), "offset of the new header");
    ensure_eq!(!mz::sum16(s), 0, "checksum of the stub");
    // The program prints the string behind it and exits with code 1.
    let code = &s[64..];
    ensure_eq!(&code[..14], &[0x0e, 0x1f, 0xba, 0x0e, 0x00, 0xb4, 0x09, 0xcd, 0x21, 0xb8, 0x01, 0x4c, 0xcd, 0x21], "program of the stub");
    let text: Vec<u8> = code[14..].iter().take_while(|v| **v != b'$').copied().collect();
    ensure_eq!(String::from_utf8_lossy(&text), "This program cannot be run in DOS mode.\r\r\n", "text of the stub");
    ensure!(code[14 + text.len() + 1..].iter().all(|v| *v == 0), "padding of the stub");
    ensure_eq!((size_of::<mz::Header>(), size_of::<mz::HeaderExt>(), size_of::<mz::Relocation>()), (28, 36, 4), "sizes of the records");
    Ok(())
}

// ---------------------------------------------------------------------------
// C53

/// Record from its bytes, and back.
fn decode<T>(b: &[u8]) -> T {
    assert_eq!(b.len(), size_of::<T>());
    let mut v = MaybeUninit::<T>::uninit();
    unsafe {
        core::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len());
        v.assume_init()
    }
}

fn encode<T>(v: &T) -> Vec<u8> {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, size_of::<T>()) }.to_vec()
}

macro_rules! record {
    ($g:expr, $t:ty, $name:literal, $size:literal, [$($f:ident @ $off:literal + $n:literal: $ft:ty),* $(,)?]) => {{
        ensure_eq!(size_of::<$t>(), $size, "size of the {}", $name);
        $(
            ensure_eq!(offset_of!($t, $f), $off, "{}: offset of {}", $name, stringify!($f));
        )*
        let mut b = content($g, $size);
        $g.nontrivial_if(b.iter().any(|v| *v != 0));
        $g.note(|| format!("{} {:02x?}", $name, b));
        let mut r: $t = decode(&b);
        for _ in 0..2 {
            fields!(r, b, $name, [$($f @ $off + $n),*]);
            ensure_eq!(encode(&r), b, "bytes of the {}", $name);
            assign!($g, r, b, [$($f @ $off + $n: $ft),*]);
        }
        Ok(())
    }};
}

fn pe_records(g: &mut G) -> Outcome {
    match g.below(7) {
        0 => record!(g, pe::Header, "file header", 20, [
            machine @ 0 + 2: u16, number_of_sections @ 2 + 2: u16, time_date_stamp @ 4 + 4: u32, pointer_to_symbol_table @ 8 + 4: u32,
            number_of_symbols @ 12 + 4: u32, size_of_optional_header @ 16 + 2: u16, characteristics @ 18 + 2: u16,
        ]),
        1 => record!(g, pe::OptionalHeader, "optional header", 28, [
            magic @ 0 + 2: u16, major_linker_version @ 2 + 1: u8, minor_linker_version @ 3 + 1: u8, size_of_code @ 4 + 4: u32,
            size_of_initialized_data @ 8 + 4: u32, size_of_uninitialized_data @ 12 + 4: u32, address_of_entry_point @ 16 + 4: u32,
            base_of_code @ 20 + 4: u32, base_of_data @ 24 + 4: u32,
        ]),
        2 => record!(g, pe::OptionalHeader32P, "optional header of PE32+", 24, [
            magic @ 0 + 2: u16, major_linker_version @ 2 + 1: u8, minor_linker_version @ 3 + 1: u8, size_of_code @ 4 + 4: u32,
            size_of_initialized_data @ 8 + 4: u32, size_of_uninitialized_data @ 12 + 4: u32, address_of_entry_point @ 16 + 4: u32,
            base_of_code @ 20 + 4: u32,
        ]),
        3 => record!(g, pe::OptionalHeaderExt, "windows header", 68, [
            image_base @ 0 + 4: u32, section_alignment @ 4 + 4: u32, file_alignment @ 8 + 4: u32,
            major_operating_system_version @ 12 + 2: u16, minor_operating_system_version @ 14 + 2: u16, major_image_version @ 16 + 2: u16,
            minor_image_version @ 18 + 2: u16, major_subsystem_version @ 20 + 2: u16, minor_subsystem_version @ 22 + 2: u16,
            win32_version_value @ 24 + 4: u32, size_of_image @ 28 + 4: u32, size_of_headers @ 32 + 4: u32, check_sum @ 36 + 4: u32,
            subsystem @ 40 + 2: u16, dll_characteristics @ 42 + 2: u16, size_of_stack_reserve @ 44 + 4: u32,
            size_of_stack_commit @ 48 + 4: u32, size_of_heap_reserve @ 52 + 4: u32, size_of_heap_commit @ 56 + 4: u32,
            loader_flags @ 60 + 4: u32, number_of_rva_and_sizes @ 64 + 4: u32,
        ]),
        4 => record!(g, pe::OptionalHeaderExt32P, "windows header of PE32+", 88, [
            image_base @ 0 + 8: u64, section_alignment @ 8 + 4: u32, file_alignment @ 12 + 4: u32,
            major_operating_system_version @ 16 + 2: u16, minor_operating_system_version @ 18 + 2: u16, major_image_version @ 20 + 2: u16,
            minor_image_version @ 22 + 2: u16, major_subsystem_version @ 24 + 2: u16, minor_subsystem_version @ 26 + 2: u16,
            win32_version_value @ 28 + 4: u32, size_of_image @ 32 + 4: u32, size_of_headers @ 36 + 4: u32, check_sum @ 40 + 4: u32,
            subsystem @ 44 + 2: u16, dll_characteristics @ 46 + 2: u16, size_of_stack_reserve @ 48 + 8: u64,
            size_of_stack_commit @ 56 + 8: u64, size_of_heap_reserve @ 64 + 8: u64, size_of_heap_commit @ 72 + 8: u64,
            loader_flags @ 80 + 4: u32, number_of_rva_and_sizes @ 84 + 4: u32,
        ]),
        5 => record!(g, pe::DataDirectory, "data directory", 8, [virtual_address @ 0 + 4: u32, size @ 4 + 4: u32]),
        _ => {
            ensure_eq!(offset_of!(pe::SectionHeader, name), 0, "offset of the section name");
            let b = content(g, 40);
            let r: pe::SectionHeader = decode(&b);
            ensure_eq!(&r.name[..], &b[..8], "name of a section");
            record!(g, pe::SectionHeader, "section header", 40, [
                virtual_size @ 8 + 4: u32, virtual_address @ 12 + 4: u32, size_of_raw_data @ 16 + 4: u32, pointer_to_raw_data @ 20 + 4: u32,
                pointer_to_relocations @ 24 + 4: u32, pointer_to_linenumbers @ 28 + 4: u32, number_of_relocations @ 32 + 2: u16,
                number_of_linenumbers @ 34 + 2: u16, characteristics @ 36 + 4: u32,
            ])
        },
    }
}

/// A generated image is walked from the MZ header to the sections.
fn pe_images(g: &mut G) -> Outcome {
    let plus = g.bool();
    let sections = g.small(6);
    let dirs = g.size(0, 16);
    let pad = g.small(8) * 8;
    // Written from the published offsets only.
    let mut f = mz::STUB_X86.to_vec();
    f.resize(128 + pad, 0);
    let at = f.len();
    f[0x3c..0x40].copy_from_slice(&(at as u32).to_le_bytes());
    let put = |f: &mut Vec<u8>, v: u64, n: usize| f.extend(&v.to_le_bytes()[..n]);
    f.extend(b"PE\0\0");
    let opt = if plus { 112 } else { 96 } + 8 * dirs;
    let machine = g.uint(16) as u64;
    put(&mut f, machine, 2);
    put(&mut f, sections as u64, 2);
    put(&mut f, 0, 8);
    put(&mut f, 0, 4);
    put(&mut f, opt as u64, 2);
    put(&mut f, 0x22, 2);
    let start = f.len();
    put(&mut f, if plus { 0x20b } else { 0x10b }, 2);
    let entry = g.uint(32) as u64;
    f.resize(start + 16, 0);
    put(&mut f, entry, 4);
    f.resize(start + if plus { 24 } else { 28 }, 0);
    let base = if plus { g.uint(64) as u64 } else { g.uint(32) as u64 };
    put(&mut f, base, if plus { 8 } else { 4 });
    let ext = start + if plus { 24 } else { 28 };
    let subsystem = *g.pick(&[2u64, 3, 10, 11, 12, 13, 16]);
    f.resize(ext + if plus { 44 } else { 40 }, 0);
    put(&mut f, subsystem, 2);
    f.resize(start + if plus { 108 } else { 92 }, 0);
    put(&mut f, dirs as u64, 4);
    let mut dir = Vec::new();
    for _ in 0..dirs {
        let d = (g.uint(32) as u64, g.uint(32) as u64);
        put(&mut f, d.0, 4);
        put(&mut f, d.1, 4);
        dir.push(d);
    }
    ensure_eq!(f.len(), start + opt, "construction");
    let mut secs = Vec::new();
    for i in 0..sections {
        let s = (g.uint(32) as u64, g.uint(32) as u64);
        f.extend(format!(".sec{:04}", i).as_bytes().iter().take(8));
        put(&mut f, s.0, 4);
        put(&mut f, s.1, 4);
        let end = f.len() + 20;
        f.resize(end, 0);
        put(&mut f, 0x6000_0020, 4);
        secs.push(s);
    }
    g.label(if plus { "PE32+" } else { "PE32" });
    g.nontrivial_if(sections > 0 && dirs > 0);
    g.note(|| format!("{} bytes, {} sections, {} directories", f.len(), sections, dirs));

    // Read with the types.
    let h = mz::Header::from_bytes(f[..28].try_into().unwrap());
    ensure_eq!(h.magic, mz::MAGIC, "magic of the file");
    let x = mz::HeaderExt::from_bytes(f[28..64].try_into().unwrap());
    let new = x.lfanew.num() as usize;
    ensure_eq!(new, at, "offset of the new header");
    ensure_eq!(le(&f[pe::PE_OFFSET as usize..pe::PE_OFFSET as usize + 4]) as usize, at, "offset of the new header by constant");
    ensure_eq!(&f[new..new + 4], &pe::PE_MAGIC, "magic of the new header");
    let h: pe::Header = decode(&f[new + 4..new + 24]);
    ensure_eq!(h.machine.num(), machine, "machine");
    ensure_eq!(h.number_of_sections.num() as usize, sections, "number of sections");
    ensure!(h.characteristics.num() == pe::CHARACTERISTIC_EXECUTABLE_IMAGE as u64 | pe::CHARACTERISTIC_LARGE_ADDRESS_AWARE as u64, "characteristics");
    let mut i = new + 24;
    let tail = i + h.size_of_optional_header.num() as usize;
    let magic = le(&f[i..i + 2]);
    let got_plus = magic == pe::PE_MAGIC_OH32P as u64;
    ensure_eq!(got_plus, plus, "kind of the optional header");
    ensure_eq!(magic == pe::PE_MAGIC_OH32 as u64, !plus, "kind of the optional header");
    let (got_entry, got_base, got_sub, got_dirs);
    if plus {
        let o: pe::OptionalHeader32P = decode(&f[i..i + size_of::<pe::OptionalHeader32P>()]);
        i += size_of::<pe::OptionalHeader32P>();
        let e: pe::OptionalHeaderExt32P = decode(&f[i..i + size_of::<pe::OptionalHeaderExt32P>()]);
        i += size_of::<pe::OptionalHeaderExt32P>();
        got_entry = o.address_of_entry_point.num();
        got_base = e.image_base.num();
        got_sub = e.subsystem.num();
        got_dirs = e.number_of_rva_and_sizes.num();
    } else {
        let o: pe::OptionalHeader = decode(&f[i..i + size_of::<pe::OptionalHeader>()]);
        i += size_of::<pe::OptionalHeader>();
        let e: pe::OptionalHeaderExt = decode(&f[i..i + size_of::<pe::OptionalHeaderExt>()]);
        i += size_of::<pe::OptionalHeaderExt>();
        got_entry = o.address_of_entry_point.num();
        got_base = e.image_base.num();
        got_sub = e.subsystem.num();
        got_dirs = e.number_of_rva_and_sizes.num();
    }
    ensure_eq!((got_entry, got_base, got_sub, got_dirs as usize), (entry, base, subsystem, dirs), "optional header");
    for d in dir {
        let r: pe::DataDirectory = decode(&f[i..i + 8]);
        i += 8;
        ensure_eq!((r.virtual_address.num(), r.size.num()), d, "data directory");
    }
    ensure_eq!(i, tail, "end of the optional header");
    for s in secs {
        let r: pe::SectionHeader = decode(&f[i..i + 40]);
        i += 40;
        ensure_eq!((r.virtual_size.num(), r.virtual_address.num()), s, "section");
        let want = pe::SECTION_CHARACTERISTIC_CNT_CODE as u64 | pe::SECTION_CHARACTERISTIC_MEM_EXECUTE as u64 | pe::SECTION_CHARACTERISTIC_MEM_READ as u64;
        ensure_eq!(r.characteristics.num(), want, "characteristics of a section");
    }
    Ok(())
}

/// Constants with the values of the published format.
const CONSTS: &[(&str, u64, u64)] = &[
    ("PE_MAGIC_OH32", pe::PE_MAGIC_OH32 as u64, 0x10b),
    ("PE_MAGIC_OH32P", pe::PE_MAGIC_OH32P as u64, 0x20b),
    ("PE_OFFSET", pe::PE_OFFSET as u64, 0x3c),
    ("CHARACTERISTIC_RELOCS_STRIPPED", pe::CHARACTERISTIC_RELOCS_STRIPPED as u64, 0x1),
    ("CHARACTERISTIC_EXECUTABLE_IMAGE", pe::CHARACTERISTIC_EXECUTABLE_IMAGE as u64, 0x2),
    ("CHARACTERISTIC_LINE_NUMS_STRIPPED", pe::CHARACTERISTIC_LINE_NUMS_STRIPPED as u64, 0x4),
    ("CHARACTERISTIC_LOCAL_SYMS_STRIPPED", pe::CHARACTERISTIC_LOCAL_SYMS_STRIPPED as u64, 0x8),
    ("CHARACTERISTIC_AGGRESSIVE_WS_TRIM", pe::CHARACTERISTIC_AGGRESSIVE_WS_TRIM as u64, 0x10),
    ("CHARACTERISTIC_LARGE_ADDRESS_AWARE", pe::CHARACTERISTIC_LARGE_ADDRESS_AWARE as u64, 0x20),
    ("CHARACTERISTIC_BYTES_REVERSED_LO", pe::CHARACTERISTIC_BYTES_REVERSED_LO as u64, 0x80),
    ("CHARACTERISTIC_32BIT_MACHINE", pe::CHARACTERISTIC_32BIT_MACHINE as u64, 0x100),
    ("CHARACTERISTIC_DEBUG_STRIPPED", pe::CHARACTERISTIC_DEBUG_STRIPPED as u64, 0x200),
    ("CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP", pe::CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP as u64, 0x400),
    ("CHARACTERISTIC_NET_RUN_FROM_SWAP", pe::CHARACTERISTIC_NET_RUN_FROM_SWAP as u64, 0x800),
    ("CHARACTERISTIC_SYSTEM", pe::CHARACTERISTIC_SYSTEM as u64, 0x1000),
    ("CHARACTERISTIC_DLL", pe::CHARACTERISTIC_DLL as u64, 0x2000),
    ("CHARACTERISTIC_UP_SYSTEM_ONLY", pe::CHARACTERISTIC_UP_SYSTEM_ONLY as u64, 0x4000),
    ("CHARACTERISTIC_BYTES_REVERSED_HI", pe::CHARACTERISTIC_BYTES_REVERSED_HI as u64, 0x8000),
    ("DATA_DIRECTORY_EXPORT_TABLE", pe::DATA_DIRECTORY_EXPORT_TABLE as u64, 0x0),
    ("DATA_DIRECTORY_IMPORT_TABLE", pe::DATA_DIRECTORY_IMPORT_TABLE as u64, 0x1),
    ("DATA_DIRECTORY_RESOURCE_TABLE", pe::DATA_DIRECTORY_RESOURCE_TABLE as u64, 0x2),
    ("DATA_DIRECTORY_EXCEPTION_TABLE", pe::DATA_DIRECTORY_EXCEPTION_TABLE as u64, 0x3),
    ("DATA_DIRECTORY_CERTIFICATE_TABLE", pe::DATA_DIRECTORY_CERTIFICATE_TABLE as u64, 0x4),
    ("DATA_DIRECTORY_BASE_RELOCATION_TABLE", pe::DATA_DIRECTORY_BASE_RELOCATION_TABLE as u64, 0x5),
    ("DATA_DIRECTORY_DEBUG", pe::DATA_DIRECTORY_DEBUG as u64, 0x6),
    ("DATA_DIRECTORY_ARCHITECTURE", pe::DATA_DIRECTORY_ARCHITECTURE as u64, 0x7),
    ("DATA_DIRECTORY_GLOBAL_PTR", pe::DATA_DIRECTORY_GLOBAL_PTR as u64, 0x8),
    ("DATA_DIRECTORY_TLS_TABLE", pe::DATA_DIRECTORY_TLS_TABLE as u64, 0x9),
    ("DATA_DIRECTORY_LOAD_CONFIG_TABLE", pe::DATA_DIRECTORY_LOAD_CONFIG_TABLE as u64, 0xa),
    ("DATA_DIRECTORY_BOUND_IMPORT", pe::DATA_DIRECTORY_BOUND_IMPORT as u64, 0xb),
    ("DATA_DIRECTORY_IAT", pe::DATA_DIRECTORY_IAT as u64, 0xc),
    ("DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR", pe::DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR as u64, 0xd),
    ("DATA_DIRECTORY_CLR_RUNTIME_HEADER", pe::DATA_DIRECTORY_CLR_RUNTIME_HEADER as u64, 0xe),
    ("DLL_CHARACTERISTIC_HIGH_ENTROPY_VA", pe::DLL_CHARACTERISTIC_HIGH_ENTROPY_VA as u64, 0x20),
    ("DLL_CHARACTERISTIC_DYNAMIC_BASE", pe::DLL_CHARACTERISTIC_DYNAMIC_BASE as u64, 0x40),
    ("DLL_CHARACTERISTIC_FORCE_INTEGRITY", pe::DLL_CHARACTERISTIC_FORCE_INTEGRITY as u64, 0x80),
    ("DLL_CHARACTERISTIC_NX_COMPAT", pe::DLL_CHARACTERISTIC_NX_COMPAT as u64, 0x100),
    ("DLL_CHARACTERISTIC_NO_ISOLATION", pe::DLL_CHARACTERISTIC_NO_ISOLATION as u64, 0x200),
    ("DLL_CHARACTERISTIC_NO_SEH", pe::DLL_CHARACTERISTIC_NO_SEH as u64, 0x400),
    ("DLL_CHARACTERISTIC_NO_BIND", pe::DLL_CHARACTERISTIC_NO_BIND as u64, 0x800),
    ("DLL_CHARACTERISTIC_APPCONTAINER", pe::DLL_CHARACTERISTIC_APPCONTAINER as u64, 0x1000),
    ("DLL_CHARACTERISTIC_WDM_DRIVER", pe::DLL_CHARACTERISTIC_WDM_DRIVER as u64, 0x2000),
    ("DLL_CHARACTERISTIC_GUARD_CF", pe::DLL_CHARACTERISTIC_GUARD_CF as u64, 0x4000),
    ("DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE", pe::DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE as u64, 0x8000),
    ("MACHINE_UNKNOWN", pe::MACHINE_UNKNOWN as u64, 0x0),
    ("MACHINE_AM33", pe::MACHINE_AM33 as u64, 0x1d3),
    ("MACHINE_AMD64", pe::MACHINE_AMD64 as u64, 0x8664),
    ("MACHINE_ARM", pe::MACHINE_ARM as u64, 0x1c0),
    ("MACHINE_ARM64", pe::MACHINE_ARM64 as u64, 0xaa64),
    ("MACHINE_ARMNT", pe::MACHINE_ARMNT as u64, 0x1c4),
    ("MACHINE_EBC", pe::MACHINE_EBC as u64, 0xebc),
    ("MACHINE_I386", pe::MACHINE_I386 as u64, 0x14c),
    ("MACHINE_IA64", pe::MACHINE_IA64 as u64, 0x200),
    ("MACHINE_LOONGARCH32", pe::MACHINE_LOONGARCH32 as u64, 0x6232),
    ("MACHINE_LOONGARCH64", pe::MACHINE_LOONGARCH64 as u64, 0x6264),
    ("MACHINE_M32R", pe::MACHINE_M32R as u64, 0x9041),
    ("MACHINE_MIPS16", pe::MACHINE_MIPS16 as u64, 0x266),
    ("MACHINE_MIPSFPU", pe::MACHINE_MIPSFPU as u64, 0x366),
    ("MACHINE_MIPSFPU16", pe::MACHINE_MIPSFPU16 as u64, 0x466),
    ("MACHINE_POWERPC", pe::MACHINE_POWERPC as u64, 0x1f0),
    ("MACHINE_POWERPCFP", pe::MACHINE_POWERPCFP as u64, 0x1f1),
    ("MACHINE_R4000", pe::MACHINE_R4000 as u64, 0x166),
    ("MACHINE_RISCV32", pe::MACHINE_RISCV32 as u64, 0x5032),
    ("MACHINE_RISCV64", pe::MACHINE_RISCV64 as u64, 0x5064),
    ("MACHINE_RISCV128", pe::MACHINE_RISCV128 as u64, 0x5128),
    ("MACHINE_SH3", pe::MACHINE_SH3 as u64, 0x1a2),
    ("MACHINE_SH3DSP", pe::MACHINE_SH3DSP as u64, 0x1a3),
    ("MACHINE_SH4", pe::MACHINE_SH4 as u64, 0x1a6),
    ("MACHINE_SH5", pe::MACHINE_SH5 as u64, 0x1a8),
    ("MACHINE_THUMB", pe::MACHINE_THUMB as u64, 0x1c2),
    ("MACHINE_WCEMIPSV2", pe::MACHINE_WCEMIPSV2 as u64, 0x169),
    ("SECTION_CHARACTERISTIC_TYPE_NO_PAD", pe::SECTION_CHARACTERISTIC_TYPE_NO_PAD as u64, 0x8),
    ("SECTION_CHARACTERISTIC_CNT_CODE", pe::SECTION_CHARACTERISTIC_CNT_CODE as u64, 0x20),
    ("SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA", pe::SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA as u64, 0x40),
    ("SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA", pe::SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA as u64, 0x80),
    ("SECTION_CHARACTERISTIC_LNK_OTHER", pe::SECTION_CHARACTERISTIC_LNK_OTHER as u64, 0x100),
    ("SECTION_CHARACTERISTIC_LNK_INFO", pe::SECTION_CHARACTERISTIC_LNK_INFO as u64, 0x200),
    ("SECTION_CHARACTERISTIC_LNK_REMOVE", pe::SECTION_CHARACTERISTIC_LNK_REMOVE as u64, 0x800),
    ("SECTION_CHARACTERISTIC_LNK_COMDAT", pe::SECTION_CHARACTERISTIC_LNK_COMDAT as u64, 0x1000),
    ("SECTION_CHARACTERISTIC_GPREL", pe::SECTION_CHARACTERISTIC_GPREL as u64, 0x8000),
    ("SECTION_CHARACTERISTIC_MEM_PURGEABLE", pe::SECTION_CHARACTERISTIC_MEM_PURGEABLE as u64, 0x20000),
    ("SECTION_CHARACTERISTIC_MEM_16BIT", pe::SECTION_CHARACTERISTIC_MEM_16BIT as u64, 0x20000),
    ("SECTION_CHARACTERISTIC_MEM_LOCKED", pe::SECTION_CHARACTERISTIC_MEM_LOCKED as u64, 0x40000),
    ("SECTION_CHARACTERISTIC_MEM_PRELOAD", pe::SECTION_CHARACTERISTIC_MEM_PRELOAD as u64, 0x80000),
    ("SECTION_CHARACTERISTIC_ALIGN_1BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_1BYTES as u64, 0x100000),
    ("SECTION_CHARACTERISTIC_ALIGN_2BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_2BYTES as u64, 0x200000),
    ("SECTION_CHARACTERISTIC_ALIGN_4BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_4BYTES as u64, 0x300000),
    ("SECTION_CHARACTERISTIC_ALIGN_8BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_8BYTES as u64, 0x400000),
    ("SECTION_CHARACTERISTIC_ALIGN_16BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_16BYTES as u64, 0x500000),
    ("SECTION_CHARACTERISTIC_ALIGN_32BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_32BYTES as u64, 0x600000),
    ("SECTION_CHARACTERISTIC_ALIGN_64BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_64BYTES as u64, 0x700000),
    ("SECTION_CHARACTERISTIC_ALIGN_128BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_128BYTES as u64, 0x800000),
    ("SECTION_CHARACTERISTIC_ALIGN_256BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_256BYTES as u64, 0x900000),
    ("SECTION_CHARACTERISTIC_ALIGN_512BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_512BYTES as u64, 0xa00000),
    ("SECTION_CHARACTERISTIC_ALIGN_1024BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_1024BYTES as u64, 0xb00000),
    ("SECTION_CHARACTERISTIC_ALIGN_2048BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_2048BYTES as u64, 0xc00000),
    ("SECTION_CHARACTERISTIC_ALIGN_4096BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_4096BYTES as u64, 0xd00000),
    ("SECTION_CHARACTERISTIC_ALIGN_8192BYTES", pe::SECTION_CHARACTERISTIC_ALIGN_8192BYTES as u64, 0xe00000),
    ("SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL", pe::SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL as u64, 0x1000000),
    ("SECTION_CHARACTERISTIC_MEM_DISCARDABLE", pe::SECTION_CHARACTERISTIC_MEM_DISCARDABLE as u64, 0x2000000),
    ("SECTION_CHARACTERISTIC_MEM_NOT_CACHED", pe::SECTION_CHARACTERISTIC_MEM_NOT_CACHED as u64, 0x4000000),
    ("SECTION_CHARACTERISTIC_MEM_NOT_PAGED", pe::SECTION_CHARACTERISTIC_MEM_NOT_PAGED as u64, 0x8000000),
    ("SECTION_CHARACTERISTIC_MEM_SHARED", pe::SECTION_CHARACTERISTIC_MEM_SHARED as u64, 0x10000000),
    ("SECTION_CHARACTERISTIC_MEM_EXECUTE", pe::SECTION_CHARACTERISTIC_MEM_EXECUTE as u64, 0x20000000),
    ("SECTION_CHARACTERISTIC_MEM_READ", pe::SECTION_CHARACTERISTIC_MEM_READ as u64, 0x40000000),
    ("SECTION_CHARACTERISTIC_MEM_WRITE", pe::SECTION_CHARACTERISTIC_MEM_WRITE as u64, 0x80000000),
    ("SUBSYSTEM_UNKNOWN", pe::SUBSYSTEM_UNKNOWN as u64, 0x0),
    ("SUBSYSTEM_NATIVE", pe::SUBSYSTEM_NATIVE as u64, 0x1),
    ("SUBSYSTEM_WINDOWS_GUI", pe::SUBSYSTEM_WINDOWS_GUI as u64, 0x2),
    ("SUBSYSTEM_WINDOWS_CUI", pe::SUBSYSTEM_WINDOWS_CUI as u64, 0x3),
    ("SUBSYSTEM_OS2_CUI", pe::SUBSYSTEM_OS2_CUI as u64, 0x5),
    ("SUBSYSTEM_POSIX_CUI", pe::SUBSYSTEM_POSIX_CUI as u64, 0x7),
    ("SUBSYSTEM_NATIVE_WINDOWS", pe::SUBSYSTEM_NATIVE_WINDOWS as u64, 0x8),
    ("SUBSYSTEM_WINDOWS_CE_GUI", pe::SUBSYSTEM_WINDOWS_CE_GUI as u64, 0x9),
    ("SUBSYSTEM_EFI_APPLICATION", pe::SUBSYSTEM_EFI_APPLICATION as u64, 0xa),
    ("SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER", pe::SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER as u64, 0xb),
    ("SUBSYSTEM_EFI_RUNTIME_DRIVER", pe::SUBSYSTEM_EFI_RUNTIME_DRIVER as u64, 0xc),
    ("SUBSYSTEM_EFI_ROM", pe::SUBSYSTEM_EFI_ROM as u64, 0xd),
    ("SUBSYSTEM_XBOX", pe::SUBSYSTEM_XBOX as u64, 0xe),
    ("SUBSYSTEM_WINDOWS_BOOT_APPLICATION", pe::SUBSYSTEM_WINDOWS_BOOT_APPLICATION as u64, 0x10),
];

fn pe_consts(g: &mut G) -> Outcome {
    let (name, got, want) = CONSTS[g.below(CONSTS.len())];
    g.nontrivial_if(true);
    g.note(|| name.to_string());
    ensure_eq!(got, want, "value of {}", name);
    ensure_eq!(pe::PE_MAGIC, *b"PE\0\0", "magic");
    ensure_eq!(pe::INVALID_TIMESTAMPS, [0, u32::MAX], "invalid timestamps");
    ensure_eq!(
        (align_of::<pe::Header>(), align_of::<pe::OptionalHeader>(), align_of::<pe::OptionalHeaderExt32P>()),
        (4, 4, 8),
        "alignment of records"
    );
    Ok(())
}

fn main() {
    harness::main(vec![
        Property {
            id: "C52",
            facets: vec![
                Facet::new("header", 200_000, 3_000_000, mz_header, "a non-zero byte"),
                Facet::new("extension", 200_000, 3_000_000, mz_ext, "a non-zero byte"),
                Facet::new("relocation", 100_000, 1_000_000, mz_reloc, "a non-zero byte"),
                Facet::new("sum", 200_000, 3_000_000, sum, "three or more bytes"),
                Facet::all("stub", 1, stub, "the stub"),
            ],
            assumptions: vec!["field offsets transcribed from the published MZ format"],
        },
        Property {
            id: "C53",
            facets: vec![
                Facet::new("records", 300_000, 5_000_000, pe_records, "a non-zero byte"),
                Facet::new("images", 100_000, 1_000_000, pe_images, "sections and directories"),
                Facet::all("constants", CONSTS.len() as u64, pe_consts, "every constant"),
            ],
            assumptions: vec!["offsets and values transcribed from the published PE/COFF specification"],
        },
    ])
}
