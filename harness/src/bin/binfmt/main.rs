//! Binary formats: ELF, error codes, PE/COFF, and MS-DOS executables.

mod elf;
#[macro_use]
mod errno;
mod pe;

use core::mem::{align_of, size_of, MaybeUninit};
use mc::engine::*;
use mc::{ensure, expect_eq};
use std::collections::BTreeMap;
use sys::ffi::elf as elfs;
use tmp::{msdosmz as mz, pecoff};

/// A field: its name, size, and how to find its position and value.
struct Field<T> {
    name: &'static str,
    size: usize,
    at: fn(&T) -> usize,
    get: fn(&T) -> u128,
    set: fn(&mut T, u128),
}

/// Numbers as stored in a file in the byte order of the machine.
trait Native: Copy {
    fn number(self) -> u128;
    fn of(v: u128) -> Self;
}

macro_rules! native {
    ($($t:ty),*) => { $(
        impl Native for $t {
            fn number(self) -> u128 {
                let mut b = [0u8; 16];
                b[..size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                u128::from_le_bytes(b)
            }

            fn of(v: u128) -> Self {
                v as $t
            }
        }
    )* };
}

native!(u8, u16, u32, u64, i32, i64);

impl<const N: usize> Native for [u8; N] {
    fn number(self) -> u128 {
        // Longer arrays are folded, so that any change is visible.
        self.iter().rev().fold(0u128, |a, v| a.rotate_left(8) ^ *v as u128)
    }

    fn of(v: u128) -> Self {
        core::array::from_fn(|i| (v.rotate_right(8 * i as u32)) as u8)
    }
}

impl Native for elfs::elf64::Ident {
    fn number(self) -> u128 {
        u128::from_le_bytes(unsafe { core::mem::transmute::<Self, [u8; 16]>(self) })
    }

    fn of(v: u128) -> Self {
        unsafe { core::mem::transmute::<[u8; 16], Self>(v.to_le_bytes()) }
    }
}

macro_rules! fields {
    ($t:ty, native; $($f:ident)*) => { vec![ $( Field::<$t> {
        name: stringify!($f),
        size: { fn s<A, B>(_: fn(&A) -> B) -> usize { size_of::<B>() } s(|v: &$t| v.$f) },
        at: |v| &raw const v.$f as usize - v as *const $t as usize,
        get: |v| Native::number(v.$f),
        set: |v, n| v.$f = Native::of(n),
    } ),* ] };
    ($t:ty, little; $($f:ident)*) => { vec![ $( Field::<$t> {
        name: stringify!($f),
        size: { fn s<A, B>(_: fn(&A) -> &B) -> usize { size_of::<B>() } s(|v: &$t| &v.$f) },
        at: |v| &raw const v.$f as usize - v as *const $t as usize,
        get: |v| Little::number(&v.$f),
        set: |v, n| Little::set(&mut v.$f, n),
    } ),* ] };
}

/// Numbers as stored in little endian.
trait Little {
    fn number(&self) -> u128;
    fn set(&mut self, v: u128);
}

// Numbers of any order and alignment are accepted here, such that a wrong one
// shows up as wrong value rather than as program that does not compile.
macro_rules! little {
    ($($t:ty),*) => { $(
        aligned!($t, 1);
        aligned!($t, 2);
        aligned!($t, 4);
        aligned!($t, 8);
        aligned!($t, 16);

        impl Little for $t {
            fn number(&self) -> u128 {
                *self as u128
            }

            fn set(&mut self, v: u128) {
                *self = v as $t;
            }
        }
    )* };
}

macro_rules! aligned {
    ($t:ty, $a:literal) => {
        ordered!($t, osi::ffi::Integer<$t, osi::align::AlignAs<$a>>);
        ordered!($t, osi::ffi::Integer<osi::ffi::LittleEndian<$t>, osi::align::AlignAs<$a>>);
        ordered!($t, osi::ffi::Integer<osi::ffi::BigEndian<$t>, osi::align::AlignAs<$a>>);
    };
}

macro_rules! ordered {
    ($t:ty, $i:ty) => {
        impl Little for $i {
            fn number(&self) -> u128 {
                let v: $t = self.to_native();
                v as u128
            }

            fn set(&mut self, v: u128) {
                *self = Self::from_native(v as $t);
            }
        }
    };
}

little!(u8, u16, u32, u64);

impl<const N: usize> Little for [u8; N] {
    fn number(&self) -> u128 {
        Native::number(*self)
    }

    fn set(&mut self, v: u128) {
        *self = Native::of(v);
    }
}

impl Little for () {
    fn number(&self) -> u128 {
        0
    }

    fn set(&mut self, _: u128) {}
}

/// The position and size of each field according to the specification. If the
/// value of a field is more than an array of bytes, it is a little endian
/// number.
type Layout = &'static [(&'static str, usize, usize)];

fn expected(bytes: &[u8], at: usize, size: usize) -> u128 {
    bytes[at..at + size].iter().rev().fold(0u128, |a, v| a.rotate_left(8) ^ *v as u128)
}

/// Check a structure with each byte set to each value, on top of a pattern.
fn layout<T>(ctx: &Ctx, name: &str, align: usize, fields: Vec<Field<T>>, want: Layout, bytes: Option<(fn(&[u8]) -> T, fn(&T) -> &[u8])>) {
    let size = want.iter().map(|v| v.1 + v.2).max().unwrap();
    let pats: [fn(usize) -> u8; 4] = [|_| 0, |_| 0xff, |i| i as u8 + 1, |i| 0xa5u8.wrapping_sub((i as u8).wrapping_mul(3))];
    let pats = &pats;
    let fields = &fields;
    let total = (size * 256 * pats.len()) as u64;
    ctx.explore(name, total, |i| {
        let m = mixed(i, &[256, size as u64, 4]);
        format!("{}: pattern {}, byte {} set to {:#x}", name, m[2], m[1], m[0])
    }, |i, c| {
        expect_eq!((size_of::<T>(), align_of::<T>()), (size, align), "size and alignment");
        expect_eq!(fields.len(), want.len(), "fields");
        let m = mixed(i, &[256, size as u64, 4]);
        let mut b: Vec<u8> = (0..size).map(pats[m[2] as usize]).collect();
        b[m[1] as usize] = m[0] as u8;
        let mut v = MaybeUninit::<T>::uninit();
        unsafe { core::ptr::copy(b.as_ptr(), v.as_mut_ptr() as *mut u8, size) };
        let mut v = unsafe { v.assume_init() };
        if let Some((from, to)) = bytes {
            v = from(&b);
            expect_eq!(to(&v), &b[..], "bytes");
            c.step(2);
        }
        for f in fields {
            let Some(w) = want.iter().find(|w| w.0 == f.name) else {
                return Err(Fail::Violation(format!("unknown field {}", f.name)));
            };
            expect_eq!(((f.at)(&v), f.size), (w.1, w.2), "position of {}", f.name);
            expect_eq!((f.get)(&v), expected(&b, w.1, w.2), "value of {}", f.name);
            c.step(1);
        }
        // Set the field that has the byte, and see no other byte change.
        let w = want.iter().find(|w| (w.1..w.1 + w.2).contains(&(m[1] as usize))).unwrap();
        let f = fields.iter().find(|f| f.name == w.0).unwrap();
        let n = !(f.get)(&v) ^ (m[0] as u128);
        (f.set)(&mut v, n);
        let mut after = b.clone();
        for k in 0..w.2 {
            after[w.1 + k] = n.rotate_right(8 * k as u32) as u8;
        }
        let got = unsafe { core::slice::from_raw_parts(&raw const v as *const u8, size) };
        expect_eq!(got, &after[..], "bytes after setting {}", f.name);
        c.step(1);
        c.state(&(name, m[1], m[2]));
        c.trace();
        Ok(())
    });
}

/// Compare numbers to those of the specification.
fn table(ctx: &Ctx, name: &str, table: &'static [(&'static str, u64, u64)]) {
    ctx.explore(name, table.len() as u64, |i| table[i as usize].0.to_string(), |i, c| {
        let (n, got, want) = table[i as usize];
        expect_eq!(got, want, "number of {}", n);
        c.step(1);
        c.state(&(n, got));
        c.trace();
        Ok(())
    });
}

// B01

pub fn b01(ctx: &Ctx) {
    ctx.bound("all numbers; all bytes of all structures with all 256 values on 4 patterns, in both formats; all positions in a file of all structures");
    table(ctx, "numbers", elf::TABLE);
    macro_rules! both {
        ($m:ident, $n:literal, $w:literal) => {{
            use elfs::$m as e;
            const A: usize = $w;
            layout(ctx, concat!("ehdr", $n), A, fields!(e::Ehdr, native;
                e_ident e_type e_machine e_version e_entry e_phoff e_shoff e_flags e_ehsize e_phentsize e_phnum e_shentsize e_shnum e_shstrndx
            ), &[
                ("e_ident", 0, 16), ("e_type", 16, 2), ("e_machine", 18, 2), ("e_version", 20, 4), ("e_entry", 24, A),
                ("e_phoff", 24 + A, A), ("e_shoff", 24 + 2 * A, A), ("e_flags", 24 + 3 * A, 4), ("e_ehsize", 28 + 3 * A, 2),
                ("e_phentsize", 30 + 3 * A, 2), ("e_phnum", 32 + 3 * A, 2), ("e_shentsize", 34 + 3 * A, 2),
                ("e_shnum", 36 + 3 * A, 2), ("e_shstrndx", 38 + 3 * A, 2),
            ], None);
            layout(ctx, concat!("shdr", $n), A, fields!(e::Shdr, native;
                sh_name sh_type sh_flags sh_addr sh_offset sh_size sh_link sh_info sh_addralign sh_entsize
            ), &[
                ("sh_name", 0, 4), ("sh_type", 4, 4), ("sh_flags", 8, A), ("sh_addr", 8 + A, A), ("sh_offset", 8 + 2 * A, A),
                ("sh_size", 8 + 3 * A, A), ("sh_link", 8 + 4 * A, 4), ("sh_info", 12 + 4 * A, 4), ("sh_addralign", 16 + 4 * A, A),
                ("sh_entsize", 16 + 5 * A, A),
            ], None);
            layout(ctx, concat!("dyn", $n), A, fields!(e::Dyn, native; d_tag d_val), &[("d_tag", 0, A), ("d_val", A, A)], None);
            layout(ctx, concat!("rel", $n), A, fields!(e::Rel, native; r_offset r_info), &[("r_offset", 0, A), ("r_info", A, A)], None);
            layout(ctx, concat!("rela", $n), A, fields!(e::Rela, native; r_offset r_info r_addend),
                &[("r_offset", 0, A), ("r_info", A, A), ("r_addend", 2 * A, A)], None);
            layout(ctx, concat!("ident", $n), 1, fields!(e::Ident, native; i_magic i_class i_data i_version i_osabi i_abiversion i_pad), &[
                ("i_magic", 0, 4), ("i_class", 4, 1), ("i_data", 5, 1), ("i_version", 6, 1), ("i_osabi", 7, 1),
                ("i_abiversion", 8, 1), ("i_pad", 9, 7),
            ], None);
        }};
    }
    both!(elf32, "-32", 4);
    both!(elf64, "-64", 8);
    layout(ctx, "phdr-32", 4, fields!(elfs::elf32::Phdr, native;
        p_type p_offset p_vaddr p_paddr p_filesz p_memsz p_flags p_align
    ), &[
        ("p_type", 0, 4), ("p_offset", 4, 4), ("p_vaddr", 8, 4), ("p_paddr", 12, 4), ("p_filesz", 16, 4), ("p_memsz", 20, 4),
        ("p_flags", 24, 4), ("p_align", 28, 4),
    ], None);
    layout(ctx, "phdr-64", 8, fields!(elfs::elf64::Phdr, native;
        p_type p_flags p_offset p_vaddr p_paddr p_filesz p_memsz p_align
    ), &[
        ("p_type", 0, 4), ("p_flags", 4, 4), ("p_offset", 8, 8), ("p_vaddr", 16, 8), ("p_paddr", 24, 8), ("p_filesz", 32, 8),
        ("p_memsz", 40, 8), ("p_align", 48, 8),
    ], None);
    layout(ctx, "sym-32", 4, fields!(elfs::elf32::Sym, native; st_name st_value st_size st_info st_other st_shndx), &[
        ("st_name", 0, 4), ("st_value", 4, 4), ("st_size", 8, 4), ("st_info", 12, 1), ("st_other", 13, 1), ("st_shndx", 14, 2),
    ], None);
    layout(ctx, "sym-64", 8, fields!(elfs::elf64::Sym, native; st_name st_info st_other st_shndx st_value st_size), &[
        ("st_name", 0, 4), ("st_info", 4, 1), ("st_other", 5, 1), ("st_shndx", 6, 2), ("st_value", 8, 8), ("st_size", 16, 8),
    ], None);
    ctx.single("native", "the native format is that of this machine", |c| {
        expect_eq!(size_of::<elfs::elfn::Ehdr>(), if cfg!(target_pointer_width = "64") { 64 } else { 52 }, "native header");
        expect_eq!(elfs::elfn::ELFMAG, *b"\x7fELF", "magic");
        c.step(2);
        Ok(())
    });
    // An executable created by the toolchain of this machine, walked with the structures.
    ctx.single("executable", "the executable of this check", |c| walk(c));
}

fn walk(c: &mut Case) -> CaseResult {
    use elfs::elf64 as e;
    let file = std::fs::read("/proc/self/exe").expect("cannot read executable");
    fn read<T: Copy>(f: &[u8], at: u64) -> T {
        assert!(at as usize + size_of::<T>() <= f.len());
        unsafe { core::ptr::read_unaligned(f.as_ptr().add(at as usize) as *const T) }
    }
    let h: e::Ehdr = read(&file, 0);
    expect_eq!(h.e_ident.i_magic, e::ELFMAG, "magic");
    expect_eq!((h.e_ident.i_class, h.e_ident.i_data), (e::ELFCLASS64, e::ELFDATA2LSB), "class");
    expect_eq!((h.e_ident.i_version, h.e_version), (e::EV_CURRENT, e::EV_CURRENT as u32), "version");
    ensure!(h.e_type == e::ET_DYN || h.e_type == e::ET_EXEC, "type");
    expect_eq!(h.e_machine, if cfg!(target_arch = "x86_64") { e::EM_X86_64 } else { e::EM_AARCH64 }, "machine");
    expect_eq!(
        (h.e_ehsize as usize, h.e_phentsize as usize, h.e_shentsize as usize),
        (size_of::<e::Ehdr>(), size_of::<e::Phdr>(), size_of::<e::Shdr>()),
        "sizes of headers"
    );
    c.step(8);
    let sh = |i: u64| -> e::Shdr { read(&file, h.e_shoff + i * h.e_shentsize as u64) };
    let names = sh(h.e_shstrndx as u64);
    expect_eq!(names.sh_type, e::SHT_STRTAB, "names of sections");
    let text = |base: u64, at: u32| -> String {
        let b = &file[base as usize + at as usize..];
        String::from_utf8_lossy(&b[..b.iter().position(|v| *v == 0).unwrap()]).into_owned()
    };
    let mut sections = BTreeMap::new();
    for i in 0..h.e_shnum as u64 {
        let s = sh(i);
        sections.insert(text(names.sh_offset, s.sh_name), s);
        c.step(1);
    }
    for (n, t, f) in [
        (".text", e::SHT_PROGBITS, e::SHF_ALLOC | e::SHF_EXECINSTR),
        (".rodata", e::SHT_PROGBITS, e::SHF_ALLOC),
        (".data", e::SHT_PROGBITS, e::SHF_ALLOC | e::SHF_WRITE),
        (".bss", e::SHT_NOBITS, e::SHF_ALLOC | e::SHF_WRITE),
        (".dynsym", e::SHT_DYNSYM, e::SHF_ALLOC),
        (".dynamic", e::SHT_DYNAMIC, e::SHF_ALLOC | e::SHF_WRITE),
    ] {
        let Some(s) = sections.get(n) else {
            return Err(Fail::Violation(format!("no section {}", n)));
        };
        expect_eq!((s.sh_type, s.sh_flags as u32 & 7), (t, f), "kind of {}", n);
        c.step(1);
    }
    // Relations between the tables, which hold in every valid file.
    let dynsym = sections[".dynsym"];
    expect_eq!(dynsym.sh_entsize as usize, size_of::<e::Sym>(), "size of a symbol");
    let strtab = sh(dynsym.sh_link as u64);
    let mut found = Vec::new();
    for i in 0..dynsym.sh_size / dynsym.sh_entsize {
        let s: e::Sym = read(&file, dynsym.sh_offset + i * dynsym.sh_entsize);
        let n = text(strtab.sh_offset, s.st_name);
        if n == "memcpy" || n == "write" || n == "malloc" || n == "mmap64" || n == "mmap" {
            expect_eq!((s.st_info >> 4, s.st_info & 15, s.st_shndx), (e::STB_GLOBAL, e::STT_FUNC, e::SHN_UNDEF), "symbol {}", n);
            found.push(n);
        }
        c.step(1);
    }
    ensure!(!found.is_empty(), "no known symbols");
    let (mut loads, mut interp, mut dynamic) = (0, 0, None);
    for i in 0..h.e_phnum as u64 {
        let p: e::Phdr = read(&file, h.e_phoff + i * h.e_phentsize as u64);
        match p.p_type {
            e::PT_LOAD => {
                loads += 1;
                expect_eq!(p.p_vaddr % p.p_align, p.p_offset % p.p_align, "alignment of a segment");
                ensure!(p.p_memsz >= p.p_filesz, "size of a segment");
                if (p.p_vaddr..p.p_vaddr + p.p_memsz).contains(&h.e_entry) {
                    expect_eq!(p.p_flags & (e::PF_R | e::PF_W | e::PF_X), e::PF_R | e::PF_X, "access of the code");
                }
            },
            e::PT_INTERP => {
                interp += 1;
                ensure!(file[p.p_offset as usize] == b'/', "interpreter");
            },
            e::PT_DYNAMIC => dynamic = Some(p),
            e::PT_GNU_STACK => expect_eq!(p.p_flags, e::PF_R | e::PF_W, "access of the stack"),
            _ => {},
        }
        c.step(1);
    }
    ensure!(loads > 1 && interp == 1, "segments");
    let Some(d) = dynamic else {
        return Err(Fail::Violation("no dynamic segment".into()));
    };
    let mut tags = BTreeMap::new();
    for i in 0.. {
        let t: e::Dyn = read(&file, d.p_offset + i * size_of::<e::Dyn>() as u64);
        tags.insert(t.d_tag, t.d_val);
        c.step(1);
        if t.d_tag == e::DT_NULL as u64 {
            break;
        }
    }
    expect_eq!(tags.get(&(e::DT_SYMENT as u64)).copied(), Some(size_of::<e::Sym>() as u64), "size of a symbol");
    expect_eq!(tags.get(&(e::DT_RELAENT as u64)).copied(), Some(size_of::<e::Rela>() as u64), "size of a relocation");
    expect_eq!(tags.get(&(e::DT_SYMTAB as u64)).copied(), Some(dynsym.sh_addr), "address of symbols");
    expect_eq!(tags.get(&(e::DT_STRTAB as u64)).copied(), Some(strtab.sh_addr), "address of names");
    expect_eq!(tags.get(&(e::DT_STRSZ as u64)).copied(), Some(strtab.sh_size), "size of names");
    c.step(5);
    c.trace();
    Ok(())
}

// B02

pub fn b02(ctx: &Ctx) {
    ctx.bound("all error codes on all platforms, all pairs of codes");
    type Entry = (&'static str, &'static str, [u8; 2], u16);
    let mut all: Vec<Entry> = Vec::new();
    macro_rules! list {
        ($($n:ident $v:literal,)*) => {
            $(
                macro_rules! on {
                    ($p:ident) => {
                        all.push((stringify!($p), stringify!($n), unsafe { core::mem::transmute_copy(&sys::ffi::linux::$p::errno::$n) }, $v))
                    };
                }
                on!(aarch64);
                on!(x86);
                on!(x86_64);
                on!(native);
                on!(target);
                on!(libc);
            )*
        };
    }
    errnos!(list);
    let all = &all;
    ctx.explore("codes", all.len() as u64, |i| format!("{} {}", all[i as usize].0, all[i as usize].1), |i, c| {
        let (p, n, bytes, want) = all[i as usize];
        // All supported platforms are little endian.
        expect_eq!(u16::from_le_bytes(bytes), want, "{} on {}", n, p);
        ensure!((1..4096).contains(&u16::from_le_bytes(bytes)), "{} on {} is not a valid code", n, p);
        c.step(2);
        c.state(&all[i as usize]);
        c.trace();
        Ok(())
    });
    let n = all.len() as u64;
    ctx.explore("pairs", n, |i| format!("{} {}", all[i as usize].0, all[i as usize].1), |i, c| {
        let a = &all[i as usize];
        let alias = |v: &'static str| match v {
            "EWOULDBLOCK" => "EAGAIN",
            "EDEADLOCK" => "EDEADLK",
            v => v,
        };
        for b in all {
            if a.0 == b.0 {
                expect_eq!(a.2 == b.2, alias(a.1) == alias(b.1), "{} and {} on {} are the same", a.1, b.1, a.0);
                c.step(1);
            }
        }
        c.trace();
        Ok(())
    });
    // The kernel of this machine agrees, for all errors that can be caused without effect.
    ctx.single("kernel", "errors caused by harmless calls", |c| {
        use sys::ffi::linux::native::errno as e;
        let os = |v: std::io::Result<std::fs::File>| v.err().and_then(|v| v.raw_os_error()).unwrap_or(0);
        let path = |s: &str| std::fs::File::open(s);
        expect_eq!(os(path("/proc/self/none-such")), e::ENOENT as i32, "missing file");
        expect_eq!(os(path("/proc/self/status/none-such")), e::ENOTDIR as i32, "file used as directory");
        expect_eq!(os(path(&"x".repeat(300))), e::ENAMETOOLONG as i32, "long name");
        expect_eq!(os(std::fs::OpenOptions::new().write(true).open("/proc/self")), e::EISDIR as i32, "directory");
        let bad = std::fs::read_link("/proc/self/status").err().and_then(|v| v.raw_os_error()).unwrap_or(0);
        expect_eq!(bad, e::EINVAL as i32, "not a link");
        c.step(5);
        c.trace();
        Ok(())
    });
}

// B03

pub fn b03(ctx: &Ctx) {
    ctx.bound("all numbers; all bytes of all structures with all 256 values on 4 patterns, in both formats");
    table(ctx, "numbers", pe::TABLE);
    ctx.single("distinct", "formats can be told apart", |c| {
        ensure!(pecoff::PE_MAGIC_OH32 != pecoff::PE_MAGIC_OH32P, "both formats have the same magic");
        expect_eq!(pecoff::PE_MAGIC, *b"PE\0\0", "magic");
        expect_eq!(pecoff::INVALID_TIMESTAMPS, [0, u32::MAX], "timestamps");
        c.step(3);
        c.trace();
        Ok(())
    });
    layout(ctx, "header", 4, fields!(pecoff::Header, little;
        machine number_of_sections time_date_stamp pointer_to_symbol_table number_of_symbols size_of_optional_header characteristics
    ), &[
        ("machine", 0, 2), ("number_of_sections", 2, 2), ("time_date_stamp", 4, 4), ("pointer_to_symbol_table", 8, 4),
        ("number_of_symbols", 12, 4), ("size_of_optional_header", 16, 2), ("characteristics", 18, 2),
    ], None);
    layout(ctx, "optional", 4, fields!(pecoff::OptionalHeader, little;
        magic major_linker_version minor_linker_version size_of_code size_of_initialized_data size_of_uninitialized_data
        address_of_entry_point base_of_code base_of_data
    ), &[
        ("magic", 0, 2), ("major_linker_version", 2, 1), ("minor_linker_version", 3, 1), ("size_of_code", 4, 4),
        ("size_of_initialized_data", 8, 4), ("size_of_uninitialized_data", 12, 4), ("address_of_entry_point", 16, 4),
        ("base_of_code", 20, 4), ("base_of_data", 24, 4),
    ], None);
    layout(ctx, "optional-plus", 4, fields!(pecoff::OptionalHeader32P, little;
        magic major_linker_version minor_linker_version size_of_code size_of_initialized_data size_of_uninitialized_data
        address_of_entry_point base_of_code base_of_data
    ), &[
        ("magic", 0, 2), ("major_linker_version", 2, 1), ("minor_linker_version", 3, 1), ("size_of_code", 4, 4),
        ("size_of_initialized_data", 8, 4), ("size_of_uninitialized_data", 12, 4), ("address_of_entry_point", 16, 4),
        ("base_of_code", 20, 4), ("base_of_data", 24, 0),
    ], None);
    macro_rules! ext {
        ($n:literal, $t:ty, $a:literal) => {
            layout(ctx, $n, $a, fields!($t, little;
                image_base section_alignment file_alignment major_operating_system_version minor_operating_system_version
                major_image_version minor_image_version major_subsystem_version minor_subsystem_version win32_version_value
                size_of_image size_of_headers check_sum subsystem dll_characteristics size_of_stack_reserve
                size_of_stack_commit size_of_heap_reserve size_of_heap_commit loader_flags number_of_rva_and_sizes
            ), &[
                ("image_base", 0, $a), ("section_alignment", $a, 4), ("file_alignment", $a + 4, 4),
                ("major_operating_system_version", $a + 8, 2), ("minor_operating_system_version", $a + 10, 2),
                ("major_image_version", $a + 12, 2), ("minor_image_version", $a + 14, 2), ("major_subsystem_version", $a + 16, 2),
                ("minor_subsystem_version", $a + 18, 2), ("win32_version_value", $a + 20, 4), ("size_of_image", $a + 24, 4),
                ("size_of_headers", $a + 28, 4), ("check_sum", $a + 32, 4), ("subsystem", $a + 36, 2),
                ("dll_characteristics", $a + 38, 2), ("size_of_stack_reserve", $a + 40, $a), ("size_of_stack_commit", 2 * $a + 40, $a),
                ("size_of_heap_reserve", 3 * $a + 40, $a), ("size_of_heap_commit", 4 * $a + 40, $a), ("loader_flags", 5 * $a + 40, 4),
                ("number_of_rva_and_sizes", 5 * $a + 44, 4),
            ], None);
        };
    }
    ext!("extension", pecoff::OptionalHeaderExt, 4);
    ext!("extension-plus", pecoff::OptionalHeaderExt32P, 8);
    layout(ctx, "directory", 4, fields!(pecoff::DataDirectory, little; virtual_address size), &[("virtual_address", 0, 4), ("size", 4, 4)], None);
    layout(ctx, "section", 4, fields!(pecoff::SectionHeader, little;
        name virtual_size virtual_address size_of_raw_data pointer_to_raw_data pointer_to_relocations pointer_to_linenumbers
        number_of_relocations number_of_linenumbers characteristics
    ), &[
        ("name", 0, 8), ("virtual_size", 8, 4), ("virtual_address", 12, 4), ("size_of_raw_data", 16, 4),
        ("pointer_to_raw_data", 20, 4), ("pointer_to_relocations", 24, 4), ("pointer_to_linenumbers", 28, 4),
        ("number_of_relocations", 32, 2), ("number_of_linenumbers", 34, 2), ("characteristics", 36, 4),
    ], None);
}

// B04

/// What a program did.
#[derive(Debug, PartialEq)]
struct Outcome {
    text: Vec<u8>,
    code: u8,
}

/// Load a program at a segment and run it on a minimal machine. Memory is a
/// full address space, prefilled to tell apart what was not loaded.
fn dos(file: &[u8], segment: u16, mem: &mut [u8], c: &mut Case) -> Result<Outcome, String> {
    let w = |at: usize| u16::from_le_bytes([file[at], file[at + 1]]);
    if file[..2] != *b"MZ" {
        return Err("no signature".into());
    }
    let (cblp, cp, crlc, cparhdr) = (w(2), w(4), w(6), w(8));
    let total = if cblp == 0 { cp as usize * 512 } else { (cp as usize - 1) * 512 + cblp as usize };
    let head = cparhdr as usize * 16;
    if total > file.len() || head > total {
        return Err("size exceeds the file".into());
    }
    let sum = file[..total].chunks(2).fold(0u32, |a, v| a + v[0] as u32 + v.get(1).map_or(0, |v| (*v as u32) << 8));
    if sum & 0xffff != 0xffff {
        return Err("checksum is wrong".into());
    }
    let lin = |s: u16, o: u16| ((s as usize * 16) + o as usize) & 0xfffff;
    for (i, v) in file[head..total].iter().enumerate() {
        mem[(segment as usize * 16 + i) & 0xfffff] = *v;
    }
    let table = w(24) as usize;
    for i in 0..crlc as usize {
        let (o, s) = (w(table + i * 4), w(table + i * 4 + 2));
        let at = lin(s.wrapping_add(segment), o);
        let v = u16::from_le_bytes([mem[at], mem[at + 1]]).wrapping_add(segment);
        mem[at..at + 2].copy_from_slice(&v.to_le_bytes());
    }
    let (cs, mut ip) = (segment.wrapping_add(w(22)), w(20));
    let (mut ss, mut sp) = (segment.wrapping_add(w(14)), w(16));
    // The prefix of the program is in front of it.
    let (mut ds, mut es) = (segment.wrapping_sub(16), segment.wrapping_sub(16));
    let mut r = [0xdeadu16, 0x1234, 0x5678, 0x9abc];
    let mut text = Vec::new();
    for _ in 0..1000 {
        let mut next = || {
            let v = mem[lin(cs, ip)];
            ip = ip.wrapping_add(1);
            v
        };
        let op = next();
        c.step(1);
        match op {
            0x06 | 0x0e | 0x16 | 0x1e => {
                let v = [es, cs, ss, ds][op as usize >> 3];
                sp = sp.wrapping_sub(2);
                mem[lin(ss, sp)] = v as u8;
                mem[lin(ss, sp.wrapping_add(1))] = (v >> 8) as u8;
            },
            0x07 | 0x17 | 0x1f => {
                let v = u16::from_le_bytes([mem[lin(ss, sp)], mem[lin(ss, sp.wrapping_add(1))]]);
                sp = sp.wrapping_add(2);
                match op {
                    0x07 => es = v,
                    0x17 => ss = v,
                    _ => ds = v,
                }
            },
            0x90 => {},
            0xb0..=0xb3 => {
                let v = next();
                let n = op as usize & 3;
                r[n] = r[n] & 0xff00 | v as u16;
            },
            0xb4..=0xb7 => {
                let v = next();
                let n = op as usize & 3;
                r[n] = r[n] & 0xff | (v as u16) << 8;
            },
            0xb8..=0xbb => {
                let v = u16::from_le_bytes([next(), next()]);
                r[op as usize & 3] = v;
            },
            0xeb => {
                let v = next() as i8;
                ip = ip.wrapping_add(v as u16);
            },
            0xcd => {
                if next() != 0x21 {
                    return Err("unknown interrupt".into());
                }
                match r[0] >> 8 {
                    0x09 => {
                        let mut at = r[2];
                        while mem[lin(ds, at)] != b'$' {
                            text.push(mem[lin(ds, at)]);
                            at = at.wrapping_add(1);
                            if text.len() > 1000 {
                                return Err("text does not end".into());
                            }
                        }
                    },
                    0x4c => return Ok(Outcome { text, code: r[0] as u8 }),
                    v => return Err(format!("unknown function {:#x}", v)),
                }
            },
            v => return Err(format!("unknown instruction {:#x} at {:#x}", v, ip.wrapping_sub(1))),
        }
    }
    Err("program does not end".into())
}

pub fn b04(ctx: &Ctx) {
    let len = ctx.pick(7, 8);
    ctx.bound(format!(
        "sums of all strings of up to 2 bytes and all strings of up to {} of 7 bytes, sizes around the powers of two up to 4 MiB; all bytes of all structures with all values on 4 patterns; the stub loaded at all segments",
        len
    ));
    fn model(b: &[u8]) -> u16 {
        // The sum of all bytes, weighted by position.
        let even: u64 = b.iter().step_by(2).map(|v| *v as u64).sum();
        let odd: u64 = b.iter().skip(1).step_by(2).map(|v| *v as u64).sum();
        ((even + odd * 256) % 65536) as u16
    }
    ctx.explore("sum-short", 1 + 256 + 65536, |i| format!("string {}", i), |i, c| {
        let b = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => ((i - 257) as u16).to_be_bytes().to_vec(),
        };
        expect_eq!(mz::sum16(&b), model(&b), "sum of {:02x?}", b);
        c.step(1);
        c.state(&b);
        c.trace();
        Ok(())
    });
    let alpha = [0x00u8, 0x01, 0x7f, 0x80, 0xff, 0x5a, 0xfe];
    let k = alpha.len() as u64;
    ctx.explore("sum-long", seq_total(k, len), |i| format!("{:?}", seq_at(k, i)), |i, c| {
        let b: Vec<u8> = seq_at(k, i).into_iter().map(|v| alpha[v]).collect();
        let s = mz::sum16(&b);
        expect_eq!(s, model(&b), "sum of {:02x?}", b);
        // Any string extended by the complement of its sum has no sum.
        let mut e = b.clone();
        if e.len() % 2 != 0 {
            e.push(0);
        }
        e.extend_from_slice(&(!s).to_le_bytes());
        expect_eq!(mz::sum16(&e), 0xffff, "sum with checksum");
        c.step(2);
        c.state(&s);
        c.trace();
        Ok(())
    });
    ctx.explore("sum-size", 4096, |i| format!("{} bytes", i), |i, c| {
        for v in [0x00u8, 0x01, 0x80, 0xff] {
            let b = vec![v; i as usize];
            expect_eq!(mz::sum16(&b), model(&b), "sum of {} times {:#x}", i, v);
            c.step(1);
        }
        c.trace();
        Ok(())
    });
    ctx.explore("sum-huge", 3 * 11, |i| format!("2^{} {:+} bytes", 12 + i / 3, i as i64 % 3 - 1), |i, c| {
        let n = (1usize << (12 + i / 3)) + (i as usize % 3) - 1;
        for k in 0..4 {
            // All bytes alike, or all of them different.
            let b: Vec<u8> = (0..n).map(|v| match k {
                0 => 0x01,
                1 => 0xff,
                2 => (v ^ v >> 7 ^ v >> 15) as u8,
                _ => if v + 1 == n { 0x5a } else { 0 },
            }).collect();
            expect_eq!(mz::sum16(&b), model(&b), "sum of pattern {}", k);
            c.step(1);
        }
        c.trace();
        Ok(())
    });
    layout(ctx, "header", 2, fields!(mz::Header, little;
        magic cblp cp crlc cparhdr minalloc maxalloc ss sp csum ip cs lfarlc ovno
    ), &[
        ("magic", 0, 2), ("cblp", 2, 2), ("cp", 4, 2), ("crlc", 6, 2), ("cparhdr", 8, 2), ("minalloc", 10, 2), ("maxalloc", 12, 2),
        ("ss", 14, 2), ("sp", 16, 2), ("csum", 18, 2), ("ip", 20, 2), ("cs", 22, 2), ("lfarlc", 24, 2), ("ovno", 26, 2),
    ], Some((|b| mz::Header::from_bytes(b.try_into().unwrap()), |v| v.as_bytes())));
    layout(ctx, "extension", 4, fields!(mz::HeaderExt, little; res oemid oeminfo res2 lfanew), &[
        ("res", 0, 8), ("oemid", 8, 2), ("oeminfo", 10, 2), ("res2", 12, 20), ("lfanew", 32, 4),
    ], Some((|b| mz::HeaderExt::from_bytes(b.try_into().unwrap()), |v| v.as_bytes())));
    layout(ctx, "relocation", 2, fields!(mz::Relocation, little; offset segment), &[("offset", 0, 2), ("segment", 2, 2)],
        Some((|b| mz::Relocation::from_bytes(b.try_into().unwrap()), |v| v.as_bytes())));
    ctx.explore("relocation-values", 65536, |i| format!("{:#x}", i), |i, c| {
        let v = i as u16;
        let b = v.to_le_bytes();
        let r = mz::Relocation::from_bytes(&[b[0], b[1], !b[0], b[1]]);
        expect_eq!((Little::number(&r.offset), Little::number(&r.segment)), (v as u128, u16::from_le_bytes([!b[0], b[1]]) as u128), "values");
        c.step(1);
        c.trace();
        Ok(())
    });
    ctx.single("numbers", "sizes and signature", |c| {
        expect_eq!((mz::WORD_SIZE, mz::PARAGRAPH_SIZE, mz::PAGE_SIZE), (2, 16, 512), "sizes");
        expect_eq!(mz::MAGIC, *b"MZ", "signature");
        c.step(2);
        Ok(())
    });
    // The program fits below the reserved area at all of these.
    ctx.explore("stub", 0xa000 - 0x20, |i| format!("loaded at segment {:#x}", i + 0x10), |i, c| {
        thread_local! {
            static MEM: core::cell::RefCell<Vec<u8>> = core::cell::RefCell::new(vec![0xf4; 1 << 20]);
        }
        let segment = i as u16 + 0x10;
        let want = Outcome { text: b"This program cannot be run in DOS mode.\r\r\n".to_vec(), code: 1 };
        let got = MEM.with(|m| {
            let m = &mut *m.borrow_mut();
            let r = dos(&mz::STUB_X86, segment, m, c);
            let at = segment as usize * 16;
            m[at..(at + 256).min(1 << 20)].fill(0xf4);
            r
        });
        expect_eq!(got, Ok(want), "outcome");
        c.state(&segment);
        c.trace();
        Ok(())
    });
    // Data that follows the stub has no effect on it, and is found by its header.
    ctx.explore("appended", 512, |i| format!("{} bytes appended", i), |i, c| {
        let mut file = mz::STUB_X86.to_vec();
        file.extend(b"PE\0\0");
        file.extend((0..i).map(|v| v as u8 ^ 0xa5));
        let h = mz::Header::from_bytes(file[..28].try_into().unwrap());
        let e = mz::HeaderExt::from_bytes(file[28..64].try_into().unwrap());
        let at = Little::number(&e.lfanew) as usize;
        expect_eq!(&file[at..at + 4], &pecoff::PE_MAGIC[..], "appended format");
        expect_eq!(pecoff::PE_OFFSET, 28 + 32, "position of the offset");
        ensure!(Little::number(&h.lfarlc) as usize >= 64, "extended header is not announced");
        let mut m = vec![0xf4; 1 << 20];
        let r = dos(&file, 0x1000, &mut m, c);
        ensure!(r.is_ok_and(|v| v.code == 1), "outcome");
        c.step(3);
        c.trace();
        Ok(())
    });
}

fn main() -> std::process::ExitCode {
    mc::driver::main(&[("B01", b01), ("B02", b02), ("B03", b03), ("B04", b04)])
}
