//! Type-level witnesses: this crate type-checks exactly if the borrowing and thread-safety
//! guarantees of C21 hold. Nothing here is ever run.
#![allow(dead_code, unused)]
use object::read::*;
use object::{elf, macho, pe, Endianness, LittleEndian};

fn send_sync<T: Send + Sync>() {}

fn parsers_are_thread_safe<'a, 'f: 'f>() where 'a: 'f {
    type R<'a> = &'a [u8];
    send_sync::<File<'a, R<'a>>>();
    send_sync::<Segment<'a, 'f, R<'a>>>();
    send_sync::<Section<'a, 'f, R<'a>>>();
    send_sync::<Symbol<'a, 'f, R<'a>>>();
    send_sync::<SymbolTable<'a, 'f, R<'a>>>();
    send_sync::<Comdat<'a, 'f, R<'a>>>();
    send_sync::<SectionIterator<'a, 'f, R<'a>>>();
    send_sync::<SymbolIterator<'a, 'f, R<'a>>>();
    send_sync::<SectionRelocationIterator<'a, 'f, R<'a>>>();
    send_sync::<SymbolMap<SymbolMapName<'a>>>();
    send_sync::<ObjectMap<'a>>();
    send_sync::<RelocationMap>();
    send_sync::<CompressedData<'a>>();
    send_sync::<Error>();
    send_sync::<elf::FileHeader64<Endianness>>();
    send_sync::<object::read::elf::ElfFile64<'a, Endianness, R<'a>>>();
    send_sync::<object::read::elf::ElfFile32<'a, Endianness, R<'a>>>();
    send_sync::<object::read::coff::CoffFile<'a, R<'a>>>();
    send_sync::<object::read::coff::CoffBigFile<'a, R<'a>>>();
    send_sync::<object::read::macho::MachOFile64<'a, Endianness, R<'a>>>();
    send_sync::<object::read::macho::MachOFile32<'a, Endianness, R<'a>>>();
    send_sync::<object::read::macho::DyldCache<'a, Endianness, R<'a>>>();
    send_sync::<object::read::pe::PeFile64<'a, R<'a>>>();
    send_sync::<object::read::pe::PeFile32<'a, R<'a>>>();
    send_sync::<object::read::wasm::WasmFile<'a, R<'a>>>();
    send_sync::<object::read::xcoff::XcoffFile64<'a, R<'a>>>();
    send_sync::<object::read::xcoff::XcoffFile32<'a, R<'a>>>();
    send_sync::<object::read::archive::ArchiveFile<'a, R<'a>>>();
    send_sync::<object::read::archive::ArchiveMember<'a>>();
}

// ---- what a parsed file hands out lives as long as the input, not the parsed file
fn generic_object<'d, T: Object<'d>>(f: T) -> Vec<Option<&'d [u8]>> {
    let mut out: Vec<Option<&'d [u8]>> = Vec::new();
    for s in f.sections() {
        out.push(s.data().ok());
        out.push(s.data_range(0, 0).ok().flatten());
        out.push(s.compressed_data().ok().map(|c| c.data));
    }
    for s in f.segments() {
        out.push(s.data().ok());
        out.push(s.data_range(0, 0).ok().flatten());
    }
    out.push(f.build_id().ok().flatten());
    out.push(f.gnu_debuglink().ok().flatten().map(|x| x.0));
    out.push(f.gnu_debugaltlink().ok().flatten().map(|x| x.0));
    if let Ok(it) = f.imports() {
        for i in it {
            let i: object::read::Result<Import<'d>> = i;
            if let Ok(i) = i {
                let n: NameOrOrdinal<&'d [u8]> = i.name();
                if let NameOrOrdinal::Name(n) = n {
                    out.push(Some(n));
                }
                out.push(Some(i.library()));
            }
        }
    }
    if let Ok(it) = f.exports() {
        for i in it {
            let _i: object::read::Result<Export<'d>> = i;
        }
    }
    let m: SymbolMap<SymbolMapName<'d>> = f.symbol_map();
    for e in m.symbols() {
        out.push(Some(e.name().as_bytes()));
    }
    let o: ObjectMap<'d> = f.object_map();
    drop(f);
    out
}

fn symbols<'d>(f: File<'d>) -> Vec<Option<&'d str>> {
    let mut out: Vec<Option<&'d str>> = Vec::new();
    for s in f.symbols() {
        out.push(s.name().ok());
        out.push(s.name_bytes().ok().map(|_| ""));
    }
    for s in f.dynamic_symbols() {
        out.push(s.name().ok());
    }
    drop(f);
    out
}

fn section_by_name<'d>(data: &'d [u8]) -> Option<&'d [u8]> {
    let f = File::parse(data).ok()?;
    let s = f.section_by_name(".text")?;
    s.data().ok()
}

fn uncompressed<'d>(data: &'d [u8]) -> Option<std::borrow::Cow<'d, [u8]>> {
    let f = File::parse(data).ok()?;
    let s = f.section_by_name(".text")?;
    s.uncompressed_data().ok()
}

fn archive<'d>(data: &'d [u8]) -> Option<(&'d [u8], &'d [u8])> {
    let a = archive::ArchiveFile::parse(data).ok()?;
    let m = a.members().next()?.ok()?;
    Some((m.name(), m.data(data).ok()?))
}

fn elf_parts<'d>(data: &'d [u8]) -> Option<(&'d [u8], &'d elf::FileHeader64<Endianness>)> {
    let f = object::read::elf::ElfFile64::<Endianness>::parse(data).ok()?;
    let t = f.elf_section_table();
    let s = t.iter().next()?;
    let name: &'d [u8] = t.section_name(f.endian(), s).ok()?;
    let h: &'d elf::FileHeader64<Endianness> = f.elf_header();
    Some((name, h))
}

fn elf_symbols<'d>(data: &'d [u8]) -> Option<&'d [u8]> {
    let f = object::read::elf::ElfFile64::<Endianness>::parse(data).ok()?;
    let t = f.elf_symbol_table();
    let s = t.iter().next()?;
    t.symbol_name(f.endian(), s).ok()
}

fn pe_parts<'d>(data: &'d [u8]) -> Option<&'d [u8]> {
    let f = object::read::pe::PeFile64::parse(data).ok()?;
    let e = f.export_table().ok()??;
    let n = e.name_iter().next()?.0;
    e.name_from_pointer(n).ok()
}

fn macho_parts<'d>(data: &'d [u8]) -> Option<&'d [u8]> {
    let f = object::read::macho::MachOFile64::<Endianness>::parse(data).ok()?;
    let t = f.macho_symbol_table();
    let s = t.iter().next()?;
    use object::read::macho::Nlist;
    s.name(f.endian(), t.strings()).ok()
}

fn pod_tied<'d>(data: &'d [u8]) -> Option<(&'d u32, &'d [u8])> {
    object::pod::from_bytes::<u32>(data).ok()
}

fn cached<'d>(c: &'d ReadCache<std::io::Cursor<Vec<u8>>>) -> Option<&'d [u8]> {
    let f = File::parse(c).ok()?;
    let s = f.section_by_name(".text")?;
    s.data().ok()
}

fn cached_range<'d>(c: &'d ReadCache<std::io::Cursor<Vec<u8>>>) -> Option<&'d [u8]> {
    let r = c.range(4, 8);
    r.read_bytes_at(0, 4).ok()
}
