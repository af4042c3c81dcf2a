#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON well formed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("C01", "Reading never panics, whatever the input bytes",
  "For every byte sequence given as file data, no function of the reading API panics: no out-of-bounds index or slice, no arithmetic overflow (as checked in debug builds), no division by zero, no oversized shift, no unwrap of an absent value. A malformed file is reported as an Err or an empty result.",
  ["inputs"], "all input byte strings, all reading entry points, all iteration states reachable through the public API",
  "tests sample a few dozen files; the panicking bytes are chosen by an attacker among 2^(8n)",
  ["src/read", "src/pod.rs", "src/endian.rs"],
  [("checked reads and slices", "read/read_ref.rs, read/util.rs (Bytes, StringTable), pod.rs (from_bytes, slice_from_bytes)"),
   ("validated header fields and table indices", "read/elf/section.rs, read/coff/section.rs, read/coff/symbol.rs, read/macho/load_command.rs, read/xcoff/*.rs, read/pe/*.rs")])
p("C02", "Memory used by reading is bounded by the input size",
  "No reading function allocates an amount of memory that is chosen by an unvalidated number in the file: every allocation is bounded by a constant, by the length of data actually present in the input, or by the number of items actually parsed, or is made fallibly (returning an error) for an explicitly declared decompressed size.",
  ["inputs"], "all input byte strings, all allocation sites reachable from the reading API",
  "only a crafted count in a header triggers it; ordinary files carry truthful sizes",
  ["src/read"],
  [("allocation sites in the reader", "read/elf/file.rs, read/elf/relocation.rs, read/archive.rs, read/coff/section.rs, read/mod.rs (CompressedData::decompress), read/symbol_map.rs, read/macho/dyld_cache.rs")])
p("C03", "Every reader loop and iterator makes progress and ends",
  "Every loop in the reading code ends and every reader iterator yields a bounded number of items on every input: each turn consumes input, advances towards a fixed bound or leaves the loop. After an iterator reports an error it does not report errors forever; it ends.",
  ["inputs", "histories"], "all input byte strings and all sequences of next() calls",
  "a cycle or a zero-sized record in crafted input is needed; tests' files have none",
  ["src/read"],
  [("iterators over variable length records", "read/elf/note.rs, read/elf/attributes.rs, read/elf/version.rs, read/pe/relocation.rs, read/pe/import.rs, read/macho/load_command.rs, read/macho/exports_trie.rs, read/macho/fixup.rs, read/archive.rs, read/coff/symbol.rs"),
   ("section group / chain walks", "read/elf/hash.rs, read/macho/dyld_cache.rs")])
p("C04", "Call depth while reading does not depend on the input",
  "No reading function recurses, directly or through other functions, so that stack use is bounded independently of the input.",
  ["inputs"], "all input byte strings; all call chains in the reader",
  "nesting deep enough to overflow a stack never occurs in test files",
  ["src/read"], [("iterative tree walks", "read/macho/exports_trie.rs (explicit stack), read/pe/resource.rs (one level per call), read/xcoff, read/elf")])
p("C05", "Casting file bytes to structures is sound for safe callers",
  "No use of the safe API causes undefined behaviour: bytes are reinterpreted as a structure only after a size and alignment check, only for types that have no padding, no invalid bit patterns and no interior mutability or pointers, and no other unchecked memory access exists outside the small audited core.",
  ["programs", "inputs"], "all safe programs using the crate, all input byte strings, all structures that can be cast",
  "undefined behaviour is usually silent in a test run; soundness quantifies over all client programs",
  ["src/pod.rs", "src/endian.rs", "src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs", "src/goff.rs", "src/archive.rs", "src/read/read_cache.rs"],
  [("Pod trait and its implementations", "pod.rs, unsafe_impl_pod!/unsafe_impl_endian_pod! uses"),
   ("the cast functions", "pod.rs from_bytes/slice_from_bytes/bytes_of"),
   ("interior mutability of the cache", "read/read_cache.rs")])
p("C06", "On-disk structures have the layout of their format",
  "Every structure that is read from or written to a file has the size, field offsets, field widths and field order which its object file format specifies, so that a field always denotes the same bytes of the file.",
  ["inputs", "configurations"], "all on-disk structures and all their fields, on every host",
  "tests touch only some structures; a swapped pair of equal-width fields survives a round trip through this crate alone",
  ["src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs", "src/goff.rs", "src/archive.rs"],
  [("repr(C) definitions", "elf.rs, macho.rs, pe.rs, xcoff.rs, goff.rs, archive.rs")])
p("C07", "Format constants have the values of their specification",
  "Every named constant of an object file format (machine numbers, section, symbol and relocation types, flags, magic numbers, load commands, characteristics) has the value that the format's specification assigns to it, and its printed name denotes the same value.",
  ["inputs"], "all named format constants",
  "there are several thousand constants and a handful occur in tests; reading and writing with the same wrong value still round-trips",
  ["src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs", "src/goff.rs", "src/archive.rs", "src/constants.rs"],
  [("constant definitions and name tables", "elf.rs, macho.rs, pe.rs, xcoff.rs, goff.rs; constants! macro")])
p("C08", "Every data source gives the same bytes or an error",
  "A read from a cached stream or from a sub-range of one returns exactly the bytes at the requested offset, independent of which reads were made before, and returns an error exactly when the request lies outside the source (or sub-range), as it does for a plain byte slice. Data returned earlier is never moved, changed or freed by later reads.",
  ["inputs", "histories"], "all sequences of reads, all offsets, sizes and range ends",
  "history dependence needs a particular pair of reads; boundary offsets are rarely exercised",
  ["src/read/read_ref.rs", "src/read/read_cache.rs"],
  [("ReadRef implementations", "read/read_ref.rs (&[u8]), read/read_cache.rs (ReadCache, ReadCacheRange)")])
p("C09", "The unified file API gives what the format's own reader gives",
  "Every operation of the format-independent File, Segment, Section, Symbol, Comdat, symbol table and iterator types returns exactly what the same operation of the underlying format-specific reader returns for the same arguments, for every format and for both widths.",
  ["inputs"], "all operations, all formats, all inputs",
  "there are about a dozen formats times a hundred operations; tests use a few of these pairs",
  ["src/read/any.rs", "src/read/traits.rs"],
  [("dispatch", "read/any.rs")])
p("C10", "Raw header accessors return their own field in both widths and byte orders",
  "Each raw accessor of the width-generic format traits (file headers, program and section headers, symbols, relocations, dynamic entries, segments, nlist, optional headers) returns the value of the field it is named after, decoded with the file's byte order, identically in the 32-bit and the 64-bit variant.",
  ["inputs"], "all accessor implementations, both widths, both byte orders, all field values",
  "a wrong field with a similar value, or a missed byte swap on one width, is invisible in the few native-endian test files",
  ["src/read/elf", "src/read/macho", "src/read/pe", "src/read/coff", "src/read/xcoff", "src/elf.rs", "src/macho.rs"],
  [("raw accessor traits", "FileHeader, SectionHeader, ProgramHeader, Sym, Rel, Rela, Dyn, CompressionHeader, NoteHeader, MachHeader, Segment, Section, Nlist, ImageNtHeaders, ImageOptionalHeader, CoffHeader, ImageSymbol, xcoff FileHeader/SectionHeader/Symbol/Rel/AuxHeader")])
p("C11", "Section, symbol and segment attributes come from the right header fields",
  "For every format, the address, size, alignment, file range, index, name, flags and relocation attributes reported for a section, segment, symbol or relocation are derived from the header fields that define them in that format and from nothing else.",
  ["inputs"], "all formats, all attribute operations, all header values",
  "values such as file size and memory size or address and offset coincide in common test files",
  ["src/read/elf", "src/read/macho", "src/read/pe", "src/read/coff", "src/read/xcoff", "src/read/wasm.rs"],
  [("ObjectSection/ObjectSegment/ObjectSymbol/Relocation implementations", "read/{elf,macho,pe,coff,xcoff}/{section,segment,symbol,relocation,file}.rs")])
p("C12", "Relocation kinds written are the relocation kinds read back",
  "For every architecture and every relocation kind, encoding and size that the writer accepts without explicit raw flags, the raw relocation type it emits is one that the reader of that format maps back to the same kind, encoding and size. A combination that a format can only express as an equivalent one (a PLT-relative call as a branch, an encoding the format does not record) may read back as that equivalent; a combination with no raw type at all is rejected with an error. For the formats whose addends are relative to the end of the field (COFF, Mach-O, XCOFF), the adjustment the writer makes to the addend is the inverse of the one the reader makes, for every raw type, and an addend stored in the section data is stored in the width of the relocation.",
  ["inputs"], "all architectures x kinds x encodings x sizes, for ELF, COFF, Mach-O and XCOFF",
  "the product has thousands of combinations; tests write a few per format",
  ["src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/mod.rs", "src/write/xcoff.rs", "src/read/elf/relocation.rs", "src/read/coff/relocation.rs", "src/read/macho/relocation.rs", "src/read/xcoff/relocation.rs"],
  [("writer translation tables", "write/*: *_translate_relocation"), ("reader tables", "read/*/relocation.rs")])
p("C13", "Architecture and format written are those read back",
  "For every format, architecture and sub-architecture that the writer accepts, the machine identification it emits when no explicit raw file flags are given is one that the reader of that format reports as the same architecture and sub-architecture, and as the same width and byte order where the format records them (ELF, Mach-O; byte order also for COFF PowerPC). COFF has one machine type for 32-bit and 64-bit PowerPC, which is read as the 32-bit one. A combination the reader could not report is rejected with an error.",
  ["inputs"], "all (format, architecture, sub-architecture, endianness) combinations the writer accepts",
  "tests cover a few architectures per format", 
  ["src/write", "src/read/elf/file.rs", "src/read/macho/file.rs", "src/read/coff/file.rs", "src/read/pe/file.rs", "src/read/xcoff/file.rs", "src/read/mod.rs"],
  [("writer header fields", "write/{elf,coff,macho}/..., write/xcoff.rs"), ("reader architecture()", "read/*/file.rs"), ("FileKind::parse", "read/mod.rs")])
p("C14", "Section kinds and symbol kinds written are those read back",
  "For every section kind, symbol kind, scope and weakness that the writer encodes into a format's flags when the caller gives no explicit flags, the reader of that format decodes those flags to the same classification, or to the coarser one where the format cannot express it (for example an ELF debug section as other, read-only data with relocations as data, an ELF x86-64 unwind section as unknown). A kind that the format has no flags for is rejected with an error.",
  ["inputs"], "all kinds x formats",
  "a kind absent from the test's object is never encoded",
  ["src/write", "src/read/elf/section.rs", "src/read/elf/symbol.rs", "src/read/coff/section.rs", "src/read/coff/symbol.rs", "src/read/macho/section.rs", "src/read/xcoff"],
  [("writer flag tables", "write/*: section_flags, symbol_flags, segment/section names"), ("reader kind()", "read/*/{section,symbol}.rs")])
p("C15", "Writers emit exactly the space and position they reserved",
  "Each low-level writer part emits exactly as many bytes, at exactly the alignment, as the matching reservation step accounted for, under the same conditions, so that every file offset stored in a header is the position at which that part is really written.",
  ["programs", "inputs"], "all combinations of reserved parts, both widths, all counts",
  "the offsets only disagree for particular optional parts or counts (extended section numbering, empty tables)",
  ["src/write/elf/writer.rs", "src/write/coff/writer.rs", "src/write/macho", "src/write/pe.rs", "src/write/xcoff.rs"],
  [("reserve_* / write_* pairs", "write/elf/writer.rs, write/coff/writer.rs, write/pe.rs")])
p("C16", "Fields written come from the caller's matching value in both widths",
  "Each header field the low-level writers emit (file, program and section headers, symbols, relocations, dynamic entries, verdefs, hash headers, COFF and PE headers and data directories) is the caller's value for that same field, encoded in the file's byte order, identically for the 32-bit and the 64-bit variant. Where a field is derived (a count, a string table offset, a section index that does not fit and is replaced by its escape value), it is derived from that same value. The unified object writer fills each of these fields from the section, symbol, relocation or recorded offset that the field describes.",
  ["inputs"], "all emitted fields, both widths, both byte orders, all values",
  "fields that are zero in the test objects hide swaps, and one-width mistakes need a file of that width with that part",
  ["src/write/elf/encoder.rs", "src/write/elf/writer.rs", "src/write/elf/object.rs", "src/write/coff/writer.rs", "src/write/coff/object.rs", "src/write/macho", "src/write/pe.rs", "src/write/xcoff.rs"],
  [("field encoders", "write/elf/encoder.rs write_file_header/write_program_header/write_section_header/write_symbol/write_relocation..., write/coff/writer.rs, write/pe.rs")])
p("C17", "Writing is a function of its inputs only",
  "The bytes written, and the values read, depend only on the arguments given through the API: no environment variable, clock, random state, address, thread, file system or global mutable state influences them, and no iteration order of a randomly seeded container reaches the output.",
  ["schedules", "inputs", "configurations"], "all runs with equal inputs on any host at any time",
  "two runs of a test rarely differ; hash seeds and clocks show only across processes",
  ["src/write", "src/build", "src/read"],
  [("containers used by the writers", "write/string.rs, write/mod.rs (IndexSet/HashMap use)"), ("absence of ambient authority", "whole crate")])
p("C18", "Identifiers handed out while building an object stay valid",
  "A section, symbol, comdat or string identifier returned by the writing API denotes the same entity for the whole life of the object: nothing removes, reorders or replaces entries in a way that would make an earlier identifier denote another entity.",
  ["histories"], "all sequences of add and mutate calls on a write object or string table",
  "the identifier is invalidated only by a later, unrelated operation",
  ["src/write/mod.rs", "src/write/string.rs", "src/build/table.rs", "src/build/elf.rs"],
  [("append only storage", "write/mod.rs Object.sections/symbols/comdats, write/string.rs StringTable"), ("table with deletion marks", "build/table.rs")])
p("C19", "Errors found while reading or writing are never swallowed",
  "Where a lower layer of the reader, writer or builder reports a failure (an Err, or an overflow that a checked operation detected in a function that can fail), the caller returns an error. The exceptions are reviewed defaults: operations whose return type cannot carry an error, opening files whose load command table (Mach-O) or COFF symbol table (PE) is malformed, and names or attributes that count as absent when they cannot be read. An error of an output stream is kept until it is reported, so an incomplete file is never reported as written.",
  ["inputs", "fault_sequences"], "all fallible internal calls, all failing inputs and failing output streams",
  "each site needs its own failing input or failing sink",
  ["src/read", "src/write", "src/build"],
  [("Result propagation", "whole crate"), ("StreamingBuffer", "write/util.rs")])
p("C20", "Only files with the right magic, class and version are accepted",
  "A format-specific parser accepts an input only after checking that format's magic number and the class, byte order and version fields that select the structures used, and the format detection maps each magic number to the parser that accepts it.",
  ["inputs"], "all input byte strings, all parsers",
  "tests only feed valid headers",
  ["src/read/mod.rs", "src/read/elf/file.rs", "src/read/macho/file.rs", "src/read/macho/fat.rs", "src/read/macho/dyld_cache.rs", "src/read/pe/file.rs", "src/read/coff/file.rs", "src/read/coff/import.rs", "src/read/xcoff/file.rs", "src/read/archive.rs"],
  [("header validation", "FileKind::parse, ElfFile/FileHeader::parse, MachHeader::parse, ImageNtHeaders::parse, ImageDosHeader::parse, xcoff FileHeader::parse, ArchiveFile::parse, FatArch, DyldCacheHeader::parse")])
p("C21", "Parsed data borrows the input, not the parser, and parsers are thread-safe",
  "Section data, names, symbols and other data obtained from a parsed file stay usable after the parsed-file value is dropped as long as the input lives, cannot outlive the input, and a parsed file over shared bytes can be sent to and shared between threads.",
  ["programs", "schedules"], "all client programs",
  "these are promises about which client programs compile",
  ["src/read/any.rs", "src/read/traits.rs", "src/read/elf", "src/read/macho", "src/read/pe", "src/read/coff", "src/read/xcoff"],
  [("lifetime parameters of the reading API", "read/traits.rs, read/any.rs")])
p("C22", "Every supported feature configuration builds, including without std",
  "Every documented combination of the crate's features type-checks for library users, and the configurations documented as no_std use no std item.",
  ["configurations"], "all feature combinations of the documented matrix",
  "one test run exercises one configuration",
  ["Cargo.toml", "src/lib.rs", "xtask"],
  [("feature gates", "Cargo.toml [features], cfg attributes")])
p("C23", "Rewriting a file through a builder preserves what was not edited",
  "Every header, section, segment, load command, symbol, relocation, dynamic and version attribute that the ELF and Mach-O builders read from a file is stored in, and on writing is emitted from, the builder value of the same name, unchanged, and indices are re-derived from the builder's own identifiers.",
  ["inputs", "histories"], "all ELF and Mach-O inputs of both widths and byte orders, all builder attributes",
  "an attribute that is zero or equal to another in the test files hides a wrong copy",
  ["src/build/elf.rs", "src/build/macho.rs", "src/build/table.rs"],
  [("Builder::read and Builder::write", "build/elf.rs, build/macho.rs")])
# not claimed
p("C30", "A written object reads back as the same object",
  "For every object the writer accepts, parsing the emitted bytes yields the same sections, contents, symbols and relocations.",
  ["inputs", "programs"], "all objects", "combinatorial input space",
  ["src/write", "src/read"], [("write::Object::write and the readers", "write/mod.rs")])
p("C31", "Address lookup in a symbol map returns the enclosing symbol",
  "For every address the symbol map lookup returns the symbol with the greatest address not above it, if the address lies within its size.",
  ["inputs"], "all symbol tables and addresses", "numerical search result", ["src/read/symbol_map.rs"], [("SymbolMap::get", "read/symbol_map.rs")])
p("C32", "Decompressed section data is the original data",
  "Decompressing a compressed section yields the bytes that were compressed, of exactly the declared length.",
  ["inputs"], "all compressed sections", "depends on the decompressor", ["src/read/mod.rs"], [("CompressedData::decompress", "read/mod.rs")])
p("C33", "Hash table lookups find exactly the defined symbols",
  "ELF SysV and GNU hash lookups find a symbol exactly if a linear scan of the dynamic symbols would, on well-formed tables, including tables the writer emits.",
  ["inputs"], "all hash tables", "numeric hash chains", ["src/read/elf/hash.rs", "src/write/elf/writer.rs"], [("find/hash", "read/elf/hash.rs")])
p("C34", "Emitted checksums and code hashes are correct",
  "Checksums (PE checksum, debug link CRC) and code directory hashes are those the format prescribes for the emitted bytes.",
  ["inputs"], "all emitted files", "numeric result", ["src/write/pe.rs", "src/read/macho/codesign.rs"], [("checksum and code signature", "write/pe.rs, read/macho/codesign.rs")])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
