#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: rustc's type checker and MIR lowering, the fact extractor in /verif/driver."
CLAIMS = {
 "C01": ("abstract interpretation of MIR (intervals, symbolic relations, inferred field invariants)", "proof",
         "Every panic site in reader code (assert terminators, unwrap/expect, indexing, explicit panics, panicking std calls) is enumerated from MIR and must be proved unreachable; sites outside the domain are listed with an argument in tables/c01_residual.json." + TRUST),
 "C02": ("allocation-size and growth analysis by abstract interpretation of MIR", "proof",
         "Every sized allocation and every loop that makes a container grow is enumerated from the reader's MIR; the size, or the number of turns, must be bounded by a constant or by data that exists." + TRUST),
 "C03": ("MIR loop and iterator termination by ranking measures over abstract interpretation", "proof",
         "Every loop and every iterator `next` in the reader's MIR is enumerated and must have a lexicographic measure that decreases on every turn (or on every call that returns an item or an error); ElfSectionRelocationIterator is argued by hand in tables/c03_residual.json." + TRUST),
 "C04": ("call-graph SCC analysis on MIR with bounded re-entry by abstract interpretation", "proof",
         "Every cycle of the reader's call graph (dynamic dispatch and closures resolved to all implementations) is found and must be one whose depth argument strictly decreases from a constant." + TRUST),
 "C05": ("MIR dataflow on unsafe blocks, Pod field-closure check", "proof",
         "Every user-written unsafe block and every Pod implementation is enumerated from the compiler's MIR and matched with a discharged obligation; an unknown unsafe operation is reported." + TRUST),
 "C06": ("layout computation from type-checked structure definitions against format tables", "proof",
         "Every repr(C) on-disk structure's size, field offsets, widths and encodings are computed and compared with a table taken from elf.h, LLVM's headers and the specifications." + TRUST),
 "C07": ("constant evaluation compared with specification tables", "proof",
         "Every named constant in the table (checked against elf.h and LLVM headers where these define it) must have its value, and each printed-name entry must denote the value of the constant it names." + TRUST),
 "C09": ("symbolic summaries of MIR compared per wrapped format", "proof",
         "Every method of the unified types is summarised for each wrapped format; each result must be that of the operation of the same name on the wrapped value with the caller's arguments." + TRUST),
 "C10": ("bit-provenance analysis of MIR (each result bit is a constant or a bit of a stored field)", "proof",
         "Every accessor of an on-disk structure and the byte-order layer below it is reduced to a canonical bit-level form that must be its own field, or the reviewed form in tables/accessors.json." + TRUST),
 "C11": ("symbolic summaries and case-split constant propagation on MIR", "other",
         "Reader functions are summarised over stored fields and raw accessors and compared with reviewed tables (attributes, decision cases, field sets). Results that cannot be reduced are not decided and are listed in the evidence." + TRUST),
 "C12": ("path enumeration of the writers' relocation translation composed with symbolic evaluation of the readers' decoding", "other",
         "All 790 (format, architecture, kind, encoding, size) combinations the writers translate are compared with what the readers report for the raw type stored, as are 808 addend adjustments and the widths of addends stored in place; equivalents are reviewed in tables/relocations.json. 40 addend adjustments are not decided." + TRUST),
 "C13": ("abstract interpretation of the object writers and of the reader's classification, per input combination", "proof",
         "For all 888 combinations of format, architecture, sub-architecture and byte order the header values stored are derived from MIR and fed symbolically to the reader's functions; all are decided on the reference tree." + TRUST),
 "C14": ("path enumeration of the writers' flag encodings composed with symbolic evaluation of the readers' classification", "other",
         "Every path of section_flags, symbol_flags and section_info of each format is enumerated for every kind, scope, weakness and placement; what the reader reports for exactly the flags stored must be the classification written or the coarser one reviewed in tables/kinds.json. Two XCOFF findings are recorded." + TRUST),
 "C15": ("symbolic evaluation of reservations and emissions on MIR, compared with reviewed sizes, alignments and conditions", "other",
         "For every function of src/write, the size, alignment and count it reserves or returns, and under which boundary values and width each part is emitted at all, are reduced to expressions over the caller's values and must be the reviewed ones (about 3000 comparisons); run-time counts of variable tables are covered through the formulas only." + TRUST),
 "C16": ("symbolic evaluation of the writers on MIR: provenance of every emitted field, compared with a reviewed table", "other",
         "For every function of src/write, each field of each structure emitted, passed on, stored or returned is reduced to an expression over the caller's values (3187 values, also with the function's own conditions fixed) and must be the reviewed one; what does not reduce is decided by the stored fields it is made of, or listed as undecided." + TRUST),
 "C17": ("effect analysis over the call graph", "proof",
         "No function reachable in the crate calls an ambient-state source, iterates a randomly ordered container, has a mutable static, or observes an address." + TRUST),
 "C19": ("MIR dataflow following every Result value from the call that makes it to where its error is returned or lost; typestate of errors kept in fields", "proof",
         "the reviewed defaults are listed in tables/swallowed.json" + TRUST),
 "C20": ("symbolic evaluation of the header parsers' MIR: what every way to success knows of magic, class, byte order and version must be one of the formats' combinations; detection evaluated per magic and per changed byte; detected kind traced to its parser", "other",
         "the accepted magics are a table in the check; WebAssembly validation is wasmparser's" + TRUST),
 "C21": ("type-level witnesses with compile-fail twins, signature borrow table", "proof",
         "The compiler decides the witnesses; signature borrows and field types are read from the type-checked program." + TRUST),
 "C22": ("type checking of every supported feature configuration", "proof",
         "rustc type-checks the library in the documented configurations and all single formats per core; thorough adds format pairs."),
 "C23": ("symbolic evaluation of the builders on MIR: provenance of every field read, stored and emitted, compared with a reviewed table", "other",
         "For every function of src/build (ELF and Mach-O), each field of each structure built, changed, passed on or emitted is reduced to an expression over the values it comes from and must be the reviewed one; indices computed in loops are decided by the stored fields they are made of, or listed as undecided." + TRUST),
}
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CLAIMS[p][0], "level": CLAIMS[p][1], "level_note": CLAIMS[p][2]}
                for p in props if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "The static rule for this property is not finished yet, so it is not claimed.")} for p in props if p not in CLAIMS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
