NA.update({
 "C30": "Equality of a written and re-read object quantifies over the contents of byte buffers produced by loops over caller data (offset assignment, string table merging); no static argument in reach relates the emitted bytes to the values parsed back. Its per-field and per-kind components are claimed as C12, C13, C14, C15, C16.",
 "C31": "Correctness of the lookup depends on the ordering of run-time symbol addresses after a sort and on binary search over them: a functional-correctness statement over values that dataflow or type analyses do not bound.",
 "C32": "The decompressed bytes are a function of run-time data computed by external decompressors; static analysis cannot decide that they equal the original. The declared-length and allocation parts are decided under C02.",
 "C33": "Whether hash chains contain exactly the defined symbols is a relation between run-time table contents; no static rule in reach decides it.",
 "C34": "Checksum and hash values are functions of all emitted bytes; deciding them means computing them.",
})
