"""C20: parsers accept only files with the right magic, class and version, and detection maps each magic to its parser."""
import ast
import re
import bits, facts, prov, summ
from report import Report

LITTLE = {"is_little_endian": (1, 1)}
BIG = {"is_big_endian": (1, 1)}
ELF = [{"magic": b"\x7fELF", "class": (k, k), "data": (1, 2), "version": (1, 1), "is_type_64": (k - 1, k - 1)} for k in (1, 2)]
IMPORT = [{"sig1": (0, 0), "sig2": (0xffff, 0xffff), "version": (0, 0)}]
BIGOBJ = [{"sig1": (0, 0), "sig2": (0xffff, 0xffff), "version": (2, 0xffff), "class_id": bytes.fromhex("c7a1bad1eebaa94baf20faf66aa4dcb8")}]
DOS = [{"e_magic": (0x5a4d, 0x5a4d)}]
PE = {"signature": (0x4550, 0x4550), "is_valid_optional_magic": (1, 1)}
XCOFF = [{"f_magic": (0x1df, 0x1df), "is_type_64": (0, 0)}, {"f_magic": (0x1f7, 0x1f7), "is_type_64": (1, 1)}]
FAT = [{"magic": "const(read::macho::fat::FatArch::MAGIC, )"}]
ANY = lambda g: False
PARSE = ("parse", "is_supported", "endian", "kind", "parse_at", "code_signature")


def shallow(g):
    """only the validating functions are followed"""
    return prov.opaque(g) or not (tail(g) in PARSE or tail(g).startswith(("is_", "read")) or len(g["blocks"]) <= 4)


# function, what is known of the header on every way to success (one of the alternatives)
REQUIRE = [
    ("read::elf::file::FileHeader::parse", ELF),
    ("read::macho::file::MachHeader::parse", [LITTLE, BIG]),
    ("read::macho::fat::MachOFatFile::parse", FAT),
    ("read::xcoff::file::FileHeader::parse", XCOFF),
    ("read::xcoff::file::XcoffFile::parse", XCOFF),
    ("read::pe::file::ImageDosHeader::parse", DOS),
    ("read::pe::file::ImageNtHeaders::parse", [PE]),
    ("read::pe::file::PeFile::parse", [dict(PE, **DOS[0])]),
    ("read::pe::file::optional_header_magic", [{"e_magic": (0x5a4d, 0x5a4d), "signature": (0x4550, 0x4550)}]),
    ("read::coff::file::AnonObjectHeaderBigobj::parse", BIGOBJ),
    ("read::coff::import::ImportObjectHeader::parse", IMPORT),
    ("read::coff::import::ImportFile::parse", IMPORT),
    ("read::macho::codesign::CodeSignature::parse", [{"magic": (0xfade0cc0, 0xfade0cc0)}]),
    ("read::macho::codesign::CodeDirectory::parse", [{"magic": (0xfade0c02, 0xfade0c02)}]),
    ("read::macho::fixup::DyldChainedFixups::parse", [{"fixups_version": (0, 0)}]),
    ("read::elf::attributes::AttributesSection::subsections", [{"version": (65, 65)}]),
]

# function, field, value for which it is true
TRUTH = [
    ("read::elf::file::FileHeader::is_class_32", "class", 1),
    ("read::elf::file::FileHeader::is_class_64", "class", 2),
    ("read::elf::file::FileHeader::is_little_endian", "data", 1),
    ("read::elf::file::FileHeader::is_big_endian", "data", 2),
    ("read::macho::file::MachHeader32::is_little_endian", "magic", 0xcefaedfe),
    ("read::macho::file::MachHeader32::is_big_endian", "magic", 0xfeedface),
    ("read::macho::file::MachHeader64::is_little_endian", "magic", 0xcffaedfe),
    ("read::macho::file::MachHeader64::is_big_endian", "magic", 0xfeedfacf),
    ("read::pe::file::ImageNtHeaders32::is_valid_optional_magic", "magic", 0x10b),
    ("read::pe::file::ImageNtHeaders64::is_valid_optional_magic", "magic", 0x20b),
]

# function of a type that is the same for every value
CONST = [("read::%s::file::%s::%s" % (m, t % w, f), int(w == b)) for m, t, a, b, f in
         (("elf", "FileHeader%s", "32", "64", "is_type_64"), ("elf", "FileHeader%s", "32", "64", "is_type_64_sized"), ("macho", "MachHeader%s", "32", "64", "is_type_64"),
          ("pe", "ImageNtHeaders%s", "32", "64", "is_type_64"), ("xcoff", "FileHeader%s", "32", "64", "is_type_64"))
         for w in (a, b)]
FATMAGIC = {"macho::FatArch32": 0xcafebabe, "macho::FatArch64": 0xcafebabf}

# the first bytes of each kind of file (None: any)
N = None
KINDS = [("Archive", b"!<arch>\n"), ("Archive", b"!<thin>\n"), ("DyldCache", b"dyld_v1 "),
         ("Elf32", b"\x7fELF\x01"), ("Elf64", b"\x7fELF\x02"),
         ("MachO32", b"\xfe\xed\xfa\xce"), ("MachO32", b"\xce\xfa\xed\xfe"), ("MachO64", b"\xfe\xed\xfa\xcf"), ("MachO64", b"\xcf\xfa\xed\xfe"),
         ("MachOFat32", b"\xca\xfe\xba\xbe"), ("MachOFat64", b"\xca\xfe\xba\xbf"),
         ("Wasm", [0, 0x61, 0x73, 0x6d, N, N, 0, 0]),
         ("Pe32", b"MZ"), ("Pe64", b"MZ"),
         ("Coff", b"\xc4\x01"), ("Coff", b"\x64\xaa"), ("Coff", b"\x41\xa6"), ("Coff", b"\xf0\x01"), ("Coff", b"\xf1\x01"), ("Coff", b"\xf2\x01"),
         ("Coff", b"\x4c\x01"), ("Coff", b"\x64\x86"),
         ("CoffImport", b"\x00\x00\xff\xff\x00\x00"), ("CoffBig", b"\x00\x00\xff\xff\x02\x00"),
         ("Xcoff32", b"\x01\xdf"), ("Xcoff64", b"\x01\xf7")]
# what else is known where a kind is the result
BYKIND = {"Pe32": [{"e_magic": (0x5a4d, 0x5a4d), "signature": (0x4550, 0x4550), "magic": (0x10b, 0x10b)}],
          "Pe64": [{"e_magic": (0x5a4d, 0x5a4d), "signature": (0x4550, 0x4550), "magic": (0x20b, 0x20b)}],
          "CoffBig": [{"class_id": BIGOBJ[0]["class_id"]}]}
DYLD = [("i386", "I386", 0), ("x86_64", "X86_64", 0), ("x86_64h", "X86_64", 0), ("ppc", "PowerPc", 1), ("armv6", "Arm", 0), ("armv7", "Arm", 0), ("armv7f", "Arm", 0),
        ("armv7s", "Arm", 0), ("armv7k", "Arm", 0), ("arm64", "Aarch64", 0), ("arm64e", "Aarch64", 0)]
ARCHIVE = [(b"!<arch>\n", None), (b"!<thin>\n", None), (b"<bigaf>\n", "parse_aixbig"), (b"\x5a\x4c\x81\x99\x83\x88\x6e\x15", "parse_zos")]


def key(P, f):
    """module, type and method"""
    t = f.get("impl_self")
    if t is None:
        return facts.simple(f["def"])
    m = "::".join(f["file"][4:-3].split("/"))
    return "%s::%s::%s" % (m, facts.simple(P.types[t].get("def") or P.types[t]["s"]).split("::")[-1], f.get("name"))


class Known:
    """what a way through a function knows"""

    def __init__(self, P, ip, st, val):
        D, TM = ip.D, ip.TM
        E = summ.Expr(ip, st)
        E.typed = True
        self.val = bits.strip(E.value(val))
        self.r, self.eq = {}, set()

        def text(t):
            e = bits.strip(E.term(t))
            E.width = {bits.strip(k): w for k, w in E.width.items()}
            E.signed = {bits.strip(k): w for k, w in E.signed.items()}
            return prov.source(P, E).other(e)
        for parts in list(st.facts):
            if len(parts) == 1:
                t = parts[0][0]
                self.put(text(t), D.lo(st, t, 1), D.hi(st, t, 1))
            elif len(parts) == 2 and {parts[0][1], parts[1][1]} == {1, -1} and st.facts[parts] == 0:
                o = tuple((t, -c) for t, c in parts)
                if st.facts.get(o) == 0:
                    a, b = text(parts[0][0]), text(parts[1][0])
                    self.eq |= {(a, b), (b, a)}
        for t, b in st.bf.items():
            n = text(t)
            self.put(n, int(b), int(b))
            m = re.match(r"eq\((.*), A\(([\d, ]*)\)\)$", n)
            m = m and m.groups()
            if not m:
                m = re.match(r"eq\(A\(([\d, ]*)\), (.*)\)$", n)
                m = m and m.groups()[::-1]
            if m and b:
                for i, v in enumerate(m[1].split(", ")):
                    self.put("%s[%d]" % (m[0], i), int(v), int(v))
        self.vk = {}
        for t, v in st.vk.items():
            if isinstance(v, int) and t in TM.etype:
                self.vk[text(t)] = prov.variant_name(P, TM.etype[t], v)

    def put(self, n, lo, hi):
        a, b = self.r.get(n, (lo, hi))
        self.r[n] = (max(a, lo), min(b, hi))

    def has(self, field, want):
        if isinstance(want, bytes):
            return all(self.has("%s[%d]" % (field, i), (v, v)) for i, v in enumerate(want))
        p = pattern(field)
        if isinstance(want, str):
            return any(p.search(a) and b == want for a, b in self.eq)
        return any(p.search(n) and want[0] <= lo and hi <= want[1] for n, (lo, hi) in self.r.items())

    def meets(self, alts):
        """names of what is not known, for the alternative closest to holding"""
        return min(([k for k, w in a.items() if not self.has(k, w)] for a in alts), key=len)


def pattern(field):
    m = re.fullmatch(r"(\w+)(\[\d+\])?", field)
    return re.compile(r"(?:^|[.:*])%s(?:\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\))?(?:, \w+\))?(?:\.0)*%s$" % (m.group(1), re.escape(m.group(2) or "")))


def outs(P, d, op, force=None, used=None, secs=40):
    S = summ.run(P, d, opaque=op, secs=secs, traces=64, prep=prov.forcing(P, force, used) if force else None)
    if S.err:
        return S.err, []
    rt = P.types[P.fns[d]["locals"][0]]
    res = (rt.get("def") or "").endswith("result::Result")
    l = []
    for st, v in S.outs:
        for s2, b in ([(st, None)] if rt["s"] != "bool" else prov.truths(S.ip, st, v)):
            K = Known(P, S.ip, s2, v if b is None else ("B", b))
            K.truth = b
            if res and K.val[0] == "var" and K.val[1] == 1:
                continue
            if res and K.val[0] == "call" and not len(K.val) > 2:
                pass
            E = summ.Expr(S.ip, s2)
            E.typed = True
            K.text = prov.flat(prov.canon(K.val, E, P, rt["s"]))
            l.append(K)
    return None, l


class Forced:
    """assume values (or intervals) of the texts that match"""

    elems = True

    def __init__(self, pats, order=None):
        self.pats, self.order = pats, order

    def __call__(self, t):
        m = re.fullmatch(r"num::from_(le|be)_bytes\((.*)\)", t) if self.order else None
        for p, v in self.pats:
            if m and p.search(m.group(2)):
                # the value is given in one byte order
                if m.group(1) == self.order[0]:
                    return v
                if v[0] == v[1]:
                    return int.from_bytes(v[0].to_bytes(self.order[1], "little"), "big")
                return None
            if p.search(t):
                return v
        return None


class Bytes:
    """assume the intervals of the bytes of the value whose text matches, also in numbers and comparisons made of them"""
    elems = True

    def __init__(self, root, env):
        self.root, self.env = re.compile(r"(?:%s)\[(\d+)\]" % root), env
        self.slice = re.compile(r"(?:%s)" % root)

    def byte(self, x):
        m = self.root.fullmatch(x)
        return (self.env.get(int(m.group(1)), (0, 255)) if m else (int(x), int(x)) if x.isdigit() else None)

    def __call__(self, t):
        m = self.root.fullmatch(t)
        if m:
            return self.env.get(int(m.group(1)))
        m = re.fullmatch(r"num::from_(le|be)_bytes\(A\((.*)\)\)", t)
        if m:
            v = [self.byte(x) for x in m.group(2).split(", ")]
            if None in v:
                return None
            return tuple(int.from_bytes(bytes(x[k] for x in v), {"le": "little", "be": "big"}[m.group(1)]) for k in (0, 1))
        m = re.fullmatch(r"res\([^,]*::(?:starts_with), \w+, (.*), (b['\"].*|A\([\d, ]*\))\)", t)
        if m and self.slice.fullmatch(m.group(1)):
            return self.match(m.group(2))
        m = re.fullmatch(r"eqs?\((.*), (A\([\d, ]*\))\)", t)
        if m and self.slice.fullmatch(m.group(1)):
            return self.match(m.group(2))
        m = re.fullmatch(r"eqs?\((A\([\d, ]*\)), (.*)\)", t)
        if m and self.slice.fullmatch(m.group(2)):
            return self.match(m.group(1))
        return None

    def match(self, s):
        s = list(ast.literal_eval(s)) if s[0] == "b" else [int(x) for x in s[2:-1].split(", ")]
        iv = [self.env.get(i, (0, 255)) for i in range(len(s))]
        if any(not a <= b <= c for (a, c), b in zip(iv, s)):
            return False
        return True if all(a == c for a, c in iv) else None

    def opaque(self, K):
        """does this way depend on something else about the bytes"""
        for n in list(K.r) + [x for p in K.eq for x in p]:
            m = self.slice.search(n)
            if m and not self.root.fullmatch(n) and not n.startswith("avail("):
                v = self(n)
                if v is None or (isinstance(v, tuple) and v[0] != v[1]):
                    return True
        return False


def rest(vals, top):
    """the intervals of the values that are not listed"""
    out, a = [], 0
    for v in sorted(vals):
        if a < v:
            out.append((a, v - 1))
        a = v + 1
    if a <= top:
        out.append((a, top))
    return out


def run(pid):
    R = Report(pid)
    P = facts.load()
    fns = {}
    for d, f in sorted(P.fns.items()):
        if f["file"].startswith("src/read") and f["kind"] != "Closure":
            fns.setdefault(key(P, f), d)
    und, n = [], 0

    def at(d):
        return "%s:%d" % (P.fns[d]["file"], P.fns[d]["line"])

    for k, alts in REQUIRE:
        d = fns.get(k)
        if d is None:
            und.append("%s: not found" % k)
            continue
        err, l = outs(P, d, shallow)
        if err or not l:
            und.append("%s: %s" % (k, err or "no success"))
            continue
        for K in l:
            n += 1
            miss = K.meets(alts)
            R.oblige(not miss, "%s requires %s" % (k, "/".join(sorted(alts[0]))),
                     "%s: %s can succeed without %s being one of the accepted values" % (at(d), k, ", ".join(miss)),
                     sample="%s: %s" % (k, alts[0]))
    for k, field, v in TRUTH:
        d = fns.get(k)
        if d is None:
            und.append("%s: not found" % k)
            continue
        p = pattern(field)
        top = (1 << {"class": 8, "data": 8, "magic": 32}[field]) - 1 if "pe::" not in k else 0xffff
        for x, want in [((v, v), True)] + [(i, False) for i in rest([v], top)]:
            used = set()
            err, l = outs(P, d, ANY, Forced([(p, x)], ("le", 2) if "pe::" in k else ("be", 4) if "macho::" in k else None), used)
            if err or not l or not any(p.search(u.rstrip(")")) for u in used):
                und.append("%s: %s" % (k, err or "%s is not looked at" % field))
                continue
            n += 1
            bad = [K for K in l if K.truth is not want]
            R.oblige(not bad, "%s %s" % (k, x), "%s: %s is %s when %s is in %s" % (at(d), k, not want, field, x), sample="%s: %s in %s gives %s" % (k, field, x, want))
    for k, want in CONST:
        d = fns.get(k)
        if d is None:
            und.append("%s: not found" % k)
            continue
        err, l = outs(P, d, ANY)
        if err or not l:
            und.append("%s: %s" % (k, err))
            continue
        n += 1
        R.oblige(all(K.text == str(want) for K in l), k, "%s: %s is not %d" % (at(d), k, want), sample="%s = %d" % (k, want))
    n += kinds(R, P, fns, und)
    n += dyld(R, P, fns, und)
    n += dispatch(R, P, fns, und)
    R.floor("obligations", n, 200)
    R.assumptions = ["the magic numbers, classes and versions listed in lib/checks/c20.py are those of the file formats",
                     "which bytes WebAssembly modules must start with beyond detection is checked by the wasmparser crate, outside this crate"]
    R.finish("every way to success of each format's header parser is followed from MIR and what it knows of the magic, class, byte order and version must be one of the accepted combinations; detection is evaluated for each magic and for each magic with one byte in every other interval; each detected kind must lead to its own parser", functions=len(REQUIRE) + len(TRUTH) + len(CONST) + 3, values=n, undecided=len(und), undecided_list=und)


FIRST = re.compile(r"^\*?self\[p1(?:; \d+)?\]\[(\d+)\]$")


def near(pats, top=255):
    """(assumptions, byte looked at or None) for each pattern: itself, and each of its bytes changed to anything that makes no other pattern"""
    for kind, p in pats:
        p = list(p)
        yield kind, p, None, None
        for i, b in enumerate(p):
            if b is None:
                continue
            same = [q[i] for _, q in pats if len(q) > i and all(y is None or j == i or (j < len(p) and (p[j] is None or p[j] == y)) or j >= len(p) for j, y in enumerate(q))]
            for iv in rest({v for v in same if v is not None} | {b}, top):
                yield kind, p, i, iv


def kinds(R, P, fns, und):
    d = fns.get("read::FileKind::parse_at") or fns.get("read::mod::FileKind::parse_at")
    if d is None:
        und.append("FileKind::parse_at: not found")
        return 0
    n = 0
    where = "%s:%d" % (P.fns[d]["file"], P.fns[d]["line"])
    for kind, p, i, iv in near(KINDS):
        env = {j: (b, b) for j, b in enumerate(p) if b is not None}
        if i is not None:
            env[i] = iv
        F = Bytes(r"\*?self\[p1(?:; \d+)?\]", env)
        err, l = outs(P, d, prov.opaque, F, set())
        if err:
            und.append("FileKind::parse_at %s: %s" % (kind, err))
            continue
        got = {m for K in l for m in re.findall(r"FileKind::(\w+)", K.text)}
        sure = {m for K in l if not F.opaque(K) for m in re.findall(r"FileKind::(\w+)", K.text)}
        if got != sure:
            und.append("FileKind::parse_at %s: a comparison is not followed" % bytes(b or 0 for b in p))
            if i is not None or kind in got:
                got = sure | ({kind} if i is None else set())
        n += 1
        hexa = " ".join("??" if b is None else "%02x" % b for b in p)
        if i is None:
            want = {k for k, q in KINDS if list(q) == p}
            R.oblige(kind in got and got <= want, "FileKind %s %s" % (kind, hexa), "%s: the bytes %s give %s, not %s" % (where, hexa, sorted(got), kind), sample="bytes %s: %s" % (hexa, kind))
            for K in l:
                for k in re.findall(r"FileKind::(\w+)", K.text):
                    if k in BYKIND:
                        miss = K.meets(BYKIND[k])
                        # the rest of the header is that of the file whose magic was looked at
                        if not K.has("p1", (0, 0)) and not all("self[p1" in n for n in K.r if any(pattern(x + "[0]" if x == "class_id" else x).search(n) for x in BYKIND[k][0])):
                            miss = miss + ["the offset"]
                        R.oblige(not miss, "FileKind %s requires" % k, "%s: %s is the result without %s being as required" % (where, k, ", ".join(miss)), sample="%s requires %s" % (k, sorted(BYKIND[k][0])))
        else:
            R.oblige(kind not in got, "FileKind %s %s byte %d" % (kind, hexa, i), "%s: the bytes %s with byte %d in %#x..=%#x are taken for %s" % (where, hexa, i, iv[0], iv[1], kind))
    return n


def dyld(R, P, fns, und):
    d = next((x for k, x in fns.items() if k.endswith("::DyldCacheHeader::parse_magic")), None)
    if d is None:
        und.append("DyldCacheHeader::parse_magic: not found")
        return 0
    n = 0
    where = "%s:%d" % (P.fns[d]["file"], P.fns[d]["line"])
    pats = [((a, b), b"dyld_v1 " + m.encode().rjust(7) + b"\0") for m, a, b in DYLD]
    for (arch, big), p, i, iv in near(pats):
        env = {j: (b, b) for j, b in enumerate(p)}
        if i is not None:
            env[i] = iv
        F = Bytes(r"(?:.*\.)?magic", env)
        err, l = outs(P, d, prov.opaque, F, set())
        if err:
            und.append("parse_magic %s: %s" % (bytes(p), err))
            continue
        if any(F.opaque(K) for K in l):
            und.append("parse_magic %s: a comparison is not followed" % bytes(p))
            continue
        got = {(m, int(b)) for K in l for m, b in re.findall(r"Architecture::(\w+), Endian::from_big_endian\((\d)\)", K.text)}
        n += 1
        if i is None:
            R.oblige(got == {(arch, big)} and len(l) > 0, "dyld cache %s" % bytes(p), "%s: the magic %s gives %s" % (where, bytes(p), sorted(got)), sample="dyld cache magic %s: %s" % (bytes(p), arch))
        else:
            R.oblige(not l, "dyld cache %s byte %d" % (bytes(p), i), "%s: the magic %s with byte %d in %#x..=%#x is accepted" % (where, bytes(p), i, iv[0], iv[1]))
    return n


# function, what it must have called with success before it succeeds itself
VIA = [
    ("read::elf::file::ElfFile::parse", ["FileHeader::parse", "Endian::from_big_endian"]),
    ("read::macho::file::MachOFile::parse", ["MachHeader::parse", "Endian::from_big_endian"]),
    ("read::pe::file::PeFile::parse", ["file::parse", "ImageNtHeaders::parse"]),
    ("read::coff::file::CoffFile::parse", ["CoffHeader::parse"]),
    ("read::xcoff::file::XcoffFile::parse", ["FileHeader::parse"]),
    ("read::macho::dyld_cache::DyldCache::parse", ["dyld_cache::parse", "dyld_cache::parse_magic"]),
]


def tail(g):
    return facts.simple(g["def"]).split("::")[-1]


def calls(g):
    return tail(g).startswith("parse") or len(g["blocks"]) > 12 or prov.opaque(g)


def dispatch(R, P, fns, und):
    n = 0

    def get(k):
        d = fns.get(k)
        err, l = outs(P, d, calls) if d else ("not found", [])
        if err or not l:
            und.append("%s: %s" % (k, err or "no success"))
        return ("%s:%d" % (P.fns[d]["file"], P.fns[d]["line"]) if d else None), l
    for k, need in VIA:
        where, l = get(k)
        for K in l:
            n += 1
            miss = [c for c in need if not any(t.startswith(c + "(") and (v or "").endswith(("::Ok", "::Some")) for t, v in K.vk.items())]
            R.oblige(not miss, "%s by way of %s" % (k, ", ".join(need)), "%s: %s can succeed without success of %s" % (where, k, ", ".join(miss)), sample="%s succeeds only after %s" % (k, ", ".join(need)))
    # the kind that was detected chooses the parser of that kind
    where, l = get("read::any::File::parse")
    seen = set()
    for K in l:
        kinds = {v.split("::")[-1] for t, v in K.vk.items() if v and "FileKind::" in v}
        got = re.findall(r"\bFile::(\w+)\(", K.text)[:1]
        if len(kinds) != 1 or not got:
            und.append("File::parse: not reduced")
            continue
        n += 1
        seen |= kinds
        R.oblige(kinds == set(got), "File::parse %s" % min(kinds), "%s: a file detected as %s is parsed as %s" % (where, min(kinds), got[0]), sample="FileKind::%s is parsed as File::%s" % (min(kinds), got[0]))
    # archives: the first eight bytes
    where, l = get("read::archive::ArchiveFile::parse")
    if l:
        # the comparisons of the magic are told apart by the bytes they compare with
        for magic, inner in ARCHIVE:
            def force(t, magic=magic):
                m = re.match(r"eq\(.*, A\(([\d, ]*)\)\)$", t) or re.match(r"eq\(A\(([\d, ]*)\), .*\)$", t)
                return None if not m else m.group(1) == ", ".join(map(str, magic))
            force.eqs = True
            used = set()
            err, l = outs(P, fns["read::archive::ArchiveFile::parse"], calls, force, used)
            if err or not used:
                und.append("ArchiveFile::parse %s: %s" % (magic, err or "the comparison is not found"))
                continue
            n += 1
            via = [("ArchiveFile::%s" % inner) in K.text for K in l]
            own = ["ArchiveFile::parse_" in K.text for K in l]
            R.oblige(l and (all(via) if inner else not any(own)), "archive %s" % magic, "%s: an archive that starts with %s is not read by %s" % (where, magic, inner or "the common parser"), sample="archive %s: %s" % (magic, inner or "common"))
        def none(t):
            return False if t.startswith("eq(") and "A(" in t else None
        none.eqs = True
        err, l = outs(P, fns["read::archive::ArchiveFile::parse"], calls, none, set())
        if err is None:
            n += 1
            R.oblige(not l, "archive with another magic", "%s: an archive with none of the known magics is accepted" % where, sample="archives with another magic are rejected")
    for d, v in P.consts.items():
        for t, want in FATMAGIC.items():
            if d.startswith("<" + t + " as ") and d.endswith("::MAGIC") and "v" in v:
                n += 1
                R.oblige(v["v"] == want, d, "%s:%d: %s is %#x, not %#x" % (v["file"], v["line"], d, v["v"], want), sample="%s = %#x" % (d, want))
    # what each byte order type accepts
    for d, f in P.fns.items():
        if f.get("name") != "from_big_endian" or not d.startswith("<endian::"):
            continue
        ty = d[len("<endian::"):].split(" ")[0]
        for big in (0, 1):
            err, l = outs(P, d, ANY, Forced([(re.compile(r"^(?:p1|self|big_endian)$"), bool(big))]), set())
            if err or not l:
                und.append("%s: %s" % (d, err))
                continue
            n += 1
            some = {"LittleEndian": not big, "BigEndian": bool(big), "Endianness": True}.get(ty)
            bad = [K for K in l if K.text.startswith("v1") is not some or (ty == "Endianness" and (("::Big" in K.text) is not bool(big)))]
            R.oblige(not bad, "%s %d" % (d, big), "%s:%d: %s(%s) gives %s" % (f["file"], f["line"], d, bool(big), bad and bad[0].text), sample="%s(%s)" % (d, bool(big)))
    return n
