"""C13: the machine identification the writer emits is the one the reader reports as the same architecture."""
import re, time
import multiprocessing as mp
import facts, prov, wagg
from report import Report

ENC = {"elf": "write::elf::encoder::Encoder", "macho": "write::macho::encoder::Encoder"}
HEAD = {"elf": {"write::elf::encoder::FileHeader"}, "coff": {"write::coff::writer::FileHeader"}, "macho": {"write::macho::encoder::MachHeader"},
        "xcoff": {"xcoff::FileHeader32", "xcoff::FileHeader64"}}
READ = {"elf": "read::elf::file::ElfFile", "coff": "read::coff::file::CoffFile", "macho": "read::macho::file::MachOFile", "xcoff": "read::xcoff::file::XcoffFile"}
# the format has one machine type for both
COARSER = {("coff", "PowerPc64", None): ("PowerPc", None)}
ARG = r"\([^()]*\)(\.0)?$"


def writer(P, fmt):
    return [d for d, f in P.fns.items() if f.get("name") == fmt + "_write" and f["file"].startswith("src/write") and f["kind"] != "Closure"]


def reader(P, fmt, name):
    for d, f in P.fns.items():
        if f.get("name") == name and f.get("impl_trait") and f["kind"] != "Closure" and facts.simple(str(f["impl_trait"])).startswith("read::traits::Object") and f.get("impl_self") is not None:
            if P.types[f["impl_self"]].get("def") == READ[fmt]:
                return d
    return None


def opaque(g):
    """constructors and predicates of the writer are looked into"""
    if (g.get("name") or "").startswith("new") or _P.types[g["locals"][0]]["s"] == "bool":
        return g["def"].startswith("endian::Endian::")
    return wagg.opaque(g)


_P = None


def one(x):
    P = _P
    fmt, d, a, s, e = x
    fo = {"architecture": "common::Architecture::" + a, "endian": "endian::Endianness::" + e, "macho_cpu_subtype": "core::option::Option::None", "flags": "common::FileFlags::None"}
    if s is None:
        fo["sub_architecture"] = "core::option::Option::None"
    else:
        fo["sub_architecture"] = "core::option::Option::Some"
        fo["sub_architecture.v1.0"] = "common::SubArchitecture::" + s
    wants = set(HEAD[fmt]) | ({ENC[fmt]} if fmt in ENC else set())
    used = set()
    try:
        got, err, S = wagg.emitted(P, d, wants, fo, stop=HEAD[fmt], used=used, pred=opaque, secs=60)
        oks = sum(1 for st, v in S.outs if not (v[0] == "E" and v[2] == 1))
    except Exception as ex:
        return x, [], repr(ex)[:200], 0, []
    return x, got, err, oks, sorted(used)


def num(t):
    m = re.search(r"(?:^|, |: )(\d+)\)?\}?$", t)
    return int(m.group(1)) if m else None


def inner(t):
    """E_x{0: 5} and write_u16(.., 5) are 5"""
    if re.fullmatch(r"\d+", t):
        return int(t)
    m = re.fullmatch(r"\w+\{0: (.*)\}", t)
    if m:
        return inner(m.group(1))
    m = re.fullmatch(r"Endian::write_u\d+\(.*, (\d+)\)", t)
    return int(m.group(1)) if m else None


def answer(P, fmt, name, raw):
    d = reader(P, fmt, name)
    if d is None:
        return None, "no such function"

    def force(t):
        for pat, v in raw:
            if re.search(r"(^|:)%s" % pat, t):
                return v
    return wagg.answers(P, d, force)


def two(x):
    fmt, raw = x
    r = {}
    for n in ("architecture", "sub_architecture", "is_64", "is_little_endian"):
        try:
            r[n] = answer(_P, fmt, n, raw) if reader(_P, fmt, n) else ([], None)
        except Exception as ex:
            r[n] = ([], repr(ex)[:200])
    return x, r


def header(P, R, unk):
    """what class and byte order the encoder stores for is_64 / endian, against what the reader makes of them"""
    n = 0
    cls = {}
    for fmt, fn, pre in (("elf", "file_header", ("elf::FileHeader", "elf::Ident")), ("macho", "mach_header", ("macho::MachHeader",))):
        ds = [d for d, f in P.fns.items() if f.get("name") == fn and f["file"].startswith("src/write/%s/" % fmt) and f.get("impl_self") is not None and P.types[f["impl_self"]].get("def") == ENC[fmt]]
        if not ds:
            R.floor("header encoder of " + fmt, 0, 1)
            continue
        want = {a for a in P.adts if a.startswith(pre)}
        for is64 in (False, True):
            for big in (False, True):
                def force(t):
                    if t == "is_64":
                        return is64
                    if t.endswith("is_big_endian(endian)"):
                        return big
                    if t.endswith("is_little_endian(endian)"):
                        return not big
                got, err, S = wagg.emitted(P, ds[0], want, force, pred=lambda g: g["def"].startswith("endian::Endian::"))
                name = "%s header, %s, %s" % (fmt, "64-bit" if is64 else "32-bit", "big endian" if big else "little endian")
                if err or not got:
                    unk.append(name)
                    continue
                where = "%s:%d %s" % (P.fns[ds[0]]["file"], P.fns[ds[0]]["line"], ds[0])
                structs = {a for a, r in got if a not in ("elf::Ident",)}
                n += 1
                wrong = [a for a in structs if a.endswith("32" if is64 else "64")]
                R.oblige(not wrong, name, "%s writes %s for %s" % (where, wrong, name), sample="%s: %s" % (name, sorted(structs)))
                if fmt == "elf":
                    ids = {(r["class"], r["data"]) for a, r in got if a == "elf::Ident"}
                    for c, dt in ids:
                        if not (c.isdigit() and dt.isdigit()):
                            unk.append(name + " ident")
                            continue
                        raw = ((r"e_ident\([^()]*\)\.class(\.0)?$", int(c)), (r"e_ident\([^()]*\)\.data(\.0)?$", int(dt)))
                        for q, w in (("is_64", is64), ("is_little_endian", not big)):
                            rs, er = answer(P, "elf", q, raw)
                            n += decide(R, unk, "%s: %s" % (name, q), rs, er, {"1" if w else "0"}, "%s stores class %s and data %s" % (where, c, dt))
                        cls[is64] = int(c)
                else:
                    for a, r in got:
                        if a not in structs:
                            continue
                        v = inner(r.get("magic", ""))
                        if v is None:
                            unk.append(name + " magic")
                            continue
                        for q, w in (("is_little_endian", not big), ("is_big_endian", big)):
                            qs = [d for d, f in P.fns.items() if f.get("name") == q and f.get("impl_self") is not None and P.types[f["impl_self"]].get("def") == a and f["file"].startswith("src/read")]
                            if not qs:
                                unk.append(name + " " + q)
                                continue
                            rs, er = wagg.answers(P, qs[0], lambda t: v if t in ("magic", "BE magic", "magic.0") else None)
                            n += decide(R, unk, "%s: %s" % (name, q), rs, er, {"1" if w else "0"}, "%s stores magic %#x" % (where, v))
    R.floor("header class and byte order obligations", n, 18)
    return cls


def decide(R, unk, key, rs, err, want, what):
    """one obligation: the reader's only possible answer is the wanted one"""
    if err or not rs or prov.unclean(rs):
        unk.append(key)
        return 0
    if set(rs) & want and len(rs) > 1:
        unk.append(key)
        return 0
    if not all(re.fullmatch(r"[\w:()]+", r) for r in rs):
        unk.append(key)
        return 0
    R.oblige(bool(set(rs) & want), key, "%s; reading that back gives %s, expected %s (%s)" % (what, sorted(rs), sorted(want), key), sample="%s: %s" % (key, sorted(rs)))
    return 1


def run(pid):
    global _P
    R = Report(pid)
    P = _P = facts.load()
    unk = []
    cls = header(P, R, unk)
    A = [v["n"] for v in P.adts["common::Architecture"]["variants"]]
    SA = [None] + [v["n"] for v in P.adts["common::SubArchitecture"]["variants"]]
    items = []
    for fmt in HEAD:
        w = writer(P, fmt)
        R.floor("writer of " + fmt, len(w), 1)
        items += [(fmt, w[0], a, s, e) for a in A for s in SA for e in ("Little", "Big") if w]
    ctx = mp.get_context("fork")
    with ctx.Pool(8) as p:
        rows = p.map(one, items, 2)
    jobs = {}
    for x, got, err, oks, used in rows:
        fmt, d, a, s, e = x
        key = "%s %s%s %s" % (fmt, a, "/" + s if s else "", e)
        hs = [(n, r) for n, r in got if n in HEAD[fmt]]
        if not hs:
            if err:
                unk.append(key + " (%s)" % err[:40])
            continue
        es = [r for n, r in got if fmt in ENC and n == ENC[fmt]]
        n, h = hs[0]
        if fmt == "elf":
            v, fl = inner(h["e_machine"]), inner(h["e_flags"])
            c = {r["is_64"] for r in es}
            en = {r["endian"] for r in es}
            if v is None or len(c) != 1 or not c <= {"0", "1"} or fl is None:
                unk.append(key + " header %s %s %s" % (h["e_machine"], sorted(c), h["e_flags"]))
                continue
            is64 = c == {"1"}
            raw = (("e_machine" + ARG, v), ("e_flags" + ARG, fl), (r"e_ident\([^()]*\)\.class(\.0)?$", cls.get(is64)))
        elif fmt == "coff":
            v = inner(h["machine"])
            if v is None:
                unk.append(key)
                continue
            is64, en = None, None
            raw = (("machine" + ARG, v),)
        elif fmt == "macho":
            v, st = inner(h["cputype"]), inner(h["cpusubtype"])
            c = {r["is_64"] for r in es}
            en = {r["endian"] for r in es}
            if v is None or st is None or len(c) != 1 or not c <= {"0", "1"}:
                unk.append(key + " header %s %s %s" % (h["cputype"], h["cpusubtype"], sorted(c)))
                continue
            is64 = c == {"1"}
            raw = (("cputype" + ARG, v), ("cpusubtype" + ARG, st), (r"is_type_64\([^()]*\)$", is64))
        else:
            is64, en = n.endswith("64"), None
            raw = (("is_type_64" + ARG, is64),)
        jobs[x] = (key, raw, is64, en)
    uniq = sorted({(x[0], j[1]) for x, j in jobs.items()}, key=str)
    with ctx.Pool(8) as p:
        ans = dict(p.map(two, uniq, 1))
    n = 0
    for x, (key, raw, is64, en) in sorted(jobs.items(), key=str):
        fmt, d, a, s, e = x
        r = ans[(fmt, raw)]
        wa, ws = COARSER.get((fmt, a, s), (a, s))
        what = "%s:%d %s emits %s" % (P.fns[d]["file"], P.fns[d]["line"], d, ", ".join("%s=%s" % (re.match(r"\w+", q).group(), v) for q, v in raw))
        n += decide(R, unk, key, *r["architecture"], {"Architecture::" + wa}, what)
        if fmt != "xcoff":
            rs, er = r["sub_architecture"]
            if reader(P, fmt, "sub_architecture"):
                n += decide(R, unk, key + " sub-architecture", rs, er, {"v0"} if ws is None else {"v1(SubArchitecture::%s)" % ws}, what)
            else:
                R.oblige(ws is None, key + " sub-architecture", "%s; the reader of %s knows no sub-architecture" % (what, fmt))
        if fmt == "coff":
            en_ok = r["is_little_endian"]
            if a in ("PowerPc", "PowerPc64"):
                n += decide(R, unk, key + " byte order", *en_ok, {"1" if e == "Little" else "0"}, what)
        if en is not None:
            good = en <= {"Endianness::" + e, "endian"}
            if not all(re.fullmatch(r"Endianness::\w+|endian", q) for q in en):
                unk.append(key + " byte order %s" % sorted(en))
            else:
                R.oblige(good, key + " byte order", "%s with the byte order %s" % (what, sorted(en)))
    R.floor("accepted combinations of format, architecture and byte order", len(jobs), 90)
    R.floor("architectures compared", n, 120)
    R.assumptions = ["explicit raw file flags and an explicit Mach-O CPU subtype are the caller's own choice and are not covered",
                     "the raw accessors return the field they are named after (C10), and the encoders write each header field they are given"]
    R.finish("for every format, architecture, sub-architecture and byte order the writer's object writer is interpreted abstractly with that input until it builds the file header (a combination that never builds one is rejected), and the reader's architecture, sub-architecture and byte-order functions are evaluated symbolically for exactly the machine, flags and class values stored",
             accepted=len(jobs), combinations=len(items), undecided=unk, functions_analysed=len(uniq) * 4)
