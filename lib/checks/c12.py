"""C12: the relocation kinds, encodings and sizes the writers translate are those the readers report."""
import json, os, re
import multiprocessing as mp
import facts, prov, wagg
from report import Report

TABLE = os.path.join(facts.VERIF, "tables", "relocations.json")
FORMATS = ("elf", "coff", "macho", "xcoff")
ARG = r"\([^()]*\)(\.0)?$"
ADT = "common::Relocation"
KINDS = "common::RelocationKind"


def find(P, name, pre):
    return [d for d, f in P.fns.items() if f.get("name") == name and f["file"].startswith(pre) and f["kind"] != "Closure"]


def flags_param(P, f):
    """the parameter that is the relocation being translated"""
    for i in range(f["argc"]):
        t = P.types[f["locals"][1 + i]]
        if t["k"] == "ref":
            a = P.adts.get(P.types[t["to"]].get("def"))
            if a and a["kind"] == "struct":
                for q in a["variants"][0]["f"]:
                    if P.types[q["t"]].get("def") == "common::RelocationFlags":
                        return i, q["n"]
    return None


def opaque(g):
    """closures and local predicates of the writer are looked into"""
    return wagg.opaque(g) and g["kind"] != "Closure"


_P = None


def translate(x):
    fmt, d, arch, more = x
    P = _P
    f = P.fns[d]
    pi = flags_param(P, f)
    if pi is None:
        return x, [], "no relocation parameter"
    base = ("p%d" % pi[0] if pi[0] else "self") + "." + pi[1]
    force = {"architecture": "common::Architecture::" + arch, base: "common::RelocationFlags::Generic"}
    force.update({base + "." + k: v for k, v in more})
    try:
        rows, err = wagg.paths(P, d, force=force, places={"flags": (pi[0], (pi[1],))}, pred=opaque, secs=90)
    except Exception as ex:
        return x, [], repr(ex)[:300]
    out = []
    for r, (c, whole), fin in rows:
        t = prov.flat(fin.get("flags", "?"))
        if t == base or t.startswith("RelocationFlags::Generic("):
            continue                                     # nothing was translated
        cc = {}
        for k, v in c.items():
            if k.startswith(base + "."):
                cc[k[len(base) + 1:]] = v if isinstance(v, (str, bool)) else v[0] if v[1] == (1 << v[2]) - 1 else "partly"
            elif k == "endian":
                cc["endian"] = v
        cc.update(dict(more))
        for k, v in cc.items():                          # a value assumed for the size
            if isinstance(v, int) and not isinstance(v, bool):
                t = re.sub(re.escape(base + "." + k) + r"(?: ([+-]) (\d+))?", lambda m: str(v + int((m.group(1) or "+") + (m.group(2) or "0"))), t)
        if (cc, t) not in out:
            out.append((cc, t))
    return x, out, err


def raw(fmt, t):
    m = re.fullmatch(r"RelocationFlags::(\w+)\(([\d, ]+)\)", t)
    return tuple(int(x) for x in m.group(2).split(", ")) if m else None


def relocs(o, out):
    """the Relocation values inside a result"""
    if isinstance(o, dict):
        if o["struct"] == "Relocation" and {"kind", "encoding", "size"} <= set(o["fields"]):
            out.append(o["fields"])
        else:
            for v in o["fields"].values():
                relocs(v, out)
    elif isinstance(o, list):
        for v in o[1:]:
            relocs(v, out)
    return out


def readers(P, fmt):
    """the functions of the reader that make a Relocation of a raw one"""
    r = []
    for d, f in sorted(P.fns.items()):
        if f["kind"] == "Closure" or not f["file"].startswith("src/read/%s/relocation" % fmt) or f.get("derived"):
            continue
        s = P.types[f["locals"][0]]["s"]
        if s == "read::Relocation" or (fmt != "elf" and s == "core::option::Option<(u64, read::Relocation)>"):
            r.append(d)
    return r


def forced(fmt, head, rw, big):
    """raw values of one stored relocation in a file of the given machine"""
    pats = [("e_machine" + ARG, head.get("e_machine")), ("is_type_64" + ARG, head.get("is_64")), (r"e_ident\([^()]*\)\.class(\.0)?$", head.get("class")),
            ("machine" + ARG, head.get("machine")), ("cputype" + ARG, head.get("cputype"))]
    pats = [(re.compile("(^|:)" + p), v) for p, v in pats if v is not None]
    pats += [(re.compile(r"(^|:)is_little_endian" + ARG), not big), (re.compile(r"(^|:)is_big_endian" + ARG), big)]
    if fmt == "elf":
        pats.append((re.compile(r"(^|\.)r_type(\.0)?$"), rw[0]))
    elif fmt == "coff":
        pats.append((re.compile(r"\.typ$"), rw[0]))
    elif fmt == "macho":
        ty, pc, ln = rw
        # r_symbolnum 1, r_extern 1
        w = (1 << 8 | ty | 1 << 4 | ln << 5 | pc << 7) if big else (1 | pc << 24 | ln << 25 | 1 << 27 | ty << 28)
        pats += [(re.compile(r"\.r_word1$"), w), (re.compile(r"\.r_word0$"), 0)]
    else:
        pats += [(re.compile(r"(^|:)r_rtype" + ARG), rw[0]), (re.compile(r"(^|:)r_rsize" + ARG), rw[1])]

    def force(t):
        for p, v in pats:
            if p.search(t):
                return v
    return force


def signed(t):
    """a constant addend, None when it is not one"""
    if not re.fullmatch(r"-?\d+", t):
        return None
    v = int(t) & ((1 << 64) - 1)
    return v - (1 << 64) if v >> 63 else v


VAR = {"elf": "Elf", "coff": "Coff", "macho": "MachO", "xcoff": "Xcoff"}


def having(P, pi, arch, fmt, rw):
    """assume the architecture and the raw flags of the relocation parameter"""
    base = ("p%d" % pi[0] if pi[0] else "self") + "."
    var = VAR[fmt]
    vi = prov.variant_index(P, "common::RelocationFlags::" + var)

    def force(t):
        if t == "architecture":
            return "common::Architecture::" + arch
        if t == base + pi[1]:
            return "common::RelocationFlags::" + var
        m = re.fullmatch(re.escape(base + pi[1]) + r"\.v%d\.(\d)(\.0)?" % vi, t)
        if m and int(m.group(1)) < len(rw):
            return rw[int(m.group(1))]
    return base, force


def size_of(x):
    """the size the writer gives an implicit addend of this raw type"""
    fmt, d, arch, rw = x
    P = _P
    for a in find(P, fmt + "_adjust_addend", "src/write")[:1]:
        pi = flags_param(P, P.fns[a])
        try:
            rows, err = wagg.paths(P, a, force=having(P, pi, arch, fmt, rw)[1] if pi else {"architecture": "common::Architecture::" + arch}, pred=opaque)
        except Exception:
            return x, None
        if err or not rows:
            return x, None
        if {prov.flat(r) for r, c, o in rows} <= {"v0(false)", "v0(0)"}:
            return x, "explicit"
    pi = flags_param(P, P.fns[d])
    if pi is None:
        return x, None
    try:
        rows, err = wagg.paths(P, d, force=having(P, pi, arch, fmt, rw)[1], pred=opaque)
    except Exception:
        return x, None
    if err:
        return x, None
    out = set()
    base = ("p%d" % pi[0] if pi[0] else "self") + "." + pi[1]
    vi = prov.variant_index(P, "common::RelocationFlags::" + VAR[fmt])
    for r, c, o in rows:
        t = re.sub(re.escape(base) + r"\.v%d\.(\d)(\.0)?" % vi, lambda m: str(int(rw[int(m.group(1))])), prov.flat(r))
        m = re.fullmatch(r"v0\((\d+)(?: \+ (\d+))?\)", t)
        out.add(int(m.group(1)) + int(m.group(2) or 0) if m else "rejected" if "v1(" in t else None)
    if not rows:
        return x, "rejected"
    return x, None if len(out) != 1 else out.pop()


def adjust(x):
    """what the writer adds to the addend of a relocation with these raw flags"""
    fmt, d, arch, rw = x
    P = _P
    pi = flags_param(P, P.fns[d])
    if pi is None:
        return x, None
    base, force = having(P, pi, arch, fmt, rw)
    try:
        rows, err = wagg.paths(P, d, force=force, places={"addend": (pi[0], ("addend",))}, pred=opaque)
    except Exception:
        return x, None
    if err:
        return x, None
    vals = set()
    for r, c, o in rows:
        m = re.fullmatch(re.escape(base) + r"addends?(?: ([+-]) (\d+))?", prov.flat(o.get("addend", "?")))
        vals.add(int((m.group(1) or "+") + (m.group(2) or "0")) if m else None)
    return x, None if None in vals else sorted(vals)


def read(x):
    fmt, head, rw, big = x
    P = _P
    out, err = set(), None
    add = set()
    for d in readers(P, fmt):
        try:
            er, rows = prov.results(P, d, traces=1200, secs=60, force=forced(fmt, dict(head), rw, big))
        except Exception as ex:
            er, rows = repr(ex)[:200], []
        err = err or er
        for r in rows:
            for q in relocs(r, []):
                out.add(tuple(prov.flat(q[k]).split("::")[-1] for k in ("kind", "encoding", "size")))
                add.add(prov.flat(q.get("addend", "?")))
    return x, sorted(out), err, sorted(add)


def heads(P, R, unk):
    """machine values of each (format, architecture), as C13 derives them"""
    from checks import c13
    c13._P = P
    A = [v["n"] for v in P.adts["common::Architecture"]["variants"]]
    items = []
    for fmt in FORMATS:
        for w in c13.writer(P, fmt)[:1]:
            items += [(fmt, w, a, None, e) for a in A for e in ("Little", "Big")]
    with mp.get_context("fork").Pool(8) as p:
        rows = p.map(c13.one, items, 2)
    H = {}
    for (fmt, d, a, s, e), got, err, oks, used in rows:
        hs = [(n, r) for n, r in got if n in c13.HEAD[fmt]]
        es = [r for n, r in got if fmt in c13.ENC and n == c13.ENC[fmt]]
        if not hs:
            continue
        n, r = hs[0]
        if fmt == "elf":
            c = {q["is_64"] for q in es}
            v = c13.inner(r["e_machine"])
            if v is None or c not in ({"0"}, {"1"}):
                continue
            h = {"e_machine": v, "is_64": c == {"1"}, "class": 2 if c == {"1"} else 1}
        elif fmt == "coff":
            h = {"machine": c13.inner(r["machine"])}
        elif fmt == "macho":
            h = {"cputype": c13.inner(r["cputype"])}
        else:
            h = {"is_64": n.endswith("64")}
        if None in h.values():
            continue
        H[(fmt, a, e)] = tuple(sorted(h.items()))
    return H


def collect(P, unk, R=None):
    """[(fmt, arch, endian, conditions, raw, read back)]"""
    global _P
    _P = P
    H = heads(P, R, unk)
    K = [v["n"] for v in P.adts[KINDS]["variants"]]
    items = []
    for fmt in FORMATS:
        ds = find(P, fmt + "_translate_relocation", "src/write")
        if R:
            R.floor("relocation translation of " + fmt, len(ds), 1)
        for d in ds[:1]:
            for a in sorted({k[1] for k in H if k[0] == fmt}):
                for k in K:
                    if (fmt, k) == ("coff", "GotRelative"):
                        continue                         # rewritten to a new stub symbol first
                    if fmt == "xcoff":
                        items += [(fmt, d, a, (("v0.0", KINDS + "::" + k), ("v0.2", s))) for s in (8, 16, 32, 64)]
                    else:
                        items.append((fmt, d, a, (("v0.0", KINDS + "::" + k),)))
    with mp.get_context("fork").Pool(8) as p:
        rows = p.map(translate, items, 1)
    jobs, want = {}, []
    for (fmt, d, a, more), out, err in rows:
        if err:
            unk.append("%s %s: %s" % (fmt, a, err[:80]))
            continue
        for c, t in out:
            rw = raw(fmt, t)
            if rw is None or "partly" in c.values():
                unk.append("%s %s %s: %s" % (fmt, a, sorted(c.items()), t[:80]))
                continue
            for e in ("Little", "Big"):
                if (fmt, a, e) not in H or c.get("endian", "endian::Endianness::" + e) != "endian::Endianness::" + e:
                    continue
                j = (fmt, H[(fmt, a, e)], rw, e == "Big" and fmt in ("macho", "elf"))
                jobs[j] = None
                want.append((fmt, a, e, c, rw, j, d))
    with mp.get_context("fork").Pool(8) as p:
        for j, out, err, add in p.imap_unordered(read, sorted(jobs, key=str), 2):
            jobs[j] = (out, err)
    return [w[:5] + (jobs[w[5]], w[6]) for w in want], len(items), len(jobs)


def addends(P, R, unk):
    """the writer's adjustment of the addend undoes the reader's, for every raw type"""
    H = heads(P, R, unk)
    items, jobs = [], []
    for fmt in ("coff", "macho", "xcoff"):
        ds = find(P, fmt + "_adjust_addend", "src/write")
        R.floor("addend adjustment of " + fmt, len(ds), 1)
        for d in ds[:1]:
            for a in sorted({k[1] for k in H if k[0] == fmt}):
                e = "Big" if fmt == "xcoff" else "Little"
                if (fmt, a, e) not in H:
                    continue
                rws = [(t,) for t in range(22)] if fmt == "coff" else [(t, 31) for t in range(0x32)] if fmt == "xcoff" else \
                    [(t, p, n) for t in range(11) for p in (0, 1) for n in range(4)]
                for rw in rws:
                    frw = tuple(bool(v) if fmt == "macho" and i == 1 else v for i, v in enumerate(rw))
                    items.append(((fmt, d, a, frw), (fmt, H[(fmt, a, e)], rw, False)))
    with mp.get_context("fork").Pool(8) as p:
        W = dict(p.imap_unordered(adjust, [x for x, y in items], 8))
        D = {x: (out, err, add) for x, out, err, add in p.imap_unordered(read, sorted({y for x, y in items}, key=str), 8)}
    n = und = 0
    for x, y in items:
        fmt, d, a, rw = x
        key = "addend %s %s %s" % (fmt, a, "/".join(map(str, map(int, rw))))
        w, (out, err, add) = W[x], D[y]
        r = [signed(t) for t in add]
        if w is None or err or None in r or len(r) != 1 or len(w) > 1:
            und += 1
            continue
        if not w:
            continue                                     # rejected
        n += 1
        R.oblige(w[0] == -r[0], key, "%s:%d %s adds %d to the addend of a %s relocation of raw type %s for %s, the reader adds %d" %
                 (P.fns[d]["file"], P.fns[d]["line"], d, w[0], fmt, "/".join(map(str, map(int, rw))), a, r[0]),
                 sample=key + ": %+d %+d" % (w[0], r[0]) if r[0] else None)
    R.cov["addend adjustments undecided"] = und
    R.floor("addend adjustments compared", n, 400)


def sizes(P, R, have):
    """an implicit addend is stored in the width of the relocation"""
    items = []
    for fmt in FORMATS:
        ds = find(P, fmt + "_relocation_size", "src/write")
        R.floor("implicit addend width of " + fmt, len(ds), 1)
        items += [(fmt, d, a, rw) for d in ds[:1] for (f, a, rw) in sorted(have, key=str) if f == fmt]
    with mp.get_context("fork").Pool(8) as p:
        got = p.map(size_of, items, 8)
    n = und = 0
    for (fmt, d, a, rw), w in got:
        key = "width %s %s %s" % (fmt, a, "/".join(map(str, map(int, rw))))
        rs = {int(o[2]) for o in have[(fmt, a, rw)]} - {0}
        if w is None or len(rs) != 1:
            und += 1
        elif w not in ("rejected", "explicit"):
            n += 1
            R.oblige(w in rs, key, "%s:%d %s stores the addend of a %s relocation of raw type %s for %s in %s bits, the reader gives it a size of %s" %
                     (P.fns[d]["file"], P.fns[d]["line"], d, fmt, "/".join(map(str, map(int, rw))), a, w, sorted(rs)), sample=key + ": %s" % w)
    R.cov["implicit addend widths undecided"] = und
    R.floor("implicit addend widths compared", n, 60)


def shape(c):
    k, e, s = (c.get("v0.%d" % i) for i in range(3))
    return tuple("*" if x is None else str(x).split("::")[-1] for x in (k, e, s))


def run(pid):
    R = Report(pid)
    P = facts.load()
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    unk = []
    rows, nt, nj = collect(P, unk, R)
    n = 0
    done = set()
    for fmt, a, e, c, rw, (out, err), d in rows:
        sh = shape(c)
        key = "%s %s %s" % (fmt, a, "/".join(sh))
        if err or not out or any(re.search(r"[^\w]", x) for o in out for x in o):
            unk.append(key + " raw %s" % (rw,) + (" (%s)" % err[:60] if err else ""))
            continue
        ok = [o for o in out if all(w == "*" or w == g for w, g in zip(sh, o)) and (sh[1] != "*" or o[1] != "Unknown") and (sh[2] != "*" or o[2] != "0")]
        ok += [o for o in out if list(o) in tab.get("%s %s" % (fmt, "/".join(sh)), []) or list(o) in tab.get(key, [])]
        if ok and len(out) > 1:
            unk.append(key + " raw %s gives %s" % (rw, out))
            continue
        n += 1
        done.add((fmt, a, rw))
        R.oblige(bool(ok), key, "%s:%d %s translates %s to raw type %s for %s (%s endian), which the reader of %s reports as %s" %
                 (P.fns[d]["file"], P.fns[d]["line"], d, "/".join(sh), "/".join(map(str, rw)), a, e.lower(), fmt, ["/".join(o) for o in out]),
                 sample="%s -> %s -> %s" % (key, "/".join(map(str, rw)), "/".join(out[0])))
    have = {}
    for fmt, a, e, c, rw, (out, err), d in rows:
        if not err:
            have.setdefault((fmt, a, rw), set()).update(o for o in out if o[2].isdigit())
    sizes(P, R, have)
    addends(P, R, unk)
    R.floor("translated combinations compared", n, 300)
    R.floor("raw relocation types compared", len(done), 150)
    R.assumptions = ["relocations with explicit raw flags are the caller's own choice and are not covered",
                     "tables/relocations.json lists the reviewed combinations that a format can only express as an equivalent one (for example PLT-relative calls)"]
    R.finish("every path of each format's relocation translation is enumerated from MIR for each architecture with the kind, encoding, size it accepts and the raw type it stores; the reader's relocation decoding is evaluated symbolically for exactly that machine and raw type and must give the same kind, encoding and size",
             translations=nt, reader_evaluations=nj, undecided=unk, functions_analysed=nt + nj)
