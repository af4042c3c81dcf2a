"""C14: the section and symbol classifications the writers encode are those the readers report."""
import itertools, json, os, re
import multiprocessing as mp
import facts, prov, wagg
from report import Report

TABLE = os.path.join(facts.VERIF, "tables", "kinds.json")
FORMATS = ("elf", "coff", "macho", "xcoff")
ARG = r"\([^()]*\)(\.0)?$"
SHNDX = {"Undefined": 0, "Absolute": 0xfff1, "Common": 0xfff2, "Section": 1, "None": 0xfff1}
NUMBER = {"Undefined": 0, "Absolute": -1, "Common": 0, "Section": 1, "None": -2}
QUESTIONS = ("kind", "scope", "is_weak", "is_local", "is_global", "is_undefined", "is_common", "is_definition")
_P = None


def find(P, name, pre):
    return [d for d, f in sorted(P.fns.items()) if f.get("name") == name and f["file"].startswith(pre) and f["kind"] != "Closure"]


def own(g):
    """the small methods of the writer's Section and Symbol are looked into"""
    return wagg.opaque(g) and g["kind"] != "Closure" and not g.get("derived") and not g["def"].startswith(("write::Symbol::", "write::Section::", "write::SymbolSection"))


def param(P, f, adt):
    for i in range(f["argc"]):
        t = P.types[f["locals"][1 + i]]
        while t["k"] == "ref":
            t = P.types[t["to"]]
        if t.get("def") == adt:
            return "p%d" % i if i else "self"


def run_paths(x):
    """-> (x, result texts or None)"""
    d, force = x
    try:
        rows, err = wagg.paths(_P, d, force=dict(force), pred=own)
    except Exception:
        return x, None
    return x, None if err else sorted({prov.flat(r) for r, c, o in rows})


def raw(t, what):
    """numbers of a flags value, or None when it is not given / not constant"""
    m = re.fullmatch(what + r"::(\w+)\((.*)\)", t)
    if not m:
        return None
    # the low bits of a partly constant value: only the alignment of a Mach-O common symbol lies above them
    a = [q.strip() for q in re.sub(r"8'0x([0-9a-f]+):res\((?:[^()]|\([^()]*\))*\)(?:\[[\d:]+\])?(?::\d+'0x0)?", lambda k: str(int(k.group(1), 16)), m.group(2)).split(",")]
    return tuple(int(q) if re.fullmatch(r"\d+", q) else q for q in a)


# ---------------------------------------------------------------- reading back
def answers(x):
    d, pats, opq = x
    cp = [(re.compile(p), v) for p, v in pats]

    def force(t):
        for p, v in cp:
            if p.search(t):
                return v
    force.eqs = True
    try:
        r, err = wagg.answers(_P, d, force, pred=(lambda g: g.get("name") in opq or prov.opaque(g)) if opq else None)
    except Exception:
        return x, None
    out = set()
    for q in r:
        m = re.search(r"\bkind: SectionKind::(\w+)", q)
        out.add(m.group(1) if m else q.split("::")[-1])
    return x, None if err or not r else tuple(sorted(out))


def section_job(P, fmt, raws, seg=None):
    """the evaluation of the reader's section kind for these raw flags"""
    if fmt == "elf":
        d = [d for d in find(P, "kind", "src/read/elf/section.rs") if (P.fns[d].get("impl_trait") or "").endswith("ObjectSection")]
        pats = [(r"(^|:)sh_type" + ARG, raws[0]), (r"(^|:)sh_flags" + ARG, raws[1])]
    elif fmt in ("coff", "pe"):
        d = [d for d in find(P, "kind", "src/read/%s/section.rs" % fmt) if (P.fns[d].get("impl_trait") or "").endswith("ObjectSection")]
        pats = [(r"^LE section\.characteristics$|^section\.characteristics(\.0)?$", raws[0])]
    elif fmt == "macho":
        d = [d for d in find(P, "parse", "src/read/macho/section.rs")]
        ro = param(P, P.fns[d[0]], "core::option::Option") if d else None
        pats = [(r"(^|:)flags" + ARG, raws[0]), ("^%s$" % ro, "core::option::Option::None")]
        for name in ("__TEXT", "__DATA", "__DWARF"):
            by = ", ".join(str(ord(c)) for c in name)
            pats.append((r"^eqs?\(.*segment_name\(\w+\).*A\(" + by + r"\)", name == seg))
        return (d[0], tuple(pats), ("segment_name",)) if len(d) == 1 else None
    else:
        d = [d for d in find(P, "kind", "src/read/xcoff/section.rs") if (P.fns[d].get("impl_trait") or "").endswith("ObjectSection")]
        pats = [(r"(^|:)s_flags" + ARG, raws[0])]
    return (d[0], tuple(pats), ()) if len(d) == 1 else None


def symbol_jobs(P, fmt, raws, place, weak, kind):
    out = {}
    if fmt == "elf":
        info, other = raws
        pats = [(r"(^|:)st_info" + ARG, info), (r"(^|:)st_bind" + ARG, info >> 4), (r"(^|:)st_type" + ARG, info & 15), (r"(^|:)st_other" + ARG, other),
                (r"(^|:)st_visibility" + ARG, other & 3), (r"(^|:)st_shndx" + ARG, SHNDX[place])]
    elif fmt == "coff":
        typ, cls = raws
        pats = [(r"(^|:)typ" + ARG, typ), (r"(^|:)storage_class" + ARG, cls), (r"(^|:)section_number" + ARG, 0 if weak else NUMBER[place])]
        if weak or place == "Undefined":
            pats.append((r"(^|:)value" + ARG, 0))
        elif place == "Common":
            pats.append((r"(^|:)value" + ARG, 8))
        if kind != "File":
            pats.append((r"(^|:)number_of_aux_symbols" + ARG, 1 if weak or (kind == "Section" and place == "Section") else 0))
    elif fmt == "macho":
        ty, desc = raws
        pats = [(r"(^|:)n_type" + ARG, ty), (r"(^|:)n_desc" + ARG, desc), (r"(^|:)n_sect" + ARG, 1 if place == "Section" else 0)]
        if place in ("Undefined", "Common"):
            pats.append((r"(^|:)n_value\(.*\)(\.0)?$", 8 if place == "Common" else 0))
    else:
        ty, cls, smtyp, smclas = raws[:4]
        aux = cls in (2, 107, 111)
        pats = [(r"(^|:)n_type" + ARG, ty), (r"(^|:)n_sclass" + ARG, cls), (r"(^|:)n_scnum" + ARG, NUMBER[place]), (r"(^|:)n_numaux" + ARG, 1 if aux or kind == "File" else 0),
                (r"(^|:)n_(sclass|numaux)\(.*\)(\.0)?$", None), (r"(^|:)x_smtyp\(.*\)(\.0)?$", smtyp), (r"(^|:)x_smclas\(.*\)(\.0)?$", smclas),
                (r"(^|:)x_auxtype\(.*\)$", "core::option::Option::Some"), (r"(^|:)x_auxtype\(.*\)\.v1\.0(\.0)?$", 251)]
        pats[1:2] = [(r"(^|:)n_sclass\(.*\)(\.0)?$", cls)]
        pats[3:5] = [(r"(^|:)n_numaux\(.*\)$", pats[3][1])]
    for q in QUESTIONS:
        d = [d for d in find(P, q, "src/read/%s/symbol.rs" % fmt) if (P.fns[d].get("impl_trait") or "").endswith("ObjectSymbol")]
        if len(d) == 1:
            out[q] = (d[0], tuple(pats), ())
            if fmt == "macho" and q == "kind" and place == "Section":
                for sk in ("Text", "Data", "ReadOnlyData", "ReadOnlyString", "UninitializedData", "Tls", "UninitializedTls", "TlsVariables"):
                    out["kind in " + sk] = (d[0], tuple(pats) + ((r"\.sections\[.*\]\.kind$", "common::SectionKind::" + sk),), ())
    return out


def collect(P, unk, R=None):
    """{key: answers}"""
    global _P
    _P = P
    V = lambda a: [v["n"] for v in P.adts[a]["variants"]]
    W = []
    for fmt in FORMATS:
        for what, adt in (("section_flags", "write::Section"), ("symbol_flags", "write::Symbol"), ("section_info", None)):
            ds = find(P, "%s_%s" % (fmt, what), "src/write")
            if R:
                R.floor("%s %s" % (fmt, what), len(ds), 1)
            for d in ds[:1]:
                if what == "section_flags":
                    b = param(P, P.fns[d], adt)
                    W += [((fmt, what, k), (d, ((b + ".kind", "common::SectionKind::" + k),))) for k in V("common::SectionKind")]
                elif what == "section_info":
                    b = param(P, P.fns[d], "write::StandardSection")
                    W += [((fmt, what, k), (d, ((b, "write::StandardSection::" + k),))) for k in V("write::StandardSection")]
                else:
                    b = param(P, P.fns[d], adt)
                    for k, s, w, p in itertools.product(V("common::SymbolKind"), V("common::SymbolScope"), (False, True), V("write::SymbolSection")):
                        if (k == "File") == (p == "None"):
                            W.append(((fmt, what, k, s, w, p), (d, ((b + ".kind", "common::SymbolKind::" + k), (b + ".scope", "common::SymbolScope::" + s),
                                                                    (b + ".weak", w), (b + ".section", "write::SymbolSection::" + p)))))
    with mp.get_context("fork").Pool(8) as p:
        got = p.map(run_paths, [x for k, x in W], 8)
    jobs, todo, flags, info = set(), [], {}, {}
    for (key, x), (_, r) in zip(W, got):
        if r is None:
            unk.append(" ".join(map(str, key)))
            continue
        fmt = key[0]
        if key[1] == "section_info":
            info[key] = r
            continue
        for t in r:
            rw = raw(t, "SectionFlags" if key[1] == "section_flags" else "SymbolFlags")
            if rw is None:
                if not t.endswith("::None"):
                    unk.append(" ".join(map(str, key)) + ": " + t[:60])
                continue
            if not all(isinstance(q, int) for q in rw[:4 if fmt == "xcoff" else 2]):
                unk.append(" ".join(map(str, key)) + ": " + t[:60])
                continue
            if key[1] == "section_flags":
                flags[(fmt, key[2])] = rw
                for seg in ("__TEXT", "__DATA") if fmt == "macho" else (None,):
                    todo.append((key + ((seg,) if seg else ()), rw, {"kind": section_job(P, fmt, rw, seg)}))
                    if fmt == "coff":
                        todo.append((("pe",) + key[1:], rw, {"kind": section_job(P, "pe", rw)}))
            else:
                todo.append((key, rw, symbol_jobs(P, fmt, rw, key[5], key[4], key[2])))
    for key, r in info.items():
        for t in r:
            m = re.fullmatch(r"\((b'[^']*'|\[\]), (b'[^']*'|\[\]), SectionKind::(\w+), (SectionFlags::.*)\)", t)
            if not m:
                unk.append(" ".join(key) + ": " + t[:80])
                continue
            seg, name = (q[2:-1] if q != "[]" else "" for q in m.group(1, 2))
            rw = raw(m.group(4), "SectionFlags")
            if rw is None:
                rw = flags.get((key[0], m.group(3)))
            if name and rw:
                todo.append((key + (seg + "," + name,), rw, {"kind": section_job(P, key[0], rw, seg)}))
    for key, rw, js in todo:
        jobs |= {j for j in js.values() if j}
    res = {}
    with mp.get_context("fork").Pool(8) as p:
        for j, r in p.imap_unordered(answers, sorted(jobs, key=str), 4):
            res[j] = r
    out = {}
    for key, rw, js in todo:
        k = " ".join(map(str, key))
        for q, j in js.items():
            a = res.get(j)
            if a is None or any(re.search(r"\W", x) for x in a):
                unk.append(k + " " + q)
                continue
            out.setdefault(k, {}).setdefault(q, set()).update(a)
    return {k: {q: sorted(a) for q, a in v.items()} for k, v in out.items()}, len(W), len(jobs)


def run(pid):
    R = Report(pid)
    P = facts.load()
    tab = json.load(open(TABLE))
    unk = []
    got, nw, nj = collect(P, unk, R)
    n = new = 0
    direct = {}
    for k, v in sorted(got.items()):
        w = k.split()
        where = next(iter(find(P, "%s_%s" % ("coff" if w[0] == "pe" else w[0], w[1]), "src/write")), "?")
        f = P.fns.get(where, {})
        for q, a in sorted(v.items()):
            want = tab.get(k, {}).get(q, "new")
            if want is None:                             # only the direct rule below applies
                pass
            elif want == "new":
                new += 1
                unk.append(k + " " + q + ": not reviewed")
                continue
            n += want is not None
            R.oblige(want is None or set(a) == set(want), k + " " + q, "%s:%s %s: a %s written for %s is read back by %s with %s %s instead of %s" %
                     (f.get("file"), f.get("line"), where, "symbol" if w[1] == "symbol_flags" else "section", " ".join(w[2:]), w[0], q, "/".join(a), "/".join(want or ())),
                     sample="%s %s -> %s" % (k, q, "/".join(a)) if n % 40 == 0 else None)
            if w[1] == "symbol_flags" and w[2] in ("Text", "Data") and w[3] in ("Linkage", "Dynamic") and w[4] == "False" and q in ("is_undefined", "is_common"):
                direct.setdefault("%s %s of a symbol in %s" % (w[0], q, w[5]), []).append((k, a, str(int(w[5] == q[3:].capitalize()))))
    for k, l in sorted(direct.items()):
        bad = [x for x in l if x[1] != [x[2]]]
        R.oblige(not bad, k, "%s: %s" % (k, bad[0] if bad else ""))
    R.floor("classifications compared", n, 4500)
    R.assumptions = ["symbols in a section are taken to have a section number of 1, others the reserved number of their format (C16 covers the field itself)",
                     "tables/kinds.json is the reviewed composition, with the coarser classes a format has (for example COFF has no string sections)"]
    R.finish("every path of each format's section_flags, symbol_flags and section_info is enumerated from MIR for every kind, scope, weakness and placement; the reader's kind, scope and predicates are evaluated symbolically for exactly the flags stored and must give the reviewed classification",
             translations=nw, reader_evaluations=nj, undecided=unk, functions_analysed=nw + nj)
