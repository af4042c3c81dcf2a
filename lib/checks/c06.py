"""C06: on-disk structures have the layout of their format."""
import json, os
import facts, layout
from report import Report

MODS = ("elf", "macho", "pe", "xcoff", "goff", "archive", "read")


def layouts(P):
    L = layout.Layout(P)
    out = {}
    for d, a in P.adts.items():
        if not a["local"] or a["kind"] != "struct" or not a["repr_c"] or d.split("::")[0] not in MODS:
            continue
        try:
            size, align, leaves = L.adt(a, [])
        except layout.NoLayout:
            continue
        out[d] = (size, [list(x) for x in leaves])
    return out


def overlay(leaves):
    """byte -> (field path, index in field, encoding)"""
    m = {}
    for p, o, z, e in leaves:
        for i in range(z):
            m[o + i] = (p, i, e)
    return m


def norm(path):
    # a newtype around a value does not move it
    return ".".join(x for x in path.split(".") if x != "0")


def run(pid):
    R = Report(pid)
    P = facts.load()
    got = layouts(P)
    tab = json.load(open(os.path.join(facts.VERIF, "tables", "layouts.json")))
    nf = 0
    seen = 0
    for d, w in sorted(tab.items()):
        if d not in got:
            if d in P.adts:
                # still there, but its layout is no longer fixed
                try:
                    layout.Layout(P).adt(P.adts[d], [])
                    why = "it is no longer repr(C)"
                except layout.NoLayout as e:
                    why = str(e)
                a = P.adts[d]
                nz = [f for f in a["variants"][0]["f"]]
                if not (a["transparent"] and len(nz) == 1):
                    R.violation("struct:" + d, "%s:%d: struct %s has no fixed layout: %s" % (a["file"], a["line"], d, why))
            continue
        seen += 1
        a = P.adts[d]
        where = "%s:%d" % (a["file"], a["line"])
        size, leaves = got[d]
        R.oblige(size == w["size"], "size:" + d, "%s: struct %s has size %d, the format defines %d" % (where, d, size, w["size"]), sample=None)
        mine = {norm(p): (o, z, e) for p, o, z, e in leaves}
        for p, o, z, e in w["fields"]:
            nf += 1
            g = mine.get(norm(p))
            if g is None:
                # a renamed field: the bytes must still be one field of that extent and encoding
                g = next(((oo, zz, ee) for pp, oo, zz, ee in leaves if oo == o and zz == z), None)
                R.oblige(g is not None and g[2] == e, "field:%s.%s" % (d, p), "%s: struct %s has no field of %d bytes at offset %d (%s)" % (where, d, z, o, p))
                continue
            R.oblige(g == (o, z, e), "field:%s.%s" % (d, p), "%s: %s.%s is at offset %d, %d bytes, encoding %s; the format defines offset %d, %d bytes, %s" % (where, d, p, g[0], g[1], g[2], o, z, e), sample="%s.%s @%d+%d %s" % (d, p, o, z, e) if nf % 37 == 0 else None)
        pads = [l for l in leaves if l[3] == "pad"]
        R.oblige(not pads, "pad:" + d, "%s: struct %s has compiler-inserted padding at %r" % (where, d, pads))
    R.floor("structures", seen, int(len(tab) * 0.95))
    R.finish("For every repr(C) structure of the format modules the resolved field types determine size, field offsets, field widths and the byte order each field is decoded with; they are compared with a table cross-checked against elf.h and LLVM BinaryFormat headers (entries without an independent header are frozen from the reviewed reference tree).",
             fields=nf, confirmed_by_headers=sum(1 for w in tab.values() if w["source"] != "reference"))
