"""C07: format constants have the values of their specification."""
import json, os
import facts
from report import Report

MODS = ("elf", "macho", "pe", "xcoff", "goff", "archive")


def flat(t):
    if isinstance(t, dict) and "adt" in t:
        f = [flat(x) for x in t.get("f", [])]
        return f[0] if len(f) == 1 else f
    if isinstance(t, list):
        return [flat(x) for x in t]
    return t


def value(c):
    for k in ("v", "str", "bytes"):
        if k in c:
            return c[k]
    for k in ("tree", "ref"):
        if k in c:
            return flat(c[k])
    return None


def constants(P):
    out = {}
    for c in P.consts.values():
        d = c["def"]
        if d.split("::")[0] not in MODS or "<" in d or not c.get("reach"):
            continue
        if d.endswith("::NAMES"):
            continue
        v = value(c)
        if v is not None:
            out[d] = v
    return out


def names_entries(P):
    """(static, printed name, value) for every entry of a static name table"""
    st = {s["def"] for s in P.statics}

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[1], str) and not isinstance(x[0], str):
                v = flat(x[0])
                if isinstance(v, int):
                    yield x[1], v
                    return
            for y in x:
                yield from walk(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                yield from walk(y)
    for d, f in P.cbodies.items():
        if d not in st and "NAMES" not in d:
            continue
        seen = set()
        for b in f["blocks"]:
            for s in b["s"]:
                for n, v in walk(s):
                    seen.add((n, v))
        for n, v in sorted(seen):
            yield d, f, n, v


def run(pid):
    R = Report(pid)
    P = facts.load()
    got = constants(P)
    tab = json.load(open(os.path.join(facts.VERIF, "tables", "constants.json")))
    seen = 0
    for d, (w, src) in sorted(tab.items()):
        if d not in got:
            continue
        seen += 1
        c = P.consts[d]
        R.oblige(got[d] == w, "const:" + d, "%s:%d: constant %s is %r, the format defines %r (%s)" % (c["file"], c["line"], d, got[d], w, src),
                 sample="%s = %r (%s)" % (d, w, src) if seen % 331 == 0 else None)
    # a name printed for a value is the constant of that value
    nn = 0
    names = {}
    for d, v in got.items():
        names.setdefault((d.split("::")[0], d.split("::")[-1]), v)
    for d, f, n, v in names_entries(P):
        m = d.lstrip("<").split("::")[0]
        if (m, n) in names and isinstance(names[(m, n)], int):
            nn += 1
            R.oblige((names[(m, n)] - v) % (1 << 64) == 0 or (names[(m, n)] - v) % (1 << 32) == 0, "name:%s:%s" % (d, n), "%s:%d: the name table %s prints %s for %d, but that constant is %d" % (f["file"], f["line"], d, n, v, names[(m, n)]))
    R.floor("constants", seen, int(len(tab) * 0.95))
    R.floor("printed_names", nn, 3000)
    src = {}
    for w, s in tab.values():
        src[s] = src.get(s, 0) + 1
    R.finish("Every public constant of the format modules, evaluated by the compiler's constant evaluator, equals the value in a table cross-checked against elf.h and LLVM BinaryFormat headers; every entry of a printed-name table carries the value of the constant it names.", table_sources=src)
