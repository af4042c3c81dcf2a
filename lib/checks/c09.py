"""C09: the format-independent types forward every operation to the format's own reader."""
import multiprocessing as mp
import facts, summ, prov, bits
from report import Report

FILE = "src/read/any.rs"
SKIP = {"fmt"}
_P = None


def methods(P):
    for d, f in sorted(P.fns.items()):
        if f["file"] != FILE or f.get("derived") or f["kind"] == "Closure" or f["argc"] < 1 or f["name"] in SKIP:
            continue
        if f.get("trait") is None and " as " not in d:
            continue
        yield d


FORMATS = ("src/read/coff/", "src/read/elf/", "src/read/macho/", "src/read/pe/", "src/read/xcoff/", "src/read/wasm.rs", "src/read/traits.rs")


def opaque(g):
    return g["file"].startswith(FORMATS)


def variants(P, f):
    """the per-format enum a type wraps: (path text, adt)"""
    t = P.types[f["locals"][1]]
    while t["k"] == "ref":
        t = P.types[t["to"]]
    if t["k"] != "adt" or t["def"] not in P.adts:
        return None, None
    a = P.adts[t["def"]]
    if a["kind"] == "enum":
        return ("param", 0), a
    fs = a["variants"][0]["f"]
    for q in fs:
        y = P.types[q["t"]]
        if y["k"] == "adt" and y["def"] in P.adts and P.adts[y["def"]]["kind"] == "enum" and P.adts[y["def"]].get("local") and P.adts[y["def"]]["file"] == FILE:
            return ("fld", ("param", 0), q["n"]), P.adts[y["def"]]
    return None, None


def vname(a, i):
    return a["variants"][i].get("n") or a["variants"][i].get("name")


class No(Exception):
    pass


def peel(e, fmt):
    """remove the wrapper of the same format"""
    while True:
        if e[0] == "var" and isinstance(e[1], str):
            n = e[1].split("::")[-1]
            if n != fmt:
                raise No("a %s result is wrapped as %s" % (fmt, e[1]))
            if len(e) < 3:
                return e
            e = e[2]
        elif e[0] == "call" and e[1].split("::")[-1] == fmt and len(e) == 3:
            e = e[2]
        elif e[0] == "struct" and len(e) > 2 and all(x[:2] == ("struct", "core::marker::PhantomData") for x in e[3:]):
            e = e[2]
        elif e[0] == "S" and len(e) > 2 and all(x[0] == "S0" and x[1].startswith("core::marker::PhantomData") for x in e[2:]):
            e = e[1]
        else:
            return e


def one(d):
    P = _P
    f = P.fns[d]
    path, a = variants(P, f)
    if a is None:
        return d, None, []
    S = summ.run(P, d, opaque=opaque, traces=400, secs=40)
    if S.err:
        return d, S.err, []
    res = []
    seen = {}
    for st, v in S.outs:
        E = summ.Expr(S.ip, st)
        E.typed = True
        e = bits.strip(E.value(v))
        vk = {}
        for t, x in st.vk.items():
            vk[bits.strip(E.term(t))] = x
        bf = {bits.strip(E.term(t)): v for t, v in st.bf.items()}
        i = vk.get(path)
        if not isinstance(i, int):
            # every other format
            known = i if isinstance(i, frozenset) else frozenset()
            seen.setdefault("other", []).append((known, e))
            continue
        seen.setdefault(i, []).append((e, vk, bf))
    for i, lst in sorted((k, v) for k, v in seen.items() if k != "other"):
        n = vname(a, i)
        if payload(P, a["variants"][i]) in (None, "core::marker::PhantomData"):
            # holds no format value
            continue
        try:
            ok = all([check(P, f, path, i, n, e, vk, bf) for e, vk, bf in lst])
            res.append((n, True, "") if ok else (n, None, "not reduced"))
        except No as x:
            res.append((n, False, str(x)))
    # formats that share a result: only the constant "nothing", where the format has nothing either
    for j in range(len(a["variants"])):
        if j in seen:
            continue
        n = vname(a, j)
        lst = [e for known, e in seen.get("other", ()) if j not in known]
        if not lst:
            res.append((n, False, "no result is computed for it"))
        elif any(e[0] != "var" or len(e) != 2 for e in lst):
            res.append((n, False, "its result is not taken from the wrapped value"))
        else:
            w = always(P, f, a["variants"][j], {e[1] for e in lst})
            res.append((n, w is None, w))
    return d, None, res


def payload(P, v):
    if len(v["f"]) < 1:
        return None
    t = P.types[v["f"][0]["t"]]
    while t["k"] == "ref":
        t = P.types[t["to"]]
    if t["k"] == "tuple" and t.get("of"):
        t = P.types[t["of"][0]]
    return t.get("def") if t["k"] == "adt" else None


def always(P, f, v, ks):
    """None when the wrapped type's own operation always gives this empty result"""
    ad = payload(P, v)
    if ad is None:
        return "it wraps no format type"
    for d, g in P.fns.items():
        if g.get("name") == f["name"] and g.get("impl_self") is not None and P.types[g["impl_self"]].get("def") == ad:
            S = summ.run(P, d)
            if S.err:
                return S.err
            for st, x in S.outs:
                e = summ.Expr(S.ip, st).value(x)
                if e[0] != "var" or e[1] not in ks or len(e) != 2:
                    return "%s can give %s" % (d, summ.show(e)[:80])
            return None
    return "its own operation was not found"


def is_call(x, f, path, i):
    """the same operation of the wrapped value, with the caller's arguments in order"""
    if x[0] != "call":
        return "is %s" % summ.show(x)[:100]
    if x[1].split("::")[-1] != f["name"]:
        return "calls %s" % x[1]
    inner = ("vf", path, i, 0)
    got = x[2:]
    if got[:1] != (inner,) and got[:1] != (("fld", inner, "0"),):
        return "calls %s on %s" % (x[1], summ.show(got[0])[:80] if got else "nothing")
    want = tuple(("param", k) for k in range(1, f["argc"]))
    if tuple(got[1:]) != want:
        return "calls %s with (%s)" % (x[1], ", ".join(summ.show(y) for y in got[1:]))
    return None


def under(x, f, path, i):
    """a part of the wrapped operation's result"""
    while x[0] in ("vf", "fld"):
        x = x[1]
    return is_call(x, f, path, i) is None


def eta(e, f, path, i, n, vk, bf, depth=0):
    """the value that this expression rebuilds, or None"""
    e = peel(e, n)
    if e[0] in ("vf", "fld", "call") and under(e, f, path, i):
        return e
    if depth > 6:
        return None
    if e[0] == "bool" or e in (("n", 0), ("n", 1)):
        return next((x for x, v in bf.items() if v == bool(e[1]) and under(x, f, path, i)), None)
    if e[0] == "not":
        return None
    if e[0] == "var" and isinstance(e[1], int):
        k = e[1]
        if len(e) == 2:
            return next((x for x, j in vk.items() if j == k and under(x, f, path, i)), None)
        ys = [eta(y, f, path, i, n, vk, bf, depth + 1) for y in e[2:]]
        if all(y is not None and y[0] == "vf" and y[2] == k and y[3] == j and y[1] == ys[0][1] for j, y in enumerate(ys)):
            return ys[0][1]
    if e[0] == "struct" and e[1] == "tuple" and len(e) > 2:
        ys = [eta(y, f, path, i, n, vk, bf, depth + 1) for y in e[2:]]
        if all(y is not None and y[0] == "fld" and y[2] == str(j) and y[1] == ys[0][1] for j, y in enumerate(ys)):
            return ys[0][1]
    return None


def check(P, f, path, i, n, e, vk, bf):
    y = eta(e, f, path, i, n, vk, bf)
    if y is not None:
        w = is_call(y, f, path, i)
        if w is None:
            return True
    e = peel(e, n)
    t = summ.show(e)
    if prov.unclean([t]) and any(under(x, f, path, i) for x in list(vk) + list(bf) + list(subs(e))):
        return False
    raise No(is_call(e, f, path, i) or "is %s" % t[:100])


def subs(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from subs(x)


def run(pid):
    global _P
    R = Report(pid)
    P = _P = facts.load()
    ds = list(methods(P))
    with mp.get_context("fork").Pool(8) as p:
        out = p.map(one, ds, 2)
    nm = nc = 0
    unk = []
    for d, err, res in out:
        if err:
            unk.append("%s: %s" % (d, err))
            continue
        if res:
            nm += 1
        for n, ok, why in res:
            if ok is None:
                unk.append("%s for %s: %s" % (d, n, why))
                continue
            nc += 1
            f = P.fns[d]
            R.oblige(ok, "%s@%s" % (d, n), "%s:%d: %s for %s: %s" % (f["file"], f["line"], d, n, why), sample="%s = the same call of the %s value" % (d, n))
    R.floor("operations of the unified types", nm, 80)
    R.floor("operation and format pairs", nc, 850)
    R.assumptions = ["the operations of the format types themselves (C10, C11) give the right answers"]
    R.finish("every method of the unified read types is summarised symbolically per wrapped format: its result must be the result of the operation of the same name on the wrapped value, with the caller's arguments in order, wrapped as the same format; failures and empty results likewise",
             methods=nm, pairs=nc, undecided=unk)
