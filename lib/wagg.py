"""What the writer puts into the structures it emits, and what the reader makes of given raw values.

emitted(): run one function of src/write with some of its inputs assumed, and record every aggregate of the
wanted types that it builds.  Functions of src/write that the reference tree has too are left opaque (their
effects on memory are havoc); new ones - helpers extracted later - are looked into.
answers(): the possible answers of a function of the reader when some raw values are assumed."""
import json, os
import absint, bits, prov, summ

HERE = os.path.dirname(os.path.abspath(__file__))
_known = None


def known():
    global _known
    if _known is None:
        _known = set(json.load(open(os.path.join(HERE, "..", "tables", "write_fns.json"))))
    return _known


def opaque(g):
    d = g["def"]
    return d.startswith("endian::Endian::") or d in known()


class Done(Exception):
    pass


def texts(P, ip, st, vals, ad, v, cap=160):
    E = summ.Expr(ip, st)
    E.typed = True
    r = {}
    for q, x in zip(P.adts[ad]["variants"][v]["f"], vals):
        e = bits.strip(E.value(x))
        E.width = {bits.strip(k): w for k, w in E.width.items()}
        E.signed = {bits.strip(k): w for k, w in E.signed.items()}
        r[q["n"]] = prov.flat(prov.obj(e, prov.source(P, E), P))[:cap]
    return r


def emitted(P, d, wants, force, secs=40, traces=8, stop=(), used=None, pred=None, keep=None):
    """-> ([(adt, fields)], err); err None when the function was followed to its ends"""
    got, err = [], None

    def agg(ip, fr, st, ad, v, tid, vals):
        if ad in wants:
            r = (ad, texts(P, ip, st, vals, ad, v))
            if keep is None or keep(r):
                if r not in got:
                    got.append(r)
                if ad in stop:
                    raise absint.Budget("done")
    S = summ.run(P, d, opaque=pred or opaque, agg=agg, secs=secs, traces=traces, prep=prov.forcing(P, force, used))
    err = S.err
    if got and err == "budget: done":
        err = None
    return got, err, S


def answers(P, d, force, secs=30, traces=400, used=None, pred=None, env=None, setup=None):
    """-> ([result texts], err)"""
    err, rows = prov.results(P, d, traces=traces, secs=secs, force=force, used=used, op=pred, env=env, setup=setup, want_conds=True)
    return sorted({prov.flat(r[0]) for r in rows}), err


def paths(P, d, force=None, secs=40, traces=600, pred=None, env=None, used=None, places=()):
    """every way through a function: [(result, conditions, {name: final value of the place})], err
    places: {name: (parameter, field names)} of values behind reference parameters"""
    f = P.fns[d]
    S = summ.run(P, d, opaque=pred or opaque, secs=secs, traces=traces, env=env, prep=prov.forcing(P, force, used) if force else None)
    if S.err:
        return [], S.err
    rows = []
    rt = P.types[f["locals"][0]]
    res = rt.get("def") == "core::result::Result"
    for st, v in S.outs:
        E = summ.Expr(S.ip, st)
        E.typed = True

        def txt(x):
            e = bits.strip(E.value(x))
            E.width = {bits.strip(k): w for k, w in E.width.items()}
            E.signed = {bits.strip(k): w for k, w in E.signed.items()}
            return e
        e = txt(v)
        if res and e[0] == "var" and e[1] == 1:
            continue
        out = {}
        for n, (i, names) in dict(places).items():
            a = S.ip.norm(st, S.args[i])
            if a[0] != "R":
                continue
            val, tid = S.ip.get(st, a[1], a[2]), P.types[f["locals"][1 + i]]["to"]
            for nm in names:
                ad = P.adts.get(P.types[tid].get("def"))
                k = [q["n"] for q in ad["variants"][0]["f"]].index(nm)
                val = S.ip.proj(st, val, k)
                tid = ad["variants"][0]["f"][k]["t"]
            out[n] = prov.canon(txt(val), E, P)
        rows.append((prov.canon(e, E, P, rt["s"]), prov.conds(P, S.ip, st), out))
    return rows, None

