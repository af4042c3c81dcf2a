"""C11: attributes are made of the header fields that define them."""
import json, os, multiprocessing as mp
import facts, prov, cases
from report import Report

ATTR = os.path.join(facts.VERIF, "tables", "attributes.json")
FIELDS = os.path.join(facts.VERIF, "tables", "fields.json")
CASES = os.path.join(facts.VERIF, "tables", "cases.json")
TR = 400
_P = _N = _V = None
_K = set()


def split(key):
    d, *c = key.split("#")
    return d, tuple((int(x.split("=")[0]), x.split("=")[1] == "True") for x in c)


def attr(x):
    key, want = x
    d, c = split(key)
    try:
        err, got = prov.results(_P, d, c)
        ok, why = prov.agree(_P, want, err, got, _N, _V, closure)
        if ok is False and why == "differs" and key in _K and _P.types[_P.fns[d]["locals"][0]]["s"] == "bool":
            # a condition written in another way: its cases are decided one by one
            ok, why = None, "decided by its cases"
    except Exception as e:
        return key, None, repr(e)[:200], []
    return key, ok, why, got


def case(x):
    key, rec = x
    d, c = split(key)
    try:
        return key, cases.decide(_P, d, _P.fns[d], c, rec, _N, _V, closure, traces=TR)
    except Exception as e:
        return key, [({}, None, repr(e)[:200], [])]


_C = {}


def closure(a):
    """with the stored fields that an accessor of that name is made of"""
    out = set(a)
    for n in a:
        out |= _C.get(n, set())
    return out


def build_closure(P, names):
    for d, f in P.fns.items():
        n = f.get("name")
        if not n or not f["file"].startswith("src/") or f["kind"] == "Closure" or not 1 <= f["argc"] <= 3 or f["file"] == "src/read/any.rs":
            continue
        t = P.types[f["impl_self"]] if f.get("impl_self") is not None else None
        ad = P.adts.get(t.get("def")) if t else None
        raw = ad and ad.get("local") and (ad["repr_c"] or ad.get("transparent"))
        if not raw and not (t is None and f["file"].startswith("src/read") and P.types[f["locals"][1]]["k"] == "ref" and P.types[P.types[f["locals"][1]]["to"]]["k"] == "param"):
            continue
        try:
            err, got = prov.results(P, d, secs=2, traces=16)
        except Exception:
            continue
        if not err:
            _C.setdefault(n, set()).update(prov.atoms(got, names))


def prepare(P):
    global _P, _N, _V
    _P = P
    _N = prov.header_names(P)
    _V = prov.vocabulary(P)


GENERIC = {"name", "size", "flags", "kind", "value", "offset", "type", "marker", "symbol", "address", "file", "index"}


def atom(x):
    key, want = x
    d, c = split(key)
    try:
        err, got = prov.results(_P, d, c)
    except Exception as e:
        return key, None, repr(e)[:200]
    if err or not got:
        return key, None, err
    a, b = set(want) - GENERIC, prov.atoms(got, _N) - GENERIC
    if (a - b) and (b - a) and (closure(a) - closure(b)) and (closure(b) - closure(a)):
        return key, False, "made of %s, expected %s" % (sorted(b), sorted(a))
    return key, True, ""


def decide_atoms(R, P, tab):
    tab = [(k, v) for k, v in sorted(tab.items()) if split(k)[0] in P.fns and set(v) - GENERIC]
    with mp.get_context("fork").Pool(8) as p:
        rs = p.map(atom, tab, 4)
    if any(ok is False for _, ok, _ in rs):
        build_closure(P, _N)
        t = dict(tab)
        rs = [atom((k, t[k])) if ok is False else (k, ok, w) for k, ok, w in rs]
    n = 0
    for key, ok, why in rs:
        if ok is None:
            continue
        n += 1
        f = P.fns[split(key)[0]]
        R.oblige(ok, key + "!fields", "%s:%d: %s is %s" % (f["file"], f["line"], key, why))
    return n


def decide(R, P, attrs, cs, what):
    """compare the attributes and the cases; returns (decided, undecided)"""
    prepare(P)
    # names that one function defines in terms of others, only needed for mismatches
    attrs = [(k, v) for k, v in sorted(attrs.items()) if split(k)[0] in P.fns]
    cs = [(k, v) for k, v in sorted(cs.items(), key=lambda x: -len(x[1]["cases"])) if split(x_key(k))[0] in P.fns]
    unk = []
    na = nc = 0
    _K.clear()
    _K.update(k for k, _ in cs)
    with mp.get_context("fork").Pool(8) as p:
        ra = p.map(attr, attrs, 4)
        rc = p.map(case, cs, 1)
    if any(ok is False for _, ok, _, _ in ra) or any(ok is False for _, l in rc for _, ok, _, _ in l):
        # decide the mismatches again, knowing which accessors are made of which fields
        build_closure(P, _N)
        ra = [attr((k, dict(attrs)[k])) if ok is False else (k, ok, w, g) for k, ok, w, g in ra]
        d = dict(cs)
        rc = [case((k, d[k])) if any(ok is False for _, ok, _, _ in l) else (k, l) for k, l in rc]
    for key, ok, why, got in ra:
        d, c = split(key)
        f = P.fns[d]
        if ok is None:
            unk.append("%s: %s" % (key, why))
            continue
        na += 1
        want = dict(attrs)[key]
        R.oblige(ok, key, "%s:%d: %s gives %s, expected %s (%s)" % (f["file"], f["line"], key, [prov.flat(t) for t in got], [prov.flat(t) for t in want], why),
                 sample="%s = %s" % (key, " | ".join(map(prov.flat, want))[:200]))
    d2 = dict(cs)
    for key, l in rc:
        d, c = split(key)
        f = P.fns[d]
        for i, (a, ok, why, got) in enumerate(l):
            if ok is None:
                unk.append("%s with %s: %s" % (key, a, why))
                continue
            nc += 1
            rec = d2[key]["cases"]
            want = rec[i]["then"] if i < len(rec) else None
            R.oblige(ok, "%s with %s" % (key, sorted(a.items())), "%s:%d: %s, when %s, gives %s%s (%s)" % (
                f["file"], f["line"], key, ", ".join("%s = %s" % x for x in sorted(a.items())), [prov.flat(t) for t in got],
                "" if want is None else ", expected %s" % [prov.flat(t) for t in want], why),
                sample=None)
    return na, nc, unk


def x_key(k):
    return k


def run(pid):
    R = Report(pid)
    P = facts.load()
    na, nc, unk = decide(R, P, json.load(open(ATTR)), json.load(open(CASES)), pid)
    nf = decide_atoms(R, P, json.load(open(FIELDS)))
    R.floor("functions whose fields are known", nf, 100)
    R.floor("attributes decided", na, 600)
    R.floor("cases decided", nc, 1400)
    R.assumptions = ["tables/attributes.json and tables/cases.json state which fields define each attribute; they were derived from this source and reviewed against the format specifications",
                     "the raw accessors return their own field (C10)"]
    R.finish("every reading function in the tables is summarised symbolically from MIR and its results are compared, as expressions over stored fields and raw accessors, with the expected ones; functions that decide by stored values are re-run by constant propagation with these values fixed, one case at a time, and with values no case mentions",
             attributes=na, cases=nc, field_sets=nf, undecided=len(unk), undecided_list=unk[:60])
