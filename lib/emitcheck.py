"""Compares what the functions of src/write and src/build emit with the reviewed table (C15, C16, C23)."""
import json, os, re, multiprocessing as mp, time
import cases, emit, facts, prov, summ

TAB = os.path.join(facts.VERIF, "tables", "emitted.json")
_P = _T = _N = _V = _O = None
SECS = 60
STAR = re.compile(r"(?:^|[ (,\[=*])\*")


def opaque_list(P):
    """functions of the writers left opaque: those that change something, and large ones"""
    out = set()
    for d, g in P.fns.items():
        if not emit.is_write(g) or g["kind"] == "Closure":
            continue
        t = [P.types[x] for x in g["locals"][1:1 + g["argc"]]]
        if g["file"] in ("src/write/util.rs", "src/write/string.rs") or len(g["blocks"]) > 12 or any(x["k"] == "ref" and x.get("mut") for x in t):
            out.add(d)
    return sorted(out)


def targets(P):
    seen = {}
    for d, f in sorted(P.fns.items()):
        if emit.is_write(f) and f["kind"] != "Closure" and not f.get("derived"):
            seen.setdefault(prov.fkey(P, f), []).append(d)
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


def names(P):
    """names of the fields of the crate's structures, and the parameters"""
    out = {"p%d" % i for i in range(1, 10)}
    for a in P.adts.values():
        if a.get("local"):
            out |= {q["n"] for v in a["variants"] for q in v["f"] if not q["n"].isdigit()}
    return out - {"data", "base", "len"}


def sig(P, f):
    return [P.types[x]["s"] for x in f["locals"][1:1 + f["argc"]]]


def prepare(P, T):
    global _P, _T, _N, _V, _O
    _P, _T, _N, _V = P, T, names(P), prov.vocabulary(P)
    _O = set(T["opaque"])


def op(g):
    return g["def"].startswith("endian::") or g["def"] in _O


def get(d, force=None, used=None):
    err, g = emit.collect(_P, d, op, force=force, used=used, secs=SECS if len(_P.fns[d]["blocks"]) < 90 else 400)
    g = {k: sorted({emit.starred(x) for x in v}) for k, v in g.items()}
    # a structure built only to be handed on
    passed = {k.rpartition(" ")[2] for k in g if not k.startswith("{}")}
    return err, {k: v for k, v in g.items() if not (k.startswith("{}") and k[3:] in passed)}


def plan(d, f):
    """values to assume, from the conditions of the function's paths"""
    if len(f["blocks"]) > 160:
        return []
    err, rows = prov.results(_P, d, (), op=op, want_conds=True, secs=10)
    if err:
        return []
    lim = {}
    for e in sorted(limits(d).items()):
        lim.setdefault(e[0], set()).update(e[1])
    asg, vals, sent = cases.plan(_P, rows) if len(rows) > 1 else ([], 0, 0)
    out = [{n: v} for n, vs in sorted(lim.items()) for v in sorted(vs)]
    return out[:24] + [a for a in asg[:24] if a not in out]


def limits(d):
    S = summ.run(_P, d, opaque=op, secs=10, traces=64)
    lim = {}
    if not S.err:
        for st, v in S.outs:
            for n, vs in list(prov.bounds(_P, S.ip, st).items()) + list(prov.bools(_P, S.ip, st).items()):
                lim.setdefault(n, set()).update(vs)
    return lim


def mine(x):
    k, d = x
    f = _P.fns[d]
    t0 = time.time()
    err, g = get(d)
    if err:
        return k, None
    rec = {"sig": sig(_P, f), "base": g, "cases": []}
    if time.time() - t0 < 2:
        for a in plan(d, f):
            if time.time() - t0 > 40:
                break
            used = set()
            e, h = get(d, a, used)
            if e or set(a) - used:
                continue
            diff = {q: h.get(q, []) for q in sorted(set(g) | set(h)) if h.get(q) != g.get(q) or len(h.get(q, [])) > 1}
            if any(h.get(q) != g.get(q) for q in diff) and not any(c["then"] == diff and c["if"].items() <= a.items() for c in rec["cases"]):
                rec["cases"].append({"if": a, "then": diff})
    return k, rec


RANGE = re.compile(r"\[(\d+):(\d+)\]")
FULL = re.compile(r"\[0:(?:32|64)\]")


def closing(t, i):
    """end of the bracketed part that begins at i"""
    n = 0
    for j in range(i, len(t)):
        n += (t[j] in "([{") - (t[j] in ")]}")
        if n == 0:
            return j + 1
    return len(t)


def skeleton(t):
    """the text with each path through structures replaced by the field that it ends in"""
    out, i = "", 0
    while i < len(t):
        m = re.match(r"[A-Za-z_][\w:#]*|\d+|\*(?=[.\[)(,\s\]]|$)", t[i:])
        if not m:
            out += t[i]
            i += 1
            continue
        cur, field = m.group(), None
        i += m.end()
        while i < len(t):
            if t[i] == "(":
                j = closing(t, i)
                cur, field = cur + "(" + skeleton(t[i + 1:j - 1]) + ")", None
                i = j
            elif t[i] == "[" and not RANGE.match(t, i):
                i = closing(t, i)
                cur, field = "*", None
            elif t[i] == "." and re.match(r"\w", t[i + 1:i + 2]):
                n = re.match(r"\w+", t[i + 1:]).group()
                i += 1 + len(n)
                if n.isdigit() or re.fullmatch(r"v\d+", n):
                    cur = field or "*"
                else:
                    cur = field = n
            else:
                break
        out += cur
    return FULL.sub("", out)


def reshaped(want, got):
    """is the result the same field, put through something else?"""
    a, b = {skeleton(t) for t in want}, {skeleton(t) for t in got}
    if any("..." in x for x in a | b):
        return None
    for s in b - a:
        ws = prov.words([s])
        if STAR.search(s) or not prov.atoms([s], _N):
            continue
        if any(prov.words([w]) == ws and not STAR.search(w) for w in a) and not any(STAR.search(w) and ws & prov.words([w]) for w in a):
            return s
    return None


def judge(q, want, got):
    if not want or not got:
        return None, "not emitted here"
    ok, why = judge1(q, want, got)
    if ok is None:
        if all(t.isdigit() for t in got) and not any(t.isdigit() for t in want) and any(prov.atoms([t], _N) for t in want):
            return False, "a constant"
        s = reshaped(want, got)
        if s:
            return False, "changed to " + s
    return ok, why


def judge1(q, want, got):
    star = any(STAR.search(t) for t in want + got) or q.startswith("{}")
    ok, why = prov.agree(_P, want, None, got, _N, _V)
    if ok is False and star:
        a, b = prov.atoms(want, _N), prov.atoms(got, _N)
        if not ((a - b) and (b - a)):
            return None, "not reduced"
    return ok, why


def err_only(h):
    """nothing at all: the assumption leaves no way through"""
    return not h


def check(x):
    """[(key, assumption, verdict, why, got, want)] of one function"""
    k, d, keys = x
    rec = _T["fns"][k]
    f = _P.fns[d]
    if sig(_P, f) != rec["sig"]:
        return k, "signature changed", []
    err, g = get(d)
    if err:
        return k, err, []
    out = []
    for q in keys:
        if q in rec["base"] and keys[q] != "presence":
            ok, why = judge(q, rec["base"][q], g.get(q, []))
            out.append((q, None, ok, why, g.get(q, []), rec["base"][q]))
    for c in rec["cases"]:
        ks = [q for q in c["then"] if q in keys]
        # what is emitted unchanged under the assumption
        rest = [q for q in rec["base"] if q in keys and q not in c["then"] and not q.startswith("{}")]
        if not ks and not rest:
            continue
        used = set()
        e, h = get(d, c["if"], used)
        if e or set(c["if"]) - used:
            out.append(("", c["if"], None, e or "does not read it", [], []))
            continue
        for q in rest:
            ok = bool(h.get(q)) or not g.get(q) or err_only(h)
            out.append((q, c["if"], ok, "" if ok else "not emitted then", h.get(q, []), rec["base"][q]))
        for q in ks:
            w, got = c["then"][q], h.get(q, [])
            if bool(w) != bool(got) and g.get(q) and not q.startswith("{}") and q in rec["base"] and not err_only(h):
                ok, why = False, "not emitted then" if w else "emitted all the same"
            elif keys[q] == "presence":
                if not w and not got or w and got:
                    ok, why = True, ""
                else:
                    ok, why = None, "not emitted here"
            else:
                ok, why = judge(q, w, got)
            out.append((q, c["if"], ok, why, h.get(q, []), c["then"][q]))
    return k, None, out


def decide(R, P, choose):
    """choose(function key, function, emission key) -> is this entry decided here?
    "presence": only whether something is emitted at all"""
    T = json.load(open(TAB))
    prepare(P, T)
    now = targets(P)
    jobs = []
    for k, rec in T["fns"].items():
        d = now.get(k)
        if d is None:
            continue
        keys = {q: choose(k, P.fns[d], q) for q in set(rec["base"]) | {q for c in rec["cases"] for q in c["then"]}}
        keys = {q: w for q, w in keys.items() if w}
        if keys:
            jobs.append((k, d, keys))
    jobs.sort(key=lambda j: -len(P.fns[j[1]]["blocks"]))
    with mp.get_context("fork").Pool(8) as p:
        res = p.map(check, jobs, 1)
    n, und = 0, []
    for k, err, l in res:
        if err:
            und.append("%s: %s" % (k, err[-80:]))
            continue
        f = P.fns[now[k]]
        for q, a, ok, why, got, want in l:
            if ok is None:
                und.append("%s %s: %s" % (k, q, why))
                continue
            n += 1
            w = "" if a is None else ", when %s," % ", ".join("%s = %s" % z for z in sorted(a.items()))
            R.oblige(ok, "%s %s%s" % (k, q, "" if a is None else " " + str(sorted(a.items()))),
                     "%s:%d: %s%s gives %s = %s, expected %s (%s)" % (f["file"], f["line"], k, w, q, " | ".join(got)[:300], " | ".join(want)[:300], why),
                     sample="%s %s = %s" % (k, q, " | ".join(want)[:160]))
    return len(jobs), n, und


def build(P):
    T = {"opaque": opaque_list(P), "fns": {}}
    prepare(P, T)
    ts = sorted(targets(P).items(), key=lambda x: -len(P.fns[x[1]]["blocks"]))
    with mp.get_context("fork").Pool(8) as p:
        for k, rec in p.imap_unordered(mine, ts, 1):
            if rec is None:
                print("not followed:", k)
            elif rec["base"]:
                T["fns"][k] = rec
    T["fns"] = dict(sorted(T["fns"].items()))
    return T


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    T = build(facts.load())
    json.dump(T, open(TAB, "w"), indent=0)
    print(len(T["fns"]), sum(len(r["base"]) for r in T["fns"].values()), sum(len(c["then"]) for r in T["fns"].values() for c in r["cases"]))
