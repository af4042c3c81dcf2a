"""Case-split constant propagation: what a function returns when values it reads are fixed.

A case fixes some values (a stored field, a raw accessor's result, an enum argument) by their
canonical text, and records the results that remain.  The cases come from the function's own
path conditions, plus values that no path mentions."""
import json, multiprocessing as mp, time
import facts, prov

CAP = 150
SENT = (0x5a, 0x3c3c, 0x5a5a5a5a, 0x39, 0x2e2e, 0x6b)


def paths(P, d, c, **kw):
    err, rows = prov.results(P, d, c, want_conds=True, **kw)
    return err, rows


def deposit(v, mask):
    """the low bits of v at the places of the mask"""
    r = i = 0
    while mask >> i:
        if mask >> i & 1:
            r |= (v & 1) << i
            v >>= 1
        i += 1
    return r


def fields(rows):
    """{(text, mask): values} of the bit fields that paths compare, {text: width}"""
    vals, width = {}, {}
    for r, (cs, wh) in rows:
        for n, v in cs.items():
            if isinstance(v, tuple):
                m = v[1]
                if n in wh and v[2]:
                    m = (1 << v[2]) - 1
                vals.setdefault((n, m), set()).add(v[0] & m)
                width[n] = v[2]
    return vals, width


def others(vals):
    """values of each bit field that no path mentions: {(text, mask): [values]}"""
    out = {}
    for (n, m), vs in vals.items():
        k = bin(m).count("1")
        if k <= 3:
            out[n, m] = [deposit(v, m) for v in range(1 << k) if deposit(v, m) not in vs]
        else:
            s = next((deposit(x, m) for x in SENT if deposit(x, m) not in vs), None)
            out[n, m] = [s] if s is not None else []
    return out


def plan(P, rows, enums=True):
    """the assignments to try, from the path conditions"""
    isenum = {}
    base = []
    vals, width = fields(rows)
    for r, (cs, wh) in rows:
        a, ones = {}, {}
        for n, v in cs.items():
            if isinstance(v, tuple):
                a[n] = v[0]
                ones[n] = v[0] if n in wh or not v[2] else v[0] | (((1 << v[2]) - 1) & ~v[1])
            else:
                if isinstance(v, str):
                    isenum[n] = v.rpartition("::")[0]
                a[n] = ones[n] = v
        for x in (a, ones):
            if x not in base:
                base.append(x)
    out = []

    def put(a):
        if a and a not in out and len(out) < CAP:
            out.append(a)
    sent = others(vals)
    put({n: s[0] for (n, m), s in sorted(sent.items()) if s})
    for (n, m), ss in sorted(sent.items()):
        for s in ss:
            put({n: s})
    if enums:
        for n, e in sorted(isenum.items()):
            for v in P.adts[e]["variants"]:
                put({n: "%s::%s" % (e, v.get("n"))})
    for a in base:
        put(a)
    for a in base:
        for (n, m), ss in sorted(sent.items()):
            if n in a and isinstance(a[n], int):
                for s in ss[:1]:
                    put(dict(a, **{n: a[n] & ~m | s}))
    return out, vals, sent


def run_case(P, d, c, a, **kw):
    used = set()
    err, got = prov.results(P, d, c, force=a, used=used, **kw)
    return err, got, used


def mine(P, d, f, c, secs=40, **kw):
    t0 = time.time()
    try:
        err, rows = paths(P, d, c, **kw)
    except Exception as x:
        err, rows = repr(x), []
    if err or len(rows) < 2:
        return None
    asg, consts, sent = plan(P, rows)
    cs = []
    for a in asg:
        if time.time() - t0 > secs:
            break
        try:
            err, got, used = run_case(P, d, c, a, **kw)
        except Exception:
            continue
        if err or prov.unclean(got) or len(got) > 6 or sum(len(prov.flat(g)) for g in got) > 900:
            continue
        if set(a) - used:
            continue
        cs.append({"if": a, "then": got})
    if not cs:
        return None
    return {"cases": cs, "known": [[n, m, sorted(vs), sent[n, m][0]] for (n, m), vs in sorted(consts.items()) if sent[n, m] and bin(m).count("1") > 3]}


def drop_redundant(cs):
    """cases that say nothing more than a case with fewer fixed values"""
    out = []
    for i, x in enumerate(cs):
        red = False
        for j, y in enumerate(cs):
            if j != i and y["then"] == x["then"] and len(y["then"]) == 1 and y["if"].items() < x["if"].items():
                red = True
                break
        if not red:
            out.append(x)
    return out


def judge(P, want, err, got, names, voc, closure=None):
    if err:
        return None, err
    if not want and not got:
        return True, ""
    if bool(want) != bool(got):
        if got and prov.unclean(got):
            return None, "not reduced"
        return False, "always fails" if not got else "does not fail"
    return prov.agree(P, want, err, got, names, voc, closure)


def decide(P, d, f, c, rec, names, voc, closure=None, **kw):
    """[(case, verdict, why, got)]"""
    out = []
    unseen = 0
    for x in rec["cases"]:
        a = x["if"]
        err, got, used = run_case(P, d, c, a, **kw)
        ok, why = judge(P, x["then"], err, got, names, voc, closure)
        if ok is False and set(a) - used:
            ok, why = None, "does not read %s" % ", ".join(sorted(set(a) - used))
        out.append((a, ok, why, got))
    if rec["known"]:
        err, rows = paths(P, d, c, **kw)
        if not err:
            now, _ = fields(rows)
            for n, m, vs, s in rec["known"]:
                new = sorted(now.get((n, m), set()) - set(vs) - {s})
                if not new:
                    continue
                e0, g0, _ = run_case(P, d, c, {n: s}, **kw)
                for v in new[:20]:
                    e1, g1, _ = run_case(P, d, c, {n: v}, **kw)
                    ok, why = (None, e0 or e1) if e0 or e1 else judge(P, g0, None, g1, names, voc, closure)
                    out.append(({n: v}, ok, why if ok is not False else "a value that was like any other is treated differently", g1))
    return out
