"""Inference of private-field invariants (intervals of integers and of slice lengths).

A field qualifies when nothing outside the crate can construct or assign it and no `&mut` to it is
ever taken, so that every value it can hold is stored by a MIR aggregate or assignment of this crate.
The bounds at all those sites are joined; the result is fed back for a further (descending) round."""
import os, sys, time
import multiprocessing as mp
import facts, absint, panics

IMAX = (1 << 63) - 1


def owner(P, f, place):
    """(adt, variant, field) the last projection of a place selects, and the list of all such on the way after the last deref"""
    out = []
    if len(place) == 1:
        return out
    tid = f["locals"][place[0]]
    var = None
    for e in place[1]:
        t = P.types[tid] if tid is not None else None
        if e == "*":
            out = []
            tid = t.get("to") if t and t["k"] in ("ref", "ptr") else (t["args"][0] if t and t["k"] == "adt" and t["def"] == "alloc::boxed::Box" else None)
            var = None
        elif e[0] == "d":
            var = e[1]
        elif e[0] == "f":
            nt = None
            if t and t["k"] == "adt":
                a = P.adts.get(t["def"])
                if a:
                    out.append((t["def"], var or 0, e[1]))
                    try:
                        nt = a["variants"][var or 0]["f"][e[1]]["t"]
                    except IndexError:
                        nt = None
                    nt = _subst(P, a, t, nt)
            elif t and t["k"] == "tuple":
                nt = t["of"][e[1]]
            elif t and t["k"] == "closure":
                nt = t["up"][e[1]]
            else:
                out = []
            tid = nt
            var = None
        else:
            out = []
            tid = t.get("of") if t and t["k"] in ("array", "slice") else None
            var = None
    return out


def _subst(P, a, t, nt):
    # only the shape (which ADT) matters here; generic arguments that are ADTs are resolved by name
    if nt is None:
        return None
    x = P.types[nt]
    if x["k"] == "param" and a["generics"]:
        if x["name"] in a["generics"]:
            i = a["generics"].index(x["name"])
            args = t.get("args", [])
            if i < len(args) and isinstance(args[i], int):
                return args[i]
    return nt


def candidates(P):
    c = {}
    pods = set()
    for im in P.impls_of.get("pod::Pod", ()):
        pods.add(P.types[im["self"]].get("def"))
    for d, a in P.adts.items():
        if not a.get("local") or d in pods or not a["file"].startswith("src/read/"):
            continue
        vs = a["variants"]
        if a["kind"] == "struct":
            if all(x.get("pub") for x in vs[0]["f"]):
                if a.get("reach"):
                    continue
        elif a.get("reach") or a["kind"] != "enum":
            continue
        for vi, v in enumerate(vs):
            for i, x in enumerate(v["f"]):
                if a["kind"] == "struct" and x.get("pub") and a.get("reach"):
                    continue
                t = P.types[x["t"]]
                if t["k"] in ("uint", "int"):
                    c[(d, vi, i)] = "int"
                elif t["k"] == "ref" and P.types[t["to"]]["k"] in ("slice", "str"):
                    c[(d, vi, i)] = "len"
                elif t["k"] == "adt" and t["def"] == "alloc::vec::Vec":
                    c[(d, vi, i)] = "len"
    # no `&mut` to the field; no construction by copying from raw memory
    sites = {}
    for f in P.fns.values():
        for bi, b in enumerate(f["blocks"]):
            for si, s in enumerate(b["s"]):
                if s[0] != "=":
                    continue
                r = s[2]
                if (r[0] == "ref" and len(r) > 1 and r[1] in ("mut", True)) or r[0] == "rawptr":
                    for o in owner(P, f, r[2]):
                        if c.get(o):
                            del c[o]
                if r[0] == "agg" and r[1][0] == "adt":
                    for i in range(len(r[2])):
                        k = (r[1][1], r[1][2], i)
                        if k in c:
                            sites.setdefault(k, []).append((f["def"], bi, si))
                o = owner(P, f, s[1])
                if o and o[-1] in c:
                    sites.setdefault(o[-1], []).append((f["def"], bi, si))
            t = b["t"]
            if t["k"] == "call":
                o = owner(P, f, t["d"])
                if o and o[-1] in c:
                    sites.setdefault(o[-1], []).append((f["def"], bi, -1))
    sites = {k: v for k, v in sites.items() if k in c}
    return c, sites



def pairs(c, sites):
    """pairs of qualifying fields of one struct that are only ever stored together, by an aggregate"""
    agg = {}
    for k, l in sites.items():
        if all(x[2] is not None and x[1] >= 0 for x in l):
            agg.setdefault((k[0], k[1]), {})[k[2]] = frozenset(l)
    out = set()
    for g, m in agg.items():
        fs = sorted(m)
        if len(fs) > 8:
            continue
        for i, a in enumerate(fs):
            for b in fs[i + 1:]:
                if m[a] == m[b]:
                    out.add((g[0], g[1], a, b))
    return out


def linof(ip, st, v):
    v = ip.norm(st, v)
    if v[0] == "I":
        return v[1]
    if v[0] == "L":
        return v[3]
    if v[0] == "V":
        return v[2]
    return None


def roots_for(P, sites, cg_callers):
    """functions to analyse so that every site runs in the contexts that reach it"""
    need = {}
    for k, l in sites.items():
        for d, b, i in l:
            need.setdefault(d, set()).add(k)
    roots, seen = {}, {}
    for d, ks in need.items():
        work, vis = [d], {d}
        while work:
            x = work.pop()
            f = P.fns[x]
            if panics.is_root(f) or f.get("derived"):
                roots.setdefault(x, set()).update(ks)
                continue
            cs = cg_callers.get(x, ())
            for c in cs:
                if c not in vis:
                    vis.add(c)
                    work.append(c)
    return roots


def callers(P):
    out = {}
    for d, f in P.fns.items():
        par = d.split("::{closure")[0] if f["kind"] == "Closure" else None
        if par and par in P.fns:
            out.setdefault(d, set()).add(par)
        for b in f["blocks"]:
            t = b["t"]
            if t["k"] == "call":
                fn = facts.callee(t)
                if fn:
                    for x in (fn.get("res"), fn["def"]):
                        if x and x in P.fns:
                            out.setdefault(x, set()).add(d)
            for s in b["s"]:
                if s[0] == "=":
                    _fnrefs(s[2], d, P, out)
            for o in t.get("a", ()):
                _fnrefs(o, d, P, out)
    return out


def _fnrefs(o, d, P, out):
    if isinstance(o, dict):
        fn = o.get("fn")
        if isinstance(fn, dict):
            for x in (fn.get("res"), fn.get("def")):
                if x and x in P.fns:
                    out.setdefault(x, set()).add(d)
        return
    if isinstance(o, (list, tuple)):
        for x in o:
            _fnrefs(x, d, P, out)


BOT = ("bot", "bot")


def same(ip, st, key, v):
    """is the stored value that very field of an existing value (a copy)?"""
    v = ip.norm(st, v)
    l = v[1] if v[0] == "I" else v[3] if v[0] == "L" else v[2] if v[0] == "V" else None
    if l is None or l[0] != 0 or len(l[1]) != 1 or l[1][0][1] != 1:
        return False
    t = l[1][0][0]
    op = ip.TM.ops[t]
    if v[0] != "I":
        if op[0] != "len":
            return False
        t = int(op[1])
    return ip.fkey.get(t) == key


def bounds(ip, st, v):
    v = ip.norm(st, v)
    if v[0] == "I":
        l = v[1]
    elif v[0] == "L":
        l = v[3]
    elif v[0] == "V":
        l = v[2]
    elif v[0] == "A":
        l = (len(v[2]), ())
    elif v[0] == "R":
        n = ip.arrlen(ip.get(st, v[1], v[2]))
        if n is None:
            return None
        l = (n, ())
    else:
        return None
    import dom
    h = ip.D.ub(st, l)
    g = ip.D.ub(st, dom.lscale(l, -1))
    return (None if g is None else -g, h)


_G = {}


def _work(a):
    d, secs = a
    P, inv, sitekeys = _G["P"], _G["inv"], _G["sites"]
    f = P.fns[d]
    best = pbest = None
    for tr in (1, 3):
        ip = absint.Interp(P)
        ip.finv = inv
        ip.TRACES = tr
        ip.t_end = time.time() + secs
        got = {}

        def hook(fr, st, key, v):
            if same(ip, st, key, v):
                got.setdefault(key, BOT)
                return
            b = bounds(ip, st, v)
            o = got.get(key)
            n = b or (None, None)
            if o is None or o == BOT:
                got[key] = n
            else:
                got[key] = (None if o[0] is None or n[0] is None else min(o[0], n[0]), None if o[1] is None or n[1] is None else max(o[1], n[1]))
        ip.inv_hook = hook
        pgot = {}

        def phook(fr, st, adt, var, vals):
            import dom
            for a, b in _G["pairs"].get((adt, var), ()):
                if same(ip, st, (adt, var, a), vals[a]) and same(ip, st, (adt, var, b), vals[b]):
                    continue
                la, lb = linof(ip, st, vals[a]), linof(ip, st, vals[b])
                for sa, sb in ((1, 1), (1, -1), (-1, 1)):
                    k = (adt, var, a, b, sa, sb)
                    u = None
                    if la is not None and lb is not None:
                        u = ip.D.ub(st, dom.ladd(dom.lscale(la, sa), dom.lscale(lb, sb)))
                    o = pgot.get(k, "none")
                    pgot[k] = u if o == "none" else None if o is None or u is None else max(o, u)
        ip.inv_agg = phook
        ip.inv_owner = _G["owners"]
        try:
            ip.analyse(f)
        except (absint.Budget, RecursionError):
            continue
        except Exception:
            continue
        if pbest is None:
            pbest = dict(pgot)
        else:
            for k in pbest:
                o, n = pbest[k], pgot.get(k)
                pbest[k] = n if o is None else o if n is None else min(o, n)
        if best is None:
            best = got
        else:
            for k in best:
                if k in got and BOT not in (got[k], best[k]):
                    o, n = best[k], got[k]
                    best[k] = (n[0] if o[0] is None else (o[0] if n[0] is None else max(o[0], n[0])), n[1] if o[1] is None else (o[1] if n[1] is None else min(o[1], n[1])))
        if all(x == BOT or x[1] is not None and x[1] < (1 << 62) for x in got.values()):
            break
    return d, (None if best is None else (best, pbest))


def owners(P, c):
    """(fn, block, stmt) -> key, for assignments"""
    out = {}
    for f in P.fns.values():
        for bi, b in enumerate(f["blocks"]):
            for si, s in enumerate(b["s"]):
                if s[0] == "=" and len(s[1]) > 1:
                    o = owner(P, f, s[1])
                    if o and o[-1] in c:
                        out[(f["def"], bi, si)] = o[-1]
            t = b["t"]
            if t["k"] == "call" and len(t["d"]) > 1:
                o = owner(P, f, t["d"])
                if o and o[-1] in c:
                    out[(f["def"], bi, -1)] = o[-1]
    return out


def infer(P, secs=10, procs=8, rounds=2, log=None):
    c, sites = candidates(P)
    cg = callers(P)
    _G["P"], _G["sites"], _G["owners"], _G["inv"] = P, sites, owners(P, c), {}
    _G["pairs"] = {}
    for x in pairs(c, sites):
        _G["pairs"].setdefault(x[:2], []).append(x[2:])
    T = absint.Types(P)
    top = {}
    for k in c:
        if c[k] == "int":
            top[k] = T.int_range(P.adts[k[0]]["variants"][k[1]]["f"][k[2]]["t"])
        else:
            top[k] = (0, IMAX)
    inv = {}
    act = {k: v for k, v in sites.items()}
    for r in range(rounds):
        roots = roots_for(P, act, cg)
        rs = sorted(roots, key=lambda d: -len(P.fns[d]["blocks"]))
        with mp.get_context("fork").Pool(procs) as pool:
            res = dict(pool.imap_unordered(_work, [(d, secs) for d in rs], chunksize=1))
        new = {}
        for k in act:
            lo, hi = None, None
            okay = True
            seen = False
            for d, ks in roots.items():
                if k not in ks:
                    continue
                g = res.get(d)
                if g is None:
                    okay = False
                    break
                g = g[0]
                if k not in g:
                    continue
                if g[k] == BOT:
                    continue
                seen = True
                a, b = g[k]
                a = top[k][0] if a is None else max(a, top[k][0])
                b = top[k][1] if b is None else min(b, top[k][1])
                lo = a if lo is None else min(lo, a)
                hi = b if hi is None else max(hi, b)
            if okay and seen and (lo > top[k][0] or hi < top[k][1]):
                new[k] = (lo, hi)
        # pairs
        for (adt, var), ps in _G["pairs"].items():
            for a, b in ps:
                rr = [d for d in roots if (adt, var, a) in roots[d]]
                for sa, sb in ((1, 1), (1, -1), (-1, 1)):
                    k = (adt, var, a, b, sa, sb)
                    hi = None
                    for d in rr:
                        g = res.get(d)
                        if g is None:
                            hi = None
                            break
                        if k in g[1]:
                            u = g[1][k]
                            if u is None:
                                hi = None
                                break
                            hi = u if hi is None else max(hi, u)
                    if hi is None:
                        continue
                    ia, ib = new.get((adt, var, a), top[(adt, var, a)]), new.get((adt, var, b), top[(adt, var, b)])
                    triv = (ia[1] if sa > 0 else -ia[0]) + (ib[1] if sb > 0 else -ib[0])
                    if hi < triv:
                        new.setdefault((adt, var), []).append((a, b, sa, sb, hi))
        for k, x in inv.items():
            if k not in new:
                new[k] = x
            elif len(k) == 3:
                new[k] = (max(x[0], new[k][0]), min(x[1], new[k][1]))
        inv = new
        _G["inv"] = inv
        if log is not None:
            log.append((len(rs), len(new)))
        # what is still unbounded may follow from the bounds just found
        act = {k: v for k, v in sites.items() if inv.get(k, top[k])[1] >= (1 << 40)}
    return inv


if __name__ == "__main__":
    P = facts.load()
    t = time.time()
    lg = []
    inv = infer(P, log=lg, rounds=int(sys.argv[1]) if len(sys.argv) > 1 else 2)
    print(lg, time.time() - t)
    for k in sorted(inv, key=str):
        if len(k) == 2:
            print(k, inv[k])
            continue
        a = P.adts[k[0]]
        print(k[0], a["variants"][k[1]]["f"][k[2]]["n"], inv[k])
    import pickle
    pickle.dump(inv, open("/tmp/inv.pkl", "wb"))
