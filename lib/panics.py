"""Runs the abstract interpreter on every reader entry point and collects obligations."""
import os, sys, time, traceback
import multiprocessing as mp
import facts, absint

IN_READ = ("src/read/", "src/pod.rs", "src/endian.rs")


def in_scope(f):
    return f["file"].startswith(IN_READ)


def is_root(f):
    return bool(f.get("reach")) and f["kind"] != "Closure" and in_scope(f) and not f.get("derived")


_G = {}


def _init(features):
    _G["P"] = facts.load(features)
    _G["ip"] = None


def never_built(P):
    """local types with a private field (or no way to be built) of which no value is ever constructed"""
    built = set()
    def consts(t):
        pass
    for f in list(P.fns.values()) + list(P.cbodies.values()):
        for body in [f] + list(f.get("proms", ())):
            for b in body["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                        built.add(s[2][1][1])
                    elif s[0] == "=" and s[2][0] == "cast":
                        pass
    out = set()
    for d, a in P.adts.items():
        if a["kind"] != "struct" or d in built:
            continue
        fs = a["variants"][0]["f"]
        if not fs or all(x.get("pub") for x in fs):
            continue
        out.add(d)
    # Pod types come from casts of bytes
    for im in P.impls_of.get("pod::Pod", ()):
        t = P.types[im["self"]]
        out.discard(t.get("def"))
    return out


def receiver_types(P, f):
    """ADTs taken by value or reference as arguments"""
    out = []
    for t in f["locals"][1:f["argc"] + 1]:
        x = P.types[t]
        while x["k"] == "ref":
            x = P.types[x["to"]]
        if x["k"] == "adt":
            out.append(x["def"])
    return out


def instantiations(P, T, f):
    """environments that close the sealed format parameters of a generic function"""
    by = {}
    for n, tr in f.get("bounds", ()):
        by.setdefault(n, []).append(tr)
    envs = [{}]
    for n, trs in by.items():
        if "read::private::Sealed" not in trs:
            continue
        loc = [t for t in trs if t in P.impls_of and t.startswith("read::") and t != "read::private::Sealed"]
        if not loc:
            continue
        cand = []
        for im in P.impls_of[loc[0]]:
            cand.append(im["self"])
        envs = [dict(e, **{n: c}) for e in envs for c in cand]
    return envs if envs != [{}] else []


def _attempt(P, f, env, traces, secs, hooks, res, modular=False, mo=4):
    ip = absint.Interp(P)
    ip.finv = _G.get("inv") or {}
    ip.record_collect = lambda g: not is_root(g)
    ip.TRACES = traces
    ip.MO = mo
    if modular:
        more = _G.get("opaque")
        ip.opaque_pred = lambda _ip, g, fr: is_root(g) or more is not None and more(g)
    ip.t_end = time.time() + secs
    if hooks:
        hooks(ip, res)
    err = None
    try:
        ip.analyse(f, env)
    except absint.Budget as e:
        err = "budget: %s" % e
    except RecursionError:
        err = "recursion"
    except Exception:
        err = traceback.format_exc()[-700:]
    ev = {}
    for e in ip.events:
        if not e[5]:
            continue
        k = (e[0], e[1], e[2])
        o = ev.get(k)
        if o is None or (o[0] and not e[3]):
            ev[k] = (e[3], e[4], e[6])
    res["lost"] = dict(ip.lost)
    res["steps"] = res.get("steps", 0) + ip.steps
    res["inl"] = max(len(ip.inlined), res.get("inl", 0))
    return ev, err


def _better(res, ev, err):
    """combine with another complete analysis of the same function: a site proved by either is proved"""
    if err is not None:
        return
    if res["err"] is not None:
        res["events"], res["err"] = ev, None
        return
    for k in list(res["events"]):
        o = res["events"][k]
        if not o[0]:
            n = ev.get(k)
            if n is None:
                res["events"][k] = (True, "unreachable", o[2])
            elif n[0]:
                res["events"][k] = n


def _run_one(d, secs, hooks):
    P = _G["P"]
    f = P.fns[d]
    res = {"def": d, "events": {}, "err": None, "tier": 1}
    t0 = time.time()
    # every public function is analysed on its own for all arguments, so a public callee may be opaque here
    ev, err = _attempt(P, f, {}, 1, secs, hooks, res, True)
    res["tier"] = 0
    res["events"], res["err"] = ev, err
    if _G.get("only"):
        # other obligations are not decided in this run
        kinds = _G["only"]

        def done():
            return res["err"] is None and all(v[0] for k, v in res["events"].items() if k[2] in kinds)
        if not done():
            _better(res, *_attempt(P, f, {}, 40, secs, hooks, res, True))
            res["tier"] = 1
        if not done():
            _better(res, *_attempt(P, f, {}, 40, secs, hooks, res))
            res["tier"] = 2
        if not done():
            _better(res, *_attempt(P, f, {}, 1, secs, hooks, res))
            res["tier"] = 3
        if not done():
            _better(res, *_attempt(P, f, {}, 120, secs, hooks, res, True, mo=80))
            res["tier"] = 4
        if not done():
            _better(res, *_attempt(P, f, {}, 120, secs, hooks, res, mo=80))
            res["tier"] = 5
        res["time"] = time.time() - t0
        return res

    def done():
        return res["err"] is None and all(v[0] for v in res["events"].values())
    if not done():
        res["tier"] = 1
        _better(res, *_attempt(P, f, {}, 1, secs, hooks, res))
    if not done():
        res["tier"] = 2
        _better(res, *_attempt(P, f, {}, 4, secs, hooks, res))
    if not done():
        T = _G.setdefault("T", absint.Types(P))
        envs = instantiations(P, T, f)
        if envs:
            res["tier"] = 3
            tot, terr = {}, None
            for env in envs:
                sub = {"events": {}, "err": None}
                ev, err = _attempt(P, f, env, 1, secs, hooks, res)
                sub["events"], sub["err"] = ev, err
                if err is not None or not all(v[0] for v in ev.values()):
                    _better(sub, *_attempt(P, f, env, 4, secs, hooks, res))
                if sub["err"]:
                    terr = sub["err"]
                for k, v in sub["events"].items():
                    o = tot.get(k)
                    if o is None or (o[0] and not v[0]):
                        tot[k] = v
            _better(res, tot, terr)
    res["time"] = time.time() - t0
    return res


def _work(a):
    return _run_one(*a)


def run(features="unstable-all", secs=20, procs=8, roots=None, hooks=None, P=None, inv=None, only=None, opaque=None):
    if P is None:
        P = facts.load(features)
    _G["P"] = P
    if inv is None:
        import finv
        inv = finv.infer(P, rounds=1)
    _G["inv"] = inv
    _G["only"] = only
    _G["opaque"] = opaque
    nb = never_built(P)
    rs = roots or [d for d, f in P.fns.items() if is_root(f) and not any(x in nb for x in receiver_types(P, f))]
    rs = sorted(rs, key=lambda d: -len(P.fns[d]["blocks"]))
    with mp.get_context("fork").Pool(procs) as pool:
        out = list(pool.imap_unordered(_work, [(d, secs, hooks) for d in rs], chunksize=1))
    return P, out


if __name__ == "__main__":
    t = time.time()
    P, out = run()
    print("roots", len(out), "time", time.time() - t)
    import pickle
    pickle.dump(out, open("/tmp/panics.pkl", "wb"))
