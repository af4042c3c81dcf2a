"""C05: casting file bytes to structures is sound for safe callers."""
import re
import facts, absint, layout
from dom import lc, lsub, lscale
from facts import callee
from report import Report

OK_UNSAFE_CALL = ("core::slice::from_raw_parts", "core::slice::from_raw_parts_mut", "core::fmt::Arguments")
MAP_OK = {"entry", "into_mut", "insert", "or_insert", "or_insert_with", "or_default", "new", "default", "get", "contains_key", "fmt", "key", "len", "is_empty",
          "with_hasher", "into_key", "from", "deref", "as_ref", "borrow", "as_deref", "iter", "keys", "values"}


def peel(ip, t):
    """the pointer term a cast chain starts from"""
    for _ in range(12):
        op = ip.TM.ops[t]
        if op[0] == "ptr":
            return t
        if op[0] == "pcast":
            nxt = [x for x in op[1:] if isinstance(x, absint.TRef)]
            if len(nxt) == 1:
                t = int(nxt[0])
                continue
        if op[0] == "call":
            name = str(op[1])
            if re.search(r"::(cast|cast_mut|cast_const|as_ptr|as_mut_ptr)$", name):
                nxt = [x for x in op[1:] if isinstance(x, absint.TRef)]
                if len(nxt) == 1:
                    t = int(nxt[0])
                    continue
        return None
    return None


class Proof:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.L = layout.Layout(P)
        self.podt = set()
        for im in P.impls_of.get("pod::Pod", ()):
            self.podt.add(im["self"])
        self.pod_adts = {P.types[i].get("def") for i in self.podt}
        self.pod_prims = {P.types[i]["s"] for i in self.podt}

    def is_pod(self, ip, tid, bounds):
        T = ip.T.T[tid]
        if T["k"] in ("int", "uint"):
            return T["s"] in self.pod_prims or T["s"] in ("i8", "i16", "i32", "i64")
        if T["k"] == "param":
            return (T["name"], "pod::Pod") in bounds
        if T["k"] == "array":
            return self.is_pod(ip, T["of"], bounds)
        if T["k"] == "adt":
            return T["def"] in self.pod_adts
        return False

    def size(self, ip, tid):
        s = ip.T.layout(tid)
        if s is not None:
            return lc(s[0])
        t = ip.mk("sizeof", ip.T.T[tid]["s"])
        ip.TM.mk(ip.TM.ops[t], (0, absint.IMAX))
        return absint.lt(t)

    def aligned(self, ip, st, pt, elem, tid):
        if tid == elem:
            return True
        ly = ip.T.layout(tid)
        if ly is not None and ly[1] == 1:
            return True
        name = ip.T.T[tid]["s"]
        for i, op in enumerate(ip.TM.ops):
            if op[0] == "rem" and len(op) >= 3:
                terms = [x[2][0][0] for x in op[1:3] if isinstance(x, tuple) and x[0] == "lin" and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1]
                if len(terms) == 2 and self.addr_of(ip, int(terms[0])) == pt and self.is_alignof(ip, int(terms[1]), name):
                    if ip.D.le(st, absint.lt(i)):
                        return True
            if op[0] == "call" and re.search(r"::align_offset$", str(op[1])):
                terms = [x for x in op[1:] if isinstance(x, absint.TRef)]
                if terms and peel(ip, int(terms[0])) == pt and ip.D.le(st, absint.lt(i)):
                    return True
        return False

    def addr_of(self, ip, t):
        return peel(ip, t)

    def is_alignof(self, ip, t, name):
        return ip.TM.ops[t] == ("alignof", name)

    def check(self, d, env=None):
        """(number of unsafe operations proved, list of failures)"""
        P = self.P
        f = P.fns[d]
        ip = absint.Interp(P)
        ip.TRACES = 4
        fails, done = [], []

        def need(fr, st, v, count, tid, how, mut):
            where = "%s:%s" % (f["file"], d)
            bounds = {tuple(b) for b in f.get("bounds", ())}
            t = v[1] if v[0] == "U" else None
            if v[0] == "R" and not v[2] and v[1][0] == "M" and ip.TM.ops[v[1][1]][0] == "deref":
                t = int(ip.TM.ops[v[1][1]][1])
            pt = peel(ip, t) if t is not None else None
            org = ip.ptr_org.get(pt) if pt is not None else None
            if org is None:
                fails.append("%s: cannot relate the pointer to a slice it was taken from" % how)
                return
            (_, _, _, n, elem), m = org
            if mut and not m:
                fails.append("%s: a shared slice is turned into a mutable one" % how)
            have = ip.mul(n, self.size(ip, elem))
            req = ip.mul(count, self.size(ip, tid))
            if len(req[1]) == 1 and req[0] == 0 and req[1][0][1] == 1:
                w = ip.TM.ops[req[1][0][0]]
                # the byte length of a slice always fits, so wrapping cannot happen
                if w[0] == "wrap" and w[-1] == absint.lkey(have):
                    req = have
            if req != have and not ip.D.le(st, lsub(req, have)):
                fails.append("%s: %s bytes are accessed through %s, but only %s bytes are known to be there" % (how, ip.show_lin(req), ip.T.T[tid]["s"], ip.show_lin(have)))
            if not self.aligned(ip, st, pt, elem, tid):
                fails.append("%s: the pointer is not known to be aligned for %s" % (how, ip.T.T[tid]["s"]))
            for t in (tid, elem):
                if tid != elem and not self.is_pod(ip, t, bounds):
                    fails.append("%s: %s is not known to be Pod" % (how, ip.T.T[t]["s"]))
            done.append(how)

        def deref(fr, st, v):
            T = ip.T.T[v[2]]
            need(fr, st, v, lc(1), T["to"], "dereference of %s" % T["s"], T["mut"])

        def raw(c, st, how):
            n = absint_lin(ip, st, c.args[1])
            e = ip.T.T[ip.T.T[c.dt]["to"]]["of"]
            if n is None:
                fails.append("%s: unknown length" % how)
                return
            # the byte length of a slice always fits, so wrapping at this multiplication is impossible
            need(c.fr, st, ip.norm(st, c.args[0]), n, e, c.d.split("::")[-1], "mut" in c.d)
        ip.deref_hook, ip.unsafe_hook = deref, raw
        ip.analyse(f, env or {})
        return len(done), sorted(set(fails))


def absint_lin(ip, st, v):
    return ip.asint(st, ip.norm(st, v))


def map_types(P):
    """types of the caches whose entries are handed out with an extended lifetime"""
    maps, entry = set(), set()
    for i, t in enumerate(P.types):
        if t["k"] != "adt":
            continue
        if re.search(r"Hash(Map|Set)$|BTreeMap$|Vec$", t["def"]) is None and "Entry" not in t["def"]:
            continue
        if "Entry" in t["def"]:
            entry.add(i)
    return maps, entry


def strip(P, t):
    T = P.types[t]
    while T["k"] in ("ref", "ptr"):
        t = T["to"]
        T = P.types[t]
    return t


def extended(P, R):
    """lifetime extension: only of boxed bytes that live in an append-only map of the cache"""
    n = 0
    callers = {}
    for f in P.fns.values():
        for b in f["blocks"]:
            if b["t"]["k"] == "call":
                c = callee(b["t"])
                if c:
                    callers.setdefault(c.get("res", c["def"]), []).append((f, b["t"]))
    storage = set()

    def origins(f, local, seen, depth=0):
        """call results, parameters a local is copied or reborrowed from"""
        if (f["def"], local) in seen or depth > 6:
            return
        seen.add((f["def"], local))
        if 1 <= local <= f["argc"]:
            cs = callers.get(f["def"], [])
            if not cs or f.get("reach"):
                yield ("param", f, local)
            for g, t in cs:
                o = t["a"][local - 1]
                if o[0] in ("c", "m"):
                    yield from origins(g, o[1][0], seen, depth + 1)
                else:
                    yield ("const", g, None)
            return
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == local:
                    rv = s[2]
                    if rv[0] == "use" and rv[1][0] in ("c", "m"):
                        yield from origins(f, rv[1][1][0], seen, depth)
                    elif rv[0] == "ref" or rv[0] == "rawptr":
                        yield from origins(f, rv[2][0], seen, depth)
                    elif rv[0] == "cast" and rv[2][0] in ("c", "m"):
                        yield from origins(f, rv[2][1][0], seen, depth)
                    else:
                        yield ("other", f, rv[0])
            t = b["t"]
            if t["k"] == "call" and t["d"][0] == local:
                c = callee(t)
                nm = (c or {}).get("name") or (c["def"].split("::")[-1] if c else "?")
                if c and nm in ("deref", "as_ref", "as_slice", "borrow", "into_mut", "insert", "or_insert", "or_insert_with", "get", "unwrap"):
                    a0 = t["a"][0]
                    ty = None
                    if a0[0] in ("c", "m"):
                        ty = strip(P, f["locals"][a0[1][0]])
                    dd = P.types[ty].get("def", "") if ty is not None else ""
                    if "Entry" in dd or "HashMap" in dd or "BTreeMap" in dd:
                        yield ("map", f, ty)
                        continue
                    if a0[0] in ("c", "m"):
                        yield from origins(f, a0[1][0], seen, depth)
                        continue
                yield ("call", f, c["def"] if c else "?")
    for f in P.fns.values():
        if "ublocks" not in f:
            continue
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=" or s[2][0] != "cast" or not s[2][1].startswith("Transmute"):
                    continue
                o = s[2][2]
                if s[3] not in f["ublocks"] and not any(abs(s[3] - l) <= 6 and s[3] >= l for l in f["ublocks"]):
                    continue   # compiler-generated Box access
                to = P.types[s[2][3]]
                frm = P.types[f["locals"][o[1][0]]] if o[0] in ("c", "m") and len(o[1]) == 1 else None
                if frm is not None and frm["k"] == "adt":
                    continue       # Box internals
                n += 1
                key = "transmute:%s" % f["def"]
                where = "%s:%d in %s" % (f["file"], s[3], f["def"])
                if not (to["k"] == "ref" and not to["mut"] and P.types[to["to"]]["k"] == "slice" and P.types[P.types[to["to"]]["of"]]["s"] == "u8" and frm is not None and frm["k"] == "ref" and frm["to"] == to["to"]):
                    R.oblige(False, key, "%s: transmute is not a lifetime extension of &[u8]" % where)
                    continue
                og = list(origins(f, o[1][0], set()))
                bad = [x for x in og if x[0] != "map"]
                R.oblige(bool(og) and not bad, key, "%s: the lifetime of bytes is extended which do not come from the cache's append-only map (%s)" % (where, ", ".join("%s %s" % (x[0], x[2]) for x in bad) or "no origin"), sample="%s: extends bytes owned by %s" % (where, sorted({P.types[x[2]]["s"] for x in og if x[0] == "map"})))
                for x in og:
                    if x[0] == "map":
                        storage.add(x[2])
    # the storage itself: heap bytes, never removed, replaced or mutated
    vals = set()
    for t in storage:
        T = P.types[t]
        a = [x if isinstance(x, int) else x.get("t") for x in T["args"]]
        a = [x for x in a if x is not None]
        v = a[1] if len(a) > 1 else a[-1]
        vals.add(v)
        V = P.types[v]
        R.oblige(V["k"] == "adt" and (V["def"].endswith("Box") or V["def"].endswith("Arc") or V["def"].endswith("Rc")), "storage:" + T["s"], "cached bytes are stored as %s, whose memory moves or may be reallocated" % V["s"])
    keyed = {i for i, t in enumerate(P.types) if t["k"] == "adt" and ("Hash" in t["def"] or "BTree" in t["def"] or "Entry" in t["def"]) and any((x if isinstance(x, int) else x.get("t")) in vals for x in t["args"])}
    nops = 0
    for f in P.fns.values():
        loc = [strip(P, t) for t in f["locals"]]
        has = [i for i, t in enumerate(loc) if t in keyed]
        inside = f["file"].endswith("read_cache.rs")
        if not has and not inside:
            continue
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                pl = s[1]
                # overwriting the map or an entry through a reference
                if len(pl) > 1 and pl[1] and pl[1][-1] != "*":
                    if pl[2] in keyed and "*" in pl[1]:
                        R.oblige(False, "overwrite:" + f["def"], "%s:%d in %s: a cache map is overwritten while bytes borrowed from it may be live" % (f["file"], s[3], f["def"]))
                bt = P.types[f["locals"][pl[0]]]
                if len(pl) > 1 and pl[1] and pl[1][0] == "*" and bt["k"] == "ref" and bt["mut"] and bt["to"] in vals:
                    R.oblige(False, "mutate:" + f["def"], "%s:%d in %s: a cached entry is overwritten" % (f["file"], s[3], f["def"]))
                rv = s[2]
                if rv[0] == "ref" and rv[1]:
                    q = rv[2]
                    qt = P.types[f["locals"][q[0]]]
                    if len(q) > 1 and len(q[1]) > 1 and q[1][0] == "*" and qt["k"] == "ref" and qt["mut"] and qt["to"] in vals:
                        R.oblige(False, "mutate:" + f["def"], "%s:%d in %s: a cached entry is borrowed mutably" % (f["file"], s[3], f["def"]))
            t = b["t"]
            if t["k"] == "call":
                c = callee(t)
                if c is None:
                    continue
                tys = []
                for o in t["a"]:
                    if o[0] in ("c", "m") and (len(o[1]) == 1):
                        tys.append(f["locals"][o[1][0]])
                if any(strip(P, x) in keyed for x in tys):
                    nops += 1
                    tgt = c.get("res", c["def"])
                    nm = c.get("name") or c["def"].split("::")[-1]
                    if tgt in P.fns:
                        continue
                    self_t = P.types[strip(P, tys[0])].get("def", "") if tys else ""
                    excl = f["argc"] >= 1 and (P.types[f["locals"][1]]["k"] != "ref" or P.types[f["locals"][1]]["mut"]) and "ReadCacheInternal" not in P.ts(f["locals"][1])
                    if excl and "ReadCache" in P.ts(f["locals"][1]):
                        continue      # exclusive access: nothing borrowed from the cache is alive
                    good = nm in MAP_OK and not (nm == "insert" and not self_t.endswith("VacantEntry")) and not (nm == "insert" and "Map" in self_t)
                    R.oblige(good, "mapop:%s:%s" % (f["def"], nm), "%s:%d in %s: %s on the cache map can remove, replace or expose entries that are still borrowed" % (f["file"], t["l"], f["def"], c["def"]))
    return n, nops


def run(pid):
    R = Report(pid, "other")
    P = facts.load()
    pr = Proof(P, R)
    # 1. where unsafe code is
    proved = 0
    nblocks = 0
    users = [f for f in P.fns.values() if f.get("ublocks")]
    callers = {}
    for f in P.fns.values():
        for b in f["blocks"]:
            if b["t"]["k"] == "call":
                c = callee(b["t"])
                if c:
                    callers.setdefault(c.get("res", c["def"]), set()).add(f["def"])

    def judge(d, depth=0):
        f = P.fns[d]
        n, bad = pr.check(d)
        if bad and not f.get("reach") and callers.get(d) and depth < 3 and f["kind"] != "Closure":
            n2, bad2 = 0, []
            for c in sorted(callers[d]):
                a, b = judge(c, depth + 1)
                n2 += a
                bad2 += b
            if n2:
                return n2, bad2
        return n, bad
    for f in users:
        nblocks += len(f["ublocks"])
        where = "%s:%d in %s" % (f["file"], f["ublocks"][0], f["def"])
        kinds = set()
        for b in f["blocks"]:
            t = b["t"]
            if t["k"] == "call":
                c = callee(t)
                if c and c.get("unsafe"):
                    tgt = c.get("res", c["def"])
                    if tgt in P.fns or c["def"].startswith(OK_UNSAFE_CALL):
                        if not c["def"].startswith("core::fmt"):
                            kinds.add("raw")
                    else:
                        R.oblige(False, "unsafe-call:%s:%s" % (f["def"], c["def"]), "%s:%d in %s: unchecked operation %s" % (f["file"], t["l"], f["def"], c["def"]))
            for s in b["s"]:
                if s[0] == "=":
                    for pl in places(s):
                        if len(pl) > 1 and pl[1] and pl[1][0] == "*" and P.types[f["locals"][pl[0]]]["k"] == "ptr":
                            kinds.add("deref")
                    if s[2][0] == "cast" and s[2][1].startswith("Transmute"):
                        kinds.add("transmute")
        if "transmute" in kinds and kinds <= {"transmute", "deref"}:
            continue        # judged by the lifetime rule
        n, bad = judge(f["def"])
        proved += n
        R.oblige(n > 0 and not bad, "unsafe:" + f["def"], "%s: %s" % (where, "; ".join(bad) or "unsafe block without a recognised operation"), sample="%s: size and alignment of %d pointer accesses proved" % (where, n))
        # the result may not outlive what it was made from
        sg = f.get("sig", "")
        if "->" in sg:
            ret = sg.rsplit("->", 1)[1]
            args = sg.rsplit("->", 1)[0]
            lts = set(re.findall(r"'\w+", ret))
            R.oblige("'static" not in lts and all(l in args for l in lts), "lifetime:" + f["def"], "%s: the result has a lifetime that no argument has: %s" % (where, sg))
    nt, nops = extended(P, R)
    # 2. unsafe functions and impls
    for f in P.fns.values():
        if f.get("unsafe") and f.get("reach"):
            R.oblige(False, "unsafe-fn:" + f["def"], "%s:%d: public unsafe function %s: the safe API is expected not to need one" % (f["file"], f["line"], f["def"]))
    for im in P.impls:
        if im.get("unsafe") and im["trait"] not in ("pod::Pod", "core::clone::TrivialClone"):
            R.oblige(False, "unsafe-impl:%s:%s" % (im["trait"], P.ts(im["self"])), "%s:%d: unsafe impl of %s for %s" % (im["file"], im["line"], im["trait"], P.ts(im["self"])))
    for s in P.statics:
        R.oblige(not s["mut"], "static-mut:" + s["def"], "mutable static %s" % s["def"])
    tr = P.traits.get("pod::Pod")
    R.oblige(tr is not None and tr["unsafe"], "pod-trait", "the Pod trait must be unsafe to implement")
    # 3. every Pod type
    npod = 0
    for im in P.impls_of.get("pod::Pod", ()):
        npod += 1
        T = P.types[im["self"]]
        where = "%s:%d impl Pod for %s" % (im["file"], im["line"], T["s"])
        key = "pod:" + T["s"]
        if T["k"] == "array":
            e = P.types[T["of"]]
            ok = e["k"] != "param" or any("pod::Pod" in p and e["name"] in p for p in im["preds"])
            R.oblige(ok, key, "%s: the element type is not required to be Pod" % where)
            continue
        why = pod_problem(P, pr.L, T)
        R.oblige(why is None, key, "%s: %s" % (where, why), sample="%s: %d bytes, no padding, integers only" % (T["s"], pr.L.ty(im["self"])[0]) if why is None and npod % 23 == 0 else None)
    R.floor("pod_impls", npod, 200)
    R.floor("unsafe_blocks", nblocks, 1)
    R.finish("Every unsafe block the crate writes is found in the compiler's HIR; the interval/linear abstract interpreter proves on all paths that each pointer access stays inside the slice the pointer came from, is aligned and only reinterprets Pod types; lifetime extension is allowed only for heap bytes owned by an append-only map; each Pod impl is checked field by field for padding, non-integer content and unconstrained parameters.",
             unsafe_blocks_found=nblocks, pointer_accesses_proved=proved, lifetime_extensions=nt, cache_map_operations=nops, pod_types=npod)


def pod_problem(P, L, T):
    if T["k"] in ("int", "uint"):
        return None
    if T["k"] != "adt":
        return "not a structure"
    a = P.adts[T["def"]]
    if a["kind"] != "struct":
        return "it is a %s, not every byte pattern is valid" % a["kind"]
    if not (a["repr_c"] or a["transparent"]):
        return "it is not repr(C) or repr(transparent)"

    def leaf(t, d=0):
        X = P.types[t]
        if X["k"] in ("int", "uint"):
            return None
        if X["k"] == "array":
            return leaf(X["of"], d + 1)
        if X["k"] == "adt":
            if X["def"] == "core::marker::PhantomData":
                return None
            b = P.adts.get(X["def"])
            if b is None or not b["local"]:
                return "it contains %s" % X["s"]
            if b["kind"] != "struct":
                return "it contains the %s %s, for which not every byte pattern is valid" % (b["kind"], X["s"])
            if not (b["repr_c"] or b["transparent"]) and len(b["variants"][0]["f"]) > 1:
                return "it contains %s, whose layout is not fixed" % X["s"]
            for f in b["variants"][0]["f"]:
                r = leaf(f["t"], d + 1)
                if r:
                    return r
            return None
        if X["k"] == "tuple" and not X["of"]:
            return None
        return "it contains %s" % X["s"]
    for f in a["variants"][0]["f"]:
        r = leaf(f["t"])
        if r:
            return "field %s: %s" % (f["n"], r)
    try:
        s, al, leaves = L.adt(a, T["args"])
    except layout.NoLayout as e:
        return "its layout is not fixed: %s" % e
    if any(l[3] == "pad" for l in leaves):
        return "it has padding"
    return None


def places(s):
    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                yield x[1]
                return
            if x and x[0] in ("ref", "rawptr"):
                for y in x[1:]:
                    if isinstance(y, list):
                        yield y
                return
            for y in x:
                yield from w(y)
    yield s[1]
    yield from w(s[2])
