"""C02: memory used by reading is bounded by the input."""
import os, json, re
import facts, panics, finv, rank, callgraph, absint, boundmem, dom
from checks import c03
from report import Report

GROW = re.compile(r"^(alloc|std|hashbrown|memchr|core)::.*(Vec|String|VecDeque|BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap|VacantEntry|Entry|Box|Rc)(::<.*>)?::(push|push_str|push_back|push_front|insert|extend|extend_from_slice|append|reserve|reserve_exact|resize|resize_with|or_insert|or_insert_with|or_default|insert_entry|extend_from_within)$")
DECOMP = re.compile(r"(decompress_vec|decode_all_to_vec)$")


def grow_pred(P):
    """callee record -> may the call make a container grow (itself or through what it calls)?"""
    global _growing, _walks
    cg = callgraph.CallGraph(P)
    # a depth-first walk keeps at most one frame for each node of the data
    _walks = {}
    for d, f in P.fns.items():
        if panics.in_scope(f) and rank.is_iterator_next(P, f) and c03.stack_walk(P, d):
            _walks[d] = f.get("impl_self")
    grows = set()
    rev = {}
    for d, es in cg.edges.items():
        for e in es:
            rev.setdefault(e, set()).add(d)
    for d, f in P.fns.items():
        if f.get("impl_self") is not None and f["impl_self"] in _walks.values():
            continue
        if f.get("impl_trait", "").endswith("read_ref::ReadRef"):
            continue        # what a cache keeps is bounded range by range
        for b in f["blocks"]:
            fn = callgraph.callee(b["t"]) if b["t"]["k"] == "call" else None
            if fn is not None and GROW.search(facts.simple(fn["def"])):
                grows.add(d)
    work = list(grows)
    while work:
        for x in rev.get(work.pop(), ()):
            if x not in grows and not P.fns[x].get("impl_trait", "").endswith("read_ref::ReadRef"):
                grows.add(x)
                work.append(x)

    _growing = grows

    def pred(fn):
        return bool(GROW.search(facts.simple(fn["def"]))) or (fn.get("trait", "").endswith("read_ref::ReadRef") is False and any(x in grows for x, _ in cg.call_targets(fn)))
    return pred


_grow = None
_lenf = frozenset()
_growing = set()
_walks = {}


def hooks(ip, res):
    P = ip.P

    cur = set()

    def elem(e):
        s = ip.T.size(e) if e is not None else None
        return s if isinstance(s, int) else 256

    def event(c, key, good, det):
        fr = c.fr
        ip.events.append((fr.f["def"], c.b, key, good, det, True, fr.stack))

    def alloc(c, st, n, e, how):
        esz = elem(e)
        b = boundmem.bounded(ip, st, n, esz)
        if b is None and how == "try_reserve":
            names = (c.fr.f["def"],) + tuple(c.fr.stack)
            if any(decompresses(P, d) for d in names):
                b = "declared decompressed size, reserved fallibly"
        event(c, "alloc:" + how, b is not None, b or "%s of %s items" % (how, ip.show_lin(n)[:160]))

    def growh(c, st, kind, n, e, ity):
        if kind == "push":
            return
        if kind == "count":
            need = set()
            if data_iter(P, ip, ity, need) and not need:
                ip.lenterms.add(n[1][0][0])
            return
        b = None
        if n is not None:
            b = boundmem.bounded(ip, st, n, elem(e))
        if b is None and ity is not None:
            need = set()
            if data_iter(P, ip, ity, need):
                b = "items of " + needs(need)
        event(c, kind, b is not None, b or ("%s items" % ip.show_lin(n)[:160] if n is not None else "an unknown number of items"))

    def src_ok(st, v, need, d=0):
        v = ip.norm(st, v)
        if d > 6:
            return False
        if v[0] == "U":
            ty = ip.vtype(v)
            return ty is not None and data_iter(P, ip, ty, need)
        if v[0] == "IT":
            if v[1] in ("slice", "slicemut", "vecinto"):
                return True
            return all(src_ok(st, x, need, d + 1) for x in v[2] if isinstance(x, tuple) and x and x[0] in ("IT", "U", "S", "E", "R") and is_iter(x))
        if v[0] == "S":
            return v[1] is not None and data_iter(P, ip, v[1], need)
        return v[0] in ("L", "V")

    def is_iter(x):
        ty = ip.vtype(x) if x[0] in ("U", "S", "E") else None
        return not (ty is not None and ip.T.T[ty]["k"] in ("closure", "fndef", "fnptr"))

    def data(st, v):
        if isinstance(v, rank.Leaf):
            if v.kind == "opaque":
                return v.src is not None and src_ok(st, v.src, set())
            v = v.v
        return boundmem.bounded(ip, st, v, 8) is not None

    def collect_needs(used, trans):
        for c in used:
            if c[0] == "adv":
                for st, a, b in trans:
                    if c[1:] in a:
                        src_ok(st, a[c[1:]].src, cur)

    def lh(ip, fr, el, H, back):
        if not back:
            return
        if not loop_grows(P, fr.f, el, _grow):
            return
        cur.clear()
        try:
            trans = rank.loop_transitions(ip, H, back)
            used, rem = rank.lexicographic(ip, trans, data=data)
            collect_needs(used, trans)
        except RecursionError:
            rem, used = [0], []
        ip.events.append((fr.f["def"], el[0], "loop", not rem, needs(cur) + "measure %s, %d of %d back edges undecided" % ([str(u)[:60] for u in used], len(rem), len(back)), True, fr.stack))

    def rh(ip, f, env, args, outs):
        if not rank.is_iterator_next(P, f):
            return
        cur.clear()
        ok, used, rem, tr = rank.prove_next(ip, f, env, args, outs, data=data)
        if tr:
            collect_needs(used, tr[0])
        ip.events.append((f["def"], -1, "iter", ok, needs(cur) + "measure %s, %d of the ways to return an item undecided" % ([str(u)[:60] for u in used], len(rem or ())), True, ()))
    ip.lenfields = _lenf
    ip.lenjoin = lambda l: l[0] <= 0 and len(l[1]) == 1 and l[1][0][1] == 1 and boundmem.is_data_len(ip, l[1][0][0])
    ip.alloc_hook = alloc
    ip.grow_hook = growh
    ip.loop_hook = lh
    ip.root_hook = rh


def needs(s):
    return "{%s} " % ";".join(sorted(s)) if s else ""


UNBOUNDED_ITER = ("core::ops::Range", "core::ops::RangeInclusive", "core::ops::RangeFrom", "core::iter::Repeat", "core::iter::Cycle", "core::iter::FromFn", "core::iter::Successors", "core::iter::RepeatWith", "core::iter::RepeatN")


def data_iter(P, ip, tid, need, d=0):
    """does the iterator type yield at most as many items as there is data? Iterators of the crate are collected in need."""
    t = ip.T.T[tid]
    if t["k"] == "ref":
        return data_iter(P, ip, t["to"], need, d + 1)
    if t["k"] == "other":
        return t["s"].startswith("impl ")
    if t["k"] != "adt":
        return t["k"] in ("param", "alias", "closure", "slice", "array", "str")
    dn = facts.simple(t["def"])
    if dn.endswith("::FromFn") and any(isinstance(a, int) and ip.T.T[a]["k"] == "closure" and ip.T.T[a].get("def") not in P.fns for a in t["args"]):
        return True         # an iterator made by another crate
    if dn.startswith(UNBOUNDED_ITER) or dn.replace("::adapters", "").startswith(UNBOUNDED_ITER) or dn.split("::")[-1] in [x.split("::")[-1] for x in UNBOUNDED_ITER] and dn.startswith("core::"):
        return False
    if t["def"] in P.adts and P.adts[t["def"]].get("local"):
        need.add(t["def"])
        return True
    if d > 6:
        return False
    return all(data_iter(P, ip, a, need, d + 1) for a in t["args"] if isinstance(a, int) and ip.T.T[a]["k"] in ("adt", "ref"))


def last_field(P, tid, projs):
    """the (type, variant, field) a place with these projections denotes"""
    cur, var, out = tid, 0, None
    for p in projs:
        t = P.types[cur] if cur is not None else {"k": "?"}
        if p == "*":
            cur = t.get("to")
            out = None
        elif p[0] == "d":
            var = p[1]
            out = None
        elif p[0] == "f":
            out = (t.get("def"), var, p[1]) if t["k"] == "adt" else None
            cur, var = p[2], 0
        else:
            return None
    return out


def length_fields(P):
    """(type, variant, field) of integers and Options of integers to which only None and values
    traced to ReadRef::len or ReadCacheOps::len are written"""
    cand = {}
    for d, ad in P.adts.items():
        if ad["kind"] != "struct":
            continue
        for i, fl in enumerate(ad["variants"][0]["f"]):
            t = P.types[fl["t"]]
            if t["k"] == "uint" or t.get("def") == "core::option::Option" and P.types[t["args"][0]]["k"] == "uint":
                cand[(d, 0, i)] = None
    for d, f in P.fns.items():
        if not panics.in_scope(f):
            continue
        defs = {}
        def note(l, what):
            defs.setdefault(l, []).append(what)
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    pl = s[1] if isinstance(s[1], list) else [s[1]]
                    if len(pl) == 1:
                        note(pl[0], s[2])
            if b["t"]["k"] == "call":
                pl = b["t"]["d"] if isinstance(b["t"]["d"], list) else [b["t"]["d"]]
                if len(pl) == 1:
                    note(pl[0], ("call", b["t"]))

        def islen(o, seen):
            if o[0] == "k":
                return False
            pl = o[1] if isinstance(o[1], list) else [o[1]]
            l = pl[0]
            if l in seen:
                return True
            seen = seen | {l}
            if l not in defs:
                return False
            for w in defs[l]:
                if w[0] == "call":
                    fn = callgraph.callee(w[1])
                    if fn is None:
                        return False
                    nm = facts.simple(fn["def"])
                    if re.search(r"Read(Ref|CacheOps)::len$", nm):
                        continue
                    if nm.endswith("Try::branch") and islen(w[1]["a"][0], seen):
                        continue
                    return False
                if w[0] == "use" and islen(w[1], seen):
                    continue
                if w[0] == "agg" and isinstance(w[1], (list, tuple)) and w[1][0] == "adt" and w[1][1] in ("core::option::Option", "core::result::Result"):
                    if all(islen(x, seen) for x in w[2]):
                        continue
                return False
            return True
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and isinstance(rv[1], (list, tuple)) and rv[1][0] == "adt":
                    for i, o in enumerate(rv[2]):
                        k = (rv[1][1], 0, i)
                        if k in cand:
                            ok = islen(o, frozenset())
                            cand[k] = ok if cand[k] is None else cand[k] and ok
                if isinstance(s[1], list) and len(s[1]) > 1 and s[1][1]:
                    # a write through a projection: which field?
                    tid = f["locals"][s[1][0]]
                    k = last_field(P, tid, s[1][1])
                    if k in cand:
                        ok = rv[0] == "use" and islen(rv[1], frozenset()) or rv[0] == "agg" and all(islen(o, frozenset()) for o in rv[2])
                        cand[k] = ok if cand[k] is None else cand[k] and ok
    return frozenset(k for k, v in cand.items() if v)


_dec = {}


def decompresses(P, d):
    if d not in _dec:
        f = P.fns.get(d)
        _dec[d] = f is not None and any(b["t"]["k"] == "call" and callgraph.callee(b["t"]) is not None and DECOMP.search(facts.simple(callgraph.callee(b["t"])["def"])) for b in f["blocks"])
    return _dec[d]


def wto_blocks(el, out):
    if isinstance(el, int):
        out.add(el)
    else:
        out.add(el[0])
        for x in el[1]:
            wto_blocks(x, out)


_lg = {}


def loop_grows(P, f, el, grow):
    k = (f["def"], el[0])
    if k not in _lg:
        bs = set()
        wto_blocks(el, bs)
        r = False
        for b in bs:
            t = f["blocks"][b]["t"]
            fn = callgraph.callee(t) if t["k"] == "call" else None
            if fn is not None and grow(fn):
                r = True
        _lg[k] = r
    return _lg[k]


def run(pid):
    R = Report(pid)
    P = facts.load()
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    inv = finv.infer(P, secs=20 if thorough else 10, rounds=3 if thorough else 2)
    nexts = {d for d, f in P.fns.items() if panics.in_scope(f) and rank.is_iterator_next(P, f)}
    nb = panics.never_built(P)
    pub = {d for d, f in P.fns.items() if panics.is_root(f) and not any(x in nb for x in panics.receiver_types(P, f))}
    global _grow, _lenf
    _grow = grow_pred(P)
    _lenf = length_fields(P)
    kinds = {"loop", "iter", "extend", "collect"} | {"alloc:" + x for x in ("with_capacity", "reserve", "try_reserve", "resize", "from_elem")}
    P, out = panics.run(P=P, inv=inv, secs=120 if thorough else 40, hooks=hooks, roots=sorted(pub | nexts), only=kinds, opaque=lambda g: g["def"] in nexts)
    resid = json.load(open(os.path.join(facts.VERIF, "tables", "c02_residual.json")))
    sites = {}
    undecided = []
    for o in out:
        if o["err"]:
            undecided.append((o["def"], o["err"].strip().split("\n")[-1][:120]))
        for (fn, b, kind), (good, det, stack) in o["events"].items():
            if kind not in kinds:
                continue
            s = sites.setdefault((fn, b, kind), [True, det, None, None])
            if not good and (s[0] or len(stack) < len(s[2])):
                s[0], s[1], s[2], s[3] = False, det, stack, o["def"]
    # iterators of the crate that may yield more items than there is data
    need = {}
    bad = {}
    for (fn, b, kind), (good, det, stack, root) in sites.items():
        if kind == "iter":
            a = iterator_adt(P, fn)
            need.setdefault(a, set()).update(parse_needs(det))
            if not good and not any(r["fn"] in facts.simple(fn) for r in resid):
                bad[a] = "its number of items is not bounded by the data"
    more = True
    while more:
        more = False
        for a, ns in need.items():
            h = ns & set(bad)
            if a not in bad and h:
                bad[a] = "it takes items from %s" % sorted(h)[0]
                more = True
    # `next` methods that make something they keep grow
    direct = {d for d in nexts if d in _growing and any(callgraph.callee(b["t"]) is not None and GROW.search(facts.simple(callgraph.callee(b["t"])["def"])) for b in P.fns[d]["blocks"] if b["t"]["k"] == "call")}
    n = {}
    for (fn, b, kind), (good, det, stack, root) in sorted(sites.items()):
        n[kind] = n.get(kind, 0) + 1
        f = P.fns.get(fn)
        if kind == "iter":
            a = iterator_adt(P, fn)
            if fn in direct:
                R.oblige(a not in bad, "iter:" + facts.simple(fn), "%s:%s: %s grows a container on every call and its number of items is not bounded by the data: %s" % (f["file"], f["line"], facts.simple(fn), bad.get(a)), sample="%s grows, and yields at most as many items as there is data" % facts.simple(fn))
            continue
        h = parse_needs(det) & set(bad)
        if good and h:
            good, det = False, "grows once per item of %s: %s" % (sorted(h)[0], bad[sorted(h)[0]])
        line = f["blocks"][b]["t"].get("l", f["line"]) if b >= 0 else f["line"]
        what = "a container grows in a loop whose number of turns is not bounded by the data" if kind == "loop" else "the size of an allocation (%s) is not bounded by the data" % kind
        R.oblige(good, "%s:%s" % (kind, facts.simple(fn)), "%s:%s: %s: %s: %s; analysed from %s" % (f["file"], line, facts.simple(fn), what, det, facts.simple(root or "")), sample="%s in %s: %s" % (kind, facts.simple(fn), det[:100]))
    # calls that allocate by a number and are not understood
    known = 0
    for d, f in P.fns.items():
        if not panics.in_scope(f):
            continue
        for i, b in enumerate(f["blocks"]):
            fn = callgraph.callee(b["t"]) if b["t"]["k"] == "call" else None
            if fn is None or fn["def"] in P.fns:
                continue
            nm = facts.simple(fn["def"])
            if SIZED.search(nm) and not nm.startswith("core::iter"):
                R.oblige(False, "alloc:" + facts.simple(d), "%s:%s: %s: sized allocation through %s, which no rule covers" % (f["file"], b["t"].get("l"), facts.simple(d), nm))
            known += 1
    R.floor("sized allocations decided", sum(v for k, v in n.items() if k.startswith("alloc")), 10)
    R.floor("growing loops decided", n.get("loop", 0), 12)
    R.floor("iterators classified", n.get("iter", 0), 90)
    R.assumptions = ["flate2's decompress_vec and ruzstd's decode_all_to_vec write only into the capacity they are given", "wasmparser's iterators yield at most one item per byte",
                     "a ReadRef implementation outside the crate returns ranges of real data"] + ["argued by hand: %s: %s" % (r["fn"], r["why"]) for r in resid]
    R.finish("Every allocation whose size is a number (with_capacity, reserve, resize, vec![x; n], collect, extend) in the reader is an obligation: by abstract interpretation of MIR with arbitrary input the size is at most a constant of 4 MiB, the length of existing data, or a fallible reservation that a decompressor fills. Every loop in which a container may grow is an obligation: its number of turns must be paid for by data (a measure made only of slice or container lengths, data-driven iterators and flags).",
             undecided_roots=undecided[:20], iterators_not_bounded_by_data=sorted(facts.simple(x) for x in bad), external_calls_scanned=known)


SIZED = re.compile(r"(::repeat|::new_uninit_slice|::new_zeroed_slice|::try_with_capacity|with_capacity_in|::resize_with|::from_fn_in|::set_len|::read_to_end|::read_to_string)$")


def iterator_adt(P, fn):
    f = P.fns[fn]
    t = P.types[f["locals"][1]]
    t = P.types[t["to"]]
    return t.get("def", fn)


def parse_needs(det):
    if det and det.startswith("{"):
        return set(det[1:det.index("}")].split(";"))
    return set()
