"""Well-founded measures for loops and iterators (C03, C02).

A transition relates the values before and after one turn. Components of the values (slice
and Vec lengths, integers, remaining ranges, flags, variants, opaque iterators advanced by a
successful call) are candidate measures; a lexicographic combination of components that
never increase and of which one decreases in every transition proves termination."""
import re
import dom, models
from dom import lc, lt, lsub, ladd, laddc, TRef, walk

PROGRESS = re.compile(r"(::|^)(next|next_back|nth|pop)$")


def lscale(l, k):
    return (l[0] * k, tuple((t, c * k) for t, c in l[1]))


CONSTBOUND = 1 << 33     # counting up to the maximum of a 64-bit type is not an end


class _C:
    def __init__(self, ip):
        self.ip = ip


class Leaf:
    __slots__ = ("kind", "v", "src")

    def __init__(self, kind, v, src=None):
        self.kind, self.v, self.src = kind, v, src


def leaves(ip, st, v, path, out, d=0, mem=None):
    if v is None or d > 9 or len(out) > 120:
        return
    v = ip.norm(st, v)
    if v[0] == "U":
        w = models.asiter(_C(ip), st, v)
        if w[0] == "IT":
            out[path + ("opaque",)] = Leaf("opaque", v, w)
            v = w
    k = v[0]
    if k in ("S", "IT", "E", "V") and path + ("opaque",) not in out:
        out[path + ("opaque",)] = Leaf("opaque", ("U", ip.key(st, v), None), v)
    if k == "I":
        out[path] = Leaf("int", v[1])
    elif k == "B":
        out[path] = Leaf("bool", v[1])
    elif k == "L":
        out[path] = Leaf("len", v[3])
    elif k == "V":
        out[path] = Leaf("vlen", v[2])
    elif k == "S":
        if v[1] is not None and ip.T.T[v[1]].get("def") in ("core::ops::Range", "core::ops::RangeInclusive"):
            a, b = ip.asint(st, ip.norm(st, v[2][0])), ip.asint(st, ip.norm(st, v[2][1]))
            if a is not None and b is not None:
                out[path + ("range",)] = Leaf("range", lsub(b, a))
        for i, x in enumerate(v[2]):
            leaves(ip, st, x, path + (i,), out, d + 1)
    elif k == "IT":
        for i, x in enumerate(v[2]):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x[0]) <= 2:
                leaves(ip, st, x, path + (v[1], i), out, d + 1)
    elif k == "E":
        al = v[2]
        out[path + ("variant",)] = Leaf("variant", frozenset(a[0] for a in al))
        if len(al) == 1:
            for i, x in enumerate(al[0][1]):
                leaves(ip, st, x, path + (("v", al[0][0]), i), out, d + 1)
    elif k == "R":
        if d < 6:
            x = ip.get(st, v[1], v[2])
            if x is not None:
                leaves(ip, st, x, path + ("*",), out, d + 1)
    elif k == "U":
        if v[2] is not None and d < 6:
            t = ip.T.T[v[2]]
            if t["k"] == "adt" and t["def"] in ip.P.adts and ip.P.adts[t["def"]]["kind"] == "struct" or t["k"] == "tuple":
                x = ip.expand(st, v)
                if x[0] == "S":
                    out[path + ("opaque",)] = Leaf("opaque", v, v)
                    return leaves(ip, st, x, path, out, d + 1)
            if t["k"] == "adt" and t["def"] in ip.P.adts or t.get("def") == "core::option::Option":
                vk = st.vk.get(v[1])
                if isinstance(vk, int):
                    out[path + ("variant",)] = Leaf("variant", frozenset([vk]))
                    fs = ip.vfields(v[1], v[2], vk)
                    for i, x in enumerate(fs or ()):
                        leaves(ip, st, x, path + (("v", vk), i), out, d + 1)
                elif isinstance(vk, frozenset):
                    ad = ip.T.adt(v[2])
                    out[path + ("variant",)] = Leaf("variant", frozenset(range(len(ad["variants"]))) - vk)
        out[path + ("opaque",)] = Leaf("opaque", v, v)


def returned_item(ip, st, t, d=0):
    """does call term t denote a value known to be Some(..) / Ok(Some(..)) / Some(Ok(..)) (True), or None (False)?"""
    vk = st.vk.get(t)
    return vk


def opq_status(ip, st, a, b):
    """status of opaque value b against the earlier a"""
    if a == b:
        return "eq"
    # b must contain a under advancing operations
    seen = 0
    cur = b
    prog = False
    while cur != a and seen < 12:
        seen += 1
        op = ip.TM.ops[cur]
        if op[0] == "adv":
            nxt = [int(x) for x in walk(op[1:])]
            cur = nxt[0] if nxt else None
            prog = True
        elif op[0] == "post":
            call = int(op[1])
            cop = ip.TM.ops[call]
            if cop[0] not in ("call", "next"):
                return None
            name = cop[1] if isinstance(cop[1], str) else ""
            tn = re.sub(r"::<.*>$", "", name)
            if not PROGRESS.search(tn):
                return None
            vk = st.vk.get(call)
            if vk is not None and isinstance(vk, int):
                prog = prog or ip_some(ip, st, call, vk)
            ks = [int(x) for x in walk(cop[2:])]
            if not ks:
                return None
            cur = ks[0]
            if ip.TM.ops[a] == ("deref", cur):
                cur = a
            while cur != a and ip.TM.ops[cur][0] == "ref":
                cur = int(ip.TM.ops[cur][1])
        elif op[0] in ("ref", "IT"):
            ks = [int(x) for x in walk(op[1:])]
            if not ks:
                return None
            cur = ks[0]
        else:
            return None
        if cur is None:
            return None
    if cur != a:
        return None
    return "dec" if prog else "le"


def ip_some(ip, st, call, vk):
    """the call returned an item: Some(..), or Ok(Some(..)), or Ok(value)"""
    # variant numbers: Option None=0 Some=1; Result Ok=0 Err=1
    ty = ip.calltype.get(call) if hasattr(ip, "calltype") else None
    if ty is None:
        return vk == 1
    t = ip.T.T[ty]
    if t.get("def") == "core::option::Option":
        return vk == 1
    if t.get("def") == "core::result::Result":
        inner = ip.T.T[t["args"][0]]
        if vk == 1:
            return True            # an error ends or advances the iterator: proved for each iterator
        if inner.get("def") == "core::option::Option":
            fs = ip.vfields(call, ty, 0)
            x = ip.norm(st, fs[0]) if fs else None
            if x is None:
                return False
            if x[0] == "U":
                return st.vk.get(x[1]) == 1
            if x[0] == "E":
                return all(a[0] == 1 for a in x[2])
            return False
        return True
    return False


def boolval(ip, st, c):
    if c is True or c is False:
        return c
    return ip.D.decide(st, c)


def statuses(ip, st, L0, L1, bounds=()):
    """component -> status for one transition; st is the state after it"""
    D = ip.D
    out = {}
    for p, a in L0.items():
        b = L1.get(p)
        if b is None or b.kind != a.kind:
            if a.kind == "variant":
                continue
            continue
        if a.kind in ("int", "len", "vlen"):
            if a.v == b.v:
                out[("dn",) + p] = "eq"
                out[("up",) + p] = "eq"
                out[("nz",) + p] = "eq"
                continue
            d = lsub(b.v, a.v)
            u = D.ub(st, d, -1, 4)
            if u <= -1 and (a.kind != "int" or D.le(st, lscale(a.v, -1)) or D.le(st, lscale(b.v, -1))):
                out[("dn",) + p] = "dec"
            elif u <= 0:
                out[("dn",) + p] = "le"
            if a.kind == "int":
                if b.v == (0, ()):
                    out[("nz",) + p] = "dec" if D.le(st, laddc(lscale(a.v, -1), 1)) else "le"
                elif D.le(st, laddc(lscale(a.v, -1), 1)):
                    out[("nz",) + p] = "le"
                u = D.ub(st, lscale(d, -1), -1, 4)
                out[("up",) + p] = "inc" if u <= -1 else "le" if u <= 0 else None
        elif a.kind == "range":
            if a.v == b.v:
                out[("dn",) + p] = "eq"
                continue
            d = lsub(b.v, a.v)
            u = D.ub(st, d, -1, 4)
            if u <= -1 and (D.le(st, lscale(a.v, -1)) or D.le(st, lscale(b.v, -1))):
                out[("dn",) + p] = "dec"
            elif u <= 0:
                out[("dn",) + p] = "le"
        elif a.kind == "bool":
            x, y = boolval(ip, st, a.v), boolval(ip, st, b.v)
            if a.v == b.v or (x is not None and x == y):
                out[("T",) + p] = out[("F",) + p] = "eq"
            elif y is True:
                out[("T",) + p] = "dec" if x is False else "le"
            elif y is False:
                out[("F",) + p] = "dec" if x is True else "le"
        elif a.kind == "variant":
            if a.v == b.v and len(a.v) == 1:
                for k in a.v:
                    out[("k",) + p] = "eq"
                out[("same",) + p] = "eq"
            for k in range(6):
                # measure: 0 when the variant is k
                if b.v == frozenset([k]):
                    out[("var", k) + p] = "dec" if k not in a.v else "le" if a.v != b.v else "eq"
                elif k not in b.v and k not in a.v:
                    out[("var", k) + p] = "eq"
        elif a.kind == "opaque":
            s = opq_status(ip, st, a.v[1], b.v[1])
            if s:
                out[("adv",) + p] = s
    return out


def upper_measures(ip, trans):
    """candidates U - x for integer components that increase in some transition"""
    D = ip.D
    cands = []
    for st, L0, L1, S in trans:
        for c, s in S.items():
            if c[0] == "up" and s == "inc":
                a = L0[c[1:]].v
                terms = [t for t, k in a[1] if k > 0]
                if not terms:
                    continue
                t = terms[0]
                k0 = dict(a[1])[t]
                for parts, bd in list(st.facts.items()):
                    dd = dict(parts)
                    if dd.get(t, 0) * k0 > 0 and len(parts) <= 4:
                        m = (bd, tuple((x, -k) for x, k in parts))
                        if abs(bd) > CONSTBOUND:
                            continue
                        if m not in cands:
                            cands.append(m)
                r = ip.TM.rng[t]
                for hi in ([r[1]] if r and r[1] is not None else []):
                    m = (hi, ((t, -1),))
                    if hi < dom.INF and hi <= 1 << 32 and m not in cands:
                        cands.append(m)
        if len(cands) > 60:
            break
    out = []
    for m in cands[:60]:
        rows = {-1: [], 0: []}
        for st, L0, L1, S in trans:
            sub = {}
            for p, a in L0.items():
                if a.kind in ("int", "len", "vlen") and len(a.v[1]) == 1 and a.v[1][0][1] == 1 and p in L1 and L1[p].kind == a.kind:
                    sub[a.v[1][0][0]] = laddc(L1[p].v, -a.v[0])
            m1 = ip.subst_lin(m, sub)
            d = lsub(m1, m)
            u = D.ub(st, d, -1, 4)
            # the measure is max(c, U - x) for c = -1 or 0
            for c, row in rows.items():
                if u <= -1 and (D.le(st, laddc(lscale(m, -1), c + 1)) or D.le(st, laddc(lscale(m1, -1), c))):
                    row.append("dec")
                elif u <= 0 or D.le(st, laddc(m1, -c)):
                    row.append("le")
                else:
                    row.append(None)
        for c, row in rows.items():
            if "dec" in row:
                out.append(((c,) + m, row))
    return out


def other_variant(c, L0, L1):
    """a component inside a variant that is not the current one, before or after, does not change"""
    for i, x in enumerate(c):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "v":
            # find the prefix (the measure kind takes one or two leading places)
            for st in (1, 2):
                p = tuple(c[st:i]) + ("variant",)
                a, b = L0.get(p), L1.get(p)
                if a is not None and b is not None and a.kind == b.kind == "variant" and x[1] not in a.v and x[1] not in b.v:
                    return "eq"
    return None


def unchanged_part(c, L0, L1):
    """a component inside a value that is the same before and after"""
    for st in (1, 2):
        p = tuple(c[st:])
        for n in range(len(p), -1, -1):
            a, b = L0.get(p[:n] + ("opaque",)), L1.get(p[:n] + ("opaque",))
            if a is not None and b is not None and a.kind == b.kind and a.v[1] == b.v[1]:
                return "eq"
    return None


def vf_variants(ip, v, term, acc, seen, d=0):
    """variants of the unknown `term` whose fields the value mentions"""
    def tm(t):
        if t in seen or len(seen) > 4000:
            return
        seen.add(t)
        op = ip.TM.ops[t]
        if op[0] == "vf" and int(op[1]) == term:
            acc.add(op[2])
        for x in walk(op):
            tm(x)
    s = set()
    ip.vterms(v, s)
    for t in s:
        tm(t)


def split_variants(ip, st, init, now, d=0):
    """[(state)] one per possible variant of the enums in the receiver"""
    init = ip.norm(st, init)
    if now is None or d > 3:
        return [(st, now)]
    now = ip.norm(st, now)
    if now[0] == "E" and init[0] == "U":
        out = []
        for al in now[2]:
            s = st.copy()
            if not all(ip.D.assume_le(s, (-bd, p)) for p, bd in al[2]):
                continue
            one = ("E", now[1], ((al[0], al[1], ()),))
            vk = st.vk.get(init[1])
            if not isinstance(vk, int):
                acc = set()
                vf_variants(ip, one, init[1], acc, set())
                js = acc or set(range(len(ip.T.adt(now[1])["variants"])))
            else:
                js = {vk}
            for j in js:
                s2 = s.copy()
                s2.vk[init[1]] = j
                out.append((s2, one))
        return out
    if now[0] == "S" and init[0] == "U":
        init = ip.expand(st, init)
    if now[0] == "S" and init[0] == "S" and len(now[2]) == len(init[2]):
        res = [(st, ())]
        for a, b in zip(init[2], now[2]):
            nr = []
            for s, fs in res:
                for s2, v in split_variants(ip, s, a, b, d + 1):
                    nr.append((s2, fs + (v,)))
            res = nr[:40] if len(nr) <= 40 else [(st, tuple(now[2]))]
        return [(s, ("S", now[1], fs)) for s, fs in res]
    return [(st, now)]


def data_measure(ip, c, T, data):
    """is the number of turns that component c can pay for at most the size of existing data?"""
    if c[0] in ("T", "F", "var", "k", "same", "nz"):
        return True
    p = c[1:]
    vals = [(a.get(p), st) for st, a, b, S in T]
    kinds = {v.kind for v, st in vals if v is not None}
    if kinds <= {"len", "vlen"}:
        return True
    if c[0] == "adv":
        return all(v is None or data(st, v) for v, st in vals)
    if c[0] == "dn" and kinds <= {"int", "range"}:
        return all(v is None or data(st, v) for v, st in vals)
    return False


def lexicographic(ip, trans, weak=(), data=None):
    """trans: [(state after, leaves before, leaves after)]. Returns (used measures, undecided transitions).
    The measure must decrease over each of trans and must not increase over each of weak.
    data: restricts the measures to those for which data(state, leaf or linear form) holds."""
    ns = len(trans)
    T = [(st, a, b, statuses(ip, st, a, b)) for st, a, b in list(trans) + list(weak)]
    rem = list(range(len(T)))
    ups = None
    used = []
    while any(i < ns for i in rem):
        best = None
        comps = set()
        for i in rem:
            comps |= {c for c, s in T[i][3].items() if s == "dec"}
        for c in sorted(comps, key=str):
            if data is not None and not data_measure(ip, c, T, data):
                continue
            sts = [T[i][3].get(c) or other_variant(c, T[i][1], T[i][2]) or unchanged_part(c, T[i][1], T[i][2]) for i in rem]
            if all(s in ("dec", "le", "eq") for s in sts):
                n = sum(s == "dec" for s in sts)
                if best is None or n > best[0]:
                    best = (n, c, [i for i, s in zip(rem, sts) if s == "dec"])
        if best is None:
            if ups is None:
                ups = upper_measures(ip, T)
            for m, row in ups:
                if data is not None and not all(data(t[0], m[1:]) for t in T[:ns]):
                    continue
                sts = [row[i] for i in rem]
                if all(sts) and "dec" in sts:
                    n = sum(s == "dec" for s in sts)
                    if best is None or n > best[0]:
                        best = (n, ("upto", m), [i for i, s in zip(rem, sts) if s == "dec"])
        if best is None:
            return used, [i for i in rem if i < ns]
        used.append(best[1])
        rem = [i for i in rem if i not in best[2]]
    return used, []


def loop_transitions(ip, H, back):
    trans = []
    for B in back:
        L0, L1 = {}, {}
        for r, v in H.mem.items():
            w = B.mem.get(r)
            if w is None or r[0] == "W":
                continue
            if v == w and v[0] != "R":
                continue
            a, b = {}, {}
            leaves(ip, B, v, (r,), a)
            leaves(ip, B, w, (r,), b)
            L0.update(a)
            L1.update(b)
        trans.append((B, L0, L1))
    return trans


def is_iterator_next(P, f):
    """a `next` method: takes &mut Self and returns Option<_> or Result<Option<_>, _>"""
    import facts
    if not facts.simple(f["def"]).endswith("::next") or f["argc"] != 1:
        return False
    a = P.types[f["locals"][1]]
    if a["k"] != "ref" or not a["mut"]:
        return False
    return option_depth(P.types, f["locals"][0]) is not None


def option_depth(T, tid):
    t = T[tid]
    if t.get("def") == "core::option::Option":
        return ["opt"]
    if t.get("def") == "core::result::Result":
        i = T[t["args"][0]]
        if i.get("def") == "core::option::Option":
            return ["res", "opt"]
    return None


def split_return(ip, fr, st, v, tid):
    """[(state, ended?)]"""
    c = _C(ip)
    c.fr, c.b, c.dt = fr, 0, tid
    out = []
    kind = ip.T.T[tid].get("def")
    q = models.alts(c, st, v, tid)
    if q is None:
        return [(st, False)]
    for s, k, fs in q:
        if kind == "core::option::Option":
            out.append((s, k == 0))
        elif k == 1:
            out.append((s, False))
        else:
            a = [x for x in ip.T.T[tid]["args"] if isinstance(x, int)]
            out += split_return(ip, fr, s, fs[0], a[0])
    return out


def region_value(ip, st, a0, init):
    v = ip.get(st, a0[1], ())
    return init if v is None else v


def next_transitions(ip, f, env, args, outs, cuts=True):
    """transitions of the receiver over one call that does not report the end, cut at loop heads.
    Returns (strict, weak): a measure must decrease over each strict transition and not increase
    over each weak one."""
    a0 = None
    for st, v in outs:
        a0 = ip.norm(st, args[0])
        break
    if a0 is None:
        return [], []
    if a0[0] != "R":
        return None
    init = ip.root_default(a0[1])
    if init is None:
        return None
    need, seen = [], set()

    def start(st):
        c = st.cut
        if c is None or not cuts:
            return init
        if c not in seen:
            seen.add(c)
            need.append(c)
        return region_value(ip, ip.cuts[c][0], a0, init)

    def others(st, L0, L1):
        # parts of the receiver reached through a reference into it (an element at some index)
        H = ip.cuts[st.cut][0] if cuts and st.cut is not None else None
        for r, w in st.mem.items():
            if r[0] != "M" or r == a0[1]:
                continue
            v = H.mem.get(r) if H is not None else None
            if v is None:
                v = ip.root_default(r)
            if v is None:
                continue
            a, b = {}, {}
            leaves(ip, st, v, (r,), a)
            leaves(ip, st, w, (r,), b)
            L0.update(a)
            L1.update(b)

    def trans(st, s0, acc):
        now = region_value(ip, st, a0, init)
        for s2, i2, n2 in split_pair(ip, st, s0, now):
            L0, L1 = {}, {}
            leaves(ip, s2, i2, (), L0)
            leaves(ip, s2, n2, (), L1)
            others(s2, L0, L1)
            acc.append((s2, L0, L1))
    strict, weak = [], []
    for st, v in outs:
        for s, ended in split_return(ip, None, st, v, ip.T.subst(f["locals"][0], env)):
            if not ended:
                trans(s, start(s), strict)
    while need:
        c = need.pop()
        H, entry, back = ip.cuts[c]
        for s in list(entry) + list(back):
            trans(s, start(s), weak)
    return strict, weak


def prove_next(ip, f, env, args, outs, data=None):
    """(proved, measures, transitions left)"""
    res = None
    for cuts in (False, True):
        tr = next_transitions(ip, f, env, args, outs, cuts)
        if tr is None:
            return False, [], None
        used, rem = lexicographic(ip, *tr, data=data)
        res = (not rem, used, [tr[0][i] for i in rem], tr)
        if not rem:
            break
    return res


def stack_turns(ip, rem):
    """the Vec of the receiver which each of these transitions pops, clears or pushes onto once"""
    cand = None
    for st, L0, L1 in rem or ():
        here = set()
        for p, a in L0.items():
            b = L1.get(p)
            if a.kind != "vlen" or b is None or b.kind != "vlen":
                continue
            d = lsub(b.v, a.v)
            if d == (1, ()) or ip.D.ub(st, d, -1, 4) <= -1 or b.v == (0, ()):
                here.add(p)
        cand = here if cand is None else cand & here
    return sorted(cand or (), key=str)


def split_pair(ip, st, init, now):
    """cases with one variant each for the enums in the receiver, before and after"""
    out = []
    for s, i2 in split_alts(ip, st, init):
        for s2, n2 in split_variants(ip, s, i2, now):
            out.append((s2, i2, n2))
    return out


def split_alts(ip, st, v, d=0):
    """one case per alternative of the enum values inside v"""
    v = ip.norm(st, v)
    if d > 3:
        return [(st, v)]
    if v[0] == "E" and len(v[2]) > 1:
        out = []
        for al in v[2]:
            s = st.copy()
            if all(ip.D.assume_le(s, (-bd, p)) for p, bd in al[2]):
                out.append((s, ("E", v[1], ((al[0], al[1], ()),))))
        return out
    if v[0] == "S":
        res = [(st, ())]
        for a in v[2]:
            nr = []
            for s, fs in res:
                for s2, x in split_alts(ip, s, a, d + 1):
                    nr.append((s2, fs + (x,)))
            if len(nr) > 24:
                return [(st, v)]
            res = nr
        return [(s, ("S", v[1], fs)) for s, fs in res]
    return [(st, v)]
