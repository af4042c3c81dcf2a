"""What functions return, as canonical texts over their arguments (used by C09, C10, C11, ...)."""
import facts, summ, bits


def source(P, E, names=None):
    def nm(e):
        if names and e in names:
            return names[e]
        if e[0] == "call" and e[1].startswith("endian::Endian::read_") and len(e) == 4:
            # the byte order is the caller's, or the fixed one of the format
            o = e[2]
            od = "LE " if o == ("S0", "endian::LittleEndian") else "BE " if o == ("S0", "endian::BigEndian") else ""
            return od + (nm(e[3]) or B.gen(e[3]))
        if e[0] == "fld" and e[1] == ("param", 0):
            return e[2]
        if e == ("param", 0):
            return "self"
        if e[0] == "fld":
            return "%s.%s" % (B.other(e[1]), e[2])
        x, off = B.at(e)
        if x is not None:
            return "*%s[%s]" % (B.other(x[1]), B.plus(x[2], off))
        if e[0] == "param":
            return "p%d" % e[1]
        return None
    B = bits.Bits(E.width, E.signed, nm)
    return B


def canon(e, E, P, rt=None):
    """canonical form: a text, [variant, parts...] or {struct, fields}"""
    B = source(P, E)
    return obj(e, B, P, rt)


def obj(e, B, P, rt=None, d=0):
    if e[0] in ("and", "or") and rt == "bool":
        c = B.cond(e)
        if c is not None:
            return c
    if e[0] == "var" and d < 8:
        n = e[1] if isinstance(e[1], str) else "v%d" % e[1]
        return [n] + [obj(x, B, P, None, d + 1) for x in e[2:]] if len(e) > 2 else n
    if e[0] == "struct" and d < 8:
        if e[1] == "tuple":
            return ["()"] + [obj(x, B, P, None, d + 1) for x in e[2:]]
        ad = P.adts.get(e[1])
        fs = ad["variants"][0]["f"] if ad else []
        if ad and ad.get("local") and len(fs) == len(e) - 2:
            return {"struct": e[1].split("::")[-1], "fields": {q["n"]: obj(x, B, P, None, d + 1) for q, x in zip(fs, e[2:])
                                                             if not (x[0] == "struct" and x[1] == "core::marker::PhantomData")}}
    return B.other(e)


def flat(o):
    if isinstance(o, str):
        return o
    if isinstance(o, dict):
        return "%s{%s}" % (o["struct"], ", ".join("%s: %s" % (k, flat(v)) for k, v in sorted(o["fields"].items())))
    return "%s(%s)" % ("" if o[0] == "()" else o[0], ", ".join(flat(x) for x in o[1:]))


def same(want, got):
    """True / False / None (cannot be compared)"""
    if isinstance(want, str) or isinstance(got, str):
        if want == got:
            return True
        if isinstance(want, str) and isinstance(got, str):
            return None if unclean([got]) else False
        # a structured value against an unstructured one
        return None if unclean([flat(got), flat(want)]) or isinstance(want, dict) or isinstance(got, dict) else False
    if isinstance(want, dict) != isinstance(got, dict):
        return None
    if isinstance(want, dict):
        if want["struct"] != got["struct"]:
            return None
        r = True
        for k, v in want["fields"].items():
            if k not in got["fields"]:
                r = None if r else r
                continue
            x = same(v, got["fields"][k])
            if x is False:
                return False
            if x is None:
                r = None
        return r
    if want[0] != got[0] or len(want) != len(got):
        return False
    r = True
    for x, y in zip(want[1:], got[1:]):
        z = same(x, y)
        if z is False:
            return False
        if z is None:
            r = None
    return r


def opaque(g):
    return g["def"].startswith("endian::Endian::") or g["def"].endswith("StringTable::<'data, R>::get")


def flags(P, f):
    """argument combinations: boolean parameters take both values"""
    combos = [()]
    for i, x in enumerate(f["locals"][1:1 + f["argc"]]):
        if P.types[x]["s"] == "bool":
            combos = [c + ((i, b),) for c in combos for b in (False, True)]
    return combos if len(combos) <= 4 else [()]


LEAFOPS = ("param", "call", "fld", "vf", "and", "shr", "cast", "len", "deref")


def variant_index(P, v):
    """"common::Architecture::X86_64" -> its number"""
    a, _, n = v.rpartition("::")
    a = P.adts.get(a)
    for i, x in enumerate(a["variants"] if a else ()):
        if x.get("n") == n:
            return i
    return None


def variant_name(P, tid, i):
    d = P.types[tid].get("def")
    a = P.adts.get(d)
    return "%s::%s" % (d, a["variants"][i].get("n")) if a else None


def forcing(P, force, used=None):
    """assume throughout that the values with these texts have these values"""
    def prep(ip):
        TM = ip.TM
        ip.used = used

        def on_new(i):
            o = TM.ops[i][0]
            if o not in LEAFOPS and not (o in ("eqs", "eq", "into") and getattr(force, "eqs", False)) and not (o in ("elem", "res", "eq", "eqs") and getattr(force, "elems", False)):
                return
            E = summ.Expr(ip, None)
            e = bits.strip(E.term(i))
            E.width = {bits.strip(k): w for k, w in E.width.items()}
            E.signed = {bits.strip(k): w for k, w in E.signed.items()}
            t = source(P, E).other(e)
            v = force(t) if callable(force) else force.get(t)
            if v is None:
                return
            if ip.used is not None:
                ip.used.add(t)
            if isinstance(v, bool):
                TM.fbool[i] = v
            elif isinstance(v, str):
                k = variant_index(P, v)
                if k is not None:
                    TM.fvk[i] = k
            else:
                r = TM.rng[i]
                lo, hi = v if isinstance(v, tuple) else (v, v)
                if r is not None and isinstance(v, tuple):
                    lo, hi = max(lo, r[0]), min(hi, r[1])
                if lo <= hi and (r is None or r[0] <= lo and hi <= r[1]):
                    TM.orig[i] = r
                    TM.rng[i] = (lo, hi)
        TM.on_new = on_new
    return prep


def conds(P, ip, st):
    """what a path knows about values: {text: (known bits, mask, width) | bool | variant name}, and the texts compared whole"""
    out, wid = {}, {}
    whole = set()
    E = summ.Expr(ip, st)
    seen = set()
    for parts in list(st.facts):
        if len(parts) != 1:
            continue
        t = parts[0][0]
        if t in seen or ip.TM.ops[t][0] not in LEAFOPS:
            continue
        seen.add(t)
        lo, hi = ip.D.lo(st, t, 1), ip.D.hi(st, t, 1)
        if lo != hi:
            continue
        e = bits.strip(E.term(t))
        E.width = {bits.strip(k): w for k, w in E.width.items()}
        E.signed = {bits.strip(k): w for k, w in E.signed.items()}
        B = source(P, E)
        x = B.ev(e)
        if x is None:
            continue
        v = int(lo)
        for k, b in enumerate(x[0]):
            if isinstance(b, tuple) and b[0][-1] != "bytes":
                n = B.gen(b[0])
                out.setdefault(n, {})[b[1]] = (v >> k) & 1
                wid[n] = E.width.get(b[0]) or 0
                if e == b[0]:
                    whole.add(n)
    res = {}
    for n, bs in out.items():
        if unclean([n]) or len(n) > 160:
            continue
        res[n] = (sum(1 << k for k, b in bs.items() if b), sum(1 << k for k in bs), wid[n])
    for t, v in st.bf.items():
        if ip.TM.ops[t][0] == "call":
            e = bits.strip(E.term(t))
            n = source(P, E).gen(e)
            if not unclean([n]) and len(n) <= 160:
                res[n] = bool(v)
    for t, v in st.vk.items():
        if ip.TM.ops[t][0] in LEAFOPS and isinstance(v, int) and t in ip.TM.etype:
            e = bits.strip(E.term(t))
            n = source(P, E).gen(e)
            x = variant_name(P, ip.TM.etype[t], v)
            if x and not unclean([n]) and len(n) <= 160:
                res[n] = x
    return res, whole


def bounds(P, ip, st):
    """values on both sides of the limits that a path compares values with: {text: {value}}"""
    res = {}
    E = summ.Expr(ip, st)
    seen = set()
    for parts in list(st.facts):
        if len(parts) != 1:
            continue
        t = parts[0][0]
        if t in seen or ip.TM.ops[t][0] not in LEAFOPS:
            continue
        seen.add(t)
        r = ip.TM.orig.get(t, ip.TM.rng[t])
        lo, hi = ip.D.lo(st, t, 1), ip.D.hi(st, t, 1)
        if r is None or lo is None or hi is None or lo == hi:
            continue
        vs = set()
        if lo > r[0]:
            vs |= {int(lo) - 1, int(lo)}
        if hi < r[1]:
            vs |= {int(hi), int(hi) + 1}
        if not vs:
            continue
        e = bits.strip(E.term(t))
        E.width = {bits.strip(k): w for k, w in E.width.items()}
        E.signed = {bits.strip(k): w for k, w in E.signed.items()}
        n = source(P, E).other(e)
        if not unclean([n]) and len(n) <= 160 and not n.isdigit():
            res.setdefault(n, set()).update(vs)
    return res


def bools(P, ip, st):
    """truth values that a path depends on: {text: {value}}"""
    res = {}
    E = summ.Expr(ip, st)
    for t, v in st.bf.items():
        if ip.TM.ops[t][0] in ("fld", "param", "call"):
            n = source(P, E).gen(bits.strip(E.term(t)))
            if not unclean([n]) and len(n) <= 160:
                res.setdefault(n, set()).add(bool(v))
    return res


def truths(ip, st, v):
    """a condition as the ways in which it is true or false"""
    if v[0] != "B" or v[1] in (True, False):
        return [(st, None)]
    out = []

    def go(st, cs, k):
        if not cs:
            k(st)
            return
        (c, w), rest = cs[0], cs[1:]
        if c not in (True, False) and c[0] in ("and", "or"):
            strict = (c[0] == "and") == w
            if strict:
                go(st, ((c[1], w), (c[2], w)) + rest, k)
            else:
                go(st.copy(), ((c[1], w),) + rest, k)
                go(st, ((c[1], not w), (c[2], w)) + rest, k)
            return
        s = st.copy()
        if ip.D.assume(s, c if w else ip.D.neg(c)):
            go(s, rest, k)
    for b in (True, False):
        go(st, ((v[1], b),), lambda s, b=b: len(out) < 24 and out.append((s, b)))
    return out


def results(P, d, c=(), op=None, secs=5, env=None, setup=None, force=None, want_conds=False, traces=64, used=None):
    """(error, [canonical results, failures left out])"""
    f = P.fns[d]

    def su(ip, st, args):
        args = list(args)
        for i, b in c:
            args[i] = ("B", b)
        if setup:
            args = setup(ip, st, args) or args
        return args
    S = summ.run(P, d, opaque=op or opaque, secs=secs, setup=su, env=env, prep=forcing(P, force, used) if force else None, traces=traces)
    if S.err:
        return S.err, []
    out = []
    rt = P.types[f["locals"][0]]
    res = rt.get("def") == "core::result::Result"
    outs = S.outs
    if want_conds:
        outs = [(s2, ("B", b) if b is not None else v) for st, v in S.outs for s2, b in truths(S.ip, st, v)]
    for st, v in outs:
        E = summ.Expr(S.ip, st)
        E.typed = True
        e = bits.strip(E.value(v))
        E.width = {bits.strip(k): w for k, w in E.width.items()}
        E.signed = {bits.strip(k): w for k, w in E.signed.items()}
        if res and e[0] == "var" and e[1] == 1:
            continue
        if res and e[0] == "var" and e[1] == 0 and len(e) == 3:
            e = e[2]
        t = canon(e, E, P, rt["s"])
        if want_conds:
            out.append((t, conds(P, S.ip, st)))
        elif t not in out:
            out.append(t)
    if want_conds:
        return None, out
    return None, sorted(out, key=flat)


def fkey(P, f, c=()):
    """name of a function by its type and method, without generic parameters"""
    t = f.get("impl_self")
    q = facts.simple(f["def"]) if t is None else None
    if t is not None:
        ty = P.types[t]
        q = "%s::%s" % (facts.simple(ty.get("def") or ty["s"]), f["name"])
    return q + "".join("#%d=%s" % x for x in c)


UNCLEAN = ("phi(", "loop(", "closure@", "cond(", "IT(", "skip", "deep", "ref?", "err(", "vec(", "mo(", "...", "item(", "itf(", "ret(", "alt(", "res(")


def unclean(ts):
    return any(u in (t if isinstance(t, str) else flat(t)) for t in ts for u in UNCLEAN)


WORD = __import__("re").compile(r"(?<![A-Za-z0-9_])[A-Za-z_][A-Za-z0-9_]*")


def words(ts):
    return {w for t in ts for w in WORD.findall(t if isinstance(t, str) else flat(t))}


def atoms(ts, names):
    return words(ts) & names


def header_names(P):
    """names of stored fields and of the raw accessors that read them"""
    out = set()
    for a in P.adts.values():
        if a.get("local") and (a["repr_c"] or a.get("transparent")):
            out |= {q["n"] for v in a["variants"] for q in v["f"] if not q["n"].isdigit()}
    return out - {"data", "base", "len"}


KEYWORDS = {"LE", "BE", "div", "rem", "len", "until", "into", "elem", "self", "slice", "aslice", "aref", "and", "or", "xor", "shl", "shr", "shrv", "as", "str", "sizeof",
            "eq", "ne", "le", "datalen", "bytes", "s", "S", "S0", "E", "n", "x", "cmp", "cmp3", "PhantomData", "core", "marker", "bin", "raw", "ptr", "mul", "const", "rep", "default", "read", "join"}


def vocabulary(P):
    """every name of the crate that a result can mention"""
    out = set(KEYWORDS)
    for d in P.fns:
        out |= set(WORD.findall(d))
    for d, a in P.adts.items():
        out |= set(WORD.findall(d))
        for v in a["variants"]:
            out.add(v.get("n"))
            out |= {q["n"] for q in v["f"]}
    return out


def agree(P, want, err, got, names, voc=None, closure=None):
    """does a result agree with the expected one?  None when this cannot be decided"""
    if err or not got:
        return None, "no result"
    bad = unk = 0
    left = list(got)
    for w in want:
        rs = [(same(w, g), g) for g in got]
        if any(r is True for r, g in rs):
            left = [g for g in left if same(w, g) is not True]
            continue
        if any(r is None for r, g in rs):
            unk += 1
        else:
            bad += 1
    for g in left:
        if any(same(w, g) is None for w in want):
            unk += 1
        elif not any(same(w, g) for w in want):
            bad += 1
    if not bad and not unk:
        return True, ""
    if voc is not None and any(not w.isdigit() and w not in voc and not w.startswith(("p", "v", "0x")) for w in words(want)):
        return None, "names of the expected result are gone"
    a, b = atoms(want, names), atoms(got, names)
    if closure:
        a, b = closure(a), closure(b)
    if unk or unclean(got):
        # written in a form that is not reduced: decided by the stored fields it is made of
        if (a - b) and (b - a):
            return False, "made of other fields"
        return None, "not reduced"
    if a != b and not (closure and (a <= b or b <= a) and len(want) != len(got)):
        return False, "made of other fields"
    if len(want) == len(got) or numbers(want) != numbers(got):
        return False, "differs"
    if caps(want) != caps(got):
        return False, "differs"
    return None, "the alternatives are split differently"


def numbers(ts):
    return {w for w in words(ts) if w.isdigit()} | set(NUMBER.findall(" ".join(t if isinstance(t, str) else flat(t) for t in ts)))


def caps(ts):
    """enum variants and variant numbers in a result"""
    return {w for w in words(ts) if w[0].isupper() or VN.fullmatch(w)}


NUMBER = __import__("re").compile(r"(?<![A-Za-z_0-9])\d+")
VN = __import__("re").compile(r"v\d+")
