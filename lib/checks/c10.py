"""C10: raw accessors return their own field, decoded once, in both widths and byte orders."""
import json, os, re
import multiprocessing as mp
import facts, summ, bits, prov
from report import Report

TABLE = os.path.join(facts.VERIF, "tables", "accessors.json")


def wire(P, d):
    a = P.adts.get(d)
    return bool(a and a.get("local") and (a["repr_c"] or a.get("transparent")) and not a["file"].startswith("src/read"))


def accessors(P):
    """functions over one on-disk structure (and a byte order, and flags)"""
    for d, f in sorted(P.fns.items()):
        if f["kind"] == "Closure" or f.get("derived") or not f["file"].startswith("src/read"):
            continue
        if f.get("impl_self") is None or not 1 <= f["argc"] <= 3:
            continue
        t = P.types[f["impl_self"]]
        if t["k"] != "adt" or not wire(P, t["def"]):
            continue
        self_t = P.types[f["locals"][1]]
        if self_t["k"] == "ref":
            self_t = P.types[self_t["to"]]
        if self_t["k"] != "adt" or self_t["def"] != t["def"]:
            continue
        if all(ok_arg(P, P.types[x]) for x in f["locals"][2:1 + f["argc"]]):
            yield d, f


def ok_arg(P, y):
    return y["k"] in ("param", "alias") or y["s"] in ("bool", "endian::LittleEndian", "endian::BigEndian", "endian::Endianness")


_P = None


def one(x):
    d, f = x
    out = []
    for c in prov.flags(_P, f):
        try:
            err, got = prov.results(_P, d, c)
        except Exception as x:
            err, got = repr(x)[:200], []
        out.append((prov.fkey(_P, f, c), d, f["name"], f["file"], f["line"], err, got))
    return out


def collect(P, items):
    global _P
    _P = P
    with mp.get_context("fork").Pool(8) as p:
        return [y for r in p.map(one, list(items), 8) for y in r]


def own_field(P, f):
    """the stored field an accessor is named after"""
    a = P.adts[P.types[f["impl_self"]]["def"]]
    n = f["name"]
    for q in a["variants"][0]["f"]:
        if q["n"] == n:
            return n
    return None


def plain(t):
    return t[3:] if t[:3] in ("LE ", "BE ") else t


# ------------------------------------------------------------ the byte order layer
def endian_rules(P, R):
    tid = {}
    for i, t in enumerate(P.types):
        if t["s"] in ("endian::Endianness", "endian::LittleEndian", "endian::BigEndian"):
            tid[t["s"].split("::")[1]] = i
    ad = P.adts["endian::Endianness"]
    names = [v["name"] if "name" in v else v.get("n") for v in ad["variants"]]
    who = [("LittleEndian", None, False), ("BigEndian", None, True)]
    for i, n in enumerate(names):
        who.append(("Endianness", i, n == "Big"))
    sel = {}
    for T, v, big in who:
        def setup(ip, st, args, T=T, v=v):
            args = list(args)
            if v is not None:
                args[0] = ("E", tid["Endianness"], ((v, ()),))
            return args

        def val(m, args=None, T=T, setup=setup):
            d = "<endian::%s as endian::Endian>::%s" % (T, m)
            env = {}
            if d not in P.fns:
                d = "endian::Endian::" + m
                env = {"Self": tid[T]}
            S = summ.run(P, d, env=env, setup=args or setup)
            es = [(summ.Expr(S.ip, st), v) for st, v in S.outs]
            return d, S, [(E, E.value(v)) for E, v in es]
        label = T if v is None else "%s::%s" % (T, names[v])
        for m, want in (("is_big_endian", big), ("is_little_endian", not big)):
            d, S, es = val(m)
            got = set()
            for E, e in es:
                B = prov.source(P, E)
                x = B.cond(e) if e[0] != "int" else None
                got.add({"True": True, "False": False, "1": True, "0": False}.get(x if x is not None else B.other(e)))
            R.oblige(not S.err and got == {want}, "%s@%s" % (m, label), "%s() of %s is %s, not always %s (%s)" % (m, label, sorted(map(str, got)), want, d),
                     sample="%s: %s() = %s" % (label, m, want))
        for m, flip in (("from_big_endian", False), ("from_little_endian", True)):
            for b in (False, True):
                d, S, es = val(m, lambda ip, st, a, b=b: [("B", b)])
                isbig = b != flip
                if T == "Endianness":
                    want = {"v1(v%d())" % names.index("Big" if isbig else "Little")}
                else:
                    want = {"v1(%s{})" % T if isbig == big else "v0()"}
                got = {prov.source(P, E).other(e) for E, e in es}
                R.oblige(not S.err and got == want, "%s@%s=%s" % (m, label, b), "%s(%s) of %s gives %s, expected %s" % (m, b, T, sorted(got), sorted(want)))
        for s in "ui":
            for w in (16, 32, 64):
                for dr in ("read", "write"):
                    m = "%s_%s%d" % (dr, s, w)
                    d, S, es = val(m)
                    if dr == "read":
                        # byte k of the array is bits 8k..; big endian puts the first byte highest
                        want = [(("param", 1), "bytes"), w]
                        ok = bool(es) and not S.err
                        for E, e in es:
                            x = prov.source(P, E).ev(bits.strip(e))
                            exp = [((("param", 1), "bytes"), ((w // 8 - 1 - i // 8) * 8 + i % 8) if big else i) for i in range(w)]
                            ok = ok and x is not None and list(x[0][:w]) == exp
                    else:
                        ok = bool(es) and not S.err
                        for E, e in es:
                            x = prov.source(P, E).array(bits.strip(e), w // 8)
                            exp = [(("param", 1), ((w // 8 - 1 - i // 8) * 8 + i % 8) if big else i) for i in range(w)]
                            ok = ok and x is not None and x == exp
                    R.oblige(ok, "%s@%s" % (m, label), "%s of %s does not convert between a %d-bit integer and %s-endian bytes: %s" % (m, label, w, "big" if big else "little", [prov.source(P, E).other(e) for E, e in es]),
                             sample="%s::%s is the %s-endian conversion of %d bits" % (label, m, "big" if big else "little", w))


def integer_rules(P, R):
    """U16..I64: get/new/set convert with the width of the type and the byte order given"""
    for s in "UI":
        for w in (16, 32, 64):
            n = "%s%d" % (s, w)
            rd, wr = "read_%s%d" % (s.lower(), w), "write_%s%d" % (s.lower(), w)
            base = "endian::%s::<E, T>::" % n
            cases = {
                "get": ["from_inner(%s(p1, self))" % rd],
                "new": ["%s(self, into_inner(p1))" % wr],
                "set": ["%s(p1, into_inner(p2))" % wr],
            }
            if w == 32:
                lc = s.lower() + "64"
                cases["get_" + lc] = ["from_inner(%s(p1, self))" % rd]
                cases["new_" + lc] = ["%s(self, into_inner(p1))" % wr]
                cases["new_%s_truncate" % lc] = ["%s(self, into_inner(p1)[0:32]%s)" % (wr, "s" if s == "I" else ""), "%s(self, into_inner(p1))" % wr, "%s(self, into_inner(p1) as %s32)" % (wr, s.lower())]
                cases["set_" + lc] = ["%s(p1, into_inner(p2))" % wr]
                cases["set_%s_truncate" % lc] = ["%s(p1, into_inner(p2)[0:32]%s)" % (wr, "s" if s == "I" else ""), "%s(p1, into_inner(p2))" % wr, "%s(p1, into_inner(p2) as %s32)" % (wr, s.lower())]
            for m, want in sorted(cases.items()):
                d = base + m
                if d not in P.fns:
                    R.violation("fn:" + d, "%s is not there" % d)
                    continue
                S = summ.run(P, d, opaque=prov.opaque)
                got = set()
                for st, v in S.outs:
                    E = summ.Expr(S.ip, st)
                    e = bits.strip(E.value(v))
                    if m.startswith("set"):
                        if e[:2] == ("var", 1):
                            continue
                        e = bits.strip(E.value(S.args[0]))
                    if e[:2] == ("var", 1) and "_64" not in m and m.startswith("new_"):
                        continue
                    if e[:2] == ("var", 0) and len(e) == 3:
                        e = e[2]
                    if e[0] == "struct" and e[1] == "endian::" + n:
                        e = e[2]
                    got.add(text(e))
                R.oblige(not S.err and bool(got) and got <= set(want), d, "%s gives %s, expected %s" % (d, sorted(got), want), sample="%s = %s" % (d, sorted(got)))


def text(e):
    if not isinstance(e, tuple):
        return str(e)
    if e[0] == "call":
        return "%s(%s)" % (e[1].split("::")[-1], ", ".join(text(x) for x in e[2:]))
    if e[0] == "fld" and e[1] == ("param", 0) and e[2] in ("0",):
        return "self"
    if e[0] == "param":
        return "self" if e[1] == 0 else "p%d" % e[1]
    if e[0] in ("cast", "wrap"):
        return "%s as %s" % (text(e[2]), e[1])
    if e[0] == "lin" and e[1] == 0 and len(e[2]) == 1 and e[2][0][1] == 1:
        return text(e[2][0][0])
    return summ.show(e)


def wrap_rules(P, R):
    """newtypes of constants hold the value unchanged"""
    n = 0
    for d, f in sorted(P.fns.items()):
        if f.get("trait_of") != "constants::Wrap" and not d.endswith((" as constants::Wrap>::into_inner", " as constants::Wrap>::from_inner")):
            continue
        if f["argc"] != 1 or "::Wrap::" in d and "<" not in d:
            continue
        S = summ.run(P, d)
        got = {str(bits.strip(summ.Expr(S.ip, st).value(v))) for st, v in S.outs}
        n += 1
        R.oblige(not S.err and got == {str(("param", 0))}, d, "%s does not hand the value on unchanged: %s" % (d, sorted(got)[:2]))
    R.floor("constant newtypes", n, 200)


def run(pid):
    R = Report(pid)
    P = facts.load()
    endian_rules(P, R)
    integer_rules(P, R)
    wrap_rules(P, R)
    tab = json.load(open(TABLE))
    names = prov.header_names(P)
    voc = prov.vocabulary(P)
    seen = own = 0
    unk = []
    for key, d, name, file, line, err, got in collect(P, accessors(P)):
        where = "%s:%d" % (file, line)
        want = tab.get(key)
        f = P.fns[d]
        if want is None:
            fld = own_field(P, f)
            if fld is None or err or not got:
                continue
            # an accessor named after a field returns that field
            bad = {plain(prov.flat(t)) for t in got} - {fld}
            if bad and prov.unclean(got):
                unk.append(key)
                continue
            own += 1
            R.oblige(not bad, key, "%s: %s is named after field %s but returns %s" % (where, d, fld, sorted(bad)), sample="%s = %s" % (key, fld))
            continue
        seen += 1
        ok, why = prov.agree(P, want, err, got, names, voc)
        if ok is None:
            unk.append(key)
            continue
        R.oblige(ok, key, "%s: %s returns %s, the format defines %s" % (where, d, [prov.flat(t) for t in got] or err, [prov.flat(t) for t in want]), sample="%s = %s" % (key, " | ".join(map(prov.flat, want))))
    R.floor("accessors of a field of the same name", own, 340)
    R.floor("accessors with an expected value", seen, 75)
    R.assumptions = ["the on-disk structures have the layout of the format (C06) and the numeric constants of its specification (C05, C07)",
                     "tables/accessors.json states which bits of which field each derived accessor denotes; it was reviewed against the format specifications"]
    R.finish("every accessor over an on-disk structure is summarised symbolically from MIR (all paths), reduced to which bits of which stored field in which byte order it returns, and compared with the field it is named after or the bits the format defines; the byte-order layer is decided for each byte order",
             accessors=own + seen, undecided=unk, functions_analysed=own + seen)
