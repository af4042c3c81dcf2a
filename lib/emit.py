"""What a function of the writer emits: the structures and values it hands to the functions below it.

collect(): follow one function of src/write or src/build and record, for every call left opaque, the arguments
as canonical texts (structures field by field), for every structure built its fields, and the results."""
import re
import absint, bits, facts, prov, summ

BAL = re.compile(r"(?<![A-Za-z_0-9])(?<!::)(?:phi|phiw|jl|loop|post|elem|mo|err|IT|item|itf|ret|res|rep|cond|undef)\(")
IDX = re.compile(r"\[(?:\d+|\*)\]")


def starred(t):
    """replace the terms that name a place in a loop or an effect by *"""
    i = 0
    while True:
        m = BAL.search(t, i)
        if not m:
            break
        k, n = m.end(), 1
        while k < len(t) and n:
            n += (t[k] == "(") - (t[k] == ")")
            k += 1
        t = t[:m.start()] + "*" + t[k:]
        i = m.start() + 1
    return IDX.sub("[*]", t)


ZERO = re.compile(r"[UI]\d+\{0: default\(\[u8; \d+\]\)\}|[UI]\d+::new\w*\((?:endian|\w+|S0\(endian::\w+\)), (?:0|S\(0\))\)")


def zeros(t):
    """an encoded zero is the same in every byte order"""
    return ZERO.sub("0", t)


def short(d):
    return facts.simple(d).split("::")[-1]


def is_write(f):
    return f["file"].startswith(("src/write", "src/build"))


class Collect:
    def __init__(self, P, opaque):
        self.P, self.opaque = P, opaque
        self.got = {}

    def put(self, key, t, cap=400):
        t = starred(zeros(t))
        self.got.setdefault(key, set()).add(t if len(t) <= cap else "...")

    def text(self, E, e):
        e = bits.strip(e)
        E.width = {bits.strip(k): w for k, w in E.width.items()}
        E.signed = {bits.strip(k): w for k, w in E.signed.items()}
        return prov.obj(e, prov.source(self.P, E), self.P)

    def entry(self, key, E, v):
        o = self.text(E, E.value(v))
        self.obj(key, o)

    def obj(self, key, o):
        if isinstance(o, dict):
            for n, x in o["fields"].items():
                self.put("%s %s.%s" % (key, o["struct"], n), prov.flat(x))
        elif isinstance(o, list) and o[0] == "()":
            for i, x in enumerate(o[1:]):
                self.obj("%s #%d" % (key, i), x)
        else:
            self.put(key, prov.flat(o))

    def agg(self, ip, fr, st, ad, v, tid, vals):
        a = self.P.adts[ad]
        if not a.get("local") or a["kind"] != "struct" or ad.startswith("endian::"):
            return
        fs = a["variants"][0]["f"]
        if not fs or fs[0]["n"].isdigit():
            return
        E = summ.Expr(ip, st)
        E.typed = True
        for q, x in zip(fs, vals):
            self.put("{} %s.%s" % (short(ad), q["n"]), prov.flat(self.text(E, E.value(x))))

    def store(self, ip, fr, st, pl, v):
        """an assignment to a field of one of the crate's structures"""
        e = pl[1][-1]
        if not isinstance(e, list) or e[0] != "f":
            return
        T = self.P.types
        t = fr.f["locals"][pl[0]]
        for x in pl[1][:-1]:
            ty = T[t] if t is not None else None
            if ty is None:
                return
            if x == "*":
                t = ty.get("to")
            elif x[0] == "f":
                t = x[2]
            elif x[0] in ("i", "ci"):
                t = ty.get("of", ty.get("elem"))
            else:
                return
        ad = self.P.adts.get(T[t].get("def")) if t is not None else None
        if not ad or not ad.get("local") or ad["kind"] != "struct" or T[t]["def"].startswith("endian::"):
            return
        n = ad["variants"][0]["f"][e[1]]["n"]
        if n.isdigit():
            return
        E = summ.Expr(ip, st)
        E.typed = True
        self.put("{} %s.%s" % (short(T[t]["def"]), n), prov.flat(self.text(E, E.value(v))))

    def call(self, ip, c, st, t):
        d = facts.simple(c.d)
        g = self.P.fns.get(c.d)
        if not (g and is_write(g)) and not d.startswith(("write::", "build::")):
            return
        E = summ.Expr(ip, st)
        E.typed = True
        for i, a in enumerate(c.args):
            ty = self.P.types[c.atys[i]] if i < len(c.atys) and c.atys[i] is not None else None
            if i == 0 and ty and ty["k"] in ("ref", "ptr") and (ty.get("mut") or not g or any(n == "self" for n, _ in g["names"])):
                continue
            key = "%s(%d)" % ("::".join(d.split("::")[-2:]), i)
            try:
                o = self.text(E, E.value(a))
                if not isinstance(o, dict) and d.endswith("::write_pod") and ty and ty["k"] == "ref":
                    # a structure with one field is that field
                    key += " " + short(self.P.types[ty["to"]].get("def") or "")
                self.obj(key, o)
            except RecursionError:
                self.put("%s(%d)" % (d, i), "...")


def collect(P, d, opaque, force=None, used=None, secs=30, traces=64):
    C = Collect(P, opaque)
    S = summ.run(P, d, opaque=opaque, agg=C.agg, call=C.call, store=C.store, secs=secs, traces=traces, prep=prov.forcing(P, force, used) if force else None)
    f = P.fns[d]
    rt = P.types[f["locals"][0]]
    res = rt.get("def") == "core::result::Result"
    if rt["s"] != "()":
        for st, v in S.outs:
            E = summ.Expr(S.ip, st)
            E.typed = True
            e = E.value(v)
            e = bits.strip(e)
            if res and e[0] == "var" and e[1] == 1:
                continue
            if res and e[0] == "var" and e[1] == 0 and len(e) == 3:
                e = e[2]
            C.obj("->", C.text(E, e))
    return S.err, {k: sorted(v) for k, v in C.got.items()}
