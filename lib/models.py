"""Models of the standard library (and of the ReadRef contract) for the abstract interpreter.

A model is m(c: CallCtx, st: State) -> [(State, value)] or None (None = treat as unknown call)."""
import re
from dom import *
from absint import OPTION, RESULT, CFLOW, VAL

REG = {}


def model(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


_PRE = [
    (re.compile(r"^core::option::Option::<.*>::(\w+)$"), "Option::"),
    (re.compile(r"^core::result::Result::<.*>::(\w+)$"), "Result::"),
    (re.compile(r"^core::num::<impl \w+>::(\w+)$"), "int::"),
    (re.compile(r"^core::slice::<impl \[T\]>::(\w+)$"), "slice::"),
    (re.compile(r"^(?:alloc|std)::slice::<impl \[T\]>::(\w+)$"), "slice::"),
    (re.compile(r"^core::str::<impl str>::(\w+)$"), "str::"),
    (re.compile(r"^alloc::str::<impl str>::(\w+)$"), "str::"),
    (re.compile(r"^alloc::vec::Vec::<.*>::(\w+)$"), "Vec::"),
    (re.compile(r"^alloc::string::String::(\w+)$"), "String::"),
    (re.compile(r"^core::ptr::\w+::<impl .*>::(\w+)$"), "ptr::"),
    (re.compile(r"^core::panicking::(\w+)$"), "panic::"),
    (re.compile(r"^core::mem::(\w+)$"), "mem::"),
    (re.compile(r"^core::cmp::(\w+)$"), "cmp::"),
    (re.compile(r"^core::cell::RefCell::<.*>::(\w+)$"), "RefCell::"),
    (re.compile(r"^core::cell::Cell::<.*>::(\w+)$"), "Cell::"),
    (re.compile(r"^core::char::methods::<impl char>::(\w+)$"), "char::"),
    (re.compile(r"^core::array::<impl \[T; N\]>::(\w+)$"), "array::"),
]
_AS = re.compile(r" as (?:[\w]+::)*(\w+)(?:<.*>)?>::(\w+)$")
_IMPL = re.compile(r"<impl (?:[\w]+::)*(\w+)(?:<.*?>)? for .*>::(\w+)$")
_PLAIN = re.compile(r"^(?:core|alloc|std)(?:::\w+)*::([A-Z]\w*)::(\w+)$")


def short(d):
    for r, p in _PRE:
        m = r.match(d)
        if m:
            if "%s" in p:
                return p % m.group(1) + m.group(2)
            return p + m.group(1)
    if d.startswith("<") or "<impl " in d:
        m = _AS.search(d)
        if m:
            return m.group(1) + "::" + m.group(2)
        m = _IMPL.search(d)
        if m:
            return m.group(1) + "::" + m.group(2)
    m = _PLAIN.match(d)
    if m:
        return m.group(1) + "::" + m.group(2)
    return d


class Registry:
    def __init__(self, ip):
        self.ip = ip
        self.cache = {}
        self.extra = {}

    def get(self, d):
        r = self.cache.get(d, 0)
        if r == 0:
            r = self.extra.get(d)
            if r is None and d not in self.ip.P.fns:
                r = REG.get(d) or REG.get(short(d))
            if r is None and d in self.ip.P.traits_items:
                r = REG.get(d)
            self.cache[d] = r
        return r

    def __setitem__(self, d, m):
        self.extra[d] = m
        self.cache.pop(d, None)


def install(ip):
    P = ip.P
    if not hasattr(P, "traits_items"):
        P.traits_items = set()
    ip.models = Registry(ip)
    T = ip.T
    def find(s):
        for i, t in enumerate(T.T):
            if t["s"] == s:
                return i
        return None
    ip.u8 = find("u8")
    ip.usize = find("usize")
    ip.unit = T.intern({"k": "tuple", "of": [], "s": "()"})
    ip.boolt = find("bool")


# ------------------------------------------------------------------ helpers
def unit(c):
    return ("S", c.ip.unit, ())


def some(c, st, v, tid=None):
    return c.ip.mkE(tid if tid is not None else c.dt, 1, (v,))


def none(c, tid=None):
    return c.ip.mkE(tid if tid is not None else c.dt, 0, ())


def ok(c, v, tid=None):
    return c.ip.mkE(tid if tid is not None else c.dt, 0, (v,))


def err(c, v, tid=None):
    return c.ip.mkE(tid if tid is not None else c.dt, 1, (v,))


def fty(c, tid, var, i=0):
    try:
        fs = c.ip.T.fields(tid, var)
        return fs[i] if i < len(fs) else None
    except Exception:
        return None


def fork(c, st, cond):
    """(state where cond, state where not cond), None when infeasible"""
    D = c.ip.D
    d = D.decide(st, cond)
    if d is True:
        return st, None
    if d is False:
        return None, st
    a, b = st.copy(), st.copy()
    if not D.assume(a, cond):
        a = None
    if not D.assume(b, D.neg(cond)):
        b = None
    return a, b


def alts(c, st, v, tid=None):
    """[(state, variant, fields)] of an Option/Result value"""
    ip = c.ip
    v = ip.norm(st, v)
    if v[0] == "R":
        v2 = ip.get(st, v[1], v[2])
        if v2 is not None:
            v = ip.norm(st, v2)
    if v[0] == "E":
        if len(v[2]) == 1:
            return [(st, v[2][0][0], v[2][0][1])]
        out = []
        for a in v[2]:
            s = st.copy()
            if all(ip.D.assume_le(s, (-bd, p)) for p, bd in a[2]):
                out.append((s, a[0], a[1]))
        return out
    if v[0] == "U":
        t = v[2] if v[2] is not None else tid
        if t is None:
            return None
        ad = ip.T.adt(t)
        if not ad or ad["kind"] != "enum":
            return None
        ex = ip.TM.known(st, v[1])
        ip.TM.etype[v[1]] = t
        out = []
        for i in range(len(ad["variants"])):
            if i in ex if isinstance(ex, frozenset) else ex is not None and i != ex:
                continue
            s = st.copy()
            s.vk[v[1]] = i
            out.append((s, i, ip.vfields(v[1], t, i)))
        return out
    return None


def arg_alts(c, st, i=0):
    return alts(c, st, c.args[i], c.atys[i] if i < len(c.atys) else None)


def ref_alts(c, st, i=0):
    """[(state, variant, root, path)] for &Option/&Result arguments"""
    ip = c.ip
    v = ip.norm(st, c.args[i])
    if v[0] != "R":
        return None
    r = ip.split_enum(st, v[1], v[2])
    if r is None:
        return None
    return [(s, k, v[1], v[2]) for s, k in r]


def call1(c, st, f, args, dt):
    return c.ip.call_value(st, c.fr, c.b, f, list(args), dt)


def opaque(c, st, *extra):
    return c.ip.call_opaque(c, st)


def lin(c, st, v):
    ip = c.ip
    v = ip.norm(st, v)
    if v[0] == "R":
        x = ip.get(st, v[1], v[2])
        if x is not None:
            v = ip.norm(st, x)
    return ip.asint(st, v)


def deref(c, st, v):
    ip = c.ip
    v = ip.norm(st, v)
    if v[0] == "R":
        x = ip.get(st, v[1], v[2])
        if x is not None:
            return ip.norm(st, x)
    return v


def aslice(c, st, v, aty=None):
    """slice value of a reference to slice/array/Vec/str (possibly doubly referenced)"""
    ip = c.ip
    for _ in range(4):
        v = ip.norm(st, v)
        if v[0] == "L":
            return v
        if v[0] == "V":
            t = ip.T.T[v[3]]
            e = t["args"][0] if t["def"] == "alloc::vec::Vec" else ip.u8
            return ("L", v[1], lc(0), v[2], e)
        if v[0] == "R":
            x = ip.get(st, v[1], v[2])
            if x is None:
                return None
            n = ip.arrlen(x)
            if n is not None:
                tid = x[1] if x[0] == "A" else x[2]
                e = ip.T.T[tid]["of"]
                if x[0] == "A":
                    base = ip.TM.mk(("aref", tuple(TRef(ip.key(st, y)) for y in x[2])))
                    for y in x[2]:
                        root = ("M", ip.key(st, y), e)
                        if y[0] not in ("U", "I", "B") and root not in st.mem:
                            st.mem[root] = y
                else:
                    base = ip.mk("aslice", TRef(x[1]))
                return ("L", base, lc(0), lc(n), e)
            v = x
            continue
        if v[0] == "U" and v[2] is not None:
            t = ip.T.T[v[2]]
            if t["k"] == "slice":
                return ip.mkslice(v[1], t["of"])
            if t["k"] == "str":
                return ip.mkslice(v[1], ip.u8)
            if t["k"] == "array":
                n = ip.arrlen(v)
                if n is not None:
                    return ("L", ip.mk("aslice", TRef(v[1])), lc(0), lc(n), t["of"])
                return ip.mkslice(ip.mk("aslice", TRef(v[1])), t["of"])
        return None
    return None


def oblige(c, st, kind, cond, detail=""):
    """records an obligation; returns the state where it holds (or None)"""
    ip = c.ip
    d = ip.D.decide(st, cond)
    ip.event(c.fr, c.b, kind, d is True, detail or (ip.show_cond(cond) if d is not True else ""))
    if d is False:
        return None
    if d is None and not ip.D.assume(st, cond):
        return None
    return st


def le(a, b):
    return ("le", lsub(a, b))


def ltc(a, b):
    return ("le", laddc(lsub(a, b), 1))


def rangeof(c, st, v, n):
    """(start, end, kind) of a range argument over a sequence of length n"""
    ip = c.ip
    v = deref(c, st, v)
    tid = v[1] if v[0] == "S" else (v[2] if v[0] == "U" else None)
    if tid is None:
        return None
    t = ip.T.T[tid]
    if t["k"] != "adt":
        return None
    d = t["def"].split("::")[-1]
    v = ip.expand(st, v)
    f = [ip.asint(st, ip.norm(st, x)) for x in v[2]]
    if d == "Range" and None not in f:
        return f[0], f[1]
    if d == "RangeFrom" and None not in f:
        return f[0], n
    if d == "RangeTo" and None not in f:
        return lc(0), f[0]
    if d == "RangeFull":
        return lc(0), n
    if d == "RangeInclusive" and None not in f[:2]:
        return f[0], laddc(f[1], 1)
    if d == "RangeToInclusive" and None not in f:
        return lc(0), laddc(f[0], 1)
    return None


def sub(L, a, b):
    return ("L", L[1], ladd(L[2], a), lsub(b, a), L[4])


def termof(c, st, name):
    return c.ip.TM.mk(("call", c.d, name) + tuple(TRef(c.ip.key(st, a)) for a in c.args))


def fresh(c, st, tag, rng=None):
    keys = tuple(TRef(c.ip.key(st, a)) for a in c.args)
    return c.ip.TM.mk(("res", c.d, tag) + keys, rng)


# ------------------------------------------------------------------ Option / Result
@model("Try::branch")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    a = ip.T.T[c.atys[0]] if c.atys[0] is not None else None
    isopt = a is not None and a["k"] == "adt" and a["def"] == OPTION
    if a is None or a["k"] != "adt" or a["def"] not in (OPTION, RESULT):
        return None
    rt = fty(c, c.dt, 1)
    def conv(var, fs):
        if isopt:
            return (0, fs) if var == 1 else (1, (ip.mkE(rt, 0, ()),))
        return (0, fs) if var == 0 else (1, (ip.mkE(rt, 1, fs),))
    if v[0] == "E":
        l = []
        for x in v[2]:
            k, fs = conv(x[0], x[1])
            l.append((k, tuple(fs), x[2]))
        return [(st, ("E", c.dt, tuple(l)))]
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        k2, f2 = conv(k, fs)
        out.append((s, ip.mkE(c.dt, k2, f2)))
    return out


@model("FromResidual::from_residual")
def _(c, st):
    ip = c.ip
    t = ip.T.T[c.dt]
    if t["k"] != "adt":
        return None
    if t["def"] == OPTION:
        return [(st, none(c))]
    if t["def"] == RESULT:
        v = ip.norm(st, c.args[0])
        e = None
        if v[0] == "E":
            for a in v[2]:
                if a[0] == 1:
                    e = a[1][0]
        want = fty(c, c.dt, 1)
        if e is None:
            e = ip.U(fresh(c, st, "e"), want)
        else:
            have = fty(c, c.atys[0], 1) if c.atys[0] is not None else None
            if have is not None and have != want:
                e = ip.U(ip.mk("from", TRef(ip.key(st, e))), want)
        return [(st, err(c, e))]
    return None


def mapper(which, wrap):
    def m(c, st):
        r = arg_alts(c, st)
        if r is None:
            return None
        out = []
        for s, k, fs in r:
            if k == which:
                for s2, v in call1(c, s, c.args[1], [fs[0]], fty(c, c.dt, which)):
                    out.append((s2, c.ip.mkE(c.dt, which, (v,))))
            else:
                out.append((s, c.ip.mkE(c.dt, k, fs)))
        return out
    return m


REG["Option::map"] = mapper(1, None)
REG["Result::map"] = mapper(0, None)
REG["Result::map_err"] = mapper(1, None)


@model("Option::and_then")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 1:
            out += call1(c, s, c.args[1], [fs[0]], c.dt)
        else:
            out.append((s, none(c)))
    return out


@model("Result::and_then")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 0:
            out += call1(c, s, c.args[1], [fs[0]], c.dt)
        else:
            out.append((s, err(c, fs[0])))
    return out


@model("Option::or_else")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 1:
            out.append((s, some(c, s, fs[0])))
        else:
            out += call1(c, s, c.args[1], [], c.dt)
    return out


@model("Result::or_else")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 0:
            out.append((s, ok(c, fs[0])))
        else:
            out += call1(c, s, c.args[1], [fs[0]], c.dt)
    return out


@model("Option::or")
def _(c, st):
    r = arg_alts(c, st)
    return r and [(s, some(c, s, fs[0]) if k == 1 else c.args[1]) for s, k, fs in r]


@model("Option::xor", "Option::and")
def _(c, st):
    return None


@model("Option::filter")
def _(c, st):
    ip = c.ip
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 0:
            out.append((s, none(c)))
            continue
        root = ("L", c.fr.fid, "flt%d" % c.b)
        s.mem[root] = fs[0]
        for s2, v in call1(c, s, c.args[1], [("R", root, ())], ip.boolt):
            v = ip.norm(s2, v)
            a, b = fork(c, s2, v[1]) if v[0] == "B" else (s2, s2.copy())
            for s3, val in ((a, True), (b, False)):
                if s3 is None:
                    continue
                x = s3.mem.pop(root, fs[0])
                out.append((s3, some(c, s3, x) if val else none(c)))
    return out


@model("Option::ok_or", "Option::ok_or_else")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 1:
            out.append((s, ok(c, fs[0])))
        elif c.d.endswith("else"):
            out += [(s2, err(c, v)) for s2, v in call1(c, s, c.args[1], [], fty(c, c.dt, 1))]
        else:
            out.append((s, err(c, c.args[1])))
    return out


@model("Result::ok")
def _(c, st):
    r = arg_alts(c, st)
    return r and [(s, some(c, s, fs[0]) if k == 0 else none(c)) for s, k, fs in r]


@model("Result::err")
def _(c, st):
    r = arg_alts(c, st)
    return r and [(s, some(c, s, fs[0]) if k == 1 else none(c)) for s, k, fs in r]


def good(c):
    t = c.ip.T.T[c.atys[0]] if c.atys[0] is not None else {}
    if t.get("k") == "ref":
        t = c.ip.T.T[t["to"]]
    if t.get("def") == OPTION:
        return 1
    if t.get("def") == RESULT:
        return 0
    return 1 if "Option" in c.d else 0


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        c.ip.event(c.fr, c.b, "unwrap", False, "unknown")
        return None
    g = good(c)
    out = [(s, fs[0]) for s, k, fs in r if k == g]
    c.ip.event(c.fr, c.b, "unwrap", all(k == g for _, k, _ in r), c.d.split("::")[-1])
    return out


@model("Result::unwrap_err", "Result::expect_err")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        c.ip.event(c.fr, c.b, "unwrap", False, "unknown")
        return None
    c.ip.event(c.fr, c.b, "unwrap", all(k == 1 for _, k, _ in r), "unwrap_err")
    return [(s, fs[0]) for s, k, fs in r if k == 1]


@model("Option::unwrap_unchecked", "Result::unwrap_unchecked")
def _(c, st):
    return REG["Option::unwrap"](c, st)


@model("Option::unwrap_or", "Result::unwrap_or")
def _(c, st):
    r = arg_alts(c, st)
    g = good(c)
    return r and [(s, fs[0] if k == g else c.args[1]) for s, k, fs in r]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    g = good(c)
    out = []
    for s, k, fs in r:
        if k == g:
            out.append((s, fs[0]))
        else:
            out += call1(c, s, c.args[1], fs, c.dt)
    return out


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(c, st):
    r = arg_alts(c, st)
    g = good(c)
    return r and [(s, fs[0] if k == g else default(c, s, c.dt)) for s, k, fs in r]


@model("Option::map_or", "Result::map_or")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    g = good(c)
    out = []
    for s, k, fs in r:
        if k == g:
            out += call1(c, s, c.args[2], [fs[0]], c.dt)
        else:
            out.append((s, c.args[1]))
    return out


@model("Option::map_or_else", "Result::map_or_else")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    g = good(c)
    out = []
    for s, k, fs in r:
        if k == g:
            out += call1(c, s, c.args[2], [fs[0]], c.dt)
        else:
            out += call1(c, s, c.args[1], fs, c.dt)
    return out


def default(c, st, tid):
    ip = c.ip
    t = ip.T.T[tid]
    k = t["k"]
    if k in ("uint", "int"):
        return ("I", lc(0))
    if k == "bool":
        return ("B", False)
    if k == "tuple":
        return ("S", tid, tuple(default(c, st, x) for x in t["of"]))
    if k == "adt":
        if t["def"] == OPTION:
            return ip.mkE(tid, 0, ())
        if t["def"] in ("alloc::vec::Vec", "alloc::string::String"):
            return ("V", ip.mk("newvec"), lc(0), tid)
        if t["def"] == "core::marker::PhantomData":
            return ("S", tid, ())
        if t["def"] == "core::slice::Iter":
            return ("IT", "slice", (("L", ip.mk("emptyslice"), lc(0), lc(0), t["args"][-1]),))
    if k == "ref":
        to = ip.T.T[t["to"]]
        if to["k"] == "slice":
            return ("L", ip.mk("emptyslice"), lc(0), lc(0), to["of"])
        if to["k"] == "str":
            return ("L", ip.mk("emptyslice"), lc(0), lc(0), ip.u8)
    return ip.U(ip.mk("default", t["s"]), tid)


@model("Default::default")
def _(c, st):
    ip = c.ip
    t = ip.T.T[c.dt]
    if c.d in ip.P.fns:
        return None
    return [(st, default(c, st, c.dt))]


def tester(which):
    def m(c, st):
        ip = c.ip
        v = ip.norm(st, c.args[0])
        # keep it lazy when possible: decide after a split of the place
        r = ref_alts(c, st)
        if r is None:
            r = arg_alts(c, st)
            return r and [(s, ("B", k == which)) for s, k, fs in r]
        return [(s, ("B", k == which)) for s, k, _, _ in r]
    return m


REG["Option::is_some"] = REG["Result::is_err"] = tester(1)
REG["Option::is_none"] = REG["Result::is_ok"] = tester(0)


def tester_and(which, neg_default):
    def m(c, st):
        r = arg_alts(c, st)
        if r is None:
            return None
        out = []
        for s, k, fs in r:
            if k == which:
                out += call1(c, s, c.args[1], [fs[0]], c.ip.boolt)
            else:
                out.append((s, ("B", neg_default)))
        return out
    return m


REG["Option::is_some_and"] = REG["Result::is_err_and"] = tester_and(1, False)
REG["Result::is_ok_and"] = tester_and(0, False)
REG["Option::is_none_or"] = tester_and(1, True)


def asref(mutable):
    def m(c, st):
        r = ref_alts(c, st)
        if r is None:
            return None
        out = []
        for s, k, root, path in r:
            fs = c.ip.T.fields(c.dt, k)
            out.append((s, c.ip.mkE(c.dt, k, tuple(("R", root, path + (("d", k), i)) for i in range(len(fs))))))
        return out
    return m


for _n in ("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut"):
    REG[_n] = asref(False)


@model("Option::as_deref", "Option::as_deref_mut", "Result::as_deref")
def _(c, st):
    ip = c.ip
    r = ref_alts(c, st)
    if r is None:
        return None
    g = good(c)
    out = []
    for s, k, root, path in r:
        if k != g:
            fs = ip.T.fields(c.dt, k)
            out.append((s, ip.mkE(c.dt, k, tuple(("R", root, path + (("d", k), i)) for i in range(len(fs))))))
            continue
        v = ("R", root, path + (("d", k), 0))
        L = aslice(c, s, v)
        x = ip.get(s, root, path + (("d", k), 0))
        if x is not None and ip.norm(s, x)[0] == "R":
            out.append((s, ip.mkE(c.dt, k, (ip.norm(s, x),))))
        elif L is not None:
            out.append((s, ip.mkE(c.dt, k, (L,))))
        else:
            out.append((s, ip.mkE(c.dt, k, (ip.U(ip.mk("deref_", TRef(ip.key(s, v))), fty(c, c.dt, k)),))))
    return out


@model("Option::copied", "Option::cloned", "Result::copied", "Result::cloned")
def _(c, st):
    ip = c.ip
    r = arg_alts(c, st)
    if r is None:
        return None
    g = good(c)
    out = []
    for s, k, fs in r:
        if k == g:
            v = ip.norm(s, fs[0])
            x = None
            if v[0] == "R":
                x = ip.get(s, v[1], v[2])
            elif v[0] == "L":
                x = None
            if x is None:
                x = ip.U(ip.mk("deref", TRef(ip.key(s, v))), fty(c, c.dt, k))
            if x[0] == "U" and x[2] is None:
                x = ip.U(x[1], fty(c, c.dt, k))
            out.append((s, ip.mkE(c.dt, k, (x,))))
        else:
            out.append((s, ip.mkE(c.dt, k, fs)))
    return out


@model("Option::take")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    if v[0] != "R":
        return None
    x = ip.get(st, v[1], v[2])
    if x is None:
        return None
    ip.write(st, ("P", v[1], v[2]), none(c))
    return [(st, x)]


@model("Option::replace", "mem::replace")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    if v[0] != "R":
        return None
    x = ip.get(st, v[1], v[2])
    if x is None:
        return None
    n = c.args[1] if c.d.endswith("mem::replace") else ip.mkE(c.dt, 1, (c.args[1],))
    ip.write(st, ("P", v[1], v[2]), n)
    return [(st, x)]


@model("mem::take")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    if v[0] != "R":
        return None
    x = ip.get(st, v[1], v[2])
    if x is None:
        return None
    ip.write(st, ("P", v[1], v[2]), default(c, st, c.dt))
    return [(st, x)]


@model("Option::insert", "Option::get_or_insert")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    if v[0] != "R" or c.d.endswith("get_or_insert"):
        return None
    t = ip.T.T[c.atys[0]]
    ip.write(st, ("P", v[1], v[2]), ip.mkE(t["to"], 1, (c.args[1],)))
    return [(st, ("R", v[1], v[2] + (("d", 1), 0)))]


@model("Option::transpose", "Result::transpose")
def _(c, st):
    ip = c.ip
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    if "Option" in c.d.split("::<")[0]:
        # Option<Result<T,E>> -> Result<Option<T>,E>
        inner = fty(c, c.dt, 0)
        for s, k, fs in r:
            if k == 0:
                out.append((s, ok(c, ip.mkE(inner, 0, ()))))
                continue
            q = alts(c, s, fs[0], fty(c, c.atys[0], 1))
            if q is None:
                return None
            for s2, k2, f2 in q:
                out.append((s2, ok(c, ip.mkE(inner, 1, f2)) if k2 == 0 else err(c, f2[0])))
    else:
        inner = fty(c, c.dt, 1)
        for s, k, fs in r:
            if k == 1:
                out.append((s, some(c, s, ip.mkE(inner, 1, fs))))
                continue
            q = alts(c, s, fs[0], fty(c, c.atys[0], 0))
            if q is None:
                return None
            for s2, k2, f2 in q:
                out.append((s2, some(c, s2, ip.mkE(inner, 0, f2)) if k2 == 1 else none(c)))
    return out


@model("Option::flatten")
def _(c, st):
    r = arg_alts(c, st)
    if r is None:
        return None
    return [(s, fs[0] if k == 1 else none(c)) for s, k, fs in r]


@model("Option::zip")
def _(c, st):
    ip = c.ip
    r = arg_alts(c, st)
    if r is None:
        return None
    out = []
    for s, k, fs in r:
        if k == 0:
            out.append((s, none(c)))
            continue
        q = alts(c, s, c.args[1], c.atys[1])
        if q is None:
            return None
        for s2, k2, f2 in q:
            out.append((s2, some(c, s2, ("S", fty(c, c.dt, 1), (fs[0], f2[0]))) if k2 == 1 else none(c)))
    return out


@model("Option::into_iter", "Option::iter")
def _(c, st):
    return None


# ------------------------------------------------------------------ integers
def irange(c, tid):
    return c.ip.T.int_range(tid)


def exact(c, st, op):
    """exact (mathematical) value of a binary op on the two integer arguments"""
    ip = c.ip
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    if a is None or b is None:
        return None, a, b
    if op == "add":
        return ladd(a, b), a, b
    if op == "sub":
        return lsub(a, b), a, b
    if op == "mul":
        return ip.mul(a, b), a, b
    return None, a, b


def infit(l, rng):
    return ("and", ("le", laddc(l, -rng[1])), ("le", laddc(lscale(l, -1), rng[0])))


@model("int::checked_add", "int::checked_sub", "int::checked_mul")
def _(c, st):
    l, a, b = exact(c, st, c.d.rsplit("_", 1)[1])
    tid = fty(c, c.dt, 1)
    rng = irange(c, tid)
    if l is None or rng is None:
        return None
    g, bad = fork(c, st, infit(l, rng))
    out = []
    if g is not None:
        out.append((g, some(c, g, ("I", l))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("int::overflowing_add", "int::overflowing_sub", "int::overflowing_mul")
def _(c, st):
    ip = c.ip
    op = c.d.rsplit("_", 1)[1]
    l, a, b = exact(c, st, op)
    tid = c.atys[0]
    rng = irange(c, tid)
    if l is None or rng is None:
        return None
    g, bad = fork(c, st, infit(l, rng))
    out = []
    if g is not None:
        out.append((g, ("S", c.dt, (("I", l), ("B", False)))))
    if bad is not None:
        out.append((bad, ("S", c.dt, (ip.wrapped(bad, op, l, tid, None), ("B", True)))))
    return out


@model("int::wrapping_add", "int::wrapping_sub", "int::wrapping_mul")
def _(c, st):
    op = c.d.rsplit("_", 1)[1]
    l, a, b = exact(c, st, op)
    if l is None:
        return None
    return [(st, c.ip.wrapped(st, op, l, c.dt, None))]


@model("int::wrapping_neg")
def _(c, st):
    a = lin(c, st, c.args[0])
    return None if a is None else [(st, c.ip.wrapped(st, "neg", lscale(a, -1), c.dt, None))]


@model("int::saturating_add", "int::saturating_sub", "int::saturating_mul")
def _(c, st):
    l, a, b = exact(c, st, c.d.rsplit("_", 1)[1])
    rng = irange(c, c.dt)
    if l is None or rng is None:
        return None
    out = []
    g, hi = fork(c, st, ("le", laddc(l, -rng[1])))
    if hi is not None:
        out.append((hi, ("I", lc(rng[1]))))
    if g is not None:
        g, lo = fork(c, g, ("le", laddc(lscale(l, -1), rng[0])))
        if lo is not None:
            out.append((lo, ("I", lc(rng[0]))))
        if g is not None:
            out.append((g, ("I", l)))
    return out


@model("int::wrapping_shl", "int::wrapping_shr")
def _(c, st):
    ip = c.ip
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    rng = irange(c, c.dt)
    if a is None or b is None or rng is None:
        return None
    op = "Shl" if c.d.endswith("shl") else "Shr"
    return [(st, ("I", ip.intop(st, op, a, b, rng, c.dt)))]


@model("int::checked_shl", "int::checked_shr")
def _(c, st):
    ip = c.ip
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    tid = fty(c, c.dt, 1)
    rng = irange(c, tid)
    if a is None or b is None or rng is None:
        return None
    bits = ip.T.T[tid]["bits"]
    op = "Shl" if c.d.endswith("shl") else "Shr"
    g, bad = fork(c, st, ("le", laddc(b, 1 - bits)))
    out = []
    if g is not None:
        out.append((g, some(c, g, ("I", ip.intop(g, op, a, b, rng, tid)))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("int::checked_div", "int::checked_rem")
def _(c, st):
    ip = c.ip
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    tid = fty(c, c.dt, 1)
    rng = irange(c, tid)
    if a is None or b is None or rng is None:
        return None
    g, bad = fork(c, st, ("ne", b))
    out = []
    if g is not None:
        out.append((g, some(c, g, ("I", ip.intop(g, "Div" if c.d.endswith("div") else "Rem", a, b, rng, tid)))))
        if rng[0] < 0:
            out.append((g.copy(), none(c)))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("int::checked_next_power_of_two", "int::checked_pow", "int::checked_neg", "int::checked_ilog2", "int::checked_next_multiple_of")
def _(c, st):
    return None


@model("int::trailing_zeros", "int::leading_zeros", "int::count_ones", "int::count_zeros")
def _(c, st):
    t = fresh(c, st, "bits", (0, 128))
    bits = c.ip.T.T[c.atys[0]].get("bits", 128) if c.atys[0] is not None else 128
    c.ip.TM.mk(c.ip.TM.ops[t], (0, bits))
    return [(st, ("I", lt(t)))]


@model("int::is_power_of_two")
def _(c, st):
    a = lin(c, st, c.args[0])
    if a is None:
        return None
    if not a[1]:
        return [(st, ("B", a[0] > 0 and a[0] & (a[0] - 1) == 0))]
    # false for 0
    t = fresh(c, st, "pow2")
    z, nz = fork(c, st, ("eq", a))
    out = []
    if z is not None:
        out.append((z, ("B", False)))
    if nz is not None:
        out.append((nz, ("B", ("t", t))))
    return out


@model("int::div_ceil")
def _(c, st):
    ip = c.ip
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    if a is None or b is None:
        return None
    if oblige(c, st, "div_zero", ("ne", b)) is None:
        return []
    t = fresh(c, st, "dc", irange(c, c.dt))
    ip.TM.axiom(t, lsub(lt(t), a))
    return [(st, ("I", lt(t)))]


@model("int::next_multiple_of", "int::pow", "int::ilog2", "int::ilog10", "int::isqrt", "int::abs", "int::next_power_of_two", "int::strict_add")
def _(c, st):
    c.ip.event(c.fr, c.b, "overflow:" + c.d.split("::")[-1], False, c.d)
    return None


@model("int::unsigned_abs", "int::swap_bytes", "int::reverse_bits", "int::rotate_left", "int::rotate_right",
       "int::from_le_bytes", "int::from_be_bytes", "int::from_ne_bytes", "int::to_le_bytes", "int::to_be_bytes",
       "int::to_ne_bytes", "int::to_le", "int::to_be", "int::from_le", "int::from_be", "int::abs_diff")
def _(c, st):
    return None


@model("int::is_ascii_digit", "char::is_ascii_digit", "int::is_ascii", "char::is_ascii")
def _(c, st):
    a = lin(c, st, c.args[0])
    if a is None:
        return None
    if c.d.endswith("digit"):
        return [(st, ("B", ("and", ("le", laddc(lscale(a, -1), 48)), ("le", laddc(a, -57)))))]
    return [(st, ("B", ("le", laddc(a, -127))))]


@model("char::to_digit")
def _(c, st):
    r = lin(c, st, c.args[1])
    if r is None or r[1]:
        return None
    if not 2 <= r[0] <= 36:
        c.ip.event(c.fr, c.b, "to_digit", False, "radix")
    t = fresh(c, st, "digit", (0, r[0] - 1))
    return [(st, some(c, st, ("I", lt(t)))), (st.copy(), none(c))]


@model("Ord::min", "cmp::min", "Ord::max", "cmp::max")
def _(c, st):
    ip = c.ip
    a, b = ip.asint(st, ip.norm(st, c.args[0])), ip.asint(st, ip.norm(st, c.args[1]))
    if a is None or b is None or len(c.args) != 2:
        return None
    mn = c.d.endswith("min")
    x, y = fork(c, st, le(a, b))
    out = []
    if x is not None:
        out.append((x, ("I", a if mn else b)))
    if y is not None:
        out.append((y, ("I", b if mn else a)))
    return out


@model("Ord::clamp")
def _(c, st):
    return None


@model("From::from", "Into::into")
def _(c, st):
    ip = c.ip
    src, dst = c.atys[0], c.dt
    if src is None:
        src = ip.vtype(c.args[0])
    if src == dst and src is not None:
        return [(st, c.args[0])]
    if src is None or dst is None:
        return None
    ts, td = ip.T.T[src], ip.T.T[dst]
    if ts["k"] in ("uint", "int", "bool", "char") and td["k"] in ("uint", "int", "char"):
        v = ip.norm(st, c.args[0])
        l = ip.asint(st, v)
        if l is None:
            return None
        r = ip.intcast(st, l, dst)
        return None if r is None else [(st, r)]
    if short(c.d) == "Into::into":
        fn = {"def": "core::convert::From::from", "trait": "core::convert::From", "name": "from", "args": [dst, src]}
        hit = ip.T.find_impl("core::convert::From", [dst, src])
        if hit:
            return ip.call_fn(st, c.fr, c.b, fn, {}, c.args, c.atys, c.dt)
        if td["k"] == "adt" and td["def"] == OPTION and td["args"][0] == src:
            return [(st, some(c, st, c.args[0]))]
        # pure conversion (the widening of the format's word, of a generic integer, ...)
        if ts["k"] in ("param", "alias") and td["k"] in ("uint", "int"):
            t = ip.mk("into", TRef(ip.key(st, c.args[0])))
            return [(st, ip.U(t, dst))]
        if ts["k"] == "ref" or td["k"] == "ref":
            L = aslice(c, st, c.args[0])
            if L is not None and td["k"] == "ref" and ip.T.T[td["to"]]["k"] in ("slice", "str"):
                return [(st, L)]
    if td["k"] == "adt" and td["def"] in ("alloc::vec::Vec", "alloc::string::String"):
        L = aslice(c, st, c.args[0])
        if L is not None:
            return [(st, ("V", ip.mk("copyof", TRef(ip.key(st, L))), L[3], dst))]
    t = ip.mk("into", TRef(ip.key(st, c.args[0])), td["s"])
    return [(st, ip.U(t, dst))]


@model("TryFrom::try_from", "TryInto::try_into")
def _(c, st):
    ip = c.ip
    src = c.atys[0]
    tid = fty(c, c.dt, 0)
    if src is None or tid is None:
        return None
    ts, td = ip.T.T[src], ip.T.T[tid]
    rng = irange(c, tid)
    l = ip.asint(st, ip.norm(st, c.args[0])) if ts["k"] in ("uint", "int", "char") else None
    if l is not None and rng is not None and td["k"] in ("uint", "int"):
        g, bad = fork(c, st, infit(l, rng))
        out = []
        if g is not None:
            out.append((g, ok(c, ("I", l))))
        if bad is not None:
            out.append((bad, err(c, ip.U(ip.mk("tryfromerr"), fty(c, c.dt, 1)))))
        return out
    if ts["k"] == "ref":
        L = aslice(c, st, c.args[0])
        arr = td if td["k"] == "array" else ip.T.T[td["to"]] if td["k"] == "ref" else None
        if L is not None and arr is not None and arr["k"] == "array" and "v" in arr["n"]:
            n = arr["n"]["v"]
            g, bad = fork(c, st, ("eq", laddc(L[3], -n)))
            out = []
            if g is not None:
                out.append((g, ok(c, ip.U(ip.mk("arrof", TRef(ip.key(g, L))), tid))))
            if bad is not None:
                out.append((bad, err(c, ip.U(ip.mk("tryfromerr"), fty(c, c.dt, 1)))))
            return out
    hit = ip.T.find_impl("core::convert::TryFrom", [tid, src])
    if hit and short(c.d) == "TryInto::try_into":
        fn = {"def": "core::convert::TryFrom::try_from", "trait": "core::convert::TryFrom", "name": "try_from", "args": [tid, src]}
        return ip.call_fn(st, c.fr, c.b, fn, {}, c.args, c.atys, c.dt)
    return None


ARITH = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "BitAnd::bitand": "BitAnd", "BitOr::bitor": "BitOr",
         "BitXor::bitxor": "BitXor", "Shl::shl": "Shl", "Shr::shr": "Shr", "Div::div": "Div", "Rem::rem": "Rem"}


def arith(c, st):
    ip = c.ip
    op = ARITH[short(c.d)]
    a, b = lin(c, st, c.args[0]), lin(c, st, c.args[1])
    rng = irange(c, c.dt)
    if a is None or b is None or rng is None:
        da, db = deref(c, st, c.args[0]), deref(c, st, c.args[1])
        if da[0] == "B" and db[0] == "B":
            return [(st, ip.arith(st, op, da, db, ip.boolt, c.dt))]
        return None
    if op in ("Add", "Sub", "Mul"):
        l = ladd(a, b) if op == "Add" else lsub(a, b) if op == "Sub" else ip.mul(a, b)
        if oblige(c, st, "overflow:" + op, infit(l, rng)) is None:
            return []
        return [(st, ("I", l))]
    if op in ("Div", "Rem"):
        if oblige(c, st, "div_zero", ("ne", b)) is None:
            return []
    if op in ("Shl", "Shr"):
        if oblige(c, st, "overflow:" + op, infit(b, (0, ip.T.T[c.dt]["bits"] - 1))) is None:
            return []
    return [(st, ("I", ip.intop(st, op, a, b, rng, c.dt)))]


for _n in ARITH:
    REG[_n] = arith


def arith_assign(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    if v[0] != "R":
        return None
    t = ip.T.T[c.atys[0]]["to"] if c.atys[0] is not None else None
    if t is None or irange(c, t) is None:
        return None
    x = ip.get(st, v[1], v[2])
    name = short(c.d)
    tr, m = name.split("::")
    base = tr.replace("Assign", "")
    import absint
    c2 = absint.CallCtx(ip, c.fr, c.b, c.fn, "core::ops::%s::%s" % (base, base.lower()), c.targs, [x, c.args[1]], [t, c.atys[1]], t, c.env)
    r = arith(c2, st)
    if r is None:
        return None
    out = []
    for s, nv in r:
        ip.write(s, ("P", v[1], v[2]), nv)
        out.append((s, unit(c)))
    return out


for _n in list(ARITH):
    _t, _m = _n.split("::")
    REG["%sAssign::%s_assign" % (_t, _m)] = arith_assign


# ------------------------------------------------------------------ comparison, clone
def eqv(c, st, a, b, neg, depth=0):
    """value of a == b on dereferenced values, or None"""
    ip = c.ip
    a, b = ip.norm(st, a), ip.norm(st, b)
    for _ in range(4):
        if a[0] == "R":
            x = ip.get(st, a[1], a[2])
            if x is None:
                break
            a = ip.norm(st, x)
        if b[0] == "R":
            x = ip.get(st, b[1], b[2])
            if x is None:
                break
            b = ip.norm(st, x)
    if a[0] == "S" and b[0] == "S" and len(a[2]) == 1 and len(b[2]) == 1:
        return eqv(c, st, a[2][0], b[2][0], neg, depth + 1)
    if a[0] in "IBD" and b[0] in "IBD":
        return ip.compare(st, "Ne" if neg else "Eq", a, b)
    if a[0] == "L" and b[0] == "L":
        # equal slices have equal lengths
        ka, kb = ip.key(st, a), ip.key(st, b)
        if ka == kb:
            return ("B", not neg)
        if ka > kb:
            ka, kb = kb, ka
        t = ip.mk("eqs", TRef(ka), TRef(kb))
        d = lsub(a[3], b[3])
        if not d[1]:
            if d[0] != 0:
                return ("B", neg)
            if a[3] == (0, ()):
                return ("B", not neg)
        c0 = ("and", ("t", t), ("eq", d))
        return ("B", ip.D.neg(c0) if neg else c0)
    ka, kb = ip.key(st, a), ip.key(st, b)
    if ka == kb:
        return ("B", not neg)
    if ka > kb:
        ka, kb = kb, ka
    return ("B", ("nt" if neg else "t", ip.mk("eq", TRef(ka), TRef(kb))))


@model("PartialEq::eq", "PartialEq::ne")
def _(c, st):
    ip = c.ip
    neg = c.d.endswith("::ne")
    # the type that is compared, through references
    def strip(t):
        n = 0
        while t is not None and ip.T.T[t]["k"] == "ref" and n < 3:
            t = ip.T.T[t]["to"]
            n += 1
        return t
    ta, tb = strip(c.atys[0]), strip(c.atys[1])
    if ta is not None and ip.T.T[ta]["k"] == "adt":
        hit = ip.T.find_impl("core::cmp::PartialEq", [ta, tb])
        if hit and ip.T.T[ta]["def"] in ip.P.adts:
            def oneref(v, t):
                while t is not None and ip.T.T[t]["k"] == "ref" and ip.T.T[ip.T.T[t]["to"]]["k"] == "ref":
                    v = deref(c, st, v)
                    t = ip.T.T[t]["to"]
                return v, t
            a, t1 = oneref(c.args[0], c.atys[0])
            b, t2 = oneref(c.args[1], c.atys[1])
            its = {i["n"]: i["def"] for i in hit[0]["items"]}
            if "eq" in its and its["eq"] in ip.P.fns and t1 is not None:
                fn = {"def": "core::cmp::PartialEq::eq", "trait": "core::cmp::PartialEq", "name": "eq", "args": [ta, tb]}
                out = []
                for s, v in ip.call_fn(st, c.fr, c.b, fn, {}, [a, b], [t1, t2], ip.boolt):
                    v = ip.norm(s, v)
                    if neg and v[0] == "B":
                        v = ("B", ip.D.neg(v[1]))
                    out.append((s, v))
                return out
    return [(st, eqv(c, st, c.args[0], c.args[1], neg))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(c, st):
    ip = c.ip
    a, b = deref(c, st, c.args[0]), deref(c, st, c.args[1])
    for _ in range(2):
        if a[0] == "S" and b[0] == "S" and len(a[2]) == 1 and len(b[2]) == 1:
            a, b = ip.norm(st, a[2][0]), ip.norm(st, b[2][0])
        a, b = deref(c, st, a), deref(c, st, b)
    if ip.keep_fkey and {a[0], b[0]} <= {"U", "S"}:
        # a type of one field whose comparison is derived
        t = c.atys[0]
        for _ in range(3):
            t = ip.T.T[t].get("to") if t is not None and ip.T.T[t]["k"] == "ref" else t
        ad = ip.P.adts.get(ip.T.T[t].get("def")) if t is not None and ip.T.T[t]["k"] == "adt" else None
        if ad and ad["kind"] == "struct" and len(ad["variants"][0]["f"]) == 1:
            hit = ip.T.find_impl("core::cmp::PartialOrd", [t, t])
            its = {i["n"]: i["def"] for i in hit[0]["items"]} if hit else {}
            g = ip.P.fns.get(its.get("partial_cmp"))
            if g is not None and g.get("derived") and "ge" not in its and "le" not in its:
                a, b = ip.norm(st, ip.proj(st, a, 0)), ip.norm(st, ip.proj(st, b, 0))
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.d.rsplit("::", 1)[1]]
    if a[0] in "IBD" and b[0] in "IBD":
        return [(st, ip.compare(st, op, a, b))]
    return [(st, ("B", ("t", ip.mk("cmp", op, TRef(ip.key(st, a)), TRef(ip.key(st, b))))))]


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _(c, st):
    return None


@model("Clone::clone", "ToOwned::to_owned")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    t = ip.T.T[c.dt]
    if t["k"] == "adt" and t["def"] in ("alloc::vec::Vec", "alloc::string::String"):
        L = aslice(c, st, v)
        if L is not None:
            return [(st, ("V", L[1] if L[2] == (0, ()) else ip.mk("copyof", TRef(ip.key(st, L))), L[3], c.dt))]
    if v[0] == "R":
        x = ip.get(st, v[1], v[2])
        if x is not None:
            if x[0] == "U" and x[2] is None:
                x = ip.U(x[1], c.dt)
            return [(st, x)]
    return [(st, ip.U(ip.mk("deref", TRef(ip.key(st, v))), c.dt))]


# ------------------------------------------------------------------ mem, panics, misc
def min_size(ip, tid):
    """least size of an associated type over the implementations of its (sealed) trait"""
    t = ip.T.T[tid]
    if t["k"] != "alias" or not t["args"]:
        return 0
    c = ip.__dict__.setdefault("_minsize", {})
    if tid in c:
        return c[tid]
    c[tid] = 0
    a = ip.T.T[t["args"][0]]
    ims = ip.P.impls_of.get(t["trait"]) or []
    if a["k"] != "param" or not ims or t["trait"].split("::")[0] not in ("read", "write", "build"):
        return 0
    best = None
    for im in ims:
        x = ip.T.subst(tid, {a["name"]: im["self"]})
        ly = ip.T.layout(x)
        if ly is None:
            return 0
        best = ly[0] if best is None else min(best, ly[0])
    c[tid] = best or 0
    return c[tid]


@model("mem::size_of", "mem::align_of")
def _(c, st):
    ip = c.ip
    tid = c.targs[0]
    ly = ip.T.layout(tid)
    i = 0 if c.d.endswith("size_of") else 1
    if ly is not None:
        return [(st, ("I", lc(ly[i])))]
    t = ip.mk("sizeof" if i == 0 else "alignof", ip.T.T[tid]["s"])
    ip.TM.mk(ip.TM.ops[t], (min_size(ip, tid) if i == 0 else 1, IMAX))
    return [(st, ("I", lt(t)))]


@model("mem::size_of_val", "mem::align_of_val")
def _(c, st):
    ip = c.ip
    L = aslice(c, st, c.args[0])
    if L is not None and c.d.endswith("size_of_val"):
        s = ip.T.size(L[4])
        if s is not None:
            return [(st, ("I", lscale(L[3], s)))]
        z = ip.mk("sizeof", ip.T.T[L[4]]["s"])
        ip.TM.mk(ip.TM.ops[z], (min_size(ip, L[4]), IMAX))
        return [(st, ("I", ip.mul(L[3], lt(z))))]
    if c.targs and isinstance(c.targs[0], int):
        ly = ip.T.layout(c.targs[0])
        if ly is not None:
            return [(st, ("I", lc(ly[0])))]
    t = fresh(c, st, "sz", (0, IMAX))
    return [(st, ("I", lt(t)))]


@model("mem::swap")
def _(c, st):
    ip = c.ip
    a, b = ip.norm(st, c.args[0]), ip.norm(st, c.args[1])
    if a[0] != "R" or b[0] != "R":
        return None
    x, y = ip.get(st, a[1], a[2]), ip.get(st, b[1], b[2])
    if x is None or y is None:
        return None
    ip.write(st, ("P", a[1], a[2]), y)
    ip.write(st, ("P", b[1], b[2]), x)
    return [(st, unit(c))]


@model("mem::drop", "mem::forget")
def _(c, st):
    return [(st, unit(c))]


def panic(c, st):
    n = c.d.split("::")[-1]
    c.ip.event(c.fr, c.b, "panic", False, n)
    return []


for _n in ("panic", "panic_fmt", "panic_nounwind", "assert_failed", "unreachable_display", "panic_display", "panic_explicit",
           "panic_str_2015", "unimplemented_default_msg", "todo_default_msg", "unreachable_default_msg", "panic_bounds_check", "panic_const",
           "assert_failed_inner", "assert_matches_failed"):
    REG["panic::" + _n] = panic
for _n in ("core::option::unwrap_failed", "core::result::unwrap_failed", "core::option::expect_failed", "std::rt::begin_panic",
           "std::process::abort", "std::process::exit", "core::panicking::panic_in_cleanup", "alloc::alloc::handle_alloc_error"):
    REG[_n] = panic


@model("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def _(c, st):
    return [(st, c.args[0])]


@model("core::hint::unreachable_unchecked")
def _(c, st):
    c.ip.event(c.fr, c.b, "panic", False, "unreachable_unchecked")
    return []


@model("core::slice::from_ref", "core::slice::from_mut")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    e = ip.T.T[ip.T.T[c.dt]["to"]]["of"]
    if v[0] == "R":
        x = ip.get(st, v[1], v[2])
        if x is not None:
            base = ip.TM.mk(("aref", (TRef(ip.key(st, x)),)))
            root = ("M", ip.key(st, x), e)
            if x[0] not in ("U", "I", "B") and root not in st.mem:
                st.mem[root] = x
            return [(st, ("L", base, lc(0), lc(1), e))]
    return [(st, ("L", ip.mk("from_ref", TRef(ip.key(st, v))), lc(0), lc(1), e))]


@model("core::slice::from_raw_parts", "core::slice::from_raw_parts_mut")
def _(c, st):
    ip = c.ip
    e = ip.T.T[ip.T.T[c.dt]["to"]]["of"]
    n = lin(c, st, c.args[1])
    if n is None:
        return None
    ip.event(c.fr, c.b, "unsafe:from_raw_parts", True, "")
    if ip.unsafe_hook:
        ip.unsafe_hook(c, st, "from_raw_parts")
    return [(st, ("L", ip.mk("raw", TRef(ip.key(st, c.args[0]))), lc(0), n, e))]


@model("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def _(c, st):
    ip = c.ip
    v = ip.expand(st, ip.norm(st, c.args[1])) if len(c.args) > 1 else None
    args = list(v[2]) if v is not None and v[0] == "S" else []
    return ip.call_value(st, c.fr, c.b, c.args[0], args, c.dt)


# ------------------------------------------------------------------ slices and str
def seq(c, st, i=0):
    return aslice(c, st, c.args[i], c.atys[i] if i < len(c.atys) else None)


@model("slice::len", "str::len", "Vec::len", "String::len", "ExactSizeIterator::len")
def _(c, st):
    ip = c.ip
    if short(c.d).startswith("Exact"):
        v = deref(c, st, c.args[0])
        it = asiter(c, st, v)
        n = iter_len(c, st, it)
        return None if n is None else [(st, ("I", n))]
    L = seq(c, st)
    return None if L is None else [(st, ("I", L[3]))]


@model("slice::is_empty", "str::is_empty", "Vec::is_empty", "String::is_empty")
def _(c, st):
    L = seq(c, st)
    if L is None:
        return None
    return [(st, c.ip.compare(st, "Eq", ("I", L[3]), ("I", lc(0))))]


def isrange(c, tid):
    if tid is None:
        return False
    t = c.ip.T.T[tid]
    return t["k"] == "adt" and t["def"].split("::")[-1].startswith("Range")


@model("slice::get", "slice::get_mut", "str::get")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    t = c.atys[1]
    if isrange(c, t):
        r = rangeof(c, st, c.args[1], L[3])
        if r is None:
            return None
        a, b = r
        cond = ("and", le(a, b), le(b, L[3]))
        g, bad = fork(c, st, cond)
        out = []
        if g is not None:
            if c.d.startswith("core::str"):
                out.append((g.copy(), none(c)))
            out.append((g, some(c, g, sub(L, a, b))))
        if bad is not None:
            out.append((bad, none(c)))
        return out
    i = lin(c, st, c.args[1])
    if i is None:
        return None
    g, bad = fork(c, st, ltc(i, L[3]))
    out = []
    if g is not None:
        out.append((g, some(c, g, ("R", ip.elem_root(g, L, i), ()))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def _(c, st):
    ip = c.ip
    L, i = seq(c, st), lin(c, st, c.args[1])
    if L is None or i is None:
        return None
    if oblige(c, st, "unsafe:get_unchecked", ltc(i, L[3])) is None:
        return []
    return [(st, ("R", ip.elem_root(st, L, i), ()))]


@model("Index::index", "IndexMut::index_mut")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        ip.event(c.fr, c.b, "index", False, "unknown container")
        return None
    if isrange(c, c.atys[1]):
        r = rangeof(c, st, c.args[1], L[3])
        if r is None:
            ip.event(c.fr, c.b, "index", False, "unknown range")
            return None
        a, b = r
        if oblige(c, st, "index", ("and", le(a, b), le(b, L[3]))) is None:
            return []
        if ip.T.T[c.dt]["k"] == "ref" and ip.T.T[ip.T.T[c.dt]["to"]]["k"] == "str" and (a, b) != (lc(0), L[3]):
            ip.event(c.fr, c.b, "strindex", False, "char boundary")
        return [(st, sub(L, a, b))]
    i = lin(c, st, c.args[1])
    if i is None:
        ip.event(c.fr, c.b, "index", False, "unknown index")
        return None
    if oblige(c, st, "index", ltc(i, L[3])) is None:
        return []
    return [(st, ("R", ip.elem_root(st, L, i), ()))]


def ends(c, st, n):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    return L


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    g, bad = fork(c, st, le(lc(1), L[3]))
    out = []
    if g is not None:
        i = lc(0) if "first" in c.d else laddc(L[3], -1)
        out.append((g, some(c, g, ("R", ip.elem_root(g, L, i), ()))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("slice::split_first", "slice::split_last")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    tt = fty(c, c.dt, 1)
    g, bad = fork(c, st, le(lc(1), L[3]))
    out = []
    if g is not None:
        if "first" in c.d:
            v = ("S", tt, (("R", ip.elem_root(g, L, lc(0)), ()), sub(L, lc(1), L[3])))
        else:
            v = ("S", tt, (("R", ip.elem_root(g, L, laddc(L[3], -1)), ()), sub(L, lc(0), laddc(L[3], -1))))
        out.append((g, some(c, g, v)))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("slice::split_at", "slice::split_at_mut", "str::split_at")
def _(c, st):
    L, i = seq(c, st), lin(c, st, c.args[1])
    if L is None or i is None:
        c.ip.event(c.fr, c.b, "split_at", False, "unknown")
        return None
    if oblige(c, st, "split_at", le(i, L[3])) is None:
        return []
    return [(st, ("S", c.dt, (sub(L, lc(0), i), sub(L, i, L[3]))))]


@model("slice::split_at_checked", "slice::split_at_mut_checked")
def _(c, st):
    L, i = seq(c, st), lin(c, st, c.args[1])
    if L is None or i is None:
        return None
    g, bad = fork(c, st, le(i, L[3]))
    out = []
    if g is not None:
        out.append((g, some(c, g, ("S", fty(c, c.dt, 1), (sub(L, lc(0), i), sub(L, i, L[3]))))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("slice::first_chunk", "slice::split_first_chunk", "slice::last_chunk")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    n = next((a["v"] for a in c.targs if isinstance(a, dict) and "v" in a), None)
    if L is None or n is None or "split" in c.d:
        return None
    g, bad = fork(c, st, le(lc(n), L[3]))
    out = []
    if g is not None:
        out.append((g, some(c, g, ip.U(ip.mk("arrof", TRef(ip.key(g, L)), c.d.split("::")[-1]), fty(c, c.dt, 1)))))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("slice::as_ptr", "slice::as_mut_ptr", "Vec::as_ptr", "Vec::as_mut_ptr", "str::as_ptr")
def _(c, st):
    L = seq(c, st)
    if L is None:
        return None
    t = c.ip.mk("ptr", TRef(L[1]), lkey(L[2]))
    c.ip.ptr_org[t] = (L, "mut" in c.d)
    return [(st, c.ip.U(t, c.dt))]


@model("str::as_bytes", "slice::as_slice", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "String::as_bytes", "Deref::deref", "DerefMut::deref_mut",
       "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "slice::as_ref", "array::as_slice", "str::trim_end_nul", "Box::as_ref", "slice::into_vec")
def _(c, st):
    ip = c.ip
    t = ip.T.T[c.dt] if c.dt is not None else {"k": ""}
    if t["k"] == "ref" and ip.T.T[t["to"]]["k"] in ("slice", "str"):
        L = seq(c, st)
        if L is not None:
            return [(st, L)]
    if c.dt is not None and c.dt == c.atys[0] and t["k"] == "ref":
        return [(st, c.args[0])]
    if t["k"] == "adt" and t.get("def") == "alloc::vec::Vec":
        L = seq(c, st)
        if L is not None:
            return [(st, ("V", ip.mk("copyof", TRef(ip.key(st, L))), L[3], c.dt))]
    v = ip.norm(st, c.args[0])
    if v[0] == "R":
        x = ip.get(st, v[1], v[2])
        if x is not None:
            x = ip.norm(st, x)
            if x[0] == "R":
                return [(st, x)]
    return None


@model("slice::starts_with", "slice::ends_with")
def _(c, st):
    ip = c.ip
    L, M = seq(c, st), seq(c, st, 1)
    if L is None or M is None:
        return None
    t = fresh(c, st, "sw")
    return [(st, ("B", ("and", ("t", t), le(M[3], L[3]))))]


@model("str::starts_with", "str::ends_with", "str::contains", "slice::contains", "str::is_ascii", "slice::is_ascii", "str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def _(c, st):
    t = fresh(c, st, "p")
    return [(st, ("B", ("t", t)))]


@model("slice::strip_prefix", "slice::strip_suffix", "str::strip_prefix", "str::strip_suffix")
def _(c, st):
    ip = c.ip
    L, M = seq(c, st), seq(c, st, 1)
    if L is None:
        return None
    if M is None:
        n = fresh(c, st, "n", (0, IMAX))
        M = ("L", 0, lc(0), lt(n), L[4])
        s2 = st.copy()
        if not ip.D.assume(s2, le(lt(n), L[3])):
            return [(st, none(c))]
        nl = (sub(L, lt(n), L[3]) if "prefix" in c.d else sub(L, lc(0), lsub(L[3], lt(n))))
        return [(s2, some(c, s2, nl)), (st, none(c))]
    g, bad = fork(c, st, le(M[3], L[3]))
    out = []
    if g is not None:
        t = fresh(c, g, "sw")
        y, n = fork(c, g, ("t", t))
        if y is not None:
            out.append((y, some(c, y, sub(L, M[3], L[3]) if "prefix" in c.d else sub(L, lc(0), lsub(L[3], M[3])))))
        if n is not None:
            out.append((n, none(c)))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("str::trim", "str::trim_end", "str::trim_start", "str::trim_end_matches", "str::trim_start_matches", "slice::trim_ascii", "slice::trim_ascii_end", "slice::trim_ascii_start")
def _(c, st):
    L = seq(c, st)
    if L is None:
        return None
    n = fresh(c, st, "trim", (0, IMAX))
    c.ip.D.assume(st, le(lt(n), L[3]))
    if "end" in c.d:
        return [(st, sub(L, lc(0), lt(n)))]
    return [(st, ("L", c.ip.mk("trimmed", TRef(L[1]), lkey(L[2])), lc(0), lt(n), L[4]))]


@model("slice::copy_from_slice", "slice::clone_from_slice", "slice::swap_with_slice")
def _(c, st):
    ip = c.ip
    L, M = seq(c, st), seq(c, st, 1)
    if L is None or M is None:
        ip.event(c.fr, c.b, "copy_len", False, "unknown")
        return None
    if oblige(c, st, "copy_len", ("eq", lsub(L[3], M[3]))) is None:
        return []
    ip.bump(st, L[1])
    return [(st, unit(c))]


@model("slice::fill", "slice::reverse", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::rotate_left")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    if len(c.args) > 1:
        ip.closure_effects(c, st, c.args[1], termof(c, st, "clo"), 1)
    ip.bump(st, L[1])
    return [(st, unit(c))]


@model("slice::swap")
def _(c, st):
    ip = c.ip
    L, i, j = seq(c, st), lin(c, st, c.args[1]), lin(c, st, c.args[2])
    if L is None or i is None or j is None:
        ip.event(c.fr, c.b, "index", False, "swap")
        return None
    if oblige(c, st, "index", ltc(i, L[3])) is None or oblige(c, st, "index", ltc(j, L[3])) is None:
        return []
    ip.bump(st, L[1])
    return [(st, unit(c))]


@model("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key", "slice::partition_point")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    for i in range(1, len(c.args)):
        ip.closure_effects(c, st, c.args[i], termof(c, st, "clo"), i)
    if c.d.endswith("partition_point"):
        t = fresh(c, st, "pp", (0, IMAX))
        ip.D.assume(st, le(lt(t), L[3]))
        return [(st, ("I", lt(t)))]
    t = fresh(c, st, "found", (0, IMAX))
    u = fresh(c, st, "ins", (0, IMAX))
    g, b = st.copy(), st
    out = []
    if ip.D.assume(g, ltc(lt(t), L[3])):
        out.append((g, ok(c, ("I", lt(t)))))
    if ip.D.assume(b, le(lt(u), L[3])):
        out.append((b, err(c, ("I", lt(u)))))
    return out


@model("memchr::memchr", "memchr::memchr2", "memchr::memchr3", "memchr::memrchr")
def _(c, st):
    ip = c.ip
    L = aslice(c, st, c.args[-1])
    if L is None:
        return None
    t = fresh(c, st, "pos", (0, IMAX))
    g = st.copy()
    out = [(st, none(c))]
    if ip.D.assume(g, ltc(lt(t), L[3])):
        out.append((g, some(c, g, ("I", lt(t)))))
    return out


@model("str::find", "str::rfind")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    t = fresh(c, st, "pos", (0, IMAX))
    g = st.copy()
    out = [(st, none(c))]
    if ip.D.assume(g, le(lt(t), L[3])):
        out.append((g, some(c, g, ("I", lt(t)))))
    return out


@model("core::str::from_utf8", "core::str::converts::from_utf8")
def _(c, st):
    ip = c.ip
    L = seq(c, st)
    if L is None:
        return None
    t = fresh(c, st, "utf8")
    g, b = fork(c, st, ("t", t))
    out = []
    if g is not None:
        out.append((g, ok(c, L)))
    if b is not None:
        out.append((b, err(c, ip.U(ip.mk("utf8err", TRef(t)), fty(c, c.dt, 1)))))
    return out


@model("core::str::from_utf8_unchecked")
def _(c, st):
    L = seq(c, st)
    return None if L is None else [(st, L)]


# ------------------------------------------------------------------ Vec / String / Box
def vecat(c, st, i=0):
    """(root, path, V) of a &mut Vec argument"""
    ip = c.ip
    v = ip.norm(st, c.args[i])
    if v[0] != "R":
        return None
    x = ip.get(st, v[1], v[2])
    if x is None:
        return None
    x = ip.norm(st, x)
    if x[0] != "V":
        return None
    return v[1], v[2], x


def setvec(c, st, r, base, length):
    c.ip.setp(st, r[0], r[1], ("V", base, length, r[2][3]))


def esize(c, tid):
    """(byte size linear form) per element"""
    ip = c.ip
    s = ip.T.size(tid)
    return s


def alloc(c, st, n, e, how):
    ip = c.ip
    if ip.alloc_hook:
        ip.alloc_hook(c, st, n, e, how)


@model("Vec::new", "String::new")
def _(c, st):
    return [(st, ("V", c.ip.mk("newvec"), lc(0), c.dt))]


@model("Vec::with_capacity", "String::with_capacity")
def _(c, st):
    ip = c.ip
    n = lin(c, st, c.args[0])
    t = ip.T.T[c.dt]
    e = t["args"][0] if t["def"] == "alloc::vec::Vec" else ip.u8
    alloc(c, st, n, e, "with_capacity")
    return [(st, ("V", ip.mk("newvec"), lc(0), c.dt))]


@model("Vec::reserve", "Vec::reserve_exact", "String::reserve")
def _(c, st):
    r = vecat(c, st)
    n = lin(c, st, c.args[1])
    alloc(c, st, n, vece(c, r), "reserve")
    return [(st, unit(c))]


def vece(c, r):
    if r is None:
        return None
    t = c.ip.T.T[r[2][3]]
    return t["args"][0] if t["def"] == "alloc::vec::Vec" else c.ip.u8


@model("Vec::try_reserve", "Vec::try_reserve_exact")
def _(c, st):
    r = vecat(c, st)
    n = lin(c, st, c.args[1])
    alloc(c, st, n, vece(c, r), "try_reserve")
    t = fresh(c, st, "reserve")
    return [(st, ok(c, unit(c))), (st.copy(), err(c, c.ip.U(c.ip.mk("tryreserveerr"), fty(c, c.dt, 1))))]


@model("Vec::push", "String::push")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    if r is None:
        return None
    V = r[2]
    e = vece(c, r)
    inc = lc(1)
    if c.d.startswith("alloc::string"):
        t = fresh(c, st, "chl", (1, 4))
        inc = lt(t)
    ip.D.assume(st, ("le", laddc(ladd(V[2], inc), -ip.maxlen(e))))
    if ip.grow_hook:
        ip.grow_hook(c, st, "push", inc, e, None)
    k = ip.key(st, c.args[1])
    w = st.mem.get(("W", V[1]))
    nb = ip.mk("push", TRef(V[1]), TRef(k), *((TRef(w),) if w is not None else ()))
    nl = ladd(V[2], inc)
    setvec(c, st, r, nb, nl)
    return [(st, unit(c))]


@model("Vec::extend_from_slice", "String::push_str", "Extend::extend")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    if r is None:
        return None
    V = r[2]
    L = seq(c, st, 1)
    n = None
    if L is not None:
        n = L[3]
    elif short(c.d) == "Extend::extend":
        it = asiter(c, st, c.args[1])
        n = iter_len(c, st, it)
        iter_effects(c, st, it)
    if n is None:
        t = fresh(c, st, "ext", (0, IMAX))
        n = lt(t)
    e = vece(c, r)
    ip.D.assume(st, ("le", laddc(ladd(V[2], n), -ip.maxlen(e))))
    if ip.grow_hook:
        ip.grow_hook(c, st, "extend", n, e, c.atys[1] if L is None else None)
    k = ip.key(st, c.args[1])
    setvec(c, st, r, ip.mk("extend", TRef(V[1]), TRef(k)), ladd(V[2], n))
    return [(st, unit(c))]


@model("Vec::resize", "Vec::resize_with")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    n = lin(c, st, c.args[1])
    if r is None or n is None:
        return None
    alloc(c, st, n, vece(c, r), "resize")
    ip.D.assume(st, ("le", laddc(n, -ip.maxlen(vece(c, r)))))
    setvec(c, st, r, ip.mk("resize", TRef(r[2][1]), lkey(n)), n)
    return [(st, unit(c))]


@model("alloc::vec::from_elem")
def _(c, st):
    ip = c.ip
    n = lin(c, st, c.args[1])
    if n is None:
        return None
    e = ip.T.T[c.dt]["args"][0]
    alloc(c, st, n, e, "from_elem")
    ip.D.assume(st, ("le", laddc(n, -ip.maxlen(e))))
    return [(st, ("V", ip.mk("rep", TRef(ip.key(st, c.args[0])), lkey(n)), n, c.dt))]


@model("Vec::truncate")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    n = lin(c, st, c.args[1])
    if r is None or n is None:
        return None
    a, b = fork(c, st, le(n, r[2][2]))
    out = []
    if a is not None:
        setvec(c, a, r, ip.mk("trunc", TRef(r[2][1])), n)
        out.append((a, unit(c)))
    if b is not None:
        out.append((b, unit(c)))
    return out


@model("Vec::clear", "String::clear")
def _(c, st):
    r = vecat(c, st)
    if r is None:
        return None
    setvec(c, st, r, c.ip.mk("newvec"), lc(0))
    return [(st, unit(c))]


@model("Vec::pop")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    if r is None:
        return None
    V = r[2]
    g, bad = fork(c, st, le(lc(1), V[2]))
    out = []
    if g is not None:
        x = ip.U(ip.mk("popped", TRef(V[1]), lkey(V[2])), fty(c, c.dt, 1))
        setvec(c, g, r, ip.mk("pop", TRef(V[1])), laddc(V[2], -1))
        out.append((g, some(c, g, x)))
    if bad is not None:
        out.append((bad, none(c)))
    return out


@model("Vec::retain", "Vec::retain_mut", "Vec::dedup", "Vec::dedup_by_key", "Vec::dedup_by")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    if r is None:
        return None
    if len(c.args) > 1:
        ip.closure_effects(c, st, c.args[1], termof(c, st, "clo"), 1)
    t = fresh(c, st, "kept", (0, IMAX))
    ip.D.assume(st, le(lt(t), r[2][2]))
    setvec(c, st, r, ip.mk("kept", TRef(r[2][1])), lt(t))
    return [(st, unit(c))]


@model("Vec::remove", "Vec::swap_remove")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    i = lin(c, st, c.args[1])
    if r is None or i is None:
        ip.event(c.fr, c.b, "index", False, "remove")
        return None
    if oblige(c, st, "index", ltc(i, r[2][2])) is None:
        return []
    x = ip.U(ip.mk("removed", TRef(r[2][1]), lkey(i)), c.dt)
    setvec(c, st, r, ip.mk("rm", TRef(r[2][1]), lkey(i)), laddc(r[2][2], -1))
    return [(st, x)]


@model("Vec::insert")
def _(c, st):
    ip = c.ip
    r = vecat(c, st)
    i = lin(c, st, c.args[1])
    if r is None or i is None:
        ip.event(c.fr, c.b, "index", False, "insert")
        return None
    if oblige(c, st, "index", le(i, r[2][2])) is None:
        return []
    setvec(c, st, r, ip.mk("ins", TRef(r[2][1]), lkey(i), TRef(ip.key(st, c.args[2]))), laddc(r[2][2], 1))
    return [(st, unit(c))]


@model("Vec::split_off", "Vec::drain", "Vec::splice")
def _(c, st):
    c.ip.event(c.fr, c.b, "index", False, c.d.split("::")[-1])
    return None


@model("Vec::into_boxed_slice", "slice::to_vec", "str::to_string", "str::to_owned", "ToString::to_string", "Vec::shrink_to_fit", "String::into_bytes", "String::into_boxed_str", "String::from_utf8_lossy")
def _(c, st):
    ip = c.ip
    t = ip.T.T[c.dt]
    L = seq(c, st)
    if L is None:
        return None
    if t["k"] == "adt" and t["def"] == "alloc::boxed::Box":
        return [(st, L)]
    if t["k"] == "adt" and t["def"] in ("alloc::vec::Vec", "alloc::string::String"):
        alloc(c, st, L[3], L[4], "copy")
        return [(st, ("V", L[1] if L[2] == (0, ()) else ip.mk("copyof", TRef(ip.key(st, L))), L[3], c.dt))]
    return None


# ------------------------------------------------------------------ iterators
def slice_it(c, L, mut=False):
    return ("IT", "slicemut" if mut else "slice", (L,))


@model("slice::iter", "slice::iter_mut")
def _(c, st):
    L = seq(c, st)
    return None if L is None else [(st, slice_it(c, L, c.d.endswith("mut")))]


@model("read::read_cache::ReadCacheOps::read")
def _(c, st):
    """contract of std::io::Read::read: the count returned is at most the length of the buffer"""
    ip = c.ip
    L = aslice(c, st, c.args[1])
    if L is None:
        return None
    out = []
    for s, v in ip.call_opaque(c, st):
        for s2, k, fs in alts(c, s, v, c.dt) or [(s, 1, ())]:
            if k == 0:
                n = ip.asint(s2, ip.norm(s2, fs[0]))
                if n is not None and not ip.D.assume(s2, le(n, L[3])):
                    continue
                out.append((s2, ok(c, fs[0])))
            else:
                out.append((s2, ip.mkE(c.dt, 1, fs)))
    return out


@model("slice::split", "slice::rsplit", "str::split")
def _(c, st):
    L = seq(c, st)
    if L is None:
        return None
    return [(st, ("IT", "split", (L, ("B", True), ("U", c.ip.mk("split", TRef(c.ip.key(st, L)), c.fr.fid, c.b), None))))]


@model("slice::chunks", "slice::chunks_exact", "slice::windows", "slice::rchunks", "slice::chunks_exact_mut", "slice::chunks_mut")
def _(c, st):
    n = lin(c, st, c.args[1])
    L = seq(c, st)
    if n is None or L is None:
        c.ip.event(c.fr, c.b, "chunk_zero", False, "unknown")
        return None
    if oblige(c, st, "chunk_zero", ("ne", n)) is None:
        return []
    return [(st, ("IT", c.d.split("::")[-1], (L, ("I", n))))]


ADAPT = {
    "core::iter::Enumerate": ("enumerate", (0, "n")),
    "core::iter::Rev": ("rev", (0,)),
    "core::iter::Copied": ("copied", (0,)),
    "core::iter::Cloned": ("cloned", (0,)),
    "core::iter::Fuse": ("fuse", (0,)),
    "core::iter::Peekable": ("peekable", (0,)),
    "core::iter::Zip": ("zip", (0, 1)),
    "core::iter::Chain": ("chain", (0, 1)),
    "core::iter::Take": ("take", (0, "n")),
    "core::iter::Skip": ("skip", (0, "n")),
    "core::iter::Map": ("map", (0, 1)),
    "core::iter::Filter": ("filter", (0, 1)),
    "core::iter::FilterMap": ("filter_map", (0, 1)),
}


def asiter(c, st, v):
    ip = c.ip
    v = ip.norm(st, v)
    if v[0] == "U" and v[2] is not None:
        t = ip.T.T[v[2]]
        if t["k"] == "adt" and t["def"] in ("core::slice::Iter", "core::slice::IterMut"):
            e = next((a for a in t["args"] if isinstance(a, int)), None)
            if e is not None:
                return ("IT", "slice" if t["def"].endswith("Iter") else "slicemut", (ip.mkslice(v[1], e),))
        if t["k"] == "adt" and t["def"] in ("core::ops::Range", "core::ops::RangeInclusive"):
            return ip.expand(st, v)
        if t["k"] == "adt" and t["def"] in ADAPT:
            kind, names = ADAPT[t["def"]]
            a = [x for x in t["args"] if isinstance(x, int)]
            parts = []
            for i, n in enumerate(names):
                parts.append(ip.U(ip.mk("itf", TRef(v[1]), i), ip.usize if n == "n" else a[n]))
            return ("IT", kind, tuple(asiter(c, st, p) if names[i] != "n" else p for i, p in enumerate(parts)))
    return v


@model("IntoIterator::into_iter")
def _(c, st):
    ip = c.ip
    if c.dt is not None and c.dt == c.atys[0]:
        return [(st, c.args[0])]
    t = ip.T.T[c.dt] if c.dt is not None else {"k": ""}
    if t["k"] == "adt" and t["def"] in ("core::slice::Iter", "core::slice::IterMut"):
        L = seq(c, st)
        if L is not None:
            return [(st, slice_it(c, L, t["def"].endswith("Mut")))]
    if t["k"] == "adt" and t["def"] == "alloc::vec::IntoIter":
        L = seq(c, st)
        if L is not None:
            return [(st, ("IT", "vecinto", (L,)))]
    if t["k"] == "adt" and t["def"] == "core::array::IntoIter":
        v = ip.norm(st, c.args[0])
        if v[0] == "A":
            return [(st, ("IT", "arrinto", tuple(v[2])))]
        L = seq(c, st)
    return None


def it1(kind):
    def m(c, st):
        return [(st, ("IT", kind, (asiter(c, st, c.args[0]),)))]
    return m


for _k in ("rev", "copied", "cloned", "by_ref_", "fuse", "peekable"):
    REG["Iterator::" + _k] = it1(_k)


@model("Iterator::enumerate")
def _(c, st):
    return [(st, ("IT", "enumerate", (asiter(c, st, c.args[0]), ("I", lc(0)))))]


def it2(kind):
    def m(c, st):
        return [(st, ("IT", kind, (asiter(c, st, c.args[0]), c.args[1])))]
    return m


for _k in ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "map_while", "step_by_"):
    REG["Iterator::" + _k] = it2(_k)


@model("Iterator::take", "Iterator::skip")
def _(c, st):
    return [(st, ("IT", c.d.split("::")[-1], (asiter(c, st, c.args[0]), c.args[1])))]


@model("Iterator::step_by")
def _(c, st):
    n = lin(c, st, c.args[1])
    if n is None or oblige(c, st, "step_zero", ("ne", n)) is None:
        return None
    return [(st, ("IT", "step", (asiter(c, st, c.args[0]), c.args[1])))]


@model("Iterator::zip", "Iterator::chain")
def _(c, st):
    ip = c.ip
    b = asiter(c, st, c.args[1])
    if b[0] in ("R", "L", "V"):
        L = aslice(c, st, b)
        if L is not None:
            b = slice_it(c, L)
    return [(st, ("IT", c.d.split("::")[-1], (asiter(c, st, c.args[0]), b)))]


@model("Iterator::by_ref")
def _(c, st):
    return [(st, c.args[0])]


@model("core::iter::from_fn", "core::iter::sources::from_fn", "core::iter::successors", "core::iter::once", "core::iter::repeat", "core::iter::empty")
def _(c, st):
    n = c.d.split("::")[-1]
    return [(st, ("IT", n, tuple(c.args)))]


def iter_len(c, st, it):
    """exact number of remaining items, or None"""
    ip = c.ip
    if it[0] == "S" and it[1] is not None:
        t = ip.T.T[it[1]]
        if t.get("def") == "core::ops::Range":
            a, b = ip.asint(st, ip.norm(st, it[2][0])), ip.asint(st, ip.norm(st, it[2][1]))
            if a is not None and b is not None and ip.D.le(st, lsub(a, b)):
                return lsub(b, a)
        return None
    if it[0] != "IT":
        return None
    k, p = it[1], it[2]
    if k in ("slice", "slicemut", "vecinto"):
        return p[0][3]
    if k in ("map", "enumerate", "rev", "copied", "cloned", "inspect", "peekable", "fuse"):
        return iter_len(c, st, p[0])
    if k == "arrinto":
        return lc(len(p))
    if k == "once":
        return lc(1)
    if k == "chain":
        a, b = iter_len(c, st, p[0]), iter_len(c, st, p[1])
        return ladd(a, b) if a is not None and b is not None else None
    return None


def iter_ub(c, st, it):
    """upper bound (linear form) on the number of items, or None"""
    ip = c.ip
    n = iter_len(c, st, it)
    if n is not None:
        return n
    if it[0] == "IT":
        k, p = it[1], it[2]
        if k in ("filter", "filter_map", "take_while", "skip_while", "skip", "step", "map_while"):
            return iter_ub(c, st, p[0])
        if k == "take":
            r = iter_ub(c, st, p[0])
            return r if r is not None else lin(c, st, p[1])
        if k == "zip":
            r = iter_ub(c, st, p[0])
            return r if r is not None else iter_ub(c, st, p[1])
    return None


def advance(c, st, it, tag, k=None):
    """the iterator after any number of its items were taken"""
    ip = c.ip
    if it[0] == "S" and it[1] is not None and ip.T.T[it[1]].get("def") == "core::ops::Range":
        a, b = ip.asint(st, ip.norm(st, it[2][0])), ip.asint(st, ip.norm(st, it[2][1]))
        if a is None or b is None:
            return None
        t = ip.TM.mk(("adv", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), irange(c, ip.T.fields(it[1])[0]))
        if not ip.D.assume(st, le(a, lt(t))) or not ip.D.assume(st, ("or", le(lt(t), b), ("eq", lsub(lt(t), a)))):
            return None
        return ("S", it[1], (("I", lt(t)), it[2][1]))
    if it[0] in ("U", "S"):
        return ("U", ip.mk("adv", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), ip.vtype(it))
    if it[0] != "IT":
        return None
    kd, p = it[1], it[2]
    if kd in ("slice", "slicemut", "vecinto") and p[0][0] == "L":
        L = p[0]
        if k is None:
            k = lt(ip.TM.mk(("skip", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX)))
        if not ip.D.assume(st, le(k, L[3])):
            return None
        return ("IT", kd, (("L", L[1], ladd(L[2], k), lsub(L[3], k), L[4]),))
    if kd == "enumerate":
        k = lt(ip.TM.mk(("skipn", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX)))
        x = advance(c, st, p[0], tag + "e", k)
        n = ip.asint(st, p[1])
        if x is None or n is None:
            return None
        return ("IT", kd, (x, ("I", ladd(n, k))))
    if kd in ("map", "copied", "cloned", "inspect", "fuse", "filter", "filter_map", "flat_map", "skip_while", "take_while", "map_while"):
        x = advance(c, st, p[0], tag + "m", k if kd in ("map", "copied", "cloned", "inspect", "fuse") else None)
        return None if x is None else ("IT", kd, (x,) + tuple(p[1:]))
    if kd == "zip":
        if k is None:
            k = lt(ip.TM.mk(("skipz", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX)))
        x, y = advance(c, st, p[0], tag + "x", k), advance(c, st, p[1], tag + "y", k)
        return None if x is None or y is None else ("IT", kd, (x, y))
    if kd == "chain":
        x, y = advance(c, st, p[0], tag + "x"), advance(c, st, p[1], tag + "y")
        return None if x is None or y is None else ("IT", kd, (x, y))
    if kd == "rev":
        q = p[0]
        if q[0] == "IT" and q[1] in ("slice", "slicemut") and q[2][0][0] == "L":
            L = q[2][0]
            k = k or lt(ip.TM.mk(("skip", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX)))
            if not ip.D.assume(st, le(k, L[3])):
                return None
            return ("IT", kd, (("IT", q[1], (("L", L[1], L[2], lsub(L[3], k), L[4]),)),))
        return None
    if kd in ("take", "skip"):
        n = ip.asint(st, ip.norm(st, p[1]))
        x = advance(c, st, p[0], tag + "t")
        if n is None or x is None:
            return None
        t = lt(ip.TM.mk(("left", tag, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX)))
        if not ip.D.assume(st, le(t, n)):
            return None
        return ("IT", kd, (x, ("I", t)))
    return None


def iter_effects(c, st, it):
    """obligations of the closures inside a lazily consumed iterator: run the first and an arbitrary item on copies"""
    ip = c.ip
    if it[0] != "IT":
        return
    for i, x in enumerate(it[2]):
        if isinstance(x, tuple) and x:
            if x[0] == "S" and x[1] is not None and ip.kind(x[1]) == "closure":
                ip.havoc_arg(st, x, termof(c, st, "it"), ("it", i), None)
    root = ("L", c.fr.fid, "ite%d" % c.b)
    s = st.copy()
    a = advance(c, s, it, "a")
    if a is None:
        s = st.copy()
        a = it
        ip.lost_iter(it)
    s.mem[root] = a
    nxt(c, s, root, (), None, 0)


def hasclosure(ip, v, d=0):
    if not isinstance(v, tuple) or not v or d > 8:
        return False
    if v[0] == "IT":
        return any(hasclosure(ip, x, d + 1) or is_closure(ip, x) for x in v[2] if isinstance(x, tuple))
    if v[0] == "S":
        return any(hasclosure(ip, x, d + 1) for x in v[2])
    if v[0] == "E":
        return any(hasclosure(ip, x, d + 1) for a in v[2] for x in a[1])
    return False


def escaping(c, st, v):
    """runs the closures of lazy iterators inside a value that is returned to the caller"""
    if v[0] == "IT":
        if hasclosure(c.ip, v):
            iter_effects(c, st, v)
    elif v[0] == "S":
        for x in v[2]:
            escaping(c, st, x)
    elif v[0] == "E":
        for a in v[2]:
            for x in a[1]:
                escaping(c, st, x)


def nxt(c, st, root, path, ety, d):
    """[(state, item value or None)]; updates the iterator stored at the place"""
    ip = c.ip
    v = ip.get(st, root, path)
    if v is None:
        return None
    v = asiter(c, st, v)
    if v[0] == "R":
        return nxt(c, st, v[1], v[2], ety, d + 1)
    def upd(s, nv):
        ip.setp(s, root, path, nv)
    if v[0] == "S" and v[1] is not None:
        t = ip.T.T[v[1]]
        if t["k"] == "adt" and t["def"] == "core::ops::Range":
            a, b = ip.asint(st, ip.norm(st, v[2][0])), ip.asint(st, ip.norm(st, v[2][1]))
            if a is None or b is None:
                return None
            g, bad = fork(c, st, ltc(a, b))
            out = []
            if g is not None:
                ip.setp(g, root, path, ("S", v[1], (("I", laddc(a, 1)), v[2][1])))
                out.append((g, ("I", a)))
            if bad is not None:
                ip.setp(bad, root, path, v)
                out.append((bad, None))
            return out
        return local_next(c, st, root, path, v[1], d)
    if v[0] == "U":
        return local_next(c, st, root, path, v[2], d)
    if v[0] != "IT":
        return None
    k, p = v[1], v[2]
    if k in ("slice", "slicemut", "vecinto"):
        L = p[0]
        g, bad = fork(c, st, le(lc(1), L[3]))
        out = []
        if g is not None:
            ip.setp(g, root, path, ("IT", k, (sub(L, lc(1), L[3]),)))
            er = ip.elem_root(g, L, lc(0))
            if k == "vecinto":
                x = ip.get(g, er, ())
                out.append((g, x if x is not None else ip.U(er[1], L[4])))
            else:
                out.append((g, ("R", er, ())))
        if bad is not None:
            ip.setp(bad, root, path, v)
            out.append((bad, None))
        return out
    if k in ("chunks", "chunks_exact", "windows", "rchunks", "chunks_exact_mut", "chunks_mut"):
        L, n = p[0], ip.asint(st, p[1])
        need = lc(1) if k in ("chunks", "chunks_mut", "rchunks") else n
        g, bad = fork(c, st, le(need, L[3]))
        out = []
        if g is not None:
            if k in ("chunks_exact", "chunks_exact_mut"):
                ip.setp(g, root, path, ("IT", k, (sub(L, n, L[3]), p[1])))
                out.append((g, sub(L, lc(0), n)))
            elif k == "windows":
                ip.setp(g, root, path, ("IT", k, (sub(L, lc(1), L[3]), p[1])))
                out.append((g, sub(L, lc(0), n)))
            else:
                x, y = fork(c, g, le(n, L[3]))
                for s, m in ((x, n), (y, L[3])):
                    if s is not None:
                        ip.setp(s, root, path, ("IT", k, (sub(L, m, L[3]), p[1])))
                        out.append((s, sub(L, lc(0), m)))
        if bad is not None:
            out.append((bad, None))
        return out
    if k == "arrinto":
        if not p:
            return [(st, None)]
        ip.setp(st, root, path, ("IT", k, p[1:]))
        return [(st, p[0])]
    if k == "once":
        if not p:
            return [(st, None)]
        ip.setp(st, root, path, ("IT", k, ()))
        return [(st, p[0])]
    if k == "empty":
        return [(st, None)]
    if k == "repeat":
        return [(st, p[0])]
    sroot = ("L", c.fr.fid, "it%d.%d" % (c.b, d))
    def inner(s, i=0, tag=""):
        r = sroot if not tag else ("L", c.fr.fid, "it%d.%d%s" % (c.b, d, tag))
        s.mem[r] = p[i]
        res = nxt(c, s, r, (), None, d + 1)
        if res is None:
            return None
        o = []
        for s2, x in res:
            nv = s2.mem.pop(r, p[i])
            o.append((s2, nv, x))
        return o
    if k == "enumerate":
        r = inner(st)
        if r is None:
            return None
        cnt = ip.asint(st, p[1])
        out = []
        for s, ni, x in r:
            if x is None:
                upd(s, ("IT", k, (ni, p[1])))
                out.append((s, None))
            else:
                # the count never exceeds the number of items, which fits usize
                ip.D.assume(s, ("le", laddc(cnt, -IMAX)))
                upd(s, ("IT", k, (ni, ("I", laddc(cnt, 1)))))
                out.append((s, ("S", None, (p[1], x))))
        return out
    if k in ("copied", "cloned"):
        r = inner(st)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            upd(s, ("IT", k, (ni,)))
            if x is not None:
                y = ip.norm(s, x)
                z = None
                if y[0] == "R":
                    z = ip.get(s, y[1], y[2])
                if z is None:
                    z = ("U", ip.mk("deref", TRef(ip.key(s, y))), ety)
                x = z
            out.append((s, x))
        return out
    if k == "map":
        r = inner(st)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is None:
                upd(s, ("IT", k, (ni, p[1])))
                out.append((s, None))
                continue
            croot = ("L", c.fr.fid, "itc%d.%d" % (c.b, d))
            s.mem[croot] = p[1]
            x = tuple_type(c, p[1], 0, x)
            for s2, y in ip.call_value(s, c.fr, c.b, ("R", croot, ()) if is_closure(ip, p[1]) else p[1], [x], ety):
                nc = s2.mem.pop(croot, p[1])
                ip.setp(s2, root, path, ("IT", k, (ni, nc)))
                out.append((s2, y))
        return out
    if k == "split":
        L, first, pos = p
        if first[0] != "B" or L[0] != "L":
            return None
        pk = ip.key(st, pos)
        def piece(s, tag):
            x = ip.mkslice(ip.mk("piece", TRef(pk)), L[4])
            ip.D.assume_le(s, lsub(x[3], L[3]))
            return x
        upd_v = ("IT", k, (L, ("B", False), ("U", ip.mk("splitnext", TRef(pk)), None)))
        if first[1] is True:
            upd(st, upd_v)
            return [(st, piece(st, "first"))]
        b = st.copy()
        upd(st, upd_v)
        return [(st, piece(st, "next")), (b, None)]
    if k == "rev":
        q = p[0]
        if q[0] == "IT" and q[1] == "enumerate" and q[2][0][0] == "IT" and q[2][0][1] in ("slice", "slicemut"):
            L = q[2][0][2][0]
            n = ip.asint(st, q[2][1])
            g, bad = fork(c, st, le(lc(1), L[3])) if n is not None else (None, None)
            if n is not None:
                out = []
                if g is not None:
                    last = laddc(L[3], -1)
                    upd(g, ("IT", k, (("IT", "enumerate", (("IT", q[2][0][1], (sub(L, lc(0), last),)), q[2][1])),)))
                    out.append((g, ("S", None, (("I", ladd(n, last)), ("R", ip.elem_root(g, L, last), ())))))
                if bad is not None:
                    out.append((bad, None))
                return out
        if q[0] == "IT" and q[1] in ("slice", "slicemut"):
            L = q[2][0]
            g, bad = fork(c, st, le(lc(1), L[3]))
            out = []
            if g is not None:
                upd(g, ("IT", k, (("IT", q[1], (sub(L, lc(0), laddc(L[3], -1)),)),)))
                out.append((g, ("R", ip.elem_root(g, L, laddc(L[3], -1)), ())))
            if bad is not None:
                out.append((bad, None))
            return out
        if q[0] == "S" and q[1] is not None and ip.T.T[q[1]].get("def") == "core::ops::Range":
            a, b = ip.asint(st, ip.norm(st, q[2][0])), ip.asint(st, ip.norm(st, q[2][1]))
            if a is not None and b is not None:
                g, bad = fork(c, st, ltc(a, b))
                out = []
                if g is not None:
                    upd(g, ("IT", k, (("S", q[1], (q[2][0], ("I", laddc(b, -1)))),)))
                    out.append((g, ("I", laddc(b, -1))))
                if bad is not None:
                    out.append((bad, None))
                return out
        return None
    if k == "zip":
        r = inner(st)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is None:
                upd(s, ("IT", k, (ni, p[1])))
                out.append((s, None))
                continue
            q = inner(s, 1, "b")
            if q is None:
                return None
            for s2, nj, y in q:
                upd(s2, ("IT", k, (ni, nj)))
                out.append((s2, None if y is None else ("S", None, (x, y))))
        return out
    if k == "chain":
        r = inner(st)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is not None:
                upd(s, ("IT", k, (ni, p[1])))
                out.append((s, x))
            else:
                q = inner(s, 1, "b")
                if q is None:
                    return None
                for s2, nj, y in q:
                    upd(s2, ("IT", k, (ni, nj)))
                    out.append((s2, y))
        return out
    if k == "take":
        n = lin(c, st, p[1])
        if n is None:
            return None
        g, bad = fork(c, st, le(lc(1), n))
        out = []
        if g is not None:
            r = inner(g)
            if r is None:
                return None
            for s, ni, x in r:
                upd(s, ("IT", k, (ni, ("I", laddc(n, -1)))))
                out.append((s, x))
        if bad is not None:
            out.append((bad, None))
        return out
    if k in ("fuse", "peekable"):
        r = inner(st)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            upd(s, ("IT", k, (ni,)))
            out.append((s, x))
        return out
    if k in ("filter", "take_while", "skip_while", "inspect", "skip", "step", "filter_map", "map_while", "flat_map"):
        # an arbitrary later item of the inner iterator
        r = some_item(c, st, p[0], d)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is None:
                upd(s, ("IT", k, (ni,) + p[1:]))
                out.append((s, None))
                continue
            if k in ("skip", "step"):
                upd(s, ("IT", k, (ni,) + p[1:]))
                out.append((s, x))
                continue
            croot = ("L", c.fr.fid, "itc%d.%d" % (c.b, d))
            s.mem[croot] = p[1]
            f = ("R", croot, ()) if is_closure(ip, p[1]) else p[1]
            if k in ("filter", "take_while", "skip_while", "inspect"):
                xr = ("L", c.fr.fid, "itx%d.%d" % (c.b, d))
                s.mem[xr] = x
                for s2, y in ip.call_value(s, c.fr, c.b, f, [("R", xr, ())], ip.boolt):
                    nc = s2.mem.pop(croot, p[1])
                    x2 = s2.mem.pop(xr, x)
                    y = ip.norm(s2, y)
                    if y[0] == "B":
                        a, b = fork(c, s2, y[1])
                    else:
                        a, b = s2, s2.copy()
                    if k == "skip_while":
                        a, b = b, a
                    if a is not None:
                        ip.setp(a, root, path, ("IT", k, (ni, nc)))
                        out.append((a, x2))
                    if b is not None:
                        ip.setp(b, root, path, ("IT", k, (ni, nc)))
                        out.append((b, None))
                continue
            x = tuple_type(c, p[1], 0, x)
            rt = closure_ret(c, p[1])
            for s2, y in ip.call_value(s, c.fr, c.b, f, [x], rt):
                nc = s2.mem.pop(croot, p[1])
                ip.setp(s2, root, path, ("IT", k, (ni, nc)))
                if k in ("filter_map", "map_while"):
                    q = alts(c, s2, y, rt)
                    if q is None:
                        return None
                    for s3, kk, fs in q:
                        out.append((s3, fs[0] if kk == 1 else None))
                else:
                    out.append((s2, ("U", ip.mk("flatitem", TRef(ip.key(s2, y))), ety)))
                    s4 = s2.copy()
                    out.append((s4, None))
        return out
    if k == "from_fn":
        return None
    return None


def closure_ret(c, f):
    ip = c.ip
    if f[0] == "S" and f[1] is not None and ip.kind(f[1]) == "closure":
        cd = ip.T.T[f[1]]
        fn = ip.P.fns.get(cd["def"])
        if fn:
            rf = ip.P.fns.get(fn.get("root"))
            env = dict(zip(rf["generics"], cd["pargs"])) if rf else {}
            return ip.T.subst(fn["locals"][0], env)
    return None


def some_item(c, st, it, d):
    """some item of `it` after skipping any number: [(state, new iterator, item|None)]"""
    ip = c.ip
    n = iter_ub(c, st, it)
    if it[0] == "IT" and it[1] in ("slice", "slicemut", "vecinto"):
        L = it[2][0]
        k = ip.TM.mk(("skip", d, TRef(ip.key(st, it)), str(c.b), c.fr.fid), (0, IMAX))
        g = st.copy()
        out = []
        if ip.D.assume(g, ltc(lt(k), L[3])):
            er = ip.elem_root(g, L, lt(k))
            x = ("R", er, ()) if it[1] != "vecinto" else ip.get(g, er, ())
            out.append((g, ("IT", it[1], (("L", L[1], ladd(L[2], laddc(lt(k), 1)), laddc(lsub(L[3], lt(k)), -1), L[4]),)), x))
        out.append((st, ("IT", it[1], (sub(L, L[3], L[3]),)), None))
        return out
    if it[0] == "IT" and it[1] == "enumerate":
        r = some_item(c, st, it[2][0], d + 1)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is None:
                out.append((s, ("IT", "enumerate", (ni, it[2][1])), None))
                continue
            # index = old count + items skipped
            cnt = ip.asint(s, it[2][1])
            if ni[0] == "IT" and it[2][0][0] == "IT" and ni[1] in ("slice", "slicemut") :
                k = laddc(lsub(it[2][0][2][0][3], ni[2][0][3]), -1)
                idx = ladd(cnt, k)
            else:
                t = ip.TM.mk(("skipidx", d, TRef(ip.key(s, it)), str(c.b), c.fr.fid), (0, IMAX))
                idx = lt(t)
                ip.D.assume(s, le(cnt, idx))
            out.append((s, ("IT", "enumerate", (ni, ("I", laddc(idx, 1)))), ("S", None, (("I", idx), x))))
        return out
    # generic: forget the position of the inner iterator, then take one
    root = ("L", c.fr.fid, "itg%d.%d" % (c.b, d))
    g = st.copy()
    av = advance(c, g, it, "s%d" % d)
    if av is None:
        g = st.copy()
        av = it
        ip.lost_iter(it)
    g.mem[root] = av
    r = nxt(c, g, root, (), None, d + 1)
    if r is None:
        return None
    out = []
    for s, x in r:
        ni = s.mem.pop(root, it)
        if x is not None:
            # any later item: same shape, unknown contents
            x = ("U", ip.mk("item", TRef(ip.key(s, x)), str(c.b), c.fr.fid), ip.vtype(x)) if x[0] != "R" else x
            ni = ("U", ip.mk("adv", TRef(ip.key(s, ni)), str(c.b), c.fr.fid), None)
        out.append((s, ni, x))
    return out


def is_closure(ip, v):
    return v[0] == "S" and v[1] is not None and ip.kind(v[1]) == "closure"


def tuple_type(c, f, i, x):
    """gives the closure's parameter type to an untyped item"""
    ip = c.ip
    if x[0] == "S" and x[1] is None or x[0] == "U" and x[2] is None:
        t = None
        if is_closure(ip, f):
            cd = ip.T.T[f[1]]
            fn = ip.P.fns.get(cd["def"])
            if fn and len(fn["locals"]) > 2 + i:
                rf = ip.P.fns.get(fn.get("root"))
                env = dict(zip(rf["generics"], cd["pargs"])) if rf else {}
                t = ip.T.subst(fn["locals"][2 + i], env)
        if t is not None:
            return retype(ip, x, t)
    return x


def retype(ip, x, t):
    if x[0] == "U" and x[2] is None:
        return ip.U(x[1], t)
    if x[0] == "S" and x[1] is None:
        tt = ip.T.T[t]
        fs = tt["of"] if tt["k"] == "tuple" else [None] * len(x[2])
        return ("S", t, tuple(retype(ip, y, f) if f is not None else y for y, f in zip(x[2], fs)))
    return x


def local_next(c, st, root, path, tid, d):
    """next() of a type with its own Iterator impl, or of an unknown iterator"""
    ip = c.ip
    if tid is None:
        return None
    t = ip.T.T[tid]
    hit = ip.T.find_impl("core::iter::Iterator", [tid])
    reft = ip.T.intern({"k": "ref", "mut": True, "to": tid})
    if hit:
        its = {i["n"]: i for i in hit[0]["items"]}
        if "next" in its and its["next"]["def"] in ip.P.fns:
            f = ip.P.fns[its["next"]["def"]]
            env = dict(hit[1])
            dt = ip.T.subst(f["locals"][0], env)
            fn = {"def": "core::iter::Iterator::next", "trait": "core::iter::Iterator", "name": "next", "args": [tid]}
            out = []
            for s, v in ip.call_fn(st, c.fr, c.b, fn, {}, [("R", root, path)], [reft], dt):
                q = alts(c, s, v, dt)
                if q is None:
                    return None
                for s2, k, fs in q:
                    out.append((s2, fs[0] if k == 1 else None))
            return out
    return None


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(c, st):
    ip = c.ip
    if c.d in ip.P.fns:
        return None
    v = ip.norm(st, c.args[0])
    if v[0] != "R":
        return None
    if c.d.endswith("next_back"):
        x = asiter(c, st, ip.get(st, v[1], v[2]))
        if x[0] == "IT" and x[1] in ("slice", "slicemut"):
            L = x[2][0]
            g, bad = fork(c, st, le(lc(1), L[3]))
            out = []
            if g is not None:
                ip.setp(g, v[1], v[2], ("IT", x[1], (sub(L, lc(0), laddc(L[3], -1)),)))
                out.append((g, some(c, g, ("R", ip.elem_root(g, L, laddc(L[3], -1)), ()))))
            if bad is not None:
                out.append((bad, none(c)))
            return out
        return None
    # the receiver may be a local type that reached us through a generic
    r = nxt(c, st, v[1], v[2], fty(c, c.dt, 1), 0)
    if r is None:
        return next_opaque(c, st, v)
    et = fty(c, c.dt, 1)
    out = []
    for s, x in r:
        if x is None:
            out.append((s, none(c)))
        else:
            if et is not None:
                x = retype(ip, x, et)
            out.append((s, some(c, s, x)))
    return out


def next_opaque(c, st, v):
    """next() of an unknown iterator: its closures run on unknown items"""
    ip = c.ip
    x = ip.get(st, v[1], v[2])
    if x is not None and x[0] == "IT":
        t = termof(c, st, "next")
        for i, y in enumerate(x[2]):
            if isinstance(y, tuple) and y and y[0] == "S":
                ip.closure_effects(c, st, y, t, i)
                ip.havoc_arg(st, y, t, i, None)
    return None


def consume(kind):
    def m(c, st):
        """find/any/all/position/...: the closure runs on some item"""
        ip = c.ip
        if c.d in ip.P.fns:
            return None
        v = ip.norm(st, c.args[0])
        byref = v[0] == "R"
        if byref:
            it = asiter(c, st, ip.get(st, v[1], v[2]))
            loc = (v[1], v[2])
        else:
            it = asiter(c, st, v)
            loc = None
        if it[0] == "R":
            loc = (it[1], it[2])
            it = asiter(c, st, ip.get(st, it[1], it[2]))
            byref = True
        n = iter_len(c, st, it)
        f = c.args[1]
        # effects of earlier calls of the closure
        t = termof(c, st, "it")
        if is_closure(ip, f):
            ip.havoc_arg(st, f, t, ("pre", 1), None)
        r = some_item(c, st, it, 0)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if byref:
                ip.setp(s, loc[0], loc[1], ni)
            if x is None:
                if kind in ("find", "find_map", "position", "rposition"):
                    out.append((s, none(c)))
                elif kind == "any":
                    out.append((s, ("B", False)))
                elif kind == "all":
                    out.append((s, ("B", True)))
                else:
                    out.append((s, unit(c)))
                continue
            root = ("L", c.fr.fid, "cns%d" % c.b)
            if kind == "find":
                s.mem[root] = retype(ip, x, fty(c, c.dt, 1)) if fty(c, c.dt, 1) is not None else x
                a = ("R", root, ())
            else:
                a = tuple_type(c, f, 0, x)
            rt = c.dt if kind == "find_map" else ip.boolt if kind != "for_each" else ip.unit
            for s2, y in ip.call_value(s, c.fr, c.b, f, [a], rt):
                xx = s2.mem.pop(root, x) if kind == "find" else x
                if kind == "for_each":
                    out.append((s2, unit(c)))
                    continue
                if kind == "find_map":
                    q = alts(c, s2, y, c.dt)
                    if q is None:
                        out.append((s2, y))
                        continue
                    for s3, kk, fs in q:
                        if kk == 1:
                            out.append((s3, some(c, s3, fs[0])))
                    continue
                y = ip.norm(s2, y)
                cond = y[1] if y[0] == "B" else None
                if kind == "all":
                    cond = ip.D.neg(cond) if cond is not None else None
                if cond is not None and (ip.D.decide(s2, cond) is False or not ip.D.assume(s2, cond)):
                    continue
                if kind == "find":
                    out.append((s2, some(c, s2, xx)))
                elif kind in ("position", "rposition"):
                    p = ip.TM.mk(("pos", TRef(ip.key(s2, it)), str(c.b), c.fr.fid), (0, IMAX))
                    if it[0] == "IT" and it[1] in ("slice", "slicemut") and ni[0] == "IT":
                        idx = laddc(lsub(it[2][0][3], ni[2][0][3]), -1)
                        out.append((s2, some(c, s2, ("I", idx))))
                    else:
                        ub = iter_ub(c, s2, it)
                        if ub is not None and not ip.D.assume(s2, ltc(lt(p), ub)):
                            continue
                        out.append((s2, some(c, s2, ("I", lt(p)))))
                elif kind == "any":
                    out.append((s2, ("B", True)))
                elif kind == "all":
                    out.append((s2, ("B", False)))
        return out
    return m


for _k in ("find", "find_map", "position", "rposition", "any", "all", "for_each"):
    REG["Iterator::" + _k] = consume(_k)


@model("Iterator::try_for_each", "Iterator::fold", "Iterator::try_fold", "Iterator::reduce", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by", "Iterator::partition")
def _(c, st):
    it = asiter(c, st, deref(c, st, c.args[0]))
    iter_effects(c, st, it)
    return None


@model("Iterator::count", "Iterator::sum", "Iterator::product")
def _(c, st):
    ip = c.ip
    it = asiter(c, st, c.args[0])
    iter_effects(c, st, it)
    if c.d.endswith("count"):
        n = iter_len(c, st, it)
        if n is not None:
            return [(st, ("I", n))]
        t = fresh(c, st, "count", (0, IMAX))
        ub = iter_ub(c, st, it)
        if ub is not None:
            ip.D.assume(st, le(lt(t), ub))
        if ip.grow_hook:
            ip.grow_hook(c, st, "count", lt(t), None, c.atys[0])
        return [(st, ("I", lt(t)))]
    ip.event(c.fr, c.b, "overflow:sum", False, "sum")
    return None


@model("Iterator::max", "Iterator::min", "Iterator::last", "Iterator::nth")
def _(c, st):
    ip = c.ip
    v = ip.norm(st, c.args[0])
    it = asiter(c, st, deref(c, st, v))
    if c.d.endswith("nth") and v[0] == "R":
        r = some_item(c, st, it, 0)
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            ip.setp(s, v[1], v[2], ni)
            out.append((s, none(c) if x is None else some(c, s, retype(ip, x, fty(c, c.dt, 1)))))
        return out
    r = some_item(c, st, it, 0)
    if r is None:
        iter_effects(c, st, it)
        return None
    out = []
    for s, ni, x in r:
        out.append((s, none(c) if x is None else some(c, s, retype(ip, x, fty(c, c.dt, 1)))))
    return out


@model("Iterator::collect", "FromIterator::from_iter")
def _(c, st):
    ip = c.ip
    it = asiter(c, st, c.args[0])
    iter_effects(c, st, it)
    t = ip.T.T[c.dt]
    n = iter_len(c, st, it)
    if t["k"] == "adt" and t["def"] == "alloc::vec::Vec":
        k = fresh(c, st, "collect")
        if n is None:
            m = fresh(c, st, "clen", (0, IMAX))
            ub = iter_ub(c, st, it)
            if ub is not None:
                ip.D.assume(st, le(lt(m), ub))
            n = lt(m)
        if ip.grow_hook:
            ip.grow_hook(c, st, "collect", iter_ub(c, st, it), t["args"][0], c.atys[0])
        return [(st, ("V", k, n, c.dt))]
    if ip.grow_hook:
        ip.grow_hook(c, st, "collect", iter_ub(c, st, it), None, c.atys[0])
    return None


@model("Iterator::size_hint")
def _(c, st):
    return None


@model("Iterator::eq", "Iterator::cmp")
def _(c, st):
    return None


# ------------------------------------------------------------------ ReadRef contract
@model("read::read_ref::ReadRef::read_bytes_at")
def _(c, st):
    ip = c.ip
    off, size = lin(c, st, c.args[1]), lin(c, st, c.args[2])
    if off is None or size is None:
        return None
    k = ip.key(st, c.args[0])
    t = ip.mk("avail", TRef(k), lkey(off), lkey(size))
    base = ip.mk("data", TRef(k), lkey(off), lkey(size))
    g, b = fork(c, st, ("t", t))
    out = []
    if g is not None:
        n = ip.mk("datalen", TRef(k))
        ip.TM.mk(ip.TM.ops[n], (0, IMAX))
        # a successful read lies within the data
        if ip.D.assume(g, le(ladd(off, size), lt(n))):
            out.append((g, ok(c, ("L", base, lc(0), size, ip.u8))))
    if b is not None:
        out.append((b, err(c, unit(c))))
    return out


@model("read::read_ref::ReadRef::read_bytes_at_until")
def _(c, st):
    ip = c.ip
    k = ip.key(st, c.args[0])
    r = rangeof(c, st, c.args[1], None)
    kk = tuple(TRef(ip.key(st, a)) for a in c.args)
    base = ip.TM.mk(("until",) + kk)
    n = ip.mk("len", TRef(base))
    ip.TM.mk(ip.TM.ops[n], (0, IMAX))
    g, b = fork(c, st, ("t", ip.TM.mk(("untilok",) + kk)))
    out = []
    if g is not None:
        good = True
        if r is not None and r[1] is not None:
            good = ip.D.assume(g, ltc(lt(n), lsub(r[1], r[0])))
            m = ip.mk("datalen", TRef(k))
            ip.TM.mk(ip.TM.ops[m], (0, IMAX))
            good = good and ip.D.assume(g, ltc(ladd(r[0], lt(n)), lt(m)))
        if good:
            out.append((g, ok(c, ("L", base, lc(0), lt(n), ip.u8))))
    if b is not None:
        out.append((b, err(c, unit(c))))
    return out


@model("read::read_ref::ReadRef::len")
def _(c, st):
    ip = c.ip
    k = ip.key(st, c.args[0])
    t = ip.mk("lenok", TRef(k))
    n = ip.mk("datalen", TRef(k))
    ip.TM.mk(ip.TM.ops[n], (0, IMAX))
    g, b = fork(c, st, ("t", t))
    out = []
    if g is not None:
        out.append((g, ok(c, ("I", lt(n)))))
    if b is not None:
        out.append((b, err(c, unit(c))))
    return out


# ------------------------------------------------------------------ contracts of the wasm parser
def wasm_range(c, st):
    """a Range<usize> returned by wasmparser has start <= end <= length of the input"""
    ip = c.ip
    t = termof(c, st, "range")
    v = ip.expand(st, ip.U(t, c.dt))
    a, b = ip.asint(st, v[2][0]), ip.asint(st, v[2][1])
    if not ip.D.assume(st, le(a, b)) or not ip.D.assume(st, ("le", laddc(b, -IMAX))):
        return []
    return [(st, v)]


for _n in ("SectionLimited::range", "FunctionBody::range", "CustomSectionReader::range"):
    REG["wasmparser::" + _n] = wasm_range
_PRE.append((re.compile(r"^wasmparser::(\w+)::<.*>::(range)$"), "wasmparser::%s::"))


@model("wasmparser::RelocationType::extent")
def _(c, st):
    """size in bytes of a relocated field: at most a 10-byte LEB128"""
    return [(st, ("I", lt(fresh(c, st, "extent", (0, 16)))))]
