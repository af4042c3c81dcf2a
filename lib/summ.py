"""Symbolic summaries of single functions: what a function returns (and what structures it
builds) as expressions over its parameters, their fields and the calls left opaque.
Obtained by the abstract interpreter (absint) with joins of return states delayed."""
import time, traceback
import absint, facts, dom
from dom import TRef

CAP = 400


class Summary:
    """outs: [(state, value)]"""
    def __init__(self, ip, f, env, args, outs, err):
        self.ip, self.f, self.env, self.args, self.outs, self.err = ip, f, env, args, outs, err
        self.aggs = []


def run(P, d, env=None, opaque=None, setup=None, traces=64, secs=20, inv=None, agg=None, mo=16, call=None, prep=None, store=None):
    ip = absint.Interp(P)
    ip.finv = inv or {}
    ip.keep_fkey = True
    ip.TRACES = traces
    ip.MO = mo
    if opaque:
        ip.opaque_pred = lambda _ip, g, fr: opaque(g)
    ip.t_end = time.time() + secs
    got = []
    ip.root_hook = lambda ip, f, env, args, outs: got.append((args, list(outs)))
    ip.agg_hook = agg
    ip.call_hook = call
    ip.store_hook = store
    f = P.fns[d]
    err = None
    if prep:
        prep(ip)
    try:
        ip.analyse(f, env or {}, setup=setup)
    except absint.Budget as e:
        err = "budget: %s" % e
    except RecursionError:
        err = "recursion"
    except Exception:
        err = traceback.format_exc()[-600:]
    args, outs = got[0] if got else ([], [])
    return Summary(ip, f, env or {}, args, outs, err)


class Expr:
    """value -> nested tuple expression"""
    def __init__(self, ip, st, fname=None):
        self.ip, self.st = ip, st
        self.memo = {}
        self.budget = 4000
        self.width, self.signed = {}, {}      # of integer leaves
        self.typed = False                    # name the variants of local enums

    def field(self, term, i):
        k = self.ip.fkey.get(term)
        if k is not None:
            ad = self.ip.P.adts.get(k[0])
            if ad is not None:
                try:
                    return ad["variants"][k[1]]["f"][k[2]]["n"]
                except (IndexError, KeyError):
                    pass
        return str(i)

    def term(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        self.budget -= 1
        if d > 40 or self.budget < 0:
            return ("deep",)
        op = self.ip.TM.ops[t]
        k = op[0]
        if k == "param":
            r = ("param", op[1])
        elif k == "int":
            r = ("int", op[1])
        elif k == "bool":
            r = ("bool", op[1])
        elif k == "fld":
            r = ("fld", self.term(int(op[1]), d + 1), self.field(t, op[2]))
        elif k in ("deref", "ref"):
            r = self.term(int(op[1]), d + 1)
        elif k == "call":
            r = ("call", facts.simple(op[1])) + tuple(self.term(int(x), d + 1) if isinstance(x, TRef) else str(x) for x in op[3:])
        elif k == "vf":
            r = ("vf", self.term(int(op[1]), d + 1), op[2], op[3])
        else:
            r = (k,) + tuple(self.sub(x, d) for x in op[1:])
        self.memo[t] = r
        g = self.ip.TM.orig.get(t, self.ip.TM.rng[t])
        if g is not None and k not in ("int", "bool"):
            self.width[r] = (max(g[1], -g[0] - 1)).bit_length() + (1 if g[0] < 0 else 0)
            self.signed[r] = g[0] < 0
        return r

    def sub(self, x, d):
        if isinstance(x, TRef):
            return self.term(int(x), d + 1)
        if isinstance(x, tuple):
            return tuple(self.sub(y, d) for y in x)
        return x

    def lin(self, l, d=0):
        parts = [(c, self.term(t, d + 1)) for t, c in l[1]]
        if l[0] == 0 and len(parts) == 1 and parts[0][0] == 1:
            return parts[0][1]
        if not parts:
            return ("int", l[0])
        return ("sum", l[0]) + tuple(sorted(parts, key=str))

    def cond(self, c, d=0):
        if c is True or c is False:
            return ("bool", c)
        if c[0] == "t":
            return self.term(c[1], d)
        if c[0] in ("and", "or"):
            return (c[0], self.cond(c[1], d + 1), self.cond(c[2], d + 1))
        if c[0] == "not":
            return ("not", self.cond(c[1], d + 1))
        if c[0] in ("le", "eq", "ne"):
            return (c[0], self.lin(c[1], d))
        return ("cond",) + tuple(str(x) for x in c)

    def vname(self, tid, i):
        if not self.typed or tid is None:
            return i
        ty = self.ip.P.types[tid]
        ad = self.ip.P.adts.get(ty.get("def")) if ty["k"] == "adt" else None
        if ad is None or not ad.get("local"):
            return i
        return "%s::%s" % (facts.simple(ty["def"]).split("::")[-1], ad["variants"][i].get("n") or ad["variants"][i].get("name"))

    def value(self, v, d=0):
        ip, st = self.ip, self.st
        v = ip.norm(st, v)
        if d > 12:
            return ("deep",)
        k = v[0]
        if k == "I":
            return self.lin(v[1])
        if k == "B":
            return self.cond(v[1])
        if k == "U":
            t = v[1]
            vk = ip.TM.known(st, t)
            if isinstance(vk, int) and v[2] is not None:
                fs = ip.vfields(t, v[2], vk)
                return ("var", self.vname(v[2], vk)) + tuple(self.value(x, d + 1) for x in (fs or ()))
            return self.term(t)
        if k == "S":
            fs = [self.value(x, d + 1) for x in v[2]]
            # all fields of one value: the value itself
            if fs and all(isinstance(x, tuple) and x and x[0] == "fld" for x in fs) and len({x[1] for x in fs}) == 1 and v[1] is not None and len(ip.T.fields(v[1])) == len(fs):
                names = [x[2] for x in fs]
                ad = ip.P.adts.get(ip.T.T[v[1]].get("def"))
                want = [q["n"] for q in ad["variants"][0]["f"]] if ad else [str(i) for i in range(len(fs))]
                if names == want or names == [str(i) for i in range(len(fs))]:
                    return fs[0][1]
            nm = ip.T.T[v[1]].get("def") if v[1] is not None else None
            return ("struct", facts.simple(nm) if nm else "tuple") + tuple(fs)
        if k == "E":
            if len(v[2]) == 1:
                return ("var", self.vname(v[1], v[2][0][0])) + tuple(self.value(x, d + 1) for x in v[2][0][1])
            return ("alt",) + tuple(sorted((("var", self.vname(v[1], a[0])) + tuple(self.value(x, d + 1) for x in a[1]) for a in v[2]), key=str))
        if k == "R":
            x = ip.get(st, v[1], v[2])
            if x is None:
                return ("ref?", str(v[1])[:60])
            return self.value(x, d + 1)
        return self.term(ip.key(st, v))


def leaves(e, acc=None):
    """field paths, parameters and calls which an expression is made of"""
    if acc is None:
        acc = set()
    if isinstance(e, tuple):
        if e and e[0] == "fld":
            acc.add(show(e))
            return acc
        if e and e[0] == "param":
            acc.add("param%d" % e[1])
            return acc
        if e and e[0] == "call":
            acc.add(e[1])
        for x in e:
            leaves(x, acc)
    return acc


def show(e, d=0):
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return "()"
    if e[0] == "param":
        return "p%d" % e[1]
    if e[0] == "int":
        return str(e[1])
    if e[0] == "fld":
        return "%s.%s" % (show(e[1], d + 1), e[2])
    if e[0] == "call":
        return "%s(%s)" % (e[1], ", ".join(show(x, d + 1) for x in e[2:]))
    if d > 14:
        return "..."
    return "%s(%s)" % (e[0], ", ".join(show(x, d + 1) for x in e[1:]))
