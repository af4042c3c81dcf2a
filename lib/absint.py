"""Abstract interpreter over MIR facts (inlining, symbolic value terms, linear facts)."""
import time
from dom import *
from tys import Types

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::ControlFlow"


class Budget(Exception):
    pass


class FnInfo:
    """CFG facts of one body: reverse postorder, weak topological order, liveness"""

    def __init__(self, f):
        self.f = f
        B = f["blocks"]
        n = len(B)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(B):
            if b.get("cl"):
                continue
            t = b["t"]
            k = t["k"]
            if k == "goto":
                s = [t["to"]]
            elif k == "switch":
                s = [x[1] for x in t["cases"]] + [t["else"]]
            elif k in ("call", "assert", "drop"):
                s = [t["to"]] if t["to"] is not None else []
            else:
                s = []
            self.succ[i] = [x for x in dict.fromkeys(s) if not B[x].get("cl")]
        self.wto = self._wto()
        self._live()

    def _wto(self):
        # Bourdoncle by repeated SCC decomposition
        import sys
        succ = self.succ

        def sccs(nodes, entry):
            index, low, on, st, out = {}, {}, set(), [], []
            cnt = [0]
            order = []

            def dfs(root):
                work = [(root, iter([x for x in succ[root] if x in nodes]))]
                index[root] = low[root] = cnt[0]; cnt[0] += 1
                st.append(root); on.add(root)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = cnt[0]; cnt[0] += 1
                            st.append(w); on.add(w)
                            work.append((w, iter([x for x in succ[w] if x in nodes])))
                            break
                        elif w in on:
                            low[v] = min(low[v], index[w])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == index[v]:
                            c = []
                            while True:
                                w = st.pop(); on.discard(w); c.append(w)
                                if w == v:
                                    break
                            out.append((v, c))
            for e in entry:
                if e in nodes and e not in index:
                    dfs(e)
            return out[::-1]

        def build(nodes, entry):
            res = []
            for head, comp in sccs(nodes, entry):
                if len(comp) == 1 and head not in succ[head]:
                    res.append(head)
                else:
                    sub = set(comp) - {head}
                    res.append((head, build(sub, [x for x in succ[head] if x in sub]), frozenset(comp)))
            return res

        reach, stack = {0}, [0]
        while stack:
            v = stack.pop()
            for w in succ[v]:
                if w not in reach:
                    reach.add(w)
                    stack.append(w)
        return build(reach, [0])

    def _live(self):
        f = self.f
        B = f["blocks"]
        use = [set() for _ in B]
        dfn = [set() for _ in B]
        taken = set()

        def rd(pl, i, d):
            if pl[0] not in d:
                use[i].add(pl[0])
            for e in (pl[1] if len(pl) > 1 else ()):
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    use[i].add(e[1])

        def op(o, i, d):
            if o[0] in ("c", "m"):
                rd(o[1], i, d)

        def rv(r, i, d):
            k = r[0]
            if k in ("use", "repeat"):
                op(r[1], i, d)
            elif k == "ref" or k == "rawptr":
                rd(r[2], i, d)
                pl = r[2]
                if not (len(pl) > 1 and "*" in pl[1]):
                    taken.add(pl[0])
            elif k == "cast":
                op(r[2], i, d)
            elif k == "bin":
                op(r[2], i, d); op(r[3], i, d)
            elif k == "un":
                op(r[2], i, d)
            elif k == "discr":
                rd(r[1], i, d)
            elif k == "agg":
                for o in r[2]:
                    op(o, i, d)

        def wr(pl, i, d):
            if len(pl) == 1:
                if pl[0] not in use[i]:
                    d.add(pl[0])
                else:
                    d.add(pl[0])
            else:
                rd(pl, i, d)
        for i, b in enumerate(B):
            d = dfn[i]
            for s in b["s"]:
                if s[0] == "=":
                    rv(s[2], i, d)
                    wr(s[1], i, d)
                elif s[0] == "sd":
                    rd(s[1], i, d)
                elif s[0] == "assume":
                    op(s[1], i, d)
            t = b["t"]
            k = t["k"]
            if k == "switch":
                op(t["on"], i, d)
            elif k == "call":
                op(t["f"], i, d)
                for o in t["a"]:
                    op(o, i, d)
                wr(t["d"], i, d)
            elif k == "assert":
                op(t["c"], i, d)
                for o in t["msg"][1:]:
                    if isinstance(o, list):
                        op(o, i, d)
            elif k == "drop":
                rd(t["p"], i, d)
            elif k == "return":
                if 0 not in d:
                    use[i].add(0)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for i in range(len(B) - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live
        self.taken = taken


class Frame:
    __slots__ = ("f", "info", "env", "fid", "depth", "lt", "stack", "collect")


class Interp:
    MAXDEPTH = 14
    CAP = 10
    TRACES = 1
    MO = 4

    def __init__(self, P, T=None):
        self.P = P
        self.T = T or Types(P)
        self.D = Dom()
        self.TM = self.D.terms
        self.infos = {}
        self.fids = {}
        self.events = []
        self.steps = 0
        self.limit = 10 ** 9
        self.t_end = None
        self.opaque = set()          # local functions never inlined
        self.opaque_pred = None
        self.models = {}
        self.traced = None
        self.loop_hook = None
        self.cutparent, self.cuts = {}, {}
        self.calltype = {}
        self.root_hook = None
        self.record_collect = None   # predicate(fn record) -> record obligations?
        self.inlined = {}
        self.sym_refs = 0
        self.unsafe_hook = None
        self.deref_hook = None
        self.ptr_org = {}
        self.alloc_hook = None
        self.lenfields = ()      # (type, variant, field) that only ever hold the length of the data
        self.lenterms = set()
        self.lenjoin = None
        self.keep_fkey = False   # remember which field each field term denotes
        self.agg_hook = None     # called for each structure built
        self.call_hook = None    # called for each call left opaque
        self.store_hook = None   # called for each assignment to a field
        self.grow_hook = None
        self._ltypes = {}
        self.finv = {}               # (adt, variant, field) -> interval of an integer field / slice length
        self.lost = {}
        self.inv_hook = None
        self.inv_agg = None
        self.fkey = {}
        self.inv_owner = {}
        import models
        models.install(self)

    # ---------------------------------------------------------------- helpers
    def info(self, f):
        i = self.infos.get(f["def"])
        if i is None:
            i = self.infos[f["def"]] = FnInfo(f)
        return i

    def mk(self, *op):
        return self.TM.mk(op)

    def fid(self, *key):
        i = self.fids.get(key)
        if i is None:
            i = self.fids[key] = len(self.fids) + 1
        return i

    def ty(self, fr, tid):
        return self.T.subst(tid, fr.env)

    def kind(self, tid):
        return self.T.T[tid]["k"]

    # value constructors
    def U(self, term, tid):
        if tid is not None:
            k = self.T.T[tid]["k"]
            if k in ("uint", "int", "char"):
                self.TM.mk(self.TM.ops[term], self.T.int_range(tid))
                return ("I", lt(term))
            if k == "bool":
                return ("B", ("t", term))
            if k == "tuple" and not self.T.T[tid]["of"]:
                return ("S", tid, ())
        return ("U", term, tid)

    def mkE(self, tid, variant, fields):
        return ("E", tid, ((variant, tuple(fields), ()),))

    def norm(self, st, v):
        """expands unknown values of special types"""
        if v[0] != "U" or v[2] is None:
            return v
        t = self.T.T[v[2]]
        k = t["k"]
        term = v[1]
        if k in ("ref", "ptr"):
            to = self.T.T[t["to"]]
            if to["k"] in ("slice", "str"):
                e = to["of"] if to["k"] == "slice" else self.u8
                return self.mkslice(term, e)
            return ("R", ("M", self.mk("deref", TRef(term)), t["to"]), ())
        if k == "adt":
            d = t["def"]
            if d == "alloc::vec::Vec" or d == "alloc::string::String":
                e = t["args"][0] if d == "alloc::vec::Vec" else self.u8
                n = self.mk("len", TRef(term))
                self.TM.mk(self.TM.ops[n], (0, self.maxlen(e)))
                return ("V", term, lt(n), v[2])
            if d == "alloc::boxed::Box":
                to = self.T.T[t["args"][0]]
                if to["k"] in ("slice", "str"):
                    e = to["of"] if to["k"] == "slice" else self.u8
                    return self.mkslice(term, e)
                return ("R", ("M", self.mk("deref", TRef(term)), t["args"][0]), ())
            a = self.P.adts.get(d)
            if a and a["kind"] == "enum":
                vk = self.TM.known(st, term)
                if isinstance(vk, int):
                    return ("E", v[2], ((vk, self.vfields(term, v[2], vk), ()),))
        return v

    def vfields(self, term, tid, variant):
        return tuple(self.fU(self.mk("vf", TRef(term), variant, i), f, tid, variant, i) for i, f in enumerate(self.T.fields(tid, variant)))

    def _flin(self, term, ftid):
        if self.T.T[ftid]["k"] in ("uint", "int"):
            return lt(self.TM.mk(self.TM.ops[term], self.T.int_range(ftid)))
        return lt(self.TM.mk(("len", TRef(term)), (0, IMAX)))

    def fU(self, term, ftid, tid, variant, i):
        """unknown value of field i of an unknown value of type tid"""
        if (self.inv_hook or self.keep_fkey) and self.T.T[tid]["k"] == "adt":
            new = term not in self.fkey
            self.fkey[term] = (self.T.T[tid]["def"], variant, i)
            if new and self.TM.on_new is not None:
                self.TM.on_new(term)
        if self.lenfields and self.T.T[tid]["k"] == "adt" and (self.T.T[tid]["def"], variant, i) in self.lenfields:
            self.lenterms.add(term)
        if self.finv:
            t = self.T.T[tid]
            if t["k"] == "adt":
                ps = self.finv.get((t["def"], variant))
                if ps:
                    # relations with the other fields of the same value
                    op = self.TM.ops[term]
                    fs = self.T.fields(tid, variant)
                    for a, b, sa, sb, hi in ps:
                        if i == a or i == b:
                            ta, tb = self.mk(*(op[:-1] + (a,))), self.mk(*(op[:-1] + (b,)))
                            la, lb = self._flin(ta, fs[a]), self._flin(tb, fs[b])
                            lin = laddc(ladd(lscale(la, sa), lscale(lb, sb)), -hi)
                            self.TM.axiom(la[1][0][0], lin)
                            self.TM.axiom(lb[1][0][0], lin)
                r = self.finv.get((t["def"], variant, i))
                if r is not None:
                    k = self.T.T[ftid]["k"]
                    if k in ("uint", "int"):
                        self.TM.mk(self.TM.ops[term], r)
                    else:
                        self.TM.mk(("len", TRef(term)), r)
        return self.U(term, ftid)

    def maxlen(self, e):
        s = self.T.size(e)
        return IMAX // s if s else IMAX

    def mkslice(self, term, e, length=None):
        if length is None:
            n = self.mk("len", TRef(term))
            self.TM.mk(self.TM.ops[n], (0, self.maxlen(e)))
            length = lt(n)
        return ("L", term, lc(0), length, e)

    def expand(self, st, v):
        """U struct/tuple -> S"""
        if v[0] == "U" and v[2] is not None:
            fs = self.T.fields(v[2])
            return ("S", v[2], tuple(self.fU(self.mk("fld", TRef(v[1]), i), f, v[2], 0, i) for i, f in enumerate(fs)))
        return v

    def key(self, st, v, depth=0):
        """hash-consed term that identifies the value"""
        k = v[0]
        if k == "I":
            l = v[1]
            if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
                return l[1][0][0]
            if not l[1]:
                return self.TM.mk(("int", l[0]))
            return self.TM.mk(lkey(l))
        if k == "U":
            return v[1]
        if k == "B":
            c = v[1]
            if c is True or c is False:
                return self.mk("bool", c)
            if c[0] == "t":
                return c[1]
            return self.TM.mk(("cond", c))
        if depth > 8:
            return self.mk("deep")
        if k == "S":
            if v[2]:
                # a struct whose fields are all projections of one unknown value is that value
                fs = [self.key(st, x, depth + 1) for x in v[2]]
                o = self.TM.ops[fs[0]]
                if o[0] == "fld" and o[2] == 0:
                    b = o[1]
                    if all(self.TM.ops[x] == ("fld", b, i) for i, x in enumerate(fs)):
                        return int(b)
                return self.TM.mk(("S",) + tuple(TRef(x) for x in fs))
            return self.mk("S0", self.T.T[v[1]]["s"] if v[1] is not None else "")
        if k == "E":
            return self.TM.mk(("E",) + tuple((a[0],) + tuple(TRef(self.key(st, x, depth + 1)) for x in a[1]) for a in v[2]))
        if k == "R":
            x = self.get(st, v[1], v[2])
            if x is None:
                return self.mk("ref?")
            o = self.key(st, x, depth + 1)
            oo = self.TM.ops[o]
            if oo[0] == "deref":
                return int(oo[1])
            return self.mk("ref", TRef(o))
        if k == "L":
            w = st.mem.get(("W", v[1]))
            op = ("slice", TRef(v[1]), lkey(v[2]), lkey(v[3]))
            if v[2] == (0, ()) and len(v[3][1]) == 1 and self.TM.ops[v[3][1][0][0]] == ("len", TRef(v[1])) and v[3][0] == 0 and w is None:
                return v[1]
            return self.TM.mk(op + ((TRef(w),) if w is not None else ()))
        if k == "V":
            return self.TM.mk(("vec", TRef(v[1]), lkey(v[2])))
        if k == "F":
            return self.mk("fn", v[1], str(sorted((a, str(b)) for a, b in v[2].items())))
        if k == "A":
            return self.TM.mk(("A",) + tuple(TRef(self.key(st, x, depth + 1)) for x in v[2]))
        if k == "IT":
            return self.TM.mk(("IT", v[1]) + tuple(TRef(self.key(st, x, depth + 1)) if isinstance(x, tuple) and x and x[0] in VAL else str(x) for x in v[2]))
        if k == "D":
            return self.key(st, self.get(st, v[1], v[2]), depth + 1)
        return self.mk("?", k)

    # ---------------------------------------------------------------- memory
    def root_default(self, root):
        if root[0] == "M":
            return self.U(root[1], root[2])
        return None

    def get(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = self.root_default(root)
            if v is None:
                return None
        for c in path:
            v = self.proj(st, v, c)
            if v is None:
                return None
        return v

    def proj(self, st, v, c):
        if isinstance(c, tuple):
            if c[0] == "d":
                v = self.norm(st, v)
                if v[0] == "E":
                    for a in v[2]:
                        if a[0] == c[1]:
                            return ("EV", a[1])
                    return ("EV", tuple(self.U(self.mk("none", i), f) for i, f in enumerate(self.T.fields(v[1], c[1]))))
                if v[0] == "U":
                    return ("EV", self.vfields(v[1], v[2], c[1]) if v[2] is not None else ())
                return None
            if c[0] == "ix":
                if v[0] == "A":
                    if not c[1][1] and 0 <= c[1][0] < len(v[2]):
                        return v[2][c[1][0]]
                    return self.U(self.mk("elem", TRef(self.key(st, v)), lkey(c[1])), self.T.T[v[1]].get("of"))
                if v[0] == "U":
                    return self.U(self.mk("elem", TRef(v[1]), lkey(c[1])), self.T.T[v[2]].get("of") if v[2] is not None else None)
                return None
        if v[0] in ("S",):
            return v[2][c] if c < len(v[2]) else None
        if v[0] == "EV":
            return v[1][c] if c < len(v[1]) else None
        if v[0] == "U":
            if v[2] is None:
                return ("U", self.mk("fld", TRef(v[1]), c), None)
            fs = self.T.fields(v[2])
            if c < len(fs):
                return self.fU(self.mk("fld", TRef(v[1]), c), fs[c], v[2], 0, c)
            return ("U", self.mk("fld", TRef(v[1]), c), None)
        if v[0] == "A":
            return v[2][c]
        return ("U", self.mk("fld", TRef(self.key(st, v)), c), None)

    def setp(self, st, root, path, nv):
        if not path:
            st.mem[root] = nv
            return
        v = st.mem.get(root)
        if v is None:
            v = self.root_default(root)
        st.mem[root] = self._upd(st, v, path, nv, root)

    def _upd(self, st, v, path, nv, root=None):
        if not path:
            return nv
        c = path[0]
        if v is None:
            # partially initialised local: type from the frame
            tid = self.local_type(root)
            if tid is None:
                return None
            v = self.U(self.mk("uninit", str(root)), tid)
        if isinstance(c, tuple) and c[0] == "d":
            v = self.norm(st, v)
            if v[0] == "E":
                alts = []
                for a in v[2]:
                    if a[0] == c[1]:
                        fs = list(a[1])
                        fs[path[1]] = self._upd(st, fs[path[1]], path[2:], nv)
                        a = (a[0], tuple(fs), a[2])
                    alts.append(a)
                return ("E", v[1], tuple(alts))
            if v[0] == "U" and v[2] is not None:
                fs = list(self.vfields(v[1], v[2], c[1]))
                if len(path) > 1 and path[1] < len(fs):
                    fs[path[1]] = self._upd(st, fs[path[1]], path[2:], nv)
                return ("E", v[2], ((c[1], tuple(fs), ()),))
            return v
        if isinstance(c, tuple) and c[0] == "ix":
            if v[0] == "A" and not c[1][1] and 0 <= c[1][0] < len(v[2]):
                l = list(v[2])
                l[c[1][0]] = self._upd(st, l[c[1][0]], path[1:], nv)
                return ("A", v[1], tuple(l))
            tid = v[1] if v[0] == "A" else v[2]
            old = self.proj(st, v, c)
            x = self._upd(st, old, path[1:], nv)
            return ("U", self.mk("upd", TRef(self.key(st, v)), lkey(c[1]), TRef(self.key(st, x))), tid)
        v = self.expand(st, v)
        if v[0] == "S":
            fs = list(v[2])
            if c >= len(fs):
                return v
            fs[c] = self._upd(st, fs[c], path[1:], nv)
            return ("S", v[1], tuple(fs))
        return v

    def local_type(self, root):
        if root and root[0] == "L":
            return self._ltypes.get((root[1], root[2]))
        return None

    # place -> ("P", root, path) or ("SL", slice value)
    def place(self, st, fr, pl):
        cur = ("P", ("L", fr.fid, pl[0]), ())
        if len(pl) == 1:
            return cur
        for e in pl[1]:
            cur = self.pstep(st, fr, cur, e)
        return cur

    def pstep(self, st, fr, cur, e):
        if e == "*":
            if cur[0] == "SL":
                return cur
            v = self.get(st, cur[1], cur[2])
            if v is None:
                v = ("U", self.mk("undef", str(cur[1])), None)
            if self.deref_hook and v[0] == "U" and v[2] is not None and self.T.T[v[2]]["k"] == "ptr":
                self.deref_hook(fr, st, v)
            v = self.norm(st, v)
            if v[0] == "R":
                return ("P", v[1], v[2])
            if v[0] == "L":
                return ("SL", v)
            if v[0] == "U":
                to = None
                if v[2] is not None:
                    t = self.T.T[v[2]]
                    to = t.get("to")
                return ("P", ("M", self.mk("deref", TRef(v[1])), to), ())
            return ("P", ("M", self.mk("deref", TRef(self.key(st, v))), None), ())
        k = e[0]
        if k == "f":
            if cur[0] == "SL":
                return cur
            # keep the declared type for opaque projections
            return ("P", cur[1], cur[2] + (e[1],))
        if k == "d":
            return ("P", cur[1], cur[2] + (("d", e[1]),)) if cur[0] == "P" else cur
        if k == "i":
            iv = self.read(st, ("P", ("L", fr.fid, e[1]), ()))
            lin = iv[1] if iv[0] == "I" else lt(self.key(st, iv))
            return self.elem(st, cur, lin)
        if k == "ci":
            off, mn, fe = e[1], e[2], e[3]
            if cur[0] == "SL":
                lin = lc(off) if not fe else laddc(cur[1][3], -off)
                return self.elem(st, cur, lin)
            if fe:
                v = self.get(st, cur[1], cur[2])
                n = self.arrlen(v)
                if n is not None:
                    return self.elem(st, cur, lc(n - off))
                return ("P", ("M", self.mk("cie", str(cur), off), None), ())
            return self.elem(st, cur, lc(off))
        if k == "ss":
            fromm, to, fe = e[1], e[2], e[3]
            if cur[0] == "SL":
                L = cur[1]
                n = laddc(L[3], -(fromm + to)) if fe else lc(to - fromm)
                return ("SL", ("L", L[1], laddc(L[2], fromm), n, L[4]))
            return ("P", ("M", self.mk("subarr", str(cur[1:])), None), ())
        return ("P", ("M", self.mk("oproj", str(cur)), None), ())

    def arrlen(self, v):
        if v is None:
            return None
        tid = v[1] if v[0] == "A" else (v[2] if v[0] == "U" else None)
        if tid is None:
            return None
        t = self.T.T[tid]
        if t["k"] == "array" and "v" in t["n"]:
            return t["n"]["v"]
        return None

    def elem(self, st, cur, lin):
        if cur[0] == "SL":
            return ("P", self.elem_root(st, cur[1], lin), ())
        return ("P", cur[1], cur[2] + (("ix", lin),))

    def elem_root(self, st, L, lin):
        base = L[1]
        w = st.mem.get(("W", base))
        a = ladd(L[2], lin)
        bo = self.TM.ops[base]
        if bo[0] == "aref" and w is None and not a[1] and 0 <= a[0] < len(bo[1]) and isinstance(bo[1], tuple):
            r = ("M", int(bo[1][a[0]]), L[4])
            return r
        op = ("elem", TRef(base), lkey(a))
        if w is not None:
            op += (TRef(w),)
        t = self.TM.mk(op)
        return ("M", t, L[4])

    def read(self, st, pl):
        if pl[0] == "SL":
            return pl[1]
        v = self.get(st, pl[1], pl[2])
        if v is None:
            return ("U", self.mk("undef", str(pl[1]), str(pl[2])), None)
        return v

    def write(self, st, pl, v):
        if pl[0] == "SL":
            return
        root = pl[1]
        if root[0] == "M":
            op = self.TM.ops[root[1]]
            if op[0] == "elem":
                base = int(op[1])
                self.bump(st, base)
                # content at this index only
                return
        self.setp(st, root, pl[2], v)

    def bump(self, st, base):
        old = st.mem.get(("W", base))
        st.mem[("W", base)] = self.mk("w", TRef(base), TRef(old) if old is not None else 0)
        for r in [r for r in st.mem if r[0] == "M" and self.TM.ops[r[1]][0] == "elem" and int(self.TM.ops[r[1]][1]) == base]:
            del st.mem[r]

    # ---------------------------------------------------------------- operands
    def const(self, st, fr, c):
        tid = self.ty(fr, c["t"])
        t = self.T.T[tid]
        k = t["k"]
        if "fn" in c:
            return self.fnval(fr, c["fn"])
        if "v" in c:
            return self.lit(tid, c["v"])
        if "str" in c:
            b = c["str"].encode("utf-8", "surrogatepass")
            return ("L", self.mk("str", c["str"]), lc(0), lc(len(b)), self.u8)
        if "bytes" in c:
            return ("L", self.mk("bytes", tuple(c["bytes"])), lc(0), lc(len(c["bytes"])), self.u8)
        if "tree" in c:
            return self.tree(tid, c["tree"], c.get("cn"))
        if "ref" in c and k == "ref":
            root = ("M", self.mk("cref", str(c["ref"])), t["to"])
            if root not in st.mem:
                v = self.tree(t["to"], c["ref"], None)
                if v is not None:
                    st.mem[root] = v
            return ("R", root, ())
        if "prom" in c:
            return self.promoted(st, fr, c["prom"], tid)
        if "gc" in c and c["gc"] in fr.env and isinstance(fr.env[c["gc"]], dict) and "v" in fr.env[c["gc"]]:
            return self.lit(tid, fr.env[c["gc"]]["v"])
        if k == "tuple" and not t["of"]:
            return ("S", tid, ())
        if k == "adt":
            a = self.P.adts.get(t["def"])
            if a and a["kind"] == "struct" and not a["variants"][0]["f"]:
                return ("S", tid, ())
            if t["def"] == "core::marker::PhantomData":
                return ("S", tid, ())
        if "cn" in c and c["cn"] in self.P.cbodies and "ca" in c and fr.depth < self.MAXDEPTH:
            v = self.constbody(st, fr, c, tid)
            if v is not None:
                return v
        name = c.get("cn") or c.get("gc") or ("zst:" + t["s"])
        targs = ""
        if "cn" in c and fr.env:
            targs = ",".join("%s=%s" % (a, self.T.T[b]["s"] if isinstance(b, int) else b) for a, b in sorted(fr.env.items()))
        return self.U(self.mk("const", name, targs), tid)

    def lit(self, tid, v):
        t = self.T.T[tid]
        k = t["k"]
        if k == "bool":
            return ("B", bool(v))
        if k == "int":
            b = t["bits"]
            if v >> (b - 1) & 1:
                v -= 1 << b
            return ("I", lc(v))
        if k in ("uint", "char"):
            return ("I", lc(v))
        return self.U(self.mk("lit", v, t["s"]), tid)

    def tree(self, tid, tr, name=None):
        t = self.T.T[tid]
        k = t["k"]
        if tr is None:
            return self.U(self.mk("ctree", t["s"]), tid)
        if isinstance(tr, bool):
            return ("B", tr)
        if isinstance(tr, int):
            if k in ("bool", "int", "uint", "char"):
                return self.lit(tid, tr)
            return self.U(self.mk("ctree", t["s"], tr), tid)
        if isinstance(tr, str):
            if k == "ref":
                return ("L", self.mk("str", tr), lc(0), lc(len(tr.encode("utf-8", "surrogatepass"))), self.u8)
            return self.U(self.mk("ctree", tr), tid)
        if isinstance(tr, dict):
            fs = self.T.fields(tid, tr["var"])
            vals = tuple(self.tree(f, x) for f, x in zip(fs, tr["f"]))
            if self.T.is_enum(tid):
                return self.mkE(tid, tr["var"], vals)
            return ("S", tid, vals)
        if isinstance(tr, list):
            if k == "tuple":
                return ("S", tid, tuple(self.tree(f, x) for f, x in zip(t["of"], tr)))
            if k == "array":
                if len(tr) <= 300:
                    return ("A", tid, tuple(self.tree(t["of"], x) for x in tr))
                return self.U(self.mk("carr", str(tr)), tid)
        return self.U(self.mk("ctree", str(tr)), tid)

    def constbody(self, st, fr, c, tid):
        """value of a generic constant: its body is evaluated; a panic in it is a compile error"""
        f = self.P.cbodies[c["cn"]]
        env = dict(zip(f["generics"], [self.T.sub_arg(a, fr.env) for a in c["ca"]]))
        n = len(self.events)
        outs = self.run_body(st.copy(), f, env, [], ("prom", f["def"], str(sorted(env.items(), key=str))), fr.depth + 1, fr.stack, False)
        del self.events[n:]
        if len(outs) != 1:
            return None
        s2, v = outs[0]
        for r, x in s2.mem.items():
            if r not in st.mem:
                st.mem[r] = x
        for p, b in s2.facts.items():
            if p not in st.facts or st.facts[p] > b:
                st.facts[p] = b
                st._idx = None
        return v

    def promoted(self, st, fr, idx, tid):
        ps = fr.f.get("proms")
        if not ps or idx >= len(ps):
            return self.U(self.mk("prom", fr.f["def"], idx), tid)
        b = ps[idx]
        pf = dict(b)
        pf["def"] = fr.f["def"] + "::{promoted#%d}" % idx
        pf["generics"] = fr.f["generics"]
        if pf["def"] not in self.infos:
            self.infos[pf["def"]] = FnInfo(pf)
        pf["file"] = fr.f["file"]; pf["line"] = fr.f["line"]
        outs = self.run_body(st.copy(), pf, fr.env, [], ("prom", pf["def"]), fr.depth + 1, fr.stack, False)
        if len(outs) != 1:
            return self.U(self.mk("prom", fr.f["def"], idx), tid)
        s2, v = outs[0]
        # keep the memory the promoted created
        for r, x in s2.mem.items():
            if r not in st.mem:
                st.mem[r] = x
        return v

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(st, fr, o[1])
        if o[0] == "rt":
            return ("B", True)
        return self.typed(st, fr, self.read(st, self.place(st, fr, o[1])), o[1])

    def typed(self, st, fr, v, pl):
        """gives a type to a value read from an untyped projection"""
        if v[0] == "U" and v[2] is None:
            t = pl[2] if len(pl) == 3 else fr.f["locals"][pl[0]]
            return self.U(v[1], self.ty(fr, t))
        return v

    def optype(self, fr, o):
        if o[0] == "k":
            return self.ty(fr, o[1]["t"])
        if o[0] == "rt":
            return None
        pl = o[1]
        return self.ty(fr, pl[2] if len(pl) == 3 else fr.f["locals"][pl[0]])

    def pltype(self, fr, pl):
        return self.ty(fr, pl[2] if len(pl) == 3 else fr.f["locals"][pl[0]])

    def fnval(self, fr, fn):
        return ("F", fn["def"], {}, fn, dict(fr.env))

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            p = self.place(st, fr, r[2])
            if p[0] == "SL":
                return p[1]
            return ("R", p[1], p[2])
        if k == "bin":
            return self.binop(st, fr, r[1], r[2], r[3], dst)
        if k == "un":
            return self.unop(st, fr, r[1], r[2], dst)
        if k == "cast":
            return self.cast(st, fr, r[1], r[2], self.ty(fr, r[3]))
        if k == "discr":
            p = self.place(st, fr, r[1])
            if p[0] == "P":
                return ("D", p[1], p[2])
            return self.U(self.mk("disc?"), self.pltype(fr, dst))
        if k == "agg":
            return self.agg(st, fr, r[1], r[2], dst)
        if k == "repeat":
            tid = self.pltype(fr, dst)
            v = self.operand(st, fr, r[1])
            n = self.arrlen(("U", 0, tid))
            if n is not None and n <= 16:
                return ("A", tid, (v,) * n)
            return ("U", self.mk("rep", TRef(self.key(st, v))), tid)
        return self.U(self.mk("rv", str(r)[:80], fr.fid), self.pltype(fr, dst))

    def agg(self, st, fr, kind, ops, dst):
        tid = self.pltype(fr, dst)
        vals = tuple(self.operand(st, fr, o) for o in ops)
        k = kind[0]
        if k == "adt":
            t = self.T.T[tid]
            if t["k"] != "adt":
                return ("U", self.mk("agg?"), tid)
            a = self.P.adts[kind[1]]
            if self.agg_hook:
                self.agg_hook(self, fr, st, kind[1], kind[2], tid, vals)
            if self.inv_hook:
                for i, x in enumerate(vals):
                    self.inv_hook(fr, st, (kind[1], kind[2], i), x)
                self.inv_agg(fr, st, kind[1], kind[2], vals)
            if a["kind"] == "enum":
                return self.mkE(tid, kind[2], vals)
            if a["kind"] == "union":
                return ("U", self.TM.mk(("union", tuple(TRef(self.key(st, v)) for v in vals))), tid)
            return ("S", tid, vals)
        if k == "array":
            if len(vals) <= 64:
                return ("A", tid, vals)
            return ("U", self.TM.mk(("A",) + tuple(TRef(self.key(st, x)) for x in vals)), tid)
        return ("S", tid, vals)

    def asint(self, st, v):
        """linear form of an integer value, or None"""
        if v[0] == "I":
            return v[1]
        if v[0] == "D":
            return self.discr_lin(st, v)
        if v[0] == "B":
            d = self.D.decide(st, v[1])
            if d is not None:
                return lc(int(d))
            t = self.TM.mk(("b2i", TRef(self.key(st, v))), (0, 1))
            return lt(t)
        return None

    def discr_lin(self, st, v):
        x = self.get(st, v[1], v[2])
        x = self.norm(st, x) if x is not None else ("U", self.mk("undef"), None)
        if x[0] == "E":
            a = self.T.adt(x[1])
            if len(x[2]) == 1:
                return lc(self.sdisc(a["variants"][x[2][0][0]]["d"]))
        tid = x[1] if x[0] == "E" else (x[2] if x[0] == "U" else None)
        t = self.mk("disc", TRef(self.key(st, x)))
        a = self.T.adt(tid) if tid is not None else None
        if a and a["variants"]:
            ds = [self.sdisc(y["d"]) for y in a["variants"]]
            self.TM.mk(self.TM.ops[t], (min(ds), max(ds)))
        return lt(t)

    def sdisc(self, d):
        return d - (1 << 128) if d >> 127 else d

    def fits(self, st, lin, rng):
        return self.D.le(st, laddc(lin, -rng[1])) and self.D.le(st, laddc(lscale(lin, -1), rng[0]))

    def wrapped(self, st, opname, lin, tid, a, b=None):
        """result of wrapping arithmetic whose exact value is lin"""
        rng = self.T.int_range(tid)
        if rng is None:
            return self.U(self.mk("wrap", opname, lkey(lin)), tid)
        if self.fits(st, lin, rng):
            return ("I", lin)
        t = self.TM.mk(("wrap", self.T.T[tid]["s"], lkey(lin)), rng)
        return ("I", lt(t))

    def mul(self, a, b):
        if not a[1]:
            return lscale(b, a[0])
        if not b[1]:
            return lscale(a, b[0])
        x, y = (a, b) if a <= b else (b, a)
        return lt(self.TM.mk(("mul", lkey(x), lkey(y))))

    def mulfacts(self, st, a, b, m):
        """bounds of the product of two non-negative values from the bounds of the factors"""
        if not a[1] or not b[1] or len(m[1]) != 1:
            return
        ha, hb = self.D.ub(st, a), self.D.ub(st, b)
        if ha is None or hb is None:
            return
        la, lb = self.D.ub(st, lscale(a, -1)), self.D.ub(st, lscale(b, -1))
        if la is None or lb is None or la > 0 or lb > 0:
            return
        self.D.assume_le(st, laddc(m, -ha * hb))
        self.D.assume_le(st, laddc(lscale(m, -1), la * lb))

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}

    def compare(self, st, op, a, b):
        la, lb = self.asint(st, a), self.asint(st, b)
        if a[0] == "B" and b[0] == "B":
            da, db = self.D.decide(st, a[1]), self.D.decide(st, b[1])
            if db is not None and op in ("Eq", "Ne"):
                c = a[1] if db == (op == "Eq") else self.D.neg(a[1])
                return ("B", c)
            if da is not None and op in ("Eq", "Ne"):
                c = b[1] if da == (op == "Eq") else self.D.neg(b[1])
                return ("B", c)
        if la is not None and lb is not None:
            d = lsub(la, lb)
            if op == "Lt":
                c = ("le", laddc(d, 1))
            elif op == "Le":
                c = ("le", d)
            elif op == "Gt":
                c = ("le", laddc(lscale(d, -1), 1))
            elif op == "Ge":
                c = ("le", lscale(d, -1))
            elif op == "Eq":
                c = ("eq", d)
            else:
                c = ("ne", d)
            if not d[1]:
                c = self.D.decide(st, c)
            elif c[0] in ("eq", "ne"):
                # canonical sign
                if d[1][0][1] < 0:
                    c = (c[0], lscale(d, -1))
            return ("B", c)
        ka, kb = self.key(st, a), self.key(st, b)
        if op in ("Eq", "Ne"):
            if ka == kb:
                return ("B", op == "Eq")
            if ka > kb:
                ka, kb = kb, ka
            t = self.mk("eq", TRef(ka), TRef(kb))
            return ("B", ("t" if op == "Eq" else "nt", t))
        return ("B", ("t", self.mk("cmp", op, TRef(ka), TRef(kb))))

    def binop(self, st, fr, op, oa, ob, dst):
        a = self.norm(st, self.operand(st, fr, oa))
        b = self.norm(st, self.operand(st, fr, ob))
        if op in self.CMP:
            return self.compare(st, op, a, b)
        tid = self.optype(fr, oa)
        return self.arith(st, op, a, b, tid, self.pltype(fr, dst))

    def arith(self, st, op, a, b, tid, dt):
        la, lb = self.asint(st, a), self.asint(st, b)
        rng = self.T.int_range(tid)
        if op in ("BitAnd", "BitOr", "BitXor") and (a[0] == "B" or b[0] == "B") and a[0] in "B" and b[0] in "B":
            if op == "BitAnd":
                return ("B", self.cand(st, a[1], b[1]))
            if op == "BitOr":
                return ("B", self.D.neg(self.cand(st, self.D.neg(a[1]), self.D.neg(b[1]))))
            d = self.D.decide(st, b[1])
            if d is not None:
                return ("B", self.D.neg(a[1]) if d else a[1])
            return ("B", ("t", self.mk("bxor", TRef(self.key(st, a)), TRef(self.key(st, b)))))
        if la is None or lb is None or rng is None:
            return self.U(self.mk("bin", op, TRef(self.key(st, a)), TRef(self.key(st, b))), dt)
        if op.endswith("WithOverflow"):
            base = op[:3]
            lin = ladd(la, lb) if base == "Add" else lsub(la, lb) if base == "Sub" else self.mul(la, lb)
            if base == "Mul":
                self.mulfacts(st, la, lb, lin)
            c1 = ("le", laddc(lscale(lin, -1), rng[1] + 1))     # lin > max
            c2 = ("le", laddc(lin, -rng[0] + 1))                # lin < min
            if not lin[1]:
                c = not (rng[0] <= lin[0] <= rng[1])
                if c:
                    return ("S", dt, (self.wrapped(st, base, lin, tid, a, b), ("B", True)))
                return ("S", dt, (("I", lin), ("B", False)))
            return ("S", dt, (("I", lin), ("B", ("or", c1, c2))))
        if op in ("Add", "AddUnchecked"):
            return self.wrapped(st, op, ladd(la, lb), tid, a, b)
        if op in ("Sub", "SubUnchecked"):
            return self.wrapped(st, op, lsub(la, lb), tid, a, b)
        if op in ("Mul", "MulUnchecked"):
            return self.wrapped(st, op, self.mul(la, lb), tid, a, b)
        if op == "Cmp":
            return ("U", self.mk("cmp3", lkey(la), lkey(lb)), dt)
        return ("I", self.intop(st, op, la, lb, rng, tid))

    def cand(self, st, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return ("and", a, b)

    def konst(self, st, lin):
        """the constant a linear form is known to be, or None"""
        c = lin[0]
        for t, k in lin[1]:
            h = self.D.hi(st, t, 1)
            if h == INF or h != self.D.lo(st, t, 1):
                return None
            c += k * h
        return c

    def intop(self, st, op, la, lb, rng, tid):
        ca = self.konst(st, la)
        cb = self.konst(st, lb)
        if ca is not None and la[1]:
            la = lc(ca)
        if cb is not None and lb[1]:
            lb = lc(cb)
        tm = self.TM
        bits = (rng[1] - rng[0] + 1).bit_length() - 1
        if ca is not None and cb is not None:
            m = (1 << bits) - 1
            x, y = ca & m, cb & m
            r = None
            if op == "BitAnd":
                r = x & y
            elif op == "BitOr":
                r = x | y
            elif op == "BitXor":
                r = x ^ y
            elif op in ("Shl", "ShlUnchecked"):
                r = (x << (cb % bits)) & m
            elif op in ("Shr", "ShrUnchecked"):
                r = (ca >> (cb % bits)) & m
            elif op == "Div" and cb:
                r = int(abs(ca) // abs(cb)) * (1 if (ca >= 0) == (cb >= 0) else -1)
            elif op == "Rem" and cb:
                r = abs(ca) % abs(cb) * (1 if ca >= 0 else -1)
            if r is not None:
                if rng[0] < 0 and op not in ("Div", "Rem") and r >> (bits - 1):
                    r -= 1 << bits
                return lc(r)
        if op == "BitAnd":
            if la > lb:
                la, lb, ca, cb = lb, la, cb, ca
            if ca is None and cb is None:
                pass
            elif ca is not None:
                la, lb, ca, cb = lb, la, cb, ca
            # now constant (if any) is in lb
            if cb is not None:
                if cb == 0:
                    return lc(0)
                if cb > 0 and self.D.le(st, lscale(la, -1)) and self.D.le(st, laddc(la, 1 - (cb & -cb))):
                    return lc(0)
                # x & mask where x already fits the low mask
                if cb >= 0 and (cb & (cb + 1)) == 0 and self.D.le(st, laddc(la, -cb)) and self.D.le(st, lscale(la, -1)):
                    return la
            t = tm.mk(("and", lkey(la), lkey(lb)), rng)
            if rng[0] == 0 or (cb is not None and cb >= 0):
                tm.mk(tm.ops[t], (0, rng[1]))
                if cb is not None:
                    tm.mk(tm.ops[t], (0, cb))
                else:
                    tm.axiom(t, lsub(lt(t), lb))
                if rng[0] == 0:
                    tm.axiom(t, lsub(lt(t), la))
            # x & y = x + y - (x | y) >= x + y - MAX
            if cb is None and rng[0] == 0:
                tm.axiom(t, laddc(lsub(ladd(la, lb), lt(t)), -rng[1]))
            # x & !(2^k - 1) >= x - (2^k - 1)
            if cb is not None and rng[0] == 0:
                low = rng[1] ^ cb
                if (low & (low + 1)) == 0:
                    tm.axiom(t, laddc(lsub(la, lt(t)), -low))
            return lt(t)
        if op in ("BitOr", "BitXor"):
            if la > lb:
                la, lb = lb, la
            if not la[1] and la[0] == 0:
                return lb
            if not lb[1] and lb[0] == 0:
                return la
            t = tm.mk(("or" if op == "BitOr" else "xor", lkey(la), lkey(lb)), rng)
            if rng[0] == 0:
                h = max(self.D.ub0(st, la), self.D.ub0(st, lb))
                # only global (type-independent) bounds may be axioms; use the operands' type ranges
                ga, gb = self.gub(la), self.gub(lb)
                if ga is not None and gb is not None:
                    m = (1 << max(ga, gb, 1).bit_length()) - 1
                    tm.mk(tm.ops[t], (0, min(m, rng[1])))
                if op == "BitOr":
                    tm.axiom(t, lsub(la, lt(t)))
                    tm.axiom(t, lsub(lb, lt(t)))
                tm.axiom(t, lsub(lsub(lt(t), la), lb))
                # state-local bound
                if h < INF:
                    m = (1 << max(h, 1).bit_length()) - 1
                    if m < rng[1]:
                        old = st.facts.get(((t, 1),), INF)
                        if m < old:
                            st.facts[((t, 1),)] = m
            return lt(t)
        if op in ("Shl", "ShlUnchecked"):
            if cb is not None:
                k = cb % bits
                lin = lscale(la, 1 << k)
                if self.fits(st, lin, rng):
                    return lin
            t = tm.mk(("shl", self.T.T[tid]["s"], lkey(la), lkey(lb)), rng)
            ha, hb = self.D.ub(st, la), self.D.ub(st, lb)
            na, nb = self.D.ub(st, lscale(la, -1)), self.D.ub(st, lscale(lb, -1))
            if None not in (ha, hb, na, nb) and na <= 0 and nb <= 0 and hb < bits and (ha << hb) <= rng[1]:
                self.D.assume_le(st, laddc(lt(t), -(ha << hb)))
                self.D.assume_le(st, laddc(lscale(lt(t), -1), (-na) << (-nb)))
            return lt(t)
        if op in ("Shr", "ShrUnchecked"):
            if cb is not None:
                k = cb % bits
                if k == 0:
                    return la
                t = tm.mk(("shr", lkey(la), k), rng)
                p = 1 << k
                tm.axiom(t, lsub(lscale(lt(t), p), la))                 # t*2^k <= x
                tm.axiom(t, laddc(lsub(la, lscale(lt(t), p)), -(p - 1)))
                if rng[0] == 0:
                    g = self.gub(la)
                    tm.mk(tm.ops[t], (0, min(rng[1], g if g is not None else rng[1]) >> k))
                else:
                    tm.mk(tm.ops[t], (rng[0] >> k, rng[1] >> k))
                return lt(t)
            t = tm.mk(("shrv", lkey(la), lkey(lb)), rng)
            if rng[0] == 0:
                tm.axiom(t, lsub(lt(t), la))
            return lt(t)
        if op == "Div":
            t = tm.mk(("div", lkey(la), lkey(lb)), rng)
            if cb is not None and cb > 0 and rng[0] == 0:
                tm.axiom(t, lsub(lscale(lt(t), cb), la))
                tm.axiom(t, laddc(lsub(la, lscale(lt(t), cb)), -(cb - 1)))
                tm.mk(tm.ops[t], (0, rng[1] // cb))
            elif rng[0] == 0:
                tm.axiom(t, lsub(lt(t), la))
            return lt(t)
        if op == "Rem":
            t = tm.mk(("rem", lkey(la), lkey(lb)), rng)
            if rng[0] == 0:
                tm.axiom(t, lsub(lt(t), la))
                if cb is not None and cb > 0:
                    tm.mk(tm.ops[t], (0, cb - 1))
                else:
                    tm.axiom(t, laddc(lsub(lt(t), lb), 1))
            return lt(t)
        t = tm.mk(("bin", op, lkey(la), lkey(lb)), rng)
        return lt(t)

    def gub(self, lin):
        """state-independent upper bound"""
        s = lin[0]
        for t, k in lin[1]:
            r = self.TM.rng[t]
            if r is None:
                return None
            s += k * (r[1] if k > 0 else r[0])
        return s if s >= 0 else None

    def unop(self, st, fr, op, oa, dst):
        a = self.norm(st, self.operand(st, fr, oa))
        tid = self.optype(fr, oa)
        dt = self.pltype(fr, dst)
        if op == "PtrMetadata":
            if a[0] == "L":
                return ("I", a[3])
            if a[0] == "R":
                n = self.arrlen(self.get(st, a[1], a[2]))
                if n is not None:
                    return ("I", lc(n))
            return self.U(self.mk("meta", TRef(self.key(st, a))), dt)
        if op == "Not":
            if a[0] == "B":
                return ("B", self.D.neg(a[1]))
            la = self.asint(st, a)
            rng = self.T.int_range(tid)
            if la is not None and rng:
                if rng[0] == 0:
                    return ("I", laddc(lscale(la, -1), rng[1]))
                return ("I", laddc(lscale(la, -1), -1))
        if op == "Neg":
            la = self.asint(st, a)
            if la is not None:
                return self.wrapped(st, "neg", lscale(la, -1), tid, a)
        return self.U(self.mk("un", op, TRef(self.key(st, a))), dt)

    def intcast(self, st, lin, to):
        rng = self.T.int_range(to)
        if rng is None:
            return None
        if self.fits(st, lin, rng):
            return ("I", lin)
        if not lin[1]:
            bits = (rng[1] - rng[0] + 1).bit_length() - 1
            v = lin[0] & ((1 << bits) - 1)
            if rng[0] < 0 and v >> (bits - 1):
                v -= 1 << bits
            return ("I", lc(v))
        t = self.TM.mk(("cast", self.T.T[to]["s"], lkey(lin)), rng)
        if rng[0] == 0 and self.D.le(st, lscale(lin, -1)):
            # truncation of a non-negative value never increases it
            f, b = norm(lsub(lt(t), lin))
            if f is not None and len(f) <= 3:
                st.facts[f] = min(b, st.facts.get(f, INF))
                st._idx = None
        return ("I", lt(t))

    def cast(self, st, fr, kind, o, to):
        v = self.norm(st, self.operand(st, fr, o))
        if kind.startswith("IntToInt"):
            la = self.asint(st, v)
            if la is not None:
                r = self.intcast(st, la, to)
                if r is not None:
                    return r
            return self.U(self.mk("icast", TRef(self.key(st, v)), self.T.T[to]["s"]), to)
        if kind.startswith("PointerCoercion(Unsize"):
            tt = self.T.T[to]
            if tt["k"] == "ref" and self.T.T[tt["to"]]["k"] == "slice":
                if v[0] == "R":
                    x = self.get(st, v[1], v[2])
                    n = self.arrlen(x)
                    if n is None:
                        ot = self.optype(fr, o)
                        at = self.T.T[self.T.T[ot]["to"]] if ot is not None and "to" in self.T.T[ot] else None
                        if at and at["k"] == "array" and "v" in at["n"]:
                            n = at["n"]["v"]
                    e = self.T.T[tt["to"]]["of"]
                    if x is not None and x[0] == "A" and not tt["mut"]:
                        base = self.TM.mk(("aref", tuple(TRef(self.key(st, y)) for y in x[2])))
                        for y in x[2]:
                            root = ("M", self.key(st, y), e)
                            if y[0] not in ("U", "I", "B") and root not in st.mem:
                                st.mem[root] = y
                        return ("L", base, lc(0), lc(n), e)
                    base = self.mk("aslice", TRef(self.key(st, v)) if not tt["mut"] else str(v[1]) + str(v[2]))
                    if n is None:
                        return self.mkslice(base, e)
                    return ("L", base, lc(0), lc(n), e)
                if v[0] == "L":
                    return v
            if v[0] == "R":
                return v
            return ("U", self.mk("unsize", TRef(self.key(st, v))), to)
        if kind.startswith("PtrToPtr") or kind.startswith("Transmute") or kind.startswith("Subtype"):
            tt = self.T.T[to]
            if v[0] == "L" and tt["k"] in ("ref", "ptr") and self.T.T[tt["to"]]["k"] in ("slice", "str"):
                return v
            if v[0] == "I" and tt["k"] in ("uint", "int"):
                r = self.intcast(st, v[1], to)
                if r:
                    return r
            if v[0] == "S" and len(v[2]) == 1 and v[2][0][0] == "I" and tt["k"] in ("uint", "int"):
                return v[2][0]
            ot = self.optype(fr, o)
            if kind.startswith("PtrToPtr") and v[0] == "R":
                return v if ot == to else ("U", self.mk("pcast", TRef(self.key(st, v)), tt["s"]), to)
            return self.U(self.mk("pcast", TRef(self.key(st, v)), tt["s"]), to)
        if kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFnPointer"):
            return v
        return self.U(self.mk("pcast", kind.split("(")[0], TRef(self.key(st, v)), self.T.T[to]["s"]), to)

    # ---------------------------------------------------------------- joins
    def sig(self, st, fr, b):
        out = []
        info = fr.info
        for n in fr.info.live[b]:
            v = st.mem.get(("L", fr.fid, n))
            if v is None:
                continue
            s = self._sig(v, 0)
            if s:
                out.append((n, s))
        return tuple(sorted(out))

    def _sig(self, v, d):
        if v[0] == "E":
            if len(v[2]) == 1:
                a = v[2][0]
                if d < 2:
                    sub = tuple(self._sig(x, d + 1) for x in a[1])
                    if any(sub):
                        return (a[0],) + sub
                return (a[0],)
            return None
        if v[0] == "B" and (v[1] is True or v[1] is False):
            return ("b", v[1])
        if v[0] == "S" and d < 2:
            sub = tuple(self._sig(x, d + 1) for x in v[2])
            return sub if any(sub) else None
        return None

    def merge(self, fr, b, states, jid):
        if len(states) <= self.TRACES:
            return states
        g = {}
        for s in states:
            g.setdefault(self.sig(s, fr, b), []).append(s)
        out = []
        for i, (k, l) in enumerate(g.items()):
            s = l[0]
            for o in l[1:]:
                s = self.join(s, o, jid)
            out.append(s)
        if len(out) > self.CAP:
            s = out[0]
            for o in out[1:]:
                s = self.join(s, o, jid)
            out = [s]
        return out

    def common_cut(self, x, y):
        up = []
        while x is not None:
            up.append(x)
            x = self.cutparent[x]
        while y is not None and y not in up:
            y = self.cutparent[y]
        return y

    def join(self, a, b, jid, loop=None, keep=None):
        """join of two states; jid names the phis; keep: previous loop state facts (widening)"""
        st = State()
        st.cut = a.cut if a.cut == b.cut else self.common_cut(a.cut, b.cut)
        phis = []      # (term, lin_a, lin_b)
        self._jphis = phis
        self._jid = jid
        self._jseen = {}
        self._jbf = []
        roots = list(a.mem)
        for r in b.mem:
            if r not in a.mem:
                roots.append(r)
        for r in roots:
            va, vb = a.mem.get(r), b.mem.get(r)
            if va is vb:
                st.mem[r] = va
                continue
            if r[0] == "W":
                if va == vb:
                    st.mem[r] = va
                else:
                    st.mem[r] = self.mk("phiw", jid, TRef(r[1]))
                continue
            if va is None or vb is None:
                if r[0] == "L":
                    continue       # not live in one of them
                d = self.root_default(r)
                va = d if va is None else va
                vb = d if vb is None else vb
                if va is None or vb is None:
                    continue
            if va == vb:
                st.mem[r] = va
                continue
            tid = self.local_type(r) if r[0] == "L" else r[2]
            st.mem[r] = self.jv(a, b, va, vb, (r,), tid)
        # boolean and variant knowledge common to both
        for t, v in a.bf.items():
            if b.bf.get(t) == v:
                st.bf[t] = v
        for t, v in a.vk.items():
            if b.vk.get(t) == v:
                st.vk[t] = v
        for t, x, y in self._jbf:
            if x is not None and x == y:
                st.bf[t] = x
        st.ne = a.ne & b.ne
        st.log = self.join_log(a.log, b.log)
        self.join_facts(a, b, st, phis)
        return st

    def join_log(self, x, y):
        if x == y:
            return x
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]:
            n += 1
        return x[:n] + (("?", x[n:], y[n:]),)

    def phi(self, path, tid):
        t = self.TM.mk(("phi", self._jid, path))
        return t

    def jv(self, a, b, x, y, path, tid, d=0):
        if x == y:
            return x
        kx, ky = x[0], y[0]
        if kx == "D" or ky == "D":
            return ("U", self.phi(path, tid), tid)
        if kx == "U":
            x = self.norm(a, x); kx = x[0]
        if ky == "U":
            y = self.norm(b, y); ky = y[0]
        if x == y:
            return x
        if kx == "I" and ky == "I":
            ck = ("I", x[1], y[1])
            p = self._jseen.get(ck)
            if p is None:
                rng = self.T.int_range(tid) if tid is not None else None
                p = self.TM.mk(("phi", self._jid, path), rng)
                self._jphis.append((p, x[1], y[1]))
                if self.lenjoin is not None:
                    # a choice between two lengths of data is a length of data
                    if self.lenjoin(x[1]) and self.lenjoin(y[1]):
                        self.lenterms.add(p)
                    else:
                        self.lenterms.discard(p)
                self._jseen[ck] = p
            return ("I", lt(p))
        if kx == "B" and ky == "B":
            p = self.phi(path, tid)
            self._jbf.append((p, self.D.decide(a, x[1]), self.D.decide(b, y[1])))
            return ("B", ("t", p))
        if kx == "IT" and ky == "U" and y[2] is not None:
            y = self.asiter(b, y); ky = y[0]
        elif ky == "IT" and kx == "U" and x[2] is not None:
            x = self.asiter(a, x); kx = x[0]
        elif kx == "E" and ky == "U" and y[2] == x[1]:
            y = self.as_enum(b, y); ky = y[0]
        elif ky == "E" and kx == "U" and x[2] == y[1]:
            x = self.as_enum(a, x); kx = x[0]
        if kx == "S" and ky == "U" and y[2] == x[1]:
            y = self.expand(b, y); ky = y[0]
        elif ky == "S" and kx == "U" and x[2] == y[1]:
            x = self.expand(a, x); kx = x[0]
        if kx == "S" and ky == "S" and len(x[2]) == len(y[2]):
            fs = self.T.fields(x[1]) if x[1] is not None else [None] * len(x[2])
            if len(fs) != len(x[2]):
                fs = [None] * len(x[2])
            return ("S", x[1], tuple(self.jv(a, b, p, q, path + (i,), f, d + 1) for i, (p, q, f) in enumerate(zip(x[2], y[2], fs))))
        if kx == "A" and ky == "A" and len(x[2]) == len(y[2]):
            e = self.T.T[x[1]]["of"]
            return ("A", x[1], tuple(self.jv(a, b, p, q, path + (i,), e, d + 1) for i, (p, q) in enumerate(zip(x[2], y[2]))))
        if kx == "E" and ky == "E":
            da = {v[0]: v for v in x[2]}
            db = {v[0]: v for v in y[2]}
            alts = []
            for v in sorted(set(da) | set(db)):
                if v in da and v in db:
                    fs = self.T.fields(x[1], v)
                    f2 = tuple(self.jv(a, b, p, q, path + (("d", v), i), f, d + 1)
                               for i, (p, q, f) in enumerate(zip(da[v][1], db[v][1], fs)))
                    cf = tuple(c for c in da[v][2] if c in db[v][2])
                    alts.append((v, f2, cf))
                else:
                    s, o = (a, da[v]) if v in da else (b, db[v])
                    alts.append((v, o[1], o[2] or self.condfacts(s, o[1])))
            return ("E", x[1], tuple(alts))
        if kx == "L" and ky == "L" and x[4] == y[4]:
            if x[1] == y[1]:
                base = x[1]
                off = self.jv(a, b, ("I", x[2]), ("I", y[2]), path + ("off",), None)[1]
            else:
                base = self.phi(path + ("base",), None)
                off = lc(0)
            ln = self.jv(a, b, ("I", x[3]), ("I", y[3]), path + ("len",), None)[1]
            if len(ln[1]) == 1 and self.TM.ops[ln[1][0][0]][0] == "phi":
                self.TM.mk(self.TM.ops[ln[1][0][0]], (0, self.maxlen(x[4])))
            return ("L", base, off, ln, x[4])
        if kx == "V" and ky == "V":
            base = x[1] if x[1] == y[1] else self.phi(path + ("base",), None)
            ln = self.jv(a, b, ("I", x[2]), ("I", y[2]), path + ("len",), None)[1]
            if len(ln[1]) == 1 and self.TM.ops[ln[1][0][0]][0] == "phi":
                self.TM.mk(self.TM.ops[ln[1][0][0]], (0, IMAX))
            return ("V", base, ln, x[3])
        if kx == "IT" and ky == "IT" and x[1] == y[1] and len(x[2]) == len(y[2]):
            out = []
            for i, (p, q) in enumerate(zip(x[2], y[2])):
                if p == q:
                    out.append(p)
                elif isinstance(p, tuple) and p and p[0] in VAL:
                    out.append(self.jv(a, b, p, q, path + (i,), None, d + 1))
                else:
                    return ("U", self.phi(path, tid), tid)
            return ("IT", x[1], tuple(out))
        t = tid
        if t is None:
            for v in (x, y):
                if v[0] == "U" and v[2] is not None:
                    t = v[2]
                elif v[0] in ("S", "E"):
                    t = v[1]
        if kx == "R" and ky == "R":
            # writes through the joined reference are not tracked: forget both targets if mutable
            if t is not None and self.T.T[t].get("mut"):
                self._jlost = True
        return self.U(self.phi(path, t), t) if t is not None else ("U", self.phi(path, t), None)

    def asiter(self, st, v):
        import models
        return models.asiter(_C1(self), st, v)

    def as_enum(self, st, v):
        """an unknown enum value as the list of its possible variants"""
        ad = self.T.adt(v[2])
        if not ad or ad["kind"] != "enum" or not 1 <= len(ad["variants"]) <= 6:
            return v
        ex = self.TM.known(st, v[1])
        if not isinstance(ex, int):
            return v
        fs = self.vfields(v[1], v[2], ex)
        if fs is None:
            return v
        return ("E", v[2], ((ex, tuple(fs), ()),))

    def vterms(self, v, acc):
        k = v[0]
        if k == "I":
            acc.update(t for t, _ in v[1][1])
        elif k == "S" or k == "A":
            for x in v[2]:
                self.vterms(x, acc)
        elif k == "E":
            for a in v[2]:
                for x in a[1]:
                    self.vterms(x, acc)
        elif k == "L":
            acc.update(t for t, _ in v[2][1]); acc.update(t for t, _ in v[3][1])
        elif k == "V":
            acc.update(t for t, _ in v[2][1])
        elif k == "IT":
            for x in v[2]:
                if isinstance(x, tuple) and x and x[0] in VAL:
                    self.vterms(x, acc)

    def condfacts(self, st, vals):
        ts = set()
        for v in vals:
            self.vterms(v, ts)
        if not ts:
            return ()
        return tuple((p, b) for p, b in st.facts.items() if len(p) <= 3 and any(t in ts for t, _ in p))[:24]

    def subst_lin(self, lin, m):
        r = lc(lin[0])
        for t, k in lin[1]:
            r = ladd(r, lscale(m[t], k) if t in m else (0, ((t, k),)))
        return r

    def join_facts(self, a, b, st, phis):
        D = self.D
        fa, fb = a.facts, b.facts
        out = st.facts
        if not phis:
            if fa is fb:
                st.facts = dict(fa)
                return
        ma = {p: la for p, la, _ in phis}
        mb = {p: lb for p, _, lb in phis}
        cand = {}
        # facts over unchanged terms
        for p, bd in fa.items():
            o = fb.get(p)
            if o is not None:
                out[p] = max(bd, o)
            else:
                cand[p] = bd
        for p, bd in fb.items():
            if p not in fa:
                cand[p] = bd
        for p, bd in cand.items():
            if len(p) > 3:
                continue
            lin = (-bd, p)
            s, other = (a, b) if p in fa else (b, a)
            u = D.ub(other, (0, p), None, 2)
            if u < INF:
                out[p] = max(bd, u)
        # facts about phis
        cands = set()
        for which, s, m in ((0, a, ma), (1, b, mb)):
            inv = {}
            for p, la, lb in phis:
                l = la if which == 0 else lb
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    t, k = l[1][0]
                    # phi = k*t + c  ->  t = k*(phi - c)
                    inv.setdefault(t, []).append((0, ()) if False else (-l[0] * k, ((p, k),)))
            for t, subs in inv.items():
                for p, bd, k in s.index().get(t, ()):
                    if len(p) > 3:
                        continue
                    for sb in subs:
                        l = (-bd, p)
                        l2 = self.subst_lin(l, {t: sb})
                        cands.add(l2)
                        for t2, _ in p:
                            if t2 != t and t2 in inv:
                                for sb2 in inv[t2]:
                                    cands.add(self.subst_lin(l2, {t2: sb2}))
                for p, bd in self.TM.ax.get(t, ()):
                    if len(p) <= 3:
                        for sb in subs:
                            cands.add(self.subst_lin((-bd, p), {t: sb}))
            # relation of the phi to the terms of its value
            for p, la, lb in phis:
                l = la if which == 0 else lb
                if 1 <= len(l[1]) <= 2:
                    d = lsub(lt(p), l)
                    cands.add(d)
                    cands.add(lscale(d, -1))
        # the phi is below a term of one of its values (0 or the rest of a buffer: below the buffer)
        for p, la, lb in phis:
            for l in (la, lb):
                for t, k in l[1]:
                    if k == 1 and 1 <= len(l[1]) <= 4:
                        f = norm(lsub(lt(p), lt(t)))
                        if f[0] is None or f[0] in out:
                            continue
                        u = D.ub(a, lsub(la, lt(t)), None, 3)
                        if u <= 0:
                            u = max(u, D.ub(b, lsub(lb, lt(t)), None, 3))
                            if u <= 0:
                                out[f[0]] = u
                                continue
                        f = norm(lsub(lt(t), lt(p)))
                        u = D.ub(a, lsub(lt(t), la), None, 3)
                        if u <= 0:
                            u = max(u, D.ub(b, lsub(lt(t), lb), None, 3))
                            if u <= 0:
                                out[f[0]] = u
        # pairs of phis at a constant distance
        for i in range(len(phis)):
            p, la, lb = phis[i]
            ha, hb = D.ub(a, la, None, 2), D.ub(b, lb, None, 2)
            if max(ha, hb) < INF:
                out[((p, 1),)] = max(ha, hb)
            ha, hb = D.ub(a, lscale(la, -1), None, 2), D.ub(b, lscale(lb, -1), None, 2)
            if max(ha, hb) < INF:
                out[((p, -1),)] = max(ha, hb)
            for j in range(i + 1, min(len(phis), i + 12)):
                q, la2, lb2 = phis[j]
                da, db = lsub(la, la2), lsub(lb, lb2)
                if not da[1] and not db[1]:
                    d = lsub(lt(p), lt(q))
                    cands.add(laddc(d, -max(da[0], db[0])))
                    cands.add(laddc(lscale(d, -1), min(da[0], db[0])))
                elif da == db and len(da[1]) <= 1:
                    d = lsub(lsub(lt(p), lt(q)), da)
                    cands.add(d)
                    cands.add(lscale(d, -1))
        for l in cands:
            parts, bd = norm(l)
            if parts is None or len(parts) > 4:
                continue
            if out.get(parts, INF) <= bd:
                continue
            la = self.subst_lin(l, ma)
            lb = self.subst_lin(l, mb)
            if D.ub(a, la, 0, 3) <= 0 and D.ub(b, lb, 0, 3) <= 0:
                out[parts] = bd
        st._idx = None

    # ---------------------------------------------------------------- execution
    def check_budget(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Budget("step limit")
        if self.t_end and self.steps % 64 == 0 and time.time() > self.t_end:
            raise Budget("time limit")

    def run_body(self, st, f, env, args, fidkey, depth, stack, collect=True):
        fr = Frame()
        fr.f = f
        fr.info = self.info(f)
        fr.env = env
        fr.fid = self.fid(*fidkey)
        fr.depth = depth
        fr.stack = stack + (f["def"],)
        fr.collect = collect
        for n, t in enumerate(f["locals"]):
            self._ltypes[(fr.fid, n)] = self.ty(fr, t)
        for i, v in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = v
        pend = {0: [st]}
        rets = []
        self.exec_wto(fr, fr.info.wto, pend, rets)
        out = []
        if len(rets) > 1 and not (depth <= 1 and self.TRACES > 8 and len(rets) <= 160):
            # group return states by shape of the return value
            g = {}
            for s in rets:
                v = s.mem.get(("L", fr.fid, 0))
                g.setdefault(self._sig(v, 0) if v is not None else None, []).append(s)
            rets = []
            for k, l in g.items():
                s = l[0]
                for o in l[1:]:
                    s = self.join(s, o, ("ret", fr.fid))
                rets.append(s)
        for s in rets:
            v = s.mem.get(("L", fr.fid, 0))
            if v is None:
                v = self.U(self.mk("undefret", f["def"]), self.ty(fr, f["locals"][0]))
            # drop the frame
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.fid]:
                if not self.refers(s, r, v):
                    del s.mem[r]
            out.append((s, v))
        return out

    def refers(self, st, root, v):
        # references to a dead frame cannot escape in safe code (promoteds excepted)
        return "promoted" in str(self._fidname(root[1]))

    def _fidname(self, fid):
        if not hasattr(self, "_fn_inv") or len(self._fn_inv) != len(self.fids):
            self._fn_inv = {v: k for k, v in self.fids.items()}
        k = self._fn_inv.get(fid)
        return k[0] == "prom" and "promoted" or ""

    def exec_wto(self, fr, elems, pend, rets):
        for el in elems:
            if isinstance(el, int):
                ss = pend.pop(el, None)
                if not ss:
                    continue
                ss = self.merge(fr, el, ss, ("j", fr.fid, el))
                for s in ss:
                    self.exec_block(fr, el, s, pend, rets)
            else:
                self.exec_loop(fr, el, pend, rets)

    def exec_loop(self, fr, el, pend, rets):
        head, body, comp = el
        ss = pend.pop(head, None)
        if not ss:
            return
        jid = ("loop", fr.fid, head)
        entry = ss[0]
        for o in ss[1:]:
            entry = self.join(entry, o, ("jl", fr.fid, head))
        cut = len(self.cutparent) + 1
        self.cutparent[cut] = entry.cut

        def once(h):
            p = {}
            r = []
            ev = len(self.events)
            h = h.copy()
            h.cut = cut
            self.exec_block(fr, head, h, p, r)
            self.exec_wto(fr, body, p, r)
            back = p.pop(head, [])
            return p, r, back, ev

        def joinall(l):
            s = l[0]
            for o in l[1:]:
                s = self.join(s, o, ("jb", fr.fid, head))
            return s
        self.prune(entry, fr, head)
        H = entry
        p, r, back, ev = once(H)
        if back:
            B = joinall(back)
            self.prune(B, fr, head)
            # pass 1: changed paths become phis, with the entry equalities as facts
            del self.events[ev:]
            J = self.join(entry, B, jid)
            ph = self._jphis
            H = J.copy()
            H.facts = dict(entry.facts)
            H.bf = {t: v for t, v in J.bf.items()}
            for t, la, lb in ph:
                d = lsub(lt(t), la)
                if len(d[1]) <= 4:
                    self.D.assume_eq(H, d)
            H._idx = None
            n = 0
            first = True
            while True:
                n += 1
                p, r, back, ev = once(H)
                if not back:
                    # no way back: H was entry-like; results are final if H covers entry
                    if not first:
                        break
                    B = None
                else:
                    B = joinall(back)
                    self.prune(B, fr, head)
                if first:
                    del self.events[ev:]
                    if B is None:
                        # loop never repeats from the generalised entry
                        H2 = H
                        p, r, back, ev = once(H)
                        break
                    H = self.join(entry, B, jid)
                    for t, la, lb in self._jphis:
                        d = lsub(lb, lt(t))
                        if not la[1] and not d[1] and abs(d[0]) > 1:
                            self.TM.cong[t] = (abs(d[0]), la[0] % abs(d[0]))
                    first = False
                    continue
                N, changed = self.widen(H, B, jid, n, entry)
                if not changed:
                    self.final_loop(fr, el, H, back, cut, ss)
                    break
                del self.events[ev:]
                H = N
                if n > 30:
                    raise Budget("loop in %s does not stabilise" % fr.f["def"])
        else:
            self.final_loop(fr, el, H, [], cut, ss)
        if cut not in self.cuts:
            self.cuts[cut] = (H, ss, back)
        for b, l in p.items():
            pend.setdefault(b, []).extend(l)
        rets.extend(r)

    def final_loop(self, fr, el, H, back, cut, ss):
        self.cuts[cut] = (H, ss, back)
        if self.loop_hook:
            self.loop_hook(self, fr, el, H, back)

    def widen(self, H, B, jid, n, entry):
        """next loop state: facts of H that also hold at the back edge"""
        J = self.join(H, B, jid)
        phis = self._jphis
        new = [x for x in phis if not (len(x[1][1]) == 1 and x[1] == lt(x[0]))]
        mb = {p: lb for p, _, lb in phis}
        changed = False
        facts = {}
        for t, lb in mb.items():
            cg = self.TM.cong.get(t)
            if cg:
                d = lsub(lb, lt(t))
                if d[1] or d[0] % cg[0]:
                    if not (not lb[1] and lb[0] % cg[0] == cg[1]):
                        del self.TM.cong[t]
                        changed = True
        for parts, bd in H.facts.items():
            lin = self.subst_lin((-bd, parts), mb)
            u = self.D.ub(B, lin, 0, 4)
            if u <= 0:
                facts[parts] = bd
            else:
                changed = True
                if n <= 5 and u < INF and len(parts) == 1:
                    nb = bd + u
                    nb = next((t for t in THRESH if t >= nb), None)
                    if nb is not None:
                        facts[parts] = nb
        if J.mem != H.mem:
            changed = True
            # facts on new phis come from the join
            newset = {x[0] for x in new}
            for parts, bd in J.facts.items():
                if any(t in newset for t, _ in parts):
                    facts.setdefault(parts, bd)
        bf = {t: v for t, v in H.bf.items() if J.bf.get(t) == v}
        vk = {t: v for t, v in H.vk.items() if J.vk.get(t) == v}
        if bf != H.bf or vk != H.vk:
            changed = True
        ne = H.ne & J.ne
        if ne != H.ne:
            changed = True
        N = J
        N.facts = facts
        N.bf = bf
        N.vk = vk
        N.ne = ne
        N._idx = None
        return N, changed

    def prune(self, st, fr, b):
        """drop locals that are dead at block b"""
        live = fr.info.live[b]
        taken = fr.info.taken
        fid = fr.fid
        for r in [r for r in st.mem if r[0] == "L" and r[1] == fid and r[2] not in live and r[2] not in taken]:
            del st.mem[r]

    def exec_block(self, fr, b, st, pend, rets):
        self.check_budget()
        self.prune(st, fr, b)
        if len(st.facts) > 160:
            self.gc(st)
        blk = fr.f["blocks"][b]
        self.cur = (fr, b)
        for si, s in enumerate(blk["s"]):
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[1])
                if v[0] == "D" and len(s[1]) > 1:
                    v = ("I", self.discr_lin(st, v))
                if self.inv_hook:
                    o = self.inv_owner.get((fr.f["def"], b, si))
                    if o is not None:
                        self.inv_hook(fr, st, o, v)
                if self.store_hook and len(s[1]) > 1:
                    self.store_hook(self, fr, st, s[1], v)
                self.write(st, self.place(st, fr, s[1]), v)
            elif k == "dead":
                st.mem.pop(("L", fr.fid, s[1]), None)
            elif k == "assume":
                c = self.operand(st, fr, s[1])
                if c[0] == "B" and not self.D.assume(st, c[1]):
                    return
            elif k == "sd":
                pl = self.place(st, fr, s[1])
                tid = self.pltype(fr, s[1])
                fs = self.vfields(self.mk("sd", fr.fid, b), tid, s[2])
                self.write(st, pl, self.mkE(tid, s[2], fs))
        self.terminator(fr, b, blk["t"], st, pend, rets)

    def gc(self, st):
        acc = set()
        for r, v in st.mem.items():
            if isinstance(v, tuple):
                self.vterms(v, acc)
            if r[0] == "M":
                acc.add(r[1])
        # transitive through term structure and through small facts
        seen = set()
        work = list(acc)
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            work.extend(walk(self.TM.ops[t]))
        st.facts = {p: b for p, b in st.facts.items() if all(t in seen for t, _ in p) or (len(p) == 2 and any(t in seen for t, _ in p))}
        st._idx = None

    def goto(self, pend, b, st):
        pend.setdefault(b, []).append(st)

    def event(self, fr, b, kind, ok, detail=""):
        self.events.append((fr.f["def"], b, kind, ok, detail, fr.collect, fr.stack))

    def terminator(self, fr, b, t, st, pend, rets):
        k = t["k"]
        if k == "goto":
            self.goto(pend, t["to"], st)
        elif k == "return":
            rets.append(st)
        elif k == "drop":
            self.goto(pend, t["to"], st)
        elif k == "switch":
            self.switch(fr, b, t, st, pend)
        elif k == "assert":
            v = self.operand(st, fr, t["c"])
            c = v[1] if v[0] == "B" else ("t", self.key(st, v))
            if not t["exp"]:
                c = self.D.neg(c)
            ok = self.D.decide(st, c)
            self.event(fr, b, self.akind(t["msg"]), ok is True, self.explain(st, c) if ok is not True else "")
            if ok is False:
                return
            if ok is None and not self.D.assume(st, c):
                return
            self.goto(pend, t["to"], st)
        elif k == "call":
            self.call_term(fr, b, t, st, pend)
        elif k == "unreachable":
            pass
        # other terminators end the path

    def akind(self, m):
        return m[0] + (":" + m[1] if m[0] == "overflow" else "")

    def explain(self, st, c):
        return str(c)[:200] if False else self.show_cond(c)

    def show_cond(self, c):
        if c is True or c is False:
            return str(c)
        if c[0] in ("le", "eq", "ne"):
            return "%s %s 0" % (self.show_lin(c[1]), {"le": "<=", "eq": "==", "ne": "!="}[c[0]])
        if c[0] in ("and", "or"):
            return "(%s %s %s)" % (self.show_cond(c[1]), c[0], self.show_cond(c[2]))
        return c[0] + ":" + self.show(c[1])

    def show_lin(self, l):
        s = " + ".join(("%d*" % k if k != 1 else "") + self.show(t) for t, k in l[1])
        return (s + (" + %d" % l[0] if l[0] else "")) or str(l[0])

    def show(self, t, d=0):
        op = self.TM.ops[t]
        if d > 6:
            return "#%d" % t
        def f(x):
            if isinstance(x, TRef):
                return self.show(int(x), d + 1)
            if isinstance(x, tuple):
                if x and x[0] == "lin":
                    return self.show_lin((x[1], tuple((int(a), c) for a, c in x[2])))
                return "(" + ",".join(f(y) for y in x) + ")"
            return str(x)[-40:]
        if op[0] == "phi":
            return "phi%d" % t
        return "%s(%s)" % (op[0], ",".join(f(x) for x in op[1:]))

    def switch(self, fr, b, t, st, pend):
        v = self.operand(st, fr, t["on"])
        v = self.norm(st, v)
        cases = t["cases"]
        if v[0] == "B":
            c = v[1]
            done = set()
            for val, to in cases:
                want = c if val else self.D.neg(c)
                done.add(bool(val))
                d = self.D.decide(st, want)
                if d is False:
                    continue
                s = st.copy()
                if self.D.assume(s, want):
                    self.goto(pend, to, s)
            for val in (True, False):
                if val not in done:
                    want = c if val else self.D.neg(c)
                    s = st.copy()
                    if self.D.decide(s, want) is not False and self.D.assume(s, want):
                        self.goto(pend, t["else"], s)
            return
        if v[0] == "D":
            self.switch_enum(fr, v, cases, t["else"], st, pend)
            return
        lin = self.asint(st, v)
        if lin is None:
            lin = lt(self.key(st, v))
        tk = self.T.T[self.ty(fr, t["ty"])]
        if not lin[1]:
            bits = tk.get("bits", 128)
            x = lin[0] & ((1 << bits) - 1) if tk["k"] == "int" else lin[0]
            for val, to in cases:
                if val == x:
                    self.goto(pend, to, st)
                    return
            self.goto(pend, t["else"], st)
            return
        other = st.copy()
        alive = True
        for val, to in cases:
            x = val
            if tk["k"] == "int" and val >> (tk["bits"] - 1):
                x = val - (1 << tk["bits"])
            d = laddc(lin, -x)
            if d[1] and d[1][0][1] < 0:
                d = lscale(d, -1)
            s = st.copy()
            if self.D.decide(s, ("eq", d)) is not False and self.D.assume_eq(s, d):
                self.goto(pend, to, s)
            if alive and not self.D.assume_ne(other, d):
                alive = False
        if alive:
            self.goto(pend, t["else"], other)

    def split_enum(self, st, root, path):
        """[(state, variant index)] for each feasible variant of the enum stored at a place"""
        x = self.get(st, root, path)
        if x is None:
            return None
        x = self.norm(st, x)
        if x[0] == "E":
            if len(x[2]) == 1:
                return [(st, x[2][0][0])]
            out = []
            for a in x[2]:
                s = st.copy()
                ok = True
                for p, bd in a[2]:
                    if not self.D.assume_le(s, (-bd, p)):
                        ok = False
                        break
                if ok:
                    self.setp(s, root, path, ("E", x[1], ((a[0], a[1], ()),)))
                    out.append((s, a[0]))
            return out
        if x[0] == "U" and x[2] is not None:
            a = self.T.adt(x[2])
            if not a or a["kind"] != "enum":
                return None
            ex = self.TM.known(st, x[1])
            self.TM.etype[x[1]] = x[2]
            out = []
            for i, vv in enumerate(a["variants"]):
                if i in ex if isinstance(ex, frozenset) else ex is not None and i != ex:
                    continue
                s = st.copy()
                s.vk[x[1]] = i
                out.append((s, i))
            return out
        return None

    def switch_enum(self, fr, v, cases, els, st, pend):
        x = self.get(st, v[1], v[2])
        x = self.norm(st, x) if x is not None else None
        tid = None
        if x is not None:
            tid = x[1] if x[0] == "E" else (x[2] if x[0] == "U" else None)
        a = self.T.adt(tid) if tid is not None else None
        if a is None or a["kind"] != "enum":
            for val, to in cases:
                self.goto(pend, to, st.copy())
            self.goto(pend, els, st.copy())
            return
        by = {val: to for val, to in cases}
        m = (1 << 128) - 1
        bits = None
        if x[0] == "U":
            # unknown: explicit cases one by one, the rest together
            ex = self.TM.known(st, x[1])
            self.TM.etype[x[1]] = x[2]
            rest = []
            for i, vv in enumerate(a["variants"]):
                if i in ex if isinstance(ex, frozenset) else ex is not None and i != ex:
                    continue
                to = self.case_of(by, vv["d"])
                if to is None:
                    rest.append(i)
                    continue
                s = st.copy()
                s.vk[x[1]] = i
                self.goto(pend, to, s)
            if rest:
                s = st.copy()
                if len(rest) == 1:
                    s.vk[x[1]] = rest[0]
                else:
                    s.vk[x[1]] = frozenset(i for i in range(len(a["variants"])) if i not in rest)
                self.goto(pend, els, s)
            return
        for s, i in self.split_enum(st, v[1], v[2]):
            to = self.case_of(by, a["variants"][i]["d"])
            self.goto(pend, els if to is None else to, s)

    def case_of(self, by, d):
        if d in by:
            return by[d]
        for bits in (8, 16, 32, 64):
            x = d & ((1 << bits) - 1)
            if d >> 127 and x in by:
                return by[x]
        return None

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, b, t, st, pend):
        args = [self.operand(st, fr, o) for o in t["a"]]
        atys = [self.optype(fr, o) for o in t["a"]]
        dt = self.pltype(fr, t["d"])
        f = t["f"]
        if f[0] == "k" and "fn" in f[1]:
            outs = self.call_fn(st, fr, b, f[1]["fn"], fr.env, args, atys, dt)
        else:
            v = self.operand(st, fr, f)
            outs = self.call_value(st, fr, b, v, args, dt)
        if t["to"] is None:
            return
        if len(outs) > 6:
            outs = self.merge_outs(fr, b, outs)
        for s, v in outs:
            if s.dead:
                continue
            if self.inv_hook:
                o = self.inv_owner.get((fr.f["def"], b, -1))
                if o is not None:
                    self.inv_hook(fr, s, o, v)
            if self.store_hook and len(t["d"]) > 1:
                self.store_hook(self, fr, s, t["d"], v)
            self.write(s, self.place(s, fr, t["d"]), v)
            self.goto(pend, t["to"], s)

    def merge_outs(self, fr, b, outs):
        if fr.depth == 0 and self.TRACES > 8 and len(outs) <= self.MO:
            return outs
        g = {}
        for s, v in outs:
            g.setdefault(self._sig(v, 0), []).append((s, v))
        res = []
        root = ("L", fr.fid, "tmp")
        for k, l in g.items():
            if len(l) == 1:
                res.append(l[0])
                continue
            s0 = None
            for s, v in l:
                s.mem[root] = v
                s0 = s if s0 is None else self.join(s0, s, ("mo", fr.fid, b))
            v = s0.mem.pop(root)
            res.append((s0, v))
        return res

    def resolve(self, fn, env):
        """(def, env) of the function a callee record denotes under env; def may be external"""
        T = self.T
        args = [T.sub_arg(a, env) for a in fn["args"]]
        d = fn["def"]
        if "trait" in fn and args and isinstance(args[0], int):
            hit = T.find_impl(fn["trait"], args)
            if hit:
                im, bnd = hit
                for it in im["items"]:
                    if it["n"] == fn["name"] and it["def"] in self.P.fns:
                        g = self.P.fns[it["def"]]["generics"]
                        e = dict(bnd)
                        # method generics: the trailing arguments
                        own = [x for x in g if x not in bnd]
                        ta = im.get("targs", [])
                        rest = args[len(ta):] if ta else args[1:]
                        for n, a in zip(own, rest):
                            e[n] = a
                        return it["def"], e, args
                if d in self.P.fns:
                    g = self.P.fns[d]["generics"]
                    return d, dict(zip(g, args)), args
        if "res" in fn:
            d = fn["res"]
            ra = [T.sub_arg(a, env) for a in fn["rargs"]]
            if d in self.P.fns:
                return d, dict(zip(self.P.fns[d]["generics"], ra)), ra
            return d, None, args
        if d in self.P.fns:
            if "trait" in fn and "ok" not in fn and fn["trait"] in self.P.traits:
                # unresolved on a generic receiver: a default body (if any) is what runs unless overridden
                return d, dict(zip(self.P.fns[d]["generics"], args)), args
            return d, dict(zip(self.P.fns[d]["generics"], args)), args
        return d, None, args

    def call_fn(self, st, fr, b, fn, env, args, atys, dt):
        d, e, targs = self.resolve(fn, env)
        c = CallCtx(self, fr, b, fn, d, targs, args, atys, dt, env)
        m = self.models.get(d)
        if m is None and d != fn["def"]:
            m = self.models.get(fn["def"]) if d not in self.P.fns else None
        if m is not None:
            r = m(c, st)
            if r is not None:
                return r
        if e is not None and d in self.P.fns:
            f = self.P.fns[d]
            if d not in self.opaque and not (self.opaque_pred and self.opaque_pred(self, f, fr)):
                return self.inline(st, fr, b, f, e, args)
        return self.call_opaque(c, st)

    def inline(self, st, fr, b, f, env, args, tag=""):
        d = f["def"]
        if fr.depth >= self.MAXDEPTH or fr.stack.count(d) >= 2:
            self.event(fr, b, "depth", False, d)
            return self.opaque_result(st, fr, b, f, env, args)
        collect = self.record_collect(f) if self.record_collect else True
        if self.traced is not None:
            self.traced(f, fr, b)
        self.inlined[d] = self.inlined.get(d, 0) + 1
        return self.run_body(st, f, env, args, (fr.fid, b, d, tag), fr.depth + 1, fr.stack, collect)

    def opaque_result(self, st, fr, b, f, env, args):
        tid = self.T.subst(f["locals"][0], env)
        atys = [self.T.subst(f["locals"][i + 1], env) for i in range(len(args))]
        c = CallCtx(self, fr, b, {"def": f["def"], "args": []}, f["def"], [], args, atys, tid, env)
        return self.call_opaque(c, st)

    def call_value(self, st, fr, b, v, args, dt):
        """calls a function value (closure, fn item); args is the list of parameters"""
        v = self.norm(st, v)
        while v[0] == "R":
            x = self.get(st, v[1], v[2])
            if x is None:
                break
            x = self.norm(st, x)
            if x[0] == "S" and self.kind(x[1]) == "closure":
                cd = self.T.T[x[1]]
                f = self.P.fns.get(cd["def"])
                if f:
                    return self.call_closure(st, fr, b, f, cd, x, v, args)
            v = x
        if v[0] == "F":
            fn, env = v[3], v[4]
            return self.call_fn(st, fr, b, fn, env, args, [None] * len(args), dt)
        if v[0] == "S" and v[1] is not None and self.kind(v[1]) == "closure":
            cd = self.T.T[v[1]]
            f = self.P.fns.get(cd["def"])
            if f:
                return self.call_closure(st, fr, b, f, cd, v, None, args)
        t = self.TM.mk(("callv", TRef(self.key(st, v))) + tuple(TRef(self.key(st, a)) for a in args))
        if dt is None:
            return [(st, ("U", t, None))]
        return [(st, self.U(t, dt))]

    def call_closure(self, st, fr, b, f, cd, val, ref, args):
        env = {}
        root = f.get("root")
        rf = self.P.fns.get(root)
        if rf:
            env = dict(zip(rf["generics"], cd["pargs"]))
        selfty = self.T.T[self.T.subst(f["locals"][1], env)] if len(f["locals"]) > 1 else {"k": ""}
        if selfty["k"] == "ref":
            if ref is None:
                r = ("L", fr.fid, "clo%d" % b)
                st.mem[r] = val
                ref = ("R", r, ())
            a0 = ref
        else:
            a0 = val
        return self.inline(st, fr, b, f, env, [a0] + list(args), tag="clo%d" % len(self.inlined))

    def havoc_arg(self, st, v, term, i, tid):
        """effects of an opaque call on one argument"""
        v = self.norm(st, v)
        if v[0] == "R":
            mut = tid is not None and self.T.T[tid]["k"] in ("ref", "ptr") and self.T.T[tid]["mut"]
            if mut:
                old = self.get(st, v[1], v[2])
                ot = None
                if old is not None:
                    ot = self.vtype(old)
                if ot is None:
                    ot = self.T.T[tid]["to"]
                self.setp(st, v[1], v[2], self.U(self.mk("post", TRef(term), i), ot))
        elif v[0] == "L":
            if tid is not None and self.T.T[tid].get("mut"):
                self.bump(st, v[1])
        elif v[0] == "S" and v[1] is not None:
            fs = self.T.fields(v[1])
            for j, x in enumerate(v[2]):
                if j < len(fs):
                    self.havoc_arg(st, x, term, (i, j), fs[j])
        elif v[0] == "IT":
            for j, x in enumerate(v[2]):
                if isinstance(x, tuple) and x and x[0] in ("S", "R", "L"):
                    self.havoc_arg(st, x, term, (i, j), None)

    def vtype(self, v):
        k = v[0]
        if k in ("S", "E", "A"):
            return v[1]
        if k == "U":
            return v[2]
        if k == "V":
            return v[3]
        return None

    def call_opaque(self, c, st):
        keys = tuple(TRef(self.key(st, a)) for a in c.args)
        name = c.d
        ta = ",".join(self.T.T[a]["s"] if isinstance(a, int) else str(a) for a in c.targs)
        t = self.TM.mk(("call", name, ta) + keys)
        self.calltype[t] = c.dt
        if self.call_hook:
            self.call_hook(self, c, st, t)
        # closures handed to unknown code run on unknown arguments
        for i, a in enumerate(c.args):
            self.closure_effects(c, st, a, t, i)
        for i, a in enumerate(c.args):
            self.havoc_arg(st, a, t, i, c.atys[i] if i < len(c.atys) else None)
        if c.dt is None:
            return [(st, ("U", t, None))]
        return [(st, self.U(t, c.dt))]

    def closure_effects(self, c, st, a, t, i):
        v = a
        if v[0] == "R":
            x = self.get(st, v[1], v[2])
            if x is None or x[0] != "S" or x[1] is None or self.kind(x[1]) != "closure":
                return
            v = x
        if v[0] == "IT":
            for x in v[2]:
                if isinstance(x, tuple) and x and x[0] == "S":
                    self.closure_effects(c, st, x, t, i)
            return
        if v[0] != "S" or v[1] is None or self.kind(v[1]) != "closure":
            return
        cd = self.T.T[v[1]]
        f = self.P.fns.get(cd["def"])
        if not f:
            return
        self.havoc_arg(st, v, t, ("pre", i), None)
        s = st.copy()
        rf = self.P.fns.get(f.get("root"))
        env = dict(zip(rf["generics"], cd["pargs"])) if rf else {}
        n = f["argc"]
        args = []
        for j in range(2, n + 1):
            args.append(self.U(self.mk("cloarg", TRef(t), i, j), self.T.subst(f["locals"][j], env)))
        self.call_closure(s, c.fr, c.b, f, cd, v, None, args)

    # ---------------------------------------------------------------- roots
    def lost_iter(self, it):
        self.lost[it[1] if it[0] == "IT" else it[0]] = self.lost.get(it[1] if it[0] == "IT" else it[0], 0) + 1

    def new_run(self):
        self._ltypes = {}
        self.events = []
        self.cutparent = {}
        self.cuts = {}

    def analyse(self, f, env=None, setup=None, args=None):
        """runs f on arbitrary arguments; returns [(state, value)]"""
        self.new_run()
        env = env or {}
        st = State()
        if args is None:
            args = []
            for i in range(f["argc"]):
                tid = self.T.subst(f["locals"][i + 1], env)
                args.append(self.U(self.mk("param", i), tid))
        if setup:
            args = setup(self, st, args) or args
        outs = self.run_body(st, f, env, args, ("root", f["def"]), 0, (), True)
        if self.root_hook:
            self.root_hook(self, f, env, args, outs)
        import models
        for s, v in outs:
            if models.hasclosure(self, v):
                fr = Frame()
                fr.f, fr.info, fr.env, fr.fid = f, self.info(f), env, self.fid("root", f["def"])
                fr.depth, fr.stack, fr.collect = 0, (f["def"],), True
                models.escaping(CallCtx(self, fr, 0, {}, "", [], [], [], None, env), s.copy(), v)
        return outs


class _C1:
    def __init__(self, ip):
        self.ip = ip


class CallCtx:
    __slots__ = ("ip", "fr", "b", "fn", "d", "targs", "args", "atys", "dt", "env")

    def __init__(self, ip, fr, b, fn, d, targs, args, atys, dt, env):
        self.ip, self.fr, self.b, self.fn, self.d, self.targs, self.args, self.atys, self.dt, self.env = ip, fr, b, fn, d, targs, args, atys, dt, env


VAL = {"I", "B", "S", "E", "R", "L", "U", "V", "F", "A", "IT", "D"}
THRESH = [-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 1023, 4095, 4096, 65535, 65536,
          (1 << 31) - 1, (1 << 32) - 1, IMAX, (1 << 64) - 1]
