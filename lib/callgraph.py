"""Whole-crate call graph over resolved callees.

Edges: direct calls (trait-resolved by rustc); trait calls on a generic receiver go to every
local impl of that method (class hierarchy analysis); closures are called by whoever creates
them; calls into external code go to every local impl of an external trait for a local type
named in the call's generic arguments (std adapters calling back)."""
from facts import callee


def type_mentions(P, t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    ty = P.types[t]
    k = ty["k"]
    if k == "adt":
        acc.add(("adt", ty["def"]))
        for a in ty["args"]:
            if isinstance(a, dict) and "t" in a:
                type_mentions(P, a["t"], acc, seen)
            elif isinstance(a, int):
                type_mentions(P, a, acc, seen)
    elif k == "closure":
        acc.add(("fn", ty["def"]))
    elif k == "fndef":
        acc.add(("fn", ty["def"]))
        for a in ty["args"]:
            if isinstance(a, dict) and "t" in a:
                type_mentions(P, a["t"], acc, seen)
            elif isinstance(a, int):
                type_mentions(P, a, acc, seen)
    elif k in ("ref", "ptr"):
        type_mentions(P, ty["to"], acc, seen)
    elif k in ("slice", "array"):
        type_mentions(P, ty["of"], acc, seen)
    elif k == "tuple":
        for a in ty["of"]:
            type_mentions(P, a, acc, seen)


def targs(args):
    for a in args:
        if isinstance(a, int):
            yield a
        elif isinstance(a, dict) and "t" in a:
            yield a["t"]


class CallGraph:
    def __init__(self, P):
        self.P = P
        # trait method name -> local impl fns
        self.impl_methods = {}
        self.ext_impls = {}   # adt def -> local fns implementing external traits for it
        for f in P.fns.values():
            if "impl_trait" in f:
                self.impl_methods.setdefault((f["impl_trait"], f["name"]), []).append(f["def"])
                if f["impl_trait"] not in P.traits:
                    st = P.types[f["impl_self"]]
                    if st["k"] == "adt":
                        self.ext_impls.setdefault(st["def"], []).append((f["impl_trait"], f["def"]))
        self.edges = {}
        self.why = {}
        for f in P.fns.values():
            self.edges[f["def"]] = self._out(f)

    def callees_of_fn(self, fn):
        """possible local targets of a resolved callee record"""
        P = self.P
        out = []
        tgt = fn.get("res", fn["def"])
        if tgt in P.fns:
            if "trait" in fn and "ok" not in fn and fn["trait"] in P.traits:
                # unresolved: default body or any impl
                out.append(tgt)
                out += self.impl_methods.get((fn["trait"], fn["name"]), [])
            else:
                out.append(tgt)
        elif "trait" in fn and fn["trait"] in P.traits and "ok" not in fn:
            out += self.impl_methods.get((fn["trait"], fn["name"]), [])
        return out

    def call_targets(self, fn):
        """(local function, how) which a call of this callee record may enter, callbacks from std included"""
        P = self.P
        loc = self.callees_of_fn(fn)
        if loc:
            return [(x, "call") for x in loc]
        acc = set()
        seen = set()
        for a in targs(fn.get("rargs", fn["args"])):
            type_mentions(P, a, acc, seen)
        for a in targs(fn["args"]):
            type_mentions(P, a, acc, seen)
        tr = fn.get("trait", "")
        out = []
        for kind, d in sorted(acc):
            if kind == "fn":
                out.append((d, "callback"))
                continue
            for trait, m in self.ext_impls.get(d, []):
                # a std function calls back only into traits, not constructors
                if trait.startswith("core::marker"):
                    continue
                if "Iterator" in trait or "iter" in trait:
                    if "ter" not in tr and "ter" not in fn["def"] and "Extend" not in fn["def"] and "collect" not in fn["def"]:
                        continue
                elif trait.startswith("core::fmt") and "fmt" not in fn["def"] and "format" not in fn["def"]:
                    continue
                elif "Drop" in trait and "drop" not in fn["def"]:
                    continue
                out.append((m, "std callback via " + trait))
        return out

    def _out(self, f):
        P = self.P
        out = {}
        def add(d, line, how):
            if d in P.fns and d not in out:
                out[d] = (line, how)
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] == "agg" and isinstance(rv[1], (list, tuple)) and rv[1][0] == "closure":
                        add(rv[1][1], s[3], "closure")
                    for d in fn_consts(rv):
                        for x in self.callees_of_fn(d):
                            add(x, s[3], "fn value")
            t = b["t"]
            if t["k"] == "call":
                for o in t["a"]:
                    for d in fn_consts(o):
                        for x in self.callees_of_fn(d):
                            add(x, t["l"], "fn value")
                fn = callee(t)
                if fn is None:
                    continue
                for x, how in self.call_targets(fn):
                    add(x, t["l"], how)
        return out

    def sccs(self, nodes):
        nodes = set(nodes)
        index = {}
        low = {}
        st = []
        on = set()
        res = []
        cnt = [0]
        for root in sorted(nodes):
            if root in index:
                continue
            work = [(root, iter(sorted(x for x in self.edges[root] if x in nodes)))]
            index[root] = low[root] = cnt[0]; cnt[0] += 1
            st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]; cnt[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter(sorted(x for x in self.edges[w] if x in nodes))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in self.edges[v]:
                        res.append(sorted(c))
        return res


def fn_consts(x):
    """fn items used as values inside an operand/rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
            if "fn" in x[1]:
                yield x[1]["fn"]
            return
        for y in x:
            yield from fn_consts(y)
