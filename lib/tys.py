"""Type table with substitution, normalisation of associated types and impl lookup."""
import json


class Types:
    def __init__(self, P):
        self.P = P
        self.T = P.types
        self.index = {}
        self._par = {}
        self._sub = {}
        self._ft = {}
        self._impl = {}
        for i, t in enumerate(self.T):
            self.index.setdefault(self._key(t), i)

    def _key(self, t):
        k = t["k"]
        if k == "adt":
            return (k, t["def"], tuple(self._ak(a) for a in t["args"]))
        if k in ("ref", "ptr"):
            return (k, t["mut"], t["to"])
        if k == "slice":
            return (k, t["of"])
        if k == "array":
            return (k, t["of"], self._ak(t["n"]))
        if k == "tuple":
            return (k, tuple(t["of"]))
        if k == "fndef":
            return (k, t["def"], tuple(self._ak(a) for a in t["args"]))
        if k == "closure":
            return (k, t["def"], tuple(t["up"]), tuple(t["pargs"]))
        if k == "alias" and "trait" in t:
            return (k, t["trait"], t["name"], tuple(self._ak(a) for a in t["args"]))
        if k in ("int", "uint"):
            return (k, t["s"])
        if k == "param":
            return (k, t["name"])
        return (k, t["s"])

    def _ak(self, a):
        return a if isinstance(a, int) else (("v", a["v"]) if "v" in a else ("c", a["c"]))

    def intern(self, t):
        key = self._key(t)
        i = self.index.get(key)
        if i is None:
            i = len(self.T)
            t.setdefault("s", self._fmt(t))
            self.T.append(t)
            self.index[key] = i
        return i

    def _fa(self, a):
        return self.T[a]["s"] if isinstance(a, int) else str(a.get("v", a.get("c")))

    def _fmt(self, t):
        k = t["k"]
        if k == "adt":
            return t["def"] + ("<%s>" % ", ".join(self._fa(a) for a in t["args"]) if t["args"] else "")
        if k in ("ref", "ptr"):
            return ("&" if k == "ref" else "*") + ("mut " if t["mut"] else "") + self.T[t["to"]]["s"]
        if k == "slice":
            return "[%s]" % self.T[t["of"]]["s"]
        if k == "array":
            return "[%s; %s]" % (self.T[t["of"]]["s"], self._fa(t["n"]))
        if k == "tuple":
            return "(%s)" % ", ".join(self.T[x]["s"] for x in t["of"])
        if k == "alias":
            return "<%s as %s>::%s" % (self._fa(t["args"][0]), t["trait"], t["name"])
        return t.get("def", k)

    # ---- generic parameters
    def has_param(self, i):
        r = self._par.get(i)
        if r is not None:
            return r
        self._par[i] = False
        t = self.T[i]
        k = t["k"]
        if k == "param":
            r = True
        elif k in ("adt", "fndef"):
            r = any(self._ap(a) for a in t["args"])
        elif k == "alias":
            r = any(self._ap(a) for a in t.get("args", ())) or True
        elif k in ("ref", "ptr"):
            r = self.has_param(t["to"])
        elif k == "slice":
            r = self.has_param(t["of"])
        elif k == "array":
            r = self.has_param(t["of"]) or "c" in t["n"]
        elif k == "tuple":
            r = any(self.has_param(x) for x in t["of"])
        elif k == "closure":
            r = any(self.has_param(x) for x in t["up"]) or any(self.has_param(x) for x in t["pargs"])
        else:
            r = False
        self._par[i] = r
        return r

    def _ap(self, a):
        return self.has_param(a) if isinstance(a, int) else "c" in a

    def sub_arg(self, a, env):
        if isinstance(a, int):
            return self.subst(a, env)
        if "c" in a and a["c"] in env:
            v = env[a["c"]]
            return v
        return a

    def subst(self, i, env):
        if not env or not self.has_param(i):
            return i
        ek = tuple(sorted((k, v if isinstance(v, int) else str(v)) for k, v in env.items()))
        ck = (i, ek)
        r = self._sub.get(ck)
        if r is not None:
            return r
        t = self.T[i]
        k = t["k"]
        if k == "param":
            r = env.get(t["name"], i)
            if not isinstance(r, int):
                r = i
        elif k == "adt":
            r = self.intern({"k": k, "def": t["def"], "args": [self.sub_arg(a, env) for a in t["args"]]})
        elif k == "fndef":
            r = self.intern({"k": k, "def": t["def"], "args": [self.sub_arg(a, env) for a in t["args"]]})
        elif k in ("ref", "ptr"):
            r = self.intern({"k": k, "mut": t["mut"], "to": self.subst(t["to"], env)})
        elif k == "slice":
            r = self.intern({"k": k, "of": self.subst(t["of"], env)})
        elif k == "array":
            n = t["n"]
            if "c" in n and n["c"] in env and not isinstance(env[n["c"]], int):
                n = env[n["c"]]
            r = self.intern({"k": k, "of": self.subst(t["of"], env), "n": n})
        elif k == "tuple":
            r = self.intern({"k": k, "of": [self.subst(x, env) for x in t["of"]]})
        elif k == "closure":
            r = self.intern({"k": k, "def": t["def"], "up": [self.subst(x, env) for x in t["up"]],
                             "pargs": [self.subst(x, env) for x in t["pargs"]]})
        elif k == "alias" and "trait" in t:
            args = [self.sub_arg(a, env) for a in t["args"]]
            r = self.norm_alias(t["trait"], t["name"], args)
            if r is None:
                r = self.intern({"k": k, "trait": t["trait"], "name": t["name"], "args": args})
        else:
            r = i
        self._sub[ck] = r
        return r

    def norm_alias(self, trait, name, args):
        if not args or not isinstance(args[0], int):
            return None
        hit = self.find_impl(trait, args)
        if not hit:
            return None
        im, b = hit
        for it in im["items"]:
            if it["n"] == name and "ty" in it:
                return self.subst(it["ty"], b)
        return None

    # ---- impl lookup
    def unify(self, pat, i, b):
        if pat == i and not self.has_param(pat):
            return True
        p = self.T[pat]
        if p["k"] == "param":
            old = b.get(p["name"])
            if old is None:
                b[p["name"]] = i
                return True
            return old == i
        t = self.T[i]
        if p["k"] != t["k"]:
            return False
        k = p["k"]
        if k == "adt":
            return p["def"] == t["def"] and len(p["args"]) == len(t["args"]) and all(self._ua(x, y, b) for x, y in zip(p["args"], t["args"]))
        if k in ("ref", "ptr"):
            return p["mut"] == t["mut"] and self.unify(p["to"], t["to"], b)
        if k == "slice":
            return self.unify(p["of"], t["of"], b)
        if k == "array":
            return self.unify(p["of"], t["of"], b) and self._ua(p["n"], t["n"], b)
        if k == "tuple":
            return len(p["of"]) == len(t["of"]) and all(self.unify(x, y, b) for x, y in zip(p["of"], t["of"]))
        if k == "alias":
            return pat == i
        return p["s"] == t["s"]

    def _ua(self, x, y, b):
        if isinstance(x, int) and isinstance(y, int):
            return self.unify(x, y, b)
        if isinstance(x, int) or isinstance(y, int):
            return False
        if "c" in x:
            old = b.get(x["c"])
            if old is None:
                b[x["c"]] = y
                return True
            return old == y
        return x == y

    def find_impl(self, trait, args):
        """(impl, bindings) for a trait reference with a known self type, else None"""
        key = (trait, tuple(self._ak(a) for a in args))
        if key in self._impl:
            return self._impl[key]
        self._impl[key] = None
        st = self.T[args[0]]
        r = None
        if st["k"] not in ("param", "alias", "dyn", "other"):
            best = None
            for im in self.P.impls_of.get(trait, ()):
                b = {}
                if not self.unify(im["self"], args[0], b):
                    continue
                ta = im.get("targs", [])
                if len(ta) > 1 and len(args) >= len(ta):
                    if not all(self._ua(x, y, b) for x, y in zip(ta[1:], args[1:len(ta)])):
                        continue
                generic = self.T[im["self"]]["k"] == "param"
                if best is None or (best[0] and not generic):
                    best = (generic, im, b)
            if best:
                r = (best[1], best[2])
        self._impl[key] = r
        return r

    # ---- structure
    def fields(self, i, variant=0):
        """field types of a struct/tuple/closure/enum variant, substituted"""
        ck = (i, variant)
        r = self._ft.get(ck)
        if r is not None:
            return r
        t = self.T[i]
        k = t["k"]
        if k == "tuple":
            r = list(t["of"])
        elif k == "closure":
            r = list(t["up"])
        elif k == "adt":
            a = self.P.adts.get(t["def"])
            if a is None or variant >= len(a["variants"]):
                r = []
            else:
                env = dict(zip(a["generics"], t["args"]))
                r = [self.subst(f["t"], env) for f in a["variants"][variant]["f"]]
        else:
            r = []
        self._ft[ck] = r
        return r

    def adt(self, i):
        t = self.T[i]
        return self.P.adts.get(t["def"]) if t["k"] == "adt" else None

    def is_enum(self, i):
        a = self.adt(i)
        return a is not None and a["kind"] == "enum"

    def int_range(self, i):
        t = self.T[i]
        if t["k"] == "uint":
            return (0, (1 << t["bits"]) - 1)
        if t["k"] == "int":
            return (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
        if t["k"] == "char":
            return (0, 0x10FFFF)
        return None

    def is_int(self, i):
        return self.T[i]["k"] in ("int", "uint", "char")

    def size(self, i, endian_align=1):
        """size in bytes, if known"""
        t = self.T[i]
        if "sz" in t and not t.get("unsized"):
            return t["sz"]
        r = self.layout(i)
        return r[0] if r else None

    def layout(self, i, depth=0):
        """(size, align) by the repr(C) rules, for substituted types that rustc did not lay out"""
        t = self.T[i]
        if "sz" in t and not t.get("unsized"):
            return (t["sz"], t["al"])
        if depth > 12:
            return None
        k = t["k"]
        if k == "adt":
            a = self.P.adts.get(t["def"])
            if t["def"] == "core::marker::PhantomData":
                return (0, 1)
            if a is None or a["kind"] != "struct" or not (a["repr_c"] or a["transparent"] or len(a["variants"][0]["f"]) <= 2):
                return None
            off, al = 0, 1
            for f in self.fields(i):
                l = self.layout(f, depth + 1)
                if l is None:
                    return None
                off = (off + l[1] - 1) // l[1] * l[1] + l[0]
                al = max(al, l[1])
            return ((off + al - 1) // al * al, al)
        if k == "array" and "v" in t["n"]:
            l = self.layout(t["of"], depth + 1)
            return (l[0] * t["n"]["v"], l[1]) if l else None
        if k == "tuple" and not t["of"]:
            return (0, 1)
        if k in ("uint", "int"):
            return (t["bits"] // 8, t["bits"] // 8)
        return None
