"""C19: an error that a lower layer reports is reported to the caller, or is one of the reviewed defaults."""
import json, os, re
import facts
from facts import callee
from report import Report

# what keeps an error that is in the receiver
KEEP = {"map", "map_err", "and_then", "and", "read_error", "write_error", "transpose", "cloned", "copied", "as_ref", "as_mut", "as_deref", "into_iter_error", "from", "into", "clone", "inspect",
        "inspect_err", "filter", "ok_or", "ok_or_else", "context", "flatten", "zip", "take", "replace", "iter", "by_ref"}
LOSE = {"unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "or", "or_else", "xor", "is_some_and", "is_ok_and", "is_none_or", "err", "into_iter", "unwrap_unchecked"}
TEST = {"is_ok": 0, "is_err": 1, "is_some": 0, "is_none": 1}
PANIC = {"unwrap", "expect"}
SKIP = re.compile(r"^core::(fmt|hash)::")


def rtype(P, tid):
    """the error type of a Result, or None"""
    t = P.types[tid]
    if t["k"] == "adt" and t.get("def", "").endswith("result::Result"):
        a = [x for x in t["args"] if isinstance(x, int)]
        return a[1] if len(a) > 1 else None
    return None


def is_option(P, tid):
    t = P.types[tid]
    return t["k"] == "adt" and t.get("def", "").endswith("option::Option")


class Fn:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.uses = {}
        for bi, b in enumerate(f["blocks"]):
            for si, s in enumerate(b["s"]):
                if s[0] == "=":
                    for p, how in self.places(s[2]):
                        self.uses.setdefault(p[0], []).append((bi, si, p, how, s))
            t = b["t"]
            if t["k"] == "call":
                for i, a in enumerate(t["a"]):
                    if a[0] in ("c", "m"):
                        self.uses.setdefault(a[1][0], []).append((bi, len(b["s"]), a[1], "arg", i))

    def places(self, rv):
        k = rv[0]
        if k == "discr":
            yield rv[1], "discr"
        elif k in ("ref", "raw"):
            for x in rv[1:]:
                if isinstance(x, list) and x and isinstance(x[0], int):
                    yield x, "ref"
        else:
            st = [rv]
            while st:
                x = st.pop()
                if isinstance(x, list):
                    if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                        yield x[1], "agg" if k == "agg" else "use" if k == "use" else "op"
                    else:
                        st += x

    def succ(self, t):
        k = t["k"]
        if k == "switch":
            return [c[1] for c in t["cases"]] + ([t["else"]] if t.get("else") is not None else [])
        return [t[x] for x in ("to",) if t.get(x) is not None]

    def lost(self, start, carrier, stop=()):
        """can control get from here to a return without an error having been made or the carried one having been used"""
        none = is_option(self.P, self.f["locals"][0]) and not self.carries(self.f["locals"][0])
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            B = self.f["blocks"][b]
            done = b in stop
            for s in B["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == 1 and rv[1][1].endswith("result::Result"):
                    done = True
                # a function whose only way to fail is None
                if none and s[1] == [0] and rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == 0:
                    done = True
                for p, how in self.places(rv):
                    if p[0] in carrier and how != "discr":
                        done = True
            t = B["t"]
            if t["k"] == "call":
                c = callee(t)
                if any(a[0] in ("c", "m") and a[1][0] in carrier for a in t["a"]):
                    done = True
                if c and (c.get("name") == "from_residual" or t.get("to") is None):
                    done = True
                elif c is None and t.get("to") is None:
                    done = True
            if done:
                continue
            if t["k"] == "return":
                return True
            st += self.succ(t)
        return False

    def follow(self, l, err=1, seen=None):
        """how the error in this local ends: a set of ways in which it is lost"""
        seen = seen if seen is not None else set()
        if l in seen:
            return set()
        seen.add(l)
        if l == 0:
            return set()
        P, f = self.P, self.f
        out = set()
        us = self.uses.get(l, [])
        if not us:
            return {"dropped"}
        kept = False
        for bi, si, p, how, x in us:
            proj = p[1] if len(p) > 1 else []
            if how == "discr":
                if any(q != "*" for q in proj):
                    continue
                d = x[1][0]
                t = f["blocks"][bi]["t"]
                if t["k"] == "switch" and t["on"][0] in ("c", "m") and t["on"][1][0] == d:
                    tgt = [c[1] for c in t["cases"] if c[0] == err] or ([t["else"]] if t.get("else") is not None else [])
                    for y in tgt:
                        if self.lost(y, seen):
                            out.add("matched")
                kept = True
            elif how == "use":
                if any(isinstance(q, list) and q[0] == "d" for q in proj):
                    kept = True
                    continue
                if len(x[1]) > 1:
                    kept = True
                    continue
                out |= self.follow(x[1][0], err, seen)
                kept = True
            elif how == "ref":
                if any(isinstance(q, list) and q[0] == "d" for q in proj):
                    kept = True
                    continue
                if len(x[1]) == 1:
                    o = self.follow(x[1][0], err, seen)
                    if o != {"dropped"}:
                        out |= o
                        kept = True
            elif how == "arg":
                t = f["blocks"][bi]["t"]
                c = callee(t)
                n = c.get("name") if c else None
                kept = True
                if any(isinstance(q, list) and q[0] == "d" for q in proj):
                    continue
                local = c and c.get("def") in P.fns
                if c is None or n in ("branch", "from_residual", "collect", "push", "next", "fmt", "drop", "eq", "ne"):
                    # `?` on an Option made from a Result returns None; where the function could have returned the error, it is lost
                    if n == "branch" and is_option(P, f["locals"][l]) and self.carries(f["locals"][0]):
                        out.add("into None")
                    continue
                if n == "ok" and len(t["a"]) == 1:
                    out |= self.follow(t["d"][0], 0, seen) if len(t["d"]) == 1 else set()
                elif n in TEST and len(t["a"]) == 1:
                    out |= self.tested(t["d"][0], TEST[n], seen)
                elif n in LOSE and x == 0:
                    out.add(n)
                elif n in PANIC:
                    continue
                elif x == 0 and not local and is_option(P, f["locals"][l]) and n in KEEP and len(t["d"]) == 1:
                    dt = f["locals"][t["d"][0]]
                    out |= self.follow(t["d"][0], 0, seen) if is_option(P, dt) else set()
                # a Result made from this one is followed as the result of that call
            else:
                kept = True
        if not kept and not out:
            out.add("dropped")
        return out

    def carries(self, tid):
        """a type in which an error can be returned"""
        return "Result<" in self.P.types[tid]["s"]

    def tested(self, d, truth, l):
        f = self.f
        for b in f["blocks"]:
            t = b["t"]
            if t["k"] == "switch" and t["on"][0] in ("c", "m") and t["on"][1][0] == d:
                tgt = [c[1] for c in t["cases"] if c[0] == truth] or ([t["else"]] if t.get("else") is not None else [])
                return {"tested"} if any(self.lost(y, l) for y in tgt) else set()
        return {"tested"}


def error(P, tid):
    """is this a Result with an error that says something"""
    e = rtype(P, tid)
    if e is None:
        return False
    et = P.types[e]
    return not (et["k"] in ("int", "uint") or et["s"] in ("usize", "!", "core::convert::Infallible") or et["s"].endswith("fmt::Error"))


def sites(P):
    n = 0
    res = []
    for d, f in sorted(P.fns.items()):
        if not f["file"].startswith("src/") or "::fmt" in d and f.get("name") == "fmt":
            continue
        F = None
        for bi, b in enumerate(f["blocks"]):
            t = b["t"]
            if t["k"] != "call":
                continue
            c = callee(t)
            # the functions that forget an error, passed on as a function
            for a in t["a"]:
                if a[0] == "k" and isinstance(a[1], dict) and isinstance(a[1].get("fn"), dict):
                    g = a[1]["fn"].get("def", "")
                    if re.search(r"result::Result::<.*>::(ok|unwrap_or_default|is_ok|is_err)$", g):
                        n += 1
                        res.append((f, t["l"], g.split("::")[-1], "passed on"))
            if len(t["d"]) != 1:
                continue
            if not error(P, f["locals"][t["d"][0]]):
                continue
            if c is not None and c.get("name") in ("branch", "from_residual", "from_output"):
                continue
            n += 1
            F = F or Fn(P, f)
            for w in sorted(F.follow(t["d"][0])):
                res.append((f, t["l"], (c or {}).get("name") or "a function value", w))
        # results inside of other values
        for bi, b in enumerate(f["blocks"]):
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) > 1 and len(s[1]) == 1 and error(P, f["locals"][s[1][0]]):
                    n += 1
                    F = F or Fn(P, f)
                    for w in sorted(F.follow(s[1][0])):
                        res.append((f, s[3], "a stored result", w))
                elif rv[0] == "discr" and len(rv[1]) > 2 and error(P, rv[1][2]):
                    t = b["t"]
                    if t["k"] == "switch" and t["on"][0] in ("c", "m") and t["on"][1][0] == s[1][0]:
                        n += 1
                        F = F or Fn(P, f)
                        tgt = [c[1] for c in t["cases"] if c[0] == 1] or ([t["else"]] if t.get("else") is not None else [])
                        if any(F.lost(y, {rv[1][0]}) for y in tgt):
                            res.append((f, s[3], "a stored result", "matched"))
    return n, res


def fields(P, f):
    """(block, place) of everything that is looked at or set"""
    for bi, b in enumerate(f["blocks"]):
        st = [[s for s in b["s"] if s[0] == "="], b["t"].get("a", []), b["t"].get("d", []), b["t"].get("on", [])]
        while st:
            x = st.pop()
            if isinstance(x, list):
                if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list):
                    yield bi, x
                else:
                    st += x


def sticky(P, R):
    """errors that are kept in a field until they are asked for"""
    n = 0
    for ad, a in sorted(P.adts.items()):
        if ad.startswith(("core::", "alloc::", "std::")) or len(a["variants"]) != 1:
            continue
        for i, x in enumerate(a["variants"][0].get("f", a["variants"][0].get("fields", []))):
            if not (isinstance(x, dict) and isinstance(x.get("t"), int) and error(P, x["t"])):
                continue
            ft = x["t"]

            def mine(tid):
                while P.types[tid]["k"] in ("ref", "ptr"):
                    tid = P.types[tid]["to"]
                return P.types[tid].get("def") == ad
            own = [f for f in P.fns.values() if f.get("impl_self") is not None and mine(f["impl_self"]) and "blocks" in f]

            def at(f):
                return {b for b, pl in fields(P, f) if any(isinstance(q, list) and q[0] == "f" and q[1] == i and rtype(P, q[2]) == rtype(P, ft) for q in pl[1])}
            looks = {f["def"] for f in own if at(f) and P.types[f["locals"][0]]["s"] == P.types[ft]["s"]}
            for _ in range(4):
                looks |= {f["def"] for f in own if P.types[f["locals"][0]]["s"] == P.types[ft]["s"] and any(b["t"]["k"] == "call" and callee(b["t"]) and callee(b["t"])["def"] in looks for b in f["blocks"])}

            def asks(f):
                return {bi for bi, b in enumerate(f["blocks"]) if b["t"]["k"] == "call" and callee(b["t"]) and callee(b["t"])["def"] in looks}
            for f in own:
                if P.types[f["locals"][0]]["s"] == P.types[ft]["s"]:
                    n += 1
                    R.oblige(not Fn(P, f).lost(0, set(), at(f) | asks(f)), "sticky " + facts.simple(f["def"]), "%s:%d: %s can succeed without the error kept in %s being looked at" % (f["file"], f["line"], facts.simple(f["def"]), x["n"]), sample="%s reports the error kept" % facts.simple(f["def"]))
                # set only where no error is kept
                for bi, b in enumerate(f["blocks"]):
                    sets = [s for s in b["s"] if s[0] == "=" and len(s[1]) > 2 and s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][:2] == ["f", i] and rtype(P, s[1][2]) == rtype(P, ft)]
                    if b["t"]["k"] == "call" and len(b["t"]["d"]) > 2 and rtype(P, b["t"]["d"][2]) is not None:
                        sets.append(b["t"])
                    if sets and not b.get("cl"):
                        n += 1
                        R.oblige(guarded(P, f, bi, at(f)), "sticky set " + facts.simple(f["def"]), "%s:%d: %s replaces an error that is kept" % (f["file"], f["line"], facts.simple(f["def"])), sample="%s sets %s only while it holds no error" % (facts.simple(f["def"]), x["n"]))
            for f in P.fns.values():
                if f in own or not f["file"].startswith("src/"):
                    continue
                for b in f["blocks"]:
                    t = b["t"]
                    if t["k"] == "call" and len(t["d"]) == 1 and P.types[f["locals"][t["d"][0]]].get("def") == ad and ad not in P.types[f["locals"][0]]["s"] and t.get("to") is not None:
                        n += 1
                        R.oblige(not Fn(P, f).lost(t["to"], set(), asks(f)), "sticky use " + facts.simple(f["def"]), "%s:%d in %s: returns without asking %s for its error" % (f["file"], t["l"], facts.simple(f["def"]), ad.split("::")[-1]), sample="%s asks for the error kept" % facts.simple(f["def"]))
    return n


def guarded(P, f, target, tests):
    """is the block reached only where a test of the kept result said that it is no error"""
    ok = set()
    for bi, b in enumerate(f["blocks"]):
        t = b["t"]
        if t["k"] != "switch" or t["on"][0] not in ("c", "m"):
            continue
        d = t["on"][1][0]
        for bj in tests:
            u = f["blocks"][bj]["t"]
            c = callee(u) if u["k"] == "call" else None
            if c and c.get("name") in ("is_ok", "is_err") and u["d"] == [d]:
                want = int(c["name"] == "is_ok")
            elif any(s[0] == "=" and s[1] == [d] and s[2][0] == "discr" for s in f["blocks"][bj]["s"]):
                want = 0
            else:
                continue
            ok |= {(bi, x) for x in ([y[1] for y in t["cases"] if y[0] == want] or [t.get("else")])}
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        t = f["blocks"][b]["t"]
        nx = ([y[1] for y in t["cases"]] + [t.get("else")]) if t["k"] == "switch" else [t.get("to")]
        st += [x for x in nx if x is not None and (b, x) not in ok]
    return target not in seen


CHECKED = re.compile(r"^checked_(add|mul|sub|next_multiple_of)$")


def numbers(P):
    """an overflow that was detected is replaced by a value"""
    n, res = 0, []
    for d, f in sorted(P.fns.items()):
        if not f["file"].startswith("src/") or "Result<" not in P.types[f["locals"][0]]["s"]:
            continue
        src = {}
        for _ in range(2):
            for b in f["blocks"]:
                t = b["t"]
                c = callee(t) if t["k"] == "call" else None
                if c and len(t["d"]) == 1:
                    if CHECKED.match(c.get("name") or "") and not c.get("local"):
                        src[t["d"][0]] = c["name"]
                    elif c.get("name") in KEEP and t["a"] and t["a"][0][0] in ("c", "m") and is_option(P, f["locals"][t["d"][0]]) and t["a"][0][1][0] in src:
                        src[t["d"][0]] = src[t["a"][0][1][0]]
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] in ("c", "m") and len(s[2][1][1]) == 1 and s[2][1][1][0] in src:
                        src[s[1][0]] = src[s[2][1][1][0]]
        n += len(src)
        for b in f["blocks"]:
            t = b["t"]
            c = callee(t) if t["k"] == "call" else None
            if c and c.get("name") in LOSE and t["a"] and t["a"][0][0] in ("c", "m") and t["a"][0][1] == [t["a"][0][1][0]] and t["a"][0][1][0] in src and is_option(P, f["locals"][t["a"][0][1][0]]):
                res.append((f, t["l"], src[t["a"][0][1][0]], c["name"]))
    return n, res


def run(pid):
    R = Report(pid)
    P = facts.load()
    n, l = sites(P)
    m, k = numbers(P)
    l += k
    n += m
    by = {}
    for f, line, name, how in l:
        by.setdefault((f["file"], name), []).append((f, line, how))
    T = {tuple(x["at"]): x for x in json.load(open(os.path.join(facts.VERIF, "tables", "swallowed.json")))}
    for k, v in sorted(by.items()):
        x = T.get(k)
        for i, (f, line, how) in enumerate(v):
            R.oblige(x is not None and i < x["max"], "%s %s %s" % (k[0], facts.simple(f["def"]), k[1]),
                     "%s:%d in %s: an error of %s is lost (%s)" % (k[0], line, facts.simple(f["def"]), k[1], how), sample=x and "%s %s: %s" % (k[0], k[1], x["why"]))
    R.n += n - len(l)
    R.ok += n - len(l)
    R.floor("fallible calls", n, 2000)
    R.floor("kept errors", sticky(P, R), 4)
    R.finish("every value of a Result type is followed from the call that makes it to where its error is returned, turned into another error, or lost; each loss must be one of the reviewed defaults in tables/swallowed.json", functions=len(P.fns), fallible_calls=n, defaults=len(l))
