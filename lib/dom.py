"""Abstract domain: hash-consed value terms, linear integer forms, linear-inequality facts.

A fact is  sum(coef*term) <= bound.  Entailment is a bounded search for a non-negative
combination of facts (an interval/zone/octagon-like domain over symbolic terms); there is
no external solver."""
from math import gcd

INF = float("inf")
IMAX = (1 << 63) - 1


class Terms:
    def __init__(self):
        self.ops = []
        self.idx = {}
        self.rng = []
        self.ax = {}      # term -> [(parts, bound)] always-true facts
        self.cong = {}    # term -> (modulus, remainder)
        self.on_new = None
        self.fvk = {}     # term -> variant assumed throughout
        self.etype = {}   # term -> enum type, where it was asked for
        self.fbool = {}   # term -> truth value assumed throughout
        self.orig = {}    # term -> range before it was fixed

    def mk(self, op, rng=None):
        i = self.idx.get(op)
        if i is None:
            i = len(self.ops)
            self.idx[op] = i
            self.ops.append(op)
            self.rng.append(rng)
            if self.on_new is not None:
                self.on_new(i)
        elif rng is not None:
            o = self.rng[i]
            if o is None:
                self.rng[i] = rng
            else:
                self.rng[i] = (max(o[0], rng[0]), min(o[1], rng[1]))
        return i

    def known(self, st, t):
        """the variant of an enum value (or the excluded ones)"""
        v = self.fvk.get(t)
        return st.vk.get(t) if v is None else v

    def axiom(self, t, lin):
        """lin <= 0 always"""
        parts, bound = norm(lin)
        if parts is None:
            return
        l = self.ax.setdefault(t, [])
        if (parts, bound) not in l:
            l.append((parts, bound))

    def mentions(self, t, pred, cache):
        """does term t mention a term satisfying pred (deep)?"""
        r = cache.get(t)
        if r is not None:
            return r
        cache[t] = False
        if pred(t):
            r = True
        else:
            r = False
            for x in walk(self.ops[t]):
                if self.mentions(x, pred, cache):
                    r = True
                    break
        cache[t] = r
        return r


class TRef(int):
    """marks an integer inside an op tuple as a term reference"""
    __slots__ = ()


def walk(op):
    for x in op:
        if isinstance(x, TRef):
            yield int(x)
        elif isinstance(x, tuple):
            yield from walk(x)


# linear forms: (const, ((term, coef), ...)) sorted by term
def lc(c):
    return (c, ())


def lt(t):
    return (0, ((t, 1),))


def ladd(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for t, c in b[1]:
        n = d.get(t, 0) + c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def lscale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def lsub(a, b):
    return ladd(a, lscale(b, -1))


def laddc(a, k):
    return (a[0] + k, a[1])


def norm(lin):
    """lin <= 0  ->  (parts, bound): parts <= bound; parts None when constant"""
    c, p = lin
    if not p:
        return None, -c
    g = 0
    for _, k in p:
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        return tuple((t, k // g) for t, k in p), (-c) // g
    return p, -c


def lkey(lin):
    return ("lin", lin[0], tuple((TRef(t), c) for t, c in lin[1]))


class State:
    __slots__ = ("mem", "facts", "bf", "vk", "ne", "_idx", "dead", "log", "cut")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.bf = {}
        self.vk = {}
        self.ne = frozenset()
        self._idx = None
        self.dead = False
        self.log = ()
        self.cut = None      # last loop header passed

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.bf = dict(self.bf)
        s.vk = dict(self.vk)
        s.ne = self.ne
        s._idx = self._idx
        s.dead = self.dead
        s.log = self.log
        s.cut = self.cut
        return s

    def index(self):
        if self._idx is None:
            ix = {}
            for p, b in self.facts.items():
                if len(p) > 1:
                    for t, k in p:
                        ix.setdefault(t, []).append((p, b, k))
            self._idx = ix
        return self._idx


class Dom:
    def __init__(self):
        self.terms = Terms()
        self.depth = 4
        self.queries = 0

    # ---- intervals
    def hi(self, st, t, d=3):
        r = self.terms.rng[t]
        v = INF if r is None else r[1]
        f = st.facts.get(((t, 1),))
        if f is not None and f < v:
            v = f
        op = self.terms.ops[t]
        if op[0] == "mul" and d > 0:
            a, b = self.linrange(st, op[1], d - 1), self.linrange(st, op[2], d - 1)
            if a[0] >= 0 and b[0] >= 0 and a[1] < INF and b[1] < INF:
                v = min(v, a[1] * b[1])
        cg = self.terms.cong.get(t)
        if cg and v < INF:
            v -= (v - cg[1]) % cg[0]
        return v

    def lo(self, st, t, d=3):
        r = self.terms.rng[t]
        v = -INF if r is None else r[0]
        f = st.facts.get(((t, -1),))
        if f is not None and -f > v:
            v = -f
        op = self.terms.ops[t]
        if op[0] == "mul" and d > 0:
            a, b = self.linrange(st, op[1], d - 1), self.linrange(st, op[2], d - 1)
            if a[0] >= 0 and b[0] >= 0:
                v = max(v, a[0] * b[0])
        return v

    def linrange(self, st, lkeyed, d=3):
        # lkeyed: the tuple form stored in an op: ("lin", c, parts)
        lin = (lkeyed[1], tuple((int(t), c) for t, c in lkeyed[2]))
        hi = lo = lin[0]
        for t, k in lin[1]:
            if k > 0:
                hi += k * self.hi(st, t, d)
                lo += k * self.lo(st, t, d)
            else:
                hi += k * self.lo(st, t, d)
                lo += k * self.hi(st, t, d)
        return lo, hi

    def ub0(self, st, lin):
        s = lin[0]
        for t, k in lin[1]:
            s += k * (self.hi(st, t) if k > 0 else self.lo(st, t))
            if s == INF:
                return s
        return s

    def ub(self, st, lin, goal=None, depth=None):
        """an upper bound of lin in st"""
        self.queries += 1
        if depth is None:
            depth = self.depth
        best = self.ub0(st, lin)
        if not lin[1] or (goal is not None and best <= goal):
            return best
        ix = st.index()
        for d in range(1, depth + 1):
            self._budget = 400
            r = self._ub(st, ix, lin, goal, d, frozenset())
            if r < best:
                best = r
            if goal is not None and best <= goal:
                return best
            if goal is None and d >= 3:
                break
        return best

    def _ub(self, st, ix, lin, goal, depth, used):
        best = self.ub0(st, lin)
        if depth == 0 or (goal is not None and best <= goal) or self._budget <= 0:
            return best
        self._budget -= 1
        ax = self.terms.ax
        for t, k in lin[1]:
            cands = ix.get(t, ())
            a2 = ax.get(t)
            if a2:
                cands = list(cands) + [(p, b, next(c for x, c in p if x == t)) for p, b in a2 if any(x == t for x, _ in p)]
            for p, b, c in cands:
                if (c > 0) != (k > 0) or (p, b) in used:
                    continue
                # lin - r*(p) + r*b
                if k % c == 0:
                    r = k // c
                    nl = ladd(lin, (0, tuple((x, -y * r) for x, y in p)))
                    nl = (nl[0] + r * b, nl[1])
                    if len(nl[1]) > len(lin[1]) + 1 or len(nl[1]) > 5:
                        continue
                    v = self._ub(st, ix, nl, goal, depth - 1, used | {(p, b)})
                elif c % k == 0 or True:
                    # scale lin by |c| then divide
                    m = abs(c)
                    r = k * m // c
                    nl = ladd(lscale(lin, m), (0, tuple((x, -y * r) for x, y in p)))
                    nl = (nl[0] + r * b, nl[1])
                    if len(nl[1]) > len(lin[1]) + 1 or len(nl[1]) > 5:
                        continue
                    g2 = None if goal is None else goal * m + (m - 1)
                    v = self._ub(st, ix, nl, g2, depth - 1, used | {(p, b)})
                    if v != INF and v != -INF:
                        v = v // m
                if v < best:
                    best = v
                    if goal is not None and best <= goal:
                        return best
        return best

    def le(self, st, lin):
        """entails lin <= 0"""
        if not lin[1]:
            return lin[0] <= 0
        return self.ub(st, lin, 0) <= 0

    # ---- adding facts; False when contradictory
    def assume_le(self, st, lin):
        if not lin[1]:
            return lin[0] <= 0
        parts, bound = norm(lin)
        old = st.facts.get(parts)
        if old is not None and old <= bound:
            return True
        # infeasible?  -lin + 1 <= 0 entailed
        neg = laddc(lscale(lin, -1), 1)
        if self.ub(st, neg, 0, 3) <= 0:
            return False
        st.facts[parts] = bound
        if len(parts) > 1:
            st._idx = None
        if len(parts) == 1 and st.ne:
            return self._apply_ne(st)
        return True

    def _apply_ne(self, st):
        for lin in st.ne:
            if len(lin[1]) == 1:
                (t, k), = lin[1]
                if lin[0] % k:
                    continue
                v = -lin[0] // k
                hi, lo = self.hi(st, t), self.lo(st, t)
                if lo == hi == v:
                    return False
                if hi == v:
                    st.facts[((t, 1),)] = v - 1
                elif lo == v:
                    st.facts[((t, -1),)] = -(v + 1)
        return True

    def assume_eq(self, st, lin):
        return self.assume_le(st, lin) and self.assume_le(st, lscale(lin, -1))

    def assume_ne(self, st, lin):
        if not lin[1]:
            return lin[0] != 0
        # at a bound?
        if self.ub(st, lin, 0, 3) <= 0:
            return self.assume_le(st, laddc(lin, 1))
        neg = lscale(lin, -1)
        if self.ub(st, neg, 0, 3) <= 0:
            return self.assume_le(st, laddc(neg, 1))
        st.ne = st.ne | {lin}
        return True

    def prove_ne(self, st, lin):
        if not lin[1]:
            return lin[0] != 0
        if lin in st.ne or lscale(lin, -1) in st.ne:
            return True
        return self.le(st, laddc(lin, 1)) or self.le(st, laddc(lscale(lin, -1), 1))

    # ---- conditions
    def neg(self, c):
        if c is True:
            return False
        if c is False:
            return True
        k = c[0]
        if k == "le":
            return ("le", laddc(lscale(c[1], -1), 1))
        if k == "eq":
            return ("ne", c[1])
        if k == "ne":
            return ("eq", c[1])
        if k == "t":
            return ("nt", c[1])
        if k == "nt":
            return ("t", c[1])
        if k == "and":
            return ("or", self.neg(c[1]), self.neg(c[2]))
        if k == "or":
            return ("and", self.neg(c[1]), self.neg(c[2]))
        raise ValueError(c)

    def assume(self, st, c):
        """refines st by condition c; False when infeasible"""
        if c is True:
            return True
        if c is False:
            return False
        k = c[0]
        if k == "le":
            return self.assume_le(st, c[1])
        if k == "eq":
            return self.assume_eq(st, c[1])
        if k == "ne":
            return self.assume_ne(st, c[1])
        if k in ("t", "nt"):
            v = st.bf.get(c[1], self.terms.fbool.get(c[1]))
            want = k == "t"
            if v is not None:
                return v == want
            st.bf[c[1]] = want
            op = self.terms.ops[c[1]]
            if op[0] == "cond" and want:
                return self.assume(st, uncond(op[1]))
            if op[0] == "cond":
                return self.assume(st, self.neg(uncond(op[1])))
            return True
        if k == "and":
            return self.assume(st, c[1]) and self.assume(st, c[2])
        if k == "or":
            a = self.decide(st, c[1])
            if a is True:
                return True
            b = self.decide(st, c[2])
            if b is True:
                return True
            if a is False and b is False:
                return False
            if a is False:
                return self.assume(st, c[2])
            if b is False:
                return self.assume(st, c[1])
            return True
        raise ValueError(c)

    def decide(self, st, c):
        """True/False/None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == "le":
            if self.le(st, c[1]):
                return True
            if self.le(st, laddc(lscale(c[1], -1), 1)):
                return False
            return None
        if k == "eq":
            if self.le(st, c[1]) and self.le(st, lscale(c[1], -1)):
                return True
            if self.prove_ne(st, c[1]):
                return False
            return None
        if k == "ne":
            r = self.decide(st, ("eq", c[1]))
            return None if r is None else not r
        if k in ("t", "nt"):
            v = st.bf.get(c[1], self.terms.fbool.get(c[1]))
            if v is None:
                return None
            return v == (k == "t")
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if (a and b) else None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if (a is False and b is False) else None
        return None


def uncond(c):
    return c
