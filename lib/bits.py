"""Which bits of which stored field a value consists of.

A value expression (summ.Expr) is evaluated in the domain "every output bit is 0, 1, a
definite bit of a definite source, or unknown".  Two ways of writing the same extraction
(shift/mask, division/remainder, multiplication, casts, byte arrays) give the same bits."""
import re
import summ

IW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def strip(e, P=None):
    """single-field wrappers do not matter"""
    if isinstance(e, tuple):
        if e[:1] == ("struct",) and len(e) == 3:
            return strip(e[2])
        if e[:1] == ("fld",) and e[2] == "0" and e[1][:1] != ("call",):
            return strip(e[1])
        return tuple(strip(x) for x in e)
    return e


class Bits:
    def __init__(self, width, signed, src=None):
        self.width, self.signed = width, signed     # {leaf expr: bits}
        self.src = src or (lambda e: None)

    def leaf(self, e):
        if e[0] == "call":
            m = re.search(r"::read_([ui])(\d+)$", e[1])
            if m and e[1].startswith("endian::"):
                w = int(m.group(2))
                return [(e, i) for i in range(w)], m.group(1) == "i"
        w = self.width.get(e)
        if w:
            return [(e, i) for i in range(w)], self.signed.get(e, False)
        return None

    def ext(self, r, w):
        b, s = r
        b = list(b[:w])
        while len(b) < w:
            b.append(b[-1] if s and b else 0)
        return b

    def ev(self, e, d=0):
        """(bits, signed) or None"""
        if d > 30 or not isinstance(e, tuple) or not e:
            return None
        k = e[0]
        if k == "int":
            v = e[1]
            n = 128
            return [(v >> i) & 1 for i in range(n)], v < 0
        if k in ("sum", "lin"):
            parts = e[2:] if k == "sum" else [(c, t) for t, c in e[2]]
            acc = None
            neg = False
            for c, t in parts:
                x = self.ev(t, d + 1)
                if x is None or c <= 0 or c & (c - 1):
                    return None
                sh = c.bit_length() - 1
                b = [0] * sh + self.ext(x, 128 - sh)
                neg = neg or (x[1] and x[0] and x[0][-1] != 0)
                acc = b if acc is None else self.disj(acc, b)
                if acc is None:
                    return None
            if acc is None:
                return self.ev(("int", e[1]))
            if e[1]:
                acc = self.disj(acc, [(e[1] >> i) & 1 for i in range(128)])
                if acc is None:
                    return None
            return acc, neg
        if k in ("and", "or", "xor"):
            x, y = self.ev(e[1], d + 1), self.ev(e[2], d + 1)
            if x is None and y is None:
                return None
            # an unknown operand masked by constants
            xb = self.ext(x, 128) if x else [None] * 128
            yb = self.ext(y, 128) if y else [None] * 128
            out = []
            for p, q in zip(xb, yb):
                if k == "and":
                    r = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None
                elif k == "or":
                    r = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None
                else:
                    r = q if p == 0 else p if q == 0 else (0 if p == q and p is not None else None)
                out.append(r)
            return out, False
        if k == "shr":
            x = self.ev(e[1], d + 1)
            if x is None or not isinstance(e[2], int):
                return None
            return x[0][e[2]:] or [0], x[1]
        if k == "shrv":
            c = self.const(e[2])
            x = self.ev(e[1], d + 1)
            if c is None or x is None:
                return None
            return x[0][c:] or [0], x[1]
        if k == "shl":
            c = self.const(e[3])
            x = self.ev(e[2], d + 1)
            if c is None or x is None:
                return None
            w = IW.get(e[1], 128)
            return ([0] * c + self.ext(x, 128))[:w], e[1].startswith("i")
        if k in ("div", "rem"):
            c = self.const(e[2])
            x = self.ev(e[1], d + 1)
            if c is None or x is None or c <= 0 or c & (c - 1) or x[1]:
                return None
            n = c.bit_length() - 1
            return (x[0][n:] or [0], False) if k == "div" else (x[0][:n] or [0], False)
        if k in ("cast", "wrap"):
            x = self.ev(e[2], d + 1)
            w = IW.get(e[1])
            if x is None or w is None:
                return None
            return self.ext(x, w), e[1].startswith("i")
        if k == "bool":
            return [int(e[1])], False
        if k == "b2i":
            return None
        m = re.search(r"::num::(from_be_bytes|from_le_bytes|from_ne_bytes|from_be|from_le|to_be|to_le|swap_bytes)$", e[1]) if k == "call" and len(e) == 3 else None
        if m:
            w = self.width.get(e)
            o = m.group(1)
            if w is None:
                return None
            if o.endswith("_bytes") and o != "swap_bytes":
                x = self.array(e[2], w // 8)
            else:
                x = self.ev(e[2], d + 1)
                x = x and self.ext(x, w)
            if x is None:
                return None
            if o in ("from_be_bytes", "from_be", "to_be", "swap_bytes"):
                x = [x[(w // 8 - 1 - i // 8) * 8 + i % 8] for i in range(w)]
            return x, self.signed.get(e, False)
        l = self.leaf(e)
        return l

    def array(self, e, n):
        """bits of an n-byte array, first byte lowest"""
        if e[0] == "arrof":
            e = e[1]
        off = 0
        if e[0] == "slice":
            a, b = self.const(e[2]), self.const(e[3])
            if a is None or b != n:
                return None
            off, e = a, e[1]
            if e[0] == "aslice":
                e = e[1]
        m = re.search(r"::num::to_(be|le|ne)_bytes$", e[1]) if e[0] == "call" else None
        if m and off == 0:
            x = self.ev(e[2])
            if x is None:
                return None
            x = self.ext(x, 8 * n)
            if m.group(1) == "be":
                x = [x[(n - 1 - i // 8) * 8 + i % 8] for i in range(8 * n)]
            return x
        if e[0] not in ("fld", "param"):
            return None
        return [((e, "bytes"), 8 * off + i) for i in range(8 * n)]

    def const(self, e):
        x = self.ev(e)
        if x is None:
            return None
        v = 0
        for i, b in enumerate(x[0]):
            if b == 1:
                v |= 1 << i
            elif b != 0:
                return None
        if x[1] and x[0] and x[0][-1] == 1:
            v -= 1 << len(x[0])
        return v

    def disj(self, a, b):
        out = []
        for p, q in zip(a, b):
            if p == 0:
                out.append(q)
            elif q == 0:
                out.append(p)
            else:
                return None
        return out

    # ---- printing
    def lin(self, e):
        """text of a linear form"""
        parts = e[2:] if e[0] == "sum" else [(c, t) for t, c in e[2]]
        c = e[1]
        out = []
        for k, t in parts:
            x = self.text(t) or self.other(t)
            out.append((x, k))
        out.sort()
        s = ""
        for x, k in out:
            s += (" + " if k > 0 else " - ") if s else ("" if k > 0 else "-")
            s += (x if abs(k) == 1 else "%d*%s" % (abs(k), x))
        if c or not s:
            s += (" + %d" % c if c > 0 else " - %d" % -c) if s else str(c)
        return s

    def at(self, e):
        """(data range, offset) a pointer into the file data points to"""
        while isinstance(e, tuple) and e and e[0] == "call" and e[1].endswith("::cast") and len(e) == 3:
            e = e[2]
        if isinstance(e, tuple) and e and e[0] == "ptr" and len(e) == 3 and e[1][0] == "data":
            return e[1], e[2]
        return None, None

    def plus(self, a, b):
        if self.const(b) == 0:
            return self.other(a)
        return "%s+%s" % (self.other(a), self.other(b))

    def other(self, e):
        """text of any expression"""
        if not isinstance(e, tuple) or not e:
            return str(e)
        t = self.text(e)
        if t is not None:
            return t
        return self.gen(e)

    def gen(self, e):
        if not isinstance(e, tuple) or not e:
            return str(e)
        n = self.src(e)
        if n is not None:
            return n
        k = e[0]
        if k in ("eq", "ne", "le", "not", "bool"):
            c = self.cond(e)
            if c is not None:
                return c
        if k in ("sum", "lin"):
            return self.lin(e)
        if k == "var":
            return "%s(%s)" % (e[1] if isinstance(e[1], str) else "v%d" % e[1], ", ".join(self.other(y) for y in e[2:]))
        if k == "struct":
            n = e[1].split("::")[-1]
            return "%s{%s}" % ("" if n == "tuple" else n, ", ".join(self.other(y) for y in e[2:]))
        if k == "data":
            return "%s[%s; %s]" % (self.other(e[1]), self.other(e[2]), self.other(e[3]))
        if k == "slice" and len(e) == 4:
            b, o, n = e[1:]
            if b[0] == "data" and self.const(o) == 0 and n == b[3]:
                return self.other(b)
            if b[0] == "raw" and self.const(o) == 0:
                x, off = self.at(b[1])
                if x is not None:
                    return "%s[%s; n=%s]" % (self.other(x[1]), self.plus(x[2], off), self.other(n))
            if b[0] == "str":
                return "str"
            if b[0] == "aref" and self.const(o) == 0 and self.const(n) == len(b[1]):
                return self.gen(b)
        if k == "aref" and isinstance(e[1], tuple) and all(isinstance(y, tuple) for y in e[1]):
            vs = [self.const(y) for y in e[1]]
            if vs and all(isinstance(v, int) and 0 <= v < 256 for v in vs):
                return "b'%s'" % "".join(chr(v) if 32 <= v < 127 and v not in (39, 92) else "\\x%02x" % v for v in vs)
            return "[%s]" % ", ".join(self.other(y) for y in e[1])
        if k == "elem" and len(e) == 3:
            return "%s[%s]" % (self.other(e[1]), self.other(e[2]))
        if k in ("call", "ptr", "raw"):
            x = e
            while isinstance(x, tuple) and x and (x[0] == "raw" or x[0] == "call" and x[1].endswith("::cast") and len(x) == 3 or x[0] == "ptr" and len(x) == 3 and self.const(x[2]) == 0):
                x = x[2] if x[0] == "call" else x[1]
            if x is not e and isinstance(x, tuple) and x and x[0] == "aref" and len(x[1]) == 1:
                return self.other(x[1][0])
        if k in ("call", "ptr"):
            x, off = self.at(e)
            if x is not None:
                return "%s[%s]" % (self.other(x[1]), self.plus(x[2], off))
        if k == "mul":
            return "*".join(sorted(self.other(y) for y in e[1:]))
        if k == "fld":
            return "%s.%s" % (self.other(e[1]), e[2])
        if k == "call":
            q = e[1].split("::")
            return "%s(%s)" % ("::".join(q[-2:]), ", ".join(self.other(y) if isinstance(y, tuple) else str(y) for y in e[2:]))
        if k in ("cast", "wrap"):
            return "%s as %s" % (self.other(e[2]), e[1])
        if k == "param":
            return "p%d" % e[1]
        if k == "vf":
            return "%s.v%s.%s" % (self.other(e[1]), e[2], e[3])
        return "%s(%s)" % (k, ", ".join(self.other(y) if isinstance(y, tuple) else str(y) for y in e[1:]))

    def text(self, e):
        """canonical text of an integer expression, or None"""
        x = self.ev(e)
        if x is None:
            return None
        b, s = list(x[0]), x[1]
        # sign extension of the top bit carries no information
        sx = False
        if s and b and b[-1] not in (0, 1, None):
            while len(b) > 1 and b[-2] == b[-1]:
                b.pop()
                sx = True
            sx = True
        while b and b[-1] == 0:
            b.pop()
        if None in b:
            return None
        segs = []
        i = 0
        while i < len(b):
            if b[i] in (0, 1):
                j = i
                v = 0
                while j < len(b) and b[j] in (0, 1):
                    v |= b[j] << (j - i)
                    j += 1
                if v or True:
                    segs.append("%d'%#x" % (j - i, v) if (i or j < len(b)) else str(v))
                i = j
                continue
            src, lo = b[i]
            j = i
            while j < len(b) and isinstance(b[j], tuple) and b[j][0] == src and b[j][1] == lo + (j - i):
                j += 1
            if src[-1] == "bytes":
                segs.append("%s.bytes[%d:%d]" % (self.gen(src[0]), lo, lo + j - i))
                i = j
                continue
            w = len(self.leaf(src)[0])
            nm = self.gen(src)
            segs.append(nm if lo == 0 and j - i == w else "%s[%d:%d]" % (nm, lo, lo + j - i))
            i = j
        if not segs:
            return "0"
        return (":".join(segs)) + ("s" if sx else "")

    def cond(self, e, neg=False):
        """canonical text of a condition"""
        if e[0] == "bool":
            return str(e[1] != neg)
        if e[0] == "not":
            return self.cond(e[1], not neg)
        if e[0] in ("and", "or") and all(isinstance(x, tuple) and x and x[0] in ("eq", "ne", "le", "and", "or", "not", "bool", "cond") for x in e[1:3]):
            op = e[0] if not neg else ("or" if e[0] == "and" else "and")
            a, b = self.cond(e[1], neg), self.cond(e[2], neg)
            if a is None or b is None:
                return None
            return "(%s)" % ((" %s " % op).join(sorted((a, b))))
        if e[0] in ("eq", "ne"):
            l = e[1]
            c = 0
            if l[0] == "sum":
                c, parts = -l[1], l[2:]
                if len(parts) == 1 and abs(parts[0][0]) == 1:
                    l = parts[0][1]
                    c = c * parts[0][0]
                else:
                    l = ("sum", 0) + parts
            eq = (e[0] == "eq") != neg
            x = self.ev(l)
            if x is None:
                return None
            nz = [b for b in x[0] if b != 0]
            if len(set(nz)) == 1 and isinstance(nz[0], tuple) and len([1 for b in x[0] if b != 0]) == 1:
                pos = x[0].index(nz[0])
                if c == 0 or c == 1 << pos:
                    want = (c != 0) == eq
                    s, i = nz[0]
                    return "%s%s[%d]" % ("" if want else "!", self.gen(s), i)
            t = self.text(l)
            return None if t is None else "%s%s%#x" % (t, "==" if eq else "!=", c)
        if e[0] == "le" and e[1][0] == "sum" and len(e[1][2:]) == 1:
            # c + k*x <= 0
            c, (k, t) = e[1][1], e[1][2]
            s = self.text(t)
            if s is None or abs(k) != 1:
                return None
            # x <= -c   or   x >= c
            if (k == 1) != neg:
                n = -c if not neg else c - 1
                if neg:
                    n = c - 1          # not (c - x <= 0)  <=>  x <= c-1
                return self.small(t, s, n)
            n = c if not neg else -c + 1   # x >= c ; not (x <= -c) <=> x >= -c+1
            r = self.small(t, s, n - 1)
            if r is None:
                return None
            return "!(%s)" % r
        return None

    def small(self, t, s, n):
        x = self.ev(t)
        if x and x[1] and n == -1 and isinstance(x[0][-1], tuple):
            return "%s[%d]" % (self.gen(x[0][-1][0]), x[0][-1][1])
        return "%s<=%#x" % (s, n)
