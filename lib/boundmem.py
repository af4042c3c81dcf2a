"""C02: what an allocation size may be bounded by (used as hooks of the abstract interpreter)."""
import re
import dom, facts
from dom import lc, lt, lsub, ladd, laddc, TRef

LENCALL = re.compile(r"Read(Ref|CacheOps)(<.*>)?::len$")
BIG = 4 << 20      # bytes: a constant amount of this size may always be allocated


def lens_in(ip, st):
    """linear forms of lengths of data that exists in this state"""
    out, seen = [], set()

    def add(l):
        if l not in seen:
            seen.add(l)
            out.append(l)

    def walk(v, d=0):
        if not isinstance(v, tuple) or d > 6:
            return
        if v and v[0] == "L" and len(v) >= 5:
            add(v[3])
        elif v and v[0] == "V" and len(v) >= 4:
            add(v[2])
        for x in v:
            if isinstance(x, tuple):
                walk(x, d + 1)
    for r, v in st.mem.items():
        walk(v)
    for parts in st.facts:
        for t, _ in parts:
            op = ip.TM.ops[t]
            if is_data_len(ip, t):
                add(lt(t))
    return out


def is_data_len(ip, t):
    op = ip.TM.ops[t]
    if op[0] in ("len", "rlen", "datalen") or t in ip.lenterms:
        return True
    if op[0] in ("vf", "fld"):
        b = int(op[1])
        if b in ip.lenterms:
            return True
        o = ip.TM.ops[b]
        # Ok(n) of a call of ReadRef::len or ReadCacheOps::len
        return op[0] == "vf" and o[0] in ("call", "res") and isinstance(o[1], str) and LENCALL.search(o[1]) is not None
    return False


def bounded(ip, st, n, esize):
    """is the linear form n at most a constant amount, or the length of existing data?"""
    D = ip.D
    u = D.ub(st, n, 0, 4)
    if u * max(esize or 1, 1) <= BIG:
        return "constant %d" % max(u, 0)
    # n itself is made of lengths
    if n[1] and all(is_data_len(ip, t) and c <= 64 or c < 0 and D.lo(st, t) >= 0 for t, c in n[1]):
        return "length of data"
    for l in lens_in(ip, st):
        if not l[1]:
            continue
        # n <= l + 64
        d = laddc(lsub(n, l), -64)
        if D.le(st, d):
            # the length itself must be a length of data, not a number: a slice exists only where data does
            return "length of data"
    return None
