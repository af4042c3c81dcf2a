"""Lifetimes in public reader signatures (from the type-checked program)."""
import re


def self_tied(sig):
    """Does the value returned by this method borrow from the `&self` borrow itself?"""
    if " -> " not in sig:
        return None
    head, ret = sig.rsplit(" -> ", 1)
    lf = set(re.findall(r"'[a-z_]\w*", ret))
    m = re.search(r"fn\(&('\w+) ", head)
    if not lf and "&" not in ret:
        return None
    return bool(m and m.group(1) in lf)


def api(P):
    for k, f in P.fns.items():
        if f.get("reach") and f["mod"].startswith("read") and "sig" in f:
            t = self_tied(f["sig"])
            if t is not None:
                yield k, f, t
