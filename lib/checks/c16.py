"""C16: what the writers put into each field is the caller's value for that field."""
import facts, emitcheck
from report import Report


def space(k, q):
    """is this entry about the space reserved and the positions (C15)?"""
    n = k.split("::")[-1]
    c = q.split("(")[0].split("::")[-1]
    return n.startswith("reserve") or n == "size" or n.endswith("_size") or c.startswith(("reserve", "align", "write_align", "count", "resize"))


def choose(k, f, q):
    return f["file"].startswith("src/write") and not space(k, q)


def run(pid):
    R = Report(pid)
    P = facts.load()
    fns, n, und = emitcheck.decide(R, P, choose)
    R.floor("functions compared", fns, 200)
    R.floor("values compared", n, 2500)
    R.assumptions = ["tables/emitted.json states what each field is made from; it was derived from this source and reviewed (fields made from a value of another name are listed in DESIGN.md)"]
    R.finish("every function of src/write is followed symbolically from MIR; each field of each structure it emits, passes on or returns must be made from the reviewed value, also when the function's own conditions are fixed",
             functions=fns, values=n, undecided=len(und), undecided_list=und[:60])
