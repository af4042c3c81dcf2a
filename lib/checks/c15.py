"""C15: the space and positions that the writers reserve are the ones they use."""
import facts, emitcheck
from checks.c16 import space
from report import Report

SINK = ("WritableBuffer", "Encoder::", "Writer::write", "Writer::offset")


def choose(k, f, q):
    if not f["file"].startswith("src/write"):
        return False
    if space(k, q):
        return True
    return "presence" if q.startswith(SINK) else False


def run(pid):
    R = Report(pid)
    P = facts.load()
    fns, n, und = emitcheck.decide(R, P, choose)
    R.floor("functions compared", fns, 200)
    R.floor("values compared", n, 2000)
    R.assumptions = ["tables/emitted.json states the size, alignment and condition of each reservation and which parts each function emits under which condition; it was derived from this source and reviewed",
                     "that the order in which a caller invokes the reserve and the write functions is the same is decided for the unified object writer by the table's conditions only"]
    R.finish("every reservation (size, alignment, count) of src/write and every emission's condition is evaluated symbolically from MIR, also at the boundary values of the function's own conditions and for both widths, and must be the reviewed one", functions=fns, values=n, undecided=len(und), undecided_list=und[:60])
