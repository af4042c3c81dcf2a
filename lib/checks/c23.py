"""C23: what the builders read from a file and write back is stored in, and comes from, the field of that name."""
import facts, emitcheck
from report import Report


def choose(k, f, q):
    return f["file"].startswith("src/build")


def run(pid):
    R = Report(pid)
    P = facts.load()
    fns, n, und = emitcheck.decide(R, P, choose)
    R.floor("functions compared", fns, 60)
    R.floor("values compared", n, 300)
    R.assumptions = ["tables/emitted.json states what each field of each structure built, changed or passed on by src/build is made from; it was derived from this source and reviewed",
                     "that section, symbol and string indices computed in loops are the right ones is decided only by the stored fields they are made of"]
    R.finish("every function of src/build is followed symbolically from MIR; each field of each structure it builds, changes, emits or returns must be made from the reviewed value, also when the function's own conditions are fixed",
             functions=fns, values=n, undecided=len(und), undecided_list=und[:60])
