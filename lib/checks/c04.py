"""C04: call depth while reading does not depend on the input."""
import re
import facts, callgraph, absint
from callgraph import type_mentions
from report import Report


def reader_roots(P):
    return [d for d, f in P.fns.items() if f["file"].startswith("src/read/") and f.get("reach")]


def closure_of(G, roots):
    seen = set(roots)
    todo = list(roots)
    while todo:
        for x in G.edges[todo.pop()]:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def adt_graph(P):
    E = {}
    for d, a in P.adts.items():
        if not a["local"]:
            continue
        out = set()
        for v in a["variants"]:
            for f in v["f"]:
                acc = set()
                type_mentions(P, f["t"], acc, set())
                # a shared reference is not owned: dropping or cloning it does not recurse
                out |= {x for k, x in acc if k == "adt" and x in P.adts and P.adts[x]["local"]}
        E[d] = out
    return E


def owned_cycles(P):
    E = {}
    for d, a in P.adts.items():
        if not a["local"] or not a["file"].startswith(("src/read/", "src/common", "src/endian")):
            continue
        out = set()

        def own(t, seen):
            if t in seen:
                return
            seen.add(t)
            ty = P.types[t]
            if ty["k"] == "adt":
                if ty["def"] in P.adts and P.adts[ty["def"]]["local"]:
                    out.add(ty["def"])
                for x in callgraph.targs(ty["args"]):
                    own(x, seen)
            elif ty["k"] in ("slice", "array"):
                own(ty["of"], seen)
            elif ty["k"] in ("ref", "ptr"):
                own(ty["to"], seen)
            elif ty["k"] == "tuple":
                for x in ty["of"]:
                    own(x, seen)
        for v in a["variants"]:
            for f in v["f"]:
                own(f["t"], set())
        E[d] = out
    bad = []
    for d in E:
        seen, todo = set(), list(E[d])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(E.get(x, ()))
        if d in seen:
            bad.append(d)
    return E, sorted(bad)


def run(pid):
    R = Report(pid)
    P = facts.load()
    G = callgraph.CallGraph(P)
    roots = reader_roots(P)
    nodes = closure_of(G, roots)
    sccs = G.sccs(nodes)
    edges = sum(len([x for x in G.edges[d] if x in nodes]) for d in nodes)
    rec = set()
    for c in sccs:
        rec |= set(c)
    for d in sorted(nodes - rec):
        R.oblige(True, "", "")
    bounded = []
    for c in sccs:
        names = ", ".join(c[:4])
        f = P.fns[c[0]]
        # bounded recursion: no path re-enters the cycle a second time
        deep = []
        for d in c:
            if P.fns[d]["kind"] == "Closure":
                deep.append("a closure takes part in the cycle")
                continue
            ip = absint.Interp(P)
            ip.TRACES = 4
            import time
            ip.t_end = time.time() + 60
            try:
                ip.analyse(P.fns[d], {})
            except absint.Budget as e:
                deep.append("not bounded within budget")
                continue
            deep += sorted({"%s:%d re-enters %s" % (P.fns[e[0]]["file"], P.fns[e[0]]["blocks"][e[1]]["t"].get("l", 0), e[4]) for e in ip.events if e[2] == "depth" and not e[3]})
        for d in c:
            R.oblige(not deep, "recursion:" + d, "%s:%d: %s takes part in a call cycle (%s) that is not bounded: %s" % (P.fns[d]["file"], P.fns[d]["line"], d, names, "; ".join(deep[:3])), sample="cycle %s: at most one re-entry on every path" % names)
        if not deep:
            bounded.append(c)
    E, bad = owned_cycles(P)
    for d in E:
        R.oblige(d not in bad, "type:" + d, "%s:%d: type %s contains itself, so dropping, cloning or printing a value recurses as deep as the input nests" % (P.adts[d]["file"], P.adts[d]["line"], d))
    R.floor("functions", len(nodes), 2500)
    R.finish("Every function reachable from a public reader function is a node of the resolved call graph (trait calls go to every local impl; closures and function values count as called where they are created; std adapters call back into local Iterator impls). A cycle is a violation unless abstract interpretation shows that no path re-enters it a second time. No owned data type of the reader contains itself.",
             entry_points=len(roots), call_edges=edges, cycles=len(sccs), bounded_cycles=len(bounded), types=len(E))
