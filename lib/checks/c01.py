"""C01: no reading function panics, whatever the input bytes."""
import os, json
import facts, panics, finv
from report import Report


def run(pid):
    R = Report(pid)
    P = facts.load()
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    log = []
    inv = finv.infer(P, secs=20 if thorough else 10, rounds=3 if thorough else 2, log=log)
    P, out = panics.run(P=P, inv=inv, secs=60 if thorough else 25)
    resid = json.load(open(os.path.join(facts.VERIF, "tables", "c01_residual.json")))
    sites = {}
    undecided = []
    for o in out:
        if o["err"]:
            undecided.append((o["def"], o["err"].strip().split("\n")[-1][:120]))
        for (fn, b, kind), (good, det, stack) in o["events"].items():
            s = sites.setdefault((fn, b, kind), [True, None, None, None])
            if not good and (s[0] or len(stack) < len(s[2])):
                s[0], s[1], s[2], s[3] = False, det, stack, o["def"]
    use = {}
    for (fn, b, kind), (good, det, stack, root) in sorted(sites.items()):
        if good:
            R.oblige(True, "", "", sample="%s in %s cannot fail" % (kind, facts.simple(fn)))
            continue
        names = [facts.simple(x) for x in tuple(stack) + (fn,)]
        hit = None
        for i, r in enumerate(resid):
            if r["kind"] == kind and any(r["fn"] in x for x in names) and use.get(i, 0) < r["max"]:
                hit = i
                break
        if hit is not None:
            use[hit] = use.get(hit, 0) + 1
            continue
        f = P.fns.get(fn)
        line = f["blocks"][b]["t"].get("l", f["line"]) if f else 0
        R.oblige(False, "panic:%s:%s" % (facts.simple(fn), kind), "%s:%s: %s may panic (%s): cannot show %s; reached from %s via %s" % (
            f["file"] if f else "?", line, facts.simple(fn), kind, det, facts.simple(root), " -> ".join(names[:-1])))
    R.floor("entry points analysed", len(out) - len(undecided), 1500)
    R.floor("panic sites decided", len(sites), 330)
    R.assumptions = ["64-bit usize; slices are at most isize::MAX bytes", "trait methods implemented outside the crate (ReadRef, ReadCacheOps) keep their documented contracts",
                     "wasmparser, flate2, ruzstd and std do not panic on their documented input"] + ["argued by hand, not derived: %s %s: %s" % (r["fn"], r["kind"], r["why"]) for r in resid]
    R.finish("Every assertion the compiler inserts (index, overflow, division, shift) and every call of a panicking library function that a public reading function can reach is an obligation, discharged by abstract interpretation of the MIR (linear inequalities, inferred private-field invariants, inlining, models of std) for arbitrary arguments.",
             field_invariants=len(inv), undecided_roots=undecided[:20], residual_sites=sum(use.values()), tiers={str(k): sum(1 for o in out if o["tier"] == k) for k in range(4)})
