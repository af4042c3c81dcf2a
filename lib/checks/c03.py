"""C03: every reader loop and iterator makes progress and ends."""
import os, json
import facts, panics, finv, rank, callgraph, absint
from report import Report


def hooks(ip, res):
    P = ip.P

    def lh(ip, fr, el, H, back):
        if not back:
            return
        try:
            used, rem = rank.lexicographic(ip, rank.loop_transitions(ip, H, back))
            det = "measure %s, %d of %d back edges undecided" % ([str(u)[:60] for u in used], len(rem), len(back))
        except RecursionError:
            rem, det = [0], "recursion"
        ip.events.append((fr.f["def"], el[0], "loop", not rem, det, True, fr.stack))

    def rh(ip, f, env, args, outs):
        if not rank.is_iterator_next(P, f):
            return
        ok, used, rem, _ = rank.prove_next(ip, f, env, args, outs)
        if not ok and rank.stack_turns(ip, rem):
            ip.events.append((f["def"], -1, "stack", True, "", True, ()))
        ip.events.append((f["def"], -1, "iter", ok, "measure %s, %d of the ways to return an item undecided" % ([str(u)[:60] for u in used], len(rem or ())), True, ()))
    ip.loop_hook = lh
    ip.root_hook = rh


def reach_without(f, removed, goals):
    """can a goal block be reached from the entry without passing a removed block?"""
    info = absint.FnInfo(f)
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in removed:
            continue
        seen.add(b)
        if b in goals:
            return True
        work += info.succ[b]
    return False


def stack_walk(P, d):
    """depth-first walk with an explicit stack: every push happens after the frame on top was
    advanced (or a first-time flag cleared) and after the stack was searched for the new entry"""
    cg = callgraph.CallGraph(P)
    group = {d}
    work = [d]
    while work:
        for x in cg.edges[work.pop()]:
            if x not in group and P.fns[x].get("impl_self") == P.fns[d].get("impl_self"):
                group.add(x)
                work.append(x)
    pushers, frames = {}, set()
    for g in group:
        for i, b in enumerate(P.fns[g]["blocks"]):
            fn = callgraph.callee(b["t"]) if b["t"]["k"] == "call" else None
            if fn is not None and facts.simple(fn["def"]).endswith("Vec::push"):
                t = P.types[fn["args"][0]]
                if t["k"] == "adt" and t["def"] in P.adts:
                    pushers.setdefault(g, set()).add(i)
                    frames.add(t["def"])
    if not pushers:
        return False
    done = set()
    work = list(pushers)
    bad = set()
    while work:
        g = work.pop()
        f = P.fns[g]
        prog, scan = set(), set()
        for i, b in enumerate(f["blocks"]):
            for s in b["s"]:
                if s[0] != "=" or isinstance(s[1], int) or len(s[1]) < 3:
                    continue
                if s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("v") == 0 and P.types[s[1][2]]["k"] == "bool":
                    prog.add(i)
                    scan.add(i)
                base = P.types[f["locals"][s[1][0]]]
                if base["k"] == "ref" and P.types[base["to"]].get("def") in frames and len(s[1][1]) >= 2:
                    prog.add(i)
            fn = callgraph.callee(b["t"]) if b["t"]["k"] == "call" else None
            if fn is not None:
                nm = facts.simple(fn["def"]).rsplit("::", 1)[-1]
                tx = " ".join(P.types[x]["s"] for x in fn["args"] if isinstance(x, int))
                if nm in ("any", "all", "find", "position", "contains", "next", "find_map", "fold", "try_fold") and any("<" in tx and fr.rsplit("::", 1)[-1] in tx for fr in frames):
                    scan.add(i)
        goals = pushers[g]
        if reach_without(f, prog, goals) or reach_without(f, scan, goals):
            if g == d:
                bad.add(g)
            for h in group:
                for i, b in enumerate(P.fns[h]["blocks"]):
                    fn = callgraph.callee(b["t"]) if b["t"]["k"] == "call" else None
                    if fn is not None and g in cg.callees_of_fn(fn) and i not in pushers.get(h, ()):
                        pushers.setdefault(h, set()).add(i)
                        work.append(h)
    return not bad


def run(pid):
    R = Report(pid)
    P = facts.load()
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    inv = finv.infer(P, secs=20 if thorough else 10, rounds=3 if thorough else 2)
    nexts = {d for d, f in P.fns.items() if panics.in_scope(f) and rank.is_iterator_next(P, f)}
    nb = panics.never_built(P)
    pub = {d for d, f in P.fns.items() if panics.is_root(f) and not any(x in nb for x in panics.receiver_types(P, f))}
    secs = 120 if thorough else 40
    kinds = {"loop", "iter"}
    P, out = panics.run(P=P, inv=inv, secs=secs, hooks=hooks, roots=sorted(pub | nexts), only=kinds, opaque=lambda g: g["def"] in nexts)
    # private `next` functions that are not iterators on their own (the caller ends them): look through them
    failed = {o["def"] for o in out if not o["events"].get((o["def"], -1, "iter"), (True,))[0]}
    walked = {o["def"] for o in out if o["def"] in failed and stack_walk(P, o["def"])}
    priv = {d for d in nexts - pub - walked if any(o["def"] == d and not o["events"].get((d, -1, "iter"), (False,))[0] for o in out)}
    again = set()
    if priv:
        cg = callgraph.CallGraph(P)
        work = list(priv)
        while work:
            p = work.pop()
            for d in pub | nexts:
                if d not in again and d not in priv and p in cg.edges.get(d, ()):
                    again.add(d)
            # private helpers in between
            for d, es in cg.edges.items():
                if p in es and d not in pub | nexts and d not in again:
                    again.add(d)
                    work.append(d)
        again &= pub | nexts
        _, out2 = panics.run(P=P, inv=inv, secs=secs, hooks=hooks, roots=sorted(again), only=kinds, opaque=lambda g: g["def"] in nexts and g["def"] not in priv)
        out = [o for o in out if o["def"] not in again and o["def"] not in priv] + out2
    resid = json.load(open(os.path.join(facts.VERIF, "tables", "c03_residual.json")))
    sites = {}
    undecided = []
    for o in out:
        if o["err"]:
            undecided.append((o["def"], o["err"].strip().split("\n")[-1][:120]))
        for (fn, b, kind), (good, det, stack) in o["events"].items():
            if kind not in kinds:
                continue
            s = sites.setdefault((fn, b, kind), [True, det, None, None])
            if not good and (s[0] or len(stack) < len(s[2])):
                s[0], s[1], s[2], s[3] = False, det, stack, o["def"]
    use = {}
    nl = ni = 0
    for (fn, b, kind), (good, det, stack, root) in sorted(sites.items()):
        nl += kind == "loop"
        ni += kind == "iter"
        if good:
            R.oblige(True, "", "", sample="%s %s: %s" % (kind, facts.simple(fn), det))
            continue
        f = P.fns.get(fn)
        if fn in walked and kind == "iter":
            R.oblige(True, "", "", sample="iter %s: depth-first walk: every push follows progress of the frame on top and a search of the stack" % facts.simple(fn))
            continue
        hit = None
        for i, r in enumerate(resid):
            if r["kind"] == kind and r["fn"] in facts.simple(fn) and use.get(i, 0) < r["max"]:
                hit = i
                break
        if hit is not None:
            use[hit] = use.get(hit, 0) + 1
            continue
        line = f["blocks"][b]["t"].get("l", f["line"]) if b >= 0 else f["line"]
        what = "a loop may not end" if kind == "loop" else "repeated calls may report items or errors without end"
        R.oblige(False, "%s:%s" % (kind, facts.simple(fn)), "%s:%s: %s: %s: no measure decreases (%s); analysed from %s" % (f["file"], line, facts.simple(fn), what, det, facts.simple(root)))
    R.floor("loops decided", nl, 60)
    R.floor("iterators decided", ni, 90)
    R.assumptions = ["iterators of std and of wasmparser end", "a ReadRef returns the same length for the same source"] + \
        ["argued by hand, not derived: %s %s: %s" % (r["kind"], r["fn"], r["why"]) for r in resid]
    R.finish("Every loop in the reader's MIR (any cycle of the control-flow graph, found by a weak topological order) and every `next` method of a reader iterator is an obligation: a lexicographic measure over slice lengths, remaining ranges, counters with a proved bound, flags, enum states and inner iterators must decrease on every turn, or on every call that returns an item or an error. Transitions and their relations come from abstract interpretation of the MIR with arbitrary arguments.",
             undecided_roots=undecided[:20], residual_sites=sum(use.values()), looked_through=sorted(facts.simple(x) for x in priv))
