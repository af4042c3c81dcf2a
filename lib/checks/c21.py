"""C21: parsed data borrows the input, not the parser; parsers are thread-safe."""
import os, re, glob, json, subprocess
import facts, lifetimes
from report import Report

WIT = os.path.join(facts.VERIF, "witness")
BAD_ADTS = {"core::cell::UnsafeCell", "core::cell::Cell", "core::cell::RefCell", "core::cell::OnceCell", "alloc::rc::Rc", "alloc::rc::Weak"}


def interior(P, tid, seen):
    """First non-shareable constituent of a type, as (path, what)."""
    if tid in seen:
        return None
    seen.add(tid)
    t = P.types[tid]
    k = t["k"]
    if k == "adt":
        d = t["def"]
        if d in BAD_ADTS:
            return ([], d)
        a = P.adts.get(d)
        for x in t.get("args", []):
            if isinstance(x, int):
                r = interior(P, x, seen)
                if r:
                    return r
        if a and a.get("local"):
            if "read_cache" in d:
                return None
            for v in a["variants"]:
                for f in v["f"]:
                    r = interior(P, f["t"], seen)
                    if r:
                        return ([f["n"]] + r[0], r[1])
        return None
    if k == "ptr":
        return ([], "raw pointer")
    if k == "dyn":
        s = t["s"]
        return None if "Send" in s and "Sync" in s else ([], s)
    subs = t.get("of", t.get("to", []))
    for x in subs if isinstance(subs, list) else [subs]:
        r = interior(P, x, seen)
        if r:
            return r
    return None


def run(pid):
    R = Report(pid)
    tgt = os.path.join(facts.BUILD, "witness")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    # compile-pass witnesses
    P = facts.load()      # also establishes that the crate itself type-checks
    # a build script or a stale build must not decide: find the metadata cargo reports for this build
    rc, out = facts._run(["cargo", "+stable", "check", "--offline", "--message-format=json"], env=env, cwd=WIT)
    rmeta, errs = None, []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "object":
            rmeta = [x for x in m["filenames"] if x.endswith(".rmeta")][0]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == "witness":
            msg = m["message"]
            sp = [s for s in msg["spans"] if s["is_primary"]]
            line = sp[0]["text"][0]["text"].strip() if sp and sp[0]["text"] else ""
            at = "witness/src/lib.rs:%d" % sp[0]["line_start"] if sp else "witness"
            if msg["code"]:
                errs.append((msg["code"]["code"], at, line, msg["message"]))
    if rmeta is None:
        raise facts.CheckError("building the library for the witnesses failed:\n" + out[-3000:])
    # only borrow and trait-bound errors are about this property; anything else is an API the witness does not know
    REL = {"E0277", "E0505", "E0597", "E0515", "E0499", "E0502", "E0506", "E0716", "E0621", "E0310", "E0309", "E0521", "E0713"}
    rel = [e for e in errs if e[0] in REL]
    if not rc:
        R.oblige(True, "witness", "", sample="witness/src/lib.rs compiles: Send + Sync of public reader types, data outlives the parsed file")
    for e in rel:
        R.oblige(False, "witness:%s:%s" % (e[0], e[2]), "%s `%s` does not type-check any more: %s (%s)" % (e[1], e[2], e[3], e[0]))
    # lifetime errors ("lifetime may not live long enough") have no code
    if rc and not rel:
        lt = re.findall(r'"rendered":"(error: lifetime may not live long enough.*?)"', out)
        if lt:
            R.oblige(False, "witness:lifetime", "a witness function does not type-check any more: " + lt[0][:300])
        elif not errs:
            raise facts.CheckError("the witness crate does not build:\n" + out[-3000:])
    # compile-fail twins
    nfail = 0
    for f in sorted(glob.glob(os.path.join(WIT, "fail", "*.rs"))):
        exp = re.findall(r"E\d+", open(f).readline())
        res = {}
        for good in (True, False):
            cmd = ["rustc", "+stable", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(tgt, "twin.rmeta"),
                   "--extern", "object=" + rmeta, "-L", "dependency=" + os.path.dirname(rmeta), f] + (["--cfg", "good"] if good else [])
            res[good] = facts._run(cmd, env=env)
        name = os.path.basename(f)
        if res[True][0]:
            codes = set(re.findall(r"^error\[(E\d+)\]", res[True][1], re.M))
            if codes & REL:
                R.oblige(False, "twin-good:" + name, "the valid twin of witness/fail/%s is rejected: %s" % (name, ", ".join(sorted(codes))))
            continue
        nfail += 1
        codes = set(re.findall(r"^error\[(E\d+)\]", res[False][1], re.M))
        R.oblige(res[False][0] != 0, "twin:" + name, "witness/fail/%s must be rejected by the borrow or bound checker (%s) but compiles" % (name, " ".join(exp)),
                 sample="witness/fail/%s is rejected with %s" % (name, ", ".join(sorted(codes))))
    R.floor("compile-fail twins decided", nfail, 6)
    # every public reader signature keeps its borrow on the input
    tab = set(json.load(open(os.path.join(facts.VERIF, "tables", "borrows.json"))))
    seen = 0
    for k, f, tied in lifetimes.api(P):
        if k in tab:
            seen += 1
            R.oblige(not tied, "borrow:" + k, "%s: `%s` returns data borrowed from `&self` instead of from the input: %s" % (facts.loc(f), f["path"], f["sig"]),
                     sample="%s borrows the input only" % f["path"])
    R.floor("public reader signatures of the table still present", seen, int(len(tab) * 0.7))
    # structural: no public reader type holds a non-shareable constituent
    n = 0
    for d, a in sorted(P.adts.items()):
        if not a.get("local") or not a.get("reach") or not d.startswith("read") or "read_cache" in d:
            continue
        for v in a["variants"]:
            for fl in v["f"]:
                n += 1
                r = interior(P, fl["t"], set())
                R.oblige(r is None, "share:%s.%s" % (d, fl["n"]), "%s:%s: field `%s` of %s holds %s, so the parsed value is not Send + Sync" % (a["file"], a["line"], ".".join([fl["n"]] + (r[0] if r else [])), d, r[1] if r else ""))
    R.floor("reader type fields", n, 500)
    R.finish("The type checker accepts the compile-pass witnesses and rejects each compile-fail twin (whose valid variant compiles); no public reader signature that borrows only the input is tied to `&self`; no public reader type (except the documented ReadCache) has interior mutability, reference counting or raw pointers.",
             signatures=seen, twins=nfail)
