"""C17: output and parsed values are functions of the inputs only."""
import re
import facts
from facts import callee
from callgraph import type_mentions, targs
from report import Report

AMBIENT = re.compile(r"^(std::(env|time|fs|net|process|thread|os|sync|random|backtrace|io::(stdio|stdin|stdout|stderr))|core::time::Instant|core::panic::Location|core::any::type_name|rand|getrandom|core::sync|core::arch|core::intrinsics::caller)\b")
RANDOM = re.compile(r"RandomState|DefaultHasher|random_keys|fastrand|::hash::SipHasher|hash_one")
CRATES = {"core", "alloc", "std", "memchr", "wasmparser", "flate2", "ruzstd", "crc32fast", "indexmap", "hashbrown"}
UNORDERED = re.compile(r"(Hash(Map|Set))$|^std::collections::hash::|::hash_map::(Iter|IterMut|Keys|Values|ValuesMut|Drain|IntoIter|IntoKeys|IntoValues)$|::hash_set::(Iter|Drain|IntoIter)$|hash::map::(Iter|IterMut|Keys|Values|ValuesMut|Drain|IntoIter|IntoKeys|IntoValues)$|hashbrown::(map|set)::\w*Iter\w*$")
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values", "retain", "extract_if", "union", "difference", "intersection", "symmetric_difference", "next"}
QUERY = {"get", "get_mut", "get_key_value", "insert", "remove", "remove_entry", "take", "replace", "contains_key", "contains", "entry", "len", "is_empty", "new", "with_capacity", "reserve", "try_reserve", "shrink_to_fit", "clear",
         "default", "clone", "fmt", "eq", "ne", "drop", "index", "capacity", "is_subset", "is_superset", "is_disjoint", "from", "into", "borrow", "borrow_mut", "as_ref", "as_mut", "deref", "deref_mut", "unwrap", "push", "swap",
         "branch", "from_residual", "from_output", "entry_ref", "get_or_insert_with", "take_mut", "write", "drop_in_place", "field", "field1_finish", "debug_struct_field1_finish"}
MUTABLE = re.compile(r"(Cell|Mutex|RwLock|Once|OnceLock|OnceCell|LazyLock|LazyCell|Lazy|Atomic\w*|LocalKey)$")


def self_adts(P, tid):
    acc = set()
    T = P.types[tid]
    while T["k"] in ("ref", "ptr"):
        T = P.types[T["to"]]
    return T.get("def", "") if T["k"] == "adt" else ""


def run(pid):
    R = Report(pid)
    P = facts.load()
    ncalls = nstat = nmap = nptr = 0
    for f in list(P.fns.values()) + list(P.cbodies.values()):
        if f["file"].startswith("src/read/read_cache.rs"):
            pass
        exposed = {}
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "cast" and ("Expose" in rv[1] or rv[1].startswith("PtrToAddr")):
                    exposed[s[1][0]] = s[3]
                if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Offset", "Cmp"):
                    for o in rv[2:4]:
                        if o[0] in ("c", "m") and len(o[1]) == 1 and P.types[f["locals"][o[1][0]]]["k"] == "ptr":
                            nptr += 1
                            R.oblige(False, "ptrcmp:" + f["def"], "%s:%d in %s: compares addresses" % (f["file"], s[3], f["def"]))
                if rv[0] == "tls" or "thread_local" in str(rv[0]):
                    R.oblige(False, "tls:" + f["def"], "%s:%d in %s: thread-local state" % (f["file"], s[3], f["def"]))
            t = b["t"]
            if t["k"] != "call":
                continue
            c = callee(t)
            if c is None:
                continue
            d = c.get("res", c["def"])
            if d in P.fns:
                continue
            ncalls += 1
            name = c["def"]
            where = "%s:%d in %s" % (f["file"], t["l"], f["def"])
            plain = name.lstrip("<")
            if plain.startswith("e::"):
                plain = "core" + plain[1:]
            bad = AMBIENT.match(plain) or AMBIENT.match(d.lstrip("<"))
            R.oblige(not bad, "ambient:%s:%s" % (f["def"], name), "%s: calls %s, which reads state outside the arguments" % (where, name))
            if RANDOM.search(plain):
                R.oblige(False, "random:%s:%s" % (f["def"], name), "%s: calls %s, whose result is random per process" % (where, name))
            if re.search(r"::(addr|expose_provenance)$", plain) and "ptr" in plain:
                R.oblige(False, "ptraddr:" + f["def"], "%s: observes an address" % where)
            if re.search(r"fmt::Pointer|::new_pointer", plain):
                R.oblige(False, "ptrfmt:" + f["def"], "%s: prints an address" % where)
            nm = c.get("name") or name.split("::")[-1]
            for o in t["a"]:
                if o[0] in ("c", "m"):
                    ot = o[1][2] if len(o[1]) > 2 else f["locals"][o[1][0]]
                    ad = self_adts(P, ot)
                    if re.search(r"Hash(Map|Set)$", ad) and "indexmap" not in ad and nm not in QUERY and nm not in ITER:
                        nmap += 1
                        R.oblige(False, "order:%s:%s" % (f["def"], nm), "%s: %s consumes %s, whose order is randomly seeded" % (where, nm, P.ts(ot)))
            if nm in ITER:
                tys = [x for x in targs(c.get("args", []))]
                for o in t["a"][:1]:
                    if o[0] in ("c", "m") and len(o[1]) == 1:
                        tys.insert(0, f["locals"][o[1][0]])
                for x in tys[:2]:
                    ad = self_adts(P, x)
                    if UNORDERED.search(ad) and "indexmap" not in ad:
                        nmap += 1
                        R.oblige(False, "order:%s:%s" % (f["def"], nm), "%s: %s on %s yields its items in a randomly seeded order" % (where, nm, P.ts(x)))
                        break
        # an address may only be tested for alignment
        for l, line in exposed.items():
            nptr += 1
            ok = True
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[1][0] != l and uses(s[2], l):
                        if not (s[2][0] == "bin" and s[2][1] in ("Rem", "BitAnd") and uses(s[2][2], l)):
                            ok = False
                t = b["t"]
                if t["k"] == "call" and any(uses(o, l) for o in t["a"]):
                    ok = False
                if t["k"] == "switch" and uses(t.get("d", []), l):
                    ok = False
            R.oblige(ok, "addr:" + f["def"], "%s:%d in %s: an address is used as a value" % (f["file"], line, f["def"]), sample="%s:%d address only tested for alignment" % (f["file"], line))
    for s in P.statics:
        nstat += 1
        acc = set()
        type_mentions(P, s["t"], acc, set())
        bad = s["mut"] or [d for k, d in acc if k == "adt" and MUTABLE.search(d)]
        R.oblige(not bad, "static:" + s["def"], "static %s is mutable global state" % s["def"])
    R.floor("external_calls", ncalls, 5000)
    R.floor("statics", nstat, 100)
    R.finish("Every call of the crate into std or a dependency is compared with the ambient sources of nondeterminism (environment, clock, files, network, process, threads, random hash state, addresses); every iteration over a randomly seeded hash container is a violation; every static must be immutable without interior mutability; an exposed address may only be tested for alignment.",
             hash_iterations=nmap, address_uses=nptr)


def uses(o, l):
    if isinstance(o, list):
        if len(o) == 2 and o[0] in ("c", "m") and isinstance(o[1], list):
            return o[1][0] == l
        return any(uses(x, l) for x in o)
    return False
