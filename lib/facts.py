"""Extracts and indexes the resolved program (MIR facts) of /repo's working tree.

Nothing of /repo is executed: `cargo check` type-checks it with the rustc wrapper in
/verif/driver, which writes types, items and MIR bodies as JSON."""
import hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OBJ_REPO", "/repo")
BUILD = os.environ.get("OBJ_BUILD", os.path.join(VERIF, ".build"))


class CheckError(Exception):
    pass


def _run(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise CheckError("no nightly rustc: " + out)
    return out.strip()


def _hash_tree(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for r, ds, fs in os.walk(d):
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def driver():
    """Builds the fact extractor (offline) and returns its path."""
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    rc, out = _run(["cargo", "+nightly", "build", "--offline"], env=env, cwd=src)
    exe = os.path.join(tgt, "debug", "mirdump")
    if rc or not os.path.exists(exe):
        raise CheckError("building the fact extractor failed:\n" + out[-4000:])
    return exe


def cargo_check(pkg_args, dump_dir=None, tgt="repo", toolchain="+nightly", extra_env=None):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, tgt)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_INCREMENTAL"] = "0"
    if dump_dir:
        env["MIRDUMP_OUT"] = dump_dir
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = driver()
    env.update(extra_env or {})
    return _run(["cargo", toolchain, "check", "--offline"] + pkg_args, env=env, cwd=REPO)


def dump(features="unstable-all", pkg="object"):
    """Path of the fact file for the current tree (cached by content)."""
    key = _hash_tree([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "driver", "src")])
    ddir = os.path.join(BUILD, "dump", key + "-" + features)
    out = os.path.join(ddir, "object.json")
    if os.path.exists(out):
        return out
    os.makedirs(ddir, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "repo"))
    # cargo's freshness cache would skip the wrapper: force the crate itself to be re-checked
    _run(["cargo", "+nightly", "clean", "--offline", "-p", "object"], env=env, cwd=REPO)
    rc, text = cargo_check(["-p", "object", "--features", features], dump_dir=ddir)
    if rc or not os.path.exists(out):
        raise CheckError("extracting facts from %s failed:\n%s" % (REPO, text[-4000:]))
    # keep the cache small
    root = os.path.join(BUILD, "dump")
    ds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=os.path.getmtime)
    for old in ds[:-4]:
        for f in os.listdir(old):
            os.unlink(os.path.join(old, f))
        os.rmdir(old)
    return out


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d["types"]
        self.fns = {}
        for f in d["fns"]:
            assert f["def"] not in self.fns, f["def"]
            self.fns[f["def"]] = f
        self.adts = {a["def"]: a for a in d["adts"]}
        self.cbodies = {f["def"]: f for f in d["cbodies"]}
        self.consts = {c["def"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.traits = {t["def"]: t for t in d["traits"]}
        self.statics = d["statics"]
        # impl method lookup
        self.impls_of = {}
        for im in self.impls:
            if "trait" in im:
                self.impls_of.setdefault(im["trait"], []).append(im)

    def ts(self, i):
        return self.types[i]["s"]


def load(features="unstable-all"):
    return Prog(dump(features))


def callee(term):
    """Resolved callee dict of a call terminator, or None for an indirect call."""
    f = term["f"]
    if f[0] == "k" and "fn" in f[1]:
        return f[1]["fn"]
    return None


def target(fn):
    return fn.get("res", fn["def"])


def loc(f, line=None):
    return "%s:%d" % (f["file"], line if line is not None else f["line"])


def _strip(s):
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("::::", "::")


def simple(d):
    """path of a function without generic arguments: `<T as Tr>::m` becomes `T::m`"""
    if d.startswith("<"):
        dep = 0
        for i, ch in enumerate(d):
            if ch == "<":
                dep += 1
            elif ch == ">" and d[i - 1] != "-":
                dep -= 1
                if dep == 0:
                    break
        inner, rest = d[1:i], d[i + 1:]
        dep = 0
        for j, ch in enumerate(inner):
            if ch == "<":
                dep += 1
            elif ch == ">":
                dep -= 1
            elif dep == 0 and inner[j:j + 4] == " as ":
                inner = inner[:j]
                break
        return _strip(inner) + _strip(rest)
    return _strip(d)
