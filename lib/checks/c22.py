"""C22: every supported feature configuration type-checks, including without std."""
import os, re, itertools
from concurrent.futures import ThreadPoolExecutor
import facts
from report import Report

FORMATS = ["coff", "elf", "macho", "pe", "xcoff"]
# documented in xtask (the project's own list) and Cargo.toml
DOCUMENTED = ["", "all", "unstable-all", "read", "write", "build", "default",
              "read_core,write_core,coff", "read_core,write_core,build_core,elf", "read_core,write_core,goff,unstable",
              "read_core,write_core,build_core,macho", "read_core,write_core,pe", "read_core,write_core,xcoff", "read_core,wasm",
              "std", "compression", "names", "read,write,std"]


def configs(tier):
    out = list(DOCUMENTED)
    for f in FORMATS + ["archive", "goff,unstable", "wasm"]:
        out.append("read_core," + f)
    for f in FORMATS:
        out.append("write_core," + f)
        out.append("write_std," + f)
    out += ["read,names", "read,compression", "read,unstable", "read_core,std,wasm", "build_core,elf,names", "write,names", "read_core,elf,compression", "build_core,write_std,macho,unstable", "build,unstable"]
    if tier == "thorough":
        for a, b in itertools.combinations(FORMATS + ["archive", "wasm"], 2):
            for core in ("read_core", "write_core,read_core", "build_core", "write_std,read_core,names"):
                out.append("%s,%s,%s" % (core, a, b))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def run(pid):
    R = Report(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    cs = configs(tier)
    N = 8
    # the dependencies are compiled once per target directory
    def one(i):
        res = []
        for k, c in enumerate(cs):
            if k % N != i:
                continue
            args = ["-p", "object", "--lib", "--no-default-features"]
            if c:
                args += ["--features", c]
            rc, out = facts.cargo_check(args, tgt="feat%d" % i, toolchain="+stable", extra_env={"CARGO_BUILD_JOBS": "2"})
            res.append((c, rc, out))
        return res
    with ThreadPoolExecutor(N) as ex:
        allr = [x for r in ex.map(one, range(N)) for x in r]
    std_free = 0
    for c, rc, out in sorted(allr):
        m = re.findall(r"^error.*?$\s+--> (\S+)", out, re.M)
        e = re.findall(r"^(error.*)$", out, re.M)
        R.oblige(rc == 0, "config:" + c, "feature configuration {%s} does not type-check: %s %s" % (c, "; ".join(e[:3]), ", ".join(m[:3])), sample="{%s} type-checks" % c)
        fs = set(c.split(","))
        if not fs & {"std", "all", "unstable-all", "write", "build", "default", "compression", "write_std", "names_std"} and rc == 0:
            std_free += 1
    R.floor("configurations", len(allr), 35)
    R.finish("The compiler's type checker accepts the library in every documented feature configuration and every single format with each of the read, write and build cores; the crate is no_std and links std only under its std feature, so a std item used in a configuration without it is an unresolved path there.",
             no_std_configurations=std_free)
