"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main), FEATURES."""
import sys, os, json, subprocess, shutil
V = "/verif"; S = "/tmp/seed/repo"
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh 2>/dev/null
mkdir -p "$w/p/src"
cp "$here/demo.rs" "$w/p/src/main.rs"
cp "$repo/Cargo.lock" "$w/p/Cargo.lock"
cat > "$w/p/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
object = { path = "$repo", default-features = false, features = [%s] }
[workspace]
EOF
cd "$w/p" || exit 3
CARGO_TARGET_DIR="$w/t" timeout 250 cargo build -q --offline || { echo "demo does not build"; exit 2; }
cd "$w" && timeout 30 "$w/t/debug/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
specs = ns.get("SPECS") or [ns]
for n in specs:
    d = os.path.join(V, "seeded", n["ID"])
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "FETCH_HEAD"])
    for f, old, new in n["EDITS"]:
        p = os.path.join(S, f); s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s of %r" % (n["ID"], s.count(old), f, old[:80]))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", S, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    open(d + "/demo.rs", "w").write(n["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH % ", ".join('"%s"' % x for x in n.get("FEATURES", ["all"])))
    json.dump({"property": n["PROP"], "needs": n["NEEDS"], "what_it_breaks": n["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(n["ID"], "written")
