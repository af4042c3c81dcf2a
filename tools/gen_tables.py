#!/usr/bin/env python3
"""Maintenance tool (no check runs it): freezes the layout and constant tables from the reference
tree, recording for every entry which independent header of this sandbox confirms it."""
import sys, json, os, re, collections, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import facts, layout
from checks import c06, c07

P = facts.load()
O = V + "/tables/oracle/"
elf = json.load(open(O + "elf_h.json"))
ll = json.load(open(O + "llvm.json"))
lay = json.load(open(O + "llvm_lay.json"))
MODS = {"elf": "ELF", "macho": "MachO", "pe": "COFF", "xcoff": "XCOFF", "goff": "GOFF"}
byns = collections.defaultdict(dict)
for k, v in ll.items():
    p = k.split("::")
    byns[p[1]].setdefault(p[-1], v)
tab = {}
cnt = collections.Counter()
for d, v in sorted(c07.constants(P).items()):
    m, n = d.split("::")[0], d.split("::")[-1]
    src = []
    if isinstance(v, int):
        for nm, ns in (("elf.h", elf if m == "elf" else {}), ("llvm", byns.get(MODS.get(m), {}))):
            if n in ns and (v == ns[n] or (v - ns[n]) % (1 << 32) == 0):
                src.append(nm)
    tab[d] = [v, "+".join(src) or "reference"]
    cnt[(m, tab[d][1])] += 1
json.dump(tab, open(V + "/tables/constants.json", "w"), indent=0, sort_keys=True)
print(cnt)

# structures
L = c06.layouts(P)
seqs = collections.defaultdict(list)
for k, fs in lay.items():
    size = fs.get(".", (0, 0))[1]
    s = tuple(sorted((o, z) for f, (o, z) in fs.items() if f != "."))
    seqs[k.split("::")[-1].lower().replace("_", "")].append((k, size, s))
# elf.h structures
ELF = {"FileHeader": "Ehdr", "SectionHeader": "Shdr", "ProgramHeader": "Phdr", "Sym": "Sym", "Rel": "Rel", "Rela": "Rela", "Dyn": "Dyn", "CompressionHeader": "Chdr", "Syminfo": "Syminfo",
       "Verdef": "Verdef", "Verdaux": "Verdaux", "Verneed": "Verneed", "Vernaux": "Vernaux", "NoteHeader": "Nhdr", "Versym": "Versym"}
hdr = open("/usr/include/elf.h").read()
hdr = re.sub(r"/\*.*?\*/", "", hdr, flags=re.S)
estr = {}
for m in re.finditer(r"typedef struct\s*\w*\s*\{(.*?)\}\s*(Elf\w+);", hdr, re.S):
    fs = [re.sub(r"\[.*", "", x.strip().split()[-1]) for x in m.group(1).split(";") if x.strip() and "union" not in x and "}" not in x]
    estr[m.group(2)] = [f for f in fs if re.match(r"^\w+$", f)]
prog = "#include <elf.h>\n#include <stdio.h>\n#include <stddef.h>\nint main(){\n"
for s, fs in estr.items():
    if s.startswith(("Elf32_", "Elf64_")):
        if s.endswith(("Ehdr", "Shdr", "Phdr", "Sym", "Rel", "Rela", "Dyn", "Chdr", "Syminfo", "Verdef", "Verdaux", "Verneed", "Vernaux", "Nhdr")):
            prog += 'printf("%s . 0 %%zu\\n",sizeof(%s));\n' % (s, s)
            for f in fs:
                if f not in ("d_un", "d_val", "d_ptr"):
                    prog += 'printf("%s %s %%zu %%zu\\n",offsetof(%s,%s),sizeof(((%s*)0)->%s));\n' % (s, f, s, f, s, f)
prog += "}\n"
os.makedirs("/tmp/orc", exist_ok=True)
open("/tmp/orc/e.c", "w").write(prog)
r = subprocess.run(["gcc", "-w", "/tmp/orc/e.c", "-o", "/tmp/orc/e"], capture_output=True, text=True)
assert r.returncode == 0, r.stderr
eh = collections.defaultdict(dict)
for l in subprocess.run(["/tmp/orc/e"], capture_output=True, text=True).stdout.splitlines():
    a, f, o, z = l.split()
    eh[a][f] = (int(o), int(z))
out = {}
cnt = collections.Counter()
for d, (size, leaves) in sorted(L.items()):
    m, n = d.split("::")[0], d.split("::")[-1]
    src = []
    if m == "elf":
        mm = re.match(r"^(.*?)(32|64)?$", n)
        b = ELF.get(mm.group(1))
        if b:
            for w in ((mm.group(2),) if mm.group(2) else ("32", "64")):
                es = eh.get("Elf%s_%s" % (w, b))
                if es:
                    ok = es["."][1] == size
                    mine = {l[0].split(".")[-1] if not l[0].endswith(".0") else l[0][:-2]: (l[1], l[2]) for l in leaves}
                    for f, oz in es.items():
                        if f in (".", "e_ident", "st_info", "st_other"):
                            continue
                        if f in mine and tuple(mine[f]) != tuple(oz):
                            ok = False
                    print("ELF", d, "ok" if ok else "MISMATCH %r %r" % (es, leaves)) if not ok else None
                    if ok:
                        src.append("elf.h")
    key = n.lower().replace("_", "")
    cands = [key]
    if m == "xcoff":
        cands += []
    for c in cands:
        for k, sz, s in seqs.get(c, ()):
            mine = tuple(sorted((l[1], l[2]) for l in leaves))
            if sz == size and (mine == s or set(s) <= set(mine) or set(mine) <= set(s)):
                src.append("llvm:" + k)
            else:
                print("LLVM?", d, k, sz, size)
    out[d] = {"size": size, "fields": leaves, "source": "+".join(src) or "reference"}
    cnt[(m, bool(src))] += 1
json.dump(out, open(V + "/tables/layouts.json", "w"), indent=0, sort_keys=True)
print(cnt)
