"""Layout of repr(C) structures, computed from their resolved field types."""


class NoLayout(Exception):
    pass


PRIM = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8}


class Layout:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def ty(self, t, env=()):
        """(size, align, leaves) with leaves = [(path, offset, size, encoding)]; encoding is the
        byte order a multi-byte leaf is decoded with: LE, BE, E (the structure's parameter), raw"""
        P = self.P
        T = P.types[t]
        k = T["k"]
        if k in ("int", "uint"):
            n = PRIM[T["s"]]
            return n, n, [("", 0, n, "raw" if n == 1 else "native")]
        if k == "array":
            n = self.length(T["n"])
            s, a, l = self.ty(T["of"], env)
            if len(l) == 1 and l[0][3] == "raw":
                return s * n, a, [("", 0, s * n, "raw")]
            return s * n, a, [("[%d]%s" % (i, p), i * s + o, z, e) for i in range(n) for p, o, z, e in l]
        if k == "adt":
            a = P.adts[T["def"]]
            if T["def"].startswith("endian::") and T["def"].split("::")[1] in ("U16", "U32", "U64", "I16", "I32", "I64"):
                n = int(T["def"][-2:]) // 8
                s, al, _ = self.adt(a, T["args"])
                enc = self.enc(T["args"])
                if s != n:
                    raise NoLayout("%s has size %d" % (T["s"], s))
                return n, al, [("", 0, n, enc + ("s" if T["def"].split("::")[1][0] == "I" else ""))]
            return self.adt(a, T["args"])
        if k == "tuple":
            if not T["of"]:
                return 0, 1, []
        raise NoLayout(T["s"])

    def enc(self, args):
        a = args[0]
        if isinstance(a, dict):
            a = a["t"]
        T = self.P.types[a]
        if T["k"] == "param":
            return "E"
        return {"endian::LittleEndian": "LE", "endian::BigEndian": "BE", "endian::Endianness": "E"}.get(T.get("def"), T["s"])

    def length(self, n):
        if isinstance(n, int):
            return n
        if isinstance(n, dict):
            for k in ("v", "n", "val"):
                if k in n:
                    return n[k]
        raise NoLayout("array length %r" % (n,))

    def adt(self, a, args):
        if a["kind"] == "enum":
            raise NoLayout("enum " + a["def"])
        if a["def"].startswith("core::marker::PhantomData"):
            return 0, 1, []
        off, al, leaves = 0, 1, []
        fs = a["variants"][0]["f"]
        if not (a["repr_c"] or a["transparent"]) and len([f for f in fs]) > 1 and a["local"]:
            # only one field of non-zero size keeps the layout independent of the representation
            pass
        nz = 0
        for f in fs:
            ft = self.P.types[f["t"]]
            if ft["k"] == "adt" and ft["def"] == "core::marker::PhantomData":
                continue
            if ft["k"] == "param":
                raise NoLayout("parameter field in " + a["def"])
            s, fa, l = self.ty(f["t"])
            if a["packed"]:
                fa = 1
            pad = -off % fa
            if pad:
                leaves.append(("<padding>", off, pad, "pad"))
            off += pad
            al = max(al, fa)
            if s:
                nz += 1
            for p, o, z, e in l:
                leaves.append((f["n"] + ("." + p if p and not p.startswith("[") else p), off + o, z, e))
            off += s
        if nz > 1 and not a["repr_c"]:
            raise NoLayout("%s is not repr(C)" % a["def"])
        pad = -off % al
        if pad:
            leaves.append(("<padding>", off, pad, "pad"))
        return off + pad, al, leaves
