"""Mechanical rewrite of a C source: every integer BinaryOperator  l * r, l / r, l % r  written outside macros in the file
becomes VC_MUL(l, r) / VC_DIV / VC_MOD (vc/lib/arith.h).  Source ranges come from clang's AST; nothing else changes."""
import json, os, subprocess


def rewrite(src, out, cflags):
    r = subprocess.run(["clang"] + cflags + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError("clang failed on %s: %s" % (src, r.stderr[:500]))
    ast = json.loads(r.stdout)
    data = open(src, "rb").read()
    sites = []
    state = {"file": None}

    def loc(l):
        """offset when the location is in the main file and not in a macro expansion (None otherwise)"""
        if "expansionLoc" in l or "spellingLoc" in l:
            for k in ("spellingLoc", "expansionLoc"):
                if k in l and "file" in l[k]:
                    state["file"] = l[k]["file"]
            return None
        if "file" in l:
            state["file"] = l["file"]
        if "offset" not in l:
            return None
        if state["file"] is not None and os.path.abspath(state["file"]) != os.path.abspath(src):
            return None
        return l["offset"], l["offset"] + l.get("tokLen", 0)

    def walk(n):
        if "loc" in n:
            loc(n["loc"])
        rng = n.get("range", {})
        b = loc(rng.get("begin", {})) if rng else None
        e = loc(rng.get("end", {})) if rng else None
        kids = n.get("inner", [])
        cr = []
        for k in kids:
            cr.append(walk(k))
        if n.get("kind") == "BinaryOperator" and n.get("opcode") in ("*", "/", "%") and b and e and len(cr) == 2 and all(cr):
            ty = n.get("type", {}).get("desugaredQualType", n.get("type", {}).get("qualType", ""))
            if ty in ("long", "unsigned long", "long long", "unsigned long long"):
                sites.append((cr[0], cr[1], n["opcode"]))
        return (b[0], e[1]) if b and e else None
    walk(ast)
    ins = []
    for (l, r_, op) in sites:
        name = {"*": "VC_MUL(", "/": "VC_DIV(", "%": "VC_MOD("}[op]
        mid = data[l[1]:r_[0]]
        i = mid.find(op.encode())
        if i < 0 or mid.count(op.encode()) != 1:
            continue
        ins.append((l[0], 0, name.encode(), -l[1]))
        ins.append((l[1] + i, 1, b",", 0))
        ins.append((r_[1], 0, b")", 1))
    res, pos = b"", 0
    for off, rm, txt, _ in sorted(ins, key=lambda x: (x[0], x[3])):
        res += data[pos:off] + txt
        pos = off + rm
    res += data[pos:]
    open(out, "wb").write(res)
    return len(sites)


if __name__ == "__main__":
    import sys
    print(rewrite(sys.argv[1], sys.argv[2], ["-std=c11", "-I/repo/headers"]))
