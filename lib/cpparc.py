"""Reference of opening an archive of lib/fixture.py in C++: which resources are valid, what they contain, and the
enumeration of damaged archives used by P09, P23 (and, with other writers, P26)."""
import itertools
import fixture as fx

SIZES = {"inst": 16, "oinst": 16}


def apply_ops(base, ops):
    """ops: tuple of (path, op, args...), see cpp/arc_server.cpp"""
    files = dict(base)
    for path, op, *args in ops:
        d = files.get(path)
        if d is None:
            continue
        a = args[0] if args else 0
        b = args[1] if len(args) > 1 else 0
        if op == "D":
            del files[path]
            continue
        if op == "T":
            d = d[:a]
        elif op == "S":
            d = d[:a] + bytes([b]) + d[a + 1:] if a < len(d) else d
        elif op == "I":
            d = d[:a] + bytes([b]) + d[a:]
        elif op == "R":
            d = d[:a] + d[a + 1:]
        elif op == "H":
            d = (a % (1 << 64)).to_bytes(8, "little")[:min(8, len(d))] + d[8:] if len(d) >= 8 else (a % (1 << 64)).to_bytes(8, "little")
        elif op == "A":
            d = d + bytes([b]) * a
        elif op == "L":
            d = a.to_bytes(8, "little") + d[8:8 + a] + b"\0" * 8
        elif op == "Z":
            d = a.to_bytes(8, "little") + d[8:-8][:a].ljust(a, b"\0") + b"\0" * 8
        files[path] = d
    return files


def line(ops):
    return ";".join(" ".join(str(x % (1 << 64) if isinstance(x, int) else x) for x in op) for op in ops)


def payload(files, base, path):
    """payload of a valid resource file, else None"""
    d, s = files.get(path), files.get(path + ".schema")
    if d is None or s is None or s != base[path + ".schema"]:
        return None
    if not s or len(d) < 16 or int.from_bytes(d[:8], "little") + 16 != len(d):
        return None
    return d[8:-8]


def show(struct, data):
    v = struct.unpack(data)
    return ",".join(str(v[f[0]]) for f in struct.fields)


def show_vec(struct, data):
    n = len(data) // struct.size
    return "[" + "".join(show(struct, data[i * struct.size:]) + ";" for i in range(n)) + "]"


def show_mv(structs, width, index, data, padding=b"\0" * 8):
    """None if the index does not fit to the data (not checked on opening)"""
    size = (width + 7) // 8
    offsets = [int.from_bytes(index[i * size:(i + 1) * size], "little") & ((1 << width) - 1) for i in range(len(index) // size)]
    out = ["{"]
    for a, b in zip(offsets, offsets[1:]):
        if not a <= b <= len(data):
            return None
        while a < b:
            t = data[a]
            if t >= len(structs) or a + 1 + structs[t].size > b:
                return None
            out.append("%d:%s;" % (t, show(structs[t], data[a + 1:])))
            a += 1 + structs[t].size
        out.append("|")
    return "".join(out) + "}"


def expected(base, files, dirs=None):
    """(open, {resource: content or '-' or None if not specified}, signature ok, subs ok)"""
    out = {}
    mandatory = True

    def instance(path, struct):
        p = payload(files, base, path)
        out[path] = "-" if p is None or len(p) < struct.size else show(struct, p)

    def vector(path, struct):
        p = payload(files, base, path)
        out[path] = "-" if p is None else show_vec(struct, p)

    def multi(path, structs, width):
        p, i = payload(files, base, path), payload(files, base, path + "_index")
        out[path] = "-" if p is None or i is None else show_mv(structs, width, i, p)

    def raw(path):
        p = payload(files, base, path)
        out[path] = "-" if p is None else "<%s>" % p.hex()

    instance("inst", fx.A)
    instance("oinst", fx.B)
    vector("vec", fx.B)
    vector("ovec", fx.A)
    multi("mv", [fx.A, fx.B], 33)
    multi("omv", [fx.B], 16)
    raw("raw")
    raw("oraw")
    for sub in ("sub", "osub"):
        vector(sub + "/v", fx.A)
        raw(sub + "/o")
        ok = payload(files, base, sub + "/Sub.archive") is not None and out[sub + "/v"] != "-"
        out[sub] = "yes" if ok else "-"
        if not ok:
            out[sub + "/v"] = out[sub + "/o"] = "-"
    signature = payload(files, base, "Arc.archive") is not None
    for r in ("inst", "vec", "mv", "raw", "sub"):
        if out[r] == "-":
            mandatory = False
    return signature and mandatory, out, signature


ORDER = ["inst", "oinst", "vec", "ovec", "mv", "omv", "raw", "oraw", "sub", "sub/v", "sub/o", "osub", "osub/v", "osub/o"]


def parse_line(text):
    """-> (open, {resource: content}, description)"""
    parts = text.split("\t")
    desc = parts[-1]
    out = dict(p.split("=", 1) for p in parts[1:-1])
    plain, i = [], 0
    while i < len(desc):
        if desc[i] == "\\" and i + 1 < len(desc):
            plain.append({"n": "\n", "t": "\t", "0": "\0", "\\": "\\"}[desc[i + 1]])
            i += 2
        else:
            plain.append(desc[i])
            i += 1
    return parts[0] == "open", out, "".join(plain)


def judge_open(base, files, is_open, got):
    want_open, want, _sig = expected(base, files)
    if is_open != want_open:
        return "is_open() is %s, expected %s" % (is_open, want_open)
    for r in ORDER:
        if want[r] is None:
            continue
        if got.get(r) != want[r] and (is_open or got.get(r) != "-"):
            return "%s reads %s, expected %s (archive %s)" % (r, got.get(r), want[r], "open" if is_open else "not open")
    return None


def is_schema(f):
    return f.endswith(".schema")


def faults(base, thorough, content=True, groups=True):
    """Yields tuples of operations."""
    yield ()
    names = sorted(base)
    data = [f for f in names if not is_schema(f)]
    for f in names:
        n = len(base[f])
        yield ((f, "D"),)
        for k in range(n):
            yield ((f, "T", k),)
        if is_schema(f):
            for i in range(n):
                yield ((f, "R", i),)
                for b in ((0x58, 0x20, 0x0a, 0x00, 0xff) if thorough else (0x58, 0x20)):
                    yield ((f, "S", i, b),)
                    yield ((f, "I", i, b),)
            for b in (0x00, 0x0a, 0x20, 0x58):
                yield ((f, "A", 1, b),)
                yield ((f, "A", 4096, b),)
        else:
            p = n - 16
            for v in sorted({0, 1, p - 1, p + 1, p - 8, p + 8, p + 16, p + 256, p + (1 << 32), p + (1 << 63), (1 << 64) - 1,
                             (1 << 64) - 16, (1 << 64) - 16 + p, (1 << 64) - 8, (1 << 64) - p, p << 8, 16, 8}):
                if v >= 0:
                    yield ((f, "H", v),)
            for k in (1, 7, 8, 9, 16, 4096):
                yield ((f, "A", k, 0),)
                yield ((f, "A", k, 255),)
            if content:
                for op in [(f, "L", k) for k in range(p + 1)] + [(f, "Z", p + 1), (f, "Z", p + 64)]:
                    # reading a multivector whose index does not fit to its data is not specified
                    if None not in expected(base, apply_ops(base, (op,)))[1].values():
                        yield (op,)
    coarse = {f: ([("D",), ("S", 3, 0x58), ("A", 1, 0x20), ("T", 10)] if is_schema(f) else [("D",), ("T", 15), ("H", len(base[f]) - 15)])
              for f in names}
    for f, h in itertools.combinations(names, 2):
        for x in coarse[f]:
            for y in coarse[h]:
                yield ((f,) + x, (h,) + y)
    if thorough:
        for f, h, k in itertools.combinations(names, 3):
            for x in coarse[f][:2]:
                for y in coarse[h][:2]:
                    for z in coarse[k][:2]:
                        yield ((f,) + x, (h,) + y, (k,) + z)
    # every subset of the data files removed, alone and together with their schemas
    top = [f for f in data if "/" not in f]
    sub = [f for f in data if "/" in f]
    for group in (top, sub) if groups and len(top) + len(sub) < 30 else ():
        for bits in range(1 << len(group)):
            gone = [f for i, f in enumerate(group) if bits >> i & 1]
            yield tuple((f, "D") for f in gone)
            if thorough or len(gone) <= 4:
                yield tuple((g, "D") for f in gone for g in (f, f + ".schema"))


def run_server(exe, mode, base_dir, scratch, cases, env=None, timeout=600):
    """cases: list of ops. Returns (list of output lines, return code, stderr)."""
    import subprocess
    r = subprocess.run([exe, mode, base_dir, scratch], input="\n".join(line(c) for c in cases) + "\n", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    return r.stdout.split("\n")[:-1], r.returncode, r.stderr
