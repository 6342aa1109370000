"""One schema with every kind of resource, nested archives and homonymous structures; contents as Python values, as files
(reference model) and as one line of text which the writers of every language parse and the readers of every language print.

text of an archive: for every resource its name and
  instance: values                      vector: number of elements, values of each
  multivector: number of items, for each the number of elements, for each its type and values
  raw data: hexadecimal digits or "."   subarchive: "{" archive "}"     absent: "-"
"""
import itertools
import os
import refmodel as rm

SCHEMA = """
namespace n.m {
struct A { w : u16; }
archive Leaf { a : A; v : vector< A >; @optional o : raw_data; }
}
namespace n {
const i16 NONE = -7;
enum Kind : u8 : 3 { X = 0, Y = 5 }
struct A { a : u32 : 7; b : i16 : 9; c : bool : 1; d : i32 : 30; }
struct B { x : u8 : 3; y : u64; z : i64 : 61; }
struct E { k : Kind; @optional( NONE ) o : i16 : 12; p : u8 : 5; }
struct R { @range( edges ) first : u32 : 20; v : u8 : 4; }
struct U { u : u8; }
archive Mid { leaf : archive .n.m.Leaf; @optional more : archive .n.m.Leaf; @optional us : vector< U >; }
archive Top {
    inst : A;
    vec : vector< B >;
    es : vector< E >;
    rs : vector< R >;
    mv : multivector< 33, A, B, U >;
    mvs : multivector< 8, U >;
    mvl : multivector< 64, E, B >;
    raw : raw_data;
    mid : archive Mid;
    @optional
    oinst : E;
    @optional
    ovec : vector< U >;
    @optional
    omv : multivector< 16, U >;
    @optional
    oraw : raw_data;
    @optional
    omid : archive Mid;
%s}
}
"""
HOMONYMS = "    mvh : multivector< 17, A, .n.m.A >;\n"
SCHEMA, WITHOUT_HOMONYMS = SCHEMA % HOMONYMS, SCHEMA % ""
A = rm.S("A", [("a", "u32", 7), ("b", "i16", 9), ("c", "u8", 1), ("d", "i32", 30)])
B = rm.S("B", [("x", "u8", 3), ("y", "u64", 64), ("z", "i64", 61)])
E = rm.S("E", [("k", "u8", 3), ("o", "i16", 12), ("p", "u8", 5)])
R = rm.S("R", [("first", "u32", 20), ("v", "u8", 4)])
U = rm.S("U", [("u", "u8", 8)])
MA = rm.S("A", [("w", "u16", 16)])
PY = {id(A): "n_A", id(B): "n_B", id(E): "n_E", id(R): "n_R", id(U): "n_U", id(MA): "n_m_A"}

LEAF = [("a", "inst", MA, False), ("v", "vec", MA, False), ("o", "raw", None, True)]
MID = [("leaf", "arc", "LEAF", False), ("more", "arc", "LEAF", True), ("us", "vec", U, True)]
TOP = [("inst", "inst", A, False), ("vec", "vec", B, False), ("es", "vec", E, False), ("rs", "vec", R, False),
       ("mv", "mv", (33, [A, B, U]), False), ("mvs", "mv", (8, [U]), False), ("mvl", "mv", (64, [E, B]), False),
       ("raw", "raw", None, False), ("mid", "arc", "MID", False), ("oinst", "inst", E, True), ("ovec", "vec", U, True),
       ("omv", "mv", (16, [U]), True), ("oraw", "raw", None, True), ("omid", "arc", "MID", True),
       ("mvh", "mv", (17, [A, MA]), False)]
ARCHIVES = {"LEAF": ("n_m_Leaf", "Leaf", LEAF), "MID": ("n_Mid", "Mid", MID), "TOP": ("n_Top", "Top", TOP)}


def without_homonyms():
    """for Rust, which cannot express a multivector of two structures of the same name"""
    TOP[:] = [r for r in TOP if r[0] != "mvh"]


# values of the structs as tuples
VALUES = {
    id(A): [(0, 0, 0, 0), (127, -1, 1, -1), (1, -256, 0, (1 << 29) - 1), (64, 255, 1, -(1 << 29))],
    id(B): [(0, 0, 0), (7, (1 << 64) - 1, -1), (4, 1 << 63, -(1 << 60)), (1, 0x0123456789abcdef, (1 << 60) - 1)],
    id(E): [(0, 0, 0), (5, -7, 31), (5, 2047, 0), (0, -2048, 16)],
    id(R): [(0, 0), ((1 << 20) - 1, 15), (3, 8), (3, 1)],
    id(U): [(0,), (255,), (128,), (7,)],
    id(MA): [(0,), (65535,), (256,), (1,)],
}


def alphabet(kind, what, optional, depth=2):
    """small list of contents of a resource; the first one is the base"""
    none = [None] if optional else []
    if kind == "inst":
        v = VALUES[id(what)]
        return [v[1]] + none + v[2:] + v[:1]
    if kind == "vec":
        v = VALUES[id(what)]
        out = [[v[1], v[2]]] + none + [[], [v[0]], [v[3]], v[:], v[::-1] + v[:3]]
        out += [[v[i % 4] for i in range(n)] for n in (15, 64, 300)]
        if what is R:  # an empty vector has no sentinel
            out = [o for o in out if o is None or len(o) > 0]
        return out
    if kind == "mv":
        width, types = what

        def e(t, i):
            return (t % len(types), VALUES[id(types[t % len(types)])][i % 4])
        out = [[[e(0, 1), e(1, 1)], [], [e(1, 2)]]] + none + [[], [[]], [[], []], [[e(0, 0)]], [[e(2, 1)], [e(1, 3)], [e(0, 2)]]]
        out += [[[e(i, i + k) for i in range(n)] for n in (0, 3, 1, 5)] for k in (0, 1)]
        out += [[[e(i + j, i // 3) for i in range(j % 4)] for j in range(24)]]
        if width > 8:
            out += [[[e(i, i // 5) for i in range(j % 11)] for j in range(200)]]
        else:
            out += [[[(0, VALUES[id(types[0])][i % 4]) for i in range(127)]]]
        return out
    if kind == "raw":
        return [b"xyz\0"] + none + [b"", b"\0", b"\xff", bytes(range(256)) * 3]
    assert kind == "arc"
    rs = ARCHIVES[what][2]
    base = {n: alphabet(k, w, o, depth - 1)[0] for n, k, w, o in rs}
    out = [base] + none
    for n, k, w, o in rs:
        for c in alphabet(k, w, o, depth - 1)[1:]:
            out.append(dict(base, **{n: c}))
    if any(o for _n, _k, _w, o in rs):
        out.append({n: None if o else base[n] for n, _k, _w, o in rs})
    return out


def contents(thorough):
    """every resource with every content, every pair of resources with every pair of their first contents, all subsets of
    absent optional resources"""
    alpha = {n: alphabet(k, w, o) for n, k, w, o in TOP}
    base = {n: alpha[n][0] for n in alpha}
    yield "base", base
    for n in alpha:
        for i, c in enumerate(alpha[n][1:], 1):
            yield "%s %d" % (n, i), dict(base, **{n: c})
    k = 6 if thorough else 3
    for n, m in itertools.combinations(alpha, 2):
        for i in range(1, min(k, len(alpha[n]))):
            for j in range(1, min(k, len(alpha[m]))):
                yield "%s %d %s %d" % (n, i, m, j), dict(base, **{n: alpha[n][i], m: alpha[m][j]})
    optional = [n for n, _k, _w, o in TOP if o]
    for bits in range(1, 1 << len(optional)):
        gone = [n for i, n in enumerate(optional) if bits >> i & 1]
        if len(gone) > 2:
            yield "without " + " ".join(gone), dict(base, **{n: None for n in gone})


def text(content, archive="TOP"):
    out = []
    for n, kind, what, _o in ARCHIVES[archive][2]:
        c = content[n]
        out.append(n)
        if c is None:
            out.append("-")
        elif kind == "inst":
            out += map(str, c)
        elif kind == "vec":
            out.append(str(len(c)))
            out += [str(x) for v in c for x in v]
        elif kind == "mv":
            out.append(str(len(c)))
            for item in c:
                out.append(str(len(item)))
                for t, v in item:
                    out.append(str(t))
                    out += map(str, v)
        elif kind == "raw":
            out.append(c.hex() or ".")
        else:
            out += ["{", text(c, what), "}"]
    return " ".join(out)


def struct_bytes(struct, values):
    return struct.pack(dict(zip([f[0] for f in struct.fields], values)))


def files(content, module, archive="TOP", prefix=""):
    """path -> bytes; module: the generated Python module (for the schemas)"""
    cls_name, name, rs = ARCHIVES[archive]
    cls = getattr(module, cls_name)
    out = {prefix + name + ".archive": rm.frame(b""), prefix + name + ".archive.schema": cls.schema().encode()}
    for n, kind, what, _o in rs:
        c = content[n]
        if c is None:
            continue
        if kind == "arc":
            out.update(files(c, module, what, prefix + n + "/"))
            continue
        schema = cls.resource_schema(n).encode()
        out[prefix + n + ".schema"] = schema
        if kind == "inst":
            data = rm.frame(struct_bytes(what, c))
        elif kind == "vec":
            data = rm.frame(b"".join(struct_bytes(what, v) for v in c))
        elif kind == "raw":
            data = rm.frame(c)
        else:
            width, types = what
            blob, index = b"", b""
            for item in c + [[]]:
                index += len(blob).to_bytes((width + 7) // 8, "little")
                for t, v in item:
                    blob += bytes([t]) + struct_bytes(types[t], v)
            data = rm.frame(blob)
            out[prefix + n + "_index"] = rm.frame(index)
            out[prefix + n + "_index.schema"] = b"index(" + schema + b")"
        out[prefix + n] = data
    return out


# ---- Python --------------------------------------------------------------------------------------
def py_write(content, module, path, archive="TOP"):
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    cls_name, _name, rs = ARCHIVES[archive]
    os.makedirs(path, exist_ok=True)
    builder = getattr(module, cls_name + "Builder")(ResourceStorage(FileResourceWriter(), path))

    def values(struct, v):
        return dict(zip([f[0] for f in struct.fields], v))
    for n, kind, what, _o in rs:
        c = content[n]
        if c is None:
            continue
        if kind == "inst":
            builder.set(n, values(what, c))
        elif kind == "vec":
            builder.set(n, [values(what, v) for v in c])
        elif kind == "mv":
            builder.set(n, [[{"name": PY[id(what[1][t])], "attributes": values(what[1][t], v)} for t, v in item] for item in c])
        elif kind == "raw":
            builder.set(n, c)
        else:
            py_write(c, module, os.path.join(path, n), what)
    builder.finish()


def py_read(arc, archive="TOP"):
    """an opened archive as text"""
    out = []

    def values(struct, e):
        return [str(int(getattr(e, f[0]))) for f in struct.fields]
    for n, kind, what, _o in ARCHIVES[archive][2]:
        r = getattr(arc, n)
        out.append(n)
        if r is None:
            out.append("-")
        elif kind == "inst":
            out += values(what, r[0])
        elif kind == "vec":
            out.append(str(len(r)))
            for e in r:
                out += values(what, e)
        elif kind == "mv":
            types = [PY[id(s)] for s in what[1]]
            out.append(str(len(r)))
            for item in r:
                item = list(item)
                out.append(str(len(item)))
                for e in item:
                    t = types.index(type(e).__name__)
                    out.append(str(t))
                    out += values(what[1][t], e)
        elif kind == "raw":
            out.append(bytes(r[0:len(r)]).hex() or ".")
        else:
            out += ["{", py_read(r, what), "}"]
    return " ".join(out)


def read_dir(path):
    out = {}
    for d, _dirs, names in os.walk(path):
        for name in names:
            p = os.path.join(d, name)
            with open(p, "rb") as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def difference(files_, want):
    for p in sorted(set(files_) | set(want)):
        if p not in files_:
            return "does not write %s" % p
        if p not in want:
            return "writes %s, which is not expected" % p
        if files_[p] != want[p]:
            return "writes %s with %s, expected %s" % (p, files_[p].hex()[:200], want[p].hex()[:200])
    return None
