"""An archive with every kind of resource, its files from the reference model, and storages."""
import io
import os
import tarfile
import refmodel as rm

A = rm.S("A", [("a", "u32", 7), ("b", "i16", 9), ("c", "u8", 1), ("d", "i32", 30)])
B = rm.S("B", [("x", "u8", 3), ("y", "u64", 64), ("z", "i64", 61)])
SCHEMA = """
namespace n {
%s
%s
archive Sub {
    v : vector< A >;
    @optional
    o : raw_data;
}
archive Arc {
    inst : A;
    vec : vector< B >;
    mv : multivector< 33, A, B >;
    raw : raw_data;
    sub : archive Sub;
    @optional
    oinst : B;
    @optional
    ovec : vector< A >;
    @optional
    omv : multivector< 16, B >;
    @optional
    oraw : raw_data;
    @optional
    osub : archive Sub;
}
}
""" % (A.text(), B.text())

a1 = dict(a=1, b=-1, c=1, d=-5)
a2 = dict(a=127, b=-256, c=0, d=(1 << 29) - 1)
b1 = dict(x=7, y=(1 << 64) - 1, z=-(1 << 60))
b2 = dict(x=0, y=1 << 63, z=(1 << 60) - 1)

CONTENT = {
    "inst": a1, "vec": [b1, b2], "mv": [[(0, a1), (1, b1)], [], [(1, b2)]], "raw": b"xyz\0",
    "oinst": b2, "ovec": [a2], "omv": [[(0, b1)], []], "oraw": b"\0",
    "sub/v": [a1, a2], "sub/o": b"raw", "osub/v": [], "osub/o": b"",
}
RES = ["inst", "vec", "mv", "raw", "oinst", "ovec", "omv", "oraw"]
SUBRES = ["v", "o"]
OPTIONAL = {"oinst", "ovec", "omv", "oraw", "osub", "sub/o", "osub/o"}


def files(schemas, content=None):
    """schemas: name -> text for '' (Arc), 'Sub', and resources ('inst', 'Sub.v', ...)."""
    c = content or CONTENT
    out = {"Arc.archive": rm.frame(b""), "Arc.archive.schema": schemas["Arc"].encode()}

    def put(path, data, schema):
        out[path] = data
        out[path + ".schema"] = schema.encode()

    put("inst", rm.frame(A.pack(c["inst"])), schemas["inst"])
    put("oinst", rm.frame(B.pack(c["oinst"])), schemas["oinst"])
    put("vec", rm.vector(B, c["vec"]), schemas["vec"])
    put("ovec", rm.vector(A, c["ovec"]), schemas["ovec"])
    put("raw", rm.frame(c["raw"]), schemas["raw"])
    put("oraw", rm.frame(c["oraw"]), schemas["oraw"])
    for name, structs, width in (("mv", [A, B], 33), ("omv", [B], 16)):
        index, data = rm.multivector(structs, width, c[name])
        put(name, data, schemas[name])
        put(name + "_index", index, "index(%s)" % schemas[name])
    for sub in ("sub", "osub"):
        put(sub + "/Sub.archive", rm.frame(b""), schemas["Sub"])
        put(sub + "/v", rm.vector(A, c[sub + "/v"]), schemas["Sub.v"])
        put(sub + "/o", rm.frame(c[sub + "/o"]), schemas["Sub.o"])
    return out


def py_schemas(module):
    out = {"Arc": module.n_Arc.schema(), "Sub": module.n_Sub.schema()}
    for r in RES:
        out[r] = module.n_Arc.resource_schema(r)
    for r in SUBRES:
        out["Sub." + r] = module.n_Sub.resource_schema(r)
    return out


def write_dir(path, contents):
    for name, data in contents.items():
        p = os.path.join(path, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def tar_bytes(contents, fmt=tarfile.GNU_FORMAT, prefix="", dirs=True, order=None):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as tar:
        names = list(contents) if order is None else order
        seen = set()
        for name in names:
            d = os.path.dirname(name)
            if d and dirs and d not in seen:
                seen.add(d)
                info = tarfile.TarInfo(prefix + d)
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                tar.addfile(info)
            info = tarfile.TarInfo(prefix + name)
            info.size = len(contents[name])
            tar.addfile(info, io.BytesIO(contents[name]))
    return buf.getvalue()


def entries(lst):
    return [[e.as_dict() for e in l] for l in lst]


def compare_py(arc, content, present):
    """None or a message: every resource of an opened Python archive against the content.
    present(path) says whether the optional resource is there."""
    def opt(value, path):
        if path in OPTIONAL and not present(path):
            return None if value is None else "%s is absent but reads a %s" % (path, type(value).__name__)
        if value is None:
            return "%s is present but reads None" % path
        return True

    def check(value, path, got):
        r = opt(value, path)
        if r is not True:
            return r
        want = content[path]
        if path in ("mv", "omv"):
            want = [[v for _, v in l] for l in want]
        try:
            g = got(value)
        except Exception as e:  # pylint: disable=broad-except
            return "%s: reading raised %r" % (path, e)
        if g != want:
            return "%s reads %r, expected %r" % (path, g, want)
        return None

    inst = lambda v: v[0].as_dict()
    vec = lambda v: [i.as_dict() for i in v]
    raw = lambda v: bytes(v[0:len(v)])
    for path, got in (("inst", inst), ("oinst", inst), ("vec", vec), ("ovec", vec), ("mv", entries),
                      ("omv", entries), ("raw", raw), ("oraw", raw)):
        msg = check(getattr(arc, path), path, got)
        if msg:
            return msg
    for sub in ("sub", "osub"):
        s = getattr(arc, sub)
        r = opt(s, sub)
        if r is None:
            continue
        if r is not True:
            return r
        for leaf, got in (("v", vec), ("o", raw)):
            msg = check(getattr(s, leaf), sub + "/" + leaf, got)
            if msg:
                return msg
    return None
