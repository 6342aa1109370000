"""A multivector of as many types as its one byte type indices can tell apart."""
import os
import vlib

BASE = (8, 16, 32)


def width(t):
    return 1 + t % BASE[t % 3]


def value(t, i):
    return (0x9E3779B97F4A7C15 * (t + 256 * i + 1) % (1 << 64) >> 20) & ((1 << width(t)) - 1)


def schema(types=256):
    return "namespace n {\n%s\narchive C { m : multivector< 20, %s >; }\n}\n" % (
        "\n".join("struct T%d { v : u%d : %d; }" % (t, BASE[t % 3], width(t)) for t in range(types)),
        ", ".join("T%d" % t for t in range(types)))


def build(arg):
    root, read = arg
    d = os.path.join(root, "many%d" % read)
    os.makedirs(d)
    return vlib.build_cpp(d, "many", [os.path.join(vlib.VERIF, "cpp", "many.cpp")], ["-O0", "-DREAD=%d" % read],
                          [("many.hpp", schema())])


def contents(types=256):
    return [[(t, value(t, i)) for t in (i, types - 1 - i, (i + 128) % types)] for i in range(types)]


def python(check, writes, types=256):
    """The Python builder (or reader) with that many types."""
    import refmodel as rm
    vlib.repo_on_path()
    from flatdata.lib.file_resource_storage import FileResourceStorage
    case = "multivector of %d types" % types
    if not check.wants(case):
        return
    module = vlib.python_module(schema(types))
    structs = [rm.S("T%d" % t, [("v", "u%d" % BASE[t % 3], width(t))]) for t in range(types)]
    items = contents(types)
    index, data = rm.multivector(structs, 20, [[(t, {"v": v}) for t, v in l] for l in items])
    check.count()
    with vlib.scratch() as path:
        if writes:
            from flatdata.lib.resource_storage import ResourceStorage
            from flatdata.lib.file_resource_writer import FileResourceWriter
            builder = module.n_CBuilder(ResourceStorage(FileResourceWriter(), path))
            got = vlib.outcome(builder.set, "m", [[{"name": "n_T%d" % t, "attributes": {"v": v}} for t, v in l] for l in items])
            builder.finish()
            if got[0] != "ok":
                check.fail(case, "setting it raises %r" % (got[2],))
                return
            for name, want in (("m", data), ("m_index", index)):
                with open(os.path.join(path, name), "rb") as f:
                    check.expect(f.read() == want, case, name + " differs from the model")
        else:
            sig = module.n_C._RESOURCES
            files = {"C.archive": rm.frame(b""), "C.archive.schema": module.n_C._SCHEMA.encode(),
                     "m": data, "m_index": index, "m.schema": sig["m"].schema.encode()}
            files["m_index.schema"] = b"index(" + files["m.schema"] + b")"
            for name, content in files.items():
                with open(os.path.join(path, name), "wb") as f:
                    f.write(content)
            mv = module.n_C(FileResourceStorage(path)).m
            for i, want in enumerate(items):
                got = vlib.outcome(lambda: [(type(e).__name__, int(e.v)) for e in mv[i]])
                if got != ("ok", [("n_T%d" % t, v) for t, v in want]):
                    check.fail(case, "item %d reads as %r" % (i, got))
                    break
