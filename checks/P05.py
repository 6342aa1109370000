"""P05: every history of builder calls up to a depth on the real Python archive builder, writing to a
real directory, compared file by file with a reference model; the result is opened and read back."""
import hashlib
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import many
import refmodel as rm

A = rm.S("A", [("a", "u32", 7), ("b", "i16", 9), ("c", "u8", 1), ("d", "i32", 30)])
B = rm.S("B", [("x", "u8", 3), ("y", "u64", 64), ("z", "i64", 61)])
SCHEMA = """
namespace n {
%s
%s
archive Sub { v : vector< A >; }
archive Arc {
    inst : A;
    vec : vector< B >;
    mv : multivector< 33, A, B >;
    raw : raw_data;
    @optional
    opt : vector< A >;
    @optional
    sub : archive Sub;
}
}
""" % (A.text(), B.text())

a1 = dict(a=1, b=-1, c=1, d=-5)
a2 = dict(a=127, b=-256, c=0, d=(1 << 29) - 1)
b1 = dict(x=7, y=(1 << 64) - 1, z=-(1 << 60))
b2 = dict(x=0, y=1 << 63, z=(1 << 60) - 1)


def without(d, k):
    d = dict(d)
    del d[k]
    return d


def mva(v):
    return {"name": "n_A", "attributes": v}


def mvb(v):
    return {"name": "n_B", "attributes": v}


# (label, resource, value, expected error name or None, files of the reference model or None)
def mvfiles(lists):
    i, d = rm.multivector([A, B], 33, lists)
    return {"mv_index": i, "mv": d}


OPS = [
    ("inst=a1", "inst", a1, None, {"inst": rm.frame(A.pack(a1))}),
    ("inst=a2", "inst", a2, None, {"inst": rm.frame(A.pack(a2))}),
    ("inst missing field", "inst", without(a1, "b"), "MissingFieldError", None),
    ("inst extra field", "inst", dict(a1, q=1), "UnknownFieldError", None),
    ("vec=[]", "vec", [], None, {"vec": rm.vector(B, [])}),
    ("vec=[b1]", "vec", [b1], None, {"vec": rm.vector(B, [b1])}),
    ("vec=[b1,b2]", "vec", [b1, b2], None, {"vec": rm.vector(B, [b1, b2])}),
    ("vec=[b1,missing]", "vec", [b1, without(b2, "z")], "MissingFieldError", None),
    ("vec=[b1,extra]", "vec", [b1, dict(b2, q=0)], "UnknownFieldError", None),
    ("vec=[b1,bad type]", "vec", [b1, dict(b2, z="no number")], "*", None),
    ("mv=[]", "mv", [], None, mvfiles([])),
    ("mv=[[]]", "mv", [[]], None, mvfiles([[]])),
    ("mv=[[A,B],[],[B]]", "mv", [[mva(a1), mvb(b1)], [], [mvb(b2)]], None,
     mvfiles([[(0, a1), (1, b1)], [], [(1, b2)]])),
    ("mv=[[A],[unknown]]", "mv", [[mva(a1)], [{"name": "n_Z", "attributes": {}}]],
     "UnknownStructureError", None),
    ("mv=[[A],[B missing]]", "mv", [[mva(a1)], [mvb(without(b1, "y"))]], "MissingFieldError", None),
    ("mv=[[A],[B extra]]", "mv", [[mva(a1)], [mvb(dict(b1, q=1))]], "UnknownFieldError", None),
    ("mv=[[A],[B bad type]]", "mv", [[mva(a1)], [mvb(dict(b1, y="no number"))]], "*", None),
    ("raw=empty", "raw", b"", None, {"raw": rm.frame(b"")}),
    ("raw=xyz", "raw", bytearray(b"xyz\0"), None, {"raw": rm.frame(b"xyz\0")}),
    ("opt=[a2,a1]", "opt", [a2, a1], None, {"opt": rm.vector(A, [a2, a1])}),
    ("opt=[missing]", "opt", [{}], "MissingFieldError", None),
    ("sub=[]", "sub", [], "*", None),
    ("unknown", "nosuch", [], "UnknownResourceError", None),
    ("signature", "Arc.archive", b"", "ResourceAlreadySetError", None),
    ("index", "mv_index", b"", "UnknownResourceError", None),
]

N_OPS = len(OPS)


def placed():
    """one object that cannot be written, at every place of a list and of lists of lists, with every way to be wrong"""
    def ways(attributes):
        for k in attributes:
            yield "without " + k, without(attributes, k), "MissingFieldError"
            yield "bad type of " + k, dict(attributes, **{k: "no number"}), "*"
        yield "extra", dict(attributes, q=1), "UnknownFieldError"
        yield "nothing", {}, "MissingFieldError"
    for length in range(1, 5):
        for pos in range(length):
            for way, bad, err in ways(b2):
                yield ("vec %s at %d of %d" % (way, pos, length), "vec", [bad if i == pos else b1 for i in range(length)], err, None)
    for shape in [s for n in (1, 2, 3) for s in itertools.product(range(4), repeat=n) if 0 < sum(s) <= 4]:
        for li, length in enumerate(shape):
            for pos in range(length):
                for good, attributes, make in (("A", a1, mva), ("B", b1, mvb)):
                    bads = [(w, make(b), e) for w, b, e in ways(attributes)]
                    bads.append(("unknown structure", {"name": "n_Z", "attributes": dict(attributes)}, "UnknownStructureError"))
                    for way, bad, err in bads:
                        value = [[bad if (i, j) == (li, pos) else (mva(a2) if (i + j) % 2 else mvb(b2)) for j in range(l)] for i, l in enumerate(shape)]
                        yield ("mv %s %s at %d,%d of %s" % (good, way, li, pos, shape), "mv", value, err, None)


OPS += list(placed())

MODULE = None


def schema_of(resource):
    """Schema text stored along with a resource: what a reader generated from the same tree expects."""
    return MODULE.n_Arc.resource_schema(resource)


def snapshot(path):
    out = {}
    for root, _dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = h.read()
    return out


def diff(expected, got):
    out = []
    for k in sorted(set(expected) | set(got)):
        e, g = expected.get(k), got.get(k)
        if e != g:
            out.append("%s: expected %s, is %s" % (k, e if e is None else e[:200],
                                                   g if g is None else g[:200]))
    return "\n".join(out)


def run_history(hist, base, tag):
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    from flatdata.lib.file_resource_storage import FileResourceStorage
    path = os.path.join(base, tag)
    os.mkdir(path)
    arc = MODULE.n_Arc
    expected = {"Arc.archive": b"\0" * 16, "Arc.archive.schema": arc.schema().encode()}
    done = {}
    outcomes = []
    try:
        builder = MODULE.n_ArcBuilder(ResourceStorage(FileResourceWriter(), path))
        for step, k in enumerate(hist):
            label, res, value, err, files = OPS[k]
            want = err
            if res in done and err is None or res in done and err != "UnknownResourceError":
                want = "ResourceAlreadySetError"
            before = repr(value)
            got = vlib.outcome(builder.set, res, value)
            if repr(value) != before:
                return "step %d (%s): the caller's data was modified" % (step, label), outcomes
            outcomes.append((label, got[1] if got[0] == "err" else "ok"))
            if want is None:
                if got[0] != "ok":
                    return "step %d (%s) raised %r" % (step, label, got[2]), outcomes
                done[res] = value
                expected.update(files)
                expected[res + ".schema"] = schema_of(res).encode()
                if res == "mv":
                    expected["mv_index.schema"] = ("index(%s)" % schema_of(res)).encode()
            elif got[0] != "err" or (want != "*" and got[1] != want):
                return "step %d (%s): expected %s, got %s %s" % (step, label, want, got[0], got[1]), \
                    outcomes
            d = diff(expected, snapshot(path))
            if d:
                return "after step %d (%s), directory differs from the model:\n%s" % (
                    step, label, d), outcomes
        builder.finish()
        d = diff(expected, snapshot(path))
        if d:
            return "after finish, directory differs from the model:\n%s" % d, outcomes
        # open what was written
        opened = vlib.outcome(arc, FileResourceStorage(path))
        mandatory = {"inst", "vec", "mv", "raw"}
        if mandatory <= set(done):
            if opened[0] != "ok":
                return "complete archive cannot be opened: %r" % (opened[2],), outcomes
            msg = read_back(opened[1], done)
            if msg:
                return msg, outcomes
        elif opened[0] == "ok" or opened[1] != "MissingResourceError":
            return "archive without %s: opening gave %s %s" % (
                sorted(mandatory - set(done)), opened[0], opened[1]), outcomes
        return None, outcomes
    finally:
        for f in os.listdir(path):
            os.unlink(os.path.join(path, f))
        os.rmdir(path)


def read_back(arc, done):
    if arc.inst.a != done["inst"]["a"] or {k: getattr(arc.inst, k) for k in done["inst"]} != done["inst"]:
        return "inst reads %r" % (arc.inst[0].as_dict(),)
    if [i.as_dict() for i in (arc.vec if done["vec"] else [])] != done["vec"]:
        return "vec reads differently"
    if done["mv"]:
        got = [[{"name": type(e).__name__, "attributes": e.as_dict()} for e in l] for l in arc.mv]
        if got != done["mv"]:
            return "mv reads %r" % (got,)
    if done["raw"] and bytes(arc.raw[0:len(arc.raw)]) != bytes(done["raw"]):
        return "raw reads %r" % (bytes(arc.raw[0:len(arc.raw)]),)
    if ("opt" in done) != (arc.opt is not None):
        return "opt is %r, model: %r" % (arc.opt, done.get("opt"))
    if "opt" in done and [i.as_dict() for i in arc.opt] != done["opt"]:
        return "opt reads differently"
    return None


COMPLETE = [[0, 4, 10, 17], [1, 6, 12, 18], [0, 5, 11, 18]]


def histories(thorough):
    n = N_OPS
    for k in range(N_OPS, len(OPS)):
        yield (k,)
    for depth in range(0, 4 if thorough else 3):
        yield from itertools.product(range(n), repeat=depth)
    # every complete archive, in every order, with every one (two) further operations interleaved
    for base in COMPLETE:
        for perm in itertools.permutations(base):
            yield perm
            for extra in range(n):
                for pos in range(5):
                    yield perm[:pos] + (extra,) + perm[pos:]
            if thorough:
                for e1 in range(n):
                    for e2 in range(n):
                        yield (e1,) + perm + (e2,)
                        yield (e1, e2) + perm


def job(args):
    part, parts, thorough, only = args
    global MODULE
    vlib.repo_on_path()
    MODULE = vlib.python_module(SCHEMA)
    n, outs, bad = 0, set(), []
    with vlib.scratch() as base:
        for i, hist in enumerate(histories(thorough)):
            if i % parts != part:
                continue
            case = " ; ".join(OPS[k][0] for k in hist)
            if only is not None and case != only:
                continue
            n += 1
            msg, outcomes = run_history(hist, base, str(i))
            outs.add(hashlib.sha1(repr(outcomes).encode()).hexdigest()[:16])
            if msg:
                bad.append((case, msg))
                if len(bad) > 3:
                    break
    return n, outs, bad


INDEX_SCHEMA = """namespace n { struct T { t : u8 : 8; }
archive Arc { mv : multivector< %d, T >; } }"""


def index_limits(check):
    """Multivector data sizes around what its index can address: stored faithfully or rejected."""
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    from flatdata.lib.file_resource_storage import FileResourceStorage
    t = rm.S("T", [("t", "u8", 8)])
    widths = (3, 7, 8, 9, 12, 15, 16) + ((17,) if check.thorough else ())
    for width in widths:
        module = vlib.python_module(INDEX_SCHEMA % width)
        limit = (1 << width) - 1
        for count in sorted({0, 1, limit // 2 - 1, limit // 2, limit // 2 + 1, limit, 2 * limit}):
            for split in (False, True):
                case = "index width=%d entries=%d split=%d" % (width, count, split)
                if count < 0 or not check.wants(case):
                    continue
                check.count()
                items = [(0, {"t": i % 251}) for i in range(count)]
                lists = [items[:1], items[1:], []] if split else [items]
                data = [[{"name": "n_T", "attributes": v} for _, v in l] for l in lists]
                with vlib.scratch() as path:
                    builder = module.n_ArcBuilder(ResourceStorage(FileResourceWriter(), path))
                    empty = snapshot(path)
                    got = vlib.outcome(builder.set, "mv", data)
                    builder.finish()
                    if 2 * count > limit:
                        check.expect(got[0] == "err", case, "data beyond the index was accepted")
                        check.expect(snapshot(path) == empty, case, "rejected data left a trace")
                        continue
                    if not check.expect(got[0] == "ok", case, lambda: "raised %r" % (got[2],)):
                        continue
                    index, blob = rm.multivector([t], width, lists)
                    files = snapshot(path)
                    check.expect(files["mv"] == blob and files["mv_index"] == index, case,
                                 "files differ from the model")
                    arc = module.n_Arc(FileResourceStorage(path))
                    back = [[e.as_dict() for e in l] for l in arc.mv]
                    check.expect(back == [[v for _, v in l] for l in lists], case, "reads differently")


FORMS_SCHEMA = """namespace n { struct T { t : u8 : 8; u : i16 : 9; b : bool; w : u64 : 64; x : i64 : 50; } struct U { v : u32 : 31; }
archive Arc { i : T; v : vector< T >; mv : multivector< 12, T, U >; r : raw_data; } }"""


def forms(check):
    """The same data as lists, tuples, iterators, ordered dictionaries, of values of the types of numpy, as buffers."""
    import collections
    import numpy as np
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    module = vlib.python_module(FORMS_SCHEMA)
    ts = [{"t": 255, "u": -256, "b": True, "w": (1 << 64) - 1, "x": -1 << 49}, {"t": 0, "u": 255, "b": False, "w": 1 << 63, "x": 5},
          {"t": 128, "u": -1, "b": True, "w": 7, "x": (1 << 49) - 1}]
    us = [{"v": (1 << 31) - 1}, {"v": 0}]
    obj = lambda n, v: {"name": "n_" + n, "attributes": v}  # noqa: E731
    items = [[obj("T", ts[0]), obj("U", us[0])], [], [obj("U", us[1])], [obj("T", ts[2]), obj("T", ts[1]), obj("U", us[0])]]
    raw = bytes(range(256)) * 2
    numpy_types = {"t": np.uint8, "u": np.int16, "b": np.bool_, "w": np.uint64, "x": np.int64, "v": np.uint32}

    def numpied(v):
        return {k: numpy_types[k](x) for k, x in v.items()}

    ways = {
        "lists": (dict, list, lambda o: o, lambda r: r),
        "tuples": (dict, tuple, lambda o: o, bytearray),
        "iterators": (dict, iter, lambda o: o, memoryview),
        "generators": (lambda v: dict(reversed(list(v.items()))), lambda l: (x for x in l), lambda o: o, lambda r: np.frombuffer(r, np.uint8)),
        "ordered dictionaries": (lambda v: collections.OrderedDict(sorted(v.items())), collections.deque, collections.OrderedDict, lambda r: r),
        "numpy": (numpied, lambda l: np.array(l, dtype=object), lambda o: o, lambda r: np.frombuffer(r, np.uint32)),
    }
    reference = None
    for way, (d, l, o, r) in ways.items():
        if not check.wants("form " + way):
            continue
        with vlib.scratch() as path:
            def run():
                builder = module.n_ArcBuilder(ResourceStorage(FileResourceWriter(), path))
                builder.set("i", d(ts[0]))
                builder.set("v", l([d(t) for t in ts]))
                many_ = [l([o(dict(e, attributes=d(e["attributes"]))) for e in item]) for item in items]
                builder.set("mv", l(many_) if way != "numpy" else many_)
                builder.set("r", r(raw))
                builder.finish()
            check.count()
            got = vlib.outcome(run)
            if got[0] != "ok":
                check.fail("form " + way, "raises %r" % (got[2],))
                continue
            if reference is None:
                t = rm.S("T", [("t", "u8", 8), ("u", "i16", 9), ("b", "bool", 1), ("w", "u64", 64), ("x", "i64", 50)])
                u = rm.S("U", [("v", "u32", 31)])
                index, data = rm.multivector([t, u], 12, [[("TU".index(e["name"][2]), e["attributes"]) for e in item] for item in items])
                reference = {"i": rm.frame(t.pack(ts[0])), "v": rm.vector(t, ts), "mv": data, "mv_index": index, "r": rm.frame(raw)}
            files = snapshot(path)
            for name, want in reference.items():
                check.expect(files.get(name) == want, "form " + way, name + " differs from the model")


def body(check):
    forms(check)
    index_limits(check)
    for types in (129, 200, 256):
        many.python(check, True, types)
    check.rule = ("all sequences of builder.set calls over %d operations (valid, invalid, repeated, "
                  "unknown) up to the depth, plus all orders of complete archives with every further "
                  "call interleaved; each followed by finish, directory comparison after every step "
                  "and read-back; %d values with one thing wrong, at every place; distinct: sequences of outcomes" % (N_OPS, len(OPS) - N_OPS))
    res = vlib.parallel(job, [(p, 8, check.thorough, check.only) for p in range(8)])
    outs = set()
    for n, o, bad in res:
        check.count(n)
        outs |= o
        for case, msg in bad:
            check.fail(case, msg)
    check.extra["distinct_nontrivial"] = len(outs)
    check.sample(" ; ".join(OPS[k][0] for k in (0, 7, 6, 12, 18)))


if __name__ == "__main__":
    c = vlib.Check("P05", "exploration")
    vlib.run_check(c, body)
