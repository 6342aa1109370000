"""P07: every index and slice of Python containers of every small size (and sizes around the display
limit) on the real resource classes, against Python lists of the stored values."""
import ast
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import many
import refmodel as rm

# Field names chosen so that neither alphabetical nor hash order is the declaration order.
A = rm.S("A", [("zeta", "u32", 7), ("beta", "i16", 9), ("omega", "u8", 1), ("alpha", "i32", 30),
               ("mid", "bool", 1)])
B = rm.S("B", [("x", "u8", 3), ("y", "u64", 64), ("w", "i64", 61), ("e", "i8", 8), ("d", "u16", 16),
               ("c", "i64", 64)])
C = rm.S("C", [("only", "u8", 8)])
STRUCTS = {"A": A, "B": B, "C": C}
SCHEMA = """
namespace n {
%s
%s
%s
archive Arc {
    i : B;
    va : vector< A >;
    vb : vector< B >;
    vc : vector< C >;
    mv : multivector< 40, A, B, C >;
    raw : raw_data;
}
}
""" % (A.text(), B.text(), C.text())


def signed(w, v):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def value(struct, k):
    """the k-th test value: element 0 all zero, 1 all ones, others a spread pattern"""
    out = {}
    for n, (name, t, w, _o) in enumerate(struct.fields):
        raw = 0 if k == 0 else (1 << w) - 1 if k == 1 else (0x9E3779B97F4A7C15 * (k * 7 + n + 1)) >> (64 - w) if w < 64 else \
            (0x9E3779B97F4A7C15 * (k * 7 + n + 1))
        raw &= (1 << w) - 1
        if t.startswith("i") and w > 1:
            raw = signed(w, raw)
        elif t.startswith("i"):
            raw = raw
        out[name] = bool(raw) if t == "bool" else raw
    return out


def plain(v):
    """comparable form of a value read from a container"""
    return {k: int(x) for k, x in v.items()}


def rows(array):
    return [tuple(int(x) for x in r) for r in array]


class Case:
    def __init__(self, check, module):
        self.check, self.module = check, module

    def eq(self, case, got, want):
        self.check.count()
        if got[0] != "ok" or got[1] != want:
            self.check.fail(case, "got %r\nexpected %r" % (got[1:], want))

    def err(self, case, got, name="IndexError"):
        self.check.count()
        if got[0] != "err" or got[1] != name:
            self.check.fail(case, "got %r, expected %s" % (got[:2], name))


def slices(n, lim):
    bounds = [None] + list(range(-n - lim, n + lim + 1))
    for start in bounds:
        for stop in bounds:
            for step in (None, 1, 2, 3, n + 1, -1, -2, -3, -n - 1):
                yield slice(start, stop, step)


def names(struct):
    return [f[0] for f in struct.fields]


def struct_element(t, case, e, struct, want):
    """one element against its values through every access path"""
    order = names(struct)
    want = {k: want[k] for k in order}
    tup = tuple(int(want[k]) for k in order)
    o = vlib.outcome
    t.eq(case + ".as_dict", o(lambda: list(plain(e.as_dict()).items())), [(k, int(want[k])) for k in order])
    t.eq(case + ".as_tuple", o(lambda: tuple(int(x) for x in e.as_tuple())), tup)
    t.eq(case + ".as_list", o(lambda: [int(x) for x in e.as_list()]), list(tup))
    t.eq(case + " iter", o(lambda: tuple(int(x) for x in e)), tup)
    t.eq(case + ".attr", o(lambda: tuple(int(getattr(e, k)) for k in order)), tup)
    t.eq(case + ".nparray", o(lambda: (rows(e.as_nparray()), list(e.as_nparray().dtype.names))), ([tup], order))
    t.eq(case + " repr", o(lambda: [(k, int(v)) for k, v in json.loads(repr(e))["attributes"].items()]),
         list(zip(order, tup)))
    t.eq(case + ".schema", o(lambda: "struct %s\n{" % struct.name in e.schema() and e.schema() == type(e)._SCHEMA), True)
    t.eq(case + " dir", o(lambda: sorted(dir(e))), sorted(order))
    t.err(case + ".no_such_field", o(lambda: e.no_such_field), "AttributeError")


def numpy_indices(t, label, container, n, show, want):
    """indices of the types of numpy, as they come out of vectors converted to arrays"""
    import numpy as np
    for ty in (np.uint8, np.int8, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        for i in {-n, -1, 0, 1, n // 2, n - 1, n, 127, 128, 255}:
            if np.iinfo(ty).min <= i <= np.iinfo(ty).max:
                case = "%s[%s(%d)]" % (label, ty.__name__, i)
                if -n <= i < n:
                    t.eq(case, vlib.outcome(lambda: show(container[ty(i)])), want[i])
                else:
                    t.err(case, vlib.outcome(lambda: container[ty(i)]))


def vector_case(t, vec, struct, values, label, n_slices):
    o = vlib.outcome
    n = len(values)
    want = [plain(v) for v in values]
    order = names(struct)
    tup = [tuple(v[k] for k in order) for v in want]
    t.eq(label + " len", o(lambda: len(vec)), n)
    t.eq(label + " size_in_bytes", o(lambda: vec.size_in_bytes()), 16 + n * struct.size)
    t.eq(label + " iter", o(lambda: [plain(e.as_dict()) for e in vec]), want)
    t.eq(label + " iter twice", o(lambda: [a.as_dict() == b.as_dict() for a, b in zip(vec, vec)]), [True] * n)
    t.eq(label + " reversed", o(lambda: [plain(e.as_dict()) for e in reversed(vec)]), want[::-1])
    idx = range(-n - 3, n + 4) if n < 20 else [-n - 1, -n, -1, 0, 1, n // 2, n - 1, n]
    for i in idx:
        case = "%s[%d]" % (label, i)
        if -n <= i < n:
            t.eq(case, o(lambda: plain(vec[i].as_dict())), want[i])
            if n < 4:
                struct_element(t, case, vec[i], struct, values[i])
        else:
            t.err(case, o(lambda: vec[i]))
    numpy_indices(t, label, vec, n, lambda e: plain(e.as_dict()), want)
    for s in n_slices:
        case = "%s[%s:%s:%s]" % (label, s.start, s.stop, s.step)
        t.eq(case, o(lambda: [plain(e.as_dict()) for e in vec[s]]), want[s])
        t.eq(case + ".to_numpy", o(lambda: rows(vec[s].to_numpy())), tup[s])
        t.check.nontrivial((label, len(want[s]) if s.step is None else len(want[s]), s.step))
    few = [slice(None), slice(None, None, -1), slice(1, None), slice(0, 0), slice(-2, None)]
    for s in few:
        case = "%s[%s:%s:%s]" % (label, s.start, s.stop, s.step)
        for limit in (1, 2, 3, 99, 100, 101, 500):
            t.eq(case + ".to_numpy(%d)" % limit, o(lambda: rows(vec[s].to_numpy(limit))), tup[s][:limit])
        t.eq(case + ".to_data_frame", o(lambda: (list(vec[s].to_data_frame().columns),
                                                 [tuple(int(x) for x in r) for r in
                                                  vec[s].to_data_frame().itertuples(index=False, name=None)])),
             (order, tup[s]))
        t.eq(case + ".to_data_frame(limit)", o(lambda: len(vec[s].to_data_frame(limit=2))), min(2, len(tup[s])))
        for f in (order[0], order[-1]):
            t.eq(case + "." + f, o(lambda: [int(x) for x in getattr(vec[s], f)[f]]), [v[f] for v in want[s]])
        text = o(lambda: repr(vec[s]))
        t.check.count()
        if text[0] != "ok":
            t.check.fail(case + " repr", "raised %r" % (text[2],))
        elif tup[s]:
            import pandas as pd
            import numpy as np
            expected = repr(pd.DataFrame(np.array(tup[s][:100], dtype=vec[0].dtype()),
                                         columns=order))
            # compare the printed values, not pandas' layout
            digits = lambda x: [w for w in x.replace("\\", " ").split()]
            got = text[1].split("\n", 1)
            if len(got) != 2 or digits(got[1]) != digits(expected):
                t.check.fail(case + " repr", "shows\n%s\nexpected\n%s" % (text[1], expected))
    t.eq(label + ".to_data_frame", o(lambda: [tuple(int(x) for x in r) for r in
                                              vec.to_data_frame().itertuples(index=False, name=None)]), tup)
    for f in order:
        t.eq(label + "." + f, o(lambda: [int(x) for x in getattr(vec, f)[f]]), [v[f] for v in want])
    check_repr(t, label, vec, n, 16 + n * struct.size, [struct])


def check_repr(t, label, res, n, size, structs):
    got = vlib.outcome(lambda: json.loads(repr(res)))
    t.check.count()
    if got[0] != "ok":
        t.check.fail(label + " repr", "raised %r" % (got[2],))
        return
    r = got[1]
    if r["size"] != n or r["size_in_bytes"] != size or \
            [[(a["name"], a["offset"], a["width"], a["is_signed"]) for a in e["attributes"]]
             for e in r["element_types"]] != \
            [[(f, off, w, ty.startswith("i")) for f, ty, w, off in s.fields] for s in structs]:
        t.check.fail(label + " repr", "describes %r" % (r,))


def body(check):
    check.rule = ("every index in [-n-3, n+3] and every slice (start, stop in [-n-2, n+2] or absent, "
                  "step in +-{1,2,3,n+1} or absent) of every container size, evaluated on the opened archive "
                  "and compared with the same operation on a Python list; evaluations = operations compared, "
                  "distinct = (container, result length, step) classes")
    check.assumptions = ["contents: per element one of all-zero, all-one and spread bit patterns",
                         "pandas' table layout is not checked, only the values shown"]
    vlib.repo_on_path()
    module = vlib.python_module(SCHEMA)
    t = Case(check, module)
    with vlib.scratch() as tmp:
        explore(check, t, module, tmp)


def opener(module, tmp):
    """open_with({file: content}) -> the archive with these files, all others empty"""
    from flatdata.lib.file_resource_storage import FileResourceStorage
    Arc = module.n_Arc
    schemas = {r: Arc.resource_schema(r) for r in ("i", "va", "vb", "vc", "mv", "raw")}
    base = {"Arc.archive": rm.frame(b""), "Arc.archive.schema": Arc.schema().encode(),
            "mv_index.schema": ("index(%s)" % schemas["mv"]).encode(), "mv_index": rm.frame(b"\0" * 5),
            "i": rm.frame(b"\0" * B.size)}
    for r in ("va", "vb", "vc", "mv", "raw"):
        base[r] = rm.frame(b"")
    for r in schemas:
        base[r + ".schema"] = schemas[r].encode()
    counter = [0]

    def open_with(files):
        counter[0] += 1
        d = os.path.join(tmp, "a%d" % counter[0])
        os.mkdir(d)
        for f, c in dict(base, **files).items():
            with open(os.path.join(d, f), "wb") as out:
                out.write(c)
        arc = Arc(FileResourceStorage(d))
        vlib.shutil.rmtree(d)
        return arc
    return open_with


def explore(check, t, module, tmp):
    open_with = opener(module, tmp)
    maxn = 7 if check.thorough else 5
    sizes = list(range(maxn + 1))

    # vectors
    for sname, struct in STRUCTS.items():
        for n in sizes + [99, 100, 101, 102, 128, 260]:
            values = [value(struct, k) for k in range(n)]
            res = "v" + sname.lower()
            vec = getattr(open_with({res: rm.vector(struct, values)}), res)
            sl = list(slices(n, 2)) if n <= maxn else [slice(None), slice(None, None, -1), slice(0, 100),
                                                       slice(0, 101), slice(1, None, 2), slice(n + 1, None)]
            vector_case(t, vec, struct, values, "vector<%s> n=%d" % (sname, n), sl)

    # instance
    for k in range(4):
        v = value(B, k)
        inst = open_with({"i": rm.frame(B.pack(v))}).i
        label = "instance %d" % k
        o = vlib.outcome
        t.eq(label + " len", o(lambda: len(inst)), 1)
        t.eq(label + " iter", o(lambda: [plain(e.as_dict()) for e in inst]), [plain(v)])
        for i in range(-4, 5):
            case = "%s[%d]" % (label, i)
            if i in (0, -1):
                t.eq(case, o(lambda: plain(inst[i].as_dict())), plain(v))
                struct_element(t, case, inst[i], B, v)
            else:
                t.err(case, o(lambda: inst[i]))
        numpy_indices(t, label, inst, 1, lambda e: plain(e.as_dict()), [plain(v)])
        for sl in (slice(None), slice(0, 1), slice(-1, None, -1)):
            t.err("%s[%s:%s:%s]" % (label, sl.start, sl.stop, sl.step), o(lambda: inst[sl]))
        for f in names(B):
            t.eq(label + "." + f, o(lambda: int(getattr(inst, f))), int(v[f]))
        check_repr(t, label, inst, 1, 16 + B.size, [B])

    # multivectors: all lists of up to 3 buckets, each one of the bucket alphabet
    import itertools
    S3 = [A, B, C]
    buckets = [[], [0], [2], [1, 0], [2, 2, 1]] if not check.thorough else \
        [list(b) for k in range(4) for b in itertools.product(range(3), repeat=k)][:25]
    maxlen = 3
    for n in range(maxlen + 1):
        for combo in itertools.product(buckets, repeat=n):
            count = 0
            lists = []
            for b in combo:
                lists.append([])
                for pos in b:
                    lists[-1].append((pos, value(S3[pos], count % 5)))
                    count += 1
            index, data = rm.multivector(S3, 40, lists)
            mv = open_with({"mv": data, "mv_index": index}).mv
            label = "multivector %s" % (combo,)
            want = [[plain(v) for _, v in l] for l in lists]
            got = lambda bucket: [plain(e.as_dict()) for e in bucket]
            o = vlib.outcome
            t.eq(label + " len", o(lambda: len(mv)), n)
            t.eq(label + " iter", o(lambda: [got(b) for b in mv]), want)
            t.eq(label + " types", o(lambda: [[type(e).__name__ for e in b] for b in mv]),
                 [["n_" + S3[p].name for p, _ in l] for l in lists])
            for i in range(-n - 3, n + 4):
                case = "%s[%d]" % (label, i)
                if -n <= i < n:
                    t.eq(case, o(lambda: got(mv[i])), want[i])
                else:
                    t.err(case, o(lambda: mv[i]))
            # slices: full range for a representative subset, fewer for the others
            sl = slices(n, 2) if len(set(map(tuple, combo))) == n else \
                [slice(None), slice(None, None, -1), slice(1, None), slice(-2, -1)]
            for s in sl:
                t.eq("%s[%s:%s:%s]" % (label, s.start, s.stop, s.step), o(lambda: [got(b) for b in mv[s]]), want[s])
            numpy_indices(t, label, mv, n, got, want)
            t.eq(label + " index in repr", o(lambda: [(a["name"], a["offset"], a["width"], a["is_signed"]) for a in
                                                      json.loads(repr(mv))["index_type"]["attributes"]]), [("value", 0, 40, False)])
            t.eq(label + " elements in repr of slices", o(lambda: [
                [json.loads(repr(e)) for e in b] for b in mv[:]] == eval(repr(mv[:]).replace("false", "False").replace("true", "True"))), True)  # pylint: disable=eval-used
            t.eq(label + "[:] repr", o(lambda: len(repr(mv[:])) > 0), True)
            check_repr(t, label, mv, n, len(data), S3)
            check.nontrivial("mv %s" % (combo,))

    # raw data
    for n in sizes + [40]:
        for content in ([bytes((i * 37 + 1) % 256 for i in range(n))] +
                        ([b"\0" * n, b"\xff" * n] if n else [])):
            raw = open_with({"raw": rm.frame(content)}).raw
            label = "raw %r" % content
            o = vlib.outcome
            t.eq(label + " len", o(lambda: len(raw)), n)
            t.eq(label + " iter", o(lambda: [bytes(x) for x in itertools.islice(iter(raw), n + 3)]),
                 [content[i:i + 1] for i in range(n)])
            for i in (range(-n - 3, n + 4) if n < 20 else [-n - 1, -n, -1, 0, n - 1, n, n + 7, n + 8]):
                case = "%s[%d]" % (label, i)
                if -n <= i < n:
                    t.eq(case, o(lambda: bytes(raw[i])), bytes([content[i]]))
                else:
                    t.err(case, o(lambda: raw[i]))
            for s in (slices(n, 9) if n < 4 else slices(n, 1) if n < 20 else [slice(None), slice(3, -3, 2), slice(None, None, -1)]):
                t.eq("%s[%s:%s:%s]" % (label, s.start, s.stop, s.step), o(lambda: bytes(raw[s])), content[s])
            numpy_indices(t, label, raw, n, bytes, [content[i:i + 1] for i in range(n)])
            check_repr(t, label, raw, n, n + 16, [])

    for types in (129, 200, 256):
        many.python(check, False, types)

    # strings in raw data: all sequences of up to 3 strings
    words = ["", "a", "xyz", "\u00e4\u20ac"]
    for n in range(0, 4):
        for combo in itertools.product(words, repeat=n):
            blob = b"".join(w.encode() + b"\0" for w in combo)
            raw = open_with({"raw": rm.frame(blob)}).raw
            label = "strings %r" % (combo,)
            pos = 0
            for k, w in enumerate(combo):
                t.eq("%s sub_str(%d)" % (label, pos), o(lambda: raw.sub_str(pos)), w)
                for m in range(1, n - k + 1):
                    t.eq("%s sub_str_array(%d,%d)" % (label, pos, m), o(lambda: raw.sub_str_array(pos, m)),
                         list(combo[k:k + m]))
                pos += len(w.encode()) + 1
            if "" not in combo:
                raw2 = open_with({"raw": rm.frame(blob + b"\0")}).raw
                t.eq(label + " sub_str_list", o(lambda: raw2.sub_str_list(0)), list(combo))

    # other separators
    words = ["", "x", "y z", "\u00e4\u20ac"]
    for sep in (b"\0", b"|", b"--", b"\0\1\2", b"ab"):
        for n in range(0, 4):
            for combo in itertools.product(words, repeat=n):
                raw = open_with({"raw": rm.frame(b"".join(w.encode() + sep for w in combo))}).raw
                label = "strings %r separated by %r" % (combo, sep)
                pos = 0
                for k, w in enumerate(combo):
                    t.eq("%s sub_str(%d)" % (label, pos), vlib.outcome(lambda: raw.sub_str(pos, sep)), w)
                    for m in range(0, n - k + 1):
                        t.eq("%s sub_str_array(%d,%d)" % (label, pos, m), vlib.outcome(lambda: raw.sub_str_array(pos, m, sep)), list(combo[k:k + m]))
                    pos += len(w.encode()) + len(sep)
                if "" not in combo:
                    raw2 = open_with({"raw": rm.frame(b"".join(w.encode() + sep for w in combo) + b"END")}).raw
                    t.eq(label + " sub_str_list", vlib.outcome(lambda: raw2.sub_str_list(0, sep, b"END")), list(combo))

    # the order of the fields must not depend on the hash seed (sets of strings iterate in hash order)
    code = ("import sys; sys.path.insert(0, %r); import vlib; vlib.repo_on_path()\n"
            "m = vlib.python_module(%r)\nfrom flatdata.lib import resources as R\n"
            "e = R.Vector(%r, m.n_A)[0]\nprint([int(x) for x in e], dir(e) and sorted(dir(e)), "
            "[int(x) for x in e.as_list()], list(e.as_dict()), e.as_nparray().dtype.names)" % (
                os.path.join(vlib.VERIF, "lib"), SCHEMA, rm.vector(A, [value(A, 2)])))
    order = names(A)
    v = [int(value(A, 2)[k]) for k in order]
    expected = str(v) + " " + str(sorted(order)) + " " + str(v) + " " + str(order) + " " + str(tuple(order))
    seeds = range(16 if check.thorough else 4)
    procs = [(s, subprocess.Popen([vlib.PY, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=dict(os.environ, PYTHONHASHSEED=str(s)))) for s in seeds]
    for s, p in procs:
        out, errtext = p.communicate()
        t.check.count()
        if p.returncode != 0 or out.strip() != expected:
            check.fail("hash seed %d" % s, "prints %s%s\nexpected %s" % (out, errtext[-500:], expected))
    check.sample("vector<A> n=3 [-5:2:-1] -> the elements of list[-5:2:-1]")
    check.sample("raw b'\\x01&K'[2:-1:-3]")
    check.sample("multivector ([0], [], [2,2,1])[-4] -> IndexError")


vlib.run_check(vlib.Check("P07", "exploration"), body)
