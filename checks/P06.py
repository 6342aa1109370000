"""P06: every file-level fault (and pair of coarse faults) of an archive with all resource kinds,
presented to the real Python reader from a directory and from a tar file."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import fixture as fx

M = "MissingResourceError"
S = "SchemaMismatchError"
C = "CorruptResourceError"


def is_schema(f):
    return f.endswith(".schema")


def apply_fault(data, fault):
    """fault: ('del',) | ('cut', n) | ('sub', i, byte) | ('ins', i, byte) | ('drop', i)
    -> new data or None (absent)"""
    kind = fault[0]
    if kind == "del":
        return None
    if kind == "cut":
        return data[:fault[1]]
    if kind == "sub":
        return data[:fault[1]] + bytes([fault[2]]) + data[fault[1] + 1:]
    if kind == "ins":
        return data[:fault[1]] + bytes([fault[2]]) + data[fault[1]:]
    if kind == "drop":
        return data[:fault[1]] + data[fault[1] + 1:]
    raise ValueError(kind)


def resource_of(f):
    """path of the resource (or signature) a file belongs to, and its role"""
    role = "data"
    if is_schema(f):
        f, role = f[:-7], "schema"
    if f.endswith("_index"):
        f, role = f[:-6], "index" if role == "data" else "index schema"
    return f, role


def scope(path):
    return path.split("/")[0] if "/" in path else ""


def short(data):
    """ends before the data it announces, and its padding"""
    return len(data) < 16 or len(data) < 16 + int.from_bytes(data[:8], "little")


def oracle(base, files):
    """What opening must do: ('ok', present) or ('err', set of acceptable error names) or None
    (not specified). Computed from the contents alone."""
    status = {}     # resource path -> 'ok' | 'absent' | set of error names | 'any'
    paths = {resource_of(f)[0] for f in base}
    unspecified = False
    for p in paths:
        schema, data = files.get(p + ".schema"), files.get(p)
        index = files.get(p + "_index", b"" if p + "_index" not in base else None)
        if schema is None:
            status[p] = "absent"
            continue
        if schema != base[p + ".schema"]:
            ascii_only = all(c < 128 for c in schema)
            status[p] = {S} if ascii_only else {S, "*"}
            continue
        if data is None or index is None:
            status[p] = "absent"
            continue
        if short(data) or (p + "_index" in base and short(index)):
            status[p] = {C}
            continue
        if data != base[p] or (p + "_index" in base and index != base[p + "_index"]):
            unspecified = True      # a consistent reader may or may not notice
        status[p] = "ok"
    errors = set()
    absent = set()

    def has_dir(d):
        return any(f.startswith(d + "/") for f in files)

    for p, st in status.items():
        d = scope(p)
        if d and not has_dir(d):
            continue
        optional = p in fx.OPTIONAL
        if st == "ok":
            continue
        if st == "absent":
            if optional:
                absent.add(p)
            else:
                errors.add(M)
        else:
            errors |= st
    for d in ("sub", "osub"):
        if not has_dir(d):
            if d in fx.OPTIONAL:
                absent.add(d)
            else:
                errors.add(M)
    if errors:
        return "err", errors
    if unspecified:
        return None
    return "ok", absent


def judge(module, base, files, storage):
    want = oracle(base, files)
    got = vlib.outcome(module.n_Arc, storage)
    if want is None:
        return None
    if want[0] == "err":
        if got[0] == "ok":
            return "opened, expected one of %s" % sorted(want[1])
        names = {c.__name__ for c in type(got[2]).__mro__}
        if "*" not in want[1] and not names & want[1]:
            return "raised %r, expected one of %s" % (got[2], sorted(want[1]))
        return None
    if got[0] != "ok":
        return "raised %r, expected to open (absent: %s)" % (got[2], sorted(want[1]))
    return fx.compare_py(got[1], fx.CONTENT, lambda p: p not in want[1])


COARSE_SCHEMA = [("del",), ("cut", 0), ("sub", 3, ord("X")), ("ins", 5, ord(" ")), ("cut", 10)]
COARSE_DATA = [("del",), ("cut", 0), ("cut", 15), ("cut", 8)]


def coarse(f):
    return COARSE_SCHEMA if is_schema(f) else COARSE_DATA


def faults(base, thorough):
    """Yields (form, tuple of (file, fault))."""
    names = sorted(base)
    yield "both", ()
    for f in names:                                     # single faults
        n = len(base[f])
        for fault in coarse(f):
            yield "tar", ((f, fault),)
        for i in range(n):
            yield "dir", ((f, ("cut", i)),)
        yield "dir", ((f, ("del",)),)
        if is_schema(f):
            for i in range(n):
                yield "dir", ((f, ("drop", i)),)
                for b in ((0x20, 0x58, 0x0a, 0x31, 0xff) if thorough else (0x58, 0x20)):
                    yield "dir", ((f, ("sub", i, b)),)
                    yield "dir", ((f, ("ins", i, b)),)
            for b in (0x20, 0x0a, 0x00, 0x58, 0xff):
                yield "dir", ((f, ("ins", n, b)),)
        else:                                           # wrong sizes
            for i in range(8):
                for b in range(256) if i == 0 or thorough else (0, 1, 2, 4, 8, 16, 32, 64, 128, 255):
                    yield ("both" if i == 7 and b in (1, 128) else "dir"), ((f, ("sub", i, b)),)
    for f, g in itertools.combinations(names, 2):       # pairs of coarse faults
        for x in coarse(f):
            for y in coarse(g):
                yield ("both" if thorough else "dir"), ((f, x), (g, y))
    # every subset of the top-level and sub resources removed completely
    res = sorted({resource_of(f)[0] for f in names})
    top = [r for r in res if "/" not in r]
    for bits in range(1 << len(top)):
        gone = {r for i, r in enumerate(top) if bits >> i & 1}
        yield "both", tuple((f, ("del",)) for f in names if resource_of(f)[0] in gone)
    sub = [r for r in res if "/" in r]
    for bits in range(1 << len(sub)):
        gone = {r for i, r in enumerate(sub) if bits >> i & 1}
        yield "both", tuple((f, ("del",)) for f in names if resource_of(f)[0] in gone)


def job(args):
    part, parts, thorough, only = args
    vlib.repo_on_path()
    from flatdata.lib.file_resource_storage import FileResourceStorage
    from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
    module = vlib.python_module(fx.SCHEMA)
    base = fx.files(fx.py_schemas(module))
    n, bad, kinds = 0, [], {}
    with vlib.scratch() as root:
        d = os.path.join(root, "arc")
        fx.write_dir(d, base)
        for i, (form, combo) in enumerate(faults(base, thorough)):
            if i % parts != part:
                continue
            files = dict(base)
            for f, fault in combo:
                new = apply_fault(files[f], fault)
                if new is None:
                    del files[f]
                else:
                    files[f] = new
            for which in ("dir", "tar"):
                if form not in (which, "both"):
                    continue
                case = "%s %s" % (which, " ".join("%s:%s" % (f, ",".join(map(str, x)))
                                                  for f, x in combo))
                if only is not None and case != only:
                    continue
                n += 1
                want = oracle(base, files)
                kinds[str(want)] = kinds.get(str(want), 0) + 1
                if which == "dir":
                    for f, _ in combo:
                        p = os.path.join(d, f)
                        if f in files:
                            with open(p, "wb") as h:
                                h.write(files[f])
                        elif os.path.exists(p):
                            os.unlink(p)
                    for s in ("sub", "osub"):
                        p = os.path.join(d, s)
                        if not os.listdir(p):
                            os.rmdir(p)
                    msg = judge(module, base, files, FileResourceStorage(d))
                    for f, _ in combo:
                        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                        with open(os.path.join(d, f), "wb") as h:
                            h.write(base[f])
                else:
                    t = os.path.join(root, "arc.tar")
                    with open(t, "wb") as h:
                        h.write(fx.tar_bytes(files))
                    msg = judge(module, base, files, TarArchiveResourceStorage.create(t))
                if msg:
                    bad.append((case, msg))
                    if len(bad) > 5:
                        return n, kinds, bad
    return n, kinds, bad


def body(check):
    check.rule = ("every single fault (absence, every truncation, every byte of every size changed, every character of every schema "
                  "replaced/inserted/dropped), all pairs of coarse faults, all subsets of absent "
                  "resources; distinct: different required outcomes (error kinds / absent sets)")
    kinds = {}
    for n, k, bad in vlib.parallel(job, [(p, 8, check.thorough, check.only) for p in range(8)]):
        check.count(n)
        for key, v in k.items():
            kinds[key] = kinds.get(key, 0) + v
        for case, msg in bad:
            check.fail(case, msg)
    check.extra["distinct_nontrivial"] = len(kinds)
    check.extra["outcomes_opened"] = sum(v for k, v in kinds.items() if k.startswith("('ok'"))
    check.extra["outcomes_rejected"] = sum(v for k, v in kinds.items() if k.startswith("('err'"))
    check.extra["outcomes_unspecified"] = kinds.get("None", 0)
    check.sample("dir vec.schema:sub,17,88 -> SchemaMismatchError")
    check.assumptions = ["a file longer than its size demands is not specified for the Python reader",
                         "index schemas are not compared"]


if __name__ == "__main__":
    c = vlib.Check("P06", "fault_enumeration")
    vlib.run_check(c, body)
