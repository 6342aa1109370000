"""P26: the Rust library: contents written by it are exactly the documented files, it reads what others write, memory storage behaves
like files, and opening damaged archives gives errors (never panics or wrong data)."""
import itertools
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import cpparc as ca
import interop as io
import refmodel as rm
import rustlib
from P04 import run


class Invalid(Exception):
    pass


def read(files, schemas, path):
    """payload of a resource file; None: missing"""
    d = files.get(path)
    if d is None:
        return None
    if files.get(path + ".schema") != schemas[path + ".schema"] or len(d) < 16 or int.from_bytes(d[:8], "little") + 16 != len(d):
        raise Invalid(path)
    return d[8:-8]


def values(struct, data):
    if len(data) % struct.size:
        raise Invalid("size")
    out = []
    for i in range(0, len(data), struct.size):
        v = struct.unpack(data[i:i + struct.size])
        out.append(tuple(v[f[0]] for f in struct.fields))
    return out


def opened(files, schemas, archive="TOP", prefix=""):
    """the content of an archive (as io.contents), None if it is missing, Invalid if it cannot be opened"""
    _cls, name, rs = io.ARCHIVES[archive]
    if read(files, schemas, prefix + name + ".archive") is None:
        return None
    content = {}
    for n, kind, what, optional in rs:
        path = prefix + n
        if kind == "arc":
            c = opened(files, schemas, what, path + "/")
        elif kind == "mv":
            c, index = read(files, schemas, path), read(files, schemas, path + "_index")
            if (c is None) != (index is None):
                raise Invalid(path)
            if c is not None:
                size = (what[0] + 7) // 8
                if not index or len(index) % size:
                    raise Invalid(path)
                offsets = [int.from_bytes(index[i:i + size], "little") for i in range(0, len(index), size)]
                c = [items(what[1], c[a:b]) for a, b in zip(offsets, offsets[1:])]
        else:
            c = read(files, schemas, path)
            if c is not None and kind != "raw":
                if kind == "inst":  # as in C++, more than a structure is accepted
                    if len(c) < what.size:
                        raise Invalid(path)
                    c = c[:what.size]
                c = values(what, c)
                if kind == "vec" and what is io.R and not c:
                    raise Invalid(path)
                if kind == "inst":
                    c = c[0]
        if c is None and not optional:
            raise Invalid(path)
        content[n] = c
    return content


def items(types, data):
    out = []
    while data:
        s = types[data[0]]
        out.append((data[0], values(s, data[1:1 + s.size])[0]))
        data = data[1 + s.size:]
    return out


def setup():
    vlib.repo_on_path()
    io.without_homonyms()
    return vlib.python_module(io.WITHOUT_HOMONYMS)


def content_job(arg):
    exe, root, part, cases = arg
    module = setup()
    bad, lines, want = [], [], []
    top = os.path.join(root, "part%d" % part)
    for k, (name, content) in enumerate(cases):
        expected = io.files(content, module)
        for way in (0, 1, 2):
            for op in "WM":
                want.append((name, way, op, expected, content))
                lines.append("%s %s %d %s" % (op, os.path.join(top, "c%d_%d" % (k, way)), way, io.text(content)))
        path = os.path.join(top, "r%d" % k)
        for n, d in expected.items():
            os.makedirs(os.path.dirname(os.path.join(path, n)), exist_ok=True)
            with open(os.path.join(path, n), "wb") as f:
                f.write(d)
        want.append((name, -1, "R", expected, content))
        lines.append("R " + path)
    for (name, way, op, expected, content), line, answer in zip(want, lines, run(exe, lines)):
        path = line.split(" ")[1]
        if op == "W":
            msg = None if answer == "ok" else "reports " + answer
            msg = msg or io.difference(io.read_dir(path), expected)
            if msg:
                bad.append((name, "Rust (way %d) %s" % (way, msg)))
            shutil.rmtree(path, ignore_errors=True)
        elif answer != io.text(content):
            bad.append((name, "Rust reads %s as %s\nexpected %s"
                        % ("the documented files" if op == "R" else "what it wrote to memory (way %d)" % way, answer, io.text(content))))
        if op == "R":
            shutil.rmtree(path, ignore_errors=True)
    return len(lines), bad, []


def fault_job(arg):
    exe, base_dir, base, cases = arg
    io.without_homonyms()
    bad, kinds = [], set()
    for ops, answer in zip(cases, run(exe, ["D %s %s" % (base_dir, ca.line(ops)) for ops in cases])):
        files = ca.apply_ops(base, ops)
        try:
            c = opened(files, base)
            want = "error" if c is None else io.text(c)
            kinds.add(want)
        except Invalid as e:
            want = "error"
            kinds.add(str(e))
        if (not answer.startswith("error: ")) if want == "error" else answer != want:
            bad.append(("fault " + ca.line(ops), "Rust opens the archive as %s\nexpected %s" % (answer, want)))
            if len(bad) > 200:
                break
    return len(cases), bad, list(kinds)


def history(ops):
    """model of a history: the answers of the steps and the opened archive"""
    out, us, leaf, more = [], None, None, None
    for op in ops:
        kind, k = op[0], int(op[1:])
        if kind in "SG":
            us = [(k if kind == "S" else 100 + k) + i for i in range(k)]
        elif kind == "P":
            us = "unfinished"
        elif kind == "L" and leaf is None:
            leaf = k
        elif kind == "M" and more is None:
            more = k
        elif kind == "E":
            out.append("%d%d1" % (us is not None, leaf is not None))
            continue
        else:
            out.append("error")
            continue
        out.append("ok")
    if not leaf or more == 0 or us == "unfinished":
        return out, "closed"

    def show(k):
        return "{ a %d v %d %s o - }" % (k, k, " ".join(["0"] * (k - 1) + ["7"]))
    return out, "{ leaf %s more %s us %s }" % (show(leaf), show(more) if more else "-",
                                               "-" if us is None else " ".join(map(str, [len(us)] + us)))


STEPS = ["S0", "S1", "S3", "G0", "G2", "P1", "L0", "L1", "M0", "M2", "E0", "A0"]


def history_job(arg):
    exe, root, part, cases = arg
    bad, kinds = [], set()
    lines = ["H %s %s %s" % (os.path.join(root, "h%d_%d" % (part, k)), storage, " ".join(ops)) for k, (storage, ops) in enumerate(cases)]
    for (storage, ops), line, answer in zip(cases, lines, run(exe, lines)):
        steps, end = history(ops)
        words = answer.split(" ")
        got = ["error" if w.startswith("error:") else w for w in words[:len(ops)]], " ".join(w for w in words[len(ops):] if w)
        kinds.add(end)
        if got != (steps, end):
            bad.append(("history %s %s" % (storage, " ".join(ops)), "the history gives %s, expected %s %s" % (answer, steps, end)))
            if len(bad) > 4:
                break
        shutil.rmtree(line.split(" ")[1], ignore_errors=True)
    return len(cases), bad, ["history ending with " + k for k in kinds]


def histories(thorough):
    for storage in "mf":
        for n in range(5 if thorough else 4):
            for ops in itertools.product(STEPS, repeat=n):
                yield storage, ops


# the buffers of growing resources hold 32 MB
def bigs(thorough):
    limit = 32 << 20
    out = []
    for kind, size in (("vec", 16), ("rs", 3), ("mvl", 8)) + ((("mv", 2 + 17 + 7 / 5),) if thorough else ()):
        base = int(limit / size)
        out += [(kind, base + d) for d in ((0, 1, 2, 3) if thorough else (1, 2, 3))]
        if thorough:
            out += [(kind, 2 * base + d) for d in (1, 2, 3, 4)]
    if not thorough:
        out += [("mv", int(limit / 20.4) + 100), ("mv", 2 * int(limit / 20.4) + 100)]
    return out


def big_job(arg):
    exe, root, kind, count = arg
    path = os.path.join(root, "b_%s_%d" % (kind, count))
    answer = run(exe, ["B %s %s %d" % (path, kind, count)])[0]
    shutil.rmtree(path, ignore_errors=True)
    return 1, [("big %s %d" % (kind, count), "growing a resource to %d elements: %s" % (count, answer))] if answer != "ok" else [], ["big " + kind]


def lengths(base):
    """instances, vectors and raw data of every length, correctly framed"""
    for n, kind, what, _o in io.TOP:
        if kind in ("inst", "vec", "raw"):
            p = len(base[n]) - 16
            for k in range(p + 1):
                yield ((n, "L", k),)
            yield ((n, "Z", p + 1),)
            yield ((n, "Z", p + 64),)


def body(check):
    check.rule = ("every content of P04 (without homonymous structures) written to files and to memory in three ways (set, grown in "
                  "memory, grown in the resource), compared with the documented files and read back (forwards, backwards, by index, "
                  "sliced); every fault of P09's alphabet and every payload length against an independent reader; distinct: outcomes")
    check.assumptions = ["a vector of ranges has at least its sentinel", "multivectors whose index does not fit to the data are not specified",
                         "the diff crate is replaced by a stand-in (only texts of errors depend on it)"]
    with vlib.scratch() as root:
        module = setup()
        rust = rustlib.Rust(root)
        with open(os.path.join(vlib.VERIF, "rust", "interop.rs")) as f:
            code = f.read()
        exe, err = rust.compile("interop", code, modules=[("generated.rs", vlib.render(io.WITHOUT_HOMONYMS, "rust"))])
        if exe is None:
            check.fail("compile", "programs using the generated code do not compile:\n" + err)
            return
        cases = [c for c in io.contents(check.thorough) if check.wants(c[0])]
        jobs = [(content_job, (exe, root, k, cases[k::8])) for k in range(8) if cases[k::8]]
        base_content = dict({n: io.alphabet(k, w, o)[0] for n, k, w, o in io.TOP})
        base = io.files(base_content, module)
        base_dir = os.path.join(root, "base")
        for n, d in base.items():
            os.makedirs(os.path.dirname(os.path.join(base_dir, n)), exist_ok=True)
            with open(os.path.join(base_dir, n), "wb") as f:
                f.write(d)
        faults = [ops for ops in list(ca.faults(base, check.thorough, content=False, groups=check.thorough)) + list(lengths(base))
                  if check.wants("fault " + ca.line(ops))]
        jobs += [(fault_job, (exe, base_dir, base, faults[k::16])) for k in range(16) if faults[k::16]]
        steps = [c for c in histories(check.thorough) if check.wants("history %s %s" % (c[0], " ".join(c[1])))]
        jobs += [(history_job, (exe, root, k, steps[k::8])) for k in range(8) if steps[k::8]]
        fast, err = rust.compile("fast", code, flags=["-C", "opt-level=2"],
                                 modules=[("generated.rs", vlib.render(io.WITHOUT_HOMONYMS, "rust"))])
        if fast is None:
            raise RuntimeError(err)
        jobs[:0] = [(big_job, (fast, root, kind, n)) for kind, n in bigs(check.thorough) if check.wants("big %s %d" % (kind, n))]
        for n, bad, kinds in vlib.parallel(dispatch, jobs):
            check.count(n)
            for case, msg in bad:
                check.fail(case, msg)
            for k in kinds:
                check.nontrivial(k)
        for name, _c in cases:
            check.nontrivial(name)
        if check.only is None or check.only.startswith("refs"):
            refs(check, rust)
        check.extra["contents"], check.extra["faults"] = len(cases), len(faults)
    check.sample("fault mid/leaf/v T 9 -> error")
    check.sample("fault oraw D -> oraw absent")


def refs(check, rust):
    """explicit references: every size around every limit, all combinations"""
    with open(os.path.join(vlib.VERIF, "cpp", "refs.flatdata")) as f:
        schema = f.read()
    with open(os.path.join(vlib.VERIF, "rust", "refs.rs")) as f:
        exe, err = rust.compile("refs", f.read(), modules=[("generated.rs", vlib.render(schema, "rust"))])
    if exe is None:
        check.fail("compile refs", "programs using the generated code do not compile:\n" + err)
        return
    r = vlib.sh([exe], timeout=300)
    done = False
    for line in r.stdout.splitlines():
        if line.startswith("FAIL|"):
            _, case, msg = line.split("|", 2)
            check.fail("refs " + case, msg)
        elif line.startswith("COUNT|"):
            done = True
            check.count(int(line.split("|")[1]))
            check.extra["explicit_reference_cases"] = int(line.split("|")[1])
    if not done:
        check.fail("refs", "the program ended with %s\n%s" % (r.returncode, r.stdout[-3000:]))


def dispatch(job):
    return job[0](job[1])


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P26", "exploration"), body)
