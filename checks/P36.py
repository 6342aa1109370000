"""P36: resources and tar files beyond the limits of 31, 32 and 33 bits, as sparse files, read by the compiled code of C++ and Rust and by Python."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import refmodel as rm
import rustlib
import tarlib as tl

B = rm.S("B", [("x", "u8", 8)])
T = rm.S("T", [("x", "u32", 21), ("y", "u8", 3)])
W = rm.S("W", [("x", "u64", 61), ("y", "i8", 3)])
L = rm.S("L", [("a", "u64", 63), ("b", "u64", 64), ("c", "u64", 50), ("d", "u64", 64), ("e", "i64", 55)])
STRUCTS = {"b": B, "t": T, "w": W, "l": L}
SCHEMA = "namespace n {\n%s\narchive A { b : vector< B >; t : vector< T >; w : vector< W >; l : vector< L >; m : multivector< 40, L, B, W >; r : raw_data; }\n}\n" % "\n".join(s.text() for s in STRUCTS.values())
RADIUS = 96
LANGUAGES = ("C++", "Rust", "Python")
HEAD = 8


def value(p):
    """byte at position p of the payload (where it is not zero): depends on all bits of the position"""
    return ((p * 0x9E3779B97F4A7C15 & (1 << 64) - 1) >> 40) % 255 + 1


class Payload:
    """size bytes that are zero except around limits"""
    def __init__(self, size):
        self.size = size
        self.fixed = {}
        marks = {0, size} | {(1 << k) + d for k in (16, 30, 31, 32, 33, 34) for d in (0, -HEAD)}
        self.windows = []
        for m in sorted(marks):
            lo, hi = max(0, m - RADIUS), min(size, m + RADIUS)
            if lo >= hi:
                continue
            if self.windows and lo <= self.windows[-1][1]:
                self.windows[-1][1] = max(hi, self.windows[-1][1])
            else:
                self.windows.append([lo, hi])

    def put(self, p, data):
        for k, c in enumerate(data):
            self.fixed[p + k] = c

    def read(self, p, n):
        out = bytearray(n)
        for lo, hi in self.windows:
            for q in range(max(lo, p), min(hi, p + n)):
                out[q - p] = value(q)
        for q, c in self.fixed.items():
            if p <= q < p + n:
                out[q - p] = c
        return bytes(out)

    def write(self, f, start):
        for lo, hi in self.windows:
            f.seek(start + lo)
            f.write(self.read(lo, hi - lo))
        for p, c in sorted(self.fixed.items()):
            f.seek(start + p)
            f.write(bytes([c]))


class Small:
    """a whole payload"""
    def __init__(self, data):
        self.data, self.size, self.windows = data, len(data), [[0, len(data)]]

    def read(self, p, n):
        return self.data[p:p + n]

    def write(self, f, start):
        f.seek(start)
        f.write(self.data)


def base():
    return {"b": Small(b"\x07"), "t": Small(b""), "w": Small(b"\1\2\3\4\5\6\7\x08"), "l": Small(b""), "m": Small(b""), "m_index": Small(bytes(5)), "r": Small(b"raw")}


def show(struct, data):
    return ",".join(str(v) for v in struct.unpack(data).values())


def questions(resource, payload):
    """[(line, answer)] about a large vector or raw data"""
    if resource == "r":
        out = [("size r", str(payload.size))]
        for lo, hi in payload.windows:
            out += [("at r %d" % p, str(payload.read(p, 1)[0])) for p in sorted({lo, (lo + hi) // 2, hi - 1} | {p for p in range(lo, hi) if p & (p + HEAD) & 0xffff in (0, 0xffff) or p & 0xffff == 0})]
        return out
    s = STRUCTS[resource]
    n = payload.size // s.size
    out = [("size " + resource, "%d %d" % (n, payload.size))]
    picks = set()
    for lo, hi in payload.windows:
        a, b = -(-lo // s.size), hi // s.size
        inside = [i for i in range(a, b) if i < n]
        picks |= set(inside[:1] + inside[-2:] + inside[len(inside) // 2 - 2:len(inside) // 2 + 3])
    # indices around limits, wherever their elements are
    for k in (31, 32):
        picks |= {i for i in range((1 << k) - 1, (1 << k) + 2) if i < n}
    return out + [("at %s %d" % (resource, i), show(s, payload.read(i * s.size, s.size))) for i in sorted(picks)]


def cases(thorough):
    """(name, {resource: payload}, questions, verdict)"""
    limits = (31, 32, 33, 35) if thorough else (31, 32, 33)
    for bits in limits:
        for name, s in STRUCTS.items():
            n = (1 << bits) // s.size
            for d in (-2, -1, 0, 1, 2, 3) if thorough else (-1, 0, 1, 3):
                p = Payload((n + d) * s.size)
                yield "vector of %d x %d bytes" % (n + d, s.size), {name: p}, questions(name, p)
        for d in range(-9, 10, 1 if thorough else 3):
            p = Payload((1 << bits) + d)
            yield "raw data of 2^%d%+d bytes" % (bits, d), {"r": p}, questions("r", p)
        # an item of elements at and across the limit
        for d in range(-30, 12, 1 if thorough else 3):
            start = (1 << bits) + d
            elements, data = [], b""
            for k in range(4):
                t = k % 2 if d % 2 else 1 - k % 2
                raw = bytes(value(start + 10 * k + j) for j in range((W if t else B).size))
                data += bytes([t + 1]) + raw
                elements.append("BW"[t] + show(W if t else B, raw))
            item = Payload(start + len(data) + 2)
            item.windows = []
            item.put(0, b"\1\x2a")
            item.put(start, data + b"\1\x63")
            offsets = [0, 2, start, start + len(data), start + len(data) + 2]
            # the second item would be huge: nobody asks for it
            index = Small(b"".join(o.to_bytes(5, "little") for o in offsets))
            yield "item at 2^%d%+d" % (bits, d), {"m": item, "m_index": index}, [("size m", "4"), ("at m 0", "B42"), ("at m 2", " ".join(elements)), ("at m 3", "B99")]
        # so many items that their index is large
        for d in (-1, 0, 1):
            n = (1 << bits) // 5 + d
            data = Small(b"".join(bytes([1, k & 255]) for k in range(4000)))
            index = Payload((n + 1) * 5)
            index.windows = []
            ask = [("size m", str(n))]
            for k, at in enumerate([0, (1 << 31) // 5 - 3, (1 << 32) // 5 - 3, (1 << 33) // 5 - 3, n - 5]):
                if at + 6 > n + 1 or k and at < 6:
                    continue
                for j in range(6):
                    index.put((at + j) * 5, (2 * (10 * k + j)).to_bytes(5, "little"))
                ask += [("at m %d" % (at + j), "B%d" % (10 * k + j)) for j in range(5)]
            yield "%d items" % n, {"m": data, "m_index": index}, ask


def frames(resources):
    """{file: (size in the header, payload)}"""
    return {k: (p.size, p) for k, p in resources.items()}


def write_file(f, start, stated, payload, end):
    f.seek(start)
    f.write(stated.to_bytes(8, "little"))
    payload.write(f, start + HEAD)
    f.truncate(max(end, f.seek(0, 2)))


def write_dir(path, files, schemas):
    os.makedirs(path)
    for name, text in schemas.items():
        with open(os.path.join(path, name + ".schema"), "w") as f:
            f.write(text)
    for name, (stated, p) in files.items():
        with open(os.path.join(path, name), "wb") as f:
            write_file(f, 0, stated, p, p.size + 16)
    with open(os.path.join(path, "A.archive"), "wb") as f:
        f.write(bytes(16))


def write_tar(path, files, schemas, order):
    """large members: numbers of 8 GB and more are binary"""
    small = {k + ".schema": v.encode() for k, v in schemas.items()}
    small["A.archive"] = bytes(16)
    with open(path, "wb") as f:
        at = 0
        for name in order + sorted(small):
            size = files[name][1].size + 16 if name in files else len(small[name])
            f.seek(at)
            f.write(tl.header(name.encode(), size, number="nul" if size < 1 << 33 else "binary", magic="ustar"))
            at += 512
            if name in files:
                write_file(f, at, files[name][0], files[name][1], at + size)
            else:
                f.seek(at)
                f.write(small[name])
            at += size + -size % 512
        f.truncate(at + 1024)


# ---- writers -------------------------------------------------------------------------------------
FLUSHED = 80 << 20      # buffers of 32 MB are written several times after the limit


def writes(thorough):
    """(kind, elements, payloads, questions)"""
    for bits in (32, 31, 33) if thorough else (32,):
        for kind in "ltrbm":
            if kind == "m":
                n = ((1 << bits) + FLUSHED) // (60 * 38) + 3
                p = Payload(n * 60 * 38)
                for lo, hi in p.windows:
                    for q in range(lo // 38 * 38, hi, 38):
                        p.put(q, b"\0")
                ask = [("size m", str(n))]
                for i in sorted({0, 1, (1 << 31) // 2280, (1 << 32) // 2280 - 1, (1 << 32) // 2280, (1 << 32) // 2280 + 1, n - 1}):
                    if i < n:
                        ask.append(("at m %d" % i, " ".join("L" + show(L, p.read(i * 2280 + 38 * k + 1, 37)) for k in range(60))))
                yield kind, n, p, ask
            else:
                size = 1 if kind == "r" else STRUCTS[kind].size
                n = ((1 << bits) + (FLUSHED if kind == "l" else 0)) // size + 3
                p = Payload(n * size)
                yield kind, n, p, questions(kind, p)


def compare_sparse(path, payload):
    """what is wrong with a file that is to hold a resource: all of it is compared, holes being zero"""
    end = payload.size + 16
    with open(path, "rb") as f:
        f.seek(0, 2)
        if f.tell() != end:
            return "the file has %d bytes instead of %d" % (f.tell(), end)
        head = f.seek(0) or f.read(HEAD)
        if int.from_bytes(head, "little") != payload.size:
            return "the size stated is %d instead of %d" % (int.from_bytes(head, "little"), payload.size)
        at, seen = HEAD, []
        while at < end:
            try:
                at = max(at, os.lseek(f.fileno(), at, os.SEEK_DATA))
            except OSError:
                break
            stop = os.lseek(f.fileno(), at, os.SEEK_HOLE)
            seen.append((at - HEAD, stop - HEAD))
            while at < stop:
                n = min(1 << 20, stop - at)
                if os.pread(f.fileno(), n, at) != payload.read(at - HEAD, n):
                    return "the data from %d to %d is wrong" % (at - HEAD, at - HEAD + n)
                at += n
        for lo, hi in payload.windows:
            for p in range(lo, hi):
                if not any(a <= p < b for a, b in seen) and payload.read(p, 1) != b"\0":
                    return "the byte at %d is missing" % p
    return None


# ---- readers -------------------------------------------------------------------------------------
def ask(exe, jobs, env=None):
    """jobs: [(kind, path, [questions])] -> [[answers]] or text of a crash"""
    lines, count = [], []
    for kind, path, qs in jobs:
        lines += ["open %s %s" % (kind, path)] + qs
        count.append(1 + len(qs))
    r = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=env)
    got = r.stdout.split("\n")[:-1]
    out, at = [], 0
    for c in count:
        out.append(got[at:at + c] if len(got) >= at + c else "ends with %s %s" % (r.returncode, r.stderr[-1500:]))
        at += c
    return out


def py_show(e, struct):
    return ",".join(str(int(getattr(e, f[0]))) for f in struct.fields)


def py_at(v, i, struct):
    n = len(v)
    forms = [py_show(e, struct) for e in (v[i], v[i - n], next(iter(v[i:])), next(iter(v[i::7])), list(v[i:i + 1])[0], next(iter(v[i - n:])), next(iter(v[i::-1])))]
    forms.append(",".join(str(int(x)) for x in v[i:i + 1].to_numpy()[0]))
    return forms[0] if len(set(forms)) == 1 else "differs by the way of access: " + " ".join(forms)


def py_answers(job):
    """answers of the Python library to a job"""
    module, (kind, path, qs) = job
    from flatdata.lib.file_resource_storage import FileResourceStorage
    from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
    from flatdata.lib import errors
    known = tuple(e for e in vars(errors).values() if isinstance(e, type) and issubclass(e, Exception))
    try:
        a = module.n_A(TarArchiveResourceStorage.create(path) if kind == "tar" else FileResourceStorage(path))
    except known:
        return ["closed"]
    out = ["open"]
    for q in qs:
        op, r, *more = q.split(" ")
        v = getattr(a, r)
        if op == "size":
            out.append("%d %d" % (len(v), v.size_in_bytes() - 16) if r in STRUCTS else str(len(v)))
            continue
        i = int(more[0])
        if r in STRUCTS:
            out.append(py_at(v, i, STRUCTS[r]))
        elif r == "r":
            n = len(v)
            forms = [bytes(v[i])[0], bytes(v[i - n])[0], bytes(v[i:i + 1])[0], bytes(v[i::n])[0]]
            out.append(str(forms[0]) if len(set(forms)) == 1 else "differs: %s" % forms)
        else:
            forms = []
            for item in (v[i], v[i - len(v)], list(v[i:i + 1])[0]):
                forms.append(" ".join(e.__class__.__name__[-1] + py_show(e, {"B": B, "W": W, "L": L}[e.__class__.__name__[-1]]) for e in item))
            out.append(forms[0] if len(set(forms)) == 1 else "differs: %s" % forms)
    return out


class Python:
    def __call__(self, part):
        vlib.repo_on_path()
        module = vlib.python_module(SCHEMA)
        out = []
        for job in part:
            try:
                out.append(py_answers((module, job)))
            except Exception as e:  # pylint: disable=broad-except
                out.append("raises %r" % (e,))
        return out


def body(check):
    check.rule = "resources of all kinds with sizes around 2^31, 2^32, 2^33 bytes, as files and in tar files, every element at and around a limit; distinct: answers"
    check.assumptions = ["between the places asked for, the files are holes", "64 bit platform", "the Go runtime is not looked at (its replacement of mmap reads whole files)"]
    module = vlib.python_module(SCHEMA)
    schemas = {k: module.n_A.resource_schema(k) for k in list(STRUCTS) + ["m", "r"]}
    schemas["m_index"] = "index(%s)" % schemas["m"]
    schemas["A.archive"] = module.n_A.schema()
    with vlib.scratch() as root:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as pool:
            def cpp_build(name, flags):
                return vlib.build_cpp(root, name, [os.path.join(vlib.VERIF, "cpp", name + ".cpp")], flags=flags, jobs=4)

            def rust_build():
                rust = rustlib.Rust(root)
                out = []
                for name, flags in (("large", ()), ("largewrite", ("-C", "opt-level=2"))):
                    with open(os.path.join(vlib.VERIF, "rust", name + ".rs")) as f:
                        out.append(rust.compile(name, f.read(), flags=flags, modules=[("generated.rs", vlib.render(SCHEMA, "rust"))]))
                return out
            with open(os.path.join(root, "large.hpp"), "w") as f:
                f.write(vlib.render(SCHEMA, "cpp"))
            holes = os.path.join(root, "holes.so")
            subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-o", holes, os.path.join(vlib.VERIF, "cpp", "holes.c"), "-ldl"], check=True)
            cpp, cpp_writer, rs = pool.submit(cpp_build, "large", ("-O1", "-fsanitize=undefined")), pool.submit(cpp_build, "largewrite", ("-O2",)), pool.submit(rust_build)
            cpp, cpp_writer, ((rs, errors), (rs_writer, errors2)) = cpp.result(), cpp_writer.result(), rs.result()
        if rs is None or rs_writer is None:
            check.fail("compile", errors or errors2)
            return
        jobs, written = [], []
        with ThreadPoolExecutor(8) as pool:
            for kind, n, p, qs in writes(check.thorough):
                for language, exe in (("C++", cpp_writer), ("Rust", rs_writer)):
                    case = "written by %s: %s" % (language, kind)
                    if any(check.wants("%s: %s" % (x, case)) for x in LANGUAGES):
                        path = os.path.join(root, "w%d" % len(written))
                        os.makedirs(path)
                        args = [exe, kind, path, str(n)] + [str(x) for w in p.windows for x in w]
                        written.append((case, path, kind, p, qs, pool.submit(subprocess.run, args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, env=dict(os.environ, LD_PRELOAD=holes))))
        for case, path, kind, p, qs, r in written:
            r = r.result()
            check.count()
            if r.returncode or r.stdout.strip() != "ok":
                check.fail("C++: " + case, "writing ends with %s %s" % (r.returncode, r.stdout[-2000:]))
                continue
            wrong = compare_sparse(os.path.join(path, kind), p)
            if wrong:
                check.fail("C++: " + case, wrong)
            jobs.append((case, qs, path, None))
        for number, (name, large, qs) in enumerate(cases(check.thorough)):
            files = frames(dict(base(), **large))
            names = sorted(files)
            big = max(large, key=lambda k: large[k].size)
            variants = [("files", qs, files, None)]
            # the large member first (the others are far into the tar file), and last
            for order in ([big] + [k for k in names if k != big], [k for k in names if k != big] + [big]):
                variants.append(("tar, %s" % ("large member first" if order[0] == big else "large member last"), qs + [("size b", "1 1"), ("at b 0", "7"), ("at w 0", show(W, bytes(range(1, 9))))] * ("b" not in large and "w" not in large), files, order))
            for delta in (1 << 32, -(1 << 32), 1 << 31, 1 << 40, 1 << 63):
                stated = files[big][1].size + delta
                if stated > 0 and (name.startswith("raw") or number % (1 if check.thorough else 5) == 0):
                    variants.append(("stated size %+d" % delta, None if delta > 0 else [], dict(files, **{big: (stated, files[big][1])}), None))
            for what, questions_, fs, order in variants:
                case = "%s: %s" % (name, what)
                if any(check.wants("%s: %s" % (language, case)) for language in LANGUAGES):
                    jobs.append((case, questions_, fs, order))
        paths = []
        for k, (case, qs, fs, order) in enumerate(jobs):
            path = fs if isinstance(fs, str) else os.path.join(root, "d%d" % k)
            if isinstance(fs, str):
                pass
            elif order:
                write_tar(path, fs, schemas, order)
            else:
                write_dir(path, fs, schemas)
            paths.append(("tar" if order else "dir", path, [q for q, _a in qs or []]))
        with ThreadPoolExecutor(8) as pool:
            def shards(exe):
                n = 3
                parts = [pool.submit(ask, exe, paths[i::n]) for i in range(n)]
                out = [None] * len(paths)
                for i, p in enumerate(parts):
                    out[i::n] = p.result()
                return out
            answers = {"C++": shards(cpp), "Rust": shards(rs)}
        parts = vlib.parallel(Python(), [paths[i::8] for i in range(8) if paths[i::8]])
        answers["Python"] = [None] * len(paths)
        for i, p in enumerate(parts):
            answers["Python"][i::8] = p
        for language, all_of in answers.items():
            for (case, qs, fs, order), got in zip(jobs, all_of):
                name = "%s: %s" % (language, case)
                if not check.wants(name):
                    continue
                check.count()
                check.nontrivial(json.dumps(got))
                if isinstance(got, str) and qs != []:
                    check.fail(name, got)
                elif qs == [] and language == "Python":
                    pass
                elif qs is None or qs == []:
                    # a smaller size is an error where the size has to be exact
                    if isinstance(got, str) or got[0] != "closed":
                        check.fail(name, "an archive with a wrong size is opened")
                elif got != ["open"] + [a for _q, a in qs]:
                    bad = [(q, g, a) for (q, a), g in zip([("open", "open")] + qs, got) if g != a]
                    check.fail(name, "; ".join("%s gives %s instead of %s" % x for x in bad[:4]) or "answers are missing")
    check.sample("Rust: vector of 1431655766 x 3 bytes: tar, large member first: elements at 2^31, 2^32")
    check.sample("C++: item at 2^32-3: four elements")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P36", "exploration"), body)
