"""P39: what the build integration (generate() of the Rust library, flatdata_generate_source() of CMake) generates.
All trees of schemas from an alphabet of names, all generators that fail somewhere, all histories of edits and builds."""
import itertools
import os
import shutil
import stat
import subprocess
import sys
import threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import rustlib
import vlib

# (path, what): "file", "dir", "link" to a file
ENTRIES = [("a.flatdata", "file"), ("b.flatdata", "file"), ("a.b.flatdata", "file"), ("with blank.flatdata", "file"), ("\u00e4.flatdata", "file"),
           ("a.rs", "file"), ("a.txt", "file"), ("noextension", "file"), (".flatdata", "file"), ("A.FLATDATA", "file"), ("c.flatdata.bak", "file"), ("flatdata", "file"),
           ("sub/a.flatdata", "file"), ("sub/deep/er/b.flatdata", "file"), ("sub.d/a.flatdata", "file"), (".hidden/a.flatdata", "file"), ("sub/a.txt", "file"),
           ("empty", "dir"), ("directory.flatdata", "dir"), ("folder.flatdata/a.flatdata", "file"), ("-s.flatdata", "file"), ("link.flatdata", "link")]
FAULTS = ["EXIT 1", "EXIT 2", "EXIT 127", "EXIT 255", "KILL"]


def is_schema(path, what):
    return what != "dir" and os.path.splitext(os.path.basename(path))[1] == ".flatdata"


def trees(limit):
    for n in range(limit + 1):
        for k in itertools.combinations(range(len(ENTRIES)), n):
            yield k


def content_of(path):
    return "schema of %s\n" % path


class Cases:
    """collects cases, runs them in processes of the driver, hands each result to its judge"""

    def __init__(self, check, root, exe):
        self.check, self.root, self.exe, self.n = check, root, exe, 0
        self.lines, self.judges = [], []

    def directory(self):
        self.n += 1
        d = os.path.join(self.root, "c%d" % self.n)
        os.makedirs(d)
        return d

    def add(self, case, d, generator, schemas, out, judge, generator_path="-", path="-"):
        self.lines.append("\t".join([d, os.path.join(d, "log"), generator, schemas, out, generator_path, path]))
        self.judges.append((case, d, judge))

    def run(self, env=None, parts=8):
        """cases are spread over processes"""
        def one(k):
            lines = self.lines[k::parts]
            if not lines:
                return []
            r = subprocess.run([self.exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300,
                               env=dict(os.environ, **(env or {})))
            return r.stdout.split("\nRESULT\t")
        results = [None] * parts
        threads = [threading.Thread(target=lambda k=k: results.__setitem__(k, one(k))) for k in range(parts)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for k in range(parts):
            judges = self.judges[k::parts]
            texts = results[k] or []
            for i, (case, d, judge) in enumerate(judges):
                self.check.count()
                if i + 1 >= len(texts):
                    self.check.fail(case, "the process ended")
                    break
                result, _x, rest = texts[i + 1].partition("\n")
                before = texts[i] if i == 0 else texts[i].partition("\n")[2]
                messages = [m for m in judge(result, before) if m]
                self.check.nontrivial("%s %s" % (result.split(" ")[0], sorted(files(d))))
                if messages:
                    self.check.fail(case, "\n".join(messages))
        self.lines, self.judges = [], []


def files(base):
    out = {}
    for root, _d, names in os.walk(base):
        for name in names:
            p = os.path.join(root, name)
            if not os.path.exists(p):
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, base)] = f.read()
    return out


def write_tree(base, entries, content=content_of):
    os.makedirs(base, exist_ok=True)
    for path, what in entries:
        p = os.path.join(base, path)
        if what == "dir":
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if what == "link":
            with open(base + ".target", "w") as f:
                f.write(content(path))
            os.symlink(base + ".target", p)
            continue
        with open(p, "w") as f:
            f.write(content(path))


def expected(entries):
    return {os.path.splitext(path)[0] + ".rs": ("generated from " + content_of(path)).encode() for path, what in entries if is_schema(path, what)}


def changed(stdout):
    return [line[len("cargo:rerun-if-changed="):] for line in stdout.splitlines() if line.startswith("cargo:rerun-if-changed=")]


def judge_all(d, schemas, out, entries, before):
    """everything is generated, nothing else is touched"""
    def judge(result, stdout):
        want = expected(entries)
        if result != "ok":
            yield "is not generated: " + result
            return
        got = files(out)
        extra = {k: v for k, v in before.items() if k not in want}
        for k in sorted(set(want) | set(got) | set(extra)):
            if got.get(k) != want.get(k, extra.get(k)):
                yield "%s is %r instead of %r" % (k, got.get(k), want.get(k, extra.get(k)))
        told = {os.path.realpath(os.path.join(d, p)) for p in changed(stdout)}
        for path, what in entries:
            if is_schema(path, what) and os.path.realpath(os.path.join(d, schemas, path)) not in told:
                yield "cargo is not told to build again when %s changes: %s" % (path, sorted(told))
    return judge


def rust_trees(check, cases, stub):
    limit = 4 if check.thorough else 3
    for k in trees(limit):
        entries = [ENTRIES[i] for i in k]
        names = ", ".join(p + ("/" if w == "dir" else "") for p, w in entries)
        for form in ("absolute", "relative", "slash", "named") if len(k) <= 1 else (("absolute", "relative", "slash", "named")[sum(k) % 4],):
            case = "tree %s: %s" % (form, names)
            if not check.wants(case):
                continue
            d = cases.directory()
            name = "schemas.flatdata" if form == "named" else "schemas"
            write_tree(os.path.join(d, name), entries)
            schemas = {"absolute": os.path.join(d, name), "relative": name, "slash": name + "/", "named": name}[form]
            out = os.path.join(d, "out") if form != "relative" else "out"
            before = {}
            if sum(k) % 2:      # what is there is overwritten or left alone
                os.makedirs(os.path.join(d, "out"))
                before = {"a.rs": b"an old one that is long" * 20, "other.rs": b"other"}
                for f, text in before.items():
                    with open(os.path.join(d, "out", f), "wb") as h:
                        h.write(text)
            cases.add(case, d, stub, schemas, out, judge_all(d, name, os.path.join(d, "out"), entries, before))
    # single files; the schemas' own directory, through a link
    for i, (path, what) in enumerate(ENTRIES):
        if what == "dir":
            continue
        for form in ("absolute", "relative"):
            case = "file %s: %s" % (form, path)
            if not check.wants(case):
                continue
            d = cases.directory()
            write_tree(os.path.join(d, "schemas"), [(path, what)])
            p = os.path.join("schemas", path)

            def judge(result, stdout, d=d, path=path, what=what):
                base = os.path.basename(path)
                want = {os.path.splitext(base)[0] + ".rs": ("generated from " + content_of(path)).encode()} if is_schema(path, what) else {}
                got = files(os.path.join(d, "out")) if os.path.isdir(os.path.join(d, "out")) else {}
                if result != "ok":
                    yield "is not generated: " + result
                elif got != want:
                    yield "generated %r instead of %r" % (got, want)
                elif want and os.path.realpath(os.path.join(d, "schemas", path)) not in {os.path.realpath(os.path.join(d, x)) for x in changed(stdout)}:
                    yield "cargo is not told to build again when it changes"
            cases.add(case, d, stub, os.path.join(d, p) if form == "absolute" else p, os.path.join(d, "out"), judge)
    for case, where in (("link to the directory", "link"), ("the directory itself", ".")):
        if check.wants(case):
            d = cases.directory()
            entries = [ENTRIES[0], ENTRIES[13]]
            write_tree(os.path.join(d, "schemas"), entries)
            os.symlink("schemas", os.path.join(d, "link"))
            if where == ".":
                for f in os.listdir(os.path.join(d, "schemas")):
                    os.rename(os.path.join(d, "schemas", f), os.path.join(d, f))
            out = os.path.join(d, "..", os.path.basename(d) + "-out")
            cases.add(case, d, stub, where, out, judge_all(d, where, out, entries, {}))


def judge_error(d, out, entries, bad, kinds, names=None):
    """an error that says what is wrong; everything that was generated is complete"""
    def judge(result, stdout):
        if result.split(" ")[0] not in kinds:
            yield "%s instead of an error (%s)" % (result, " or ".join(kinds))
            return
        if names and result.startswith("failure "):
            schema, destination, _error, text = result[len("failure "):].split("\t")
            if not any(os.path.realpath(os.path.join(d, schema)) == os.path.realpath(os.path.join(d, "schemas", n)) for n in names):
                yield "the error is about %s instead of %s" % (schema, names)
            elif not any(os.path.realpath(os.path.join(d, destination)) == os.path.realpath(os.path.join(out, os.path.splitext(n)[0] + ".rs")) for n in names):
                yield "the error is about %s, the output for %s" % (destination, names)
            elif os.path.basename(schema) not in text:
                yield "the text of the error does not name the schema: " + text
        got = files(out) if os.path.isdir(out) else {}
        want = expected(entries)
        for b in bad:
            want.pop(os.path.splitext(b)[0] + ".rs", None)
        for name, text in got.items():
            if not name.startswith("bin/") and want.get(name) != text:
                yield "%s is %r" % (name, text)
    return judge


def rust_faults(check, cases, stub):
    schemas = [e for e in ENTRIES if is_schema(*e) and e[1] == "file" and e[0] not in ("-s.flatdata",)]
    limit = 3 if check.thorough else 2
    for n in range(1, limit + 1):
        for entries in itertools.combinations(schemas, n):
            for bad in itertools.product([None] + FAULTS, repeat=n):
                if not any(bad) or (n == 3 and sum(b is not None for b in bad) > 1):
                    continue
                case = "generator fails: " + ", ".join("%s %s" % (e[0], b or "fine") for e, b in zip(entries, bad))
                if not check.wants(case):
                    continue
                d = cases.directory()
                texts = {e[0]: b for e, b in zip(entries, bad) if b}
                write_tree(os.path.join(d, "schemas"), entries, lambda p: texts.get(p, content_of(p)))
                out = os.path.join(d, "out")
                cases.add(case, d, stub, "schemas", out, judge_error(d, out, entries, list(texts), ("failure",), list(texts)))
    entries = [ENTRIES[0], ENTRIES[12]]
    both = [e[0] for e in entries]
    for case, generator, names in (("no such generator", "/nonexistent/generator", both), ("generator is a directory", "/tmp", both), ("generator cannot be executed", "PLAIN", both), ("generator is no program", "GARBAGE", both)):
        if not check.wants(case):
            continue
        d = cases.directory()
        write_tree(os.path.join(d, "schemas"), entries)
        with open(os.path.join(d, "PLAIN"), "w") as f:
            f.write("plain text")
        with open(os.path.join(d, "GARBAGE"), "wb") as f:
            f.write(b"\x7fgarbage\0")
        os.chmod(os.path.join(d, "GARBAGE"), 0o755)
        out = os.path.join(d, "out")
        cases.add(case, d, generator if generator.startswith("/") else os.path.join(d, generator), "schemas", out, judge_error(d, out, entries, both, ("failure",), names))
    for case, setup, kinds in (("no schemas", "none", ("io", "failure")), ("out is a file", "file", ("io",)), ("a directory where a file goes", "dir", ("failure", "io")), ("a file where a directory goes", "sub", ("io", "failure")),
                               ("dangling link", "dangling", ("failure", "io"))):
        if not check.wants(case):
            continue
        d = cases.directory()
        out = os.path.join(d, "out")
        bad = []
        if setup != "none":
            write_tree(os.path.join(d, "schemas"), entries)
        if setup == "file":
            with open(out, "w") as f:
                f.write("file")
        elif setup == "dir":
            os.makedirs(os.path.join(out, "a.rs"))
            bad = ["a.flatdata"]
        elif setup == "sub":
            os.makedirs(out)
            with open(os.path.join(out, "sub"), "w") as f:
                f.write("generated from ")
            bad = ["sub/a.flatdata"]
        elif setup == "dangling":
            os.symlink("nowhere", os.path.join(d, "schemas", "x.flatdata"))

        def judge(result, stdout, inner=judge_error(d, out, entries, bad, kinds), setup=setup, out=out):
            if setup == "sub":
                os.unlink(os.path.join(out, "sub"))
            return inner(result, stdout)
        cases.add(case, d, stub, "schemas", out, judge)


def rust_venv(check, root, exe, stub):
    """without a given generator: one is installed into a virtual environment"""
    entries = [ENTRIES[0], ENTRIES[12]]
    for source in ("-", "SOURCE", "/nonexistent/source"):
        for fault in (None, "no python3", "python3 1", "python3 killed", "pip3 1", "pip3 killed", "flatdata-generator"):
            case = "virtual environment: %s, %s" % ({"-": "from the index", "SOURCE": "from source"}.get(source, "from nowhere"), fault or "fine")
            if not check.wants(case):
                continue
            cases = Cases(check, os.path.join(root, "venv-%s-%s" % (source.replace("/", "_"), str(fault).replace(" ", "_"))), exe)
            d = cases.directory()
            write_tree(os.path.join(d, "schemas"), entries, lambda p: "EXIT 3" if fault == "flatdata-generator" else content_of(p))
            bin_ = os.path.join(d, "path")
            os.makedirs(bin_)
            os.makedirs(os.path.join(d, "source"))
            if fault != "no python3":
                shutil.copy(stub, os.path.join(bin_, "python3"))
            out = os.path.join(d, "out")
            os.makedirs(out)
            if fault is None and not source.startswith("/"):
                def judge(result, stdout, d=d, out=out, source=source):
                    if result != "ok":
                        yield "is not generated: " + result
                        return
                    got = {k: v for k, v in files(out).items() if not k.startswith("bin/")}
                    if got != expected(entries):
                        yield "generated %r instead of %r" % (got, expected(entries))
                    log = [line.split("\t") for line in open(os.path.join(d, "log")).read().splitlines()]
                    pip = [a for a in log if a[0] == "pip3"]
                    what = [x for a in pip for x in a[1:] if (os.path.realpath(x) == os.path.realpath(os.path.join(d, "source")) if source == "SOURCE" else x.startswith("flatdata-generator"))]
                    if not what:
                        yield "installs %s" % pip
                    if source == "SOURCE" and os.path.realpath(os.path.join(d, "source")) not in {os.path.realpath(x) for x in changed(stdout)}:
                        yield "cargo is not told to build again when the generator changes"
            else:
                judge = judge_error(d, out, entries, ["a.flatdata", "sub/a.flatdata"], ("python",) if fault == "no python3" else ("io", "python", "failure"))
            cases.add(case, d, "-", "schemas", out, judge, os.path.join(d, "source") if source == "SOURCE" else source, bin_)
            cases.run({"STUB_FAIL": fault or ""}, parts=1)


REAL = {"a.flatdata": "namespace n { struct S { a : u8 : 3; } archive A { v : vector< S >; } }", "deep/b.flatdata": "/** doc */ namespace m.k { enum E : u8 { X, Y = 7 } struct T { e : E; b : bool; } archive B { i : T; r : raw_data; } }",
        "c.flatdata": "namespace bad { struct S { a : u8 : 9; } }"}


def rust_real(check, root, exe):
    """with the real generator"""
    launcher = os.path.join(root, "launcher")
    with open(launcher, "w") as f:
        f.write("#!/bin/sh\nexec %s -B -W ignore %s \"$@\"\n" % (vlib.PY, os.path.join(vlib.REPO, "flatdata-generator", "generator.py")))
    os.chmod(launcher, 0o755)
    for names in (["a.flatdata"], ["deep/b.flatdata"], ["a.flatdata", "deep/b.flatdata"], ["c.flatdata"], []):
        case = "real generator: " + ", ".join(names)
        if not check.wants(case):
            continue
        cases = Cases(check, os.path.join(root, "real-%s" % "-".join(n.replace("/", "_") for n in names)), exe)
        d = cases.directory()
        write_tree(os.path.join(d, "schemas"), [(n, "file") for n in names], lambda p: REAL[p])

        def judge(result, stdout, d=d, names=names):
            if "c.flatdata" in names:
                if not result.startswith("failure"):
                    yield result
                return
            want = {os.path.splitext(n)[0] + ".rs": vlib.render(REAL[n], "rust").strip() for n in names}
            got = {k: v.decode().strip() for k, v in files(os.path.join(d, "out")).items()} if os.path.isdir(os.path.join(d, "out")) else {}
            if result != "ok" or got != want:
                yield "%s\n%r\ninstead of\n%r" % (result, got, want)
        cases.add(case, d, launcher, "schemas", os.path.join(d, "out"), judge)
        cases.run({"PYTHONDONTWRITEBYTECODE": "1"}, parts=1)


# ---- CMake ---------------------------------------------------------------------------------------------------------------
SCHEMAS = ["namespace n { struct S { a : u8 : 3; } archive A { v : vector< S >; } }\n", "namespace n { struct S { a : u16 : 3; b : u8; } archive A { v : vector< S >; } }\n",
           "namespace n { struct S { a : u8 : 30; } }\n"]
CMAKELISTS = """cmake_minimum_required( VERSION 3.10 )
project( p NONE )
include( "${CMAKE_CURRENT_SOURCE_DIR}/flatdata-cpp/cmake/flatdata/GenerateSource.cmake" )
flatdata_generate_source( code "${CMAKE_CURRENT_SOURCE_DIR}/%s" "${CMAKE_CURRENT_BINARY_DIR}/%s" )
flatdata_generate_source( other "${CMAKE_CURRENT_SOURCE_DIR}/other.flatdata" "${CMAKE_CURRENT_BINARY_DIR}/other.hpp" )
"""
EDIT = "\nimport atexit as _a, sys as _s\n_a.register(lambda: open(_s.argv[-1], 'a').write('// edit %d of %s\\n'))\n"
OTHER = "namespace o { struct O { a : u8 : 3; } archive A { v : vector< O >; } }\n"


def sources():
    base = os.path.join(vlib.REPO, "flatdata-generator")
    for root, dirs, names in sorted(os.walk(os.path.join(base, "flatdata"))):
        for name in sorted(names):
            if name.endswith((".py", ".jinja2")):
                yield os.path.relpath(os.path.join(root, name), base)


class Project:
    def __init__(self, directory, how, schema="s.flatdata", header="s.hpp"):
        self.dir, self.how, self.schema, self.header = directory, how, os.path.join(directory, schema), os.path.join(directory, "build", header)
        os.makedirs(os.path.join(directory, "flatdata-cpp"))
        shutil.copytree(os.path.join(vlib.REPO, "flatdata-cpp", "cmake"), os.path.join(directory, "flatdata-cpp", "cmake"))
        self.generator = os.path.join(directory, "flatdata-generator")
        shutil.copytree(os.path.join(vlib.REPO, "flatdata-generator"), self.generator, ignore=shutil.ignore_patterns("tests", "__pycache__", "*.egg-info", "build"))
        self.write(os.path.join(directory, "CMakeLists.txt"), CMAKELISTS % (schema, header))
        os.makedirs(os.path.dirname(self.schema), exist_ok=True)
        os.makedirs(os.path.dirname(self.header), exist_ok=True)
        self.write(self.schema, SCHEMAS[0])
        self.write(os.path.join(directory, "other.flatdata"), OTHER)
        self.edits = 0
        self.current = 0

    @staticmethod
    def write(path, text, mode="w"):
        with open(path, mode) as f:
            f.write(text)

    def sh(self, args):
        return subprocess.run(args, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200,
                              env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore"))

    def configure(self):
        r = self.sh(["cmake", "-S", self.dir, "-B", os.path.join(self.dir, "build"), "-G", self.how, "-DPYTHON3_EXECUTABLE=" + vlib.PY])
        return "" if r.returncode == 0 else "configuring fails: " + r.stdout[-1500:]

    def build(self, target="code"):
        r = self.sh(["cmake", "--build", os.path.join(self.dir, "build"), "--target", target])
        return r.returncode == 0, r.stdout[-1500:]

    def wanted(self, schema=None):
        """what the generator says now"""
        path = os.path.join(self.dir, "wanted.hpp")
        if os.path.exists(path):
            os.unlink(path)
        r = self.sh([vlib.PY, os.path.join(self.generator, "generator.py"), "--gen", "cpp", "--schema", schema or self.schema, "--output-file", path])
        if r.returncode:
            return None
        with open(path) as f:
            return f.read()

    def judge(self, target="code", header=None, schema=None):
        want = self.wanted(schema)
        ok, text = self.build(target)
        header = header or self.header
        if want is None:
            return "the build passes with a schema that the generator rejects" if ok else ""
        if not ok:
            return "the build fails: " + text
        with open(header) as f:
            got = f.read()
        return "" if got == want else "%s is not what the generator generates now:\n%s\n%s" % (header, got[-200:], want[-200:])

    def step(self, op):
        self.edits += 1
        if op in ("0", "1", "2"):
            self.write(self.schema, SCHEMAS[int(op)])
        elif op == "t":
            self.write(os.path.join(self.generator, "flatdata/generator/templates/cpp/cpp.jinja2"), "// edit %d\n" % self.edits, "a")
        elif op == "g":
            self.write(os.path.join(self.generator, "flatdata/generator/generators/cpp.py"), EDIT % (self.edits, "cpp.py"), "a")
        elif op == "d":
            if os.path.exists(self.header):
                os.unlink(self.header)
        elif op == "c":
            return self.configure()
        elif op == "o":
            self.write(os.path.join(self.dir, "other.flatdata"), OTHER + "// %d\n" % self.edits)
            return self.judge("other", os.path.join(self.dir, "build", "other.hpp"), os.path.join(self.dir, "other.flatdata"))
        return ""


OPS = "012tgdco"


def cmake_job(job):
    """every continuation of a prefix, up to a depth; or one edited source"""
    kind, how, prefix, depth, root, only = job
    failures, count = [], 0
    with vlib.scratch() as base:
        if kind == "source":
            p = Project(os.path.join(base, "p"), how)
            msg = p.configure() or p.judge()
            for source in prefix:
                if msg:
                    break
                path = os.path.join(p.generator, source)
                p.write(path, EDIT % (1, source) if source.endswith(".py") else "edited\n", "a")
                msg = p.judge()
                count += 1
                if msg:
                    failures.append(("cmake %s edit %s" % (how, source), msg))
                    msg = ""
                    p.build()
            if msg:
                failures.append(("cmake %s sources" % how, msg))
            return failures, count
        if kind == "names":
            for i, (schema, header) in enumerate(prefix):
                p = Project(os.path.join(base, "p%d" % i), how, schema, header)
                msg = p.configure() or p.judge() or p.step("1") or p.judge()
                count += 1
                if msg:
                    failures.append(("cmake %s names %s, %s" % (how, schema, header), msg))
            return failures, count
        pristine = os.path.join(base, "pristine")
        # every history runs in a directory of the same name, from a copy with the times of the files
        live = os.path.join(base, "live")
        p = Project(live, how)
        msg = p.configure() or p.judge()
        if msg:
            return [("cmake %s first" % how, msg)], 1
        os.rename(live, pristine)
        for n in range(1, depth + 1):
            for tail in itertools.product(OPS, repeat=n - 1):
                seq = prefix + "".join(tail)
                case = "cmake %s %s" % (how, seq)
                if only is not None and case != only:
                    continue
                shutil.copytree(pristine, live, symlinks=True)
                p.edits = 0
                msg = ""
                for k, op in enumerate(seq):
                    msg = p.step(op)
                    if not msg and (k == len(seq) - 1 or k % 2 == 1):
                        msg = p.judge()
                    if msg:
                        failures.append((case, "after step %d: %s" % (k, msg)))
                        break
                count += 1
                shutil.rmtree(live)
                if len(failures) > 3:
                    return failures, count
    return failures, count


NAMES = [("s.flatdata", "s.hpp"), ("with blank.flatdata", "s.hpp"), ("s.flatdata", "with blank.hpp"), ("a+b.flatdata", "a+b.hpp"), ("sub/dir/s.flatdata", "sub/dir/s.hpp"), ("noextension", "s.inc"), ("\u00e4.flatdata", "\u00e4.hpp")]


def body(check):
    check.rule = ("Rust: every tree of up to %d of %d entries, every form of the path, every generator that fails for some schemas, every failing part of the virtual environment; "
                  "CMake: every history of up to %d edits and builds (quick: 1 for Make), every edited source of the generator; distinct: results with the files that are there then"
                  % (4 if check.thorough else 3, len(ENTRIES), 3 if check.thorough else 2))
    with vlib.scratch() as root:
        vlib.repo_on_path()
        stub = os.path.join(root, "stub")
        r = vlib.sh(["gcc", "-O1", "-w", "-static", "-o", stub, os.path.join(vlib.VERIF, "cpp", "stubgen.c")])
        if r.returncode:
            raise RuntimeError(r.stdout)
        built, errors = [], []

        def build():
            try:
                with open(os.path.join(vlib.VERIF, "rust", "generate.rs")) as f:
                    built.append(rustlib.Rust(root).compile("generate", f.read()))
            except BaseException as e:  # pylint: disable=broad-except
                errors.append(e)
        t = threading.Thread(target=build)
        t.start()
        only = str(check.only) if check.only is not None else None
        jobs = []
        if only is None or only.startswith("cmake"):
            depth = 3 if check.thorough else 2
            todo = list(sources())
            for how in ("Ninja", "Unix Makefiles"):
                main = how == "Ninja" or check.thorough or only is not None
                jobs += [("history", how, op, depth if main else 1, root, only) for op in OPS]
                jobs += [("source", how, todo[k::8], 0, root, only) for k in range(8)] if main else []
                jobs += [("names", how, NAMES, 0, root, only)]
        if only is not None:
            jobs = [j for j in jobs if j[1] in only and j[0] == ("source" if " edit " in only or only.endswith("sources") else "names" if " names " in only else "history")]
        t.join()    # before the processes are forked
        if errors:
            raise errors[0]
        exe, problem = built[0]
        if not exe:
            check.fail("rust", "does not compile:\n" + problem)
            return
        cases = Cases(check, os.path.join(root, "cases"), exe)
        rust_trees(check, cases, stub)
        rust_faults(check, cases, stub)
        check.extra["trees and faults"] = len(cases.lines)
        cases.run()
        rust_venv(check, os.path.join(root, "v"), exe, stub)
        os.makedirs(os.path.join(root, "r"))
        rust_real(check, os.path.join(root, "r"), exe)
        histories = 0
        for failures, n in vlib.parallel(cmake_job, jobs) if jobs else []:
            histories += n
            for case, msg in failures:
                check.fail(case, msg)
        check.count(histories)
        check.extra["histories"] = histories
        check.extra["distinct_nontrivial"] = len(check.distinct)
    check.sample("tree relative: a.flatdata, sub/deep/er/b.flatdata, directory.flatdata/: two files, at the same places, the directory is none")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P39", "exploration"), body)
