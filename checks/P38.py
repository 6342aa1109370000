"""P38: what was opened stays readable for as long as something holds on to it, in every order in which copies are made and ended,
whatever happens to the files; then nothing of it is left; and reading changes nothing and needs no right to write."""
import gc
import os
import shutil
import sys
import threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import refmodel as rm
import rustlib

CONTENT1 = {
    "inst": fx.a2, "vec": [fx.b2, fx.b2, fx.b1], "mv": [[(1, fx.b2)], [(0, fx.a2)]], "raw": b"other",
    "oinst": fx.b1, "ovec": [fx.a1, fx.a1], "omv": [[(0, fx.b2)]], "oraw": b"\1\2",
    "sub/v": [fx.a2], "sub/o": b"x", "osub/v": [fx.a1, fx.a2, fx.a1], "osub/o": b"more",
}
CONTENTS = (fx.CONTENT, CONTENT1)
FLAGS = ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
NOBODY = 65534
WIDTH = 200
WIDE = "namespace w { struct X { x : u32; }\narchive Wide {\n%s} }" % "".join("    v%d : vector< X >;\n" % i for i in range(WIDTH))


# ---- C++ and Rust ----------------------------------------------------------------------------------------------------
def run(job):
    what, cmd, current = job
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=1")
    r = vlib.subprocess.run(cmd, stdout=vlib.subprocess.PIPE, stderr=vlib.subprocess.PIPE, text=True, errors="replace", timeout=800, env=env)
    try:
        with open(current, "rb") as f:
            at = f.read(200).split(b"\0")[0].decode(errors="replace")
    except OSError:
        at = "?"
    return what, at, r.returncode, r.stdout, r.stderr


# ---- Python ----------------------------------------------------------------------------------------------------------
TAKE = {
    "1": lambda a: a.inst, "2": lambda a: a.vec, "3": lambda a: a.mv, "4": lambda a: a.raw, "5": lambda a: a.osub, "6": lambda a: a.osub.v,
    "7": lambda a: a.ovec,
}
SHOW = {
    "1": lambda r: r[0].as_dict(), "2": lambda r: [e.as_dict() for e in r], "3": fx.entries, "4": lambda r: bytes(r[0:len(r)]),
    "5": lambda r: ([e.as_dict() for e in r.v], bytes(r.o[0:len(r.o)])), "6": lambda r: [e.as_dict() for e in r], "7": lambda r: [e.as_dict() for e in r],
}
PART = {  # something taken out of a resource, and its value
    "1": (lambda r: r[0], lambda e: e.as_tuple()), "2": (lambda r: r[-1], lambda e: e.as_tuple()),
    "3": (lambda r: r[0][0], lambda e: e.as_tuple()), "4": (lambda r: r[0:2], bytes), "5": (lambda r: r.v, lambda e: [x.as_tuple() for x in e]),
    "6": (lambda r: r[0:2], lambda e: [x.as_tuple() for x in e]), "7": (lambda r: iter(r), None),
}


def listed():
    """of the archives below `root` mapped or open in this process"""
    out = []
    with open("/proc/self/maps") as f:
        out += [line.split()[-1] for line in f if "/live" in line]
    for fd in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if "/live" in to:
            out.append(to)
    return out


class Python:
    def __init__(self, module, mode, root, files, tars):
        self.module, self.mode, self.root, self.files, self.tars = module, mode, root, files, tars
        self.live = os.path.join(root, "live" if mode == "dir" else "live.tar")
        os.makedirs(root)
        self.parts = []
        for g in range(2):
            a = module.n_Arc(self.storage_of(g))
            self.parts.append({k: (SHOW[k](TAKE[k](a)), PART[k][1](PART[k][0](TAKE[k](a))) if PART[k][1] else None) for k in TAKE})

    def storage_of(self, g):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        d = os.path.join(self.root, "pristine%d" % g)
        fx.write_dir(d, self.files[g])
        return FileResourceStorage(d)

    def put(self, g):
        if self.at >= 0:
            shutil.rmtree(self.live) if self.mode == "dir" else os.unlink(self.live)
        self.at = g
        if g >= 0:
            if self.mode == "dir":
                fx.write_dir(self.live, self.files[g])
            else:
                with open(self.live, "wb") as f:
                    f.write(self.tars[g])

    def open(self):
        """None if it does not open"""
        from flatdata.lib.errors import MissingResourceError
        try:
            return self.module.n_Arc(self.s)
        except (MissingResourceError, OSError):
            return None

    def apply(self, op):
        if op == "s":
            if self.s is not None:
                return False
            if self.mode == "dir":
                from flatdata.lib.file_resource_storage import FileResourceStorage
                self.s = FileResourceStorage(self.live)
            else:
                from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
                if self.at < 0:
                    return False
                self.s = TarArchiveResourceStorage.create(self.live)
            self.s_gen = self.at
        elif op == "x":
            if self.s is None:
                return False
            self.s = None
        elif op == "o":
            if self.s is None:
                return False
            gen = self.s_gen if self.mode == "tar" else self.at
            self.a = self.open()
            self.a_gen = gen
            if (self.a is None) != (gen < 0):
                return "opens %s" % self.a
        elif op == "d":
            if self.a is None:
                return False
            self.a = None
        elif op in TAKE:
            if self.a is None or self.r_kind == (op, self.a_gen):
                return False
            self.r, self.r_kind = TAKE[op](self.a), (op, self.a_gen)
        elif op == "E":
            if self.r is None or (self.e is not None and self.e_kind == self.r_kind):
                return False
            self.e, self.e_kind = PART[self.r_kind[0]][0](self.r), self.r_kind
        elif op == "D":
            if self.r is None:
                return False
            self.r = self.r_kind = None
        elif op == "F":
            if self.e is None:
                return False
            self.e = None
        elif op == "r":
            self.put(1 if self.at == 0 else 0)
        elif op == "k":
            if self.at < 0:
                return False
            self.put(-1)
        return True

    def look(self):
        if self.a is not None:
            msg = fx.compare_py(self.a, CONTENTS[self.a_gen], lambda path: True)
            if msg:
                return msg
        if self.r is not None:
            kind, gen = self.r_kind
            got = SHOW[kind](self.r)
            if got != self.parts[gen][kind][0]:
                return "a resource reads %r instead of %r" % (got, self.parts[gen][kind][0])
        if self.e is not None:
            kind, gen = self.e_kind
            if PART[kind][1]:
                got = PART[kind][1](self.e)
                if got != self.parts[gen][kind][1]:
                    return "what was taken of it reads %r instead of %r" % (got, self.parts[gen][kind][1])
        return None

    def sequence(self, seq):
        """(could be executed, message)"""
        self.s = self.a = self.r = self.e = self.r_kind = None
        self.at = -1
        self.put(0)
        try:
            for op in seq:
                done = self.apply(op)
                if done is not True:
                    return bool(done), done or None
            msg = self.look()
            if msg:
                return True, msg
            if self.e is not None and self.e_kind[0] == "7":
                got = [x.as_dict() for x in self.e]
                if got != self.parts[self.e_kind[1]]["7"][0]:
                    return True, "an iterator yields %r" % got
            self.s = self.a = None
            msg = self.look()
            if msg:
                return True, "when the archive ended: " + msg
            self.r = None
            msg = self.look()
            if msg:
                return True, "when the resource ended: " + msg
            self.e = None
            if listed():
                gc.collect()
            left = listed()
            return True, "still open or mapped: %s" % left if left else None
        finally:
            self.s = self.a = self.r = self.e = None
            self.put(-1)


def python_job(job):
    mode, depth, part, parts, root, files, tars, only = job
    vlib.repo_on_path()
    p = Python(vlib.python_module(fx.SCHEMA), mode, os.path.join(root, "py%s%d" % (mode, part)), files, tars)
    failures, counts = [], [0, 0]
    ops = "sxod1234567EDFrk"
    number = [0]

    def explore(seq):
        if len(seq) == depth:
            return
        for op in ops:
            if not seq and op not in "srk":
                continue
            if len(seq) == 3:
                number[0] += 1
                if number[0] % parts != part:
                    continue
            done, msg = p.sequence(seq + op)
            if msg:
                failures.append(("python %s %s" % (mode, seq + op), msg))
                if len(failures) > 20:
                    return
            elif done:
                counts[0] += 1
                explore(seq + op)
    if only:
        done, msg = p.sequence(only.split()[-1])
        return ([(only, msg)] if msg else []), [1, 0]
    explore("")
    return failures, counts


# ---- reading changes nothing -------------------------------------------------------------------------------------------
def snapshot(path):
    out = {}
    for base, dirs, files in os.walk(path):
        for name in dirs + files:
            p = os.path.join(base, name)
            st = os.lstat(p)
            data = b""
            if name in files:
                with open(p, "rb") as f:
                    data = f.read()
            out[os.path.relpath(p, path)] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ctime_ns, st.st_uid, st.st_ino, data)
    return out


def variants(files):
    yield "complete", files
    for name in sorted(files):
        yield "without " + name, {k: v for k, v in files.items() if k != name}
        yield "empty " + name, {**files, name: b""}
        yield "short " + name, {**files, name: files[name][:5]}
        yield "other " + name, {**files, name: files[name] + b"x"}
    for sub in ("sub/", "osub/"):
        yield "without " + sub, {k: v for k, v in files.items() if not k.startswith(sub)}
    yield "nothing", {}


INSPECTED = ("complete", "without Arc.archive", "without Arc.archive.schema", "without vec", "without osub/", "nothing", "a file", "what is not there", "tar", "half a tar", "missing tar")


def python_read(job):
    """in a process of its own: what is read at each path, as root or as nobody"""
    paths, user = job
    vlib.repo_on_path()
    module = vlib.python_module(fx.SCHEMA)
    wide = vlib.python_module(WIDE) if any(p[0] == "wide" for p in paths) else None
    from flatdata.lib.file_resource_storage import FileResourceStorage
    from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
    from flatdata.lib.inspector import open_archive
    out = []
    read, write = os.pipe()

    def child():
        os.close(read)
        if user:
            os.setgroups([])
            os.setgid(user)
            os.setuid(user)
        for kind, path, inspected in paths:
            def direct():
                if kind == "wide":
                    a = wide.w_Wide(FileResourceStorage(path))
                    return " ".join(str(getattr(a, "v%d" % i)[0].x) for i in range(WIDTH))
                a = module.n_Arc(FileResourceStorage(path) if kind == "dir" else TarArchiveResourceStorage.create(path))
                return repr([fx.compare_py(a, fx.CONTENT, lambda p: True), len(repr(a)), a.size_in_bytes()])

            def inspect():
                a, _m = open_archive(path)
                return repr([fx.compare_py(a, fx.CONTENT, lambda p: True), len(repr(a))])
            line = []
            for f in (direct, inspect) if inspected else (direct,):
                try:
                    line.append(f())
                except BaseException as e:  # pylint: disable=broad-except
                    line.append("%s %s" % (type(e).__name__, str(e)[:200]))
            out.append(" ".join(line).replace("\n", ";"))
        with os.fdopen(write, "w") as f:
            f.write("\n".join(out) + "\n")
            f.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child()
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return text.splitlines()


def reading(check, root, files, tar, cpp, rust):
    base = os.path.join(root, "reading")
    names, paths = [], []
    for k, (name, content) in enumerate(variants(files)):
        d = os.path.join(base, "v%d" % k)
        os.makedirs(d)
        fx.write_dir(d, content)
        names.append(name)
        paths.append(("dir", d))
    with open(os.path.join(base, "file"), "wb") as f:
        f.write(b"x")
    for name, kind, path, data in (("a file", "dir", "file", None), ("what is not there", "dir", "none", None), ("tar", "tar", "a.tar", tar), ("half a tar", "tar", "b.tar", tar[:len(tar) // 2 // 512 * 512]),
                                   ("missing tar", "tar", "none.tar", None), ("no tar", "tar", "file", None)):
        names.append(name)
        paths.append((kind, os.path.join(base, path)))
        if data is not None:
            with open(paths[-1][1], "wb") as f:
                f.write(data)
    wide = vlib.python_module(WIDE)
    content = {"Wide.archive": rm.frame(b""), "Wide.archive.schema": wide.w_Wide.schema().encode()}
    for i in range(WIDTH):
        content["v%d" % i] = rm.frame((7 * i + 1).to_bytes(4, "little"))
        content["v%d.schema" % i] = wide.w_Wide.resource_schema("v%d" % i).encode()
    fx.write_dir(os.path.join(base, "wide"), content)
    names.append("many resources")
    paths.append(("wide", os.path.join(base, "wide")))
    before = snapshot(base)
    stdin = "".join("%s %s\n" % p for p in paths)

    def native(exe, user):
        kw = dict(user=user, group=user, extra_groups=[]) if user else {}
        r = vlib.subprocess.run([exe, "read"], input=stdin, stdout=vlib.subprocess.PIPE, stderr=vlib.subprocess.PIPE, text=True, errors="replace", timeout=300, **kw)
        return r.stdout.splitlines(), r.stderr[-1500:]

    def compare(what):
        after = snapshot(base)
        if after != before:
            for p in sorted(set(after) ^ set(before)) + sorted(p for p in after if p in before and after[p] != before[p]):
                v = p.split("/")[0]
                case = names[int(v[1:])] if v[1:].isdigit() else v
                check.fail("reading by %s: %s" % (what, case), "reading changed %s: %s -> %s" % (p, before.get(p), after.get(p)))
    results = {}
    for user in (0, NOBODY):
        if user:
            os.chmod(root, 0o755)
            for d, dirs, fs in os.walk(base):
                for x in dirs:
                    os.chmod(os.path.join(d, x), 0o555)
                for x in fs:
                    os.chmod(os.path.join(d, x), 0o444)
            os.chmod(base, 0o555)
            before = snapshot(base)
        for what, f in (("C++", lambda u: native(cpp, u)), ("Rust", lambda u: native(rust, u)), ("Python", lambda u: (sum(vlib.parallel(python_read, [([p + (n in INSPECTED,) for p, n in list(zip(paths, names))[k:k + 15]], u) for k in range(0, len(paths), 15)]), []), ""))):
            lines, err = f(user)
            compare(what)
            if len(lines) != len(paths):
                check.fail("reading by %s: %s" % (what, names[min(len(lines), len(names) - 1)]), "ends after %d of %d archives\n%s" % (len(lines), len(paths), err))
                continue
            check.count(len(lines))
            if lines[-1].split() != [str(7 * i + 1) for i in range(WIDTH)]:
                check.fail("reading by %s: many resources" % what, lines[-1][:1000])
            if user == 0:
                results[what] = lines
            elif what in results:
                for name, one, two in zip(names, results[what], lines):
                    check.nontrivial(what + one[:200])
                    if one != two:
                        check.fail("reading by %s: %s" % (what, name), "without the right to write reads\n%s\ninstead of\n%s" % (two, one))


def body(check):
    depth = {"mem": 7, "dir": 6, "tar": 6, "py": 6} if check.thorough else {"mem": 6, "dir": 5, "tar": 5, "py": 5}
    check.rule = ("every sequence of up to %d (files and tar: %d; Python: %d) operations on a storage, two archives, a subarchive and a view (Python: a resource and an element of it): open, copy, move, "
                  "assign, swap, end, hand to a thread, replace or remove the files; everything alive is read after it, and nothing is mapped or open at the end; opening of complete and "
                  "damaged archives with and without the right to write; distinct: states of the handles" % (depth["mem"], depth["dir"], depth["py"]))
    check.assumptions = ["files are replaced and removed, not written in place, while they are open", "a view of C++ is used while its storage or an archive opened from it lives",
                         "a storage that read an archive before its files were replaced may go on reading the old ones"]
    with vlib.scratch() as root:
        vlib.repo_on_path()
        module = vlib.python_module(fx.SCHEMA)
        schemas = fx.py_schemas(module)
        files = [fx.files(schemas, content) for content in CONTENTS]
        tars = [fx.tar_bytes(f) for f in files]
        for g in range(2):
            fx.write_dir(os.path.join(root, "g%d" % g), files[g])
            with open(os.path.join(root, "g%d.tar" % g), "wb") as f:
                f.write(tars[g])
        with open(os.path.join(root, "wide.inc"), "w") as f:
            f.write("".join("WIDE( v%d )\n" % i for i in range(WIDTH)))
        built, problems = {}, []

        def build(what, f):
            try:
                built[what] = f()
            except BaseException as e:  # pylint: disable=broad-except
                problems.append((what, e))

        def wide_object():
            # without sanitizers, which take too long for so many resources
            with open(os.path.join(root, "wide.hpp"), "w") as f:
                f.write(vlib.render(WIDE, "cpp"))
            r = vlib.sh(["g++"] + vlib.CXXFLAGS + ["-O0", "-g0", "-I" + root, "-c", os.path.join(vlib.VERIF, "cpp", "lifetimes_wide.cpp"), "-o", os.path.join(root, "wide.o")])
            if r.returncode:
                raise RuntimeError("compiling an archive of many resources failed:\n" + r.stdout[-4000:])
            return os.path.join(root, "wide.o")

        def build_rust():
            with open(os.path.join(vlib.VERIF, "rust", "lifetimes.rs")) as f:
                code = f.read()
            return rustlib.Rust(root).compile("lifetimes", code, ["-C", "opt-level=1"], modules=[("generated.rs", vlib.render(fx.SCHEMA, "rust")), ("wide.rs", vlib.render(WIDE, "rust")), ("wide_inc.rs", "vec![%s]" % ", ".join("wide.v%d()[0].x()" % i for i in range(WIDTH)))])
        threads = [threading.Thread(target=build, args=("c++", lambda: vlib.build_cpp(root, "lifetimes", [os.path.join(vlib.VERIF, "cpp", "lifetimes.cpp")], FLAGS, [("s.hpp", fx.SCHEMA)], ldflags=[wide_object()]))),
                   threading.Thread(target=build, args=("rust", build_rust))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if problems:
            raise problems[0][1]
        cpp, (rust, errors) = built["c++"], built["rust"]
        if not rust:
            check.fail("rust", "does not compile:\n" + errors)
            return
        only = str(check.only).split() if check.only is not None else None
        jobs = []
        for what, exe in (("c++", cpp), ("rust", rust)):
            for mode in ("mem", "dir", "tar"):
                parts = 1 if only else 8
                for k in range(parts):
                    current = os.path.join(root, "current-%s%s%d" % (what, mode, k))
                    if not only or (only[0] == what and only[1] == mode):
                        jobs.append((what, [exe, mode, str(depth[mode]), str(k), str(parts), root, current] + (only[2:] if only else []), current))
        total = [0, 0, 0]
        for what, at, code, out, err in vlib.parallel(run, jobs):
            for line in out.splitlines():
                if line.startswith("FAIL|"):
                    _f, case, msg = line.split("|", 2)
                    check.fail(what + " " + case, msg)
                elif line.startswith("COUNT"):
                    for i, x in enumerate(line.split()[1:]):
                        total[i] += int(x)
            if code != 0:
                check.fail(what + " " + at, "ends with %s\n%s\n%s" % (code, err[-3000:], out[-500:]))
        jobs = [(mode, depth["py"], k, 8, root, files, tars, None) for mode in ("dir", "tar") for k in range(8)]
        if only:
            jobs = [(only[1], 0, 0, 1, root, files, tars, check.only)] if only[0] == "python" else []
        for failures, counts in vlib.parallel(python_job, jobs):
            total[0] += counts[0]
            total[1] += counts[0] * 3
            for case, msg in failures:
                check.fail(case, msg)
        check.count(total[1])
        check.extra["histories"] = total[0]
        if not only or only[0] == "reading":
            reading(check, root, files[0], tars[0], cpp, rust)
        check.extra["distinct_nontrivial"] = total[2] + len(check.distinct)
    check.sample("c++ dir socxdr: open, copy, end the storage and the first archive, replace the files: the copy reads the old ones")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P38", "exploration"), body)
