"""P33: every crash point and every failing call while archives are written with the real Rust and Python builders to real files."""
import ctypes
import itertools
import os
import subprocess
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import refmodel as rm
import rustlib

PY_SCHEMA = "\n".join(line for line in fx.SCHEMA.splitlines() if "archive Sub;" not in line).replace("    @optional\n}", "}")
ALL = ["inst", "vec", "mv", "raw", "oinst", "ovec", "omv", "oraw"]
RUST = {
    "all": ["inst", "vec", "mv", "raw", "sub/v", "sub/o", "oinst", "ovec", "omv", "oraw", "osub/v", "osub/o"],
    "grown": ["osub/o", "+osub/v", "+sub/v", "sub/o", "oraw", "omv", "+ovec", "oinst", "raw", "mv", "+vec", "inst"],
    "sizes": ["inst", "raw", "mv", "+vec", "sub/v", "sub/o", "+ovec*%d"],
    "large": ["inst", "raw", "+vec*2200000", "mv*830000", "sub/v", "sub/o"],
}


def frames(data):
    return len(data) >= 16 and int.from_bytes(data[:8], "little") == len(data) - 16


def judge(got, want, code, said, optional, opened):
    """got, want: files of the directory after the fault and of the complete archive. code: 0 success, 3 error, 9 ended"""
    if code not in (0, 3, 9):
        return "ends with %s\n%s" % (code, said)
    if code == 0 and got != want:
        wrong = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        return "success is reported, but %s differ from the complete archive" % wrong
    # what the documented format calls a valid resource was written completely
    resources = [n for n in want if not n.endswith(".schema") and not n.endswith("_index")]
    valid = set()
    for name in resources:
        pair = [name] + ([name + "_index"] if name + "_index" in want else [])
        if all(got.get(p + ".schema") == want[p + ".schema"] and frames(got.get(p, b"")) for p in pair):
            valid.add(name)
            if any(got[p] != want[p] for p in pair):
                return "%s looks complete, but is not: %s" % (name, {p: got[p][:64].hex() for p in pair})
    extra = sorted(set(got) - set(want))
    if extra:
        return "additional files %s" % extra
    # the archive opens exactly if nothing mandatory is missing or broken, with what was completed
    present = lambda n: n in got or n + "_index" in got or n + ".schema" in got
    needed = [n for n in resources if n not in optional and not n.startswith("osub/")]
    must_fail = any(n not in valid for n in needed)
    if must_fail and opened is not None:
        return "it opens without %s: %s" % ([n for n in needed if n not in valid], opened[:300])
    return None


class RustRunner:
    def __init__(self, exe, so, root):
        self.exe, self.so, self.root = exe, so, root

    def read(self, d):
        out = {}
        for root, _dirs, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
        return out

    def run(self, d, steps, mode="", at=0, rest="stop"):
        vlib.shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        env = dict(os.environ, LD_PRELOAD=self.so, FAULT_MODE=mode, FAULT_AT=str(at))
        r = subprocess.run([self.exe, "write", d, rest] + steps, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return r.returncode, r.stderr.decode(errors="replace")[-500:]

    def opened(self, d, how="read"):
        r = subprocess.run([self.exe, how, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        text = r.stdout.decode(errors="replace")
        if r.returncode:
            return "panics " + r.stderr.decode(errors="replace")[-300:]
        return None if text.startswith("error ") else text


def rust_job(arg):
    exe, so, root, name, steps, mode, rest, points, only = arg
    r = RustRunner(exe, so, root)
    d = os.path.join(root, "r_%s_%s_%s_%d" % (name, mode, rest, points[0]), "archive")
    bad, n = [], 0
    code, said = r.run(d, steps)
    want = r.read(d)
    if code or r.opened(d, "open") is None:
        return [("rust %s" % name, "the unfaulted archive: %s %s" % (code, said))], 1, []
    states = set()
    for at in points:
        case = "rust %s %s %s %d" % (name, mode, rest, at)
        if only is not None and case != only:
            continue
        n += 1
        code, said = r.run(d, steps, mode, at, rest)
        got = r.read(d)
        opened = r.opened(d, "read" if name != "large" else "open")
        msg = "panics while opening" if opened and opened.startswith("panics") else judge(got, want, code, said, fx.OPTIONAL, opened)
        states.add((name, frozenset((k, len(v)) for k, v in got.items())))
        if msg:
            bad.append((case, msg))
            if len(bad) > 2:
                break
    vlib.shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return bad, n, [hash(s) for s in states]


def rust_counts(exe, so, root, steps):
    """number of events and of bytes of the unfaulted run: the smallest points at which nothing happens"""
    r = RustRunner(exe, so, root)
    d = os.path.join(root, "count", "archive")
    r.run(d, steps)
    want = r.read(d)
    total = sum(len(v) for v in want.values()) + sum(8 for k in want)
    lo, hi = 0, 4096
    while lo < hi:
        mid = (lo + hi) // 2
        code, _ = r.run(d, steps, "kill", mid)
        lo, hi = (lo, mid) if code == 0 else (mid + 1, hi)
    return lo, total


# ---- Python: in a process with the faults preloaded, every run is a fork of it

def py_child(arg):
    so, root, part, parts, thorough, only = arg
    env = dict(os.environ, LD_PRELOAD=so, VERIF_REPO=vlib.REPO)
    r = subprocess.run([vlib.PY, "-B", "-W", "ignore", os.path.abspath(__file__), "child", so, root, str(part), str(parts), str(int(thorough)), only or ""],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    return r.returncode, r.stdout, r.stderr


def py_steps(module, builder_type, reader_type):
    c = fx.CONTENT
    mv = lambda names, lists: [[{"name": names[t], "attributes": v} for t, v in item] for item in lists]
    return {"inst": c["inst"], "oinst": c["oinst"], "vec": c["vec"], "ovec": c["ovec"], "raw": c["raw"], "oraw": c["oraw"],
            "mv": mv(["n_A", "n_B"], c["mv"]), "omv": mv(["n_B"], c["omv"])}


def child(so, root, part, parts, thorough, only):
    lib = ctypes.CDLL(so)
    lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long]
    vlib.repo_on_path()
    from flatdata.generator.engine import Engine
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    from flatdata.lib.file_resource_storage import FileResourceStorage
    module, builder = Engine(PY_SCHEMA).render_python_module(archive_name="ArcBuilder")
    reader = Engine(PY_SCHEMA).render_python_module(archive_name="Arc")[1]
    values = py_steps(module, builder, reader)
    files = RustRunner(None, None, None).read
    d = os.path.join(root, "py%d" % part, "archive")

    def write(order, rest):
        failed = False
        try:
            b = builder(ResourceStorage(FileResourceWriter(), d))
        except OSError:
            return 3
        for name in order:
            try:
                b.set(name, values[name])
            except OSError:
                failed = True
                if rest == "stop":
                    break
                if rest == "retry":
                    b.set(name, values[name])
                    failed = False
        try:
            b.finish()
        except OSError:
            failed = True
        return 3 if failed else 0

    def run(order, mode, at, rest):
        vlib.shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        os.makedirs(os.path.dirname(d))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 77
            try:
                lib.fault_arm(mode.encode(), at)
                code = write(order, rest)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(code)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

    def opened():
        try:
            a = reader(FileResourceStorage(d))
            return repr({n: None if getattr(a, n) is None else len(getattr(a, n)) for n in ALL})
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ in ("AttributeError", "TypeError", "IndexError", "NameError", "AssertionError"):
                return "panics %r" % e
            return None

    optional = fx.OPTIONAL
    jobs = []
    for o, order in enumerate([ALL, ALL[::-1]]):
        code = run(order, "", 0, "stop")
        want = files(d)
        schemas = {n: want.get(n + ".schema", b"").decode() for n in ALL}
        expected = {k: v for k, v in fx.files(dict(schemas, Arc="", Sub="", **{"Sub.v": "", "Sub.o": ""})).items()
                    if not k.startswith(("sub/", "osub/", "Arc."))}
        if code or any(want.get(k) != v for k, v in expected.items()) or opened() is None:
            print("FAIL|python complete %d|the unfaulted archive ends with %s" % (o, code))
        total = sum(len(v) for v in want.values())
        bytes_step = 1 if thorough or o == 0 else 7
        for mode, points in (("kill", range(200)), ("once", range(200)), ("lasting", range(200)), ("short", range(200)),
                             ("bytes", range(0, total + 1, bytes_step)), ("full", range(0, total + 1, bytes_step))):
            for rest in ("stop", "continue", "retry") if mode in ("once", "full") else ("stop",) if mode in ("kill", "bytes") else ("stop", "continue"):
                if mode == "full" and rest == "retry":
                    continue    # it fails again
                jobs += [(o, order, want, mode, at, rest) for at in points]
    done = set()
    n = 0
    for k, (o, order, want, mode, at, rest) in enumerate(jobs):
        # a point behind the end of the run does nothing: the following ones are not run
        if (o, mode, rest) in done or at % parts != part and mode not in ("kill", "once", "lasting", "short") or \
                mode in ("kill", "once", "lasting", "short") and (at + len(mode + rest)) % parts != part:
            continue
        case = "python %d %s %s %d" % (o, mode, rest, at)
        if only and case != only:
            continue
        n += 1
        code = run(order, mode, at, rest)
        got = files(d)
        look = opened()
        if code == 0 and got == want:
            if mode in ("kill", "bytes"):
                done.add((o, mode, rest))
        msg = look if look and look.startswith("panics") else judge(got, want, code, "", optional, look)
        if rest == "retry" and code == 3 and got.get("Arc.archive.schema") == want["Arc.archive.schema"] and "Arc.archive" in got and len(got) > 2:
            msg = msg or "a call that failed cannot be repeated"
        print("STATE|%d" % hash((o, frozenset((a, len(b)) for a, b in got.items()))))
        if msg:
            print("FAIL|%s|%s" % (case, msg.replace("\n", " ")))
            break
    print("COUNT|%d" % n)


def body(check):
    check.rule = ("Rust: 3 orders and ways of writing all kinds of resources, vectors of 0 to 12 elements, and buffers of more than 32 MB; Python: 2 orders; the "
                  "process ends before every call that changes files and after every byte; every such call fails (once, lasting) or writes half, with the "
                  "program stopping, going on or trying again; the disk is full after every byte; distinct: states of the directory")
    check.assumptions = ["what was written reaches the disk in order", "errors of close(2) are not reported by Rust's files", "a fresh directory"]
    with vlib.scratch() as root:
        so = os.path.join(root, "faults.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(vlib.VERIF, "cpp", "faults.c"), "-ldl"], check=True)
        only = check.only
        states = set()
        if only is None or only.startswith("python "):
            parts = 8 if only is None else 1
            for part, (code, out, err) in enumerate(vlib.parallel(py_child, [(so, root, k, parts, check.thorough, only) for k in range(parts)])):
                done = False
                for line in out.splitlines():
                    p = line.split("|", 2)
                    if p[0] == "FAIL":
                        check.fail(p[1], p[2])
                    elif p[0] == "COUNT":
                        done = True
                        check.count(int(p[1]))
                    elif p[0] == "STATE":
                        states.add("python " + p[1])
                if code or not done:
                    raise RuntimeError("python part %d ends with %s\n%s" % (part, code, err[-3000:]))
        if only is None or only.startswith("rust "):
            lib = rustlib.Rust(root)
            with open(os.path.join(vlib.VERIF, "rust", "crash.rs")) as f:
                text = f.read()
            exe, errors = lib.compile("crash", text, ["-C", "opt-level=3"], modules=[("crash_gen.rs", vlib.render(fx.SCHEMA, "rust"))])
            if not exe:
                check.fail("rust", "does not compile:\n" + errors)
                return
            programs = {k: v for k, v in RUST.items() if k != "sizes"}
            for k in (0, 2, 3, 4, 7, 12) if not check.thorough else range(20):
                programs["sizes%d" % k] = [s % k if "%" in s else s for s in RUST["sizes"]]
            jobs = []
            for name, steps in programs.items():
                events, total = rust_counts(exe, so, root, steps)
                size = 40
                for mode in ("kill", "once", "lasting", "short", "bytes", "full"):
                    if mode in ("bytes", "full"):
                        if name == "large":
                            continue
                        points = list(range(0, total + 1, 1 if check.thorough or name == "grown" and mode == "bytes" else 3))
                    else:
                        points = list(range(events + 2))
                        if name == "large":
                            points = [p for p in points if p > 8] if mode != "lasting" else points[::5]
                    for rest in ("stop",) if mode in ("kill", "bytes", "full") else ("stop", "continue"):
                        if name == "large" and rest == "continue" and not check.thorough:
                            continue
                        jobs += [(exe, so, root, name, steps, mode, rest, points[i:i + size], only) for i in range(0, len(points), size)]
            if only is not None:
                jobs = [j for j in jobs if only.startswith("rust %s %s %s " % (j[3], j[5], j[6]))]
            for bad, n, seen in vlib.parallel(rust_job, jobs):
                check.count(n)
                states.update("rust %s" % s for s in seen)
                for case, msg in bad:
                    check.fail(case, msg)
        for s in states:
            check.nontrivial(s)
    check.sample("rust grown bytes stop 40: the process ends in the eighth byte of the elements of osub/v")
    check.sample("python 0 once retry 17: a write of mv_index fails once, set() is called again")


if __name__ == "__main__":
    if sys.argv[1:2] == ["child"]:
        child(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6] == "1", sys.argv[7])
    else:
        vlib.run_check(vlib.Check("P33", "fault_enumeration"), body)
