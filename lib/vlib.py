"""Shared machinery of all checks: counting, known findings, violations, evidence, replay."""
import argparse
import contextlib
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True


def repo_on_path():
    """Import flatdata.generator / flatdata.lib from /repo's working tree (namespace package)."""
    for sub in ("flatdata-generator", "flatdata-py"):
        path = os.path.join(REPO, sub)
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)


class Abort(Exception):
    """Raised to stop a check early after enough violations."""


class Check:
    MAX_REPORTED = 5

    def __init__(self, prop, level, argv=None):
        parser = argparse.ArgumentParser()
        parser.add_argument("--replay", default=None, help="replay file: only its case is executed")
        parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        args = parser.parse_args(argv)
        self.prop = prop
        self.level = level
        self.tier = "thorough" if args.tier == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.violations = []
        self.known_hits = {}
        self.exhaustive = True
        self.only = None
        if args.replay:
            with open(args.replay) as f:
                self.only = json.load(f)["case"]
        self.known = []
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            with open(path) as f:
                self.known = [k for k in json.load(f)["findings"] if k["property"] == prop]

    # ---- cases -------------------------------------------------------------------------------
    def wants(self, case):
        """False if a replay is running and `case` is not the replayed one."""
        return self.only is None or str(case) == str(self.only)

    def count(self, n=1):
        self.evaluations += n

    def nontrivial(self, key):
        self.distinct.add(key if isinstance(key, (int, str, tuple)) else repr(key))

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text)

    def fail(self, case, message):
        """Report a failing case. `case` identifies the specific input/history."""
        case = str(case)
        for k in self.known:
            if case in k["cases"] and k.get("contains", "") in str(message):
                self.known_hits.setdefault(k["id"], k)
                return
        if any(v["case"] == case for v in self.violations):
            return
        directory = os.path.join(VERIF, "replays")
        os.makedirs(directory, exist_ok=True)
        digest = hashlib.sha1(case.encode()).hexdigest()[:10]
        path = os.path.join(directory, "%s-%s.json" % (self.prop, digest))
        entry = {"property": self.prop, "case": case, "message": str(message)[:20000],
                 "tier": self.tier, "replay_cmd": "./run.sh %s --replay %s" % (self.prop, path)}
        with open(path, "w") as f:
            json.dump(entry, f, indent=1)
        self.violations.append(entry)
        if len(self.violations) <= self.MAX_REPORTED:
            print("case: %s\n%s" % (case[:2000], str(message)[:3000]), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        if len(self.violations) >= 20:
            raise Abort()

    def expect(self, cond, case, message):
        if not cond:
            self.fail(case, message() if callable(message) else message)
        return cond

    # ---- end ---------------------------------------------------------------------------------
    def finish(self):
        for k in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        coverage = dict(self.extra)
        if self.level in ("exploration", "fault_enumeration", "other"):
            coverage.setdefault("evaluations", self.evaluations)
            coverage.setdefault("distinct_nontrivial", len(self.distinct))
            coverage.setdefault("rule", self.rule)
        elif self.level == "model_checking":
            coverage.setdefault("evaluations", self.evaluations)
        coverage["samples"] = self.samples or ["(none)"]
        coverage["exhaustive"] = bool(self.exhaustive and not self.violations and self.only is None)
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed,
                    "level": self.level, "coverage": coverage,
                    "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 3),
                    "violations": len(self.violations)}
        if self.only is None:
            directory = os.path.join(VERIF, "evidence")
            os.makedirs(directory, exist_ok=True)
            with open(os.path.join(directory, self.prop + ".json"), "w") as f:
                json.dump(evidence, f, indent=1)
        summary = {k: v for k, v in coverage.items() if isinstance(v, int)}
        print("%s %s: %s, %.1fs, %d violation(s)" % (
            self.prop, self.tier, summary, time.time() - self.start, len(self.violations)))
        return 1 if self.violations else 0


def raised_in_repo(e):
    import re
    remote = getattr(e, "__cause__", None)
    text = str(remote) if remote is not None and "RemoteTraceback" in type(remote).__name__ else \
        "".join(traceback.format_exception(type(e), e, e.__traceback__))
    files = re.findall(r'^  File "([^"]+)"', text, re.M)
    return bool(files) and (files[-1].startswith(REPO + "/") or files[-1] == "<string>")


def run_check(check, body):
    """Runs body(check); exits with the check's verdict (2: the check itself failed)."""
    try:
        try:
            body(check)
        except Abort:
            pass
        code = check.finish()
    except BaseException as e:  # pylint: disable=broad-except
        text = traceback.format_exc()
        print(text[-3000:], file=sys.stderr)
        # An exception nobody expected that comes out of the code under test breaks the property;
        # one that comes out of the harness is an error of the check.
        if isinstance(e, Exception) and raised_in_repo(e):
            with contextlib.suppress(Abort):
                check.fail("unexpected exception", text)
        code = 1 if check.violations else 2
        if check.violations:
            with contextlib.suppress(Exception):
                check.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


@contextlib.contextmanager
def scratch(prefix="flatdata-verif-"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    path = tempfile.mkdtemp(prefix=prefix, dir=base)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def time_limit(seconds):
    """Raises TimeoutError inside the block (main thread only)."""
    def handler(_sig, _frame):
        raise TimeoutError("no answer within %s s" % seconds)
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---- parallel map over a deterministic, index-partitioned enumeration ----------------------------
def parallel(worker, jobs, nproc=None, timeout=800):
    """worker(job) -> result (picklable); preserves job order. A crashed/hung worker -> exception."""
    import concurrent.futures as cf
    import multiprocessing as mp
    nproc = nproc or min(8, os.cpu_count() or 1)
    if len(jobs) <= 1 or nproc == 1:
        return [worker(j) for j in jobs]
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as ex:
        return list(ex.map(worker, jobs, timeout=timeout))


def outcome(fn, *args, **kw):
    """('ok', value) or ('err', exception type name, exception)."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as e:  # pylint: disable=broad-except
        return ("err", type(e).__name__, e)


# ---- generator -----------------------------------------------------------------------------------
def render(schema, generator):
    repo_on_path()
    from flatdata.generator.engine import Engine
    return Engine(schema).render(generator)


def python_module(schema):
    """All classes generated for `schema`, as a module (no assumption about namespaces)."""
    import types
    code = render(schema, "py")
    module = types.ModuleType("generated")
    exec(code, module.__dict__)  # pylint: disable=exec-used
    return module


# ---- C++ -----------------------------------------------------------------------------------------
CXXFLAGS = ["-std=c++17", "-I" + os.path.join(REPO, "flatdata-cpp", "include")]
LIBSOURCES = ["Archive.cpp", "ArchiveBuilder.cpp", "ResourceStorage.cpp", "TarReader.cpp"]
LDLIBS = ["-lboost_system", "-lboost_filesystem", "-lpthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_cpp(out_dir, name, sources, flags=(), schemas=(), lib=True, jobs=8, compiler="g++",
              ldflags=()):
    """Compiles sources (+ libflatdata of the working tree) to out_dir/name, in parallel.
    schemas: (header name, schema text) pairs generated with /repo's generator first."""
    import glob
    for header, text in schemas:
        with open(os.path.join(out_dir, header), "w") as f:
            f.write(render(text, "cpp"))
    todo = list(sources)
    if lib:
        todo += sorted(glob.glob(os.path.join(REPO, "flatdata-cpp", "src", "*.cpp")))
    procs, objs, logs = [], [], []
    for i, src in enumerate(todo):
        obj = os.path.join(out_dir, "%s_%d.o" % (name, i))
        objs.append(obj)
        log = open(obj + ".log", "w+")
        logs.append(log)
        while sum(p.poll() is None for p in procs) >= jobs:
            time.sleep(0.02)
        procs.append(subprocess.Popen(
            [compiler] + CXXFLAGS + ["-I" + out_dir] + list(flags) + ["-c", src, "-o", obj],
            stdout=log, stderr=subprocess.STDOUT))
    for p, src, log in zip(procs, todo, logs):
        if p.wait() != 0:
            log.seek(0)
            raise RuntimeError("compiling %s failed:\n%s" % (src, log.read()[-6000:]))
    exe = os.path.join(out_dir, name)
    r = sh([compiler] + list(flags) + objs + ["-o", exe] + list(ldflags) + LDLIBS)
    if r.returncode != 0:
        raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
    return exe
