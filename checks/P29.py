"""P29: every schedule (bounded preemptions) of threads using one storage of the Rust library; the library is compiled against a std
whose locks and threads are controlled (shuttle), freed memory and removed mappings are poisoned."""
import itertools
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import interop as io
import rustlib

SHIM = """#![allow(ambiguous_glob_reexports)]
pub use std::*;
pub mod sync {
    pub use std::sync::*;
    pub use shuttle::sync::{atomic, mpsc, Barrier, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard};
}
pub mod thread { pub use shuttle::thread::*; }
pub use shuttle;
"""
LIGHT = "uslexdw"


def scenarios(thorough):
    for storage in "mf":
        for a, b in itertools.combinations_with_replacement("uslexdwbo", 2):
            yield storage, (a, b)
        light = LIGHT if thorough else "uslew"
        for a, b in itertools.combinations_with_replacement(["".join(p) for p in itertools.product(light, repeat=2)], 2):
            if thorough or "u" in a and "u" in b:
                yield storage, (a, b)
        for ops in itertools.combinations_with_replacement(LIGHT if thorough else "ulexw", 3):
            yield storage, ops
        if thorough:
            for ops in itertools.combinations_with_replacement("ulw", 2):
                yield storage, ("o",) + ops
                yield storage, ("b",) + ops


def preemptions(threads, thorough):
    """heavy operations are explored with fewer preemptions"""
    heavy = sum(t.count("o") + t.count("b") for t in threads)
    bound = 2 if heavy == 0 else 1
    if heavy == 1 and len(threads) == 2 and "b" not in "".join(threads):
        bound = 2
    return bound + (1 if thorough else 0)


def build(root):
    rust = rustlib.Rust(root)
    d = os.path.join(root, "shim")
    os.makedirs(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "shim"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nshuttle = "0.9"\nmemmap2 = "0.9.4"\n'
                'walkdir = "2.2.9"\ndiff = { path = "../rust/diff" }\n[profile.dev]\nopt-level = 2\ndebug = false\n[workspace]\n')
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(SHIM)
    target = os.path.join(d, "target")
    vlib_run(["cargo", "build", "--offline", "-q"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints allow"))
    lib = os.path.join(target, "debug")
    deps = os.path.join(lib, "deps")

    def dep(name):
        return next(os.path.join(deps, f) for f in sorted(os.listdir(deps)) if f.startswith("lib%s-" % name) and f.endswith(".rlib"))
    flatdata = os.path.join(d, "libflatdata.rlib")
    common = ["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "opt-level=2", "-C", "debug-assertions=on", "-L", deps, "-L", d]
    vlib_run(common + ["--crate-name", "flatdata", "--crate-type", "rlib", "--extern", "std=" + os.path.join(lib, "libshim.rlib"),
                       "--extern", "memmap2=" + dep("memmap2"), "--extern", "walkdir=" + dep("walkdir"), "--extern", "diff=" + dep("diff"),
                       "-o", flatdata, os.path.join(vlib.REPO, "flatdata-rs", "lib", "src", "lib.rs")])
    p = os.path.join(d, "prog")
    os.makedirs(p)
    with open(os.path.join(p, "generated.rs"), "w") as f:
        f.write(vlib.render(io.WITHOUT_HOMONYMS, "rust"))
    shutil.copy(os.path.join(vlib.VERIF, "rust", "sched.rs"), os.path.join(p, "main.rs"))
    exe = os.path.join(p, "main")
    vlib_run(common + ["--extern", "shim=" + os.path.join(lib, "libshim.rlib"), "--extern", "flatdata=" + flatdata, "-o", exe,
                       os.path.join(p, "main.rs")])
    return exe


def vlib_run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, **kw)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (cmd, r.stdout[-6000:]))


def name(storage, threads, bound):
    return "%s %s within %d preemptions" % (storage, " ".join(threads), bound)


def job(arg):
    exe, base, bound, cases = arg
    out = []
    todo = list(cases)
    while todo:
        lines = ["%s %s" % (s, " ".join(t)) for s, t in todo]
        r = subprocess.run([exe, base, str(bound)], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=3000)
        done = 0
        for line in r.stdout.splitlines():
            parts = line.split("|", 4)
            if parts[0] in ("DONE", "FAIL"):
                s, t = todo[done]
                done += 1
                out.append((name(s, t, bound), int(parts[2]), int(parts[3]), parts[4] if parts[0] == "FAIL" else None))
        if done < len(todo) and not (r.stdout.splitlines() and r.stdout.splitlines()[-1].startswith("FAIL|")):
            s, t = todo[done]
            done += 1
            out.append((name(s, t, bound), 1, 1, "the process ended with %s (a slice became unusable?) %s" % (r.returncode, r.stderr[-500:])))
        todo = todo[done:]
        if sum(1 for o in out if o[3]) > 3:
            break
    return out


def body(check):
    io.without_homonyms()
    vlib.repo_on_path()
    letters = {"u": "read", "s": "read schema", "l": "read in a subdirectory", "e": "exists", "x": "read what does not exist", "d": "print",
               "w": "write and read an own resource", "b": "build and open an own subarchive", "o": "open the archive"}
    check.assumptions = ["scheduling points are the operations of std::sync and std::thread; between them a thread runs alone (safe Rust has no "
                         "data races there)", "no thread reads a resource which another one is writing"]
    with vlib.scratch() as root:
        exe = build(root)
        module = vlib.python_module(io.WITHOUT_HOMONYMS)
        base = os.path.join(root, "base")
        for n, d in io.files(io.alphabet("arc", "MID", False)[0], module, "MID").items():
            os.makedirs(os.path.dirname(os.path.join(base, n)), exist_ok=True)
            with open(os.path.join(base, n), "wb") as f:
                f.write(d)
        groups = {}
        for storage, threads in scenarios(check.thorough):
            bound = preemptions(threads, check.thorough)
            if check.wants(name(storage, threads, bound)):
                groups.setdefault(bound, []).append((storage, threads))
        jobs = [(exe, base, bound, cases[k::24]) for bound, cases in sorted(groups.items(), reverse=True) for k in range(24) if cases[k::24]]
        schedules = steps = total = 0
        for out in vlib.parallel(job, jobs, timeout=3000):
            for case, n, s, msg in out:
                total += 1
                schedules += n
                steps += s
                check.count(n)
                check.nontrivial(case)
                if msg:
                    check.fail(case, msg)
    check.extra.update({"schedules": schedules, "transitions": steps, "states": schedules, "scenarios": total, "operations": letters,
                        "preemption_bounds": sorted(groups), "traces_validated_against_impl": schedules,
                        "conformance": "every schedule runs the library itself, compiled from the working tree"})
    check.sample("m u u within 2 preemptions: both slices stay valid")
    check.sample("f o o within 1 preemptions: both archives show the same")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P29", "model_checking"), body)
