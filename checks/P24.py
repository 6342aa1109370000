"""P24: stateless model checking of threads that use one storage: a controlled scheduler enumerates all schedules of the real C++
code up to a preemption bound; outcomes are compared with all sequential orders, ThreadSanitizer watches each schedule."""
import itertools
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

CPP = os.path.join(vlib.VERIF, "cpp")
WRAPPED = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
           "pthread_rwlock_unlock", "open"]


def build(root):
    obj = os.path.join(root, "vsched.o")
    r = vlib.sh(["clang", "-O1", "-g", "-c", os.path.join(CPP, "vsched.c"), "-o", obj])
    if r.returncode:
        raise RuntimeError(r.stdout)
    return vlib.build_cpp(root, "p24", [os.path.join(CPP, "p24.cpp")], ["-O0", "-g", "-fsanitize=thread", "-I" + CPP],
                          [("s.hpp", open(os.path.join(CPP, "p24.flatdata")).read())], compiler="clang++",
                          ldflags=["-Wl," + ",".join("--wrap=" + w for w in WRAPPED), "-rdynamic", obj])


def programs(kind, thorough):
    """(bound, program); the cost of an operation is roughly its number of scheduling points"""
    full = 99
    if kind == "tar":
        for a, b in itertools.combinations_with_replacement("rReO", 2):
            yield full, "%s/%s" % (a, b)
        for a, b in itertools.product(("rO", "Or", "ee"), repeat=2):
            yield full, "%s/%s" % (a, b)
        return
    light, all_ops = "wbmdcrRe", "wbmdcrReO"
    for a, b in itertools.combinations_with_replacement(all_ops, 2):
        yield (3 if thorough else 2), "%s/%s" % (a, b)
    for a, b in itertools.combinations_with_replacement("wbdrRe", 2):
        yield full if not (a in "d" and b in "d") or thorough else 4, "%s/%s" % (a, b)
    for a in all_ops + "B":
        yield (2 if thorough else 1), "%s/B" % a
    for a, b, c in itertools.combinations_with_replacement("wbdcrO" if not thorough else all_ops, 3):
        yield (2 if thorough and "O" not in a + b + c else 1), "%s/%s/%s" % (a, b, c)
    for (a, b), (c, d) in itertools.combinations_with_replacement(list(itertools.permutations("wbdc" if not thorough else light, 2)), 2):
        yield (2 if thorough else 1), "%s%s/%s%s" % (a, b, c, d)


def job(arg):
    exe, root, kind, bound, progs, i = arg
    d = os.path.join(root, "w%d" % i)
    os.mkdir(d)
    log = os.path.join(d, "tsan")
    env = dict(os.environ, TSAN_OPTIONS="log_path=%s exitcode=0 history_size=4" % log)
    r = subprocess.run([exe, d, kind, str(bound)] + progs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                       env=env, timeout=3000)
    text = "".join(open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith("tsan"))
    return r.returncode, r.stdout, r.stderr[-2000:], text[:3000]


def body(check):
    check.rule = ("all pairs of 9 operations (write, multivector, block, own and common directory, read, exists, open) with up to 2 preemptions, "
                  "short pairs with all schedules, archives built beside every operation, all triples and all pairs of two-operation threads with "
                  "1 preemption, on memory and file storages; all schedules on tar storages; distinct: programs")
    check.assumptions = ["schedules differ only at lock operations, mkdir and open: sound for programs without data races, which every schedule is "
                         "checked for", "threads write different resources; nothing is read while it is being written"]
    with vlib.scratch() as root:
        exe = build(root)
        jobs = []
        for kind in ("mem", "file", "tar"):
            groups = {}
            for bound, p in programs(kind, check.thorough):
                if check.only is None or check.only == "%s %s bound %d" % (kind, p, bound):
                    groups.setdefault(bound, []).append(p)
            for bound, progs in groups.items():
                progs = list(dict.fromkeys(progs))
                heavy = [p for p in progs if "B" in p or p.count("O") > 1]
                light = [p for p in progs if p not in heavy]
                for p in heavy:
                    jobs.append((exe, root, kind, bound, [p], len(jobs)))
                for k in range(8):
                    if light[k::8]:
                        jobs.append((exe, root, kind, bound, light[k::8], len(jobs)))
        jobs.sort(key=lambda j: -sum(("B" in p) * 3 + p.count("O") + len(p) * 0.1 for p in j[4]))
        schedules = points = states = 0
        for (_, _, kind, bound, progs, _), (code, out, err, tsan) in zip(jobs, vlib.parallel(job, jobs, timeout=3000)):
            current = ""
            failed = False
            for line in out.splitlines():
                p = line.split("|", 2)
                if p[0] == "CASE":
                    current = p[1]
                elif p[0] == "FAIL":
                    failed = True
                    check.fail(p[1], p[2] + "\n" + (tsan if "race" in p[2] else ""))
                elif p[0] == "COUNT":
                    schedules += int(p[1])
                elif p[0] == "POINTS":
                    points += int(p[1].split()[0])
                    states += int(p[1].split()[1])
                elif p[0] == "KIND":
                    check.nontrivial(p[1])
            if not failed and (code or "POINTS|" not in out):
                check.fail(current, "the process ended with %s%s\n%s" % (code, " (no progress)" if code == -14 else "", err))
        check.count(schedules)
        check.extra.update(states=states, transitions=points, traces_validated_against_impl=schedules, programs=len(check.distinct))
    check.sample("mem w/B bound 1: a vector is written while an archive is built in a directory of the same storage")
    check.sample("file c/c/c bound 1: three threads create the same directory and write own resources in it")


vlib.run_check(vlib.Check("P24", "model_checking"), body)
