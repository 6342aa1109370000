"""P10: every crash point and every failing write of whole archive writing histories on the real C++ writer and reader."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx

FLAGS = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(vlib.VERIF, "cpp")]


def job(arg):
    exe, args = arg
    r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
    return args, r.returncode, r.stdout, r.stderr


def run_jobs(check, exe, jobs):
    """Runs harness processes that print FAIL|case|message, COUNT|n, KIND|x, CASE|current case."""
    for args, code, out, err in vlib.parallel(job, [(exe, a) for a in jobs]):
        current, done, failed = " ".join(args), False, False
        for line in out.splitlines():
            p = line.split("|", 2)
            if p[0] == "FAIL" and len(p) == 3:
                failed = True
                if check.wants(p[1]):
                    check.fail(p[1], p[2])
            elif p[0] == "CASE":
                current = line.split("|", 1)[1]
            elif p[0] == "COUNT":
                done = True
                check.count(int(p[1]))
            elif p[0] == "KIND":
                check.nontrivial(line.split("|", 1)[1])
            elif p[0] == "SAMPLE":
                check.sample(line.split("|", 1)[1])
        if (not done or code) and not failed and check.wants(current):
            check.fail(current, "the process ended with %s\n%s" % (code, err[-3000:]))


def body(check):
    check.rule = ("histories writing all resource kinds; crash after every byte in program order, with stream buffers of 0, 16 and 8191 bytes; "
                  "every prefix of every file with every torn header; an error at every byte (once, lasting, without a partial write), every "
                  "stream and directory that cannot be created; every flush reporting an error; byte budgets and file size limits on the real file storage; "
                  "distinct: sets of exposed resources")
    check.assumptions = ["after a crash a file holds a prefix of what was appended, its size header is old, new or a torn mixture"]
    with vlib.scratch() as root:
        src = os.path.join(vlib.VERIF, "cpp")
        exe, files = vlib.parallel(build, [(root, "crash", FLAGS), (root, "crashfiles", ["-g", "-O1", "-I" + src])])
        stride = 1 if check.thorough else 7
        jobs = [[m, str(i), str(s)] for i, s in ((0, 1), (1, 1), (2, 29 * stride), (3, stride)) for m in ("crash", "error", "null", "unsynced")]
        if check.only is not None:
            jobs = [j for j in jobs if str(check.only).startswith(" ".join(j[:2])) or check.only == "no storage"]
        run_jobs(check, exe, jobs)
        jobs = []
        for i, step in ((0, 1), (1, 1), (2, 61 * stride), (3, 3 * stride)):
            for mode in ("kill", "fail", "limit", "limitkill"):
                for part in range(8):
                    jobs.append([mode, str(i), str(step), str(part), os.path.join(root, "d%s%d%d" % (mode, i, part))])
        if check.only is not None:
            jobs = [j for j in jobs if str(check.only).startswith(" ".join(j[:2]) + " ")]
        run_jobs(check, files, jobs)
    check.sample("crash 1 buffer 0 after byte 16 (osub/v 15): osub/v absent")


def build(arg):
    root, name, flags = arg
    d = os.path.join(root, "build_" + name)
    os.makedirs(d)
    return vlib.build_cpp(d, name, [os.path.join(vlib.VERIF, "cpp", name + ".cpp")], flags, [("s.hpp", fx.SCHEMA)])


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P10", "fault_enumeration"), body)
