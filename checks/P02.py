"""P02: the C++ codec (flatdata/internal/Reader.h, Writer.h), every (offset, width, type), on the real templates."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib


def build_and_run(job):
    out, name, compiler, flags, macros, only = job
    exe = os.path.join(out, name)
    # only the headers of the codec: no libflatdata, no boost libraries
    cmd = [compiler] + vlib.CXXFLAGS + flags + ["-D%s=%s" % m for m in macros] + \
        [os.path.join(vlib.VERIF, "cpp", "p02.cpp"), "-o", exe]
    r = vlib.sh(cmd)
    if r.returncode:
        return job, None, r.stdout[-6000:], 1
    r = vlib.sh(["timeout", "600", exe], env=dict(os.environ, UBSAN_OPTIONS="print_stacktrace=0"))
    os.unlink(exe)
    return job, r.stdout, None, r.returncode


def body(check):
    check.rule = ("an evaluation is one write+read of one value over one bit pattern of the surrounding bytes by one "
                  "Reader/Writer instantiation; it is non-trivial if surrounding bits are set and the value is not 0 "
                  "(or the value is the optional's sentinel, or the two bounds of a range differ)")
    variants = [("clang++", ["-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])]
    parts = [(1, 64)]
    if check.thorough:
        variants += [("g++", ["-O2", "-g0"]), ("clang++", ["-O2", "-g0"])]
        parts = [(1, 8), (9, 16), (17, 32), (33, 64)]
    with vlib.scratch() as out:
        jobs = []
        for c, (compiler, flags) in enumerate(variants):
            for a, b in parts:
                for off in range(8):
                    tier = int(check.thorough)
                    jobs.append((out, "p02_%d_%d_%d" % (c, a, off), compiler, flags,
                                 [("OFF", off), ("FROM", a), ("TO", b), ("TIER", tier)], check.only))
        evals = nontrivial = instantiations = 0
        for job, stdout, error, code in vlib.parallel(build_and_run, jobs):
            where = "%s %s offset %d widths %d..%d" % (job[2], job[3][0], job[4][0][1], job[4][1][1], job[4][2][1])
            if stdout is None:
                if check.wants("compile " + where):
                    check.fail("compile " + where, error)
                continue
            done = False
            for line in stdout.splitlines():
                if line.startswith("FAIL|"):
                    _, case, message = line.split("|", 2)
                    if check.wants(case):
                        check.fail(case, where + ": " + message)
                elif line.startswith("COUNT|"):
                    done = True
                    e, n, i = map(int, line.split("|")[1:])
                    evals, nontrivial, instantiations = evals + e, nontrivial + n, instantiations + i
            if not done or (code and "FAIL|" not in stdout):
                report = re.sub(r"0x[0-9a-f]+", "0x..", stdout)
                if check.wants("run " + where):
                    check.fail("run " + where, "the harness ended with %s\n%s" % (code, report[-4000:]))
        check.evaluations = evals
        check.extra["evaluations"] = evals
        check.extra["distinct_nontrivial"] = nontrivial
        check.extra["instantiations"] = instantiations
        check.sample("Member<int32_t, 3, 30>: every single-bit value over 40 bit backgrounds, exact-size heap buffer")
        check.assumptions.append(
            "values wider than %d bits are the boundaries, every single bit and patterns; the codec is linear in bits" % (9 if check.thorough else 6))


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P02", "exploration"), body)
