"""P12: all compositions of slicing operations on views of every small length, and all iterator arithmetic on them, against plain
sequences, on the real C++ code under ASan/UBSan in memory of exactly the resource's size."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import P10
import P11


def body(check):
    n, depth = (9, 4) if check.thorough else (6, 3)
    check.rule = ("views of 6 struct types over 0..%d elements and every trailing partial element; every composition of up to %d slicing "
                  "operations with all arguments; every pair of positions for iterator arithmetic; distinct: views" % (n, depth))
    with vlib.scratch() as root:
        exe = P11.build((root, "p12", P10.FLAGS))
        jobs = [[t, str(n), str(depth)] for t in "QRABWE"]
        if check.only is not None:
            jobs = [j for j in jobs if str(check.only).startswith(j[0] + " ") or str(check.only).startswith("default")]
        P10.run_jobs(check, exe, jobs)
    check.sample("R n=4 .skip(1).slice(0,2): [1], [2] with ranges")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P12", "exploration"), body)
