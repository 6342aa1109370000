"""P13: access to all small multivectors (written byte by byte by the harness) through for_each with all kinds of callbacks and
typed iterators, and every unknown type index, on the real C++ code under ASan/UBSan."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import many
import P10
import P11


def build(arg):
    return arg[0](arg[1])


def body(check):
    check.rule = ("every multivector of up to 2 items of up to 3 elements of 4 types, 1 item of up to 6, 3 items of up to 2, 5 of up to 1 "
                  "(thorough: 3x3, 2x4, 4x2); each with for_each of all types and subsets, overloads, iterators of every type; every unknown "
                  "type index at every element; index widths of 9, 33, 64 bits; items around 2^31, 2^32, 2^33 and 2^40 bytes into the data; a multivector of 256 types; distinct: contents")
    with vlib.scratch() as root:
        exe, types = vlib.parallel(build, [(P11.build, (root, "p13", P10.FLAGS)), (many.build, (root, 1))])
        jobs = [[m, "2", str(k), "4"] for m in ("m", "bad", "k", "h", "far") for k in range(4)]
        if check.thorough:
            jobs += [[m, "3", str(k), "16"] for m in ("m", "h", "far") for k in range(16)]
        if check.only is not None:
            jobs = [j for j in jobs if j[0] == str(check.only).split(" ")[0]]
        P10.run_jobs(check, exe, jobs)
        if check.only is None or str(check.only).startswith("many"):
            P10.run_jobs(check, types, [["many"]])
    check.sample("m AB|| for_each<B>( 0 ) visits the B only, item 1 is empty")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P13", "exploration"), body)
