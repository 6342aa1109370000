"""P11: all operation sequences on vectors, all small contents of external vectors and multivectors, and every length around
the flushes of their buffers, against plain lists, on the real C++ code."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import many
import P10

SCHEMA = open(os.path.join(vlib.VERIF, "cpp", "containers.flatdata")).read()
PLAIN = ["-O2", "-I" + os.path.join(vlib.VERIF, "cpp")]


def build(arg):
    root, name, flags = arg
    d = os.path.join(root, "build_" + name)
    os.makedirs(d)
    return vlib.build_cpp(d, name, [os.path.join(vlib.VERIF, "cpp", name + ".cpp")], flags, [("c.hpp", SCHEMA)])


def one_of(arg):
    return arg[0](arg[1])


def body(check):
    depth = 6 if check.thorough else 5
    check.rule = ("every sequence of %d operations (of 12) on vectors of 6 struct types starting with 0 and 2 elements; external vectors of "
                  "every length up to 130 with every pattern of assigned elements up to 10; all multivectors of up to 3 items of up to 2 elements "
                  "of 4 types and more; all lengths within 2 of each of two buffer flushes; distinct: contents" % depth)
    with vlib.scratch() as root:
        exe, flush, types = vlib.parallel(one_of, [(build, (root, "p11", P10.FLAGS)), (build, (root, "flush", PLAIN)),
                                                   (many.build, (root, 0))])
        jobs = [["multi", "3", str(k), "4"] for k in range(4)] + [["multi", "all", str(k), "4"] for k in range(4)]
        if check.thorough:
            jobs += [["multi", "4", str(k), "16"] for k in range(16)]
        for t in "ABEWRQ":
            jobs += [["vector", t, str(depth), k] for k in ("0", "2")]
            jobs += [["external", t, "130"]]
        offsets = range(-80, 20) if check.thorough else (-76, -73, -72, -71, -70, -69, -66, -64)
        flushes = [["index"]] + [[t, "2"] for t in "ABWQ"] + [["multi", str(k)] for k in offsets]
        if check.only is not None:
            first = str(check.only).split(" ")
            jobs = [j for j in jobs if j[0] == first[0] and (j[0] == "multi" or j[1] == first[1])]
            flushes = [j for j in flushes if first[0] == "flush" and j[0] == first[1]]
        P10.run_jobs(check, flush, flushes)
        P10.run_jobs(check, exe, jobs)
        if check.only is None or str(check.only).startswith("many"):
            P10.run_jobs(check, types, [["many"]])
    check.sample("vector W 0;grow+1;pop;grow -> [(0 0)]")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P11", "exploration"), body)
