"""P15: all sequences of builder operations up to a depth, from many existing archives, on real storages against a file model."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import fixture as fx
import P10

FLAGS = P10.FLAGS
ALT = fx.SCHEMA.replace("namespace n {", "namespace alt {")
INITIAL = 15


def body(check):
    depth = {"map": 5 if check.thorough else 4, "mem": 4 if check.thorough else 3, "dir": 4 if check.thorough else 3}
    check.rule = ("every sequence of builder operations (opening with the right or another schema, setting or growing each resource, "
                  "subarchives and their resources) up to depth %s from %d initial archives; distinct: archive states" % (depth, INITIAL))
    check.assumptions = ["no resource is written twice through the same storage"]
    with vlib.scratch() as root:
        vlib.repo_on_path()
        base = fx.files(fx.py_schemas(vlib.python_module(fx.SCHEMA)))
        fx.write_dir(os.path.join(root, "base"), base)
        exe = vlib.build_cpp(root, "builder", [os.path.join(vlib.VERIF, "cpp", "builder.cpp")], FLAGS,
                             [("s.hpp", fx.SCHEMA), ("alt.hpp", ALT)])
        jobs = []
        for mode in ("dir", "map", "mem"):
            for k in range(INITIAL):
                d = os.path.join(root, "%s%d" % (mode, k))
                os.makedirs(d)
                n = depth[mode] + (k == 0 and mode != "map")
                jobs.append([mode, str(n), str(k), os.path.join(root, "base"), d])
        jobs.sort(key=lambda j: (j[2] != "0", j[0] != "dir"))
        if check.only is not None:
            jobs = [j for j in jobs if str(check.only).startswith(j[0] + " ")]
        P10.run_jobs(check, exe, jobs)
    check.sample("dir complete;open;vec -> refused, nothing changed")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P15", "exploration"), body)
