"""P04: contents of an archive with every kind of resource, written by the C++ and the Python builder, compared byte by byte
with the documented format, and read by both."""
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import interop as io
import many

FLAGS = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(exe, lines, env=None):
    r = subprocess.run([exe], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=800, env=env)
    out = r.stdout.split("\n")[:-1]
    if len(out) < len(lines):
        out.append("the process ended with %s\n%s" % (r.returncode, r.stderr[-2000:]))
    return out + [""] * (len(lines) - len(out))


def job(arg):
    exe, root, part, cases, ways = arg
    vlib.repo_on_path()
    from flatdata.lib.file_resource_storage import FileResourceStorage
    module = vlib.python_module(io.SCHEMA)
    bad, lines, want = [], [], []
    top = os.path.join(root, "part%d" % part)
    for k, (name, content) in enumerate(cases):
        expected = io.files(content, module)
        for way in ways:
            want.append((name, way, "W", expected, content))
            lines.append("W %s %d %s" % (os.path.join(top, "c%d_%d" % (k, way)), way, io.text(content)))
        # Python
        path = os.path.join(top, "p%d" % k)
        got = vlib.outcome(io.py_write, content, module, path)
        msg = "Python: %r" % (got[2],) if got[0] == "err" else io.difference(io.read_dir(path), expected)
        if msg:
            bad.append((name, "Python " + msg))
        want.append((name, -1, "R", expected, content))
        lines.append("R " + path)
    for line in lines:
        if line.startswith("W "):
            os.makedirs(line.split(" ")[1])
    answers = run(exe, lines)
    for (name, way, op, expected, content), line, answer in zip(want, lines, answers):
        path = line.split(" ")[1]
        if op == "R":
            if answer != io.text(content):
                bad.append((name, "C++ reads what Python wrote as %s\nexpected %s" % (answer, io.text(content))))
        else:
            msg = None if answer == "ok" else "reports " + answer
            msg = msg or io.difference(io.read_dir(path), expected)
            if msg:
                bad.append((name, "C++ (way %d) %s" % (way, msg)))
            else:
                got = vlib.outcome(lambda: io.py_read(module.n_Top(FileResourceStorage(path))))
                if got[0] == "err" or got[1] != io.text(content):
                    bad.append((name, "Python reads what C++ wrote as %s\nexpected %s" % (got[1:], io.text(content))))
        shutil.rmtree(path, ignore_errors=True)
    return len(lines) + len(cases), bad


def body(check):
    check.rule = ("an archive with instances, vectors, multivectors (index widths 8, 16, 33, 64), raw data, nested and optional archives and "
                  "homonymous structures: every resource with every content of its alphabet (4 extreme values per structure, up to 300 "
                  "elements), every pair of resources with every pair of their first contents, every set of absent optional resources; multivectors of 129 and 200 types; "
                  "C++ sets, grows in memory and grows in the file; distinct: contents")
    check.assumptions = ["Python shows the sentinel of a vector of ranges as an element, C++ hides it (its bytes are compared)",
                         "the Python builder does not write subarchives; they are written with a builder of their own"]
    with vlib.scratch() as root:
        exe = vlib.build_cpp(root, "interop", [os.path.join(vlib.VERIF, "cpp", "interop.cpp")], FLAGS, [("interop.hpp", io.SCHEMA)])
        cases = [c for c in io.contents(check.thorough) if check.wants(c[0])]
        for n, bad in vlib.parallel(job, [(exe, root, k, cases[k::8], (0, 1, 2)) for k in range(8) if cases[k::8]]):
            check.count(n)
            for case, msg in bad:
                check.fail(case, msg)
        for name, _c in cases:
            check.nontrivial(name)
    for types in (129, 200):        # beyond what a signed byte can tell apart
        for writes in (True, False):
            many.python(check, writes, types)
    check.sample(io.text(io.alphabet("arc", "MID", True)[0], "MID"))


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P04", "exploration"), body)
