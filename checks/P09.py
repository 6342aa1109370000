"""P09: C++ opening accepts exactly intact, schema-matching archives; every fault of a bounded set on the real reader,
compiled with ASan/UBSan, over memory, directory and tar storages; plus every size around the limits of explicit references."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import cpparc as ca

FLAGS = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(vlib.VERIF, "cpp")]
REF_SCHEMA = open(os.path.join(vlib.VERIF, "cpp", "refs.flatdata")).read()


def job(arg):
    exe, mode, base, base_dir, root, part, cases, describe = arg
    d = os.path.join(root, "%s%d" % (mode, part))
    os.makedirs(d)
    bad, kinds = [], {}
    lines, code, err = ca.run_server(exe, mode, base_dir, d, cases)
    for i, ops in enumerate(cases):
        if i >= len(lines):
            bad.append((mode, ops, "the process ended with %s\n%s" % (code, err[-3000:])))
            break
        files = ca.apply_ops(base, ops)
        is_open, got, desc = ca.parse_line(lines[i])
        want = ca.expected(base, files)
        kinds[(want[0], tuple(sorted(k for k, v in want[1].items() if v == "-")))] = 1
        msg = describe(base, files, is_open, got, desc) if describe else ca.judge_open(base, files, is_open, got)
        if msg:
            bad.append((mode, ops, msg))
            if len(bad) > 4:
                break
    else:
        if code:
            bad.append((mode, (), "the process ended with %s after all cases\n%s" % (code, err[-3000:])))
    return len(cases), list(kinds), bad


def sample_for_files(cases, step):
    """Files are slower: a regular subset, all kinds of faults of each file included."""
    return [c for i, c in enumerate(cases) if i % step == 0 or len(c) == 0 or (len(c) == 1 and c[0][1] in "DHA")]


def explore(check, describe, root):
    """runs all faults; returns distinct outcomes"""
    vlib.repo_on_path()
    module = vlib.python_module(fx.SCHEMA)
    base = fx.files(fx.py_schemas(module))
    base_dir = os.path.join(root, "base")
    fx.write_dir(base_dir, base)
    exe = vlib.build_cpp(root, "server", [os.path.join(vlib.VERIF, "cpp", "arc_server.cpp")], FLAGS, [("s.hpp", fx.SCHEMA)])
    all_cases = list(ca.faults(base, check.thorough))
    jobs = []
    for mode in ("mem", "dir", "tar"):
        cases = all_cases if mode == "mem" or check.thorough else sample_for_files(all_cases, 6)
        if check.only is not None:
            cases = [c for c in cases if "%s %s" % (mode, ca.line(c)) == check.only]
        for k in range(8):
            if cases[k::8]:
                jobs.append((exe, mode, base, base_dir, root, k, cases[k::8], describe))
    kinds = set()
    for n, ks, bad in vlib.parallel(job, jobs):
        check.count(n)
        kinds |= set(ks)
        for mode, ops, msg in bad:
            check.fail("%s %s" % (mode, ca.line(ops)), msg)
    return kinds


def body(check):
    check.rule = ("every single fault (absence, every truncation, size headers around the right one and wrapping, appended "
                  "bytes, every payload length with the right header, every character of every schema replaced/inserted/removed), "
                  "pairs of coarse faults, all subsets of absent data files; distinct: sets of invalid resources")
    check.assumptions = ["contents of a correctly framed multivector whose index does not fit to its data are not specified",
                         "a vector whose payload is no multiple of the element size reads as its complete elements",
                         "a too large optional resource makes the archive not open either"]
    with vlib.scratch() as root:
        kinds = explore(check, None, root)
        for k in kinds:
            check.nontrivial(repr(k))
        refs(check, root)
    check.sample("mem vec T 47 -> closed, vec absent")
    check.sample("mem vec.schema S 17 88 -> closed, vec absent")


def refs(check, root):
    """explicit references: every size around every limit, all combinations (cpp/refs.cpp is its own model)"""
    exe = vlib.build_cpp(root, "refs", [os.path.join(vlib.VERIF, "cpp", "refs.cpp")], FLAGS, [("refs.hpp", REF_SCHEMA)])
    r = vlib.sh([exe], timeout=300)
    done = False
    for line in r.stdout.splitlines():
        if line.startswith("FAIL|"):
            _, case, msg = line.split("|", 2)
            if check.wants("refs " + case):
                check.fail("refs " + case, msg)
        elif line.startswith("COUNT|"):
            done = True
            check.count(int(line.split("|")[1]))
            check.extra["explicit_reference_cases"] = int(line.split("|")[1])
    if (not done or (r.returncode and "FAIL|" not in r.stdout)) and check.wants("refs"):
        check.fail("refs", "the program ended with %s\n%s" % (r.returncode, r.stdout[-3000:]))


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P09", "fault_enumeration"), body)
