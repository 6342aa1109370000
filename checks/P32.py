"""P32: Rust containers and views: every short history of operations on the compiled library, compared with plain lists."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import rustlib

SCHEMA = """namespace n {
struct A { x : u32 : 17; y : i8 : 7; }
struct B { z : u8 : 5; }
struct Large { a : u64 : 61; b : u8; }
struct R { @range( xs ) first : u16 : 12; k : u8 : 4; }
struct Q { @range( ys ) only : u32 : 9; }
archive Arc {
    a : vector< A >; r : vector< R >; large : vector< Large >; q : vector< Q >;
    eight : multivector< 8, A, B >; many : multivector< 33, B, Large, A >; raw : raw_data;
}
}
"""


def run(cmd):
    r = vlib.subprocess.run(cmd, stdout=vlib.subprocess.PIPE, stderr=vlib.subprocess.PIPE, text=True, errors="replace", timeout=800)
    return cmd, r.returncode, r.stdout, r.stderr


def body(check):
    depth = 7 if check.thorough else 5
    check.rule = ("all sequences of up to %d operations (9 kinds) on vectors of 5 structures; all external vectors of up to %d and multivectors of up to %d "
                  "steps in memory (3, 5 in files), with every slice and every mixture of steps from both ends; all lengths of bytes; all raw data of up to %d "
                  "bytes of 5 values from every start; distinct: histories" % (depth, depth + 1, depth + 2, depth + 1))
    check.assumptions = ["a vector of structures with ranges shows one element less in its view, the last one is the sentinel"]
    with vlib.scratch() as root:
        r = rustlib.Rust(root)
        with open(os.path.join(vlib.VERIF, "rust", "containers.rs")) as f:
            code = f.read()
        exe, errors = r.compile("containers", code, ["-C", "opt-level=1"], modules=[("containers_gen.rs", vlib.render(SCHEMA, "rust"))])
        if not exe:
            check.fail("rust", "does not compile:\n" + errors)
            return
        parts = 8 if check.only is None else 1
        jobs = [[exe, str(k), str(parts), str(depth), os.path.join(root, "files")] + ([check.only] if check.only else []) for k in range(parts)]
        for k in range(parts):
            os.makedirs(os.path.join(root, "files", str(k)))
        cases = 0
        for cmd, code, out, err in vlib.parallel(run, jobs):
            for line in out.splitlines():
                if line.startswith("FAIL|"):
                    _f, case, msg = line.split("|", 2)
                    check.fail(case, msg)
                elif line.startswith("COUNT"):
                    check.count(int(line.split()[1]))
                elif line.startswith("CASES"):
                    cases += int(line.split()[1])
            if code != 0 and "FAIL|" not in out:
                check.fail("part %s" % cmd[1], "ends with %s\n%s" % (code, err[-3000:]))
    check.extra["distinct_nontrivial"] = cases
    check.sample("vector R gwlzi: grow, with_len, set last, grow without setting, set all; multivector eight G01GG1")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P32", "exploration"), body)
