"""P28: values of generated structures in C++ and Rust: every pair of values of an alphabet of every structure, compared, copied,
converted, hashed and printed by the compiled generated code, against the values themselves."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import rustlib
import values as vs

FLAGS = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
LESS = r'''
#include "values.hpp"
#include <flatdata/flatdata.h>
#include <flatdata/Struct.h>
#include <cstdio>
int main( )
{
    // values that are not ordered with regard to the next ones must be equal to each other (strict weak ordering)
    flatdata::Struct< n::Signs > s[ 3 ];
    ( *s[ 0 ] ).b = 1; ( *s[ 1 ] ).b = 2; ( *s[ 2 ] ).b = 3;
    for ( int i = 0; i < 3; i++ ) for ( int j = i + 1; j < 3; j++ )
        if ( !( n::Signs( *s[ i ] ) < n::Signs( *s[ j ] ) ) && !( n::Signs( *s[ j ] ) < n::Signs( *s[ i ] ) ) ) { puts( "different structures without order" ); return 1; }
    return 0;
}
'''


def signed(v):
    return v - (1 << 64) if v >= 1 << 63 else v


def build(arg):
    what, root = arg
    if what == "rust":
        r = rustlib.Rust(root)
        with open(os.path.join(vlib.VERIF, "rust", "values.rs")) as f:
            code = f.read()
        exe, errors = r.compile("values", code, modules=[("values_gen.rs", vlib.render(vs.schema(), "rust")), ("values_of.rs", vs.rust())])
        return exe if exe else "!" + errors
    d = os.path.join(root, what)
    os.makedirs(d)
    if what == "less":
        with open(os.path.join(d, "less.cpp"), "w") as f:
            f.write(LESS)
        return vlib.build_cpp(d, "less", [os.path.join(d, "less.cpp")], ["-O0"], [("values.hpp", vs.schema())])
    with open(os.path.join(d, "values_of.h"), "w") as f:
        f.write(vs.cpp())
    return vlib.build_cpp(d, what, [os.path.join(vlib.VERIF, "cpp", "p28.cpp")], FLAGS, [("values.hpp", vs.schema())], compiler="clang++" if what == "clang" else "g++")


def run(cmd):
    r = vlib.subprocess.run(cmd, stdout=vlib.subprocess.PIPE, stderr=vlib.subprocess.PIPE, text=True, errors="replace", timeout=800)
    return cmd, r.returncode, r.stdout, r.stderr


def body(check):
    check.rule = ("%d structures (1 to 9 fields; all types, widths up to 64, unaligned, optional, enumerations, range), each with all combinations of "
                  "extreme values of few fields or of every one and two fields; every pair of values compared, copied, hashed; distinct: values" % len(vs.STRUCTS))
    check.assumptions = ["the bits of the last byte behind the last field are zero (as written by the library)",
                         "Rust cannot hold structures with a range outside of a vector"]
    vlib.repo_on_path()
    from flatdata.generator.engine import Engine
    tree = Engine(vs.schema()).tree
    from flatdata.generator.tree.syntax_tree import SyntaxTree
    with vlib.scratch() as root:
        cpp, rust = os.path.join(root, "cpp.txt"), os.path.join(root, "rust.txt")
        with open(cpp, "w") as c, open(rust, "w") as r:
            for s in vs.STRUCTS:
                schema = SyntaxTree.schema(tree.find(".n." + s.name))
                c.write("S %s %d %d\n%s\n" % (s.name, s.model.size, len(schema), schema))
                r.write("S %s %d\n" % (s.name, s.model.size))
                for v in s.values(check.thorough):
                    here = [int(f[3] is None or x != vs.CONSTS[f[3]][1]) for f, x in zip(s.fields, v)]
                    text = s.cpp_text(v)
                    num = " ".join(str(signed(x)) for x in v)
                    c.write("V %d %s %s %s %d\n%s\n" % (len(v), num, " ".join(map(str, here)), s.pack(v).hex(), len(text), text))
                    r.write("V %s %s|%s\n" % (s.pack(v).hex(), num, s.rust_text(v)))
                    check.nontrivial("%s %s" % (s.name, v))
        whats = ["cpp", "rust", "less"] + (["clang"] if check.thorough else [])
        exes = dict(zip(whats, vlib.parallel(build, [(w, root) for w in whats])))
        if exes["rust"].startswith("!"):
            check.fail("rust", "does not compile:\n" + exes["rust"])
            return
        jobs = [[exes[w], cpp, str(k), "8"] for w in whats if w in ("cpp", "clang") for k in range(8)] + [[exes["rust"], rust]]
        for cmd, code, out, err in vlib.parallel(run, jobs):
            lang = "rust" if cmd[0] == exes["rust"] else "cpp"
            for line in out.splitlines():
                if line.startswith("FAIL|"):
                    _f, case, msg = line.split("|", 2)
                    check.fail("%s: %s" % (lang, case), msg)
                elif line.startswith("COUNT"):
                    check.count(int(line.split()[1]))
            if code != 0 and "FAIL|" not in out:
                check.fail("%s: %s" % (lang, " ".join(cmd[2:])), "ends with %s\n%s" % (code, err[-3000:]))
        _cmd, code, out, _err = run([exes["less"]])
        check.count()
        check.expect(code == 0, "operator< of a structure with several fields", out)
    check.sample("Absent 3 -7 18446744073709551615 -1: all fields absent, prints the values that say so")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P28", "exploration"), body)
