"""P20: name resolution - equally named definitions placed in every subset of nested namespaces, every spelling of a
reference from every namespace, every kind of reference; the definition referred to is read from the stored schema, from
the Python classes and (compile time type comparison) from the C++ types."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import genlib as g
import schemamodel as sm

SPACES = ("n", "n.n", "n.m", "m", "n.m.n")
SPELLINGS = ("X", "n.X", "m.X", "n.n.X", "n.m.X", "m.n.X", ".n.X", ".n.n.X", ".n.m.X", ".m.X", ".n.m.n.X", ".X")


def resolve(ns, spelling):
    """the definition meant: qualified names from the root, others from the enclosing namespace"""
    return spelling if spelling.startswith(".") else ".%s.%s" % (ns, spelling)


def target(kind, ns, i):
    if kind == "struct":
        return "namespace %s { struct X { f%d : u8 : %d; } }" % (ns, i, i + 1)
    if kind == "enum":
        return "namespace %s { enum X : u8 : 1 { A%d, B%d } }" % (ns, i, i)
    if kind == "const":
        return "namespace %s { const u8 X = %d; }" % (ns, i + 1)
    if kind == "archive":
        return "namespace %s { archive X { d%d : raw_data; } }" % (ns, i)
    raise ValueError(kind)


USES = {  # kind of target: [(name, user definition, what the schema of .ns.R has to contain)]
    "struct": [("vector", "archive R { p : vector< %s >; }"), ("instance", "archive R { p : %s; }"),
               ("multivector", "archive R { p : multivector< 8, %s >; }")],
    "enum": [("field", "struct U { p : %s; } archive R { p : U; }")],
    "const": [("const", "struct U { @const( %s ) p : u8; } archive R { p : U; }"), ("optional", "struct U { @optional( %s ) p : u8; } archive R { p : U; }")],
    "archive": [("archive", "archive R { p : archive %s; }"),
                ("destination", "struct U { p : u8; } archive R { @explicit_reference( U.p, %s ) p : U; }")],
}


def cases(thorough):
    for kind, uses in USES.items():
        for mask in range(1, 32):
            placed = [s for i, s in enumerate(SPACES) if mask >> i & 1]
            for ns, spelling, (use, text) in itertools.product(SPACES, SPELLINGS, uses):
                if not thorough and use in ("instance", "multivector", "optional") and bin(mask).count("1") in (2, 4):
                    continue
                for first in (True, False):
                    if not first and not thorough and bin(mask).count("1") != 3:
                        continue
                    yield (kind, use, ns, spelling, tuple(placed), first)


def text_of(case):
    kind, use, ns, spelling, placed, first = case
    template = dict(USES[kind])[use]
    defs = [target(kind, s, SPACES.index(s)) for s in placed]
    sp = spelling
    if use == "destination":
        sp = spelling + ".d%d" % (SPACES.index(resolve(ns, spelling)[1:-2]) if resolve(ns, spelling)[1:-2] in SPACES else 0)
    user = "namespace %s { %s }" % (ns, template % sp)
    return " ".join(defs + [user] if first else [user] + defs[::-1])


def job(case):
    kind, use, ns, spelling, placed, _first = case
    text = text_of(case)
    want = resolve(ns, spelling)
    ok = want[1:-2] in placed
    verdict, value = g.verdict(text)
    if verdict == "crash":
        return "crash: %r\n%s" % (value, text)
    if ok != (verdict == "ok"):
        return "%s although '%s' in %s means %s\n%s" % ("accepted" if verdict == "ok" else "rejected (%s)" % value, spelling, ns, want, text)
    if not ok:
        return None
    if use == "destination":
        schema = g.py_schemas(text)[("archive", ".%s.R" % ns)]
        d = [d for d in sm.parse(schema) if sm.path(d) == ".%s.R" % ns][0]
        got = d["resources"][0]["erefs"][0][2]
        if not got.startswith(want + ".d%d" % SPACES.index(want[1:-2])):
            return "the reference means %s, not %s\n%s" % (got, want, text)
        return None
    schema = g.py_schemas(text)[("archive", ".%s.R" % ns)]
    got = repr(sm.Meaning(sm.parse(schema)).archive(".%s.R" % ns))
    i = SPACES.index(want[1:-2])
    needle = {"struct": "('%s', (('f%d', 'u8', 0, %d," % (want, i, i + 1), "enum": "('%s', 'u8', 1, (('A%d', 0)" % (want, i),
              "const": "('%s', 'u8', %d)" % (want, i + 1), "archive": "('%s', (), (('%s', 'd%d', 'raw'" % (want, want, i)}[kind]
    if needle not in (got if kind != "const" else got[:got.rindex("), (")] if "), (" in got else got):
        return "'%s' in %s means %s, but the generator chose\n%s\n%s" % (spelling, ns, want, schema, text)
    if kind in ("struct", "archive"):
        module = vlib.python_module(text)
        init = getattr(module, ns.replace(".", "_") + "_R")._RESOURCES["p"].initializer
        init = init[-1] if isinstance(init, list) else init
        cls = getattr(module, want[1:].replace(".", "_"))
        if init is not cls:
            return "the Python code uses %s for %s\n%s" % (init, want, text)
    return None


def own_members():
    """members of the archive itself come first for references to resources"""
    out = []
    struct = "struct S { f : u8; }"
    for extra, dest, want in (
            ("struct w { a : u8; }", "w", ".n.A.w"), ("archive w { d : raw_data; }", "w", ".n.A.w"),
            ("const u8 w = 1;", "w", ".n.A.w"), ("archive L { w : raw_data; }", "L.w", ".n.L.w"),
            ("archive L { w : raw_data; }", "A.w", ".n.A.w"), ("archive B { w : raw_data; }", "B.w", ".n.B.w"),
            ("archive B { w : raw_data; }", "w", ".n.A.w")):
        schema = "namespace n { %s %s @bound_implicitly( b : p, %s ) archive A { @explicit_reference( S.f, %s ) p : vector< S >; w : raw_data; %s } }"
        res = "lr : archive L;" if "archive L" in extra else ""
        bound = "w" if want != ".n.A.w" else dest
        out.append((schema % (extra, struct, bound, dest, res), want))
    return out


def own_job(case):
    schema, want = case
    kind, value = g.verdict(schema)
    if kind != "ok":
        return "rejected: %s" % value
    text = g.py_schemas(schema)[("archive", ".n.A")]
    d = [d for d in sm.parse(text) if sm.path(d) == ".n.A"][0]
    got = d["resources"][0]["erefs"][0][2]
    if got != want:
        return "the reference means %s, not %s\n%s" % (got, want, text)
    if d["bound"] != [["b", [".n.A.p", ".n.A.w"]]]:
        return "bound resources are %s" % d["bound"]
    return None


def cpp(check):
    """all spellings from all namespaces in one C++ program: the types are compared at compile time, values at run time"""
    defs, asserts = [], []
    for i, s in enumerate(SPACES):
        defs += ["namespace %s { struct X { f%d : u8 : %d; } enum Y : u8 : 1 { A%d, B%d } archive Z { d%d : raw_data; } const u8 W = %d; }" % (
            s, i, i + 1, i, i, i, i + 1)]
    for ns in SPACES:
        res, fields = [], []
        cxx = "::" + ns.replace(".", "::")
        for j, sp in enumerate(SPELLINGS):
            want = resolve(ns, sp)
            if want[1:-2] not in SPACES:
                continue
            i = SPACES.index(want[1:-2])
            t = "::" + want[1:-2].replace(".", "::")
            res += ["v%d : vector< %s >;" % (j, sp), "i%d : %s;" % (j, sp), "m%d : multivector< 8, %s >;" % (j, sp), "a%d : archive %s;" % (j, sp.replace("X", "Z"))]
            fields += ["e%d : %s;" % (j, sp.replace("X", "Y")), "@optional( %s ) o%d : u8 : 7;" % (sp.replace("X", "W"), j)]
            asserts += ["same< %s::R::V%dType, flatdata::ArrayView< %s::X > >( \"v %s %s\" );" % (cxx, j, t, ns, sp),
                        "same< %s::R::I%dType, %s::X >( \"i %s %s\" );" % (cxx, j, t, ns, sp),
                        "same< %s::R::A%dType, %s::Z >( \"a %s %s\" );" % (cxx, j, t, ns, sp),
                        "multi< %s::R::M%dType, %s::X >( \"m %s %s\" );" % (cxx, j, t, ns, sp),
                        "{ unsigned char b[ 64 ] = {}; %s::UMutator u( b ); same< decltype( static_cast< %s::Y >( u.e%d ) ), %s::Y >( \"e\" ); u.e%d = %s::Y::B%d; if ( b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 && b[5] == 0 && b[6] == 0 && b[7] == 0 && b[8] == 0 && b[9] == 0 && b[10] == 0 && b[11] == 0 && b[12] == 0 ) fail( \"enum %s %s\" ); }" % (
                            cxx, t, j, t, j, t, i, ns, sp),
                        "{ unsigned char b[ 64 ] = {}; %s::UMutator u( b ); boost::optional< uint8_t > zero = %s::U( b ).o%d; if ( !zero ) fail( \"optional 0 %s %s\" ); u.o%d = uint8_t( %d ); boost::optional< uint8_t > none = %s::U( b ).o%d; if ( none ) fail( \"optional %s %s\" ); }" % (
                            cxx, cxx, j, ns, sp, j, i + 1, cxx, j, ns, sp)]
        defs.append("namespace %s { struct U { %s } archive R { u : U; %s } }" % (ns, " ".join(fields), " ".join(res)))
    schema = "\n".join(defs)
    program = '''
#include "p20.hpp"
#include <cstdio>
#include <type_traits>
static int failures = 0;
static void fail( const char* what ) { std::printf( "FAIL %%s\\n", what ); failures++; }
template < typename A, typename B > void same( const char* what ) { if ( !std::is_same< A, B >::value ) fail( what ); }
template < typename > struct is_multi;
template < typename T > struct elem { };
template < typename Index, typename T > struct elem< flatdata::MultiArrayView< Index, T > > { using type = T; };
template < typename M, typename T > void multi( const char* what ) { same< typename elem< M >::type, T >( what ); }
int main( )
{
    %s
    std::printf( "DONE %%d\\n", failures );
    return 0;
}
''' % "\n    ".join(asserts)
    with vlib.scratch() as d:
        src = os.path.join(d, "p20.cpp")
        with open(src, "w") as f:
            f.write(program)
        try:
            exe = vlib.build_cpp(d, "p20", [src], flags=["-O0"], schemas=[("p20.hpp", schema)])
        except RuntimeError as e:
            # generated code naming a definition that does not exist
            check.fail("cpp types", "generated C++ code does not compile or refers to other definitions:\n%s" % e)
            return
        r = vlib.sh([exe])
        if r.returncode != 0 or "DONE 0" not in r.stdout:
            check.fail("cpp types", "C++ code refers to other definitions (exit %d)\n%s" % (r.returncode, r.stdout[-3000:]))
    check.count(len(asserts))
    check.extra["cpp_references"] = len(asserts)


def body(check):
    check.rule = ("definition X of each kind in every non-empty subset of 5 nested namespaces x 12 spellings x 5 referring namespaces x all "
                  "kinds of references x before/after")
    check.assumptions = ["rule: local names belong to the directly enclosing namespace (members of the archive first), qualified names are absolute"]
    cs = list(dict.fromkeys(cases(check.thorough)))
    n = g.run_sharded(check, cs, job, shards=32)
    own = own_members()
    g.run_sharded(check, own, own_job)
    if check.wants("cpp types"):
        cpp(check)
    check.extra["distinct_nontrivial"] = n
    for c in cs[:: max(1, len(cs) // 4)]:
        check.sample(text_of(c))


vlib.run_check(vlib.Check("P20", "exploration"), body)
