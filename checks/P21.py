"""P21: constants and enumerations have the values and types of the schema in every language.

All constants (type x boundary value x notation) and all enumerations (type x width x assignment of explicit and
implicit values) of a stated alphabet are generated with every back end; the C++ and Rust code is compiled with the
real runtime and executed, Go's is compiled and executed, Python's is executed, and the normalized schema is parsed by
an own parser. Every value is compared with the one the schema spells out."""
import itertools
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402
import genlib as g  # noqa: E402
import schemamodel as sm  # noqa: E402
from rustlib import Rust  # noqa: E402

CPP_T = {"bool": "bool", "u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t",
         "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t"}
GO_T = {"bool": "uint8", "u8": "uint8", "i8": "int8", "u16": "uint16", "i16": "int16", "u32": "uint32", "i32": "int32",
        "u64": "uint64", "i64": "int64"}


def notations(v):
    out = [str(v)]
    if v >= 0:
        out += ["0x%x" % v, "0x%X" % v, "0x00%x" % v]
    else:
        out += ["-0x%x" % -v, "-0x0%X" % -v]
    if v == 0:
        out += ["-0"]
    return out


def constants():
    """(name, type, value, notation)"""
    out = []
    for t in g.TYPES:
        lo, hi = g.value_range(t, g.WIDTH[t])
        vals = {lo, lo + 1, hi - 1, hi, 0, 1, hi // 2, hi // 2 + 1}
        if g.signed(t):
            vals |= {-1, -2, lo // 2}
        vals |= {v for v in (9, 10, 99, 100, 999, 1000, 999999, 1000000, 1234567, 10 ** 9, 10 ** 15 + 7) if v <= hi}
        for v in sorted(v for v in vals if lo <= v <= hi):
            for n in notations(v):
                out.append(("C%d" % len(out), t, v, n))
    return out


def enums(thorough):
    """(type, width or None, entries [(name, notation or None)], {name: value})"""
    def make(t, w, vals, spell=0):
        width = g.WIDTH[t] if w is None else w
        lo, hi = g.value_range(t, width)
        cur, entries, values = 0, [], {}
        for name, v in zip("ABCD", vals):
            cur = cur if v is None else v
            if cur in values.values() or not lo <= cur <= hi:
                return None
            values[name] = cur
            entries.append((name, None if v is None else notations(v)[spell % len(notations(v))]))
            cur += 1
        return (t, w, tuple(entries), values)

    out = []
    for t in g.TYPES:
        # default width, also for wide types (those are too sparse except for 8 bits)
        widths = [1] if t == "bool" else [1, 2, 3] + ([4] if thorough else [])
        for w in ([None] if t in ("bool", "u8", "i8") else []) + widths:
            width = g.WIDTH[t] if w is None else w
            lo, hi = g.value_range(t, width)
            full = width <= (3 if t in ("u8", "i8") else 2) or (thorough and width <= 3)
            pool = list(range(lo, hi + 1)) if full else sorted({lo, lo + 1, -1 if lo < 0 else 1, 0, hi - 1, hi})
            depth = 4 if width <= 2 else 3 if width <= 3 and (t in ("u8", "i8", "u64", "i64") or thorough) else 2
            for n in range(1, depth + 1):
                for i, vals in enumerate(itertools.product([None] + pool, repeat=n)):
                    e = make(t, w, vals, i)
                    if e:
                        out.append(e)
        if t not in ("bool", "u8", "i8"):
            for w in (5, 6, 7, 8):
                lo, hi = g.value_range(t, w)
                for vals in ((None,), (hi,), (lo, None), (hi - 1, None, 0)):
                    e = make(t, w, vals)
                    if e:
                        out.append(e)
    # more values than the generator adds: widths beyond 8 bits
    for t, w in (("u16", 9), ("i16", 9), ("u32", 10), ("i64", 9)):
        lo, hi = g.value_range(t, w)
        n = ((1 << w) - 256 + 1) // 2 + 1
        entries = [("V0", str(lo))] + [("V%d" % i, None) for i in range(1, n)]
        out.append((t, w, tuple(entries), {"V%d" % i: lo + i for i in range(n)}))
    return out


def enum_width(e):
    return g.WIDTH[e[0]] if e[1] is None else e[1]


def schema_of_batch(consts, batch):
    out = ["namespace n {"]
    out += ["const %s %s = %s;" % (t, name, text) for name, t, _v, text in consts]
    for i, (t, w, entries, _values) in batch:
        out.append("enum E%d : %s%s { %s }" % (
            i, t, "" if w is None else " : %d" % w,
            ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in entries)))
        out.append("struct S%d { f : .n.E%d; }" % (i, i))
    out.append("}")
    return "\n".join(out)


def unknown(v):
    return "UNKNOWN_VALUE_" + ("MINUS_%d" % -v if v < 0 else str(v))


def expected(e):
    """{value: name} of all bit patterns of the enumeration's width"""
    lo, hi = g.value_range(e[0], enum_width(e))
    out = {v: unknown(v) for v in range(lo, hi + 1)}
    out.update({v: n for n, v in e[3].items()})
    return out


def describe(e):
    return "enum : %s%s { %s }" % (e[0], "" if e[1] is None else " : %d" % e[1],
                                   ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in e[2][:6]))


# ---- C++ -----------------------------------------------------------------------------------------
def cpp_values(schema, consts, batch, d):
    code = ['#include "s.hpp"', "#include <cstdio>", "#include <type_traits>", "#include <iostream>",
            "template <class T> void put(const char* n, T v) { std::cout << n << ' ' << std::is_signed<T>::value << ' ' << "
            "(std::is_same<T, bool>::value ? 1 : (int)sizeof(T) * 8) << ' ' << +v << '\\n'; }", ""]
    body = []
    for name, _t, _v, _n in consts:
        body.append('put("%s", (std::underlying_type<decltype(n::%s)>::type)n::%s);' % (name, name, name))
    for i, e in batch:
        u = "std::underlying_type<n::E%d>::type" % i
        for name in e[3]:
            body.append('put("E%d.%s", (%s)n::E%d::%s);' % (i, name, u, i, name))
        lo, hi = g.value_range(e[0], enum_width(e))
        body.append('for (long long v = %dLL; v <= %dLL; v++) std::cout << "P%d " << v << " " << '
                    'n::to_string((n::E%d)v) << "\\n";' % (lo, hi, i, i))
    # many small functions compile faster than one big
    for k in range(0, len(body), 200):
        code.append("void f%d() {\n%s\n}" % (k, "\n".join(body[k:k + 200])))
    code.append("int main() { %s return 0; }" % " ".join("f%d();" % k for k in range(0, len(body), 200)))
    with open(os.path.join(d, "main.cpp"), "w") as f:
        f.write("\n".join(code))
    with open(os.path.join(d, "s.hpp"), "w") as f:
        f.write(vlib.render(schema, "cpp"))
    r = vlib.sh(["g++", *vlib.CXXFLAGS, "-O0", "-w", "-I" + d, os.path.join(d, "main.cpp"), "-o", os.path.join(d, "main"),
                 *vlib.LDLIBS], timeout=600)
    if r.returncode:
        return None, "the generated C++ code does not compile:\n" + r.stdout[:3000]
    r = vlib.sh([os.path.join(d, "main")], timeout=120)
    return (r.stdout, None) if r.returncode == 0 else (None, "exit code %d" % r.returncode)


# ---- Rust ----------------------------------------------------------------------------------------
def snake_upper(name):
    return re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name).lower().upper()


RUST_HEAD = """
#![allow(dead_code, unused_imports, unused_macros)]
pub trait Kind { const K: &'static str; }
macro_rules! kinds { ($($t:ident),*) => { $(impl Kind for $t { const K: &'static str = stringify!($t); })* } }
kinds!(bool, u8, i8, u16, i16, u32, i32, u64, i64);
pub fn kind<T: Kind>(_: &T) -> &'static str { T::K }
#[macro_use] extern crate flatdata;
include!("s.rs");
"""


def rust_values(schema, consts, batch, d, rust):
    text = vlib.render(schema, "rust")
    body = []
    for name, _t, _v, _n in consts:
        body.append('println!("%s {} {}", kind(&n::%s), n::%s);' % (name, snake_upper(name), snake_upper(name)))
    for i, e in batch:
        for name in e[3]:
            cast = "n::E%d::%s as i128" % (i, name)
            body.append('println!("E%d.%s {} {}", std::mem::size_of::<n::E%d>() * 8, %s);' % (i, name, i, cast))
        # reading every bit pattern through a field of that type
        body.append("""for p in 0u64..(1u64 << %d) {
            let b = p.to_le_bytes();
            let s = n::S%d::from_bytes_slice(&b[..%d]).unwrap();
            println!("P%d {} {:?}", s.f() as i128, s.f());
        }""" % (enum_width(e), i, (enum_width(e) + 7) // 8, i))
    code = [RUST_HEAD]
    for k in range(0, len(body), 200):
        code.append("fn f%d() {\n%s\n}" % (k, "\n".join(body[k:k + 200])))
    code.append("fn main() { %s }" % " ".join("f%d();" % k for k in range(0, len(body), 200)))
    exe, err = rust.compile(os.path.basename(d), "\n".join(code), modules=[("s.rs", text)])
    if exe is None:
        return None, "the generated Rust code does not compile:\n" + err[:3000]
    r = vlib.sh([exe], timeout=120)
    return (r.stdout, None) if r.returncode == 0 else (None, "exit code %d: %s" % (r.returncode, r.stdout[-500:]))


# ---- Go ------------------------------------------------------------------------------------------
def go_constants(consts, d):
    """Compiles the constant block of the generated Go code."""
    schema = "namespace n { %s archive A { r : raw_data; } }" % " ".join(
        "const %s %s = %s;" % (t, name, text) for name, t, _v, text in consts)
    code = vlib.render(schema, "go")
    code = re.sub(r"^package .*$", "package main", code, flags=re.M)
    m = re.search(r"^const \((.*?)^\)", code, re.S | re.M)
    if not m:
        return None, "no constants in the generated Go code"
    main = 'package main\nimport "fmt"\n' + m.group(0) + "\nfunc main() {\n" + "\n".join(
        'fmt.Printf("%s %%T %%v\\n", %s, %s)' % (name, name, name) for name, _t, _v, _n in consts) + "\n}\n"
    with open(os.path.join(d, "main.go"), "w") as f:
        f.write(main)
    env = dict(os.environ, GOFLAGS="-mod=mod", GO111MODULE="off", GOCACHE=os.path.join(d, "cache"), GOTOOLCHAIN="local",
               HOME=d)
    r = subprocess.run(["go", "run", os.path.join(d, "main.go")], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    return (r.stdout, None) if r.returncode == 0 else (None, r.stdout[-3000:])


def lines(text):
    return [line.split(" ") for line in text.splitlines()]


def job(arg):
    """one batch in all languages; returns [(case, message)]"""
    index, consts, batch, languages, base, rust = arg
    vlib.repo_on_path()
    g.cache_templates()
    bad = []
    names = {i: describe(e) for i, e in batch}
    schema = schema_of_batch(consts, batch)
    kind, tree = g.verdict(schema)
    if kind != "ok":
        return [("schema of batch %d" % index, "not accepted: %r\n%s" % (tree, schema[:2000]))]

    def case(language, key):
        if key.startswith(("E", "P")) and key[1:].split(".")[0].isdigit():
            return "%s: %s" % (language, names[int(key[1:].split(".")[0])])
        c = next((c for c in consts if c[0] == key), None)
        return "%s: const %s = %s" % (language, c[1], c[3]) if c else "%s: %s" % (language, key)

    def compare(language, got, want):
        for key in want:
            if got.get(key) != want[key]:
                bad.append((case(language, key), "%s is %r, expected %r" % (key, got.get(key), want[key])))
                if len(bad) > 6:
                    return
        for key in got:
            if key not in want:
                bad.append((case(language, key), "unexpected %s = %r" % (key, got[key])))
                return

    for language in languages:
        d = os.path.join(base, "%s%d" % (language, index))
        os.makedirs(d)
        if language in ("cpp", "rust"):
            out, err = cpp_values(schema, consts, batch, d) if language == "cpp" else \
                rust_values(schema, consts, batch, d, rust)
            if err:
                # find the definition responsible
                if len(batch) + len(consts) > 1:
                    half_c, half_b = len(consts) // 2, len(batch) // 2
                    sub = []
                    for k, (c, b) in enumerate(((consts[:half_c], batch[:half_b]), (consts[half_c:], batch[half_b:]))):
                        if c or b:
                            sub += job((index * 2 + 1000000 * (k + 1), c, b, [language], d, rust))
                        if sub:
                            break
                    bad += sub or [("%s: batch %d" % (language, index), err)]
                else:
                    only = consts[0][0] if consts else "E%d" % batch[0][0]
                    bad.append((case(language, only), err))
                continue
            got, want = {}, {}
            for line in lines(out):
                if line[0].startswith("P"):
                    got[(line[0], int(line[1]))] = line[2].rpartition("::")[2]
                elif language == "cpp":
                    got[line[0]] = (line[1] == "1", int(line[2]), int(line[3]))
                else:
                    got[line[0]] = (line[1], line[2])
            for name, t, v, _n in consts:
                want[name] = (g.signed(t), g.WIDTH[t], v) if language == "cpp" else \
                    (t, str(v) if t != "bool" else ("true" if v else "false"))
            for i, e in batch:
                for n, v in e[3].items():
                    size = g.WIDTH[e[0]]
                    want["E%d.%s" % (i, n)] = (g.signed(e[0]), size, v) if language == "cpp" else \
                        (str(max(size, 8)), str(v))
                for v, n in expected(e).items():
                    want[("P%d" % i, v)] = n if language == "cpp" else "".join(p.title() for p in n.split("_"))
            got = {k if isinstance(k, str) else "%s %d" % k: v for k, v in got.items()}
            want = {k if isinstance(k, str) else "%s %d" % k: v for k, v in want.items()}
            for key in list(want):
                if got.get(key) != want[key]:
                    bad.append((case(language, key.split(" ")[0]), "%s is %r, expected %r" % (key, got.get(key), want[key])))
                    if len(bad) > 6:
                        break
            if set(got) - set(want):
                bad.append((case(language, sorted(set(got) - set(want))[0].split(" ")[0]), "unexpected output"))
        elif language == "flatdata":
            text = vlib.render(schema, "flatdata")
            model = sm.Meaning(sm.parse(text))
            got = {}
            for name, t, v, _n in consts:
                if model.defs.get(".n." + name, {}).get("k") == "const":
                    got[name] = model.const(".n." + name)[1:]
            want = {name: (t, v) for name, t, v, _n in consts}
            for i, e in batch:
                got["E%d" % i] = model.enum(".n.E%d" % i)[1:]
                want["E%d" % i] = (e[0], enum_width(e), tuple(sorted(e[3].items())))
            compare(language, got, want)
        elif language == "py":
            module = vlib.python_module(schema)
            for i, e in batch:
                sig = getattr(module, "n_S%d" % i)._FIELDS["f"]
                if (sig.width, bool(sig.is_signed)) != (enum_width(e), g.signed(e[0])):
                    bad.append((case("py", "E%d" % i), "field of width %d, signed %s" % (sig.width, sig.is_signed)))
        else:
            out, err = go_constants(consts, d)
            if err:
                bad.append(("go: constants", err))
                continue
            compare("go", {l[0]: (l[1], l[2]) for l in lines(out)},
                    {name: (GO_T[t], str(v)) for name, t, v, _n in consts})
    return bad


def body(check):
    check.rule = ("all 9 basic types x boundary and digit-grouping values x notations (decimal, hexadecimal lower/upper/"
                  "leading zeros, negative, -0) as constants; all enumerations with 1..4 entries over explicit and implicit "
                  "values for small widths, default widths, and one dense enumeration beyond 8 bits; per back end")
    check.assumptions = ["gcc, rustc and go on x86-64", "enumerations do not exist in the Go back end; constants not in the "
                         "Python one"]
    es = list(enumerate(enums(check.thorough)))
    cs = constants()
    if check.only is not None:
        es = [(i, e) for i, e in es if check.only.endswith(describe(e))]
        cs = [c for c in cs if check.only.endswith("const %s = %s" % (c[1], c[3]))]
    size = 150
    with vlib.scratch() as d:
        rust = Rust(d)
        jobs = [(0, cs, [], ["cpp", "rust", "flatdata", "go"], d, rust)] if cs else []
        for k in range(0, len(es), size):
            jobs.append((k + 1, [], es[k:k + size], ["cpp", "rust", "flatdata", "py"], d, rust))
        for bad in vlib.parallel(job, jobs):
            for case, msg in bad:
                check.fail(case, msg)
    check.count(len(cs) * 4 + len(es) * 4)
    for _n, t, v, text in cs:
        check.nontrivial((t, v, text))
    for _i, e in es:
        check.nontrivial((e[0], e[1], e[2]))
    check.extra["constants"] = len(cs)
    check.extra["enumerations"] = len(es)
    check.extra["enumeration_bit_patterns"] = sum(1 << enum_width(e) for _i, e in es)
    check.sample(schema_of_batch(cs[:3], es[40:43]))


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P21", "exploration"), body)
