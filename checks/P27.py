"""P27: the code every back end generates for an accepted schema compiles.

Every schema of lib/units.py (resource kinds x optional x where and in which order their types are defined; all pairs, in the
thorough tier triples, of resource kinds in one archive; every kind of field with every decoration and extreme constant; every
spelling of names in every role; every kind of comment at every place; and special shapes) is generated with every back end.
C++ is compiled by clang and g++ with all members of all structure templates instantiated, Rust by rustc, Python is executed
and its classes are compared with the declared ones, Go is compiled where the schema uses nothing its back end lacks. The
schemas of a batch are compiled together, each in a namespace (module) of its own."""
import os
import re
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402
import genlib as g  # noqa: E402
import units  # noqa: E402
from rustlib import Rust  # noqa: E402
from golib import Go  # noqa: E402

LANGUAGES = ("cpp", "rust", "py", "go", "flatdata", "dot")


def shorten(text):
    return text if len(text) < 2500 else text[:2500] + "\n..."


def separate(name):
    """schemas about names of namespaces are compiled on their own"""
    return "namespace named" in name or "namespace" in name and name in units.MISC


def renamed(text, suffix):
    """The schema with unique outermost namespaces, so that several can be compiled together."""
    roots = sorted(set(re.findall(r"(?m)\bnamespace\s+(\w+)(?=[\w.]*\s*\{)", text)) - set(
        re.findall(r"\{ namespace (\w+)", text)))
    if roots:
        pattern = "(%s)" % "|".join(roots)
        text = re.sub(r"\bnamespace\s+%s\b" % pattern, lambda m: "namespace %s%s" % (m.group(1), suffix), text)
        text = re.sub(r"(?<![\w.])\.%s\b" % pattern, lambda m: ".%s%s" % (m.group(1), suffix), text)
    return text


def prepare(unit):
    """-> (verdict, {language: code or Exception text}, declared names)"""
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    number, (name, text, go) = unit
    if not separate(name):
        text = renamed(text, "_u%d" % number)
    try:
        engine = Engine(text)
    except FlatdataSyntaxError as e:
        return name, "syntax", {}, repr(e)
    except Exception as e:  # pylint: disable=broad-except
        return name, "crash", {}, repr(e)
    verdict, tree, code = "ok", engine.tree, {}
    for l in LANGUAGES:
        if l == "go" and not go:
            continue
        try:
            code[l] = engine.render(l)
        except Exception as e:  # pylint: disable=broad-except
            code[l] = RuntimeError("rendering raises %r" % (e,))
    names = ([s.path[1:] for s in g.structures(tree)],
             {a.path[1:]: [r.name for r in g.resources(a)] for a in g.archives(tree)})
    return name, verdict, code, names


class Prepare:
    def __call__(self, part):
        vlib.repo_on_path()
        g.cache_templates()
        return [prepare(u) for u in part]


# ---- Python ------------------------------------------------------------------------------------
def python(code, names):
    structs, archives = names
    module = {"__name__": "generated"}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error", SyntaxWarning)
            exec(compile(code, "generated", "exec"), module)  # pylint: disable=exec-used
    except Exception as e:  # pylint: disable=broad-except
        return "loading it raises %r" % (e,)
    for s in structs:
        if s.replace(".", "_") not in module:
            return "no class for structure " + s
    for a, resources in archives.items():
        for suffix in ("", "Builder"):
            cls = module.get(a.replace(".", "_") + suffix)
            if cls is None:
                return "no class %s for archive %s" % (suffix, a)
            got = sorted(cls._RESOURCES)
            want = sorted(resources + [a.split(".")[-1] + ".archive"])
            if got != want:
                return "archive %s%s has resources %s instead of %s" % (a, suffix, got, want)
    return None


# ---- C++ ---------------------------------------------------------------------------------------
def cpp_batch(directory, compiler, number, batch):
    """[(name, code, names)] -> {name: errors}"""
    d = os.path.join(directory, "%s%d" % (compiler.replace("+", "p"), number))
    os.makedirs(d, exist_ok=True)
    for i, (_name, code, names) in enumerate(batch):
        with open(os.path.join(d, "unit%d.hpp" % i), "w") as f:
            f.write(code)
        with open(os.path.join(d, "unit%d.cpp" % i), "w") as f:
            for s in names[0]:
                path, _dot, last = (s).rpartition(".")
                for m in ("Reader", "Writer"):
                    f.write("template union %s::%sTemplate< flatdata::%s >;\n" % (path.replace(".", "::"), last, m))
            for a in names[1]:
                path = a.replace(".", "::")
                f.write("inline void open_%d_%s( ) { auto a = %s::open( nullptr ); auto b = %sBuilder::open( nullptr ); a.describe( ); }\n"
                        % (i, a.replace(".", "_"), path, path))
    left, bad = set(range(len(batch))), {}
    while left:
        main = os.path.join(d, "main.cpp")
        with open(main, "w") as f:
            f.write("#include <flatdata/flatdata.h>\n#include <cstdint>\n#include <iostream>\n#include <iomanip>\n")
            for i in sorted(left):
                f.write('#include "unit%d.hpp"\n#include "unit%d.cpp"\n' % (i, i))
        limit = ["-ferror-limit=0"] if compiler == "clang++" else ["-fmax-errors=0"]
        r = subprocess.run([compiler, "-std=c++17", "-fsyntax-only", "-w", "-I" + os.path.join(vlib.REPO, "flatdata-cpp", "include"),
                            *limit, main], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0:
            break
        hit = set()
        for i in left:
            if re.search(r"\bunit%d\.[hc]pp\b" % i, r.stdout):
                hit.add(i)
        # an error inside of the library names the unit in what follows it; keep those of error lines if there are any
        direct = {int(m) for m in re.findall(r"unit(\d+)\.[hc]pp:\d+:\d+: (?:fatal )?error", r.stdout)} & left
        hit = direct or hit or left
        for i in hit:
            lines = [l for l in r.stdout.split("\n") if "unit%d." % i in l] or r.stdout.split("\n")
            bad[batch[i][0]] = "%s: %s\n%s" % (compiler, "\n".join(lines[:4]), shorten(batch[i][1]))
        left -= hit
    return bad


# ---- Rust --------------------------------------------------------------------------------------
def rust_batch(rust, number, batch):
    d = os.path.join(rust.dir, "batch%d" % number)
    os.makedirs(d, exist_ok=True)
    for i, (_name, code, _names) in enumerate(batch):
        with open(os.path.join(d, "unit%d.rs" % i), "w") as f:
            f.write(code)
    left, bad = set(range(len(batch))), {}
    while left:
        main = os.path.join(d, "main.rs")
        with open(main, "w") as f:
            for i in sorted(left):
                f.write('#[path = "unit%d.rs"] pub mod unit%d;\n' % (i, i))
        r = subprocess.run(
            ["rustc", "--edition", "2018", "--cap-lints", "allow", "--crate-type", "lib", "--emit=metadata", "--extern",
             "flatdata=" + os.path.join(rust.target, "libflatdata.rlib"), "-L", os.path.join(rust.target, "deps"),
             "-o", os.path.join(d, "out.rmeta"), main],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0:
            break
        hit = {int(m) for m in re.findall(r"\bunit(\d+)\.rs:\d+", r.stdout)} & left or set(left)
        for i in hit:
            blocks = [b for b in r.stdout.split("\n\n") if "unit%d.rs:" % i in b] or [r.stdout]
            bad[batch[i][0]] = "rustc: %s\n%s" % (blocks[0][:1500], shorten(batch[i][1]))
        left -= hit
    return bad


# ---- Go ----------------------------------------------------------------------------------------
def go_all(go, todo):
    """[(name, code)] -> {name: errors}"""
    for i, (_name, code) in enumerate(todo):
        d = os.path.join(go.src, "units", "p%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "p.go"), "w") as f:
            f.write(code)
    r = subprocess.run(["go", "build", "./units/..."], env=go.env, cwd=go.src, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode == 0:
        return {}
    bad = {}
    for i in sorted({int(m) for m in re.findall(r"\bunits/p(\d+)/p\.go:\d+", r.stdout)}) or range(len(todo)):
        lines = [l for l in r.stdout.split("\n") if "units/p%d/" % i in l] or r.stdout.split("\n")
        bad[todo[i][0]] = "go: %s\n%s" % ("\n".join(lines[:4]), shorten(todo[i][1]))
    return bad


def body(check):
    check.rule = "one generated file of one back end for one schema (schemas differ in shape, names, decorations or comments)"
    check.assumptions = [
        "clang 18 and g++ 13 (C++17), rustc (edition 2018, as the flatdata crate), Python 3.12 and Go of this sandbox stand for all compilers",
        "names are no keywords of a target language (fields named like keywords of Rust are included), differ in more than case and "
        "underscores from others of their scope, and are not those of generated members (name, schema, data, open, describe, new, ...)",
        "Go: schemas of one namespace without enumerations, ranges, constants, instances on their own and subarchives, as its back end is documented as beta",
    ]
    vlib.repo_on_path()
    todo = [(i, u) for i, u in enumerate(units.all_units(check.thorough))
            if check.only is None or str(check.only).split(": ", 1)[1] == u[0]]
    parts = [todo[i::16] for i in range(16)]
    prepared = [p for part in vlib.parallel(Prepare(), [p for p in parts if p]) for p in part]
    accepted = {l: [] for l in LANGUAGES}
    for name, verdict, code, names in prepared:
        if verdict == "crash":
            check.fail("generator: " + name, "building the schema raises %s" % (names,))
        if verdict == "syntax":
            check.fail("generator: " + name, "the schema is rejected: %s" % (names,))
        for l, c in code.items():
            if isinstance(c, Exception):
                check.fail("%s: %s" % (l, name), str(c))
            else:
                accepted[l].append((name, c, names))
    for l in LANGUAGES:
        check.extra["schemas_" + l] = len(accepted[l])
        check.count(len(accepted[l]))
    for name, *_ in prepared:
        check.nontrivial(name)
    for name, _c, _n in accepted["cpp"][::max(1, len(accepted["cpp"]) // 6)]:
        check.sample(name)

    with vlib.scratch() as d:
        rust, go = Rust(d), Go(d)
        jobs = []
        size = 60
        for l, run in (("cpp", "clang++"), ("cpp", "g++"), ("rust", None)):
            if run == "g++" and not check.thorough:
                # the second compiler in the quick tier: every fourth schema
                items = accepted[l][::4]
            else:
                items = accepted[l]
            alone = [[u] for u in items if separate(u[0])]
            items = [u for u in items if not separate(u[0])]
            n = -(-len(items) // size)
            for i, batch in enumerate([items[i::n] for i in range(n)] + alone):
                if l == "cpp":
                    jobs.append((l, lambda b=batch, i=i, c=run: cpp_batch(d, c, i, b)))
                else:
                    jobs.append((l, lambda b=batch, i=i: rust_batch(rust, i, b)))
        if accepted["go"]:
            jobs.insert(0, ("go", lambda: go_all(go, [(n, c) for n, c, _x in accepted["go"]])))
        with ThreadPoolExecutor(8) as pool:
            for l, result in [(l, pool.submit(j)) for l, j in jobs]:
                for name, message in result.result().items():
                    check.fail("%s: %s" % (l, name), message)
    for name, code, names in accepted["py"]:
        bad = python(code, names)
        if bad:
            check.fail("py: " + name, "%s\n%s" % (bad, shorten(code)))


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P27", "exploration"), body)
