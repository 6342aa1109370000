"""P25: generating code is a function of the schema.

For every schema of a family and every back end the output is compared byte for byte over (a) fresh processes with
different hash seeds, (b) every order in which the back ends can be run on one parsed schema, (c) schemas generated
one after the other in one process in every order of pairs, and (d) every adversarial iteration order of the sets the
generator creates (the `set` its modules see is replaced by one with a controlled order)."""
import ast
import glob
import hashlib
import importlib.abc
import importlib.machinery
import itertools
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402
import genlib as g  # noqa: E402
import fixture  # noqa: E402

GENERATORS = ["cpp", "dot", "go", "py", "rust", "flatdata"]

RICH = """
// comment
namespace a { /** doc */ enum E : u8 : 2 { X, Y = 2 } enum F : i16 : 3 { P = -4, Q } const u32 C1 = 7; const u32 C2 = 8; const u32 C3 = 9; }
namespace a.b { struct S { @const( .a.C3 ) @const( .a.C1 ) @optional( .a.C2 ) x : u32 : 10; e : .a.E; f : .a.F : 3; }
  struct T { @range( r ) first : u32 : 20; y : u64; } }
namespace c { archive Inner { v : vector< .a.b.T >; @optional o : raw_data; }
  @bound_implicitly( both : Outer.s, Outer.m )
  archive Outer {
    @explicit_reference( .a.b.S.x, t ) @explicit_reference( .a.b.S.x, Outer.m )
    s : vector< .a.b.S >;
    t : vector< .a.b.T >;
    m : multivector< 33, .a.b.S, c.Z >;
    i : .a.b.S;
    sub : archive Inner;
    @optional sub2 : archive Inner; }
  struct Z { q : bool; } const i8 M = -1; }
""".replace("c.Z", ".c.Z")
# resources that take part in several groups, structures, references, enumerations used several times
SHARED = """
namespace n { const u32 K = 3; const u32 L = 4; const u32 M = 5; enum E : u8 : 2 { V, W }
  struct S { @const( K ) @const( L ) r : u32 : 9; @const( L ) @const( K ) @optional( M ) q : u32 : 9; @optional( L ) e : u32; f : E; g : E; } struct T { t : u8; f : E; }
  struct R { @range( one ) x : u32; @range( two ) y : u32; }
  @bound_implicitly( b4 : a, x ) @bound_implicitly( b2 : y, a ) @bound_implicitly( b3 : a, z, x ) @bound_implicitly( b1 : w, a, y )
  archive A { @explicit_reference( S.r, d ) @explicit_reference( S.r, w ) @explicit_reference( S.q, d ) @explicit_reference( S.q, m ) a : vector< S >;
    w : vector< T >; @explicit_reference( S.q, w ) @explicit_reference( S.r, z ) x : multivector< 9, T, S >; y : vector< T >; @explicit_reference( S.r, a ) z : vector< S >; d : vector< R >; m : multivector< 9, S, T >; }
  @bound_implicitly( b : v, s1.a ) archive B { v : vector< S >; s1 : archive A; s2 : archive A; @optional s3 : archive A; } }
""".replace("b : v, s1.a", "b : v, w").replace("s1 : archive", "w : vector< S >; s1 : archive")
PLAIN = """
namespace n { const u8 K = 3; const i64 L = -5; struct A { x : u8 : 3; @range( rr ) y : u32 : 31; z : i64; } struct B { a : bool; b : u16; }
  archive Sub { r : raw_data; v : vector< A >; }
  archive Arc { i : B; v : vector< A >; m : multivector< 40, B, A2 >; r : raw_data; sub : archive Sub; } struct A2 { w : u8; } }
"""


def schemas():
    out = {"rich": RICH, "shared": SHARED, "plain": PLAIN, "fixture": fixture.SCHEMA}
    base = os.path.join(vlib.REPO, "examples")
    for path in sorted(glob.glob(os.path.join(base, "**", "*.flatdata"), recursive=True)) + \
            sorted(glob.glob(os.path.join(vlib.REPO, "flatdata-cpp", "test", "*.flatdata"))) + \
            sorted(glob.glob(os.path.join(vlib.REPO, "test_cases", "**", "*.flatdata"), recursive=True)):
        with open(path) as f:
            out[os.path.relpath(path, vlib.REPO)] = f.read()
    return out


def digest(engine, gen):
    try:
        return hashlib.sha1(engine.render(gen).encode()).hexdigest()
    except Exception as e:  # pylint: disable=broad-except
        return "error %s" % type(e).__name__     # e.g. enumerations in Go


def all_digests(texts):
    vlib.repo_on_path()
    g.cache_templates()
    from flatdata.generator.engine import Engine
    out = {}
    for name, text in texts.items():
        engine = Engine(text)
        for gen in GENERATORS:
            out["%s %s" % (name, gen)] = digest(engine, gen)
    return out


# (a) ------------------------------------------------------------------------------------------
def fresh(seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([vlib.PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--digests"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError(r.stderr[-3000:])
    return json.loads(r.stdout)


# (b) ------------------------------------------------------------------------------------------
def orders(arg):
    name, text, perms, reference = arg
    vlib.repo_on_path()
    g.cache_templates()
    from flatdata.generator.engine import Engine
    for perm in perms:
        engine = Engine(text)
        for gen in perm + perm[:1]:
            if digest(engine, gen) != reference["%s %s" % (name, gen)]:
                return "orders: %s %s" % (name, " ".join(perm)), "output of %s differs" % gen
    return None


# (c) ------------------------------------------------------------------------------------------
def after(arg):
    first, texts, reference = arg
    vlib.repo_on_path()
    from flatdata.generator.engine import Engine
    g.cache_templates()
    for second in texts:
        a, b = Engine(texts[first]), Engine(texts[second])
        for gen in GENERATORS:
            digest(a, gen)
            if digest(b, gen) != reference["%s %s" % (second, gen)]:
                return "after: %s then %s" % (first, second), "output of %s differs" % gen
    return None


# (d) ------------------------------------------------------------------------------------------
class OrderedSet(set):
    """A set with a controlled iteration order."""
    MODE = "insertion"

    def __init__(self, items=()):
        self._log = []
        super().__init__()
        for i in items:
            self.add(i)

    def add(self, item):
        if item not in self:
            self._log.append(item)
        super().add(item)

    def update(self, *others):
        for o in others:
            for i in o:
                self.add(i)

    def __iter__(self):
        live = [i for i in self._log if i in self]
        if OrderedSet.MODE == "reverse":
            live.reverse()
        elif OrderedSet.MODE == "text":
            live.sort(key=str)
        elif OrderedSet.MODE == "reverse text":
            live.sort(key=str, reverse=True)
        elif OrderedSet.MODE.startswith("rotate") and live:
            k = int(OrderedSet.MODE[6:]) % len(live)
            live = live[k:] + live[:k]
        return iter(live)


class Displays(ast.NodeTransformer):
    """set displays and comprehensions become calls of set"""
    def visit_Set(self, node):
        self.generic_visit(node)
        return self.made(ast.List(node.elts, ast.Load()), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.made(ast.ListComp(node.elt, node.generators), node)

    @staticmethod
    def made(argument, node):
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [argument], []), node))


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(Displays().visit(ast.parse(data, path)), path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):       # not from a cache
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not name.startswith("flatdata.generator"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def set_orders(arg):
    mode, texts, reference = arg
    vlib.repo_on_path()
    assert not any(m.startswith("flatdata.generator") for m in sys.modules)
    sys.meta_path.insert(0, Finder())
    g.cache_templates()
    import flatdata.generator.engine  # noqa: F401 pylint: disable=unused-import
    OrderedSet.MODE = mode
    for name, module in list(sys.modules.items()):
        if name.startswith("flatdata.generator"):
            module.__dict__["set"] = module.__dict__["frozenset"] = OrderedSet
    got = all_digests(texts)
    for key, value in got.items():
        if value != reference[key]:
            return "set order %s: %s" % (mode, key), "output differs"
    return None


# (e) ------------------------------------------------------------------------------------------
NON_ASCII = """/** \u00e4 \u20ac \U0001d11e */ namespace n { /** \u03b1 */ struct S { /** \u00df */ a : u8 : 3; b : u16; } /** \u0416 */ enum E : u8 { /** \u05d0 */ X, Y }
/** \u4e2d */ archive A { /** \u00e9 */ v : vector< S >; } /** \u00a0\u2028 */ const u8 C = 3; }"""
INVALID = ["namespace n { struct S { a : u9; } }", "namespace n { struct S { a : u8 : 9; } }", "namespace n { archive A { v : vector< S >; } }", "namespace n { struct S { a : u8; } struct S { a : u8; } }",
           "namespace n { enum E : u8 : 1 { A, B, C } }", "namespace n { const u8 C = 256; }", "namespace n { enum E : float { A } }", "namespace n { struct S { a : float; } }", "namespace n { enum S : u8 { } }",
           "namespace n { struct S { a : E; } struct E { b : u8; } }", "namespace n { archive A { v : vector< A >; } }", "namespace n { archive A { m : multivector< 40, A >; } }", "namespace { }", "", "namespace n { struct S { \u00e4 : u8; } }",
           "namespace n { const u8 C = 3; struct S { @optional( D ) a : u8; } }", "namespace n { struct S { a : u8; } @bound_implicitly( b : v ) archive A { w : vector< S >; } }",
           "namespace n { struct S { a : u8; } archive A { @explicit_reference( S.b, v ) v : vector< S >; } }", "namespace n { struct S { a : u8; } archive A { @explicit_reference( S.a, x ) v : vector< S >; } }",
           "namespace n { struct S { @range( a ) a : u8; } }", "namespace n { struct S { @range( r ) a : u8; } archive A { s : S; } }"]
ENVIRONMENTS = [(locale, utf8, coerce, optimize, zone) for locale in (None, "C", "POSIX", "C.utf8", "xx_YY.ISO-8859-1") for utf8 in (None, "0", "1") for coerce in (None, "0")
                for optimize, zone in ((None, None), ("1", "UTC+14"), ("2", None))]


def by_command_line(directory):
    """what the command line does with each schema of a directory, for each back end"""
    vlib.repo_on_path()
    import logging
    from flatdata.generator import app
    logging.disable(logging.CRITICAL)
    g.cache_templates()
    out = {}
    target = os.path.join(directory, "out%d" % os.getpid())
    for name in sorted(n for n in os.listdir(directory) if n.endswith(".flatdata")):
        for gen in GENERATORS:
            sys.argv = ["generator.py", "-s", os.path.join(directory, name), "-g", gen, "-O", target]
            try:
                app.main()
                with open(target, "rb") as f:
                    out["%s %s" % (name, gen)] = hashlib.sha1(f.read()).hexdigest()
            except SystemExit as e:
                out["%s %s" % (name, gen)] = "exit %s" % e.code
            except Exception as e:  # pylint: disable=broad-except
                out["%s %s" % (name, gen)] = "raises"
            if os.path.exists(target):
                os.unlink(target)
    return out


def environment(arg):
    directory, (locale, utf8, coerce, optimize, zone) = arg
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONUTF8", "PYTHONCOERCE", "PYTHONOPT", "PYTHONIO", "TZ"))}
    for key, v in (("LC_ALL", locale), ("PYTHONUTF8", utf8), ("PYTHONCOERCECLOCALE", coerce), ("PYTHONOPTIMIZE", optimize), ("TZ", zone)):
        if v is not None:
            env[key] = v
    r = subprocess.run([vlib.PY, "-B", "-W", "ignore", os.path.abspath(__file__), "--environment", directory], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError(r.stderr[-3000:])
    return json.loads(r.stdout)


def environments(check):
    with vlib.scratch() as root:
        everything = {"rich": RICH, "shared": SHARED, "fixture": fixture.SCHEMA, "unicode": NON_ASCII}
        everything.update(("invalid%d" % i, t) for i, t in enumerate(INVALID))
        for name, t in everything.items():
            with open(os.path.join(root, name + ".flatdata"), "w", encoding="utf-8") as f:
                f.write(t)
        results = vlib.parallel(environment, [(root, e) for e in ENVIRONMENTS])
        usual = results[ENVIRONMENTS.index(("C.utf8", None, None, None, None))]
        for e, r in zip(ENVIRONMENTS, results):
            for key, v in r.items():
                text = "LC_ALL=%s PYTHONUTF8=%s PYTHONCOERCECLOCALE=%s PYTHONOPTIMIZE=%s TZ=%s" % e
                refused = usual[key] == "raises" and v.startswith(("exit", "raises"))     # how something is refused may differ
                check.expect(v == usual[key] or refused, "environment: " + key, "%s: %s instead of %s" % (text, v, usual[key]))
            check.count(len(r))
        check.expect(len(usual["unicode.flatdata cpp"]) == 40, "environment: unicode", usual["unicode.flatdata cpp"])
        check.extra["environments"] = len(ENVIRONMENTS)


def body(check):
    check.rule = ("all schemas of the repository and two dense ones x 6 back ends x (hash seeds, all orders of back ends on "
                  "one tree, all ordered pairs of schemas in one process, controlled set iteration orders); %d environments x schemas, valid and not" % len(ENVIRONMENTS))
    environments(check)
    texts = schemas()
    seeds = ["0", "1", "2", "3", "random", "random"] if not check.thorough else [str(i) for i in range(64)] + ["random"] * 8
    results = vlib.parallel(fresh, seeds)
    reference = results[0]
    for seed, r in zip(seeds, results):
        for key, value in r.items():
            check.expect(value == reference[key], "hash seed: " + key, "seed %s: %s instead of %s" % (
                seed, value, reference[key]))
        check.count(len(r))
    crashed = [k for k, v in reference.items() if v.startswith("error") and " go" not in k]
    check.expect(not crashed, "crash", "no output: %s" % crashed)
    for k, v in reference.items():
        if not v.startswith("error"):
            check.nontrivial(k)
    dense = ["rich", "shared", "plain", "fixture"] + (list(texts) if check.thorough else [])
    perms = list(itertools.permutations(GENERATORS))
    jobs = [(n, texts[n], perms[k::8 if n == "rich" or check.thorough else 40], reference)
            for n in dense[:4] for k in range(8)]
    if check.thorough:
        jobs += [(n, texts[n], perms[::24], reference) for n in texts]
    for bad in vlib.parallel(orders, jobs):
        if bad:
            check.fail(*bad)
    check.count(sum(len(j[2]) for j in jobs))
    check.extra["back_end_orders"] = sum(len(j[2]) for j in jobs)
    names = list(texts) if check.thorough else ["rich", "shared", "plain", "fixture"] + list(texts)[4:11]
    sub = {n: texts[n] for n in names}
    for bad in vlib.parallel(after, [(n, sub, reference) for n in names]):
        if bad:
            check.fail(*bad)
    check.count(len(names) ** 2)
    check.extra["ordered_schema_pairs"] = len(names) ** 2
    modes = ["insertion", "reverse", "text", "reverse text"] + ["rotate%d" % k for k in range(1, 8 if check.thorough else 3)]
    for bad in vlib.parallel(set_orders, [(m, texts, reference) for m in modes] + [("insertion", {}, reference)]):
        if bad:
            check.fail(*bad)
    check.count(len(modes) * len(texts) * 6)
    check.extra["set_iteration_orders"] = len(modes)
    check.sample("%d schemas, %d back ends, seeds %s" % (len(texts), len(GENERATORS), seeds[:6]))


if __name__ == "__main__":
    if "--environment" in sys.argv:
        print(json.dumps(by_command_line(sys.argv[-1])))
    elif "--digests" in sys.argv:
        print(json.dumps(all_digests(schemas())))
    else:
        vlib.run_check(vlib.Check("P25", "exploration"), body)
