"""Helpers of the generator checks."""
import vlib


def verdict(schema):
    """('ok', tree) | ('syntax', exception) | ('crash', exception) of the real generator front end"""
    from flatdata.generator.tree.builder import build_ast
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    try:
        return "ok", build_ast(schema)
    except FlatdataSyntaxError as e:
        return "syntax", e
    except Exception as e:  # pylint: disable=broad-except
        return "crash", e


def node(tree, path):
    return tree.find("." + path)


def schema_of(n):
    from flatdata.generator.tree.syntax_tree import SyntaxTree
    return SyntaxTree.schema(n)


def archives(tree):
    from flatdata.generator.tree.nodes.archive import Archive
    return list(tree.root.iterate(Archive))


def structures(tree):
    from flatdata.generator.tree.nodes.trivial import Structure
    return [s for s in tree.root.iterate(Structure) if "._builtin." not in s.path]


def resources(archive):
    from flatdata.generator.tree.nodes.resources import BoundResource
    return [r for r in archive.resources if not isinstance(r, BoundResource)]


WIDTH = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}
TYPES = list(WIDTH)


def signed(t):
    return t.startswith("i")


def value_range(t, width):
    if signed(t):
        return -(1 << (width - 1)), (1 << (width - 1)) - 1
    return 0, (1 << width) - 1


def run_sharded(check, cases, job, shards=8):
    """cases: list of hashable/picklable cases; job(case) -> None or failure message. Returns #cases."""
    if check.only is not None:
        cases = [c for c in cases if str(c) == str(check.only)]
    parts = [cases[i::shards] for i in range(shards)]
    results = vlib.parallel(_Shard(job), [p for p in parts if p])
    for r in results:
        for case, msg in r:
            check.fail(case, msg)
    check.count(len(cases))
    return len(cases)


class _Shard:
    def __init__(self, job):
        self.job = job

    def __call__(self, part):
        vlib.repo_on_path()
        bad = []
        for case in part:
            msg = self.job(case)
            if msg:
                bad.append((case, msg))
                if len(bad) > 4:
                    break
        return bad


def cache_templates():
    """Compiles every template source once per process instead of once per use (20 times faster)."""
    import jinja2.environment as je
    if getattr(je.Environment, "_verif_cached", False):
        return
    cache, original = {}, je.Environment.compile

    def compile_(self, source, name=None, filename=None, raw=False, defer_init=False):
        if raw or not isinstance(source, str):
            return original(self, source, name, filename, raw, defer_init)
        key = (source, name, filename, defer_init, self.trim_blocks, self.lstrip_blocks, str(self.autoescape),
               frozenset(self.filters), frozenset(self.globals))
        if key not in cache:
            cache[key] = original(self, source, name, filename, raw, defer_init)
        return cache[key]
    je.Environment.compile = compile_
    je.Environment._verif_cached = True


def py_schemas(text):
    """Everything the generated Python code stores schemas for:
    {("archive", ".n.A"): schema, ("resource", ".n.A", "r"): schema, ("struct", ".n.S"): schema}"""
    cache_templates()
    vlib.repo_on_path()
    from flatdata.generator.engine import Engine
    import types
    engine = Engine(text)
    module = types.ModuleType("generated")
    exec(engine.render("py"), module.__dict__)  # pylint: disable=exec-used
    out = {}
    for a in archives(engine.tree):
        cls = getattr(module, a.path[1:].replace(".", "_"))
        out[("archive", a.path)] = cls._SCHEMA
        for name, sig in cls._RESOURCES.items():
            if not name.endswith(".archive"):
                out[("resource", a.path, name)] = sig.schema
    for s in structures(engine.tree):
        out[("struct", s.path)] = getattr(module, s.path[1:].replace(".", "_"))._SCHEMA
    return out
