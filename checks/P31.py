"""P31: the directory that the generator's command line fills, explored as a state machine.

From the empty directory every invocation of an alphabet (schema file x language x output file, valid and failing) is executed by
the real command line in every reachable state (states are contents of the directory), and the state it leads to is compared with a
model: exactly the output file changes, to what the library renders for the schema, or nothing does and an error is reported."""
import contextlib
import hashlib
import io
import itertools
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import genlib as g

vlib.repo_on_path()

STRUCT = "struct S { a : u32 : 7; @optional( NONE ) b : i16 : 9; }"
SCHEMAS = {
    "one": "namespace n { const i16 NONE = -5; %s archive A { v : vector< S >; @optional m : multivector< 33, S >; } }\n" % STRUCT,
    "two": "// \u00e4\u20ac comment\nnamespace a.b {\nenum E : u8 : 1 { P, Q }\nstruct T {\n/* doc */ e : E;\n}\narchive X { i : T; r : raw_data; }\n}\n",
    "crlf": "namespace n {\r\n// of two\r\n// lines\r\nstruct S {\r\n a : u8;\r\n}\r\narchive A {\r\n v : vector< S >;\r\n}\r\n}\r\n",
    "no end of line": "namespace n { struct S { a : u8; } archive A { v : vector< S >; } }",
    "empty": "",
    "comment": "// nothing else\n",
    "broken": "namespace n { struct S { a : u8 } }",
    "rest": "namespace n { struct S { a : u8; } } x",
    "width": "namespace n { struct S { a : u8 : 9; } archive A { v : vector< S >; } }",
    "unknown name": "namespace n { archive A { v : vector< S >; } }",
    "cycle": "namespace n { archive A { b : archive B; } archive B { a : archive A; } }",
    "twice": "namespace n { struct S { a : u8; } struct S { a : u8; } }",
}
GENERATORS = ["cpp", "dot", "go", "py", "rust", "flatdata"]
UNKNOWN = ["nosuch", "", "CPP", "cpp "]


def outcome_of(schema, gen):
    """what the library renders, or None"""
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    try:
        engine = Engine(schema.replace("\r\n", "\n"))
    except FlatdataSyntaxError:
        return None
    try:
        return engine.render(gen)
    except Exception:  # pylint: disable=broad-except
        return None


class Cli:
    def __init__(self, base):
        self.base = base
        self.schemas = os.path.join(base, "schemas")
        self.work = os.path.join(base, "work")
        os.makedirs(self.schemas)
        os.makedirs(os.path.join(self.schemas, "directory"))
        for name, text in SCHEMAS.items():
            with open(os.path.join(self.schemas, name), "w", encoding="utf-8", newline="") as f:
                f.write(text)
        with open(os.path.join(self.schemas, "bytes"), "wb") as f:
            f.write(b"namespace n { // \xff\xfe\xe4\n struct S { a : u8; } archive A { v : vector< S >; } }")

    def run(self, args, process=False, cwd=None):
        """(reports an error, what it prints on standard output)"""
        if process:
            r = subprocess.run([vlib.PY, "-B", "-W", "ignore", os.path.join(vlib.REPO, "flatdata-generator", "generator.py"), *args],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or self.work, timeout=120)
            return r.returncode != 0, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        from flatdata.generator import app
        out, err = io.StringIO(), io.StringIO()
        old, back = sys.argv, os.getcwd()
        sys.argv = ["generator"] + list(args)
        os.chdir(cwd or self.work)
        failed = False
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                app.main()
        except SystemExit as e:
            failed = bool(e.code)
        except Exception as e:  # pylint: disable=broad-except
            failed = True       # ends with a traceback and an exit code
            err.write(repr(e))
        finally:
            sys.argv = old
            os.chdir(back)
        return failed, out.getvalue(), err.getvalue()

    def state(self):
        out = {}
        for root, dirs, files in os.walk(self.work):
            for d in dirs:
                out[os.path.relpath(os.path.join(root, d), self.work) + "/"] = None
            for f in files:
                path = os.path.join(root, f)
                with open(path, "rb") as h:
                    out[os.path.relpath(path, self.work)] = h.read()
        return out

    def restore(self, state):
        vlib.shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        for name in sorted(state):
            path = os.path.join(self.work, name)
            if state[name] is None:
                os.makedirs(path, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(state[name])


def memoize():
    """Parses and renders every schema once per process (that these are functions of the schema is P25)."""
    from flatdata.generator import engine as e
    if hasattr(e.Engine, "verif_memo"):
        return
    e.Engine.verif_memo = {}
    init, render = e.Engine.__init__, e.Engine.render

    def memo_init(self, schema):
        if schema not in self.verif_memo:
            init(self, schema)
            self.verif_memo[schema] = dict(self.__dict__)
        self.__dict__.update(self.verif_memo[schema], verif_key=schema)

    def memo_render(self, gen):
        key = (self.verif_key, gen)
        if key not in self.verif_memo:
            self.verif_memo[key] = render(self, gen)
        return self.verif_memo[key]
    e.Engine.__init__, e.Engine.render = memo_init, memo_render


def after(state, schema, gen, output):
    """the model: (state afterwards, whether an error is reported)"""
    text = SCHEMAS.get(schema)
    content = outcome_of(text, gen) if text is not None and gen in GENERATORS else None
    if content is None or state.get(output + "/", 0) is None or output.endswith("/") or not output:
        return state, True
    new = dict(state)
    parts = output.split("/")
    for k in range(1, len(parts)):
        parent = "/".join(parts[:k])
        if parent in state:
            return state, True      # a file is in the way
        new[parent + "/"] = None
    new[output] = content.encode()
    return new, False


def describe(state):
    return ", ".join("%s (%s)" % (k, "directory" if v is None else "%d bytes" % len(v)) for k, v in sorted(state.items()))


def judge(cli, before, move, process=False, form=0):
    """executes a move in the state `before`; (state afterwards, message or None)"""
    schema, gen, output = move
    cli.restore(before)
    flags = [("-s", "-g", "-O"), ("--schema", "--gen", "--output-file")][form % 2]
    path = os.path.join(cli.schemas, schema)
    out = output
    if form // 2 % 2 and output:
        out = os.path.join(cli.work, output)
    if form // 4 % 2:
        path = os.path.relpath(path, cli.work)
    if schema not in SCHEMAS:
        path = {"directory": path, "bytes": path}.get(schema, path + ".missing")
    args = [x for pair in zip(flags, (path, gen, out)) for x in pair]
    if form // 8 % 3:
        args += [["-v"], ["--debug"]][form // 8 % 3 - 1]
    failed, printed, said = cli.run(args, process)
    want, error = after(before, schema, gen, output)
    got = cli.state()
    if failed != error:
        return got, "%s, expected %s" % ("reports an error (%s)" % said[-300:] if failed else "reports success", "an error" if error else "success")
    if got != want:
        wrong = sorted(k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0))
        return got, "the directory holds %s, expected %s; different: %s" % (describe(got), describe(want), wrong)
    if process and failed and not said:
        return got, "the error is not described"
    with open(os.path.join(cli.schemas, schema), "rb") if schema in SCHEMAS else contextlib.nullcontext() as f:
        if f is not None and f.read() != SCHEMAS[schema].encode():
            return got, "the schema file was changed"
    return got, None


OUTPUTS = ["o", "d/e/o"]
EXPLORED = [(s, gen) for s in ("one", "two") for gen in ("cpp", "flatdata", "py")]


def moves(thorough):
    for s, gen in EXPLORED:
        for o in OUTPUTS:
            yield s, gen, o
    # what fails, and outputs that are in the way of each other
    for s in SCHEMAS:
        for gen in ("cpp",) if not thorough else GENERATORS:
            if s not in ("one", "two", "crlf", "no end of line", "empty", "comment"):
                yield s, gen, "o"
    for s in ("missing", "directory", "bytes"):
        yield s, "py", "d/e/o"
    for gen in UNKNOWN:
        yield "one", gen, "d/e/o"
    yield "two", "go", "o"
    for o in ("o/x", "d/e/o/x/y", "d", "d/", "o/", ""):
        yield "one", "cpp", o


def key_of(state):
    return tuple((k, v if v is None else hashlib.sha1(v).hexdigest()) for k, v in sorted(state.items()))


def part(arg):
    """explores every state in which the first step leads to `first`; all parts together cover all histories"""
    index, parts, thorough, only = arg
    g.cache_templates()
    memoize()
    bad, transitions, seen = [], 0, set()
    alphabet = list(moves(thorough))
    with vlib.scratch() as d:
        cli = Cli(d)
        start = {}
        todo = [(start, ())]
        known = {key_of(start)}
        n = 0
        while todo:
            state, history = todo.pop(0)
            n += 1
            mine = n % parts == index or only is not None
            seen.add(key_of(state)) if mine else None
            for k, move in enumerate(alphabet):
                new, error = after(state, *move)
                if mine:
                    case = "history: " + " ; ".join(map(str, history + (move,)))
                    if only is None or only == case:
                        transitions += 1
                        _got, msg = judge(cli, state, move, form=n + k)
                        if msg:
                            bad.append((case, msg))
                            if len(bad) > 2:
                                return bad, transitions, len(seen)
                if not error and key_of(new) not in known:
                    known.add(key_of(new))
                    todo.append((new, history + (move,)))
        assert n < 3000
    return bad, transitions, len(seen)


def single(arg):
    """one invocation, all forms of arguments, in a process of its own or not"""
    move, form, process = arg
    g.cache_templates()
    case = "single: %s form %d%s" % (move, form, " process" if process else "")
    with vlib.scratch() as d:
        cli = Cli(d)
        before = {"o": b"content from before", "kept": b"kept", "full/": None, "full/x": b"1"}
        _got, msg = judge(cli, before, move, process, form)
        return case, msg


def usage(arg):
    """arguments that are missing or unknown"""
    args, error = arg
    g.cache_templates()
    with vlib.scratch() as d:
        cli = Cli(d)
        before = {"o": b"content from before"}
        cli.restore(before)
        args = [a.replace("@", cli.schemas + "/") for a in args]
        failed, printed, _said = cli.run(args)
        if failed != error:
            return "usage: %s" % (arg,), "reports an error" if failed else "reports success"
        if cli.state() != before:
            return "usage: %s" % (arg,), "the directory changed: " + describe(cli.state())
        if not error:
            for gen in GENERATORS:
                if gen not in printed:
                    return "usage: %s" % (arg,), "does not mention the language %s" % gen
    return "usage: %s" % (arg,), None


def body(check):
    check.rule = ("all histories of %d successful invocations (2 schemas x 3 languages x 2 outputs) and every failing one in every state of "
                  "the directory they lead to; every schema x language x output x form of the arguments once, in process and as a process; "
                  "distinct: states of the directory and single invocations" % (len(EXPLORED) * len(OUTPUTS)))
    check.assumptions = ["the code itself is judged by other properties; here it must be what the library renders",
                         "the locale's encoding is UTF-8"]
    parts = 8
    only = check.only
    if only is None or only.startswith("history: "):
        for bad, n, states in vlib.parallel(part, [(k, parts, check.thorough, only) for k in range(parts)] if only is None else [(0, 1, check.thorough, only)]):
            check.count(n)
            check.extra["states"] = check.extra.get("states", 0) + states
            check.extra["transitions"] = check.extra.get("transitions", 0) + n
            for case, msg in bad:
                check.fail(case, msg)
    jobs = []
    outputs = ["o", "new", "full/y", "full/x", "a/b/c", "full", "kept/x", "./new", "full/../new"]
    everything = [(s, gen, o) for s in [*SCHEMAS, "missing", "directory", "bytes"] for gen in GENERATORS + UNKNOWN for o in outputs[:7]
                  if o == "o" or s in ("one", "two") or check.thorough]
    for k, move in enumerate(everything):
        for form in range(24) if check.thorough or move[2] == "o" and move[0] in ("one", "broken") else (k % 24,):
            jobs.append((move, form, False))
    if check.thorough:
        jobs += [(m, k % 24, True) for k, m in enumerate(everything)]
    else:
        jobs += [(("one", gen, o), k, True) for k, (gen, o) in enumerate(itertools.product(GENERATORS, ("o", "a/b/c")))]
        jobs += [((s, "cpp", "o"), 0, True) for s in [*SCHEMAS, "missing", "directory", "bytes"]]
        jobs += [(("one", gen, "o"), 0, True) for gen in UNKNOWN]
    jobs = [j for j in jobs if check.wants("single: %s form %d%s" % (j[0], j[1], " process" if j[2] else ""))]
    for case, msg in vlib.parallel(single, jobs):
        check.count()
        check.nontrivial(case)
        if msg:
            check.fail(case, msg)
    full = ["-s", "@one", "-g", "cpp", "-O", "o"]
    jobs = [(full[:2] + full[4:], True), (full[2:], True), (full[:4], True), ([], True), (full + ["--nosuch"], True), (full + ["x"], True),
            (full[:5], True), (["-h"], False), (["--help"], False)]
    for case, msg in vlib.parallel(usage, [j for j in jobs if check.wants("usage: %s" % (j,))]):
        check.count()
        if msg:
            check.fail(case, msg)
    check.extra["distinct_nontrivial"] = len(check.distinct) + check.extra.get("states", 0)
    check.sample("history: ('one', 'cpp', 'o') ; ('two', 'py', 'd/e/o') ; ('cycle', 'cpp', 'o')")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P31", "exploration"), body)
