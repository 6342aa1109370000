"""P22: explicit state exploration of the directory that the writer's command line and library fill, over a family of schemas.

From the empty directory every invocation of a stated alphabet (complete, repeated, failing ones) is executed by the real writer in
every reachable state (states are directory contents; a state is expanded once), so all histories of any length are covered. In every
state the real inspector (library and command line) opens the stored files alone, in every form (directory, file in it, absolute,
relative, tar files of several styles, with and without the archive's name), and must show what the model says was written."""
import contextlib
import io
import json
import os
import sys
import tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import refmodel as rm
import genlib as g

vlib.repo_on_path()

S = rm.S("S", [("a", "u32", 7), ("b", "i16", 9)])
T = rm.S("T", [("x", "u64", 64), ("y", "i8", 3), ("z", "bool", 1)])
SV = [{"a": 1, "b": -256}, {"a": 127, "b": 255}]
TV = [{"x": (1 << 64) - 1, "y": -4, "z": 1}, {"x": 1 << 63, "y": 3, "z": 0}]
HOSTILE = 'quotes " and """ and \\\'\\\', back\\slash \\n \\x41 \\N{DASH} \\, percent %s {{ }} {0}, \u00e4\u20ac'
BS = "\\"


class Resource:
    def __init__(self, archive, name, text, values, optional=False, show=None, sub=None):
        """values: JSON values that can be written; show: value -> what reading it back gives"""
        self.archive, self.name, self.text, self.values, self.optional = archive, name, text, values, optional
        self.sub = sub


class Family:
    """A schema with one or two archives whose resources have different names"""
    def __init__(self, label, text, resources, archives, sub=None, ambiguous=()):
        self.label, self.text, self.resources, self.archives, self.sub = label, text, resources, archives, sub
        self.ambiguous = ambiguous      # names of archives that several namespaces define


def kind(k, ns, sname="S", tname="T"):
    """(declaration, values) of a kind of resource; ns: prefix of names of structures in written data"""
    s = [dict(v) for v in SV]
    t = [dict(v) for v in TV]
    mk = lambda n, v: {"name": ns + "_" + n, "attributes": v}  # noqa: E731
    return {
        "inst": (sname, [s[0], t and s[1]]),
        "vec": ("vector< %s >" % tname, [[t[0], t[1]], [t[1]]]),
        "mv": ("multivector< 14, %s, %s >" % (sname, tname), [[[mk("S", s[1]), mk("T", t[0])], [], [mk("T", t[1])]], [[mk("S", s[0])]]]),
        "evec": ("vector< %s >" % sname, [[], [s[1], s[0], s[1]]]),
    }[k]


def structures(ref=""):
    return S.text() + "\n" + T.text() + "\n"


def families(thorough):
    kinds = ("inst", "vec", "mv", "evec")
    # every pair of kinds of resources, optional or not, in one archive
    for a in kinds:
        for b in kinds:
            for optional in ((0, 0), (0, 1), (1, 1)) if a <= b else ((0, 1),):
                res = [Resource("A", "r%d" % i, *kind(k, "n"), optional=bool(o)) for i, (k, o) in enumerate(zip((a, b), optional))]
                yield Family("pair %s %s %s" % (a, b, optional), wrap(structures(), "n", res, ["A"]), res, ["A"])
    # where things are defined
    for label, name, make in NAMESPACES:
        res = [Resource("A", "r0", *kind("inst", "*")), Resource("A", "r1", *kind("mv", "*"), optional=True)]
        text, prefix = make(res)
        res = rename(res, prefix)
        yield Family("namespaces " + label, text, res, [name])
    # comments everywhere
    for label, comment in COMMENTS:
        res = [Resource("A", "r0", *kind("inst", "n")), Resource("A", "r1", *kind("vec", "n"), optional=True)]
        text = "namespace n {\n%s\nstruct S {\n%s\na : u32 : 7;\n%s\nb : i16 : 9;\n}\n%s\n%s\n%s\narchive A {\n%s\nr0 : S;\n%s\n@optional\nr1 : vector< T >;\n}\n}\n" % (
            comment, comment, comment, T.text(), "%s\nconst u8 C = 3;\n%s\nenum E : u8 : 1 {\n%s\nV,\n}" % (comment, comment, comment), comment,
            comment, comment)
        yield Family("comments " + label, text, res, ["A"])
    # names
    for archive, one, two in (("XBuilder", "a", "b"), ("Builder", "Builder", "builder"), ("_A", "_x", "__y"), ("a", "a", "A"), ("class", "import", "None"),
                              ("A1", "r", "r_index2"), ("archive", "data", "schema_"), ("flatdata_A", "flatdata", "pd")):
        res = [Resource(archive, one, *kind("vec", "n")), Resource(archive, two, *kind("mv", "n"), optional=True)]
        yield Family("names %s %s %s" % (archive, one, two), wrap(structures(), "n", res, [archive]), res, [archive])
    # two archives in one schema, written to one directory
    for names in (("A", "B"), ("A", "AB"), ("AB", "A"), ("B", "a"), ("Map", "MAP"), ("A_", "_A"), ("A1", "a1")):
        res = [Resource(names[0], "r0", *kind("inst", "n")), Resource(names[1], "r1", *kind("vec", "n"))]
        yield Family("archives %s %s" % names, wrap(structures(), "n", res, list(names)), res, list(names))
    # in different namespaces
    res = [Resource("A", "r0", *kind("inst", "a")), Resource("B", "r1", *kind("vec", "b"))]
    yield Family("archives in namespaces", wrap(structures(), "a", res[:1], ["A"]) + wrap(structures(), "b", res[1:], ["B"]), res, ["A", "B"])
    # decorations and references
    for label, extra, deco in (("references", "struct R { p : u32 : 9; }", "@explicit_reference( R.p, r0 )"), ("bound", "", "@bound_implicitly( g : r0, r1 )"),
                               ("constant", "const u32 K = 5;\nenum E : i8 : 2 { V = -1, W }\nstruct Q { @optional( K )\nk : u32 : 3; @const( K )\nl : u32 : 4; e : E : 2; }", "")):
        res = [Resource("A", "r0", *kind("vec", "n"))]
        if label == "references":
            res += [Resource("A", "r1", "%s\nREF vector< R >" % deco, [[{"p": 0}, {"p": 1}], []])]
        elif label == "bound":
            res += [Resource("A", "r1", *kind("evec", "n"))]
        else:
            res += [Resource("A", "r1", "Q", [{"k": 5, "l": 4, "e": -2}, {"k": 0, "l": 15, "e": 1}])]
        body = "\n".join("%s : %s;" % (r.name, r.text) if "REF" not in r.text else "%s\n%s : %s;" % (*(lambda d, t: (d, r.name, t))(*r.text.split("REF ")),)
                         for r in res)
        text = "namespace n {\n%s%s\n%sarchive A {\n%s\n}\n}\n" % (structures(), extra, deco + "\n" if label == "bound" else "", body)
        yield Family("decorations " + label, text, res, ["A"])
    # an archive within an archive, written to its directory
    for optional in (False, True):
        for spaces in (("n", "n"), ("n", "m"), ("m", "n")):
            inner = [Resource("X", "r1", *kind("vec", spaces[1]), sub="sub")]
            outer = [Resource("A", "r0", *kind("inst", spaces[0]))]
            decl = "%ssub : archive .%s.X;\n" % ("@optional\n" if optional else "", spaces[1])
            a = "archive A { r0 : S;\n%s}\n" % decl
            x = "archive X { r1 : vector< T >; }\n"
            if spaces[0] == spaces[1]:
                text = "namespace n {\n%s%s%s}\n" % (structures(), a, x)
            else:
                text = "namespace %s {\n%s%s}\nnamespace %s {\n%s%s}\n" % (spaces[0], structures(), a, spaces[1], structures(), x)
            yield Family("subarchive %s %s" % (spaces, optional), text, outer + inner, ["A", "X"], sub=("sub", optional))
    # a reference to a resource of another archive
    res = [Resource("B", "r0", *kind("vec", "n")), Resource("A", "r1", "", [[{"p": 0}, {"p": 1}], []])]
    yield Family("reference to another archive", "namespace n {\n%sstruct R { p : u32 : 9; }\narchive B { r0 : vector< T >; }\narchive A {\n"
                 "@explicit_reference( R.p, .n.B.r0 )\nr1 : vector< R >;\n}\n}\n" % structures(), res, ["A", "B"])
    # the same name in an inner and an outer archive
    text = ("namespace a {\n%sarchive A { r1 : vector< T >; }\n}\nnamespace b {\n%sarchive A { r0 : S;\n@optional\nsub : archive .a.A; }\n}\n"
            % (structures(), structures()))
    yield Family("same name", text, [], ["A"], ambiguous=("A",))
    if thorough:
        for a in kinds:
            for b in kinds:
                for c in kinds:
                    for optional in ((0, 0, 0), (0, 1, 0), (1, 0, 1)):
                        res = [Resource("A", "r%d" % i, *kind(k, "n"), optional=bool(o)) for i, (k, o) in enumerate(zip((a, b, c), optional))]
                        yield Family("triple %s %s %s %s" % (a, b, c, optional), wrap(structures(), "n", res, ["A"]), res, ["A"])


def body_of(res):
    return "\n".join("%s%s : %s;" % ("@optional\n" if r.optional else "", r.name, r.text) for r in res)


def wrap(defs, ns, res, archives):
    return "namespace %s {\n%s%s\n}\n" % (ns, defs, "\n".join(
        "archive %s {\n%s\n}" % (a, body_of([r for r in res if r.archive == a])) for a in archives))


def rename(res, prefix):
    def fix(v):
        if isinstance(v, list):
            return [fix(x) for x in v]
        if isinstance(v, dict):
            return {k: prefix + x[1:] if k == "name" else fix(x) if k == "attributes" else x for k, x in v.items()}
        return v
    for r in res:
        r.values = [fix(v) for v in r.values]
    return res


def _ns(head, tail="", prefix=None, before="", after="", ref=None):
    def make(res):
        inner = "%sarchive A {\n%s\n}\n" % (structures() if ref is None else "", body_of(res))
        if ref is not None:
            inner = inner.replace(": S;", ": %s.S;" % ref).replace("14, S, T", "14, %s.S, %s.T" % (ref, ref))
        return before + head + " {\n" + inner + "}\n" + tail + after, prefix
    return make


NAMESPACES = [
    ("one", "A", _ns("namespace n", prefix="n")),
    ("dotted", "A", _ns("namespace a.b", prefix="a_b")),
    ("deep", "A", _ns("namespace a.b.c.d", prefix="a_b_c_d")),
    ("nested", "A", _ns("namespace a {\nnamespace b", "}\n", prefix="a_b")),
    ("other before", "A", _ns("namespace n", prefix="n", before="namespace m { const u8 C = 1; }\n")),
    ("other after", "A", _ns("namespace n", prefix="n", after="namespace m { struct S { q : u8; } }\n")),
    ("structures elsewhere", "A", _ns("namespace n", prefix="m", before="namespace m {\n%s}\n" % structures(), ref=".m")),
    ("structures elsewhere later", "A", _ns("namespace n", prefix="a_m", after="namespace a.m {\n%s}\n" % structures(), ref=".a.m")),
    ("structures in outer", "A", _ns("namespace a.b", prefix="a", before="namespace a {\n%s}\n" % structures(), ref=".a")),
    ("structures in inner", "A", _ns("namespace a", prefix="a_b", before="namespace a.b {\n%s}\n" % structures(), ref=".a.b")),
    ("reopened", "A", _ns("namespace n", prefix="n", after="namespace n { const u8 C = 1; }\n", before="namespace n { struct U { u : u8; } }\n")),
    ("underscores", "A", _ns("namespace _n_", prefix="_n_")),
    ("named builtins", "A", _ns("namespace builtins", prefix="builtins")),
    ("named flatdata", "A", _ns("namespace flatdata_", prefix="flatdata_")),
    ("named like the archive", "A", _ns("namespace A", prefix="A")),
    ("twice the same", "A", _ns("namespace a.a", prefix="a_a")),
]
COMMENTS = [("none", ""), ("line", "// a comment"), ("block", "/* a comment\n * of two lines\n */"), ("hostile", "/* " + HOSTILE + " */"),
            ("hostile line", "// " + HOSTILE), ("ends in quote", '// "'), ("block of quotes", '/*"""*/'), ("ends in backslash", "/* " + BS + " */"), ("backslash in line", "// " + BS + " x"),
            ("odd backslashes", "/* " + 3 * BS + '" */'), ("braces", "// { } ; struct X {"), ("empty", "/**/")]


# ---- the real tools ------------------------------------------------------------------------------
@contextlib.contextmanager
def argv(*args):
    old, sys.argv = sys.argv, ["tool"] + list(args)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        sys.argv = old


def writer_cli(*args):
    """(None or name of the exception, ...) of the command line of the writer"""
    from flatdata.lib import writer
    with argv(*args):
        try:
            writer.main()
        except SystemExit as e:
            return None if not e.code else "SystemExit"
        except Exception as e:  # pylint: disable=broad-except
            return type(e).__name__
    return None


def shown(resource, like):
    """the resource in the form in which it is written"""
    if like is dict:
        return {k: int(getattr(resource, k)) for k in type(resource[0])._FIELDS}
    if like == "mv":
        return [[{"name": type(e).__name__, "attributes": {k: int(v) for k, v in e.as_dict().items()}} for e in item] for item in resource]
    return [{k: int(v) for k, v in e.as_dict().items()} for e in resource]


def read(archive, resources, sub):
    """{name: value or None} of all resources through attribute access"""
    out = {}
    for r in resources:
        where = archive
        if r.sub:
            where = getattr(archive, r.sub) if sub else archive
            if where is None:
                out[r.name] = None
                continue
        value = getattr(where, r.name)
        if value is None:
            out[r.name] = None
        elif isinstance(r.values[0], dict):
            out[r.name] = shown(value, dict)
        else:
            out[r.name] = shown(value, "mv" if "multivector" in r.text else list)
    return out


def state_of(path):
    out = {}
    for root, _dirs, files in os.walk(path):
        for f in files:
            with open(os.path.join(root, f), "rb") as h:
                out[os.path.relpath(os.path.join(root, f), path)] = h.read()
    return tuple(sorted(out.items()))


def restore(path, state):
    for root, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        for d in dirs:
            os.rmdir(os.path.join(root, d))
    for name, data in state:
        p = os.path.join(path, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def make_tar(path, target, style):
    with tarfile.open(target, "w", format=tarfile.PAX_FORMAT if style == "pax" else tarfile.GNU_FORMAT) as tar:
        if style == "dot":
            tar.add(path, arcname=".")
        else:
            for name in sorted(os.listdir(path), reverse=style == "pax"):
                tar.add(os.path.join(path, name), arcname=name)


def memoize():
    """Parses and generates each schema once per process and configuration (that both are functions of the schema is P25)."""
    from flatdata.generator.engine import Engine
    if hasattr(Engine, "verif_memo"):
        return
    Engine.verif_memo = {}
    init, render = Engine.__init__, Engine.render_python_module

    def memo_init(self, schema):
        key = ("init", schema)
        if key not in Engine.verif_memo:
            init(self, schema)
            Engine.verif_memo[key] = dict(self.__dict__)
        self.__dict__.update(Engine.verif_memo[key], verif_key=schema)

    def memo_render(self, *args, **kw):
        key = ("render", self.verif_key, args, tuple(sorted(kw.items())))
        if key not in Engine.verif_memo:
            Engine.verif_memo[key] = render(self, *args, **kw)
        return Engine.verif_memo[key]
    Engine.__init__, Engine.render_python_module = memo_init, memo_render


class Explorer:
    def __init__(self, family, base):
        self.f = family
        self.base = base
        self.dir = os.path.join(base, "data")
        self.schema = os.path.join(base, "s.flatdata")
        with open(self.schema, "w", encoding="utf-8") as h:
            h.write(family.text)
        self.json = os.path.join(base, "d.json")
        self.states = self.transitions = self.openings = 0

    # -- transitions: (label, function) -> model
    def moves(self):
        f = self.f
        several = len(f.archives) > 1
        for i, r in enumerate(f.resources):
            for k in range(len(r.values)):
                yield ("cli", i, k)
            yield ("lib", i, 0)
            yield ("bad data", i, 0)
        yield ("unknown resource",)
        yield ("unknown archive",)
        yield ("no schema",)
        yield ("no json",)
        yield ("broken json",)
        if several or f.ambiguous:
            yield ("no archive name",)
        if not f.sub and f.resources:
            yield ("all at once",)

    def path_of(self, r):
        return os.path.join(self.dir, r.sub) if r.sub else self.dir

    def names(self, archive):
        """how the archive may be named on the command line"""
        return ["-a", archive] if len(self.f.archives) > 1 or self.transitions % 2 else []

    def write_json(self, value):
        with open(self.json, "w") as h:
            json.dump(value, h)

    def step(self, move, model):
        """executes the move; returns (new model, message)"""
        f = self.f
        model = {"set": dict(model["set"]), "signed": set(model["signed"])}
        what = move[0]
        if what in ("cli", "lib", "bad data"):
            r = f.resources[move[1]]
            if r.sub and not os.path.isdir(self.dir):
                return model, None          # the writer creates one level of directories
            value = r.values[move[2]]
            model["signed"].add((r.sub, r.archive))
            if what == "bad data":
                self.write_json(spoil(value, r))
                got = writer_cli("-s", self.schema, "-p", self.path_of(r), "-r", r.name, "-d", self.json, *self.names(r.archive))
                return model, None if got else "accepted data that does not match the schema"
            model["set"][r.name] = move[2]
            if what == "cli":
                self.write_json(value)
                args = [("-p", "--output-path", "--output-dir")[self.transitions % 3], self.path_of(r)]
                got = writer_cli("-s", self.schema, "-r", r.name, "-d", self.json, *args, *self.names(r.archive))
            else:
                from flatdata.lib.flatdata_writer import Writer
                def run():
                    w = Writer(f.text, self.path_of(r), r.archive)
                    w.set(r.name, value)
                    w.finish()
                got = vlib.outcome(run)
                got = None if got[0] == "ok" else repr(got[2])
            return model, "writing failed: %s" % got if got else None
        if what == "all at once":
            from flatdata.lib.flatdata_writer import Writer
            for a in f.archives:
                w = Writer(f.text, self.dir, a)
                for r in reversed(f.resources):
                    if r.archive == a:
                        w.set(r.name, r.values[-1])
                        model["set"][r.name] = len(r.values) - 1
                w.finish()
                model["signed"].add((None, a))
            return model, None
        r = f.resources[0] if f.resources else None
        name, value, archive = (r.name, r.values[0], r.archive) if r else ("r0", {}, f.archives[0])
        self.write_json(value)
        args = {"-s": self.schema, "-p": self.dir, "-r": name, "-d": self.json, "-a": archive}
        if what == "unknown resource":
            args["-r"] = "nosuch"
            if archive not in f.ambiguous:
                model["signed"].add((None, archive))
        elif what == "unknown archive":
            args["-a"] = "Nosuch"
        elif what == "no schema":
            args["-s"] = self.schema + ".missing"
        elif what == "no json":
            args["-d"] = self.json + ".missing"
        elif what == "broken json":
            with open(self.json, "w") as h:
                h.write("[{")
        elif what == "no archive name":
            del args["-a"]
        got = writer_cli(*[x for kv in args.items() for x in kv])
        return model, None if got else "no error is reported"

    # -- what must be seen
    def expected(self, model, sub, archive):
        """'RuntimeError' etc. or {name: value} of opening `archive` (or None) in the directory of `sub`"""
        f = self.f
        here = sorted(a for s, a in model["signed"] if s == sub)
        if not here or archive is None and len(here) > 1 or archive is not None and archive not in here:
            return "RuntimeError", None
        archive = archive or here[0]
        mine = [r for r in f.resources if r.archive == archive and r.sub == sub]
        for r in mine:
            if r.name not in model["set"] and not r.optional:
                return "MissingResourceError", None
        out = {r.name: r.values[model["set"][r.name]] if r.name in model["set"] else None for r in mine}
        if f.sub and sub is None:
            inner = [r for r in f.resources if r.sub]
            there = any(s for s, _a in model["signed"])
            complete = all(r.name in model["set"] for r in inner)
            if there and not complete or not there and not f.sub[1]:
                return "MissingResourceError", None
            for r in inner:
                out[r.name] = r.values[model["set"][r.name]] if there else None
        return None, (archive, out)

    def look(self, model, full):
        """opens the state in every form; returns a message"""
        from flatdata.lib.inspector import open_archive
        f = self.f
        places = [None] + ([f.sub[0]] if f.sub else [])
        for sub in places:
            here = os.path.join(self.dir, sub) if sub else self.dir
            if not os.path.isdir(here):
                got = vlib.outcome(open_archive, here)
                if got[0] == "ok" or got[1] != "RuntimeError":
                    return "opening a missing directory: %s" % (got[1:],)
                continue
            signed = sorted(a for s, a in model["signed"] if s == sub)
            forms = [("directory", here), ("directory/", here + "/"), ("relative directory", os.path.relpath(here))]
            for n in sorted(os.listdir(here)):
                if n.endswith(".archive") or (full and os.path.isfile(os.path.join(here, n))):
                    forms.append(("file " + n, os.path.join(here, n)))
                    forms.append(("relative file " + n, (here, n)))
            for style in ("dot", "names", "pax"):
                t = os.path.join(self.base, style + ".tar")
                make_tar(here, t, style)
                forms.append(("tar " + style, t))
            forms.append(("relative tar", (self.base, "names.tar")))
            for archive in [None] + signed + ["Nosuch"]:
                error, want = self.expected(model, sub, archive)
                for label, path in forms if archive is None or full else forms[:1] + forms[-2:]:
                    self.openings += 1
                    where = None
                    if isinstance(path, tuple):
                        where, path = path
                    back = os.getcwd()
                    if where:
                        os.chdir(where)
                    try:
                        got = vlib.outcome(open_archive, path, archive)
                        where = "%s%s, archive %s" % (sub + "/ " if sub else "", label, archive)
                        if error:
                            if got[0] == "ok" or got[1] != error:
                                return "%s: expected %s, got %s %s" % (where, error, got[1], got[2] if got[0] != "ok" else "")
                            continue
                        if got[0] != "ok":
                            return "%s: cannot be opened: %r" % (where, got[2])
                        msg = self.compare(got[1][0], want, sub, full)
                        if msg:
                            return "%s: %s" % (where, msg)
                    finally:
                        os.chdir(back)
            if full:
                error, want = self.expected(model, sub, None)
                msg = self.command_line(here, want if not error else None)
                if msg:
                    return "command line on %s: %s" % (here, msg)
        return None

    def compare(self, archive, want, sub, full):
        name, values = want
        resources = [r for r in self.f.resources if r.name in values]
        got = vlib.outcome(read, archive, resources, sub is None)
        if got[0] != "ok":
            return "reading raises %r" % (got[2],)
        if got[1] != values:
            return "shows %s, expected %s" % (got[1], values)
        if archive.name() != name:
            return "is named " + archive.name()
        if not full:
            return None
        frame = archive.to_data_frame()
        rows = {row.Name: row for row in frame.itertuples()}
        top = [r for r in resources if r.sub == sub]
        names = {r.name for r in top} | {name + ".archive"} | ({self.f.sub[0]} if self.f.sub and sub is None else set())
        if set(rows) != names:
            return "lists the resources %s, expected %s" % (sorted(rows), sorted(names))
        for r in top:
            v = values[r.name]
            size = None if v is None else 1 if isinstance(v, dict) else len(v)
            row = rows[r.name]
            if bool(row.Optional) != r.optional or (None if row.Size != row.Size else row.Size) != size:
                return "lists %s as %s, expected %s elements, optional %s" % (r.name, tuple(row), size, r.optional)
            if v is not None and not repr(getattr(archive, r.name)):
                return "shows nothing for " + r.name
        if not set(dir(archive)) >= names:
            return "dir() lists %s" % (dir(archive),)
        repr(archive)
        return None

    def command_line(self, path, want):
        from flatdata.lib import inspector
        code = "import json; print('@' + json.dumps(archive.to_data_frame()['Name'].tolist()))"
        with argv("-p", path, "--non-interactive", code) as out:
            try:
                inspector.main()
                end = None
            except SystemExit as e:
                end = e.code
            except Exception as e:  # pylint: disable=broad-except
                end = repr(e)
        if want is None:
            return None if end not in (None, 0) else "reports no error"
        if end not in (None, 0):
            return "ends with %s" % end
        lines = [l for l in out.getvalue().splitlines() if l.startswith("@")]
        top = {r.name for r in self.f.resources if r.name in want[1]}
        if len(lines) != 1 or not set(json.loads(lines[0][1:])) >= top - {r.name for r in self.f.resources if r.sub}:
            return "shows %s" % out.getvalue()[:500]
        return None

    def explore(self, only=None):
        """all states reachable by any history; returns None or (history, message)"""
        start = ((), {"set": {}, "signed": set()}, ())
        seen = {(): None}
        todo = [start]
        while todo:
            state, model, history = todo.pop(0)
            self.states += 1
            restore_all(self.dir, state)
            msg = self.look(model, full=True)
            if msg:
                return history, msg
            for move in self.moves():
                if only is not None and list(map(list, history + (move,))) != only[:len(history) + 1]:
                    continue
                restore_all(self.dir, state)
                self.transitions += 1
                try:
                    after, msg = self.step(move, model)
                except Exception as e:  # pylint: disable=broad-except
                    if not vlib.raised_in_repo(e):
                        raise
                    after, msg = model, "raises %r" % e
                if msg:
                    return history + (move,), msg
                new = state_of(self.dir)
                key = (new, tuple(sorted(after["set"].items())), tuple(sorted(map(str, after["signed"]))))
                if move[0] in ("unknown archive", "no schema", "no json", "broken json", "no archive name") and new != state:
                    return history + (move,), "the directory changed although nothing could be written"
                if key not in seen:
                    seen[key] = None
                    todo.append((new, after, history + (move,)))
                    if len(seen) > 2000:
                        raise RuntimeError("too many states of " + self.f.label)
        return None


def restore_all(path, state):
    if not state:
        if os.path.isdir(path):
            restore(path, ())
            os.rmdir(path)
        return
    os.makedirs(path, exist_ok=True)
    restore(path, state)


def spoil(value, r):
    """data that does not match the resource's structures"""
    if isinstance(value, dict):
        return dict(value, nosuch=1)
    if "multivector" in r.text:
        return [[{"name": "nosuch", "attributes": {}}]]
    return [{"nosuch": 1}]


def same_name():
    """an archive within an archive of the same name in another namespace, written by their builders"""
    from flatdata.lib.inspector import open_archive
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    text = [f for f in families(False) if f.label == "same name"][0].text
    module = vlib.python_module(text)
    with vlib.scratch() as d:
        for cls, path, name, value in ((module.b_ABuilder, d, "r0", SV[0]), (module.a_ABuilder, os.path.join(d, "sub"), "r1", TV)):
            builder = cls(ResourceStorage(FileResourceWriter(), path))
            builder.set(name, value)
            builder.finish()
        forms = [(d, None, True), (d, "A", True), (os.path.join(d, "sub"), None, False), (os.path.join(d, "sub"), "A", False)]
        with vlib.scratch() as d2:
            for label, where in (("a", d), ("b", os.path.join(d, "sub"))):
                t = os.path.join(d2, label + ".tar")
                make_tar(where, t, "dot")
                forms.append((t, "A", where == d))
            for path, archive, outer in forms:
                got = vlib.outcome(open_archive, path, archive)
                if got[0] != "ok":
                    return "%s: %r" % (os.path.relpath(path, d), got[2])
                a = got[1][0]
                inner = a.sub if outer else a
                if outer and shown(a.r0, dict) != SV[0] or shown(inner.r1, list) != TV:
                    return "%s shows other values" % os.path.relpath(path, d)
    return None


def job(arg):
    index, label, thorough, only = arg
    family = [f for f in families(thorough)][index]
    assert family.label == label
    g.cache_templates()
    memoize()
    with vlib.scratch() as d:
        e = Explorer(family, d)
        bad = e.explore(only)
        return label, bad, e.states, e.transitions, e.openings


def body(check):
    check.rule = ("an evaluation is one invocation of the writer in one reachable state of the directory; non-trivial: a state of the "
                  "directory in which the inspector was started in all forms")
    check.assumptions = ["raw data cannot be given as JSON and is written by the library only (P05)", "archives of one directory have no resource names in common",
                         "archives of the same name can only be told apart if the schema defines one of them"]
    jobs = []
    only = None
    if check.only is not None:
        label, _sep, history = check.only.partition(": ")
        only = json.loads(history) if history else None
        jobs = [(i, f.label, check.thorough, only) for i, f in enumerate(families(check.thorough)) if f.label == label]
    else:
        jobs = [(i, f.label, check.thorough, None) for i, f in enumerate(families(check.thorough))]
    openings = 0
    for label, bad, states, transitions, opened in vlib.parallel(job, jobs):
        openings += opened
        check.count(transitions)
        for k in range(states):
            check.nontrivial("%s %d" % (label, k))
        if bad:
            check.fail("%s: %s" % (label, json.dumps(bad[0])), bad[1])
    if check.wants("archives of the same name"):
        msg = same_name()
        check.expect(msg is None, "archives of the same name", msg)
        check.count()
    check.extra["schemas"] = len(jobs)
    check.extra["openings"] = openings
    check.sample("pair inst vec: writer -r r0 (values 1), writer -r r1 with bad data, writer -r r1, Writer().set(r0)")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P22", "exploration"), body)
