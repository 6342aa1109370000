"""P16: the stored (normalized) schema of every archive, resource and structure of every schema of the family has
exactly the meaning of the source, is accepted again, is a fixed point, and does not depend on how the source is
written. Meaning is computed from the source model and by an independent parser of the normalized text."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import genlib as g
import schemamodel as sm

FIELDS = [
    sm.field("f", "u8", 3), sm.field("f", "i64"), sm.field("f", "bool", 1), sm.field("f", "u32", 32, range="r"),
    sm.field("f", "u8", consts=[".n.C"]), sm.field("f", "u8", 7, optional=".n.C"), sm.field("f", ".n.E"),
    sm.field("f", ".n.E", 2), sm.field("f", "u8", 5, consts=[".n.C"], optional=".n.D"),
    sm.field("f", "i16", 9, range="rr", consts=[".n.M"]), sm.field("f", ".n.F", 8),
]


def common(ns="n"):
    return [sm.const(ns, "C", "u8", 3), sm.const(ns, "D", "u8", 17), sm.const(ns, "M", "i16", -5),
            sm.enum(ns, "E", "i8", 2, [("A", -1), ("B", None), ("K", -2)]),
            sm.enum(ns, "F", "u8", None, ["X", ("Y", 255)])]


def struct_family(thorough):
    for n in (1, 2):
        for combo in itertools.product(range(len(FIELDS)), repeat=n):
            fields = []
            for i, c in enumerate(combo):
                f = dict(FIELDS[c], name="f%d" % i)
                if f["range"]:
                    f["range"] += str(i)
                fields.append(f)
            yield common() + [sm.struct("n", "S", *fields), sm.archive("n", "R", sm.resource("v", "vector", ".n.S"))]


def rich():
    return common() + [
        sm.struct("n", "S", sm.field("a", "u8", 3), sm.field("b", ".n.E"), sm.field("c", "u8", 7, optional=".n.C")),
        sm.struct("n", "T", sm.field("x", "u32", 20, range="rg"), sm.field("y", "i64", 33)),
        sm.struct("n", "U", sm.field("k", "u16", consts=[])),
        sm.archive("n", "Leaf", sm.resource("d", "raw"), sm.resource("s", "instance", ".n.S")),
        sm.archive("n", "Sub", sm.resource("leaf", "archive", ".n.Leaf", optional=True), sm.resource("w", "vector", ".n.U"))]


RESOURCES = [
    sm.resource("i", "instance", ".n.S"), sm.resource("v", "vector", ".n.T", optional=True),
    sm.resource("w", "vector", ".n.S", erefs=[[".n.S", "a", ".n.R.w"]]),
    sm.resource("m", "multivector", ".n.S", ".n.U", width=33),
    sm.resource("d", "raw"), sm.resource("z", "archive", ".n.Sub"), sm.resource("o", "archive", ".n.Leaf", optional=True),
    sm.resource("q", "multivector", ".n.U", width=8, optional=True, erefs=[[".n.U", "k", ".n.R.w"]]),
]


def archive_family(thorough):
    for k in range(0, len(RESOURCES) + 1):
        for combo in itertools.combinations(range(len(RESOURCES)), k):
            res = [RESOURCES[c] for c in combo]
            names = {r["name"] for r in res}
            if "q" in names and "w" not in names:
                continue
            bound = []
            if {"v", "w"} <= names:
                bound.append(["b", [".n.R.v", ".n.R.w"]])
            if {"w", "q"} <= names:
                bound.append(["c", [".n.R.w", ".n.R.q"]])
            yield rich() + [sm.archive("n", "R", *res, bound=bound)]


def namespace_family(thorough):
    spaces = ("n", "n.m", "o", "n.m.k") if thorough else ("n", "n.m", "o")
    for c, e, s, a, r in itertools.product(spaces, repeat=5):
        yield [sm.const(c, "C", "u8", 3), sm.const(e, "G", "i32", -7), sm.enum(e, "E", "u8", 1, ["A", "B"]),
               sm.struct(s, "S", sm.field("x", "u8", 4, optional=".%s.C" % c), sm.field("e", ".%s.E" % e, 1)),
               sm.archive(a, "A", sm.resource("i", "instance", ".%s.S" % s)),
               sm.archive(r, "R", sm.resource("v", "vector", ".%s.S" % s, erefs=[[".%s.S" % s, "x", ".%s.R.v" % r]]),
                          sm.resource("m", "multivector", ".%s.S" % s, width=16),
                          sm.resource("z", "archive", ".%s.A" % a))]


def name_family(thorough):
    """every identifier of a model replaced by every odd name (those that are accepted)"""
    base = [sm.const("outer.inner", "KONST", "u8", 3), sm.const("outer", "OTHER", "i16", -3), sm.const("outer", "LIMIT", "u8", 100),
            sm.enum("outer", "Colour", "u8", 2, ["RED", ("BLUE", 2)]),
            sm.struct("outer.inner", "Thing", sm.field("first", "u32", 20, range="span"), sm.field("second", ".outer.Colour"),
                      sm.field("third", "u8", 7, consts=[".outer.inner.KONST"], optional=".outer.LIMIT")),
            sm.struct("away", "Part", sm.field("only", "i8")),
            sm.archive("away", "Below", sm.resource("blob", "raw")),
            sm.archive("outer", "Root", sm.resource("things", "vector", ".outer.inner.Thing", erefs=[[".outer.inner.Thing", "third", ".outer.Root.lists"]]),
                       sm.resource("lists", "multivector", ".away.Part", width=9, optional=True), sm.resource("one", "instance", ".away.Part"),
                       sm.resource("below", "archive", ".away.Below"), bound=[["both", [".outer.Root.things", ".outer.Root.one"]]])]
    for old in sm.identifiers(base):
        for new in sm.ODD_NAMES + sorted(sm.identifiers(base)) if thorough else sm.ODD_QUICK:
            yield sm.renamed(base, old, new)


def styles(m, thorough):
    n = len(m)
    S = sm.Style
    out = [("local names", S(local=True)), ("merged namespaces", S(merged=True)), ("comments", S(comments=True)),
           ("newlines", S(space="\n\t ")), ("hex", S(hexa=True)), ("explicit widths", S(explicit_width=True)),
           ("all", S(True, True, True, "  \n", True, True, True))]
    # the constants keep their order: it is the order of the constants that belong to every archive
    orders = [tuple(reversed(range(n)))] + [tuple(range(i, n)) + tuple(range(i)) for i in range(1, n)][:None if thorough else 2]
    if thorough and n <= 6:
        orders = list(itertools.permutations(range(n)))[1:]
    consts = [i for i, d in enumerate(m) if d["k"] == "const"]
    fixed = []
    for o in orders:
        queue = list(consts)
        fixed.append(tuple(queue.pop(0) if i in consts else i for i in o))
    orders = [o for o in dict.fromkeys(fixed) if o != tuple(range(n))]
    out += [("order %s" % (o,), S(order=o)) for o in orders]
    return out


UNRELATED = [sm.enum("u", "E", "u8", 1, ["A", "B"]), sm.struct("u", "S", sm.field("x", "i8")), sm.struct("u.n", "R", sm.field("x", ".u.E")),
             sm.archive("u", "R", sm.resource("v", "vector", ".u.S"))]


def sub_meaning(text, key):
    """Meaning of the item `key` according to the normalized text alone"""
    m = sm.parse(text)
    meaning = sm.Meaning(m)
    if key[0] == "struct":
        return meaning.struct(key[1])
    d = meaning.defs[key[1]]
    if key[0] == "archive":
        return meaning.archive(key[1])
    if [r["name"] for r in d["resources"]] != [key[2]]:
        raise KeyError("the archive has resources %s" % [r["name"] for r in d["resources"]])
    return meaning.resource(d, d["resources"][0], strict=False)


def check_model(m, thorough, evals, optional=False):
    text = sm.render(m)
    if optional and g.verdict(text)[0] == "syntax":
        return None
    schemas = g.py_schemas(text)
    meaning = sm.Meaning(m).items()
    if set(schemas) != set(meaning):
        return "items with stored schemas are %s" % sorted(set(schemas) ^ set(meaning))
    for key, schema in schemas.items():
        evals[0] += 1
        try:
            got = sub_meaning(schema, key)
        except (KeyError, sm.ParseError, AttributeError) as e:
            return "the schema of %s is not self-contained: %r\n%s" % (key, e, schema)
        want = meaning[key]
        if got != want:
            return "the schema of %s has another meaning\n%s\n%r\nexpected\n%r" % (key, schema, got, want)
        if key[0] == "resource":
            d = [x for x in m if sm.path(x) == key[1]][0]
            if [r for r in d["resources"] if r["name"] == key[2]][0]["erefs"]:
                continue
        kind, value = g.verdict(schema)
        if kind != "ok":
            return "the schema of %s is not accepted: %s\n%s" % (key, value, schema)
        again = g.py_schemas(schema)
        if again.get(key) != schema:
            return "normalizing the schema of %s again gives another text\n%s\n---\n%s" % (key, schema, again.get(key))
    for name, style in styles(m, thorough)[:None if thorough or not optional else 1]:
        evals[0] += 1
        other = sm.render(m, style)
        try:
            changed = g.py_schemas(other)
        except Exception as e:  # pylint: disable=broad-except
            return "%s: %r\n%s" % (name, e, other)
        for key in schemas:
            if schemas[key] != changed.get(key):
                return "style '%s' changes the schema of %s\n%s\n---\n%s\nof source\n%s" % (name, key, schemas[key], changed.get(key), other)
    for i in range(len(UNRELATED)) if thorough else (len(UNRELATED) - 1,):
        more = UNRELATED[: i + 1]
        for ms in (more + m, m + more)[:2 if thorough or not optional else 1]:
            evals[0] += 1
            changed = g.py_schemas(sm.render(ms))
            for key in schemas:
                if schemas[key] != changed.get(key):
                    return "unrelated definitions change the schema of %s\n%s\n---\n%s" % (key, schemas[key], changed.get(key))
    return None


def job(case):
    family, index, thorough = case
    m = MODELS[family][index]
    evals = [0]
    try:
        msg = check_model(m, thorough, evals, family == "names")
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        msg = "crash: %s" % traceback.format_exc()
    return msg and "%s\nsource: %s" % (msg, sm.render(m))


MODELS = {}


def body(check):
    check.rule = ("every schema of the families: structures of 1-2 fields over 11 kinds of fields; archives with every subset of "
                  "8 kinds of resources; 6 definitions placed in every combination of namespaces; every identifier of a schema replaced by each of 15 (thorough: 42) odd names; each written in 7 styles and "
                  "all rotations of the definitions, with and without unrelated definitions")
    check.assumptions = ["meaning is computed by lib/schemamodel.py (own parser, own layout); trusted",
                         "a resource with explicit references names other resources, its schema alone is not parsed by the generator again",
                         "constants no structure references belong to every archive"]
    for name, fam in (("struct", struct_family), ("archive", archive_family), ("namespace", namespace_family), ("names", name_family)):
        MODELS[name] = list(fam(check.thorough))
    cases = [(f, i, check.thorough) for f in MODELS for i in range(len(MODELS[f]))]
    n = g.run_sharded(check, cases, job, shards=16)
    check.extra["distinct_nontrivial"] = n
    check.extra["families"] = {f: len(v) for f, v in MODELS.items()}
    for f in MODELS:
        check.sample(sm.render(MODELS[f][len(MODELS[f]) // 2])[:700])


vlib.run_check(vlib.Check("P16", "exploration"), body)
