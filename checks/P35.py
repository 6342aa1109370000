"""P35: the dot back end draws exactly the schema: its output is read by Graphviz and compared with the meaning of the schema."""
import itertools
import json
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import genlib as g
import schemamodel as sm
from schemamodel import const, enum, struct, field, archive, resource, path

KINDS = {"raw": "RawData", "instance": "Instance", "vector": "Vector", "multivector": "Multivector", "archive": "Archive"}
SPACES = ["n", "n.m", "nm", "n.n", "m", "m.n", "n.nm", "mn", "nmn"]


# ---- what has to be drawn ------------------------------------------------------------------------
def meaning(m):
    """({(archive, resource): (kind, optional, [structures])}, {edges}) of a model"""
    mean = sm.Meaning(m)
    archives, edges = {}, []
    for p, d in mean.defs.items():
        if d["k"] != "archive":
            continue
        owners = {}
        for name, refs in d["bound"]:
            for r in refs:
                owners.setdefault(mean.find_resource(d, r), []).append(name)
        shapes = {}
        for r in d["resources"]:
            shapes[r["name"]] = [("index", r["width"])] if r["kind"] == "multivector" else []
            if r["kind"] != "archive":
                shapes[r["name"]] += [mean.find(d, a, "struct") for a in r["args"]]
            if p + "." + r["name"] not in owners:
                archives[p, r["name"]] = (KINDS[r["kind"]], bool(r["optional"]), shapes[r["name"]])
        for name, refs in d["bound"]:
            all_of = []
            for r in refs:
                all_of += [s for s in shapes[mean.find_resource(d, r).rpartition(".")[2]] if s not in all_of]
            archives[p, name] = ("BoundResource", False, all_of)
        for r in d["resources"]:
            for s, f, dest in r["erefs"]:
                sp = mean.find(d, s, "struct")
                dp = mean.find_resource(d, dest)
                da, _, dr = dp.rpartition(".")
                targets = [b[0] for b in mean.defs[da]["bound"] if dp in [mean.find_resource(mean.defs[da], x) for x in b[1]]] or [dr]
                for o in owners.get(p + "." + r["name"], [r["name"]]):
                    edges += [((p, o, sp, f), (da, t)) for t in targets]
    return mean, archives, edges


def type_forms(mean, d, t):
    """ways to write a type in a structure: relative to its namespace or complete"""
    if t in sm.WIDTH:
        return {t}, sm.WIDTH[t]
    p = mean.find(d, t, "enum")
    own = "." + d["ns"] + "."
    forms = {p[1:]}
    if p.startswith(own):
        # unless it reads as another enumeration
        forms = {p[len(own):], p[1:]}
    return forms, mean.enum(p)[2]


# ---- what is drawn -------------------------------------------------------------------------------
def html(label):
    return ET.fromstring("<r>" + label.replace("&nbsp;", " ") + "</r>")


def table(label):
    """(name of the structure, [(field, type, width, port)])"""
    t = html(label).find("table")
    rows = t.findall("tr")
    out = []
    for row in rows[1:]:
        td = row.find("td")
        parts = "".join(td.itertext()).strip().split(":")
        out.append((parts[0], parts[1], parts[2], td.get("port")) if len(parts) == 3 else ("?", "".join(parts), "", td.get("port")))
    return "".join(rows[0].itertext()).strip(), out


def drawn(text):
    r = subprocess.run(["dot", "-Tdot_json"], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode or r.stderr:
        return None, "Graphviz: %s" % r.stderr[:1000]
    j = json.loads(r.stdout)
    subs = j.get("_subgraph_cnt", 0)
    objects = {o["_gvid"]: o for o in j.get("objects", ())}
    parent = {}
    for o in objects.values():
        for s in o.get("subgraphs", ()):
            parent.setdefault(s, []).append(o["_gvid"])
    chain, resources, archives, where = {}, {}, set(), {}
    clusters = [o for o in objects.values() if o["_gvid"] < subs]
    for o in clusters:
        x, names = o, []
        while x is not None:
            names.insert(0, [s for s in html(x["label"]).itertext()])
            up = parent.get(x["_gvid"], [])
            if len(up) > 1:
                return None, "%s is drawn in several places" % x["name"]
            x = objects[up[0]] if up else None
        chain[o["_gvid"]] = names
    for o in clusters:
        names = chain[o["_gvid"]]
        if o.get("subgraphs") or len(names[-1]) < 2:
            if o.get("color") and o.get("fillcolor") == "#EBF8FF":
                archives.add("." + ".".join(n[0] for n in names))
            continue
        owner = "." + ".".join(n[0] for n in names[:-1])
        nodes = [objects[k] for k in o.get("nodes", ())]
        if len(names[-1]) not in (2, 3):
            return None, "label %r" % (names[-1],)
        if (owner, names[-1][0]) in resources:
            return None, "%s.%s is drawn twice" % (owner, names[-1][0])
        tables = []
        for node in nodes:
            if node["_gvid"] in where:
                return None, "%s belongs to two resources" % node["name"]
            where[node["_gvid"]] = (owner, names[-1][0])
            if node.get("style") != "invisible":
                tables.append((node["_gvid"], table(node["label"])))
        if not nodes:
            return None, "%s.%s is empty" % (owner, names[-1][0])
        resources[owner, names[-1][0]] = (names[-1][1], names[-1][2:] == ["optional"], tables)
    loose = [o["name"] for o in objects.values() if o["_gvid"] >= subs and o["_gvid"] not in where]
    if loose:
        return None, "%s drawn outside of resources" % loose
    edges = [(e["tail"], e.get("tailport"), e["head"], e.get("lhead")) for e in j.get("edges", ())]
    return (archives, resources, edges, where, {o["_gvid"]: o["name"] for o in clusters}, chain), None


def compare(m, text):
    mean, resources, edges = meaning(m)
    got, error = drawn(text)
    if error:
        return error
    got_archives, got_resources, got_edges, where, cluster_names, chain = got
    if got_archives != {p for p, d in mean.defs.items() if d["k"] == "archive"}:
        return "archives %s" % sorted(got_archives)
    if set(got_resources) != set(resources):
        return "resources %s instead of %s" % (sorted(got_resources), sorted(resources))
    ports = {}
    for key, (kind, optional, structs) in resources.items():
        gkind, goptional, tables = got_resources[key]
        if (gkind, goptional) != (kind, optional):
            return "%s: %s %s instead of %s %s" % (key, gkind, goptional, kind, optional)
        if len(tables) != len(structs):
            return "%s: %d structures instead of %d" % (key, len(tables), len(structs))
        for (gvid, (name, fields)), s in zip(tables, structs):
            if s[0] == "index":
                if [(f[0], f[1], f[2]) for f in fields] != [("value", "u64", str(s[1]))]:
                    return "%s: index %s" % (key, fields)
                continue
            d = mean.defs[s]
            if name != d["name"] or [f[0] for f in fields] != [f["name"] for f in d["fields"]]:
                return "%s: structure %s %s instead of %s" % (key, name, [f[0] for f in fields], s)
            for f, (_n, t, w, port) in zip(d["fields"], fields):
                forms, width = type_forms(mean, d, f["type"])
                if t not in forms or w != str(width if f["width"] is None else f["width"]):
                    return "%s: field %s of %s is %s : %s instead of %s : %s" % (key, f["name"], s, t, w, "/".join(sorted(forms)), width if f["width"] is None else f["width"])
                if (gvid, port) in ports:
                    return "two fields with port %s" % port
                ports[gvid, port] = (key[0], key[1], s, f["name"])
    names = {".".join(n[0] for n in c): cluster_names[k] for k, c in chain.items()}
    want = sorted(edges)
    have = []
    for tail, port, head, lhead in got_edges:
        if (tail, port) not in ports:
            return "an edge starts at no field (%s)" % port
        target = where.get(head)
        if lhead is not None and lhead != names.get((target[0] + "." + target[1])[1:]):
            return "an edge to %s ends at cluster %s" % (target, lhead)
        have.append((ports[tail, port], target))
    if sorted(have) != want:
        return "references %s instead of %s" % (sorted(have), want)
    return None


# ---- schemas -------------------------------------------------------------------------------------
def every(thorough):
    """(name, model)"""
    def spaces(n):
        return itertools.permutations(SPACES, n)
    base = [("bool", None), ("u8", None), ("u8", 3), ("i8", 8), ("u16", 15), ("i16", None), ("u32", 1), ("i32", 31), ("u64", None), ("i64", 64), ("u64", 33)]
    # types and widths of fields
    for n in (1, 2):
        for pick in itertools.product(base, repeat=n):
            fields = [field("f%d" % i, t, w) for i, (t, w) in enumerate(pick)]
            yield "fields %s" % ",".join("%s:%s" % x for x in pick), [struct("n", "S", *fields), archive("n", "A", resource("r", "vector", "S"))]
    yield "decorated fields", [const("n", "C", "u8", 3), const("n", "D", "u8", 4), struct("n", "S", field("a", "u8", 3, range="ar"), field("b", "u8", consts=["C"]), field("c", "u8", optional="D")),
                               archive("n", "A", resource("r", "vector", "S"))]
    # enumerations of one namespace in structures of another, used in archives of a third
    for a in SPACES:
        for b in SPACES:
            for c in SPACES if thorough else {a, b, "n"}:
                for t, w in (("u8", None), ("i16", 2), ("u32", 1)):
                    yield "enumeration of %s in %s drawn in %s %s %s" % (a, b, c, t, w), [
                        enum(a, "E", t, w, [("V%d" % i, None) for i in range(1 << (w or 8))] if w is None and t == "u8" else [("V0", 0), ("V1", 1 if t[0] == "u" else -1)]),
                        struct(b, "S", field("x", "u8", 1), field("e", ".%s.E" % a), field("y", "u64")),
                        archive(c, "A", resource("r", "instance", ".%s.S" % b))]
    # an enumeration of the same name in every namespace, all used in a structure of each
    small = [enum(s, "E", "u8", i % 7 + 1, [("X", 0), ("Y", 1)]) for i, s in enumerate(SPACES)]
    for a in SPACES:
        yield "enumerations of all namespaces in %s" % a, small + [struct(a, "S", *[field("f%d" % i, ".%s.E" % s) for i, s in enumerate(SPACES)]), archive(a, "A", resource("r", "vector", "S"))]
    # kinds of resources, their structures anywhere
    for kinds in itertools.chain.from_iterable(itertools.product(KINDS, repeat=k) for k in (1, 2, 3)):
        options = itertools.product((False, True), repeat=len(kinds)) if len(kinds) < 3 or thorough else [(False,) * len(kinds), (True,) * len(kinds)]
        for opt in options:
            m = [struct("n.m", "S", field("a", "u8")), struct("n", "S", field("b", "u16", 9), field("c", "i8")), struct("nm", "T", field("d", "bool")), archive("m", "Z", resource("raw", "raw"))]
            rs = []
            for i, k in enumerate(kinds):
                args = {"raw": [], "instance": [".n.S"], "vector": [".n.m.S"], "multivector": [".n.S", ".nm.T", ".n.m.S"][i:], "archive": [".m.Z"]}[k]
                rs.append(resource("r%d" % i, k, *args, width=(33, 16, 60)[i] if k == "multivector" else None, optional=opt[i]))
            yield "resources %s %s" % (",".join(kinds), "".join("01"[o] for o in opt)), m + [archive("n.m", "A", *rs)]
    # multivectors: widths, numbers of types
    for w in list(range(1, 65)):
        yield "index of width %d" % w, [struct("n", "S", field("a", "u8")), archive("n", "A", resource("r", "multivector", "S", width=w), resource("s", "multivector", "S", width=65 - w))]
    # explicit references: every kind and place of origin and destination
    def targets():
        return [resource("tr", "raw"), resource("ti", "instance", "S"), resource("tv", "vector", "S"), resource("tm", "multivector", "S", "T", width=20), resource("ta", "archive", "O")]
    other = [struct("n", "S", field("x", "u8"), field("y", "u32", 20)), struct("n", "T", field("x", "u16"), field("w", "u32"))]
    for kind in ("instance", "vector", "multivector"):
        args = {"instance": ["S"], "vector": ["S"], "multivector": ["T", "S"]}[kind]
        for owner in ("", ".n.O."):
            for dest in ("tr", "ti", "tv", "tm", "ta", "o"):
                if dest == "ta" and owner:
                    continue
                for fld in ("x", "y"):
                    origin = resource("o", kind, *args, width=17 if kind == "multivector" else None)
                    for bound in ([], [("bb", ["o"])], [("bb", ["o", "p"])], [("bb", ["tr", "tv"])], [("bb", ["o", "tm"]), ("bc", ["o", "tr", "ti"])], [("bb", ["tv", "ti"]), ("bc", ["tv", "o"])]):
                        o = sm.clone(origin)
                        o["erefs"] = [["S", fld, owner + dest if owner else dest]]
                        ours = [o, resource("p", "vector", "T")] + targets()
                        theirs = [resource("o", "vector", "T")] + [r for r in targets() if r["name"] != "ta"]
                        yield "reference %s.%s -> %s%s bound %s" % (kind, fld, owner, dest, ";".join("%s:%s" % (b, ",".join(r)) for b, r in bound)), other + [
                            archive("n", "O", *theirs, bound=[("ob", ["tv", "tr"])] if len(bound) > 1 else ()), archive("n", "A", *ours, bound=bound)]
    # several references
    for picks in itertools.product([None, "tr", "ti", "tv", "tm", "o"], repeat=3):
        erefs = [[s, f, d] for (s, f), d in zip((("S", "x"), ("S", "y"), ("T", "x")), picks) if d]
        yield "references %s" % ",".join(map(str, picks)), other + [archive("n", "O", resource("x", "raw")), archive("n", "A", resource("o", "multivector", "T", "S", width=9, erefs=erefs), *targets())]
    # everything that is bound
    names = ["tr", "ti", "tv", "tm"]
    for n in range(1, 5):
        for pick in itertools.permutations(names, n):
            yield "bound %s" % ",".join(pick), other + [archive("n", "O", resource("x", "raw")), archive("n", "A", *targets(), bound=[("b", list(pick))])]
            yield "bound %s and b0" % ",".join(pick), other + [archive("n", "O", resource("x", "raw")), archive("n", "A", *targets(), bound=[("b", list(pick)), ("b0", ["tv"])])]
    # archives of the same name everywhere, archives in archives
    for a, b in spaces(2):
        yield "archives of %s and %s" % (a, b), [struct(a, "S", field("x", "u8")), struct(b, "S", field("y", "i8")), archive(a, "A", resource("r", "vector", "S"), resource("s", "vector", ".%s.S" % b)),
                                                 archive(b, "A", resource("r", "vector", "S"), resource("s", "archive", ".%s.A" % a))]
    # words of the language of Graphviz, and of HTML, as names
    for w in ("node", "edge", "graph", "digraph", "subgraph", "strict", "Node", "cluster", "table", "b", "i", "br", "label", "port", "n", "_", "x__y", "amp"):
        yield "named %s" % w, [struct(w, w, field(w, "u8"), field("q", "u16")), archive(w, w + "A", resource(w, "vector", ".%s.%s" % (w, w), erefs=[[".%s.%s" % (w, w), w, w]]), resource("i", "instance", ".%s.%s" % (w, w)) if w != "i" else resource("j", "raw"))]
    # known: names that differ only in where their underscores are
    yield "known: archives A_B and A", [struct("n", "S", field("x", "u8")), archive("n", "A_B", resource("c", "vector", "S")), archive("n", "A", resource("B_c", "vector", "S"))]


class Job:
    def __call__(self, part):
        vlib.repo_on_path()
        g.cache_templates()
        from flatdata.generator.engine import Engine
        out = []
        for name, m in part:
            text = sm.render(m)
            try:
                code = Engine(text).render("dot")
            except Exception as e:  # pylint: disable=broad-except
                out.append((name, "raises %r for %s" % (e, text), 0))
                continue
            bad = compare(m, code)
            out.append((name, bad and bad + "\n" + text, hash(re.sub(r"\s+", " ", code))))
        return out


def body(check):
    check.rule = "schemas of all combinations of namespaces, fields, kinds, bindings and references, drawn and read by Graphviz; distinct: drawings"
    check.assumptions = ["the Graphviz of the sandbox defines the language", "order of drawing, colours and fonts are not judged", "a type may be given relative to the namespace of its structure"]
    cases = [c for c in every(check.thorough) if check.wants(c[0])]
    for result in vlib.parallel(Job(), [cases[i::32] for i in range(32) if cases[i::32]]):
        for name, bad, code in result:
            check.count()
            check.nontrivial(code)
            if bad:
                check.fail(name, bad)
    check.sample("bound tv,ti: one box for both resources, edges start and end there")
    check.sample("enumeration of nm in n: the field shows nm.E")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P35", "exploration"), body)
