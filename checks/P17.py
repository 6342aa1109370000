"""P17: over a base schema with every construct and all single and pairwise semantic edits, the stored schema of an
archive, resource or structure determines its meaning; the schemas embedded for C++, Rust and Go are the same ones."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import genlib as g
import literals
import schemamodel as sm


def base(enums=True):
    e = [sm.enum("n", "E", "i8", 2, [("A", -1), ("B", 0), ("K", -2)]), sm.enum("n", "F", "u8", 1, ["X", "Y"])] if enums else []
    ef = [sm.field("e", ".n.E")] if enums else [sm.field("e", "i8", 2)]
    return [sm.const("n", "C", "u8", 3), sm.const("n", "D", "u8", 4), sm.const("n", "G", "i16", -5)] + e + [
        sm.struct("n", "S", sm.field("a", "u8", 3, consts=[".n.C"]), *ef, sm.field("c", "u8", 7, optional=".n.D"), sm.field("d", "u8", 4)),
        sm.struct("n", "T", sm.field("x", "u32", 20, range="rg"), sm.field("y", "i64", 33)),
        sm.struct("n", "U", sm.field("k", "u16"), sm.field("b", "bool")),
        sm.archive("n", "Leaf", sm.resource("d", "raw"), sm.resource("D", "instance", ".n.U", optional=True)),
        sm.archive("n", "R", sm.resource("i", "instance", ".n.S"), sm.resource("v", "vector", ".n.T", optional=True),
                   sm.resource("w", "vector", ".n.S", erefs=[[".n.S", "a", ".n.R.v"], [".n.S", "c", ".n.R.w"]]),
                   sm.resource("V", "vector", ".n.U"),
                   sm.resource("m", "multivector", ".n.S", ".n.U", width=33),
                   sm.resource("raw", "raw"), sm.resource("z", "archive", ".n.Leaf", optional=True),
                   bound=[["b", [".n.R.v", ".n.R.w"]]])]


ODD = sm.ODD_QUICK


def edits(m):
    """[(name, function(model))]: every single semantic edit. The functions tolerate models edited before."""
    out = []

    def add(name, fn):
        out.append((name, fn))

    def d_of(ms, name):
        return [d for d in ms if d["name"] == name][0]

    def part(ms, dn, kind, name):
        return [x for x in d_of(ms, dn)[kind] if x["name"] == name][0]

    for d in m:
        dn, k = d["name"], d["k"]
        if k == "const":
            for v in {d["value"] + 1, d["value"] - 1, 0}:
                add("%s = %d" % (dn, v), lambda ms, dn=dn, v=v: d_of(ms, dn).update(value=v))
            for t in ("u8", "i8", "i16", "u16", "u64"):
                if t != d["type"]:
                    add("%s : %s" % (dn, t), lambda ms, dn=dn, t=t: d_of(ms, dn).update(type=t))
            add("remove " + dn, lambda ms, dn=dn: ms.remove(d_of(ms, dn)))
        elif k == "enum":
            for i in range(len(d["values"])):
                add("%s value %d renamed" % (dn, i), lambda ms, dn=dn, i=i: d_of(ms, dn)["values"][i].__setitem__(0, "Q%d" % i))
                for odd in ODD:
                    add("%s value %d is %s" % (dn, i, odd), lambda ms, dn=dn, i=i, odd=odd: d_of(ms, dn)["values"][i].__setitem__(0, odd))
                for v in (-2, -1, 0, 1):
                    add("%s value %d = %d" % (dn, i, v), lambda ms, dn=dn, i=i, v=v: d_of(ms, dn)["values"][i].__setitem__(1, v))
            add("%s without last value" % dn, lambda ms, dn=dn: d_of(ms, dn)["values"].pop())
            add("%s with new value" % dn, lambda ms, dn=dn: d_of(ms, dn)["values"].append(["N", 1]))
            add("%s two values swapped" % dn, lambda ms, dn=dn: (lambda v: (lambda a, b: (v[0].__setitem__(0, b), v[1].__setitem__(0, a)))(v[0][0], v[1][0]))(d_of(ms, dn)["values"]))
            for w in (1, 2, 3, 8, None):
                if w != d["width"]:
                    add("%s width %s" % (dn, w), lambda ms, dn=dn, w=w: d_of(ms, dn).update(width=w))
            for t in ("i8", "u8", "i16", "u64"):
                if t != d["type"]:
                    add("%s : %s" % (dn, t), lambda ms, dn=dn, t=t: d_of(ms, dn).update(type=t))
        elif k == "struct":
            for f in d["fields"]:
                fn = f["name"]
                get = lambda ms, dn=dn, fn=fn: part(ms, dn, "fields", fn)
                add("%s.%s renamed" % (dn, fn), lambda ms, get=get: get(ms).update(name="renamed"))
                for odd in ODD:
                    add("%s.%s is %s" % (dn, fn, odd), lambda ms, get=get, odd=odd: get(ms).update(name=odd))
                for t in ("u8", "i8", "u16", "u32", "i64", "bool", ".n.E", ".n.F"):
                    if t != f["type"]:
                        add("%s.%s : %s" % (dn, fn, t), lambda ms, get=get, t=t: get(ms).update(type=t))
                        add("%s.%s : %s any width" % (dn, fn, t), lambda ms, get=get, t=t: get(ms).update(type=t, width=None))
                for w in {(f["width"] or 1) - 1, (f["width"] or 1) + 1, None, 1}:
                    if w != f["width"]:
                        add("%s.%s width %s" % (dn, fn, w), lambda ms, get=get, w=w: get(ms).update(width=w))
                for r in (None, "rg", "other"):
                    if r != f["range"]:
                        add("%s.%s range %s" % (dn, fn, r), lambda ms, get=get, r=r: get(ms).update(range=r))
                for c in ([], [".n.C"], [".n.D"], [".n.C", ".n.D"], [".n.G"]):
                    if c != f["consts"]:
                        add("%s.%s consts %s" % (dn, fn, c), lambda ms, get=get, c=c: get(ms).update(consts=list(c)))
                for o in (None, ".n.C", ".n.D", ".n.G"):
                    if o != f["optional"]:
                        add("%s.%s optional %s" % (dn, fn, o), lambda ms, get=get, o=o: get(ms).update(optional=o))
                add("%s.%s removed" % (dn, fn), lambda ms, get=get, dn=dn: d_of(ms, dn)["fields"].remove(get(ms)))
            for i in range(len(d["fields"]) - 1):
                add("%s fields %d swapped" % (dn, i), lambda ms, dn=dn, i=i: (lambda f: f.insert(i, f.pop(i + 1)))(d_of(ms, dn)["fields"]))
            for i in range(len(d["fields"]) + 1):
                add("%s new field at %d" % (dn, i), lambda ms, dn=dn, i=i: d_of(ms, dn)["fields"].insert(i, sm.field("new", "u8", 2)))
        else:
            for r in d["resources"]:
                rn = r["name"]
                get = lambda ms, dn=dn, rn=rn: part(ms, dn, "resources", rn)
                add("%s.%s renamed" % (dn, rn), lambda ms, get=get: get(ms).update(name="renamed"))
                for odd in ODD:
                    add("%s.%s is %s" % (dn, rn, odd), lambda ms, get=get, odd=odd: get(ms).update(name=odd))
                for kind, args, w in (("raw", [], None), ("instance", [".n.S"], None), ("instance", [".n.U"], None),
                                      ("vector", [".n.S"], None), ("vector", [".n.T"], None), ("vector", [".n.U"], None),
                                      ("multivector", [".n.S"], 33), ("multivector", [".n.U", ".n.S"], 33),
                                      ("multivector", [".n.S", ".n.U"], 33), ("multivector", [".n.S", ".n.U"], 32),
                                      ("multivector", [".n.S", ".n.U"], 8), ("archive", [".n.Leaf"], None)):
                    if dn == "Leaf" and kind == "archive":
                        continue
                    if (kind, args, w) != (r["kind"], r["args"], r["width"]):
                        add("%s.%s : %s %s %s" % (dn, rn, kind, w, args), lambda ms, get=get, x=(kind, args, w): get(ms).update(
                            kind=x[0], args=list(x[1]), width=x[2]))
                add("%s.%s optional flipped" % (dn, rn), lambda ms, get=get: get(ms).update(optional=not get(ms)["optional"]))
                if r["kind"] in ("vector", "multivector", "instance") and r["args"][0] == ".n.S":
                    for er in ([], [[".n.S", "a", ".n.R.v"]], [[".n.S", "a", ".n.R.w"]], [[".n.S", "d", ".n.R.v"]],
                               [[".n.S", "c", ".n.R.w"]], [[".n.S", "a", ".n.R.w"], [".n.S", "c", ".n.R.v"]], [[".n.S", "a", ".n.R.raw"]]):
                        if er != r["erefs"]:
                            add("%s.%s references %s" % (dn, rn, er), lambda ms, get=get, er=er: get(ms).update(erefs=[list(x) for x in er]))
                add("%s.%s removed" % (dn, rn), lambda ms, get=get, dn=dn: d_of(ms, dn)["resources"].remove(get(ms)))
            for b in ([], [["b", [".n.R.v", ".n.R.V"]]], [["c", [".n.R.v", ".n.R.w"]]], [["b", [".n.R.v"]]]):
                if dn == "R":
                    add("bound %s" % b, lambda ms, b=b: d_of(ms, "R").update(bound=sm.clone(b)))
    return out


BASE = base()
EDITS = edits(BASE)


def model_of(combo):
    m = sm.clone(BASE)
    for e in combo:
        EDITS[e][1](m)
    return m


def describe(combo):
    return "; ".join(EDITS[e][0] for e in combo) or "unchanged"


def job(combos):
    """-> (accepted, rejected, [(schema, meaning digest, combo, key)], failures)"""
    vlib.repo_on_path()
    g.cache_templates()
    out, bad, ok, rejected = {}, [], 0, 0
    for combo in combos:
        try:
            m = model_of(combo)
        except (IndexError, ValueError):
            continue        # the second edit has nothing to apply to
        text = sm.render(m)
        kind, _ = g.verdict(text)
        if kind == "syntax":
            rejected += 1
            continue
        try:
            meaning = sm.Meaning(m).items()
        except (KeyError, IndexError) as e:
            bad.append((describe(combo), "accepted although inconsistent: %r\n%s" % (e, text)))
            continue
        ok += 1
        try:
            schemas = g.py_schemas(text)
        except Exception as e:  # pylint: disable=broad-except
            bad.append((describe(combo), "the schemas of the accepted source cannot be generated: %r\n%s" % (e, text)))
            continue
        for key, schema in schemas.items():
            value = repr(meaning[key])
            if out.setdefault((key[0], schema), (value, combo, key))[0] != value:
                bad.append((describe(combo), "same stored schema as after '%s' for %s, but the meaning differs\n%s\n%s\n%s" % (
                    describe(out[(key[0], schema)][1]), key, schema, value, out[(key[0], schema)][0])))
        if len(bad) > 3:
            break
    return ok, rejected, out, bad


def embedded(combo):
    """the schemas in C++, Rust and Go are those in Python"""
    m = model_of(combo)
    text = sm.render(m)
    if g.verdict(text)[0] != "ok":
        return None
    schemas = g.py_schemas(text)
    expected = set(schemas.values())
    needed = {s for k, s in schemas.items() if k[0] != "struct"}
    from flatdata.generator.engine import Engine
    e = Engine(text)
    for gen in ("cpp", "rust", "go"):
        if gen == "go" and " enum " in " " + text:
            continue
        got = [x for x in literals.literals(e.render(gen), gen) if x.lstrip().startswith("namespace ")]
        archives = {(sm.path(d), r["name"]) for d in m if d["k"] == "archive" for r in d["resources"] if r["kind"] == "archive"}
        # Go opens subarchives without checking a schema of their own
        need = needed if gen != "go" else {s for k, s in schemas.items() if k[0] == "resource" and k[1:] not in archives}
        if gen == "go":
            expected_go = {x.strip() for x in expected}
            need = {x.strip() for x in need}
            got = [x.strip() for x in got]
            if set(got) - expected_go or need - set(got):
                return "go embeds other schemas: %s, not %s" % (set(got) - expected_go, need - set(got))
            continue
        builtin = {x for x in got if "_builtin" in x or "IndexType" in x}
        if set(got) - expected - builtin or need - set(got):
            return "%s embeds other schemas: %s, not %s" % (gen, set(got) - expected, need - set(got))
    return None


def body(check):
    global BASE, EDITS, ODD
    if check.thorough:
        ODD = sm.ODD_NAMES
        EDITS = edits(BASE)
    check.rule = ("base schema with every construct; all single edits of any attribute and all pairs (quick: of one member) (rejected results and "
                  "edits without target do not count); meaning per stored schema must be unique over the whole family")
    check.assumptions = ["meaning is computed by lib/schemamodel.py from the source model"]
    n = len(EDITS)
    combos = [()] + [(i,) for i in range(n)]
    pairs = list(itertools.combinations(range(n), 2))
    odd = {i for i, e in enumerate(EDITS) if e[0].split(" is ")[-1] in ODD}
    pairs = [p for p in pairs if not odd & set(p)]      # odd names: single edits only
    if not check.thorough:
        # quick tier: pairs of edits of one member (field, resource, constant, enumeration) only
        pairs = [p for p in pairs if EDITS[p[0]][0].split(" ")[0] == EDITS[p[1]][0].split(" ")[0]]
    combos += pairs
    if check.only is not None:
        combos = [c for c in combos if describe(c) == check.only] or combos
    shards = 32
    total, rejected, seen = 0, 0, {}
    for ok, rej, out, bad in vlib.parallel(job, [combos[i::shards] for i in range(shards)]):
        total += ok
        rejected += rej
        for case, msg in bad:
            check.fail(case, msg)
        for (kind, schema), (value, combo, key) in out.items():
            other = seen.setdefault((kind, schema), (value, combo, key))
            if other[0] != value:
                check.fail(describe(combo), "same stored schema as after '%s' for %s, but the meaning differs\n%s\n%s\n%s" % (
                    describe(other[1]), key, schema, value, other[0]))
    check.count(total)
    lang = [()] + [(i,) for i in range(n) if check.thorough or i not in odd]
    g.run_sharded(check, lang if check.only is None else [], embedded)
    BASE = base(enums=False)
    EDITS = edits(BASE)
    lang2 = [()] + [(i,) for i in range(len(EDITS)) if check.thorough or EDITS[i][0].split(" is ")[-1] not in ODD]
    g.run_sharded(check, lang2 if check.only is None else [], embedded)
    check.extra.update({"single_edits": n, "pairs": len(pairs), "accepted": total, "rejected": rejected,
                        "distinct_stored_schemas": len(seen), "languages_compared_on": len(lang) + len(lang2),
                        "distinct_nontrivial": len(seen)})
    check.sample("edits: " + "; ".join(e[0] for e in EDITS[::40]))
    for kind, schema in list(seen)[:: max(1, len(seen) // 3)]:
        check.sample("%s: %s" % (kind, schema[:300]))


vlib.run_check(vlib.Check("P17", "exploration"), body)
