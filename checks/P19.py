"""P19: references and decorations - every reference graph between archives, every kind of target for every kind of
reference, every combination of decorations is accepted exactly if an independent decision procedure accepts it."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import genlib as g


def acyclic(n, edges):
    order, left = [], set(range(n))
    while left:
        free = [x for x in left if not any((x, y) in edges for y in left)]
        if not free:
            return False
        left -= set(free)
    return True


def graphs(thorough):
    """archives referencing archives: all digraphs"""
    for n in (1, 2, 3):
        pairs = list(itertools.product(range(n), repeat=2))
        for mask in range(1 << len(pairs)):
            edges = {p for i, p in enumerate(pairs) if mask >> i & 1}
            text = ["archive A%d { %s }" % (i, " ".join("r%d : archive A%d;" % (j, j) for (a, j) in sorted(edges) if a == i))
                    for i in range(n)]
            yield ("graph", "namespace n { %s }" % " ".join(text), acyclic(n, edges))
            if n == 3 and mask % 5 and not thorough:
                continue
            yield ("graph optional", "namespace n { %s }" % " ".join(text).replace("r1", "@optional r1"), acyclic(n, edges))
            # in different namespaces, qualified, in reverse order
            text = ["namespace n%d { archive A { %s } }" % (i, " ".join("r%d : archive .n%d.A;" % (j, j) for (a, j) in sorted(edges) if a == i))
                    for i in reversed(range(n))]
            yield ("graph", " ".join(text), acyclic(n, edges))
    if thorough:
        pairs = list(itertools.product(range(4), repeat=2))
        for mask in range(1 << 16):
            edges = {p for i, p in enumerate(pairs) if mask >> i & 1}
            text = ["archive A%d { %s }" % (i, " ".join("r%d : archive A%d;" % (j, j) for (a, j) in sorted(edges) if a == i))
                    for i in range(4)]
            yield ("graph", "namespace n { %s }" % " ".join(text), acyclic(4, edges))
    # chains and rings of 4 and 5
    for n in (4, 5):
        for ring in (False, True):
            for perm in itertools.permutations(range(n)) if n == 4 else [tuple(range(n))]:
                text = ["archive A%d { %s }" % (i, "" if i == n - 1 and not ring else "r : archive A%d;" % ((i + 1) % n)) for i in perm]
                yield ("graph", "namespace n { %s }" % " ".join(text), not ring)


DEFS = ("const u8 K = 1; enum E : u8 : 1 { V, W } struct S { f : u8; } struct P { f : u8; } struct Rg { @range( r ) g : u32; h : u8; } "
        "archive L { d : raw_data; } archive O { x : raw_data; y : vector< S >; }")
TARGETS = {"K": "const", "E": "enum", "E.V": "value", "S": "struct", "P": "struct", "S.f": "field", "Rg": "rangestruct", "Rg.g": "field", "L": "archive",
           "L.d": "resource", "O.y": "resource", "Missing": None, "S.missing": None, "u8": "basic", "L.Missing": None}
# site: (text around the reference inside of namespace n, accepted kinds)
SITES = {
    "instance": ("archive X { p : %s; }", {"struct"}),
    "vector": ("archive X { p : vector< %s >; }", {"struct", "rangestruct"}),
    "multivector": ("archive X { p : multivector< 8, %s >; }", {"struct"}),
    "multivector2": ("archive X { p : multivector< 8, S, %s >; }", {"struct"}),
    "archive": ("archive X { p : archive %s; }", {"archive"}),
    "field": ("struct X { p : %s; }", {"enum", "basic"}),
    "const": ("struct X { @const( %s ) p : u8; }", {"const"}),
    "optional": ("struct X { @optional( %s ) p : u8; }", {"const"}),
    "reference destination": ("archive X { @explicit_reference( S.f, %s ) p : vector< S >; }", {"resource"}),
    "bound": ("@bound_implicitly( b : %s ) archive X { p : vector< S >; }", {"resource"}),
}


def kinds(thorough):
    for (site, (text, ok)), (target, kind) in itertools.product(SITES.items(), TARGETS.items()):
        if site == "reference destination" and kind == "archive":
            continue
        accepted = kind in ok
        if site == "multivector2" and target == "S":
            accepted = False    # repeated
        for ref in (target, ".n." + target):
            if kind == "basic" and ref != target:
                continue
            schemas = ["namespace n { %s %s }" % (DEFS, text % ref), "namespace n { %s %s }" % (text % ref, DEFS)]
            for s in schemas:
                yield ("target of " + site, s, accepted)
        if kind != "basic":
            # from another namespace only the qualified name is visible
            for ref, acc in ((target, False), (".n." + target, accepted), (".m." + target, False), ("n." + target, False)):
                own = text.replace("S.f", ".n.S.f").replace("< S >", "< .n.S >").replace(" S,", " .n.S,") % ref
                yield ("target of " + site, "namespace n { %s } namespace m { %s }" % (DEFS, own), acc)


def constants(thorough):
    """constants as invalid values or annotations: same type and fitting"""
    types = g.TYPES
    for t, ct in itertools.product(types, repeat=2):
        w = g.WIDTH[t]
        for width in sorted({1, 2, 3, 7, 8, w - 1, w} if thorough else {1, 3, w - 1, w}):
            if not 1 <= width <= w:
                continue
            lo, hi = g.value_range(t, width)
            clo, chi = g.value_range(ct, g.WIDTH[ct])
            for v in sorted({lo - 1, lo, hi, hi + 1, 0}):
                if not clo <= v <= chi:
                    continue
                if not thorough and t != ct and v not in (lo, hi):
                    continue
                for deco in ("const", "optional"):
                    ok = t == ct and lo <= v <= hi
                    yield ("constant of " + deco, "namespace n { const %s K = %d; struct S { a : i8 : 3; @%s( K ) f : %s : %d; } }" % (
                        ct, v, deco, t, width), ok)
    # enumerations have no constants
    yield ("constant of const", "namespace n { const u8 K = 0; enum E : u8 : 1 { A, B } struct S { @const( K ) f : E; } }", False)
    yield ("constant of optional", "namespace n { const u8 K = 0; enum E : u8 : 1 { A, B } struct S { @optional( K ) f : E; } }", False)
    # all sequences of up to two decorations
    decos = {"range": "@range( r )", "range2": "@range( q )", "const K": "@const( K )", "const L": "@const( L )", "opt K": "@optional( K )", "opt L": "@optional( L )"}
    for n in (0, 1, 2, 3):
        for combo in itertools.product(decos, repeat=n):
            ranges = sum(c.startswith("range") for c in combo)
            opts = sum(c.startswith("opt") for c in combo)
            ok = ranges <= 1 and opts <= 1 and not (ranges and opts)
            refs = [c[-1] for c in combo if not c.startswith("range")]
            if len(set(refs)) != len(refs):
                continue    # one constant in two decorations of a field: unspecified
            if ranges > 1:
                continue
            yield ("decorations", "namespace n { const u8 K = 1; const u8 L = 2; struct S { %s f : u8; } }" % " ".join(decos[c] for c in combo), ok)


def ranges(thorough):
    """names of ranges and fields, and where structures with ranges may be used"""
    names = ("a", "b", "r", "q")
    for r1, r2 in itertools.product((None,) + names, repeat=2):
        used = [r for r in (r1, r2) if r]
        ok = len(set(used)) == len(used) and not set(used) & {"a", "b"}
        yield ("range names", "namespace n { struct S { %sa : u32; %sb : u8; } archive A { v : vector< S >; } }" % (
            "@range( %s ) " % r1 if r1 else "", "@range( %s ) " % r2 if r2 else ""), ok)
        if used:
            for kind, fine in (("vector< S >", True), ("S", False), ("multivector< 8, S >", False), ("multivector< 8, P, S >", False)):
                for ref in ("S", ".n.S"):
                    yield ("range use", "namespace n { struct P { x : u8; } struct S { %sa : u32; %sb : u8; } archive A { p : vector< P >; v : %s; } }" % (
                        "@range( %s ) " % r1 if r1 else "", "@range( %s ) " % r2 if r2 else "", kind.replace("S", ref)), ok and fine)
    # two structures may use the same range name
    yield ("range names", "namespace n { struct S { @range( r ) a : u8; } struct T { @range( r ) a : u8; } }", True)
    for t in g.TYPES:
        yield ("range names", "namespace n { struct S { @range( r ) a : %s; } archive A { v : vector< S >; } }" % t, True)


def references(thorough):
    """explicit references: source structure, field, destination, repetition, notation"""
    defs = "struct S { f : u8; k : u16; } struct T { f : u32; } archive L { d : raw_data; }"
    sources = {"S": {"f", "k"}, "T": {"f"}, ".n.S": {"f", "k"}, ".n.T": {"f"}, "Missing": set(), "L": set()}
    dests = {"p": True, "q": True, "sub": True, "A.p": True, ".n.A.p": True, ".n.A.q": True, "L.d": True, ".n.L.d": True, "missing": False,
             ".n.A.missing": False, ".n.A": False, ".n.S": False, ".n.S.f": False, "S": False}
    for kind, types in (("vector< S >", {"S"}), ("S", {"S"}), ("multivector< 8, S, T >", {"S", "T"}), ("vector< .n.T >", {"T"}),
                        ("raw_data", set()), ("archive L", set())):
        for (src, fields), f, (dst, ok) in itertools.product(sources.items(), ("f", "k", "z"), dests.items()):
            good = ok and f in fields and src.split(".")[-1] in types
            yield ("explicit reference", "namespace n { %s archive A { @explicit_reference( %s.%s, %s ) p : %s; q : raw_data; sub : archive L; } }" % (
                defs, src, f, dst, kind), good)
    # two references of one resource: repeated ones are rejected in every notation
    spell_src, spell_dst = ("S.f", ".n.S.f", "S.k", "T.f", ".n.T.f"), ("q", "A.q", ".n.A.q", "p", ".n.A.p")
    options = list(itertools.product(spell_src, spell_dst))
    for x, y in itertools.combinations_with_replacement(options, 2):
        def norm(o):
            return o[0].replace(".n.", ""), o[1].split(".")[-1]
        yield ("two references", "namespace n { %s archive A { @explicit_reference( %s, %s ) @explicit_reference( %s, %s ) p : multivector< 8, S, T >; q : raw_data; } }" % (
            (defs,) + x + y), norm(x) != norm(y))
    # a resource of another archive
    for dst, ok in (("B.d", True), (".n.B.d", True), (".m.C.d", True), ("C.d", False), (".n.C.d", False), ("m.C.d", False)):
        yield ("other archive", "namespace n { %s archive A { @explicit_reference( S.f, %s ) p : vector< S >; } archive B { d : raw_data; } } namespace m { archive C { d : raw_data; } }" % (
            defs, dst), ok)


def homonyms(thorough):
    """definitions of the same names in two namespaces: every notation refers to one of them"""
    def defs(kind):
        return "struct S { f : u8; %s : u8; } enum E : u8 : 1 { V, W } const u8 K = 1; archive L { d : raw_data; %s : raw_data; }" % (kind, kind)
    spell = {"S": "n", ".n.S": "n", ".m.S": "m"}
    for used, named in itertools.product([("S",), (".n.S",), (".m.S",), ("S", ".m.S"), (".m.S", ".n.S")], spell):
        for field in ("f", "inn", "inm"):
            target = spell[named]
            good = target in [spell[u] for u in used] and field in ("f", "in" + target)
            for kind in (["%s", "vector< %s >"] if len(used) == 1 else []) + ["multivector< 8, %s >"]:
                if len(used) == 2 and set(used) != {"S", ".m.S"} and named == "S" and not thorough:
                    continue
                archive = "archive A { @explicit_reference( %s.%s, q ) p : %s; q : raw_data; }" % (named, field, kind % ", ".join(used))
                yield ("same names", "namespace m { %s } namespace n { %s %s }" % (defs("inm"), defs("inn"), archive), good)
                yield ("same names", "namespace n { %s %s } namespace m { %s }" % (archive, defs("inn"), defs("inm")), good)
    # destinations: archives and resources of the same names
    for dst, ok in (("L.inn", True), ("L.inm", False), (".m.L.inm", True), (".m.L.inn", False), (".n.L.inn", True), (".n.L.inm", False)):
        yield ("same names", "namespace m { %s } namespace n { %s archive A { @explicit_reference( S.f, %s ) p : vector< S >; } }" % (defs("inm"), defs("inn"), dst), ok)
    # resources of the same names in two archives
    for b, ok in (("v", True), (".n.A.v", True), ("w", False)):   # .n.B.v: unspecified
        yield ("same names", "namespace n { @bound_implicitly( b : %s ) archive A { v : raw_data; } archive B { v : raw_data; w : raw_data; } }" % b, ok)
        yield ("same names", "namespace n { archive B { v : raw_data; w : raw_data; } @bound_implicitly( b : %s ) archive A { v : raw_data; } }" % b, ok)
    # multivectors may contain structures of the same name from different namespaces, but none twice
    for x, y in itertools.product(spell, repeat=2):
        yield ("same names", "namespace m { %s } namespace n { %s archive A { p : multivector< 8, %s, %s >; } }" % (defs("inm"), defs("inn"), x, y), spell[x] != spell[y])


def bound(thorough):
    names = ("v", "w", ".n.A.v", ".n.A.w", "A.v", "missing", "S", ".n.S", "A", ".n.A.b")
    good = {"v": "v", "w": "w", ".n.A.v": "v", ".n.A.w": "w", "A.v": "v"}
    for n in (1, 2):
        for combo in itertools.product(names, repeat=n):
            ok = all(c in good for c in combo) and len({good.get(c) for c in combo}) == n
            if ".n.A.b" in combo:
                continue    # bound to itself: unspecified
            if n == 2 and all(c in good for c in combo) and not ok and combo[0] != combo[1]:
                continue    # one resource in two notations: unspecified
            yield ("bound resources", "namespace n { struct S { x : u8; } @bound_implicitly( b : %s ) archive A { v : vector< S >; w : raw_data; } }" % ", ".join(combo), ok)
    for b, c in itertools.product(("b", "c", "v"), repeat=2):
        yield ("bound names", "namespace n { @bound_implicitly( %s : v, w ) @bound_implicitly( %s : w, x ) archive A { v : raw_data; w : raw_data; x : raw_data; } }" % (b, c),
               b != c and "v" not in (b, c))


def combinations(thorough):
    """archives, structures, enumerations in two namespaces referencing each other both ways: no false cycle"""
    yield ("mutual", "namespace n { struct S { e : .m.E; } archive A { s : .m.T; } } namespace m { struct T { e : .n.F; } enum E : u8 : 1 { A, B } archive B { s : .n.S; a : archive .n.A; } } "
           "namespace n { enum F : u8 : 1 { A, B } }", True)
    # diamond, repeated use of one archive
    yield ("mutual", "namespace n { archive A { b : archive B; c : archive C; b2 : archive B; } archive B { d : archive D; } archive C { d : archive D; d2 : archive D; } archive D { r : raw_data; } }", True)


FAMILIES = [graphs, kinds, constants, ranges, references, homonyms, bound, combinations]


def job(case):
    tag, schema, ok = case
    try:
        with vlib.time_limit(30):
            kind, value = g.verdict(schema)
    except TimeoutError:
        return "%s: the generator hangs" % tag
    if kind == "crash":
        return "%s: the generator crashes with %r, expected %s" % (tag, value, "acceptance" if ok else "a syntax error")
    if ok != (kind == "ok"):
        return "%s: %s, but the schema is %s" % (tag, "accepted" if kind == "ok" else "rejected with %s" % value,
                                               "consistent" if ok else "inconsistent")
    return None


def body(check):
    check.rule = ("all digraphs on up to 3 archives (plus rings of 4, 5), 10 kinds of references x 14 targets x notations x scopes, constants at "
                  "the limits of fields for all pairs of types, all sequences of up to 3 decorations, all range names and uses, all explicit "
                  "references over 6 resource kinds x 6 sources x 3 fields x 14 destinations, all pairs of references, all bindings")
    check.assumptions = ["the decision procedure is trusted; unspecified combinations (one constant in two decorations of one field, several "
                         "ranges of one field, a resource bound twice in different notations) are not judged"]
    cases = list(dict.fromkeys(c for f in FAMILIES for c in f(check.thorough)))
    g.run_sharded(check, cases, job, shards=16)
    by = {}
    for tag, _s, ok in cases:
        by["%s/%s" % (tag, "valid" if ok else "invalid")] = by.get("%s/%s" % (tag, "valid" if ok else "invalid"), 0) + 1
    check.extra["families"] = by
    check.extra["distinct_nontrivial"] = len(cases)
    for c in cases[:: max(1, len(cases) // 5)]:
        check.sample("%s -> %s" % (c[1][:250], "accepted" if c[2] else "syntax error"))


vlib.run_check(vlib.Check("P19", "exploration"), body)
