"""P18: every schema at the boundary of validity (widths, constants, enumerations, literals, names) is
accepted by the real generator front end exactly if an independent decision procedure accepts it."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import genlib as g


def boundary(t, w):
    lo, hi = g.value_range(t, w)
    vals = set()
    for base in (lo, hi, 0):
        vals |= {base - 2, base - 1, base, base + 1, base + 2}
    for k in (1, 7, 8, 15, 16, 31, 32, 63, 64, 65):
        vals |= {1 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1}
    return sorted(vals)


def literal(v, form):
    sign = "-" if v < 0 else ""
    v = abs(v)
    return sign + {"dec": "%d", "hex": "0x%x", "HEX": "0x%X", "hex0": "0x0%x"}[form] % v


def widths_cases(thorough):
    """(tag, schema, accepted?)"""
    for t in g.TYPES:
        for w in list(range(0, 71)) + [127, 128, 255, 256, 1 << 20, 10 ** 20]:
            ok = 1 <= w <= g.WIDTH[t]
            yield ("field width", "namespace n { struct A { x : %s : %d; } }" % (t, w), ok)
            yield ("field width", "namespace n { struct A { a : u8 : 3; x : %s : %d; z : i64; } }" % (t, w), ok)
        yield ("field width", "namespace n { struct A { x : %s; } }" % t, True)
        yield ("field width", "namespace n { struct A { x : %s : 0%d; } }" % (t, 1), True)
    for w in list(range(0, 71)) + [255, 256]:
        yield ("index width", "namespace n { struct A { x : u8; } archive R { m : multivector< %d, A >; } }" % w, 1 <= w <= 64)
    for bad in ("-1", "0x8", "", "8.0", "x"):
        yield ("width literal", "namespace n { struct A { x : u8 : %s; } }" % bad, False)
    for t in g.TYPES:
        for w in range(0, 12):
            for fw in [None] + list(range(0, 12)):
                ok = 1 <= w <= g.WIDTH[t] and fw in (None, w)
                if w >= 9 and ok:
                    ok = False  # too sparse with one value
                yield ("enum field width", "namespace n { enum E : %s : %d { A } struct S { e : E%s; } }" % (
                    t, w, "" if fw is None else " : %d" % fw), ok)
        ok = g.WIDTH[t] <= 8
        for fw in (None, 0, 1, g.WIDTH[t] - 1, g.WIDTH[t], g.WIDTH[t] + 1):
            yield ("enum field width", "namespace n { enum E : %s { A } struct S { e : E%s; } }" % (
                t, "" if fw is None else " : %d" % fw), ok and fw in (None, g.WIDTH[t]))


def constants_cases(thorough):
    for t in g.TYPES:
        lo, hi = g.value_range(t, g.WIDTH[t])
        for v in boundary(t, g.WIDTH[t]):
            for form in ("dec", "hex", "HEX", "hex0"):
                yield ("constant", "namespace n { const %s X = %s; }" % (t, literal(v, form)), lo <= v <= hi)
    for text, ok in (("0", True), ("00", True), ("-0", True), ("-00", True), ("0x0", True), ("1", True), ("01", False),
                     ("-01", False), ("007", False), ("0b1", False), ("0o7", False), ("0X1", False), ("0x", False),
                     ("-", False), ("--1", False), ("+1", False), ("1.0", False), ("1e2", False), ("1_0", False),
                     ("0xg", False), ("1u", False), ("'a'", False), ("true", False), ("X", False), ("", False), ("- 1", False),
                     ("0x-1", False), ("1 1", False)):
        yield ("literal", "namespace n { const i32 X = %s; }" % text, ok)
        yield ("literal", "namespace n { enum E : i8 { A = %s } }" % text, ok)


def enum_ok(t, w, entries):
    """entries: (name, explicit value or None)"""
    width = g.WIDTH[t] if w is None else w
    if not 1 <= width <= g.WIDTH[t]:
        return False
    lo, hi = g.value_range(t, width)
    current, used, names = 0, set(), set()
    for name, v in entries:
        if v is not None:
            current = v
        if current in used or not lo <= current <= hi or name in names:
            return False
        used.add(current)
        names.add(name)
        current += 1
    if len(entries) * 2 + 256 < 1 << width:
        return False
    for v in range(lo, hi + 1):
        if v not in used and ("UNKNOWN_VALUE_%s%d" % ("MINUS_" if v < 0 else "", abs(v))) in names:
            return False    # name already taken by the generated one
    return True


def enum_text(t, w, entries, trailing):
    return "namespace n { enum E : %s%s { %s%s } }" % (
        t, "" if w is None else " : %d" % w,
        ", ".join(n if v is None else "%s = %d" % (n, v) for n, v in entries), "," if trailing else "")


def enums_cases(thorough):
    for t in g.TYPES:
        for w in [None] + list(range(0, 10)) + [16, 17, 32, 33, 64, 65]:
            width = g.WIDTH[t] if w is None else w
            if not 1 <= width <= 8:
                vals = [None, 0]
            else:
                lo, hi = g.value_range(t, width)
                vals = sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, -1})
                vals = [None] + vals
            for n in (1, 2, 3):
                if n == 3 and not (thorough or width in (1, 2, 3)):
                    continue
                for combo in itertools.product(vals, repeat=n):
                    entries = list(zip("ABC", combo))
                    yield ("enum values", enum_text(t, w, entries, n == 2), enum_ok(t, w, entries))
    # names: repeated ones and ones the generator uses for missing values
    for names in itertools.product(("A", "B", "UNKNOWN_VALUE_0", "UNKNOWN_VALUE_1", "UNKNOWN_VALUE_MINUS_1", "UNKNOWN_VALUE_7",
                                    "UNKNOWN_VALUE_01"), repeat=2):
        for combo in itertools.product((None, 0, 1, -1), repeat=2):
            for t, w in (("u8", 2), ("i8", 2), ("u8", 1)):
                entries = list(zip(names, combo))
                yield ("enum names", enum_text(t, w, entries, False), enum_ok(t, w, entries))
    # sparseness: number of values around the limit of every width
    for w in range(8, 14 if thorough else 12):
        for t in ("u16", "i32"):
            limit = ((1 << w) - 256 + 1) // 2
            for n in (limit - 1, limit, limit + 1):
                if n < 1:
                    continue
                lo = 0 if t == "u16" else -(1 << (w - 1))
                entries = [("V0", lo)] + [("V%d" % i, None) for i in range(1, n)]
                yield ("enum sparse", enum_text(t, w, entries, False), enum_ok(t, w, entries))


def definitions():
    return {"struct": "struct %s { x : u8; }", "enum": "enum %s : u8 : 2 { V }", "const": "const u8 %s = 1;",
            "archive": "archive %s { r : raw_data; }"}


def names_cases(thorough):
    """one name for two definitions: same scope, other scope, inside of structures, archives, enumerations"""
    defs = definitions()
    for (ka, a), (kb, b) in itertools.product(defs.items(), repeat=2):
        for na, nb in (("A", "A"), ("A", "B"), ("A", "a")):
            same = na == nb
            yield ("name", "namespace n { %s %s }" % (a % na, b % nb), not same)
            yield ("name", "namespace n { %s } namespace n { %s }" % (a % na, b % nb), not same)
            yield ("name", "namespace n { %s } namespace m { %s }" % (a % na, b % nb), True)
            yield ("name", "namespace n { %s } namespace n.m { %s }" % (a % na, b % nb), True)
            yield ("name", "namespace n { %s } namespace n.%s { %s }" % (a % na, nb, b % "C"), na != nb)
            yield ("name", "namespace n.%s { %s } namespace n { %s }" % (nb, b % "C", a % na), na != nb)
            yield ("name", "namespace n { %s } namespace n.%s.o { %s }" % (a % na, nb, b % "C"), na != nb)
            yield ("name", "namespace n.%s.o { %s } namespace n { %s }" % (nb, b % "C", a % na), na != nb)
    for n1, n2, n3 in itertools.product(("p", "q", "P"), repeat=3):
        unique = len({n1, n2, n3}) == 3
        yield ("field names", "namespace n { struct A { %s : u8; %s : i8; %s : u64; } }" % (n1, n2, n3), unique)
        yield ("resource names", "namespace n { archive A { %s : raw_data; %s : raw_data; %s : raw_data; } }" % (n1, n2, n3), unique)
        yield ("bound names", "namespace n { struct S { x : u8; } @bound_implicitly( %s : %s, %s ) archive A { p : vector< S >; q : vector< S >; P : vector< S >; } }" % ("b", n1, n2), n1 != n2)
    for text, ok in ((".n", False), ("n.", False), ("n..m", False), ("1n", False), ("n.1", False), ("n", True), ("n.m", True),
                     ("n.m.o", True), ("_n", True), ("n1._2", True), (".", False), ("n-m", False), ("", False)):
        yield ("namespace", "namespace %s { const u8 X = 1; }" % text, ok)
        yield ("namespace", "namespace a { const u8 X = 1; } namespace %s { const u8 Y = 1; }" % text, ok)
    for text, ok in (("namespace n { }", True), ("namespace n { } namespace n { }", True), ("namespace n { namespace m { } }", True), ("namespace n { namespace m { }", False),
                     ("namespace n { namespace { } }", False), ("namespace n { namespace m const u8 X = 1; }", False),
                     ("namespace n { namespace m.o { const u8 X = 1; } const u8 X = 2; }", True),
                     ("namespace n { namespace m { const u8 X = 1; } const u8 m = 2; }", False),
                     ("namespace n { namespace m { const u8 X = 1; } namespace m { const u8 X = 1; } }", False),
                     ("namespace n { struct A { } }", False), ("namespace n { enum E : u8 { } }", False),
                     ("namespace n { archive A { } }", True), ("struct A { x : u8; }", False), ("namespace n {", False),
                     ("namespace n { struct A { x : u8 } }", False), ("namespace n { struct A { x : f32; } }", False),
                     ("namespace n { const X = 1; }", False), ("namespace n { enum E : A { B } }", False),
                     ("namespace n { struct A { x u8; } }", False), ("namespace n { enum E : u8 { A B } }", False),
                     ("namespace n { enum E : u8 { A,, B } }", False), ("namespace n { archive A { x : vector< u8 >; } }", False),
                     ("namespace n { archive A { x : u8; } }", False), ("namespace n { archive A { x : multivector< 8 >; } }", False),
                     ("namespace n { archive A { x : multivector< S >; } struct S { y : u8; } }", False),
                     ("namespace n { archive A { x : vector< S, S >; } struct S { y : u8; } }", False),
                     ("namespace n { archive A { x : vector< S > } struct S { y : u8; } }", False)):
        yield ("syntax", text, ok)


FAMILIES = [widths_cases, constants_cases, enums_cases, names_cases]


def job(case):
    tag, schema, ok = case
    kind, value = g.verdict(schema)
    if kind == "crash":
        return "%s: the generator crashes with %r, expected %s" % (tag, value, "acceptance" if ok else "a syntax error")
    if ok != (kind == "ok"):
        return "%s: %s, but the schema is %s" % (tag, "accepted" if kind == "ok" else "rejected with %s" % value,
                                               "valid" if ok else "invalid")
    return None


def render_job(schema):
    """code of an accepted schema is generated by every back end"""
    tag, text, _ = schema
    from flatdata.generator.engine import Engine
    e = Engine(text)
    for gen in e.available_generators():
        if gen == "go" and "enum" in text:
            continue        # enumerations are not supported by the Go back end
        try:
            code = e.render(gen)
            if gen == "py":
                compile(code, "generated", "exec")
        except Exception as x:  # pylint: disable=broad-except
            return "%s: rendering %s crashes: %r" % (tag, gen, x)
    return None


def body(check):
    check.rule = ("every schema of the families: field/index/enumeration widths, constants and enumeration values at the "
                  "boundaries in every notation, sparseness limits, repeated names over all kinds and scopes, malformed "
                  "text; distinct = schemas on which acceptance was decided, both verdicts required per family")
    check.assumptions = ["the decision procedure (range of a type, uniqueness, sparseness rule of docs/schema-language.md) is trusted",
                         "a name the generator needs for a missing enumeration value counts as taken"]
    cases = [c for f in FAMILIES for c in f(check.thorough)]
    cases = list(dict.fromkeys(cases))
    by = {}
    for tag, _s, ok in cases:
        by.setdefault((tag, ok), 0)
        by[(tag, ok)] += 1
    g.run_sharded(check, cases, job)
    accepted = [c for c in cases if c[2] and c[0] != "enum sparse"]
    step = 1 if check.thorough else 6
    g.run_sharded(check, [("render:" + c[0], c[1], c[2]) for c in accepted[::step]], render_job)
    check.extra["distinct_nontrivial"] = len(cases)
    check.extra["families"] = {"%s/%s" % (t, "valid" if o else "invalid"): n for (t, o), n in sorted(by.items())}
    for c in cases[:: max(1, len(cases) // 5)]:
        check.sample("%s -> %s" % (c[1][:150], "accepted" if c[2] else "syntax error"))


vlib.run_check(vlib.Check("P18", "exploration"), body)
