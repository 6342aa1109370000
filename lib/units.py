"""Small schemas, each with one thing that generated code could stumble over: (name, schema, suitable for Go)."""
import itertools
import string

TYPES = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
WIDTH = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}
KINDS = {"instance": "{S}", "vector": "vector< {S} >", "multivector": "multivector< 14, {S} >",
         "multivector of two": "multivector< 33, {S}, {T} >", "raw data": "raw_data", "subarchive": "archive {A}"}
GO_KINDS = ("vector", "multivector", "multivector of two", "raw data")
STRUCTS = "struct S { x : u8; } struct T { y : u16; } "
ARCHIVE = "archive A { d : S; } "


def limits(t):
    s = t[0] == "i"
    return (-(1 << (WIDTH[t] - 1)) if s else 0), (1 << (WIDTH[t] - s)) - 1


def places():
    """resource kinds x optional x namespace of the referenced types x order of the definitions"""
    for n, (kind, opt, where, order) in enumerate(itertools.product(
            KINDS, (0, 1), ("same", "other", "outer", "inner"), ("before", "after", "reopened"))):
        ns = "a%d" % n
        home = {"same": ns, "other": "o%d" % n, "outer": "w%d" % n, "inner": ns + ".i"}[where]
        me = home + "." + ns if where == "outer" else ns
        q = "" if where == "same" else "." + home + "."
        deps = "namespace %s { %s %s }" % (home, STRUCTS, ARCHIVE)
        arch = "namespace %s { archive X { %s r : %s; } }" % (
            me, "@optional" if opt else "", KINDS[kind].format(S=q + "S", T=q + "T", A=q + "A"))
        text = {"before": [deps, arch], "after": [arch, deps],
                "reopened": ["namespace %s { %s }" % (home, STRUCTS), arch, "namespace %s { %s }" % (home, ARCHIVE)]}[order]
        yield "%s%s in archive, types in the %s namespace, defined %s" % (
            "optional " if opt else "", kind, where, order), "\n".join(text), False


def combinations(size):
    """every combination of resource kinds in one archive"""
    alphabet = [(k, o) for k in KINDS for o in (0, 1)]
    for combo in itertools.product(alphabet, repeat=size):
        body = " ".join("%s r%d : %s;" % ("@optional" if o else "", i, KINDS[k].format(S="S", T="T", A="A"))
                        for i, (k, o) in enumerate(combo))
        go = all(k in GO_KINDS for k, _o in combo) and any(k != "raw data" for k, _o in combo)
        sub = any(k == "subarchive" for k, _o in combo)
        yield "archive of %s" % ", ".join(("optional " if o else "") + k for k, o in combo), \
            "namespace n { %s%s archive X { %s } }" % (STRUCTS, ARCHIVE if sub else "", body), go


def decorations():
    """optional, constant and range fields of every type, and where their types and constants are defined"""
    use = "archive X { r : vector< S >; m : multivector< 3, S >; } "
    one = "archive X { r : vector< S >; } "
    for t in TYPES:
        for v in limits(t):
            c = "const %s C = %d; " % (t, v)
            d = "const %s D = 1; " % t
            for deco, more in (("@optional( C )", ""), ("@const( C )", ""), ("@optional( C ) @const( D )", d),
                               ("@const( D ) @optional( C )", d), ("@range( q ) @const( C )", ""),
                               ("@const( C ) @range( q )", ""), ("@const( C ) @const( D )", d)):
                arch = one if "range" in deco else use
                yield "%s field %s, C = %d" % (t, deco, v), \
                    "namespace n { %s%sstruct S { %s x : %s; y : u8; } %s}" % (c, more, deco, t, arch), False
            # undefined values are limited to 256: narrow enumerations only
            for w in sorted({min(WIDTH[t], 8), min(WIDTH[t], 3)}):
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == "i" else (0, (1 << w) - 1)
                v = lo if v == limits(t)[0] else hi
                e = "enum E : %s : %d { A = %d } " % (t, w, v)
                for deco, more in (("", ""), ("@range( q )", "")):
                    arch = one if "range" in deco else use
                    yield "field %s of enumeration of %s : %d with value %d" % (deco, t, w, v), \
                        "namespace n { %s%sstruct S { %s x : E; y : u8; } %s}" % (more, e, deco, arch), False
            for w in sorted({min(WIDTH[t], 3), min(WIDTH[t], 8)}):
                e = "enum E : %s : %d { A } " % (t, w)
                for deco in ("", "@range( q )"):
                    yield "field %s of enumeration of %s : %d" % (deco, t, w), \
                        "namespace n { %sstruct S { %s x : E; y : u8; } %s}" % (e, deco, one), False
        yield "range of %s" % t, "namespace n { struct S { @range( q ) x : %s; y : u8; } %s}" % (t, one), False
        yield "last of two ranges of %s" % t, \
            "namespace n { struct S { @range( p ) y : u8; @range( q ) x : %s; } %s}" % (t, one), False
        for where, text in (
                ("in another namespace", "namespace n {{ {D} }} namespace m {{ struct S {{ {F} }} {X}}}"),
                ("in the enclosing namespace", "namespace n {{ {D} }} namespace n.m {{ struct S {{ {F} }} {X}}}"),
                ("later in another namespace", "namespace m {{ struct S {{ {F} }} {X}}} namespace n {{ {D} }}")):
            yield "constant of an optional %s %s" % (t, where), text.format(
                D="const %s C = 1;" % t, F="@optional( .n.C ) x : %s; y : u8;" % t, X=one), False
            yield "enumeration of %s %s" % (t, where), text.format(
                D="enum E : %s : 1 { A }" % t if t[0] != "i" else "enum E : %s : 3 { A }" % t, F="x : .n.E; y : u8;", X=one), False
        yield "constant of an optional %s later" % t, \
            "namespace n { struct S { @optional( C ) x : %s; } %s const %s C = 1; }" % (t, one, t), False


# spelling of names; none of them is a keyword of C++ or Rust, or clashes with names generated code has of its own
NAMES = ["a", "A", "_a", "a_", "a__b", "A1", "aB", "Ab_Cd", "AB", "ABC", "aBC", "a1b2", "a_b_c", "A_B", "HTTPServer",
         "x9", "abcDEF", "Type1", "my_type_2", "myType", "q", "Q",
         # names that mean something in Python only
         "lambda", "def", "is", "pass", "print", "dict", "list", "cls", "object_", "type_", "from_", "int_"]
# keywords of Rust, which its back end spells differently where fields have these names; none is one of C++
FIELD_NAMES = ["abstract", "as", "async", "await", "become", "box", "crate", "dyn", "final", "fn", "impl", "in", "let",
               "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "proc", "pub", "pure", "ref", "self",
               "Self", "super", "trait", "type", "unsafe", "unsized", "use", "where", "yield"]
ROLES = {
    "namespace": "namespace {n} {{ const u8 C = 1; enum E : u8 : 1 {{ V }} struct St {{ @optional( C ) g : u8; h : E; }} "
                 "archive Xy {{ rv : vector< St >; mv : multivector< 8, St >; }} }} "
                 "namespace other {{ archive Xy {{ rv : vector< .{n}.St >; sa : archive .{n}.Xy; }} }}",
    "structure": "namespace ns {{ struct {n} {{ g : u8; }} archive Xy {{ rv : vector< {n} >; mv : multivector< 8, {n} >; in_ : {n}; }} }}",
    "field": "namespace ns {{ enum Ex : u8 : 1 {{ V }} const u8 N = 7; struct Sx {{ {n} : u8; }} struct Ox {{ @optional( N ) {n} : u8; }} "
             "struct Ux {{ {n} : Ex; k9 : bool; }} archive Xy {{ rv : vector< Sx >; mv : multivector< 8, Sx, Ox, Ux >; }} }}",
    "range": "namespace ns {{ struct Sx {{ @range( {n} ) begin_ : u8; }} archive Xy {{ rv : vector< Sx >; }} }}",
    "archive": "namespace ns {{ struct Sx {{ g : u8; }} archive {n} {{ rv : vector< Sx >; mv : multivector< 8, Sx >; in_ : Sx; }} "
               "archive Outer {{ sa : archive {n}; @optional sb : archive {n}; }} }}",
    "vector": "namespace ns {{ struct Sx {{ g : u8; }} archive Xy {{ {n} : vector< Sx >; }} archive Ox {{ @optional {n} : vector< Sx >; }} }}",
    "multivector": "namespace ns {{ struct Sx {{ g : u8; }} archive Xy {{ {n} : multivector< 8, Sx >; }} }}",
    "instance": "namespace ns {{ struct Sx {{ g : u8; }} archive Xy {{ {n} : Sx; }} archive Ox {{ @optional {n} : Sx; }} }}",
    "raw data": "namespace ns {{ archive Xy {{ {n} : raw_data; }} archive Ox {{ @optional {n} : raw_data; }} }}",
    "subarchive": "namespace ns {{ archive Xy {{ data_ : raw_data; }} archive Zt {{ {n} : archive Xy; }} archive Ox {{ @optional {n} : archive Xy; }} }}",
    "enumeration": "namespace ns {{ enum {n} : u8 : 1 {{ V }} struct Sx {{ g9 : {n}; }} }}",
    "enumerator": "namespace ns {{ enum Ex : u8 : 1 {{ {n} }} struct Sx {{ g : Ex; }} }}",
    "constant": "namespace ns {{ const u8 {n} = 3; struct Sx {{ @optional( {n} ) g9 : u8; }} }} "
                "namespace other {{ struct Sx {{ @optional( .ns.{n} ) g9 : u8; @const( .ns.{n} ) h9 : u8; }} }}",
}


def names():
    for n in NAMES:
        for role, text in ROLES.items():
            yield "%s named %s" % (role, n), text.format(n=n), False
    for n in FIELD_NAMES:
        for role in ("field", "range"):
            yield "%s named %s" % (role, n), ROLES[role].format(n=n), False


COMMENTS = {
    "line": "// hello\n", "empty line": "//\n", "doxygen line": "/// hi\n", "qt line": "//! hi\n", "block": "/* hi */",
    "empty block": "/**/", "block of stars": "/***/", "javadoc": "/** hi */", "qt block": "/*! hi */",
    "javadoc lines": "/**\n * one\n * two\n */", "lines without stars": "/*\n one\n two\n*/",
    "text from start to end": "/* one\n   two */", "blank lines": "/**\n * one\n *\n\n * two\n */",
    "text first": "/* one\n*/", "text last": "/*\n one */", "code in a block": "/*\nfn x() { \" \n' }\n*/",
    "quotes": "// say \"hi\" \"\"\" there\"\n", "quote last": "/* ends with \"*/", "backslashes": "// back\\slash \\n \\x \\u12 \\N\n",
    "escaped quote": "/* \\\" */", "slashes": "// a // b\n", "opening in a block": "/* a /* b // c */",
    "stars": "/* a * b ** c */", "non ascii": "// äöü € 漢\n", "tabulator": "//\ttab\n",
    "template syntax": "// # \"# r#\" {} {{ }} %} {% {# #}\n", "dollars": "// $x ${y} `z` '\n", "triple quotes": "/* ''' \"\"\" */",
    "raw string end": "// )schema\" R\"schema(\n", "crlf line": "// a\r\n", "crlf block": "/* a\r\n b */",
    "backslash last": "/* x \\*/", "schema syntax": "/* } ; struct */", "closing in a line": "// */ x\n",
    "opening in a line": "// /* x\n",
}
ALONE = ("lines without stars", "qt line", "quote last")
COMMENTED = ("{first}namespace n {{ {constant}const u8 C = 1; {enumeration}enum E : u8 : 1 {{ {enumerator}A, {second_enumerator}B }} "
             "{structure}struct S {{ {field}x : u8; {optional_field}@optional( C ) y : u8; {enum_field}e : E; }} "
             "{range_structure}struct R {{ {range}@range( q ) z : u8; }} "
             "{archive}archive X {{ {instance}i : S; {vector}v : vector< S >; {multivector}m : multivector< 3, S >; "
             "{optional_raw_data}@optional r : raw_data; }} {outer_archive}archive Y {{ {subarchive}s : archive X; }} }}")
GO_COMMENTED = ("{first}namespace n {{ {structure}struct S {{ {field}x : u8; {second_field}y : i16; }} "
                "{archive}archive X {{ {vector}v : vector< S >; {multivector}m : multivector< 3, S >; "
                "{raw_data}@optional r : raw_data; }} }}")


def comments(thorough):
    """every kind of comment everywhere at once, and (some kinds, in the thorough tier all) at every place alone"""
    for text, go in ((COMMENTED, False), (GO_COMMENTED, True)):
        roles = [f for _l, f, _s, _c in string.Formatter().parse(text) if f]
        for name, c in COMMENTS.items():
            for r in (roles if thorough or name in ALONE else []) + ["everything"]:
                kw = dict.fromkeys(roles, "" if r != "everything" else c)
                if r != "everything":
                    kw[r] = c
                yield "comment (%s) on %s%s" % (name, r.replace("_", " "), ", for Go" if go else ""), text.format(**kw), go


MISC = {
    "nothing": "",
    "empty namespace": "namespace n {}", "empty nested namespace": "namespace n.m.o {}",
    "constant only": "namespace n { const u8 C = 1; }", "enumeration only": "namespace n { enum E : u8 : 1 { A } }",
    "structure only": "namespace n { struct S { x : u8; } }", "empty archive": "namespace n { archive A { } }",
    "empty subarchives": "namespace n { archive A { } archive B { a : archive A; @optional b : archive A; } }",
    "chain of archives": "namespace n { archive A { b : archive B; } archive B { c : archive C; } archive C { } }",
    "reopened namespace": "namespace n { struct A { x : u8; } } namespace m { archive X { v : vector< .n.B >; } } "
                          "namespace n { struct B { x : u8; } archive X { v : vector< A >; b : .n.B; } }",
    "reopened nested namespace": "namespace n.m { struct A { x : u8; } } namespace n { struct B { x : u8; } "
                                 "archive X { a : .n.m.A; b : B; } } namespace n.m { archive Y { x : archive .n.X; } }",
    "nested in braces": "namespace n { namespace m { struct S { x : u8; } } archive X { a : vector< .n.m.S >; } }",
    "sibling namespaces": "namespace n.a { struct S { x : u8; } } namespace n.b { struct S { x : u16; } "
                          "archive X { a : .n.a.S; b : S; v : vector< .n.a.S >; w : vector< S >; } }",
    "archives of the same name": "namespace n { archive X { r : raw_data; } } namespace m { archive X { x : archive .n.X; } }",
    "structure named like its namespace": "namespace n { struct n { x : u8; } archive X { v : vector< n >; } }",
    "namespace in one of its name": "namespace n.n { struct S { x : u8; } archive X { v : vector< S >; } }",
    "a.b and b.a": "namespace a.b { struct S { x : u8; } } namespace b.a { struct S { x : u8; } "
                   "archive X { r : vector< .a.b.S >; s : .b.a.S; m : multivector< 3, S >; } }",
    "structures of the same name in a multivector": "namespace n { struct S { x : u8; } } namespace m { struct S { x : u16; } "
                                                    "archive X { m : multivector< 9, .n.S, S >; } }",
    "several multivectors": "namespace n { struct S { x : u8; } struct T { x : u16; } archive X { a : multivector< 9, S, T >; "
                            "b : multivector< 9, T, S >; c : multivector< 9, S >; d : multivector< 64, S >; e: multivector< 1, S >; } "
                            "archive Y { f : multivector< 9, S >; g : multivector< 33, T >; } }",
    "multivectors of the same name in two namespaces": "namespace n { struct S { x : u8; } archive X { a : multivector< 9, S >; } } "
                                                       "namespace m { archive X { a : multivector< 9, .n.S >; b : multivector< 12, .n.S >; } }",
    "multivectors of the same name in two archives": "namespace n { struct S { x : u8; } archive X { a : multivector< 9, S >; } "
                                                     "archive Y { a : multivector< 9, S >; } }",
    "explicit references": "namespace n { struct S { x : u8; y : u16; } struct T { z : u8; } archive X { @explicit_reference( S.x, b ) a : vector< S >; "
                           "@explicit_reference( T.z, a ) @explicit_reference( T.z, r ) b : vector< T >; r : raw_data; "
                           "@explicit_reference( S.y, a ) @optional m : multivector< 8, S, T >; @explicit_reference( S.x, .n.X.b ) i : S; "
                           "@explicit_reference( S.x, m ) @optional i2 : S; } }",
    "explicit reference to another archive": "namespace n { struct S { x : u8; } archive A { v : vector< S >; } "
                                             "archive X { a : archive A; @explicit_reference( S.x, .n.A.v ) b : vector< S >; } }",
    "implicit bounds": "namespace n { struct S { x : u8; } @bound_implicitly( both : a, b ) @bound_implicitly( three : a, b, c ) "
                       "archive X { a : vector< S >; b : vector< S >; @optional c : multivector< 8, S >; } }",
    "structure of 80 fields": "namespace n { struct S { %s } archive X { a : vector< S >; i : S; } }" % " ".join(
        "f%d : u%d : %d;" % (i, 64, 1 + i % 64) for i in range(80)),
    "archive of 60 resources": "namespace n { struct S { x : u8; } archive X { %s } }" % " ".join("f%d : vector< S >;" % i for i in range(60)),
    "multivector of 40 types": "namespace n { %s archive X { m : multivector< 9, %s >; } }" % (
        " ".join("struct S%d { x : u8; }" % i for i in range(40)), ", ".join("S%d" % i for i in range(40))),
    "structures differing in case": "namespace n { struct Ab { x : u8; } struct AB { x : u8; } archive A { r : vector< Ab >; q : vector< AB >; } }",
    "camel case": "namespace NameSpace.Inner { struct St { x : u8; } archive myArchive { myVector : vector< St >; MyMulti : multivector< 3, St >; "
                  "mySub : archive HTTPServer2; } archive HTTPServer2 { myRaw : raw_data; } }",
    "resource like its structure": "namespace n { struct Items { Item : u8; } archive Data { items : vector< Items >; item : Items; } }",
    "field like its enumeration": "namespace n { enum Kind : u8 : 1 { A, B } struct St { kind : Kind; } archive Dt { v : vector< St >; } }",
    "subarchive like its archive": "namespace n { archive Data { r : raw_data; } archive At { data : archive Data; } }",
    "enumerators like constants": "namespace n { enum E : u8 : 1 { A, B } const u8 A = 3; const u8 B = 4; }",
    "two enumerations of the same enumerators": "namespace n { enum E : u8 : 1 { A, B } enum F : u8 : 1 { A, B } struct S { e : E; f9 : F; } }",
    "enumerator like its enumeration": "namespace n { enum E : u8 : 1 { E, B } }",
    "enumerator like a structure": "namespace n { enum E : u8 : 1 { S, B } struct S { e : E; } }",
    "namespaces across": "namespace n { struct S { x : u8; } } namespace n.o { archive A { a : vector< .n.S >; } } namespace o { archive A { a : archive .n.o.A; } }",
    "deep namespaces": "namespace a.b.c.d.e { struct S { x : E; @optional( C ) y : u8; } enum E : u8 : 1 { V } const u8 C = 1; "
                       "archive X { v : vector< S >; m : multivector< 8, S >; a : archive .a.b.Y; } } namespace a.b { archive Y { s : .a.b.c.d.e.S; } }",
}
for _w in (1, 7, 8, 9, 31, 32, 33, 63, 64):
    MISC["multivector with index of %d bits" % _w] = (
        "namespace n { struct S { x : u8; } archive X { a : multivector< %d, S >; @optional b : multivector< %d, S >; } }" % (_w, _w))


def misc():
    for k, v in MISC.items():
        yield k, v, False


def all_units(thorough):
    out = list(misc()) + list(places()) + list(combinations(1)) + list(combinations(2)) + list(decorations()) + \
        list(names()) + list(comments(thorough))
    if thorough:
        out += list(combinations(3))
    seen, unique = set(), []
    for u in out:
        if u[0] not in seen:
            seen.add(u[0])
            unique.append(u)
    return unique
