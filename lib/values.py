"""Structures, their values and programs that hold, compare, copy, hash and print them (P28)."""
import itertools
import refmodel as rm

ENUMS = {"E": ("u8", 2, ["NORTH", "EAST", "SOUTH", "WEST"], 0), "F": ("i16", 2, ["FAR", "BELOW", "ZERO", "ABOVE"], -2), "G": ("u32", 3, ["A%d" % i for i in range(8)], 0)}
CONSTS = {"NONE8": ("u8", 3), "MINUS": ("i32", -7), "ALL": ("u64", (1 << 64) - 1), "LOW": ("i64", -1)}
BITS = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}


class Struct:
    """fields: (name, type or enumeration, width, constant of its invalid value or None, range or None)"""
    def __init__(self, name, *fields):
        self.name = name
        self.fields = [tuple(f) + (None,) * (5 - len(f)) for f in fields]
        self.range = any(f[4] for f in self.fields)
        # a signed field of one bit: see the known finding of P03
        self.in_rust = not self.range and not any(f[2] == 1 and f[1][0] == "i" for f in self.fields)
        self.model = rm.S(name, [(f[0], ENUMS[f[1]][0] if f[1] in ENUMS else f[1], f[2]) for f in self.fields])

    def text(self):
        out = []
        for name, t, w, none, rng in self.fields:
            out.append("%s%s%s : %s : %d;" % ("@optional( %s ) " % none if none else "", "@range( %s ) " % rng if rng else "", name, t, w))
        return "struct %s { %s }" % (self.name, " ".join(out))

    def values(self, thorough):
        """every field with its extremes and a pattern; all combinations for few fields, else one or two fields at a time"""
        per = []
        for _n, t, w, none, _r in self.fields:
            if t in ENUMS:
                base = ENUMS[t][3]
                per.append(list(range(base, base + len(ENUMS[t][2]))))
                continue
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t.startswith("i") else (0, (1 << w) - 1)
            vals = [0, hi, lo, 1 if hi >= 1 else lo, hi // 3, lo + (hi - lo) // 2 + 1]
            if none:
                vals.insert(1, CONSTS[none][1])
            out = []
            for v in vals:
                if lo <= v <= hi and v not in out:
                    out.append(v)
            per.append(out)
        limit = 200 if thorough else 60
        total = 1
        for p in per:
            total *= len(p)
        if total <= limit:
            return [list(c) for c in itertools.product(*per)]
        seen = []
        for base in ([p[0] for p in per], [p[1] for p in per]):
            for i, p in enumerate(per):
                for v in p:
                    c = base[:i] + [v] + base[i + 1:]
                    if c not in seen:
                        seen.append(c)
        for i, j in itertools.combinations(range(len(per)), 2):
            c = [p[0] for p in per]
            c[i], c[j] = per[i][-1], per[j][-1]
            if c not in seen and (thorough or len(seen) < 2 * limit):
                seen.append(c)
        return seen

    def pack(self, value):
        return self.model.pack({f[0]: v for f, v in zip(self.fields, value)})

    def cpp_text(self, value):
        lines = ["%s {" % self.name]
        for (name, t, _w, _none, _r), v in zip(self.fields, value):
            lines.append("    %s : %s," % (name, "%s::%s" % (t, ENUMS[t][2][v - ENUMS[t][3]]) if t in ENUMS else v))
        return "\n".join(lines) + "\n}"

    def rust_text(self, value):
        out = []
        for (name, t, _w, none, _r), v in zip(self.fields, value):
            s = str(v) if t not in ENUMS else ENUMS[t][2][v - ENUMS[t][3]].capitalize()
            if t == "bool":
                s = "true" if v else "false"
            if none:
                s = "None" if v == CONSTS[none][1] else "Some(%s)" % s
            out.append("%s: %s" % (name, s))
        return "%s { %s }" % (self.name, ", ".join(out))


STRUCTS = [
    Struct("One", ("a", "u8", 3)),
    Struct("Flag", ("a", "bool", 1)),
    Struct("Byte", ("a", "i8", 8)),
    Struct("Mixed", ("a", "bool", 1), ("b", "i16", 9), ("c", "u32", 17), ("d", "E", 2), ("e", "u8", 5)),
    Struct("Wide", ("a", "u64", 64), ("b", "u8", 1)),
    Struct("Shifted", ("a", "u8", 3), ("b", "u64", 64), ("c", "i64", 61)),
    Struct("Absent", ("a", "u8", 2, "NONE8"), ("b", "i32", 30, "MINUS"), ("c", "u64", 64, "ALL"), ("d", "i64", 33, "LOW")),
    Struct("Names", ("a", "E", 2), ("b", "F", 2), ("c", "G", 3), ("d", "E", 2)),
    Struct("Long", *[("f%d" % i, "u32", 31) for i in range(9)]),
    Struct("Pairs", ("a", "u32", 20, None, "q"), ("b", "u8", 4)),
    Struct("Three", ("a", "u32", 24)),
    Struct("Bits", ("a", "i8", 1), ("b", "u64", 1), ("c", "bool", 1), ("d", "i64", 1)),
    # nine bytes, of which the last holds one bit or more
    *[Struct("Ninth%d" % k, ("a", "u8", k), ("b", t, w)) for k, t, w in ((1, "u64", 64), (4, "i64", 61), (7, "u64", 58))],
    *[Struct("Over%d" % k, ("a", "u8", k), ("b", "i64", 64)) for k in (5,)],
    Struct("Signs", ("a", "i8", 2), ("b", "i16", 16), ("c", "i32", 32), ("d", "i64", 64), ("e", "i8", 7)),
]


def schema():
    out = ["namespace n {"]
    for name, (t, v) in CONSTS.items():
        out.append("const %s %s = %d;" % (t, name, v))
    for name, (t, w, names, first) in ENUMS.items():
        out.append("enum %s : %s : %d { %s }" % (name, t, w, ", ".join("%s = %d" % (x, first + i) for i, x in enumerate(names))))
    out += [s.text() for s in STRUCTS]
    out.append("archive Arc { %s }\n}\n" % " ".join("%s : vector< %s >;" % ("v_" + s.name.lower(), s.name) for s in STRUCTS))
    return "\n".join(out)


def cpp_type(t):
    return "n::" + t if t in ENUMS else {"bool": "bool"}.get(t, ("uint" if t[0] == "u" else "int") + t[1:] + "_t")


def cpp():
    """set, get and the list of structures, for cpp/p28.cpp"""
    out = []
    for s in STRUCTS:
        sets = " ".join("m.%s = static_cast< %s >( v[ %d ] );" % (f[0], cpp_type(f[1]), i) for i, f in enumerate(s.fields))
        gets = ", ".join("int64_t( %s( %s ) )" % (cpp_type(f[1]), "*a." + f[0] if f[3] else "a." + f[0]) for f in s.fields)
        present = ", ".join("int( bool( a.%s ) )" % f[0] if f[3] else "1" for f in s.fields)
        out.append("template < > struct Of< n::%s >\n{\n    static void set( n::%sMutator m, const Value& v ) { %s }\n"
                   "    template < typename A > static Value get( A a ) { return { %s }; }\n"
                   "    template < typename A > static Value present( A a ) { return { %s }; }\n};\n" % (s.name, s.name, sets, gets, present))
    out.append("static void all( size_t part, size_t parts ) {\n%s}\n" % "".join("    if ( %d %% parts == part ) run< n::%s >( %d );\n" % (k, s.name, k)
                                                                               for k, s in enumerate(STRUCTS)))
    return "\n".join(out)


def rust():
    out = []
    for k, s in enumerate(STRUCTS):
        if not s.in_rust:
            continue
        sets, gets = [], []
        for i, (name, t, _w, none, _r) in enumerate(s.fields):
            if t in ENUMS:
                base, names = ENUMS[t][3], ENUMS[t][2]
                v = "match v[%d] { %s, _ => n::%s::%s }" % (i, ", ".join("%d => n::%s::%s" % (base + j, t, x.capitalize()) for j, x in enumerate(names[:-1])),
                                                              t, names[-1].capitalize())
                gets.append("s.%s() as i64" % name)
            elif t == "bool":
                v = "v[%d] != 0" % i
                gets.append("s.%s() as i64" % name)
            else:
                v = "v[%d] as %s" % (i, t)
                gets.append("s.%s()%s as i64" % (name, ".unwrap_or(n::%s)" % none if none else ""))
            if none:
                v = "Some(%s).filter(|&x| x != n::%s)" % (v, none)
            sets.append("s.set_%s(%s);" % (name, v))
        out.append("impl Value for n::%s {\n    fn put(&mut self, v: &[i64]) { let s = self; %s }\n    fn got(&self) -> Vec<i64> { let s = self; vec![%s] }\n"
                   "    fn fill(&mut self, other: &Self) { self.fill_from(other) }\n"
                   "    fn bytes(&self) -> &[u8] { &self.as_bytes()[..] }\n"
                   "    fn view(data: &[u8]) -> &Self { Self::from_bytes_slice(data).unwrap() }\n"
                   "    fn view_mut(data: &mut [u8]) -> &mut Self { Self::from_bytes_slice_mut(data).unwrap() }\n"
                   "    fn exact(data: &[u8]) -> &Self { let a: &[u8; %d] = std::convert::TryInto::try_into(data).unwrap(); Self::from_bytes(a) }\n"
                   "    fn exact_mut(data: &mut [u8]) -> &mut Self { let a: &mut [u8; %d] = std::convert::TryInto::try_into(data).unwrap(); Self::from_bytes_mut(a) }\n"
                   "    fn fresh() -> Self { Self::new() }\n}\n" % (s.name, " ".join(sets), ", ".join(gets), s.model.size, s.model.size))
    out.append("fn all() {\n%s}\n" % "".join("    run::<n::%s>(%d);\n" % (s.name, k) for k, s in enumerate(STRUCTS) if s.in_rust))
    return "\n".join(out)
