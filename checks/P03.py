"""P03: all back ends place every structure field at the same bits.

Every structure of a stated alphabet (1..3 fields of 12 kinds, 4 in the thorough tier; plus range and optional fields) is
generated with every back end, compiled with the real runtimes and executed: every field of every structure is read over
zeros, ones, every single set bit, every single cleared bit and two patterns, with hostile bytes behind the structure, and
is written over zeros and ones. Oracle: fields packed back to back in declaration order (lib/refmodel.py)."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402
import genlib as g  # noqa: E402
import refmodel as rm  # noqa: E402
from rustlib import Rust  # noqa: E402
from golib import Go  # noqa: E402

CPP_T = {"bool": "bool", "u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t",
         "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t"}
ENUMS = "enum E4 : u8 : 4 { A = 3, B }\nenum E5 : i16 : 5 { A = -1, B }\nenum E8 : i32 : 8 { A = -128, B }\n"
# (schema text of the type and width, basic type, width, enumeration)
ITEMS = [("u8 : 3", "u8", 3, None), ("bool : 1", "bool", 1, None), ("i16 : 9", "i16", 9, None),
         ("u32 : 30", "u32", 30, None), ("u64", "u64", 64, None), ("i64 : 61", "i64", 61, None),
         (".n.E5", "i16", 5, "E5"), ("i8", "i8", 8, None), ("u16", "u16", 16, None), ("i32 : 27", "i32", 27, None),
         (".n.E4", "u8", 4, "E4"), (".n.E8", "i32", 8, "E8"), ("i8 : 1", "i8", 1, None), ("u32", "u32", 32, None)]


RUST_ONE_BIT = "rust: a signed field of one bit with the bit set"


class Struct:
    """items of ITEMS; extra: None, ('range', position) or ('optional', position, sentinel)"""
    def __init__(self, index, items, extra=None):
        self.name = "S%d" % index
        self.items = items
        self.extra = extra
        self.model = rm.S(self.name, [("f%d" % i, t, w) for i, (_s, t, w, _e) in enumerate(items)])

    def describe(self):
        return "struct { %s }%s" % ("; ".join(i[0] for i in self.items), " %s" % (self.extra,) if self.extra else "")

    def text(self):
        out = []
        if self.extra and self.extra[0] == "optional":
            out.append("const %s K%s = %d;" % (self.items[self.extra[1]][1], self.name, self.extra[2]))
        out.append("struct %s {" % self.name)
        for i, (s, _t, _w, _e) in enumerate(self.items):
            if self.extra and self.extra[1] == i:
                out.append("@range(r)" if self.extra[0] == "range" else "@optional(K%s)" % self.name)
            out.append("f%d : %s;" % (i, s))
        return "\n".join(out + ["}"])

    @property
    def is_range(self):
        return bool(self.extra) and self.extra[0] == "range"

    @property
    def optional(self):
        return self.extra[1] if self.extra and self.extra[0] == "optional" else None

    # -- the explored inputs: the same enumeration is repeated by each language's driver ------------
    def buffers(self):
        """bytes of two consecutive structures (for ranges) and padding"""
        n = self.model.size * (2 if self.is_range else 1)
        full = (1 << 8 * n) - 1
        a5 = int.from_bytes(b"\xa5" * n, "little")
        out = [(0, 255), (full, 0), (a5, 0), (full ^ a5, 255)]
        for i in range(8 * n):
            out += [(1 << i, 255), (full ^ (1 << i), 0)]
        return [v.to_bytes(n, "little") + bytes([p]) * 8 for v, p in out]

    def reads(self, optional=True):
        """expected line of values; None for an absent optional"""
        rows = []
        for b in self.buffers():
            v = self.model.unpack(b)
            row = [v["f%d" % i] for i in range(len(self.items))]
            if optional and self.optional is not None and row[self.optional] == self.extra[2]:
                row[self.optional] = "none"
            rows.append(row)
        return rows

    def ranges(self):
        k = "f%d" % self.extra[1]
        return [[self.model.unpack(b)[k], self.model.unpack(b[self.model.size:])[k]] for b in self.buffers()]

    def write_values(self, i):
        w, signed = self.items[i][2], g.signed(self.items[i][1])
        pats = [0, (1 << w) - 1, 1, 1 << (w - 1)]
        return [p - (1 << w) if signed and p >> (w - 1) else p for p in pats]

    def writes(self):
        out = []
        for i, (_s, _t, w, _e) in enumerate(self.items):
            off = self.model.fields[i][3]
            for v in self.write_values(i):
                for bg in (0, 255):
                    acc = int.from_bytes(bytes([bg]) * self.model.size, "little")
                    mask = ((1 << w) - 1) << off
                    acc = (acc & ~mask) | ((v << off) & mask)
                    out.append((acc.to_bytes(self.model.size, "little") + bytes([bg]) * 8).hex())
        return out


def structs(thorough):
    out = []
    small = ITEMS[:7]
    for n in (1, 2, 3):
        for items in itertools.product(ITEMS if n < 3 or thorough else small, repeat=n):
            out.append((items, None))
    if thorough:
        for items in itertools.product(ITEMS[:5], repeat=4):
            out.append((items, None))
    # long structures: fields far from the start
    for n in (5, 9, 17):
        for k in range(0, len(ITEMS), 3):
            out.append((tuple(ITEMS[(k + 5 * i) % len(ITEMS)] for i in range(n)), None))
    # ranges and optional fields, at every position among two others
    for kind in (0, 3, 4, 8):
        for others in itertools.product((ITEMS[0], ITEMS[2], ITEMS[4]), repeat=2):
            for p in range(3):
                items = list(others)
                items.insert(p, ITEMS[kind])
                out.append((tuple(items), ("range", p)))
    for kind in (0, 2, 3, 4, 5, 7):
        t, w = ITEMS[kind][1:3]
        lo, hi = g.value_range(t, w)
        for sentinel in {0, hi, lo}:
            for p in range(2):
                items = [ITEMS[3]]
                items.insert(p, ITEMS[kind])
                out.append((tuple(items), ("optional", p, sentinel)))
    return [Struct(i, items, extra) for i, (items, extra) in enumerate(out)]


def schema_of(batch, enums=True, archive=False):
    out = ["namespace n {", ENUMS if enums else ""] + [s.text() for s in batch]
    if archive:
        out.append("struct Z { z : u8; } archive Y { y : vector< Z >; }")
    return "\n".join(out + ["}"])


# ---- Python --------------------------------------------------------------------------------------
def run_python(batch, d):
    from flatdata.lib.data_access import write_value
    module = vlib.python_module(schema_of(batch))
    out = {}
    for s in batch:
        cls = getattr(module, "n_" + s.name)
        rows = []
        for b in s.buffers():
            obj = cls(b, 0)
            rows.append([int(getattr(obj, "f%d" % i)) for i in range(len(s.items))])
        hexes = []
        for i in range(len(s.items)):
            sig = cls._FIELDS["f%d" % i]
            for v in s.write_values(i):
                for bg in (0, 255):
                    data = bytearray([bg] * (s.model.size + 8))
                    write_value(data, sig.offset, sig.width, sig.is_signed, v)
                    hexes.append(bytes(data).hex())
        out[s.name] = (cls._SIZE_IN_BYTES, rows, None, hexes)
    return out, None


def parse(text, batch):
    out = {}
    for line in text.splitlines():
        kind, name, rest = line.split(" ", 2)
        entry = out.setdefault(name, [None, None, None, None])
        if kind == "Z":
            entry[0] = int(rest)
        elif kind in ("R", "G"):
            rows = [[v if v == "none" else int(v) for v in r.split(",")] for r in rest.strip(";").split(";")]
            entry[1 if kind == "R" else 2] = rows
        else:
            entry[3] = rest.strip(",").split(",")
    return {k: tuple(v) for k, v in out.items()}


# ---- C++ -----------------------------------------------------------------------------------------
CPP_HEAD = r'''
#include "s.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
typedef long long I;
struct Case { const char* name; size_t size; int n; bool range; const char* types; const int* widths;
    int optional; void (*get)( const unsigned char*, I*, bool* ); void (*ranges)( const unsigned char*, I* ); void (*set)( unsigned char*, int, I ); };
static void run( const Case& c )
{
    printf( "Z %s %zu\n", c.name, c.size );
    const size_t n = c.size * ( c.range ? 2 : 1 );
    std::string reads, gets;
    for ( size_t k = 0; k < 4 + 16 * n; k++ )
    {
        unsigned char* b = new unsigned char[ n + 8 ];
        const int fill[ 4 ] = { 0, 255, 0xa5, 0x5a }, pad[ 4 ] = { 255, 0, 0, 255 };
        if ( k < 4 ) { memset( b, fill[ k ], n ); memset( b + n, pad[ k ], 8 ); }
        else { const bool inv = k & 1; memset( b, inv ? 255 : 0, n ); memset( b + n, inv ? 0 : 255, 8 ); b[ ( k - 4 ) / 2 / 8 ] ^= 1 << ( k - 4 ) / 2 % 8; }
        I v[ 20 ]; bool none = false;
        c.get( b, v, &none );
        for ( int i = 0; i < c.n; i++ )
        {
            const bool u = c.types[ i ] == 'u';
            reads += i ? "," : ""; reads += none && i == c.optional ? "none" : u ? std::to_string( (unsigned long long)v[ i ] ) : std::to_string( v[ i ] );
        }
        reads += ";";
        if ( c.range ) { c.ranges( b, v ); gets += std::to_string( (unsigned long long)v[ 0 ] ) + "," + std::to_string( (unsigned long long)v[ 1 ] ) + ";"; }
        delete[] b;
    }
    printf( "R %s %s\n", c.name, reads.c_str( ) );
    if ( c.range ) printf( "G %s %s\n", c.name, gets.c_str( ) );
    std::string hexes;
    for ( int i = 0; i < c.n; i++ )
    {
        const int w = c.widths[ i ];
        const I top = (I)( 1ull << ( w - 1 ) );
        const I all = w == 64 ? -1 : ( 1ll << w ) - 1;
        I values[ 4 ] = { 0, all, 1, top };
        for ( I v : values )
            for ( int bg : { 0, 255 } )
            {
                unsigned char* b = new unsigned char[ c.size + 8 ];
                memset( b, bg, c.size + 8 );
                I x = v;
                if ( c.types[ i ] != 'u' && w < 64 && ( v >> ( w - 1 ) & 1 ) ) x = v - ( 1ll << w );
                c.set( b, i, x );
                char h[ 3 ];
                for ( size_t j = 0; j < c.size + 8; j++ ) { snprintf( h, 3, "%02x", b[ j ] ); hexes += h; }
                hexes += ",";
                delete[] b;
            }
    }
    printf( "W %s %s\n", c.name, hexes.c_str( ) );
}
'''


def run_cpp(batch, d):
    code = [CPP_HEAD]
    table = []
    for s in batch:
        get, sets = [], []
        for i, (_s, t, _w, e) in enumerate(s.items):
            if i == s.optional:
                get.append("*none = !bool( s.f%d ); v[ %d ] = *none ? 0 : (I)*s.f%d;" % (i, i, i))
            elif e:
                get.append("{ n::%s x = s.f%d; v[ %d ] = (I)x; }" % (e, i, i))
            else:
                get.append("v[ %d ] = (I)s.f%d;" % (i, i))
            sets.append("case %d: s.f%d = (%s)v; break;" % (i, i, "n::" + e if e else CPP_T[t]))
        code.append("static void get_%s( const unsigned char* p, I* v, bool* none ) { n::%s s( p ); (void)none; %s }"
                    % (s.name, s.name, " ".join(get)))
        code.append("static void set_%s( unsigned char* p, int f, I v ) { n::%sMutator s( p ); switch( f ) { %s } }"
                    % (s.name, s.name, " ".join(sets)))
        if s.is_range:
            t = CPP_T[s.items[s.extra[1]][1]]
            code.append("static void range_%s( const unsigned char* p, I* v ) { n::%s s( p ); std::pair< %s, %s > r = s.r; "
                        "v[ 0 ] = (I)r.first; v[ 1 ] = (I)r.second; }" % (s.name, s.name, t, t))
        code.append("static const int widths_%s[] = { %s };" % (s.name, ", ".join(str(i[2]) for i in s.items)))
        table.append('{ "%s", n::%s::size_in_bytes( ), %d, %s, "%s", widths_%s, %d, get_%s, %s, set_%s },' % (
            s.name, s.name, len(s.items), "true" if s.is_range else "false",
            "".join("i" if g.signed(i[1]) else "u" for i in s.items), s.name,
            -1 if s.optional is None else s.optional, s.name, "range_" + s.name if s.is_range else "nullptr", s.name))
    code.append("static const Case cases[] = { %s };\nint main( ) { for ( const Case& c : cases ) run( c ); }" % "\n".join(table))
    with open(os.path.join(d, "main.cpp"), "w") as f:
        f.write("\n".join(code))
    with open(os.path.join(d, "s.hpp"), "w") as f:
        f.write(vlib.render(schema_of(batch), "cpp"))
    r = vlib.sh(["clang++", *vlib.CXXFLAGS, "-O0", "-w", "-g0", "-I" + d, os.path.join(d, "main.cpp"), "-o", os.path.join(d, "main"),
                 *vlib.LDLIBS], timeout=600)
    if r.returncode:
        return None, "the generated C++ code does not compile:\n" + r.stdout[:3000]
    r = vlib.sh([os.path.join(d, "main")], timeout=120)
    return (parse(r.stdout, batch), None) if r.returncode == 0 else (None, "the program ended with %d" % r.returncode)


# ---- Rust ----------------------------------------------------------------------------------------
RUST_HEAD = r'''
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use] extern crate flatdata;
include!("s.rs");
struct Case { name: &'static str, size: usize, range: bool, types: &'static str, widths: &'static [u32],
    get: fn(&[u8]) -> Vec<Option<i128>>, ranges: Option<fn(&[u8]) -> (u64, u64)>, set: fn(&mut [u8], usize, i64) }
fn run(c: &Case) {
    println!("Z {} {}", c.name, c.size);
    let n = c.size * if c.range { 2 } else { 1 };
    let (mut reads, mut gets) = (String::new(), String::new());
    for k in 0..4 + 16 * n {
        let mut b = vec![0u8; n + 8];
        if k < 4 { for x in &mut b[..n] { *x = [0, 255, 0xa5, 0x5a][k] } for x in &mut b[n..] { *x = [255, 0, 0, 255][k] } }
        else { let inv = k & 1 == 1; for x in &mut b[..n] { *x = if inv { 255 } else { 0 } } for x in &mut b[n..] { *x = if inv { 0 } else { 255 } }
            b[(k - 4) / 2 / 8] ^= 1 << ((k - 4) / 2 % 8); }
        let row: Vec<String> = (c.get)(&b).into_iter().map(|v| v.map_or("none".to_string(), |v| v.to_string())).collect();
        reads += &row.join(","); reads += ";";
        if let Some(r) = c.ranges { let (x, y) = r(&b); gets += &format!("{},{};", x, y); }
    }
    println!("R {} {}", c.name, reads);
    if c.range { println!("G {} {}", c.name, gets); }
    let mut hexes = String::new();
    for (i, w) in c.widths.iter().enumerate() {
        let all: u64 = if *w == 64 { !0 } else { (1 << *w) - 1 };
        for v in [0u64, all, 1, 1 << (w - 1)].iter().cloned() {
            for bg in [0u8, 255].iter() {
                let mut b = vec![*bg; c.size + 8];
                let x = if c.types.as_bytes()[i] == b'i' && *w < 64 && (v >> (w - 1)) & 1 == 1 { v as i64 - (1i64 << w) } else { v as i64 };
                (c.set)(&mut b, i, x);
                for y in &b { hexes += &format!("{:02x}", y); }
                hexes += ",";
            }
        }
    }
    println!("W {} {}", c.name, hexes);
}
'''


def run_rust(batch, d, rust):
    code, table = [RUST_HEAD], []
    for s in batch:
        gets, sets = [], []
        for i, (_s, t, _w, e) in enumerate(s.items):
            gets.append("s.f%d().map(|x| x as i128)" % i if i == s.optional else "Some(s.f%d() as i128)" % i)
            value = "unsafe { std::mem::transmute::<%s, n::%s>(v as %s) }" % (t, e, t) if e else "v != 0" if t == "bool" else "v as " + t
            sets.append("%d => s.set_f%d(%s)," % (i, i, "Some(%s)" % value if i == s.optional else value))
        code.append("fn get_%s(b: &[u8]) -> Vec<Option<i128>> { let s = unsafe { &*(b.as_ptr() as *const n::%s) }; vec![%s] }"
                    % (s.name, s.name, ", ".join(gets)))
        code.append("fn set_%s(b: &mut [u8], f: usize, v: i64) { let s = unsafe { &mut *(b.as_mut_ptr() as *mut n::%s) }; "
                    "match f { %s _ => {} } }" % (s.name, s.name, " ".join(sets)))
        if s.is_range:
            code.append("fn range_%s(b: &[u8]) -> (u64, u64) { let s = unsafe { &*(b.as_ptr() as *const n::%s) }; "
                        "let r = s.r(); (r.start as u64, r.end as u64) }" % (s.name, s.name))
        table.append('Case { name: "%s", size: <n::%s as flatdata::Struct>::SIZE_IN_BYTES, range: %s, types: "%s", widths: &[%s], '
                     'get: get_%s, ranges: %s, set: set_%s }' % (
                         s.name, s.name, "true" if s.is_range else "false",
                         "".join("i" if g.signed(i[1]) else "u" for i in s.items), ", ".join(str(i[2]) for i in s.items),
                         s.name, "Some(range_%s)" % s.name if s.is_range else "None", s.name))
    code.append("fn main() { let cases: Vec<Case> = vec![%s]; for c in &cases { run(c); } }" % ",\n".join(table))
    exe, err = rust.compile(os.path.basename(d), "\n".join(code), modules=[("s.rs", vlib.render(schema_of(batch), "rust"))])
    if exe is None:
        return None, "the generated Rust code does not compile:\n" + err[:3000]
    r = vlib.sh([exe], timeout=120)
    return (parse(r.stdout, batch), None) if r.returncode == 0 else (
        None, "the program ended with %d: %s" % (r.returncode, r.stdout[-1000:]))


# ---- Go ------------------------------------------------------------------------------------------
GO_HEAD = r'''package n
import ("fmt"; "strings"; "io"; "github.com/heremaps/flatdata/flatdata-go/flatdata")
type verifMemory struct { data []byte }
func (m *verifMemory) Close() error { return nil }
func (m *verifMemory) Len() int { return len(m.data) }
func (m *verifMemory) At(i int) byte { return m.data[i] }
func (m *verifMemory) ReadAt(p []byte, off int64) (int, error) { n := copy(p, m.data[off:]); if n < len(p) { return n, io.EOF }; return n, nil }
var _ flatdata.MemoryDescriptor = &verifMemory{}
func verifBool(b bool) int { if b { return 1 }; return 0 }
type verifCase struct { name string; size int; ranged bool; get func(*verifMemory) []string }
func (c *verifCase) run() {
	fmt.Printf("Z %s %d\n", c.name, c.size)
	n := c.size
	if c.ranged { n *= 2 }
	var reads strings.Builder
	for k := 0; k < 4 + 16 * n; k++ {
		b := make([]byte, n + 8)
		fill, pad := byte(0), byte(255)
		if k < 4 { fill = []byte{0, 255, 0xa5, 0x5a}[k]; pad = []byte{255, 0, 0, 255}[k] } else if k & 1 == 1 { fill = 255; pad = 0 }
		for i := range b { if i < n { b[i] = fill } else { b[i] = pad } }
		if k >= 4 { b[(k - 4) / 2 / 8] ^= 1 << uint((k - 4) / 2 % 8) }
		reads.WriteString(strings.Join(c.get(&verifMemory{b}), ",")); reads.WriteString(";")
	}
	fmt.Printf("R %s %s\n", c.name, reads.String())
}
'''


def run_go(batch, d, go):
    code, table = [GO_HEAD], []
    for s in batch:
        gets = ["fmt.Sprint(%s)" % ("verifBool(s.GetF%d())" % i if t == "bool" else "s.GetF%d()" % i)
                for i, (_s, t, _w, _e) in enumerate(s.items)]
        code.append("func verifGet%s(m *verifMemory) []string { s := &%s{descriptor: m, position: 0}; return []string{%s} }"
                    % (s.name, s.name, ", ".join(gets)))
        table.append('{"%s", %s, %s, verifGet%s},' % (s.name, s.name[0].lower() + s.name[1:] + "SizeInBytes",
                                                     "true" if s.is_range else "false", s.name))
    code.append("func Verif() { for _, c := range []verifCase{\n%s\n} { c.run() } }" % "\n".join(table))
    name = os.path.basename(d)
    exe, err = go.compile(name, 'package main\nimport n "%s/n"\nfunc main() { n.Verif() }\n' % name,
                          [(name + "/n", "n.go", vlib.render(schema_of(batch, enums=False, archive=True), "go")),
                           (name + "/n", "h.go", "\n".join(code))])
    if exe is None:
        return None, "the generated Go code does not compile:\n" + err[:3000]
    r = vlib.sh([exe], timeout=120)
    return (parse(r.stdout, batch), None) if r.returncode == 0 else (None, "the program ended with %d" % r.returncode)


def job(arg):
    index, language, batch, base, tools = arg
    vlib.repo_on_path()
    g.cache_templates()
    d = os.path.join(base, "%s%d" % (language, index))
    os.makedirs(d)
    if language == "go":
        batch = [s for s in batch if not any(i[3] for i in s.items)]
    if not batch:
        return []
    try:
        got, err = {"py": run_python, "cpp": run_cpp}[language](batch, d) if language in ("py", "cpp") else \
            {"rust": run_rust, "go": run_go}[language](batch, d, tools[language])
    except Exception as e:  # pylint: disable=broad-except
        if not vlib.raised_in_repo(e):
            raise
        got, err = None, "raised %r" % e
    if err:
        if len(batch) == 1:
            return [("%s: %s" % (language, batch[0].describe()), err)]
        half = len(batch) // 2
        for k, part in enumerate((batch[:half], batch[half:])):
            bad = job((index * 2 + 1000 * (k + 1), language, part, d, tools))
            if bad:
                return bad
        return [("%s: %d structures in one schema" % (language, len(batch)), err)]
    bad = []
    for s in batch:
        size, reads, ranges, writes = got.get(s.name, (None,) * 4)
        want = s.reads(optional=language in ("cpp", "rust"))
        msg = None
        if language == "rust" and reads:
            one = [i for i, item in enumerate(s.items) if item[2] == 1 and g.signed(item[1]) and not item[3]]
            if any(row[i] == 1 for row in reads for i in one):
                # its own case (the unit test of the Rust reader demands 1): the rest of the structure is still judged
                bad.insert(0, (RUST_ONE_BIT, "reads 1 where -1 was written\n" + s.text()))
                reads = [[-1 if i in one and v == 1 else v for i, v in enumerate(row)] for row in reads]
                if ranges and s.extra[1] in one:
                    ranges = [[-1 if v == 1 else v for v in row] for row in ranges]
        if size != s.model.size:
            msg = "size is %s bytes, expected %d" % (size, s.model.size)
        elif reads != want:
            k = next((k for k in range(len(want)) if k >= len(reads) or reads[k] != want[k]), 0)
            msg = "over bytes %s reads %s, expected %s" % (s.buffers()[k].hex(), reads[k] if k < len(reads) else None, want[k])
        elif s.is_range and language in ("cpp", "rust") and ranges != s.ranges():
            w = s.ranges()
            k = next((k for k in range(len(w)) if k >= len(ranges) or ranges[k] != w[k]), 0)
            msg = "over bytes %s the range is %s, expected %s" % (s.buffers()[k].hex(), ranges[k], w[k])
        elif language != "go" and writes != s.writes():
            w = s.writes()
            k = next((k for k in range(len(w)) if k >= len(writes) or writes[k] != w[k]), 0)
            f = k // 8
            msg = "writing %d to f%d gives %s, expected %s" % (s.write_values(f)[k % 8 // 2], f, writes[k], w[k])
        if msg:
            bad.append(("%s: %s" % (language, s.describe()), msg + "\n" + s.text()))
            if len(bad) > 4:
                break
    return list({b[0]: b for b in bad}.values())


def body(check):
    check.rule = ("an evaluation is one structure in one language (read over every bit pattern of the stated set and written); "
                  "non-trivial: it has at least two fields, so that a displaced field would overlap another")
    check.assumptions = ["the Go back end has no enumerations and no optional or range accessors and only reads",
                         "the Python back end reads optional and range fields as plain values"]
    all_ = structs(check.thorough)
    if check.only is not None:
        all_ = [s for s in all_ if check.only.endswith(": " + s.describe()) or
                check.only == RUST_ONE_BIT and any(i[2] == 1 and g.signed(i[1]) for i in s.items)]
    size = 40 if not check.thorough else 150
    with vlib.scratch() as d:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(Rust, d), ex.submit(Go, d)
            tools = {"rust": a.result(), "go": b.result()}
        jobs = []
        for k in range(0, len(all_), size):
            jobs += [(k // size, language, all_[k:k + size], d, tools) for language in ("cpp", "rust")]
        for k in range(0, len(all_), 200):
            jobs += [(k // 200, language, all_[k:k + 200], d, tools) for language in ("py", "go")]
        for bad in vlib.parallel(job, jobs):
            for case, msg in bad:
                check.fail(case, msg)
    check.count(len(all_) * 4)
    for s in all_:
        if len(s.items) > 1:
            check.nontrivial(s.describe())
    check.extra["structures"] = len(all_)
    check.extra["buffers"] = sum(len(s.buffers()) for s in all_)
    check.sample(all_[len(all_) // 2].text() if all_ else "")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P03", "exploration"), body)
