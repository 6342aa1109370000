"""P14: the real C++ tar reader and storage (ASan/UBSan) on every small tar of the enumeration and on every truncation and damage of
its headers, against an independent statement of the format, itself checked against CPython's tarfile."""
import itertools
import os
import subprocess
import sys
import tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import tarlib as tl

FLAGS = ["-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
DIALECTS = {"ustar library": tarfile.USTAR_FORMAT, "gnu library": tarfile.GNU_FORMAT, "pax library": tarfile.PAX_FORMAT}
END = b"\0" * 1024


class Server:
    def __init__(self, exe, root):
        self.exe, self.root, self.proc = exe, root, None
        os.makedirs(root, exist_ok=True)
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0")

    def ask(self, data):
        if self.proc is None:
            self.err = open(os.path.join(self.root, "err"), "w+")
            self.proc = subprocess.Popen([self.exe, self.root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env)
        out = []
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
            for line in self.proc.stdout:
                line = line.rstrip(b"\n")
                if line == b".":
                    return out
                out.append(line)
        except BrokenPipeError:
            pass
        rc = self.proc.wait()
        self.proc = None
        self.err.seek(0)
        text = self.err.read()
        at = text.find("ERROR")
        return "reader ended with %s: %s" % ("no answer for 20 s" if rc == -14 else rc, text[max(at, 0):][:400].replace("\n", " "))

    def close(self):
        if self.proc:
            self.proc.stdin.close()
            self.proc.wait()


def strip(name):
    return name[2:] if name[:2] == b"./" else name


def judge(server, data, keys=(), strict=None):
    """None or a message. strict: the members that were put in, where the caller knows"""
    try:
        want = tl.expected(data)
    except tl.Reject:
        want = "reject"
    except tl.Unspecified:
        want = None
    if strict is not None:
        if want in ("reject", None) or {strip(n): data[o:o + s] for n, o, s in want} != strict:
            raise RuntimeError("the reference reader misreads a tar of the enumeration: %r" % (want,))
    serve = {}
    if want not in ("reject", None):
        serve = {strip(n): data[o:o + s] for n, o, s in want}
    keys = sorted(set(keys) | set(serve) | {strip(n) + b"x" for n in serve} | {n[:-1] for n in serve if len(n) > 1}
                  | {n[:100] for n in serve} | {n[-100:] for n in serve})
    keys = [k for k in keys if b"\0" not in k and k]
    out = server.ask(b"T" + tl.frame(data) + len(keys).to_bytes(4, "little") + b"".join(map(tl.frame, keys)))
    if isinstance(out, str):
        return out
    split = next(i for i, x in enumerate(out) if x[:1] in b"SN")
    entries, state, answers = out[:split], out[split], out[split + 1:]
    rejected = bool(entries) and entries[-1] == b"X"
    got = [(bytes.fromhex(e.split(b" ")[3].decode()) if len(e.split(b" ")) > 3 else b"", int(e.split(b" ")[1]), int(e.split(b" ")[2]))
           for e in entries if e[:1] == b"E"]
    if len(data) and rejected != (state == b"NN"):
        return "the reader %s but the storage is %r" % ("rejects" if rejected else "accepts", state)
    if not len(data):
        return None
    for name, off, size in got:
        if off > len(data):
            return "entry %r begins at %d, after the end %d" % (name, off, len(data))
    if want == "reject":
        return None if rejected else "accepted: %r" % (got,)
    if want is None:
        if rejected:
            return None
        for key, a in zip(keys, answers):
            if a[:1] == b"=" and bytes.fromhex(hexpart(a, key)) not in data:
                return "%r serves bytes that are not in the file" % (key,)
        return None
    if rejected:
        return "rejected, expected %r" % (want,)
    if got != want:
        return "entries are %r, expected %r" % (got, want)
    for key, a in zip(keys, answers):
        depth = levels(key)
        if key in serve:
            line = b"=" + serve[key].hex().encode() + b"1" * depth
        else:
            line = b"-" + b"0" * depth
        if a != line:
            return "%r: %s, expected %s" % (key, a[:80], line[:80])
    return None


def levels(key):
    return 1 if key[:1] == b"/" or key[-1:] == b"/" or b"//" in key else key.count(b"/") + 1


def hexpart(a, key):
    return a[1:len(a) - levels(key)].decode()


# ---- enumerations; each yields (case, tar, keys, members or None) -----------------------------------------------------------------
def styles(thorough):
    for magic in ("gnu", "ustar", "v7"):
        for number in tl.NUMBERS:
            for checksum in tl.CHECKSUMS:
                if thorough or number == "nul" or checksum == "six nul space":
                    yield magic, number, checksum


def assemble(members, style, prefix=b""):
    parts = [tl.member(prefix + n, d, *style) for n, d in members]
    return None if None in parts else b"".join(parts) + END


def content(members):
    return {n: d for n, d in members if d is not None}


def enum_trees(thorough):
    items = [(b"f", b"1"), (b"d", None), (b"d/f", b"22"), (b"d/e", b"x" * 513), (b"g" * 101, b"long"), (b"h" * 105, None),
             (b"p" * 60 + b"/" + b"q" * 60, b"split")]
    size = 4 if thorough else 3
    keys = [b"f", b"d", b"d/f", b"e", b"d/", b"g" * 100, b"q" * 60]
    for k in range(0, size + 1):
        for members in itertools.permutations(items, k):
            tag = ",".join((n[:3] + (b"~" if len(n) > 3 else b"")).decode() + ("/" if d is None else "") for n, d in members)
            for prefix in (b"", b"./"):
                for magic in ("gnu", "ustar", "v7"):
                    tar = assemble(members, (magic,), prefix)
                    if tar is not None:
                        yield "tree [%s] %s prefix=%r" % (tag, magic, prefix.decode()), tar, keys, content(members)
                for name, fmt in DIALECTS.items():
                    if name == "pax library" and any(len(n) > 90 for n, d in members):
                        continue
                    try:
                        tar = tl.library(members, fmt, prefix.decode())
                    except ValueError:
                        continue
                    yield "tree [%s] %s prefix=%r" % (tag, name, prefix.decode()), tar, keys, content(members)


def enum_styles(thorough):
    sizes = [0, 1, 7, 8, 511, 512, 513, 1024, 4095, 4096, 4097]
    for style in styles(thorough):
        for size in sizes:
            members = [(b"a", bytes(range(1, 256)) * 17), (b"b", b"bb")]
            members[0] = (b"a", members[0][1][:size])
            yield "number style %s size %d" % ("/".join(style), size), assemble(members, style), [], content(members)
            long = [(b"a" * 120, members[0][1]), (b"b", b"bb")]
            if style[0] == "gnu":
                yield "number style %s long name size %d" % ("/".join(style), size), assemble(long, style), [b"a" * 100], content(long)


def enum_names(thorough):
    lengths = [1, 2, 3, 98, 99, 100, 101, 102, 103, 154, 155, 156, 199, 200, 201, 254, 255, 256, 257, 510, 511, 512, 513, 600]
    if thorough:
        lengths = list(range(1, 270)) + list(range(500, 530)) + list(range(1020, 1030))
    for n in lengths:
        for cut in sorted({0, 1, n // 2, n - 2, n - 101, n - 100, 154, 155, 100, 99}):
            if not 0 <= cut < n - 1:
                continue
            name = b"n" * n if cut == 0 else b"p" * cut + b"/" + b"l" * (n - cut - 1)
            for magic in ("gnu", "ustar", "v7"):
                for prefix in (b"", b"./"):
                    for kind in ("file", "directory"):
                        for members in ([(name, b"1"), (b"s", b"2")], [(b"s", b"2"), (name, b"1")],
                                        [(name, b"1"), (name + b"y", b"3"), (b"s", b"2")]):
                            if kind == "directory":
                                members = [(m, None if m == name else d) for m, d in members]
                            tar = assemble(members, (magic,), prefix)
                            if tar is None:
                                continue
                            yield "name length %d cut %d %s prefix=%r %s %d/%d" % (n, cut, magic, prefix.decode(), kind, len(members), members[0][0] == name), \
                                tar, [name[:100], name[-100:], b"s"], content(members)
    for name in (b"a b", "\u00e4\u20ac".encode(), b"\xff\xfe", b".hidden", b"..", b".", b"./", b"a\\b", b"-", b"f.schema", b"*", b"a/./b", b"//x", b"\x7f" * 100):
        for magic in ("gnu", "ustar", "v7"):
            members = [(name, b"1"), (b"s", b"2")]
            yield "name %r %s" % (name, magic), assemble(members, (magic,)), [name], None


def enum_updates(thorough):
    bodies = (b"", b"one", b"x" * 600)
    for a, b, c in itertools.product(bodies, repeat=3):
        for magic in ("gnu", "ustar"):
            members = [(b"f", a), (b"d/f", b), (b"f", c), (b"d", None)]
            yield "updated %d %d %d %s" % (len(a), len(b), len(c), magic), assemble(members, (magic,)), [], content(members)
    one, two = tl.member(b"a", b"1"), tl.member(b"b", b"22")
    for i, tail in enumerate((b"", b"\0" * 512, END, END + b"\0" * 9216, b"\0" * 512 + two, END + two)):
        yield "end of file %d" % i, one + tail, [b"b"], None
    yield "empty file", b"", [b"a"], None


def damaged(thorough):
    """base tars whose header bytes are damaged; every position and the interesting values, with and without a repaired checksum"""
    bases = {
        "plain": tl.member(b"f", b"abc") + tl.member(b"g", b"d" * 513) + END,
        "long": tl.member(b"n" * 120, b"abc") + tl.member(b"g", b"d") + END,
        "split": tl.member(b"p" * 80 + b"/" + b"q" * 80, b"abc", "ustar") + tl.member(b"g", b"d", "ustar") + END,
        "directory": tl.member(b"d", None, "ustar") + tl.member(b"d/f", b"abc", "ustar") + END,
    }
    values = range(256) if thorough else sorted({0, 1, 0x20, 0x2e, 0x2f, 0x30, 0x31, 0x33, 0x35, 0x37, 0x38, 0x4b, 0x4c, 0x53, 0x67, 0x78, 0x7f, 0x80, 0x81, 0xbf, 0xff})
    for name, data in bases.items():
        heads = [0, 1024, 2048] if name == "long" else [0, 512] if name == "directory" else [0, 1024]
        for h in heads:
            for pos in range(512):
                field = next(f for f, (o, n) in tl.FIELDS.items() if o <= pos < o + n)
                first = tl.FIELDS[field][0]
                here = values
                if field in ("size", "typeflag", "chksum") or pos == first:
                    here = range(256)
                for v in here:
                    if data[h + pos] == v:
                        continue
                    bad = bytearray(data)
                    bad[h + pos] = v
                    yield "damaged %s header %d %s[%d]=%d" % (name, h, field, pos - first, v), bytes(bad), [], None
                    if field != "chksum" and (thorough or field in ("name", "size", "typeflag", "magic", "prefix", "version")):
                        bad[h:h + 512] = tl.seal(bad[h:h + 512])
                        yield "damaged and sealed %s header %d %s[%d]=%d" % (name, h, field, pos - first, v), bytes(bad), [], None
        for cut in range(len(data)):
            yield "truncated %s %d" % (name, cut), data[:cut], [], None
        for block in range(len(data) // 512):
            yield "without block %s %d" % (name, block), data[:block * 512] + data[block * 512 + 512:], [], None
            yield "block zeroed %s %d" % (name, block), data[:block * 512] + b"\0" * 512 + data[block * 512 + 512:], [], None
            yield "block repeated %s %d" % (name, block), data[:block * 512 + 512] + data[block * 512:], [], None
            for other in range(len(data) // 512):
                if other != block:
                    d = [data[i:i + 512] for i in range(0, len(data), 512)]
                    d[block], d[other] = d[other], d[block]
                    yield "blocks swapped %s %d %d" % (name, block, other), b"".join(d), [], None


def enum_sizes(thorough):
    """sizes of contents and of long names that lead out of the file or around the number range"""
    values = set()
    for e in range(64):
        for d in (-513, -512, -511, -1, 0, 1, 511, 512, 513):
            values.add((1 << e) + d)
    for m in range(1, 12):
        for d in (-1, 0, 1):
            values.add((1 << 64) - 512 * m + d)
            values.add((1 << 63) - 512 * m + d)
            values.add((1 << 67) - 512 * m + d)
    values |= {(1 << 64) - 1, 1 << 64, (1 << 88) - 1, (1 << 64) + 3, (1 << 64) - 2}
    for v in sorted(x for x in values if x >= 0):
        for number in ("binary", "full"):
            if number == "full" and v >= 1 << 36:
                continue
            for before in (0, 1, 2):
                for after in (0, 1, 2):
                    for kind in (b"0", b"L"):
                        tar = tl.member(b"b", b"x") * before + tl.header(b"big", v, kind, "gnu", number) + tl.member(b"a", b"y") * after + END
                        yield "size %#x %s kind %r %d before %d after" % (v, number, kind.decode(), before, after), tar, [b"big", b"a", b"b"], None


PARTS = {"trees": enum_trees, "styles": enum_styles, "names": enum_names, "updates": enum_updates, "damaged": damaged, "sizes": enum_sizes}


def worker(job):
    exe, root, part, index, total, thorough, only = job
    server = Server(exe, os.path.join(root, "%s%d" % (part, index)))
    fails, n, kinds, cross = [], 0, set(), 0
    for i, (case, tar, keys, members) in enumerate(PARTS[part](thorough)):
        if i % total != index or (only is not None and case != only):
            continue
        msg = judge(server, tar, keys, members)
        n += 1
        kinds.add(tar if members is not None else case)
        if msg:
            fails.append((case, msg))
            if len(fails) > 30:
                break
        if members is not None and i % 7 == index % 7:
            # conformance of the reference: CPython's tarfile sees the same (it mistakes the times of old GNU headers for a prefix)
            lib = tl.read_with_library(tar)
            if b"\0" + tl.NUMBERS["nul"](1234567890, 12) * 2 in tar:
                continue
            if lib != members and b"./" not in b"".join(members) and " v7 " not in case:
                raise RuntimeError("tarfile reads %r from %s, the reference %r" % (lib, case, members))
            cross += 1
    server.close()
    return fails, n, len(kinds), cross


def archives(check, exe, root):
    """the archive of all resource kinds opened from tars of every dialect, order and layout, and from the directory"""
    module = vlib.python_module(fx.SCHEMA)
    base = fx.files(fx.py_schemas(module))
    server = Server(exe, os.path.join(root, "arc"))
    optional = ["oinst", "ovec", "omv", "oraw", "osub"]
    orders = {"name": sorted(base), "reverse": sorted(base, reverse=True),
              "schemas last": sorted(base, key=lambda f: (f.endswith(".schema"), f))}
    for bits in range(32):
        gone = [o for i, o in enumerate(optional) if bits >> i & 1]
        files = {f: c for f, c in base.items() if not any(f == g or f.startswith((g + ".", g + "_index", g + "/")) for g in gone)}
        tree = os.path.join(root, "tree%d" % bits)
        os.mkdir(tree)
        fx.write_dir(tree, files)
        want = server.ask(b"D" + tl.frame(tree.encode()))
        for oname, order in orders.items():
            order = [f for f in order if f in files]
            tars = []
            for fmt, dirs, prefix, sub in itertools.product(DIALECTS, (True, False), ("", "./"), ("", "deep/er")):
                moved = {(sub + "/" if sub else "") + f: c for f, c in files.items()}
                tars.append(("%s dirs=%s prefix=%r sub=%r" % (fmt, dirs, prefix, sub), sub,
                             fx.tar_bytes(moved, DIALECTS[fmt], prefix, dirs, [(sub + "/" if sub else "") + f for f in order])))
            for style in styles(False):
                tars.append(("/".join(style), "", assemble([(f.encode(), files[f]) for f in order], style)))
            for tag, sub, tar in tars:
                case = "archive without %s order=%s %s" % (gone, oname, tag)
                if not check.wants(case):
                    continue
                check.count()
                got = server.ask(b"A" + tl.frame(tar) + tl.frame(sub.encode()))
                if got != want:
                    check.fail(case, "opened from the tar: %s, from the directory: %s" % (str(got)[:300], str(want)[:300]))
        check.nontrivial(("archive", bits))
    server.close()


def body(check):
    check.rule = ("permutations of up to 3 of 7 member shapes x 6 writers x 2 prefixes, 40 number encodings x 11 sizes, name lengths and "
                  "splits around format limits, updates, size fields around all powers of two, every damage of one header byte (interesting "
                  "values, all for size/type/checksum, with and without repaired checksum), every truncation, block swaps; archives with all "
                  "32 subsets of optional resources; distinct: different tars")
    check.assumptions = ["pax extended headers, links and sparse members are rejected as a whole, which is documented",
                         "text after a number, empty numbers, regular members named like directories and contents that end after the file "
                         "only have to be handled within bounds"]
    with vlib.scratch() as root:
        exe = vlib.build_cpp(root, "p14", [os.path.join(vlib.VERIF, "cpp", "p14.cpp")], FLAGS, [("s.hpp", fx.SCHEMA)], compiler="clang++")
        jobs = [(exe, root, part, i, n, check.thorough, check.only)
                for part, n in (("damaged", 8), ("names", 3), ("trees", 4), ("sizes", 2), ("styles", 1), ("updates", 1)) for i in range(n)]
        counts = {}
        for job, (fails, n, kinds, cross) in zip(jobs, vlib.parallel(worker, jobs)):
            check.count(n)
            counts[job[2]] = counts.get(job[2], 0) + n
            for k in range(kinds):
                check.nontrivial((job[2], job[3], k))
            check.extra["confirmed_with_tarfile"] = check.extra.get("confirmed_with_tarfile", 0) + cross
            for case, msg in fails:
                check.fail(case, msg)
        archives(check, exe, root)
        for part, n in counts.items():
            check.extra["tars_" + part] = n
    check.sample("damaged and sealed split header 0 prefix[0]=0")
    check.sample("size 0xfffffffffffffe00 binary kind '0' 0 before 0 after")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P14", "fault_enumeration"), body)
