"""P40: what the debugging aids of the C++ library tell: statistics of accesses to data, and dumps of archives in memory. Every
set of reads from an alphabet in every history of handles is done by the real library; the statistics are compared with the bytes read."""
import itertools
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import P10

SCHEMA = """namespace n {
struct S { a : u8 : 8; b : u32 : 32; c : u64 : 64; d : u8 : 4; e : i16 : 12; }
struct U { p : u8 : 4; q : u64 : 64; r : u8 : 4; }
const u16 NONE = 0xffff;
struct R { @range( run ) first : u32 : 32; x : u8 : 8; @optional( NONE ) o : u16 : 16; }
archive B { z : vector< U >; }
archive A { s : vector< S >; u : vector< U >; r : vector< R >; one : S; raw : raw_data; sub : archive B; }
archive D { u : vector< U >; raw : raw_data; sub : archive B; }
}
"""
PAGE = 4096
# field: bytes of the struct; fields end where bytes end, so that there is one answer
FIELDS = {"a": [0], "b": range(1, 5), "c": range(5, 13), "d": [13], "e": [13, 14], "p": [0], "q": range(0, 9), "r": [8],
          "f": range(0, 4), "R": list(range(0, 4)) + list(range(7, 11)), "x": [4], "o": [5, 6]}
COUNTED = {"R": 2, "o": None}      # reads that are counted to sizes; unclear for optional values
RESOURCES = {"s": ("s", 15, 600), "i": ("one", 15, 1), "u": ("u", 9, 456), "r": ("r", 7, 830), "z": ("sub/z", 9, 3)}
DATA = ["s", "u", "r", "one", "sub/z", "raw"]
MASK = (1 << 64) - 1


def value(field, k):
    return ((k + 1) * 0x9E3779B97F4A7C15 * (field + 1) & MASK) >> 3


def signed(v):
    return v % 4096 - 2048


def expected_value(op):
    kind, f = op[0], op[-1]
    if kind == "m":
        kind, k = "i", 7
    else:
        k = int(op[1:-1]) if kind not in "i" else 1000
    if kind in "si":
        return {"a": lambda: value(0, k) & 0xff, "b": lambda: value(1, k) & 0xffffffff, "c": lambda: value(2, k), "d": lambda: value(3, k) & 15, "e": lambda: signed(value(4, k))}[f]()
    if kind in "uz":
        return {"p": lambda: value(5, k) & 15, "q": lambda: value(6, k), "r": lambda: value(7, k) & 15}[f]()
    if f == "x":
        return value(8, k) & 0xff
    if f == "f":
        return 3 * k
    if f == "o":
        return "none" if k % 2 else k
    return "%d-%d" % (3 * k, 3 * (k + 1))


ALPHABET = ([("s%d%s" % (k, f)) for k in (0, 1, 272, 273, 599) for f in "abcde"] + [("u%d%s" % (k, f)) for k in (0, 2, 453, 454, 455) for f in "pqr"]
            + [("r%d%s" % (k, f)) for k in (0, 583, 584, 829) for f in "fRxo"] + ["i" + f for f in "abcde"] + ["z0q", "z2r", "mb", "md"])


class Mapping:
    def __init__(self, name, struct, owner):
        self.name, self.struct, self.owner, self.bytes, self.counted, self.uncounted = name, struct, owner, set(), 0, False


def model(mode, ops):
    """closed mappings in the report, open ones, bytes read elsewhere, values"""
    open_, closed, values, elsewhere = [], [], [], 0
    stack, storages, leaked = [], 0, set()

    def mappings(owner):
        for name, struct, _n in RESOURCES.values():
            open_.append(Mapping(name, struct, owner))
        open_.append(Mapping("raw", None, owner))

    def close(owner):
        if owner in stack or owner in leaked or (mode == "mem" and leaked):
            return
        for m in [m for m in open_ if m.owner == owner]:
            open_.remove(m)
            closed.append(m)
    for op in ops.split():
        if op == "O":
            owner = 0 if mode == "mem" else storages
            if mode != "mem" or not any(m.owner == 0 for m in open_):
                mappings(owner)
            storages += 1
            stack.append(owner)
        elif op == "C":
            stack.append(stack[-1])
        elif op == "x":
            owner = stack.pop()
            if mode != "mem":
                close(owner)
        elif op == "L":
            leaked.add(stack[-1])
        elif op == "c":
            del closed[:]
            for m in open_:
                m.bytes, m.counted, m.uncounted = set(), 0, False
        else:
            for part in op.split("|"):
                values.append(str(expected_value(part)))
                f = part[-1]
                if part[0] == "m":
                    elsewhere += len(list(FIELDS[f]))
                    continue
                name, struct, _n = RESOURCES[part[0]]
                k = 0 if part[0] == "i" else int(part[1:-1])
                m = next(m for m in open_ if m.owner == stack[-1] and m.name == name)
                m.bytes.update(8 + k * struct + b for b in FIELDS[f])
                m.counted += COUNTED.get(f, 1) or 0
                m.uncounted = m.uncounted or f == "o"
    while stack:
        owner = stack.pop()
        if mode != "mem":
            close(owner)
    if mode == "mem":
        close(0)
    return closed, open_, elsewhere, values


def parse(text):
    report = {"listed": [], "open": [], "elsewhere": 0, "problems": []}
    section = None
    for line in text.splitlines():
        if line.startswith("===== flatdata debug statistics"):
            section = "head"
        elif line.startswith("Total pages: "):
            report["total"] = int(line.split(": ")[1])
        elif line.startswith("Usage statistics:"):
            section = "usage"
        elif line.startswith("Resources not properly closed:"):
            section = "open"
        elif line.startswith("Unregistered data reads:"):
            section = "elsewhere"
        elif line.startswith("RESULTS"):
            report["values"] = line.split()[1:]
        elif section == "open":
            report["open"].append(line.strip())
        elif section == "elsewhere":
            report["elsewhere"] = int(line)
        elif section == "usage":
            m = re.match(r"^    (\S+)\((\S+)% of pages\): $", line)
            if m:
                report["listed"].append({"name": m.group(1), "share": m.group(2), "unused": None})
                continue
            m = re.match(r"^        bytes \[count\]: (\d+) out of (\d+)$", line)
            if m:
                report["listed"][-1]["bytes"] = (int(m.group(1)), int(m.group(2)))
                continue
            m = re.match(r"^        bytes \[accessed\]: (\S+)%$", line)
            if m:
                report["listed"][-1]["accessed"] = m.group(1)
                continue
            m = re.match(r"^        pages \[count\]: (\d+) out of (\d+)$", line)
            if m:
                report["listed"][-1]["pages"] = (int(m.group(1)), int(m.group(2)))
                continue
            m = re.match(r"^        pages \[data access\]: (\S+)%$", line)
            if m:
                report["listed"][-1]["density"] = m.group(1)
                continue
            if line == "        mixed data -> no padding analysis":
                continue
            if line == "        unused struct members:":
                report["listed"][-1]["unused"] = {}
                continue
            m = re.match(r"^            byte +(\d+) redundant: (\S+)%$", line)
            if m:
                report["listed"][-1]["unused"][int(m.group(1))] = m.group(2)
                continue
            report["problems"].append(line)
        else:
            report["problems"].append(line)
    return report


def describe(m, sizes):
    """the lines of a mapping, without and with the 8 bytes of its size"""
    out = []
    for header in (0, 8):
        read = m.bytes | set(range(header))
        pages = {b // PAGE for b in read}
        size = sizes[m.name]
        entry = {"name": m.name, "bytes": (len(read), size), "accessed": "%g" % (len(read) * 100.0 / size), "pages": (len(pages), (size + PAGE - 1) // PAGE),
                 "density": "%g" % (len(read) * 100.0 / len(pages) / PAGE) if pages else None}
        if m.uncounted:
            entry["unused"] = "any"
        elif m.counted <= 1:
            entry["unused"] = None
        else:
            structs = {}
            for b in m.bytes:
                structs.setdefault((b - 8) // m.struct, set()).add((b - 8) % m.struct)
            entry["unused"] = {}
            for b in range(m.struct):
                share = sum(b not in s for s in structs.values()) * 100.0 / len(structs)
                if share >= 25:
                    entry["unused"][b] = "%g" % share
        out.append(entry)
    return out


def assign(candidates, used=()):
    """each gets one of its own"""
    if not candidates:
        return used
    for i in dict.fromkeys(candidates[0]):
        if i not in used:
            found = assign(candidates[1:], used + (i,))
            if found is not None:
                return found
    return None


def judge(mode, ops, text, sizes):
    report = parse(text)
    closed, open_, elsewhere, values = model(mode, ops)
    if report["problems"]:
        return "what is this: %s" % report["problems"][:5]
    if "total" not in report:
        return "there are no statistics"
    if report.get("values") != values:
        return "reads %s instead of %s" % (report.get("values"), values)
    if report["elsewhere"] != elsewhere:
        return "%d bytes read from elsewhere instead of %d" % (report["elsewhere"], elsewhere)
    left = [describe(m, sizes) for m in closed if m.bytes]
    if len(left) != len(report["listed"]) and not any(len(pair[0]["name"]) and pair[0]["bytes"][0] <= 8 for pair in left):
        return "%s are listed instead of %s" % ([x["name"] for x in report["listed"]], [p[0]["name"] for p in left])
    pages, candidates = 0, []
    for got in report["listed"]:
        name = got["name"]
        for prefix in ("x/",):
            name = name[len(prefix):] if mode == "mem" and name.startswith(prefix) else name
        name = name.split("/data/")[-1]
        candidates.append([i for i, pair in enumerate(left) for entry in pair
                           if name == entry["name"] and all(got.get(k) == entry[k] for k in ("bytes", "accessed", "pages", "density")) and entry["unused"] in ("any", got["unused"])])
        pages += got["pages"][0]
        if got["share"] != "%g" % (got["pages"][0] * 100.0 / report["total"]):
            return "%s pages of %d are not %s%%" % (got["pages"][0], report["total"], got["share"])
    order = [x["pages"][0] for x in report["listed"]]
    if order != sorted(order, reverse=True):
        return "not sorted by pages: %s" % order
    used = assign(candidates)
    if used is None:
        return "%s are not %s" % (report["listed"], left)
    for pair in [pair for i, pair in enumerate(left) if i not in used]:   # the few bytes of these may be taken for their size
        if pair[0]["bytes"][0] > 8:
            return "%s is not listed" % pair[0]["name"]
        pages += pair[0]["pages"][0]
    if not pages <= report["total"] <= pages + 16 * (ops.split().count("O") + 1):      # a page of each file of each handle may be counted
        return "%d pages, but there are %d" % (report["total"], pages)
    names = sorted(n.split("/data/")[-1] if mode != "mem" else n[2:] for n in report["open"])
    want = sorted(m.name for m in open_)
    if sorted(n for n in names if n in DATA) != want or (names and not want):
        return "%s are not closed instead of %s" % (names, want)
    return ""


def histories(thorough):
    for op in ALPHABET:
        yield "O %s x" % op
        for h in ("O %s L x", "O c %s x", "O %s c x", "O C %s x c x", "O C x %s x", "O O x %s x", "O x O %s x", "O %s c {0} x", "O %s x c O {0} x", "O %s O {0} x x", "O C %s x {0} x", "O %s", "O L %s c {0} x",
                  "O O %s L x {0} x", "O O %s x L {0} x"):
            yield h.replace("{0}", op) % op
    for a, b in itertools.combinations(ALPHABET, 2):
        yield "O %s %s x" % (a, b)
        if a[0] != b[0]:
            continue
        for h in ("O %s O %s x x", "O %s x O %s x", "O %s c %s x", "O O %s x %s x", "O %s C %s c x x", "O C %s x c %s x"):
            yield h % (a, b)
    for n in (3, 4) if thorough else (3,):
        for kind in "surix"[:4]:
            todo = [a for a in ALPHABET if a[0] == kind]
            for several in itertools.combinations(todo, n):
                yield "O %s x" % " ".join(several)
    for kind in "suriz":      # every element of every resource by one field, and by several
        _name, _size, n = RESOURCES[kind]
        for f in {"s": "ae", "u": "pr", "r": "xR", "i": "ab", "z": "pq"}[kind]:
            every = ["%s%s%s" % (kind, "" if kind == "i" else k, f) for k in range(n)]
            for step in (1, 2, 3, 7, 64, 300):
                yield "O %s x" % " ".join(every[::step])
                yield "O %s x" % " ".join(every[::-step])


def concurrent():
    near = ["s0a", "s0c", "s0e", "s1a", "s1b", "s272c", "s272e", "s273a"]
    for a, b in itertools.combinations(near, 2):
        yield "O %s|%s x" % (a, b)
    for n in (3, 4):
        for several in itertools.combinations(near, n):
            yield "O %s x" % "|".join(several)
    yield "O s0a|u0p|r0x|ib x"


def dump_cases(thorough):
    lengths = range(0, 70) if thorough else range(0, 36)
    for nu in (0, 1, 2, 3, 5):
        for nraw in lengths:
            yield "dump %d %d %d" % (nu, nraw, (nraw * 37) % 256)
    for first in range(0, 256, 8):
        yield "dump 1 16 %d" % first
        yield "dump 0 256 %d" % first
    yield "dump 300 70000 3"


def decode(text, kind):
    """resources of a dump"""
    out, line_size = {}, 16 if kind == "hex" else 4
    rest = text
    while rest:
        m = re.match(r"^\n*(\S+) \((\d+) bytes\):\n", rest)
        if not m:
            raise ValueError("no resource starts at %r" % rest[:100])
        name, size = m.group(1), int(m.group(2))
        rest = rest[m.end():]
        data = bytearray()
        while len(data) < size:
            line, _n, rest = rest.partition("\n")
            n = min(line_size, size - len(data))
            if line[-n - 2] != "|" or line[-1] != "|":
                raise ValueError("no text in %r" % line)
            shown, tokens = line[-n - 1:-1], line[:-n - 2].split()
            if int(tokens[0], 16) != len(data) or len(tokens[0]) != 8:
                raise ValueError("wrong offset in %r" % line)
            values = [int(t, 16 if kind == "hex" else 2) for t in tokens[1:]]
            if len(values) != n or any(len(t) != (2 if kind == "hex" else 8) for t in tokens[1:]):
                raise ValueError("wrong bytes in %r" % line)
            if shown != "".join(chr(v) if 32 <= v < 127 else " " for v in values):
                raise ValueError("wrong text in %r" % line)
            data += bytes(values)
        if not size:    # nothing, or a line of blanks
            line, _n, after = rest.partition("\n")
            rest = after if line.strip(" |") == "" else rest
        if name in out:
            raise ValueError("%s comes twice" % name)
        out[name] = bytes(data)
        rest = rest.lstrip("\n")
    return out


def judge_dump(case, text, directory):
    files = {}
    for root, _d, names in os.walk(os.path.join(directory, "dump")):
        for name in names:
            p = os.path.join(root, name)
            with open(p, "rb") as f:
                files[os.path.relpath(p, os.path.join(directory, "dump"))] = f.read()
    if "NOT " in text[:100]:
        return text[:100]
    seen, pos = 0, text.index("DUMP ") if "DUMP " in text else 0
    raw = text.encode("utf-8", "surrogateescape")
    pos = raw.find(b"DUMP ")
    while raw[pos:pos + 8] != b"DUMP end":
        head, _n, _rest = raw[pos:pos + 100].partition(b"\n")
        words = head.split()
        if len(words) != 5 or words[0] != b"DUMP":
            return "%r" % raw[pos:pos + 100]
        kind, when, schemas, size = words[1].decode(), int(words[2]), int(words[3]), int(words[4])
        body = raw[pos + len(head) + 1:pos + len(head) + 1 + size]
        pos += len(head) + 1 + size
        try:
            got = {k[len("x/"):] if k.startswith("x/") else k: v for k, v in decode(body.decode("latin-1"), kind).items()}
        except (ValueError, IndexError) as e:
            return "%s, %s reading, %s schemas: %s" % (kind, ("before", "after")[when], ("without", "with")[schemas], e)
        want = {k: v for k, v in files.items() if schemas or not k.endswith(".schema")}
        if got != want:
            bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
            return "%s, %s reading, %s schemas: %s: %r instead of %r" % (kind, ("before", "after")[when], ("without", "with")[schemas], bad, got.get(bad[0]), want.get(bad[0]))
        seen += 1
    return "" if seen == 8 else "%d dumps" % seen


def job(args):
    exe, directory, lines, sizes, env = args
    os.makedirs(directory)
    os.symlink(os.path.join(os.path.dirname(directory), "data"), os.path.join(directory, "data"))
    failures = []
    chunks = [[line] for line in lines] if lines and lines[0].startswith("dump") else [lines[i:i + 200] for i in range(0, len(lines), 200)]
    for chunk in chunks:
        if len(failures) > 5:
            break
        if os.path.isdir(os.path.join(directory, "dump")):
            import shutil
            shutil.rmtree(os.path.join(directory, "dump"))
        r = subprocess.run([exe, directory], input="\n".join(chunk) + "\n", stdout=subprocess.PIPE, text=True, timeout=600, env=dict(os.environ, **env))
        status = r.stdout.split()
        for i, line in enumerate(chunk):
            path = os.path.join(directory, str(i))
            try:
                with open(path, encoding="utf-8", errors="surrogateescape") as f:
                    text = f.read()
                os.unlink(path)
            except OSError:
                text = ""
            if i >= len(status) or status[i] != "0":
                failures.append((line, "ends with %s: %s" % (status[i] if i < len(status) else "nothing", text[-3000:])))
                continue
            msg = judge_dump(line, text, directory) if line.startswith("dump") else judge(line.split()[0], line.split(" ", 1)[1], text, sizes)
            if msg:
                failures.append((line, msg + "\n" + text[-3000:]))
    return failures, len(lines)


def body(check):
    check.rule = ("every read of %d, every pair of reads in one and in histories of two handles, every triple of reads of a resource, whole resources in strides, x files and memory; "
                  "concurrent reads under ThreadSanitizer; dumps of every length; distinct: histories" % len(ALPHABET))
    with vlib.scratch() as root:
        with open(os.path.join(root, "d.hpp"), "w") as f:
            vlib.repo_on_path()
            f.write(vlib.render(SCHEMA, "cpp"))
        source = [os.path.join(vlib.VERIF, "cpp", "debugging.cpp")]
        define = ["-DDEBUG_DATA_ACCESS_STATISTICS", "-I" + root]
        exe, plain, tsan = vlib.parallel(build, [(root, "asan", source, define + P10.FLAGS), (root, "plain", source, define + ["-O2"]), (root, "tsan", source, define + ["-O1", "-g", "-fsanitize=thread"])])
        os.makedirs(os.path.join(root, "data"))
        r = vlib.sh([plain, root, "write"])
        if r.returncode:
            check.fail("write", "cannot write: " + r.stdout)
            return
        sizes = {name: os.path.getsize(os.path.join(root, "data", name)) for name in DATA}
        memory_first = [mode + " " + h for h in dict.fromkeys(histories(check.thorough)) for mode in ("file", "mem")]
        asan = [mode + " " + h for h in ["O %s x" % a for a in ALPHABET] + ["O %s L x" % a for a in ALPHABET] for mode in ("file", "mem")]
        threads = [mode + " " + h for h in concurrent() for mode in ("file", "mem")]
        dump = list(dump_cases(check.thorough))
        jobs = []
        for name, program, lines, env in (("plain", plain, memory_first, {}), ("asan", exe, asan, {"ASAN_OPTIONS": "detect_leaks=0"}), ("tsan", tsan, threads, {"TSAN_OPTIONS": "report_bugs=1 exitcode=66"}),
                                          ("dump", plain, dump, {})):
            if check.only is not None:
                lines = [line for line in lines if name + " " + line == str(check.only)]
            for k in range(8):
                part = lines[k::8]
                if part:
                    jobs.append((name, (program, os.path.join(root, "%s%d" % (name, k)), part, sizes, env)))
            check.extra[name + " histories"] = len(lines)
            for line in lines:
                check.nontrivial(name + " " + line[:100] + " %d" % len(line))
        for (name, _j), (failures, n) in zip(jobs, vlib.parallel(job, [j for _n, j in jobs])):
            check.count(n)
            for line, msg in failures:
                check.fail(name + " " + line, msg)
    check.sample("O s272c c s273a x: opened, one field over the end of a page read, cleared, another read: 1 byte of 9016, 1 page")
    check.assumptions.append("fields end at ends of the words they are read by; the bytes of the size of a resource may or may not be counted")


def build(args):
    root, name, source, flags = args
    return vlib.build_cpp(root, name, source, flags=flags)


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P40", "exploration"), body)
