"""P23: describe() over every fault of P09 (all states of an archive) and over all pairs of small schemas, under ASan/UBSan."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import subprocess
import vlib
import cpparc as ca
import fixture as fx
import P09

OPTIONAL = {"oinst", "ovec", "omv", "oraw", "osub", "sub/o", "osub/o"}
ROW = re.compile(r"^( *)(\w+) +(YES|NO) +(YES|NO) +(YES|NO)(?: +(.*))?$")


def table(desc):
    rows, prefix, last = {}, "", None
    for text in desc.split("\n"):
        if text.strip().startswith("|-> Flatdata Archive: "):
            prefix = last + "/" if last else None
            if prefix is None or text.strip() != "|-> Flatdata Archive: Sub":
                return None
            continue
        m = ROW.match(text)
        if m:
            if m.group(1) == "":
                prefix = ""
            key = prefix + m.group(2)
            if key in rows:
                return None
            rows[key] = m.groups()[2:]
            if not prefix:
                last = m.group(2)
    return rows


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b):
            cur = row[j + 1]
            row[j + 1] = prev + 1 if x == y else max(row[j + 1], row[j])
            prev = cur
    return row[-1]


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def text_lines(s):
    out = s.split("\n")
    return out[:-1] if out[-1] == "" else out


def judge_diff(expected, found, lines):
    """lines: the description after its header"""
    shown = [x for x in lines if x[:1] in "+- " and len(x) >= 3 and x[1] == x[-1] == '"']
    rest = [x for x in lines if x not in shown and x not in ("...", "")]
    if rest:
        return "unexpected lines %r" % rest
    plus = [x[2:-1] for x in shown if x[0] == "+"]
    minus = [x[2:-1] for x in shown if x[0] == "-"]
    want = len(expected) + len(found) - 2 * lcs(expected, found)
    if len(plus) + len(minus) != want:
        return "%d differing lines are shown, %d lines differ" % (len(plus) + len(minus), want)
    left = sorted(expected)
    for x in minus:
        if x not in left:
            return "-%r is not in the expected schema" % x
        left.remove(x)
    right = sorted(found)
    for x in plus:
        if x not in right:
            return "+%r is not in the found schema" % x
        right.remove(x)
    if left != right:
        return "the lines not shown as differing are not the same: %r vs %r" % (left, right)
    if not subsequence([x[2:-1] for x in shown if x[0] != "+"], expected):
        return "shown lines are not in the order of the expected schema"
    if not subsequence([x[2:-1] for x in shown if x[0] != "-"], found):
        return "shown lines are not in the order of the found schema"
    return None


def details(path, base, files):
    p = ca.payload(files, base, path)
    if path in ("inst", "oinst"):
        return "Structure of size %d" % (fx.A if path == "inst" else fx.B).size
    if path in ("raw", "oraw") or path.endswith("/o"):
        return "Raw data of size %d" % len(p)
    if path in ("mv", "omv"):
        i = ca.payload(files, base, path + "_index")
        size = 5 if path == "mv" else 2
        n = len(i) // size - 1 if len(i) >= size else 0
        return "MultiArray of size %d, with index" % n if n else None
    size = (fx.B if path == "vec" else fx.A).size
    n = len(p) // size
    return "Array of size: %d in %d bytes" % (n, n * size) if n else None


def describe(base, files, is_open, got, desc):
    signature = ca.expected(base, files)[2]
    lines = desc.split("\n")
    if not signature:
        if "FATAL: Archive signature does not match" not in desc:
            return "no message about the signature:\n" + desc
        stored = files.get("Arc.archive.schema")
        if stored and 0 not in stored:
            start = max(i for i, x in enumerate(lines) if x.startswith("====") or "FATAL" in x) + 1
            expected = base["Arc.archive.schema"].decode()
            try:
                found = stored.decode()
            except UnicodeDecodeError:
                return None
            msg = judge_diff(text_lines(expected), text_lines(found), lines[start:])
            return msg and msg + "\n" + desc
        return None
    if ("initialization failed" in desc) == is_open:
        return "is_open() is %s, but the description is\n%s" % (is_open, desc)
    rows = table(desc)
    if rows is None:
        return "the table is not readable\n" + desc
    for path in ca.ORDER:
        loaded = got.get(path, "-") != "-"
        if "/" in path and got.get(path.split("/")[0]) == "-":
            if path in rows:
                return "%s of a subarchive that is not loaded is described\n%s" % (path, desc)
            continue
        if path not in rows:
            return "%s is not described\n%s" % (path, desc)
        optional, large, shown, text = rows[path]
        if (optional == "YES") != (path in OPTIONAL):
            return "%s: wrong optional flag\n%s" % (path, desc)
        if (shown == "YES") != loaded:
            return "%s: loaded is shown as %s, it reads %s\n%s" % (path, shown, got.get(path), desc)
        if large == "YES":
            return "%s is shown as too large\n%s" % (path, desc)
        if loaded and path not in ("sub", "osub"):
            want = details(path, base, files)
            if want and not (text or "").startswith(want):
                return "%s: details are %r, expected %r" % (path, text, want)
        if not loaded and (text or "").find(" of size") >= 0:
            return "%s is not loaded, its details are %r" % (path, text)
    if set(rows) - set(ca.ORDER):
        return "unknown resources %s\n%s" % (set(rows) - set(ca.ORDER), desc)
    return None


def encode(lines, end=True):
    return "".join(x + "," for x in lines) + ("" if end else "$")


def pairs(thorough):
    def seqs(alphabet, n):
        return [s for k in range(n + 1) for s in itertools.product(alphabet, repeat=k)]
    for e in seqs("abc", 4 if not thorough else 5):
        for f in seqs("abc", 4):
            yield encode(e) + "|" + encode(f)
    for e in seqs("ab", 6 if not thorough else 7):
        for f in seqs("ab", 5 if not thorough else 7):
            yield encode(e) + "|" + encode(f)
    for e in seqs(["a", ""], 4):      # empty lines, no newline at the end
        for f in seqs(["a", ""], 4):
            for g in (False, True):
                for h in (False, True):
                    yield encode(e, g) + "|" + encode(f, h)
    # long schemas: every length over the word sizes of a bit mask, a change at every distance from both ends
    for n in list(range(1, 140)) + ([190, 191, 192, 193, 255, 256, 257] if thorough else [192, 256]):
        e = ["l%d" % i for i in range(n)]
        for k in sorted({0, 1, 2, 3, 4, n // 2, n - 5, n - 4, n - 3, n - 2, n - 1}):
            if 0 <= k < n:
                yield encode(e) + "|" + encode(e[:k] + ["x"] + e[k:])
                yield encode(e) + "|" + encode(e[:k] + ["x"] + e[k + 1:])
                yield encode(e) + "|" + encode(e[:k] + e[k + 1:])
                yield encode(e) + "|" + encode(e[:k])
                yield encode(e[:k]) + "|" + encode(e)


def decode(s):
    text = s.rstrip("$").replace(",", "\n")
    return text[:-1] if s.endswith("$") and text else text


def job(arg):
    exe, cases = arg
    r = subprocess.run([exe], input="\n".join(cases) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=600)
    lines = r.stdout.split("\n")[:-1]
    bad = []
    for i, case in enumerate(cases):
        if i >= len(lines):
            bad.append((case, "the process ended with %s\n%s" % (r.returncode, r.stderr[-3000:])))
            break
        e, f = (decode(x) for x in case.split("|"))
        desc = lines[i].split(",")
        if e == f:
            if not lines[i].endswith("open"):
                bad.append((case, "equal schemas are not accepted: " + lines[i]))
            continue
        if not lines[i].endswith("closed") or "FATAL: Archive signature" not in lines[i]:
            bad.append((case, "a differing schema is not reported: " + lines[i]))
            continue
        desc[-1] = desc[-1][:-len("closed")]
        start = max(k for k, x in enumerate(desc) if x.startswith("====") or "FATAL" in x) + 1
        # lines of different text always end in different lines, except for a missing newline at the end
        if f == "":
            continue
        msg = judge_diff(text_lines(e), text_lines(f), desc[start:])
        if msg:
            bad.append((case, msg + "\n" + "\n".join(desc)))
            if len(bad) > 4:
                break
    return len(cases), bad


def body(check):
    check.rule = ("describe() after every fault of P09; every pair of line sequences up to 4 lines over {a,b,c}, 6/5 over {a,b}, "
                  "with empty lines and without last newline, and single changes in schemas of 1..139 lines; "
                  "distinct: sets of invalid resources and pairs of schemas")
    check.assumptions = ["a differing stored schema that is empty or holds NUL may be described without lines"]
    with vlib.scratch() as root:
        if check.only is None or not str(check.only).startswith("diff "):
            for k in P09.explore(check, describe, root):
                check.nontrivial(repr(k))
        exe = vlib.build_cpp(root, "diff", [os.path.join(vlib.VERIF, "cpp", "diff_server.cpp")], P09.FLAGS)
        cases = [c for c in pairs(check.thorough) if check.wants("diff " + c)]
        for n, bad in vlib.parallel(job, [(exe, cases[k::8]) for k in range(8) if cases[k::8]]):
            check.count(n)
            for case, msg in bad:
                check.fail("diff " + case, msg)
        for c in cases:
            check.nontrivial(c)
        check.extra["schema_pairs"] = len(cases)
        P09.refs(check, root)  # the too large column, for every size around every limit
        check.sample("diff a,b,|a,c,")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P23", "fault_enumeration"), body)
