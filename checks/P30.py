"""P30: the Rust tar storage on the tars of P14's enumeration: well-formed ones serve exactly their files, damaged ones are rejected or
serve bytes of the file, without panicking."""
import itertools
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import rustlib
import tarlib as tl
import P14


class Server:
    def __init__(self, exe, root):
        os.makedirs(root)
        self.exe, self.root, self.proc = exe, root, None

    def ask(self, data, keys):
        if self.proc is None:
            self.proc = subprocess.Popen([self.exe, os.path.join(self.root, "tar")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL)
        out = []
        try:
            self.proc.stdin.write(tl.frame(data) + tl.frame(bytes([len(keys)])) + b"".join(map(tl.frame, keys)))
            self.proc.stdin.flush()
            for line in self.proc.stdout:
                line = line.rstrip(b"\n")
                if line == b".":
                    return out
                out.append(line)
        except BrokenPipeError:
            pass
        rc = self.proc.wait()
        self.proc = None
        return [b"P the process ended with %d" % rc]

    def close(self):
        if self.proc:
            self.proc.stdin.close()
            self.proc.wait()


def judge(server, data, keys, members):
    files = dict(members or {})
    try:
        for n, o, s in tl.expected(data):
            if members is None:
                files[P14.strip(n)] = data[o:o + s]
    except (tl.Reject, tl.Unspecified):
        pass
    keys = sorted(set(keys) | set(files) | {n + b"x" for n in files} | {n[:-1] for n in files if len(n) > 1}
                  | {n[:100] for n in files} | {n[-100:] for n in files})
    # the same path in other words is the same file
    plain = [k for k in keys if k and b"\0" not in k and k[:1] != b"/" and all(p not in (b"", b".", b"..") for p in k.split(b"/"))
             and not any(c > 127 for c in k)][:255]
    out = server.ask(data, plain)
    if out and out[0][:1] == b"P":
        return "the library panics: " + out[0][2:].decode()
    if members is None:
        if out == [b"X"]:
            return None
        for key, a in zip(plain, out):
            if a[:1] == b"=" and bytes.fromhex(a[1:].decode()) not in data or a[:1] not in (b"=", b"-"):
                return "%r: %s" % (key, a[:100])
        return None
    if out == [b"X"]:
        return "the tar is rejected"
    directories = set()
    for key, a in zip(plain, out):
        if key in members:
            if a != b"=" + members[key].hex().encode():
                return "%r: %s, expected %s" % (key, a[:100], members[key].hex()[:100])
        elif a not in (b"-", b"="):
            return "%r: %s, but it is not in the tar" % (key, a[:100])
        elif a == b"=":
            directories.add(key)  # directories are members without contents
    return None


def worker(job):
    exe, root, part, index, total, thorough, only = job
    server = Server(exe, os.path.join(root, "%s%d" % (part, index)))
    fails, n, kinds = [], 0, 0
    for i, (case, tar, keys, members) in enumerate(P14.PARTS[part](thorough)):
        if i % total != index or (only is not None and case != only):
            continue
        msg = judge(server, tar, keys, members)
        n += 1
        kinds += 1
        if msg:
            fails.append((case, msg))
            if len(fails) > 30:
                break
    server.close()
    return fails, n, kinds


def archives(check, exe, root):
    """an archive of all resource kinds opened from tars of every dialect, order and layout and from the directory"""
    module = vlib.python_module(fx.SCHEMA)
    base = fx.files(fx.py_schemas(module))
    server = Server(exe, os.path.join(root, "arc"))
    orders = {"name": sorted(base), "reverse": sorted(base, reverse=True),
              "schemas last": sorted(base, key=lambda f: (f.endswith(".schema"), f))}
    for bits in range(32):
        gone = [o for i, o in enumerate(["oinst", "ovec", "omv", "oraw", "osub"]) if bits >> i & 1]
        files = {f: c for f, c in base.items() if not any(f == g or f.startswith((g + ".", g + "_index", g + "/")) for g in gone)}
        tree = os.path.join(root, "tree%d" % bits)
        os.mkdir(tree)
        fx.write_dir(tree, files)
        for oname, order in orders.items():
            order = [f for f in order if f in files]
            tars = []
            for fmt, dirs, prefix, sub in itertools.product(P14.DIALECTS, (True, False), ("", "./"), ("", "deep/er")):
                moved = {(sub + "/" if sub else "") + f: c for f, c in files.items()}
                tars.append(("%s dirs=%s prefix=%r sub=%r" % (fmt, dirs, prefix, sub), sub,
                             fx.tar_bytes(moved, P14.DIALECTS[fmt], prefix, dirs, [(sub + "/" if sub else "") + f for f in order])))
            for tag, sub, tar in tars:
                case = "archive without %s order=%s %s" % (gone, oname, tag)
                if not check.wants(case):
                    continue
                check.count()
                got = server.ask(tar, [b"dir:" + tree.encode() + b":" + sub.encode()])
                if got != [b"same"]:
                    check.fail(case, str(got)[:600])
        check.nontrivial(("archive", bits))
    server.close()


def body(check):
    check.rule = ("the tars of P14 (permutations of member shapes x writers x prefixes, number encodings, name lengths, updates, damaged "
                  "header bytes, truncations, block swaps, sizes around all powers of two) on the Rust storage, every file through every "
                  "chain of subdirectories; archives with all 32 subsets of optional resources; distinct: tars")
    check.assumptions = ["a tar that is not well-formed may be rejected or read, but only bytes of the file are served and nothing panics",
                         "directories are members without contents", "keys spelt with ., .., empty or non-ASCII components are not asked for"]
    with vlib.scratch() as root:
        rust = rustlib.Rust(root)
        with open(os.path.join(vlib.VERIF, "rust", "tar.rs")) as f:
            exe, err = rust.compile("tar", f.read(), modules=[("generated.rs", vlib.render(fx.SCHEMA, "rust"))])
        if exe is None:
            check.fail("compile", "programs using the generated code do not compile:\n" + err)
            return
        jobs = [(exe, root, part, i, n, check.thorough, check.only)
                for part, n in (("damaged", 8), ("names", 3), ("trees", 4), ("sizes", 2), ("styles", 1), ("updates", 1)) for i in range(n)]
        for job, (fails, n, kinds) in zip(jobs, vlib.parallel(worker, jobs)):
            check.count(n)
            check.extra["tars_" + job[2]] = check.extra.get("tars_" + job[2], 0) + n
            for k in range(kinds):
                check.nontrivial((job[2], job[3], k))
            for case, msg in fails:
                check.fail(case, msg)
        archives(check, exe, root)
    check.sample("truncated plain 700 -> rejected or bytes of the file")
    check.sample("tree [f,d/f] ustar prefix='./' -> both files")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P30", "fault_enumeration"), body)
