"""P08: every small tar file over subsets, orders, dialects, prefixes and name lengths: the real tar
storage and the real directory storage must give the same answer to every request."""
import io
import itertools
import os
import shutil
import sys
import tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import fixture as fx

DIALECTS = {"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}


def make_tar(members, fmt, prefix="", noise=None):
    """members: (name, bytes or None for a directory)"""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=DIALECTS[fmt],
                      pax_headers={"comment": "global"} if noise == "global" and fmt == "pax" else None) as tar:
        if prefix == "./":
            info = tarfile.TarInfo("./")
            info.type, info.mode = tarfile.DIRTYPE, 0o755
            tar.addfile(info)
        for i, (name, data) in enumerate(members):
            if noise == "links":
                info = tarfile.TarInfo(prefix + "link%d" % i)
                info.type, info.linkname = tarfile.SYMTYPE, "f"
                tar.addfile(info)
            info = tarfile.TarInfo(prefix + name)
            if data is None:
                info.type, info.mode = tarfile.DIRTYPE, 0o755
                tar.addfile(info)
            else:
                info.size = len(data)
                if noise == "meta":
                    info.mtime, info.uname, info.uid = 1234567890.75 if fmt == "pax" else 1234567890, "user", 70000
                tar.addfile(info, io.BytesIO(data))
    return buf.getvalue()


def write_tree(path, members):
    for name, data in members:
        p = os.path.join(path, name)
        if data is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)


def same(a, b, keys, at=""):
    """None or a message: storage a (tar) answers like storage b (directory), recursively"""
    la, lb = sorted(a.ls()), sorted(b.ls())
    if la != lb:
        return "ls(%r) is %r, expected %r" % (at, la, lb)
    for key in keys:
        for optional in (False, True):
            ra, rb = vlib.outcome(a.get, key, optional), vlib.outcome(b.get, key, optional)
            where = "get(%r, %s)" % (at + key, optional)
            if ra[0] != rb[0] or (ra[0] == "err" and ra[1] != rb[1]):
                return "%s is %r, expected %r" % (where, ra[1:], rb[1:])
            if ra[0] == "err":
                continue
            va, vb = ra[1], rb[1]
            if vb is None or va is None:
                if va is not vb:
                    return "%s is %r, expected %r" % (where, va, vb)
                continue
            if hasattr(vb, "ls"):
                if not hasattr(va, "ls"):
                    return "%s is %r, expected a directory" % (where, va)
                if not optional:
                    msg = same(va, vb, keys, at + key + "/")
                    if msg:
                        return msg
            elif hasattr(va, "ls") or bytes(va) != bytes(vb):
                return "%s differs from the file's %d bytes" % (where, len(vb))
    return None


class Env:
    def __init__(self, check, root):
        vlib.repo_on_path()
        from flatdata.lib.file_resource_storage import FileResourceStorage
        from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
        self.File, self.Tar = FileResourceStorage, TarArchiveResourceStorage
        self.check, self.root = check, root
        self.tar_path = os.path.join(root, "t.tar")

    def compare(self, case, tar, tree, keys, subs=("",)):
        if not self.check.wants(case):
            return
        with open(self.tar_path, "wb") as f:
            f.write(tar)
        for sub in subs:
            self.check.count()
            got = vlib.outcome(self.Tar.create, self.tar_path, sub)
            if got[0] != "ok":
                self.check.fail(case, "opening the tar raised %r" % (got[2],))
                return
            msg = same(got[1], self.File(os.path.join(tree, sub)), keys)
            if msg:
                self.check.fail(case, "at %r: %s" % (sub, msg))


def trees(env):
    """all subsets of a tree of files and directories x all orders x dialect x prefix x implicit dirs"""
    items = [("f", b"1"), ("d", None), ("d/f", b"22"), ("d/e", None), ("d/e/f", b"x" * 513), ("e", b"")]
    if env.check.thorough:
        items.append(("df", b"z" * 512))
    keys = ["f", "d", "e", "d/f", "d/e", "df", "g", "f/f", "d/e/f"]
    n = len(items)
    for bits in range(1 << n):
        subset = [items[i] for i in range(n) if bits >> i & 1]
        names = {s[0] for s in subset}
        tree = os.path.join(env.root, "tree")
        os.mkdir(tree)
        write_tree(tree, subset)
        # parents that exist on disk only because of their children are implicit in the tar
        implicit = any("/" in s and os.path.dirname(s) not in names for s in names)
        orders = itertools.permutations(subset) if len(subset) <= (5 if env.check.thorough else 4) \
            else [subset, subset[::-1]] + [subset[i:] + subset[:i] for i in range(1, len(subset))]
        subs = [""] + [d for d in ("d", "d/e") if os.path.isdir(os.path.join(tree, d))]
        for order in orders:
            for fmt in DIALECTS:
                for prefix in ("", "./"):
                    case = "tree %s %s prefix=%r" % (",".join(o[0] for o in order), fmt, prefix)
                    env.compare(case, make_tar(order, fmt, prefix), tree, keys, subs)
        env.check.nontrivial(("tree", bits, implicit))
        shutil.rmtree(tree)


def names(env):
    """name lengths around the limits of the formats (100, 155+100, 255), flat and nested"""
    lengths = [1, 97, 98, 99, 100, 101, 102, 127, 154, 155, 156, 157, 200, 250, 253, 254, 255]
    depths = (1, 2, 3)
    i = 0
    for length in lengths:
        for depth in depths:
            dirs = ["p%d" % d + "x" * ((length if length < 200 else 120) - 2 if depth > 1 and d == 0 else 5)
                    for d in range(depth - 1)]
            dirs = [d[:255] for d in dirs]
            leaf = "n" * length
            path = "/".join(dirs + [leaf])
            other = "/".join(dirs + ["o"])
            members = []
            for k in range(len(dirs)):
                members.append(("/".join(dirs[:k + 1]), None))
            tree = os.path.join(env.root, "names")
            write_tree(tree, members + [(path, b"long"), (other, b"other"), ("s", b"short")])
            keys = sorted({path, other, "s", leaf, "o"} | {"/".join(dirs[:k + 1]) for k in range(len(dirs))} | set(dirs)
                          | {path[:100].rstrip("/"), path[-100:].lstrip("/"), leaf[:-1] or "q"})
            for order in itertools.permutations([(path, b"long"), (other, b"other"), ("s", b"short")]):
                for fmt in DIALECTS:
                    for prefix in ("", "./"):
                        for noise in (None, "meta", "global"):
                            try:
                                tar = make_tar(members + list(order), fmt, prefix, noise)
                            except ValueError:
                                continue  # not representable in this dialect
                            case = "name length %d depth %d order %s %s prefix=%r noise=%s" % (
                                length, depth, "".join(o[0][0] for o in order), fmt, prefix, noise)
                            env.compare(case, tar, tree, keys)
                            i += 1
            env.check.nontrivial(("name", length, depth))
            shutil.rmtree(tree)


def special(env):
    """sizes around block limits, unusual characters, duplicate members, foreign members"""
    sizes = [0, 1, 511, 512, 513, 1023, 1024, 1025, 4096, 10240]
    for a in sizes:
        for b in sizes:
            tree = os.path.join(env.root, "sizes")
            m = [("a", bytes(range(1, 255)) * 50), ("b", b"b" * b), ("c", b"c")]
            m[0] = ("a", m[0][1][:a])
            write_tree(tree, m)
            for fmt in DIALECTS:
                for prefix in ("", "./"):
                    env.compare("sizes %d %d %s prefix=%r" % (a, b, fmt, prefix), make_tar(m, fmt, prefix), tree,
                                ["a", "b", "c", "d"])
            shutil.rmtree(tree)
        env.check.nontrivial(("size", a))
    odd = ["a b", "\u00e4\u20ac", "a.schema", ".hidden", "..x", "a\\b", "-", "*.archive", "x" * 100 + "\u00e4"]
    for x, y in itertools.permutations(odd, 2):
        tree = os.path.join(env.root, "odd")
        m = [(x, b"1"), (y + "d", None), (y + "d/" + x, b"2")]
        write_tree(tree, m)
        for fmt in DIALECTS:
            try:
                tar = make_tar(m, fmt)
            except (ValueError, UnicodeError):
                continue
            env.compare("names %r %r %s" % (x, y, fmt), tar, tree, [x, y + "d", y, x + "/" + y])
        shutil.rmtree(tree)
        env.check.nontrivial(("odd", x, y))
    # a member updated later in the same tar: the last one counts (as on extraction)
    for first, second, third in itertools.product((b"", b"one", b"x" * 600), repeat=3):
        tree = os.path.join(env.root, "dup")
        m = [("f", first), ("d/f", second), ("f", third), ("d", None)]
        write_tree(tree, m)
        for fmt in DIALECTS:
            env.compare("updated %d %d %d %s" % (len(first), len(second), len(third), fmt), make_tar(m, fmt), tree,
                        ["f", "d", "d/f"])
        shutil.rmtree(tree)
    # symbolic links between the members do not change what the others are
    tree = os.path.join(env.root, "links")
    m = [("f", b"1"), ("d", None), ("d/f", b"2"), ("g", b"3" * 512)]
    write_tree(tree, m)
    for order in itertools.permutations(m):
        for fmt in DIALECTS:
            case = "links %s %s" % (",".join(o[0] for o in order), fmt)
            if env.check.wants(case):
                env.check.count()
                with open(env.tar_path, "wb") as f:
                    f.write(make_tar(order, fmt, "", "links"))
                st = env.Tar.create(env.tar_path)
                for key in ("f", "d/f", "g"):
                    got = vlib.outcome(lambda: bytes(st.get(key)))
                    want = dict(m)[key]
                    if got[0] != "ok" or got[1] != want:
                        env.check.fail(case, "get(%r) is %r" % (key, got[1:]))
    shutil.rmtree(tree)


def sparse(env):
    """every encoding of a sparse member, at every position, is rejected"""
    def header(info, fmt):
        return info.tobuf(DIALECTS[fmt], "utf-8", "surrogateescape")

    def pax(headers, data):
        info = tarfile.TarInfo("s")
        info.size = len(data)
        info.pax_headers = headers
        return info.tobuf(tarfile.PAX_FORMAT, "utf-8", "surrogateescape") + data + b"\0" * (-len(data) % 512)

    old = tarfile.TarInfo("s")
    old.size, old.type = 512, tarfile.REGTYPE
    h = bytearray(header(old, "gnu"))
    h[156:157] = b"S"
    h[386:386 + 24] = b"00000002000\0" + b"00000001000\0"
    h[482:483] = b"\0"
    h[483:495] = b"00000003000\0"
    h[148:156] = b" " * 8
    h[148:156] = b"%06o\0 " % sum(h)
    v10 = b"1\n1024\n512\n"
    v10 += b"\0" * (512 - len(v10))
    forms = {
        "old gnu": bytes(h) + b"x" * 512,
        "pax 0.1": pax({"GNU.sparse.size": "1536", "GNU.sparse.numblocks": "1", "GNU.sparse.name": "s",
                        "GNU.sparse.map": "1024,512"}, b"x" * 512),
        "pax 0.0": pax({"GNU.sparse.size": "1536", "GNU.sparse.numblocks": "1", "GNU.sparse.offset": "1024",
                        "GNU.sparse.numbytes": "512"}, b"x" * 512),
        "pax 1.0": pax({"GNU.sparse.major": "1", "GNU.sparse.minor": "0", "GNU.sparse.name": "s",
                        "GNU.sparse.realsize": "1536"}, v10 + b"x" * 512),
    }
    plain = tarfile.TarInfo("f")
    plain.size = 3
    block = header(plain, "gnu") + b"abc" + b"\0" * 509
    end = b"\0" * 1024
    for form, data in forms.items():
        for before in range(3):
            for after in range(3):
                case = "sparse %s position %d of %d" % (form, before, before + after)
                if not env.check.wants(case):
                    continue
                env.check.count()
                with open(env.tar_path, "wb") as f:
                    f.write(block * before + data + block * after + end)
                got = vlib.outcome(env.Tar.create, env.tar_path)
                if got[0] == "ok" or got[1] != "CorruptResourceError":
                    env.check.fail(case, "opening gives %r, expected CorruptResourceError" % (got[1:],))
        env.check.nontrivial(("sparse", form))


def archives(env):
    """the archive with all resource kinds reads the same from a tar of every dialect and layout"""
    module = vlib.python_module(fx.SCHEMA)
    base = fx.files(fx.py_schemas(module))
    orders = {"name": sorted(base), "reverse": sorted(base, reverse=True),
              "schemas last": sorted(base, key=lambda f: (f.endswith(".schema"), f))}
    optional = ["oinst", "ovec", "omv", "oraw", "osub"]
    for bits in range(32):
        gone = [o for i, o in enumerate(optional) if bits >> i & 1]
        files = {f: c for f, c in base.items()
                 if not any(f == g or f.startswith((g + ".", g + "_index", g + "/")) for g in gone)}
        for oname, order in orders.items():
            order = [f for f in order if f in files]
            for fmt, dirs, prefix in itertools.product(DIALECTS, (True, False), ("", "./")):
                case = "archive without %s order=%s %s dirs=%s prefix=%r" % (gone, oname, fmt, dirs, prefix)
                if not env.check.wants(case):
                    continue
                env.check.count()
                with open(env.tar_path, "wb") as f:
                    f.write(fx.tar_bytes(files, DIALECTS[fmt], prefix, dirs, order))
                got = vlib.outcome(lambda: module.n_Arc(env.Tar.create(env.tar_path)))
                if got[0] != "ok":
                    env.check.fail(case, "opening raised %r" % (got[2],))
                    continue
                msg = fx.compare_py(got[1], fx.CONTENT, lambda p: p.split("/")[0] not in gone)
                if msg:
                    env.check.fail(case, msg)
        env.check.nontrivial(("archive", bits))


def body(check):
    check.rule = ("all subsets of a 6-member tree in every order (up to 4 members, rotations above), "
                  "name lengths and member sizes around format limits, each in 3 dialects and 2 prefix styles; "
                  "every key requested from tar and directory storage and compared; distinct = different member sets")
    check.assumptions = ["tar files are written by CPython's tarfile in ustar, GNU and pax dialect",
                         "links and device members are not served"]
    with vlib.scratch() as root:
        env = Env(check, root)
        sparse(env)
        archives(env)
        special(env)
        names(env)
        trees(env)
    check.sample("tree d/e/f,f,d ustar prefix='./' : every key and subdirectory equal to the directory")
    check.sample("name length 101 depth 2 gnu prefix='./'")


vlib.run_check(vlib.Check("P08", "exploration"), body)
