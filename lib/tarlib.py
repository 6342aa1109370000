"""Writing tar files in several styles, header damage, and an independent statement of what a C++ reader of plain tar files
(regular files, directories, GNU long names, POSIX prefixes) has to make of a sequence of blocks."""
import io
import struct
import tarfile

BLOCK = 512
FIELDS = {"name": (0, 100), "mode": (100, 8), "uid": (108, 8), "gid": (116, 8), "size": (124, 12), "mtime": (136, 12), "chksum": (148, 8),
          "typeflag": (156, 1), "linkname": (157, 100), "magic": (257, 6), "version": (263, 2), "uname": (265, 32), "gname": (297, 32),
          "devmajor": (329, 8), "devminor": (337, 8), "prefix": (345, 155), "padding": (500, 12)}

# how numbers are written into a field of n bytes
NUMBERS = {
    "nul": lambda v, n: b"%0*o\0" % (n - 1, v),
    "space": lambda v, n: b"%0*o " % (n - 1, v),
    "full": lambda v, n: b"%0*o" % (n, v),
    "spaces first": lambda v, n: b"%*o\0" % (n - 1, v),
    "spaces around": lambda v, n: b"%*o " % (n - 1, v),
    "space nul": lambda v, n: b"%0*o \0" % (n - 2, v),
    "short": lambda v, n: (b"%o" % v).ljust(n, b"\0"),
    "binary": lambda v, n: bytes([0x80]) + v.to_bytes(n - 1, "big"),
}
CHECKSUMS = {
    "six nul space": lambda v: b"%06o\0 " % v,
    "seven nul": lambda v: b"%07o\0" % v,
    "six space nul": lambda v: b"%06o \0" % v,
    "spaces": lambda v: b"%6o\0 " % v,
    "seven space": lambda v: b"%07o " % v,
}


def seal(header, style="six nul space"):
    h = bytearray(header)
    h[148:156] = b" " * 8
    h[148:156] = CHECKSUMS[style](sum(h))
    return bytes(h)


def header(name, size, kind=b"0", magic="ustar", number="nul", checksum="six nul space", prefix=b""):
    h = bytearray(512)
    h[0:len(name)] = name
    h[100:108] = b"0000644\0"
    h[108:116] = b"0001750\0"
    h[116:124] = b"0001750\0"
    h[124:136] = NUMBERS[number](size, 12)
    h[136:148] = NUMBERS["nul"](1234567890, 12)
    h[156:157] = kind
    if magic == "ustar":
        h[257:265] = b"ustar\x0000"
        h[265:269] = b"user"
        h[329:337] = h[337:345] = b"0000000\0"
    elif magic == "gnu":
        h[257:265] = b"ustar  \0"
    if magic == "gnu" and prefix == b"":
        # old GNU headers keep times where POSIX has the prefix
        h[345:357] = NUMBERS["nul"](1234567890, 12)
        h[357:369] = NUMBERS["nul"](1234567890, 12)
    h[345:345 + len(prefix)] = prefix
    return seal(h, checksum)


def pad(data):
    return data + b"\0" * (-len(data) % BLOCK)


def member(name, data, magic="gnu", number="nul", checksum="six nul space"):
    """name: bytes; data: bytes, None for a directory. None if not representable."""
    kind, size = (b"5", 0) if data is None else (b"0" if magic != "v7" else b"\0", len(data))
    if data is None and not name.endswith(b"/"):
        name += b"/"
    body = pad(data or b"")
    if len(name) <= 100:
        return header(name, size, kind, magic, number, checksum) + body
    if magic == "gnu":
        long = header(b"././@LongLink", len(name) + 1, b"L", magic, number, checksum) + pad(name + b"\0")
        return long + header(name[:100], size, kind, magic, number, checksum) + body
    if magic == "ustar":
        for cut in range(len(name) - 1, -1, -1):
            if name[cut:cut + 1] == b"/" and cut <= 155 and 0 < len(name) - cut - 1 <= 100:
                return header(name[cut + 1:], size, kind, magic, number, checksum, name[:cut]) + body
    return None


def library(members, fmt, prefix=""):
    """written by CPython's tarfile"""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as tar:
        for name, data in members:
            info = tarfile.TarInfo(prefix + name.decode())
            if data is None:
                info.type, info.mode = tarfile.DIRTYPE, 0o755
                tar.addfile(info)
            else:
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data))
    return buf.getvalue()


def read_with_library(data):
    """{name: bytes} of the regular files, or None if tarfile cannot read it"""
    try:
        out = {}
        with tarfile.open(fileobj=io.BytesIO(data), mode="r:", encoding="utf-8", errors="surrogateescape") as tar:
            for info in tar:
                if info.isreg():
                    name = info.name.encode("utf-8", "surrogateescape")
                    out[name[2:] if name.startswith(b"./") else name] = tar.extractfile(info).read()
        return out
    except (tarfile.TarError, ValueError, EOFError):
        return None


class Unspecified(Exception):
    pass


class Reject(Exception):
    pass


def number(field):
    if field[0] & 0x80:
        v = int.from_bytes(bytes([field[0] & 0x7f]) + field[1:], "big")
        if v >= 1 << 64:
            raise Reject("number too large")
        return v
    text = field.lstrip(b" ")
    digits = text.split(b"\0")[0].split(b" ")[0]
    if any(c not in b"01234567" for c in digits):
        raise Reject("not an octal number")
    if not digits:
        raise Unspecified("empty number")
    rest = text[len(digits):].strip(b" \0")
    if rest:
        raise Unspecified("text after the number")
    return int(digits, 8)


def expected(data):
    """[(name, offset, size)] of the regular files in order; Reject or Unspecified.
    A size beyond the end of the file is Unspecified (only boundedness is required then)."""
    if len(data) % BLOCK:
        raise Reject("no whole number of blocks")
    at, out, long = 0, [], None
    while at < len(data):
        h = data[at:at + BLOCK]
        at += BLOCK
        if not any(h):
            break
        stored = number(h[148:156])
        if stored != sum(h) - sum(h[148:156]) + 8 * 32:
            raise Reject("checksum")
        kind = h[156:157]
        if kind in (b"0", b"\0"):
            name = long
            if name is None:
                name = h[:100].split(b"\0")[0]
                prefix = h[345:500].split(b"\0")[0]
                if prefix and h[257:263] == b"ustar\0":
                    name = prefix + b"/" + name
                elif prefix and h[257:263] != b"ustar ":
                    raise Unspecified("a prefix without a magic number")
            long = None
            if not name or name.endswith(b"/"):
                raise Unspecified("name of a directory")
            size = number(h[124:136])
            if size > len(data) - at:
                raise Unspecified("contents end after the file")
            out.append((name, at, size))
            at += size + -size % BLOCK
        elif kind == b"5":
            long = None
        elif kind == b"L":
            size = number(h[124:136])
            if size > len(data) - at:
                raise Reject("long name ends after the file")
            long = data[at:at + size].split(b"\0")[0]
            if not long:
                raise Unspecified("empty long name")
            at += size + -size % BLOCK
        else:
            raise Reject("kind")
    return out


def frame(data):
    return struct.pack("<I", len(data)) + data
