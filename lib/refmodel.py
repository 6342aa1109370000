"""Boring reference model of the flatdata on-disk format (documented in /repo/docs), independent of
/repo's code: bit-packed little-endian structs, resources framed by an 8 byte size and 8 zero bytes."""


class S:
    """A struct: fields [(name, type, width)] packed back to back, rounded up to bytes."""
    def __init__(self, name, fields):
        self.name = name
        self.fields = []
        off = 0
        for fname, ftype, width in fields:
            self.fields.append((fname, ftype, width, off))
            off += width
        self.bits = off
        self.size = (off + 7) // 8

    def signed(self, ftype):
        return ftype.startswith("i")

    def pack(self, values):
        acc = 0
        for fname, _t, width, off in self.fields:
            acc |= (int(values[fname]) & ((1 << width) - 1)) << off
        return acc.to_bytes(self.size, "little")

    def unpack(self, data):
        acc = int.from_bytes(data[:self.size], "little")
        out = {}
        for fname, ftype, width, off in self.fields:
            v = (acc >> off) & ((1 << width) - 1)
            if self.signed(ftype) and v >> (width - 1):
                v -= 1 << width
            out[fname] = v
        return out

    def text(self):
        return "struct %s { %s }" % (self.name, " ".join(
            "%s : %s : %d;" % (n, t, w) for n, t, w, _ in self.fields))


def frame(payload):
    return len(payload).to_bytes(8, "little") + bytes(payload) + b"\0" * 8


def vector(struct, items):
    return frame(b"".join(struct.pack(i) for i in items))


def multivector(structs, index_width, lists):
    """lists of (struct position, values); returns (index file, data file) contents."""
    data, index = b"", b""
    isize = (index_width + 7) // 8
    for entries in lists:
        index += len(data).to_bytes(isize, "little")
        for pos, values in entries:
            data += bytes([pos]) + structs[pos].pack(values)
    index += len(data).to_bytes(isize, "little")
    return frame(index), frame(data)
