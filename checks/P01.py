"""P01: exhaustive check of Python's bit-packed field codec against an integer bit model."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

vlib.repo_on_path()
from flatdata.lib.data_access import read_value, write_value


def values_for(width, signed, full_bits):
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    if width <= full_bits:
        return list(range(lo, hi + 1))
    vals = {lo, lo + 1, hi, hi - 1, 0, 1}
    if signed:
        vals |= {-1, -2}
    for i in range(width):
        vals.add(1 << i)
        vals.add(((1 << width) - 1) ^ (1 << i))
    for pat in (0x5, 0x3, 0xF0F0F0F0F0F0F0F0, 0xA5A5A5A5A5A5A5A5, 0x0123456789ABCDEF,
                0xFEDCBA9876543210, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA):
        vals.add(pat & ((1 << width) - 1))
    out = set()
    for v in vals:
        if v > hi:
            v = v - (1 << width)
        if lo <= v <= hi:
            out.add(v)
    return sorted(out)


def backgrounds(nbits, thorough):
    full = (1 << nbits) - 1
    yield 0
    yield full
    a5 = int("A5" * ((nbits + 7) // 8), 16) & full
    yield a5
    yield full ^ a5
    if thorough:
        for i in range(nbits):
            yield 1 << i
            yield full ^ (1 << i)


def run_one(off, width, signed, value, bg, nbytes):
    """None if as the model says, else a message."""
    mask = ((1 << width) - 1) << off
    before = bg.to_bytes(nbytes, "little")
    expected = ((bg & ~mask) | ((value & ((1 << width) - 1)) << off)).to_bytes(nbytes, "little")
    buf = bytearray(before)
    try:
        r = write_value(buf, off, width, signed, value)
    except Exception as e:
        return "write raised %r" % (e,)
    if bytes(buf) != expected:
        return "write: buffer %s, expected %s" % (bytes(buf).hex(), expected.hex())
    for kind in (bytes, bytearray, memoryview):
        try:
            got = read_value(kind(expected), off, width, signed)
        except Exception as e:
            return "read from %s raised %r" % (kind.__name__, e)
        if got != value:
            return "read from %s returned %r" % (kind.__name__, got)
    return None


def job(args):
    off, thorough, only = args
    n, distinct, bad = 0, 0, []
    full_bits = 11 if thorough else 7
    for width in range(1, 65):
        need = (off + width + 7) // 8
        for signed in (False, True):
            vals = values_for(width, signed, full_bits)
            for extra in (0, 8):
                nbytes = need + extra
                if thorough and extra == 0:
                    bgs = list(backgrounds(nbytes * 8, True))
                else:
                    bgs = list(backgrounds(nbytes * 8, False))
                # the walking-bit backgrounds are combined with the boundary values only
                for k, bg in enumerate(bgs):
                    vs = vals if k < 4 else values_for(width, signed, 0)[:8]
                    for v in vs:
                        case = "off=%d width=%d signed=%d value=%d bg=%x extra=%d" % (
                            off, width, signed, v, bg, extra) if only else None
                        if only and case != only:
                            continue
                        n += 1
                        if v and bg:
                            distinct += 1
                        msg = run_one(off, width, signed, v, bg, nbytes)
                        if msg:
                            case = "off=%d width=%d signed=%d value=%d bg=%x extra=%d" % (
                                off, width, signed, v, bg, extra)
                            bad.append((case, msg))
                            if len(bad) > 3:
                                return n, distinct, bad
    return n, distinct, bad


def other_types(check):
    """Values of the types of numpy and bool write as the integers they are."""
    import numpy as np
    types = [np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64, np.int64, np.bool_, bool]
    for t in types:
        lo, hi = (0, 1) if t in (np.bool_, bool) else (int(np.iinfo(t).min), int(np.iinfo(t).max))
        for width in range(1, 65):
            for signed in (False, True):
                for v in values_for(width, signed, 0):
                    if not lo <= v <= hi:
                        continue
                    for off in (0, 1, 5, 7, 70):
                        case = "type=%s off=%d width=%d signed=%d value=%d" % (t.__name__, off, width, signed, v)
                        if not check.wants(case):
                            continue
                        check.count()
                        nbytes = (off + width + 7) // 8
                        bg = int("A5" * nbytes, 16)
                        buf = bytearray(bg.to_bytes(nbytes, "little"))
                        want = bg & ~(((1 << width) - 1) << off) | (v & ((1 << width) - 1)) << off
                        got = vlib.outcome(write_value, buf, off, width, signed, t(v))
                        if got[0] != "ok" or bytes(buf) != want.to_bytes(nbytes, "little"):
                            check.fail(case, "writes %s %r" % (buf.hex(), got[2] if got[0] != "ok" else ""))
                            return


def sequences(check):
    """All write orders of all 3-field partitions of small structs, incl. rewriting: the last value
    written to every field is what every field reads (fields never disturb each other)."""
    widths = (1, 3, 7, 8, 9, 13)
    n = 0
    for ws in itertools.product(widths, repeat=3):
        for lead in (0, 5):
            offs = [lead, lead + ws[0], lead + ws[0] + ws[1]]
            nbytes = (lead + sum(ws) + 7) // 8
            vals = [((1 << w) - 1, 0, (1 << (w - 1)) | (1 if w > 1 else 0)) for w in ws]
            steps = [(f, v) for f in range(3) for v in range(2)]
            for hist in itertools.product(steps, repeat=3 if not check.thorough else 4):
                case = "fields=%s lead=%d history=%s" % (ws, lead, hist)
                if not check.wants(case):
                    continue
                n += 1
                buf = bytearray(nbytes)
                state = [0, 0, 0]
                for f, v in hist:
                    write_value(buf, offs[f], ws[f], False, vals[f][v])
                    state[f] = vals[f][v]
                got = [read_value(buf, offs[f], ws[f], False) for f in range(3)]
                if got != state:
                    check.fail(case, "fields read %s, model %s" % (got, state))
    return n


def body(check):
    check.rule = ("every (bit offset, width 1..64, signedness, background pattern, boundary/all "
                  "values, exact or padded buffer); non-trivial: non-zero value over non-zero "
                  "background; plus every write history over 3 adjacent fields")
    offs = list(range(24)) if not check.thorough else list(range(64)) + [71, 100, 127, 513]
    only = check.only
    total = 0
    for n, distinct, bad in vlib.parallel(job, [(o, check.thorough, only) for o in offs]):
        total += n
        check.extra["nontrivial"] = check.extra.get("nontrivial", 0) + distinct
        for case, msg in bad:
            check.fail(case, msg)
    check.extra["distinct_nontrivial"] = check.extra.pop("nontrivial")
    other_types(check)
    hist = sequences(check)
    check.extra["write_histories"] = hist
    check.count(total + hist)
    check.sample("off=5 width=13 signed=1 value=-4096 over 0xff.. -> neighbours intact, reads -4096")
    check.assumptions = ["values within the range of the field (what does not fit is not specified)"]


if __name__ == "__main__":
    c = vlib.Check("P01", "exploration")
    vlib.run_check(c, body)
