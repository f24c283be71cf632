"""Reference readers.  A field that is not completely present reads as -9999 (that is the
documented 'unreadable' value jpylyzer reports)."""

UNREADABLE = -9999


def rd(c, off, n, signed=False):
    s = c[off:off + n]
    if len(s) != n:
        return UNREADABLE
    return int.from_bytes(s, 'big', signed=signed)


def u8(c, off):
    return rd(c, off, 1)


def u16(c, off):
    return rd(c, off, 2)


def u32(c, off):
    return rd(c, off, 4)


def bit(v, p, width=8):
    """Bit p of v counted from the most significant bit, which is 1."""
    return (v >> (width - p)) % 2


def within(lo, v, hi):
    return v >= lo and v <= hi


def one_of(v, vals):
    r = False
    for x in vals:
        r = r or v == x
    return r


class Any:
    """Stands for a reported value that the reference does not prescribe."""


ANY = Any()
