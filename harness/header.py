"""Harnesses for the boxes of the JP2/JPH header."""
from spec import header as SP
from .common import (options, run, check_tests, check_props, observe, no_subtrees, subtrees,
                     leaves, check_values)

SPEC = {'jP': SP.signature, 'ftyp': SP.ftyp, 'ihdr': SP.ihdr, 'bpcc': SP.bpcc, 'pclr': SP.pclr,
        'cmap': SP.cmap, 'cdef': SP.cdef}


def simple_box(ctx, kind, lengths, fmt, verbose=True):
    """A leaf box with arbitrary contents reports exactly the reference tests/properties."""
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    v = run(options(fmt, verbose), kind, c)
    observe(ctx, v)
    tests, props = SPEC[kind](c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)
    no_subtrees(ctx, 'tests', v.tests)
    no_subtrees(ctx, 'properties', v.characteristics)


def pclr_box(ctx, maxne, maxnpc, maxlen, fmt, verbose=True):
    n = ctx.choose('length', list(range(0, maxlen + 1)))
    c = ctx.bytes('contents', n)
    if n >= 2:
        ctx.assume(c[0] == 0)
        ctx.assume(c[1] <= maxne)
    if n >= 3:
        ctx.assume(c[2] <= maxnpc)
    v = run(options(fmt, verbose), 'pclr', c)
    observe(ctx, v)
    tests, props = SP.pclr(c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)


def pclr_counts(ctx, fmt, verbose=True):
    """The counts of entries and columns over their whole ranges (one of them being zero)."""
    c = ctx.bytes('contents', 3)
    if ctx.choose('which', [0, 1]) == 0:
        ctx.assume(c[2] == 0)
    else:
        ctx.assume(c[0:2] == b'\0\0')
        ctx.assume(c[2] == ctx.choose('columns', [0, 1, 3, 40]))
    v = run(options(fmt, verbose), 'pclr', c)
    observe(ctx, v)
    tests, props = SP.pclr(c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)


def cdef_box(ctx, maxn, fmt, verbose=True):
    n = ctx.choose('length', list(range(0, 2 + 6 * maxn + 2)))
    c = ctx.bytes('contents', n)
    if n >= 2:
        ctx.assume(c[0] == 0)
        ctx.assume(c[1] <= maxn)
    v = run(options(fmt, verbose), 'cdef', c)
    observe(ctx, v)
    tests, props = SP.cdef(c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)


def profile(ctx, short, tags, cuts):
    """An ICC profile: either arbitrary bytes of one of the short lengths, or a complete header
    followed by a tag table (arbitrary signatures; offsets and sizes from a small set that
    reaches inside, at and past the end) and arbitrary tag data, cut off at some point."""
    n = ctx.choose('length', list(short) + [-1])
    if n >= 0:
        p = ctx.bytes('profile', n)
        if n >= 132:
            for k in range(128, 132):
                ctx.assume(p[k] == 0)
        return p
    nt = ctx.choose('tags', tags)
    p = ctx.bytes('header', 128) + nt.to_bytes(4, 'big')
    data = 132 + 12 * nt
    for k in range(nt):
        off, size = ctx.choose('place%d' % k, [(data, 17), (data + 3, 11), (132, 0xffffffff),
                                               (data + 20, 16)])
        p = p + ctx.bytes('sig%d' % k, 4) + off.to_bytes(4, 'big') + size.to_bytes(4, 'big')
    p = p + ctx.bytes('data', 20)
    cut = ctx.choose('cut', cuts)
    return p[0:len(p) - cut]


def colr_box(ctx, lengths, fmt, verbose=True):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    check_colr(ctx, c, fmt, verbose)


def colr_icc(ctx, short, tags, cuts, fmt, verbose=True):
    c = ctx.bytes('fixed', 3)
    ctx.assume(c[0] == ctx.choose('meth', [2, 3, 1]))
    check_colr(ctx, c + profile(ctx, short, tags, cuts), fmt, verbose)


def check_colr(ctx, c, fmt, verbose):
    v = run(options(fmt, verbose), 'colr', c)
    observe(ctx, v)
    tests, props, prof = SP.colr(c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)
    subs = subtrees(ctx, v.characteristics)
    if prof is None:
        ctx.check('no ICC properties without a profile', len(subs) == 0)
    else:
        ctx.check('one set of ICC properties', len(subs) == 1)
        if len(subs) == 1:
            ctx.check('ICC properties are reported', subs[0][0] and subs[0][1].tag == 'icc')
            check_values(ctx, 'icc', leaves(ctx, subs[0][1]), SP.icc_props(prof))
    no_subtrees(ctx, 'tests', v.tests)


def icc_profile(ctx, short, tags, cuts, fmt='jp2'):
    p = profile(ctx, short, tags, cuts)
    v = run(options(fmt, True), 'icc', p)
    observe(ctx, v)
    check_values(ctx, 'icc', leaves(ctx, v.characteristics), SP.icc_props(p))
    ctx.check('an ICC profile carries no tests of its own', len(ctx.tree(v.tests)) == 0)


def icc_count(ctx, maxtags):
    """The number of tags reported is the tag count field, capped at 4096."""
    p = ctx.bytes('header', 128) + ctx.bytes('count', 4) + ctx.bytes('table', 12 * maxtags)
    ctx.assume(p[128] == 0)
    ctx.assume(p[129] == 0)
    ctx.assume(p[130] == 0)
    ctx.assume(p[131] <= maxtags + 1)
    for k in range(maxtags):
        ctx.assume(p[132 + 12 * k:136 + 12 * k] != b'desc')
    v = run(options('jp2', True), 'icc', p)
    observe(ctx, v)
    check_values(ctx, 'icc', leaves(ctx, v.characteristics), SP.icc_props(p))


def long_box(ctx, kind, heads, fmt, verbose=True):
    """A longer box: a concrete beginning followed by arbitrary bytes; heads: (hex, number of
    arbitrary bytes, hex after these, number of arbitrary bytes, ...)."""
    parts = ctx.choose('head', heads)
    c = b''
    for k in range(0, len(parts), 2):
        c = c + bytes.fromhex(parts[k]) + ctx.bytes('contents%d' % k, parts[k + 1])
    v = run(options(fmt, verbose), kind, c)
    observe(ctx, v)
    tests, props = SPEC[kind](c, fmt)
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props)
    no_subtrees(ctx, 'tests', v.tests)
    no_subtrees(ctx, 'properties', v.characteristics)


def icc_table(ctx, counts):
    """A profile with a very long tag table: the description is at one of three places, three
    other signatures are arbitrary."""
    n = ctx.choose('tags', counts)
    at = ctx.choose('description', [0, n // 2, n - 1])
    free = [k for k in (1, n // 2 - 1, n - 2, n - 1) if k != at]
    data = 132 + 12 * n
    p = ctx.bytes('header', 128) + n.to_bytes(4, 'big')
    for k in range(n):
        if k == at:
            p = p + b'desc' + data.to_bytes(4, 'big') + (24).to_bytes(4, 'big')
        elif k in free:
            s = ctx.bytes('sig%d' % k, 4)
            ctx.assume(s[0] != 100)
            p = p + s + (data + k).to_bytes(4, 'big') + k.to_bytes(4, 'big')
        else:
            p = p + b'X' + k.to_bytes(3, 'big') + (data + k).to_bytes(4, 'big') + k.to_bytes(4, 'big')
    p = p + b'desc\0\0\0\0' + (12).to_bytes(4, 'big') + ctx.bytes('text', 12)
    v = run(options('jp2', True), 'icc', p)
    observe(ctx, v)
    check_values(ctx, 'icc', leaves(ctx, v.characteristics), SP.icc_props(p))


def icc_many(ctx, counts, size):
    """A profile with many tags, any of which is the description, and a longer description."""
    n = ctx.choose('tags', counts)
    at = ctx.choose('description', list(range(n)))
    p = ctx.bytes('header', 128) + n.to_bytes(4, 'big')
    data = 132 + 12 * n
    for k in range(n):
        if k == at:
            p = p + b'desc' + data.to_bytes(4, 'big') + (size + 12).to_bytes(4, 'big')
        else:
            s = ctx.bytes('sig%d' % k, 4)
            ctx.assume(s[0] != 100)
            p = p + s + (data + k).to_bytes(4, 'big') + (size + k).to_bytes(4, 'big')
    p = p + b'desc\0\0\0\0' + size.to_bytes(4, 'big') + ctx.bytes('text', size)
    v = run(options('jp2', True), 'icc', p)
    observe(ctx, v)
    check_values(ctx, 'icc', leaves(ctx, v.characteristics), SP.icc_props(p))
