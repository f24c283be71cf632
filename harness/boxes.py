"""Harnesses for resolution and metadata boxes."""
from spec.util import u8, u16, rd, within, ANY
from .common import (options, run, check_tests, check_props, observe, no_subtrees, leaves,
                     subtrees, check_values, TYPES)


def check_rounded(ctx, label, actual, reference, num, den, exp, factor=1):
    """actual is num/den*10^exp*factor (factor: a ratio) rounded to two decimals.  Symbolically:
    the same floating point term as the reference; on the real code: within rounding of the
    exact value."""
    if ctx.symbolic:
        ctx.check(label, actual == reference)
        return
    from fractions import Fraction
    exact = Fraction(num, den) * Fraction(10) ** exp * Fraction(factor)
    ctx.check(label, type(actual) in (int, float) and
              abs(Fraction(actual) - exact) <= Fraction(5001, 1000000) + abs(exact) / 10 ** 9)


def resolution(ctx, kind, lengths, fmt, verbose=True):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    v = run(options(fmt, verbose), kind, c)
    observe(ctx, v)
    k = kind[3]
    f = [('vR%sN' % k, u16(c, 0), 1, 65535), ('vR%sD' % k, u16(c, 2), 1, 65535),
         ('hR%sN' % k, u16(c, 4), 1, 65535), ('hR%sD' % k, u16(c, 6), 1, 65535),
         ('vR%sE' % k, rd(c, 8, 1, True), -128, 127), ('hR%sE' % k, rd(c, 9, 1, True), -128, 127)]
    tests = [('boxLengthIsValid', n == 10)] + [(t + 'IsValid', within(lo, x, hi))
                                               for t, x, lo, hi in f]
    props = [(t, x) for t, x, lo, hi in f]
    calc = ['%sRes%sInPixelsPer%s' % (d, k, u) for d in 'vh' for u in ('Meter', 'Inch')]
    check_tests(ctx, v.tests, tests, verbose)
    check_props(ctx, v.characteristics, props + [(t, ANY) for t in calc])
    no_subtrees(ctx, 'tests', v.tests)
    no_subtrees(ctx, 'properties', v.characteristics)
    got = {}
    for g, t, x in leaves(ctx, v.characteristics):
        got[t] = x
    for d, i in (('v', 0), ('h', 2)):
        num, den, exp = f[i][1], f[i + 1][1], f[4 + i // 2][1]
        if den <= 0 or exp < -128 or num < 0:
            continue
        ref = None
        ref2 = None
        if ctx.symbolic:
            ref = num / den * 10 ** exp
            ref2 = round(ref * 25.4e-3, 2)
            ref = round(ref, 2)
        m, inch = '%sRes%sInPixelsPerMeter' % (d, k), '%sRes%sInPixelsPerInch' % (d, k)
        if m in got and inch in got:
            check_rounded(ctx, m, got[m], ref, num, den, exp)
            check_rounded(ctx, inch, got[inch], ref2, num, den, exp, '254/10000')


def uuid_text(b):
    h = b.hex()
    return h[0:8] + '-' + h[8:12] + '-' + h[12:16] + '-' + h[16:20] + '-' + h[20:32]


XMP = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')


def uuid_box(ctx, lengths, fmt, verbose=True):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    if n >= 16:
        ctx.assume(c[0:16] != XMP)
    v = run(options(fmt, verbose), 'uuid', c)
    observe(ctx, v)
    check_tests(ctx, v.tests, [('boxLengthIsValid', n > 16)], verbose)
    check_props(ctx, v.characteristics, [('uuid', uuid_text(c[0:16]))] if n >= 16 else [])


def uuid_list(ctx, lengths, fmt, verbose=True, maxnu=3):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    nu = u16(c, 0)
    ctx.assume(nu <= maxnu)
    v = run(options(fmt, verbose), 'ulst', c)
    observe(ctx, v)
    props = [('nU', nu)]
    k = 0
    while k < nu and 2 + 16 * (k + 1) <= n:
        props.append(('uuid', uuid_text(c[2 + 16 * k:18 + 16 * k])))
        k = k + 1
    check_tests(ctx, v.tests, [('boxLengthIsValid', n == 2 + 16 * nu)], verbose)
    check_props(ctx, v.characteristics, props)


def uuid_list_long(ctx, counts, fmt='jp2'):
    n = ctx.choose('number', counts)
    nu = ctx.choose('claimed', [n - 1, n, n + 1])
    c = nu.to_bytes(2, 'big') + ctx.bytes('first', 16)
    for k in range(1, n - 1):
        c = c + bytes([k % 256, k // 256]) + 14 * b'A'
    c = c + ctx.bytes('last', 16)
    v = run(options(fmt, True), 'ulst', c)
    observe(ctx, v)
    props = [('nU', nu)]
    for k in range(min(nu, n)):
        props.append(('uuid', uuid_text(c[2 + 16 * k:18 + 16 * k])))
    check_tests(ctx, v.tests, [('boxLengthIsValid', nu == n)], True)
    check_props(ctx, v.characteristics, props)


def url(ctx, lengths, fmt, verbose=True):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    v = run(options(fmt, verbose), 'url', c)
    observe(ctx, v)
    loc = c[4:]
    end = len(loc) > 0 and loc[-1] == 0
    while len(loc) > 0 and loc[-1] == 0:
        loc = loc[0:len(loc) - 1]
    try:
        loc.decode('utf-8')
        text = True
    except UnicodeDecodeError:
        text = False
    check_tests(ctx, v.tests, [('versionIsValid', u8(c, 0) == 0),
                               ('flagIsValid', c[1:4] == b'\0\0\0'),
                               ('locHasNullTerminator', end), ('locIsUTF8', text)], verbose)
    check_props(ctx, v.characteristics, [('version', u8(c, 0)), ('loc', loc)])


class NotXML(Exception):
    pass


def parser(ctx, full):
    """Stand-in for the XML parser: accepts the full content / a shorter one as the solver
    likes; rejects with one of several exceptions.  The parsed element carries its source."""
    from jpylyzer import etpatch
    okfull = ctx.bool('full content is well-formed')
    okcut = ctx.bool('content without its end is well-formed')
    how = ctx.choose('rejection', [SyntaxError, ValueError, LookupError])

    def fromstring(text, *more):
        if okfull if len(text) == len(full) else okcut:
            e = etpatch.Element('parsed')
            e.text = text
            return e
        raise how('not well-formed')

    ctx.patch(etpatch, 'fromstring', fromstring)
    return okfull, okcut


def check_parsed(ctx, v, data, okfull, okcut, nullxml, others):
    cut = data
    while len(cut) > 0 and cut[-1] == 0:
        cut = cut[0:len(cut) - 1]
    if okfull:
        want = [('parsed', data)]
    elif nullxml and okcut and len(cut) < len(data):
        want = [('parsed', cut)]
    else:
        want = []
    check_props(ctx, v.characteristics, others + want)


def xml_box(ctx, lengths, fmt, verbose=True, nullxml=False):
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    okfull, okcut = parser(ctx, c)
    v = run(options(fmt, verbose, nullxml), 'xml', c)
    observe(ctx, v)
    check_tests(ctx, v.tests, [('containsWellformedXML', okfull)], verbose)
    check_parsed(ctx, v, c, okfull, okcut, nullxml, [])


def xmp_box(ctx, lengths, fmt, verbose=True, nullxml=False):
    n = ctx.choose('length', lengths)
    d = ctx.bytes('contents', n)
    okfull, okcut = parser(ctx, d)
    v = run(options(fmt, verbose, nullxml), 'uuid', XMP + d)
    observe(ctx, v)
    check_tests(ctx, v.tests, [('boxLengthIsValid', n > 0), ('containsWellformedXML', okfull)],
                verbose)
    check_parsed(ctx, v, d, okfull, okcut, nullxml, [])


GOOD = ['<a/>', '<?xml version="1.0" encoding="UTF-8"?><a b="c">d<e/>f</a>',
        '<x:a xmlns:x="urn:x">t</x:a>', '<a>\xe9</a>', '\n<a></a>\n', '<a>&lt;&#65;</a>']
BAD = ['', 'a', '<a>', '<a></b>', '<a/><b/>', '<a b=c/>', '<a>&x;</a>', '<a>\x01</a>', '<a/>\0',
       '<?xml version="1.0" encoding="nonsense"?><a/>', '</a>']


def xml_real(ctx, fmt, nullxml):
    """With the real parser, on sample contents."""
    k = ctx.choose('sample', list(range(len(GOOD) + len(BAD))))
    xmp = ctx.choose('xmp', [False, True])
    s = (GOOD + BAD)[k].encode('utf-8')
    v = run(options(fmt, True, nullxml), 'uuid' if xmp else 'xml', XMP + s if xmp else s)
    tests = [('containsWellformedXML', k < len(GOOD))]
    if xmp:
        tests = tests + [('boxLengthIsValid', len(s) > 0)]
    check_tests(ctx, v.tests, tests, True)
    kids = ctx.tree(v.characteristics)
    there = k < len(GOOD) or nullxml and (GOOD + BAD)[k] == '<a/>\0'
    ctx.check('parsed content is included', len(kids) == (1 if there else 0))
    if there and len(kids) == 1:
        ctx.check('with its name', kids[0][1].tag == ('{urn:x}a' if k == 2 else 'a'))
