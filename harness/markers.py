"""Harness for codestream marker segments."""
from spec import codestream as SP
from .common import (options, run, check_tests, check_props, observe, no_subtrees)

SPEC = {'siz': SP.siz, 'cod': SP.cod, 'coc': SP.coc, 'rgn': SP.rgn, 'qcd': SP.qcd,
        'qcc': SP.qcc, 'poc': SP.poc, 'crg': SP.crg, 'com': SP.com, 'cap': SP.cap,
        'prf': SP.prf, 'cpf': SP.cpf, 'sot': SP.sot, 'plt': SP.plt, 'plm': SP.plm}


def segment(ctx, kind, lengths, fmt, verbose=True, limits=(), csiz=(None,), masks=(),
            odd=(), anylength=False, heads=('',)):
    """A marker segment with arbitrary contents.  limits: (offset, size, lowest, highest) of
    big-endian fields; masks: (offset, size, mask) bits that may be set."""
    n = ctx.choose('length', lengths)
    c = bytes.fromhex(ctx.choose('head', list(heads))) + ctx.bytes('contents', n)
    n = len(c)
    comps = ctx.choose('components', list(csiz))
    for off, size, lo, hi in limits:
        if n >= off + size:
            v = int.from_bytes(c[off:off + size], 'big')
            ctx.assume(v >= lo)
            ctx.assume(v <= hi)
    for off, size, mask in masks:
        if n >= off + size:
            v = int.from_bytes(c[off:off + size], 'big')
            ctx.assume((v & mask) == v)
    for off in odd:
        if n > off:
            ctx.assume(c[off] % 2 == 1)
    if n >= 2 and not anylength:
        # a segment is cut out by its own length field, so it is never longer than that
        ctx.assume(int.from_bytes(c[0:2], 'big') >= n)
    v = run(options(fmt, verbose), kind, c, components=comps)
    observe(ctx, v)
    tests, props = SPEC[kind](c, fmt, comps)
    if tests is not None:
        check_tests(ctx, v.tests, tests, verbose)
        check_props(ctx, v.characteristics, props)
    no_subtrees(ctx, 'tests', v.tests)
    no_subtrees(ctx, 'properties', v.characteristics)
    if kind == 'sot':
        ctx.check('the tile-part length is passed on', v.tilePartLength ==
                  (int.from_bytes(c[4:8], 'big') if n >= 8 else -9999))


def long_segment(ctx, kind, heads, fmt, verbose=True, csiz=(None,), ascii=False):
    """A longer segment: concrete length and counts followed by arbitrary bytes; heads: (hex,
    number of arbitrary bytes, hex after these, number of arbitrary bytes, ...)."""
    parts = ctx.choose('head', heads)
    c = b''
    for i in range(0, len(parts), 2):
        n = parts[i + 1]
        body = ctx.bytes('contents%d' % i, n)
        if ascii:
            for k in range(n):
                ctx.assume(body[k] < 128)
                if kind == 'com' and k not in (0, 3, n - 1):
                    ctx.assume(32 <= body[k])
                    ctx.assume(body[k] < 127)
        c = c + bytes.fromhex(parts[i]) + body
    comps = ctx.choose('components', list(csiz))
    v = run(options(fmt, verbose), kind, c, components=comps)
    observe(ctx, v)
    tests, props = SPEC[kind](c, fmt, comps)
    if tests is not None:
        check_tests(ctx, v.tests, tests, verbose)
        check_props(ctx, v.characteristics, props)
    no_subtrees(ctx, 'tests', v.tests)
    no_subtrees(ctx, 'properties', v.characteristics)
