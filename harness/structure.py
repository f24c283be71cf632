"""Harnesses for superboxes and whole files."""
from spec import structure as SP
from spec import codestream as CS
from spec.util import ANY
from .common import (options, run, check_values, check_tests, observe, TYPES, leaves)

NAMES = {
    'jP': 'signatureBox', 'ftyp': 'fileTypeBox', 'ihdr': 'imageHeaderBox',
    'bpcc': 'bitsPerComponentBox', 'colr': 'colourSpecificationBox', 'pclr': 'paletteBox',
    'cmap': 'componentMappingBox', 'cdef': 'channelDefinitionBox', 'res': 'resolutionBox',
    'resc': 'captureResolutionBox', 'resd': 'displayResolutionBox', 'jp2h': 'jp2HeaderBox',
    'jp2c': 'contiguousCodestreamBox', 'jp2i': 'intellectualPropertyBox', 'xml': 'xmlBox',
    'uuid': 'uuidBox', 'uinf': 'uuidInfoBox', 'ulst': 'uuidListBox', 'url': 'urlBox'}


def box(t, contents):
    return (8 + len(contents)).to_bytes(4, 'big') + t + contents


def unknown_type(ctx, name):
    t = ctx.bytes(name, 4)
    for x in t:                  # (any other bytes: see the framing harness)
        ctx.assume(x >= 33)
        ctx.assume(x <= 126)
    for k in NAMES:
        ctx.assume(t != TYPES[k])
    return t


def same_text(a, b):
    if a is None or b is None:
        return a is b
    return type(a) == type(b) and a == b


def same_tree(ctx, label, a, b):
    """Element b has the same name, text and children as a."""
    ctx.check(label + ': name', a.tag == b.tag)
    ctx.check(label + ': text', same_text(a.text, b.text))
    same_children(ctx, label, ctx.tree(a), ctx.tree(b))


def same_children(ctx, label, ka, kb):
    if len(ka) != len(kb):      # conditionally present children: decide them
        ka = [x for x in ka if x[0] is True or x[0]]
        kb = [x for x in kb if x[0] is True or x[0]]
    ctx.check(label + ': number of children', len(ka) == len(kb))
    for k in range(min(len(ka), len(kb))):
        ctx.check(label + ': present', ka[k][0] == kb[k][0])
        same_tree(ctx, label, ka[k][1], kb[k][1])


def split(ctx, elem, names):
    """(own leaves, sub-elements) of a report: sub-elements are those called like a box."""
    own, subs = [], []
    for g, c in ctx.tree(elem):
        if c.tag in names:
            subs.append((g, c))
        else:
            own.append((g, c.tag, c.text))
    return own, subs


def check_reports(ctx, v, children, skip=()):
    """children: validator objects of the sub-boxes run on their own.  Their reports must be
    there, in order and unchanged; returns the superbox's own tests and properties."""
    names = set([c.characteristics.tag for c in children]) | set([c.tests.tag for c in children])
    owntests, subtests = split(ctx, v.tests, names)
    ownprops, subprops = split(ctx, v.characteristics, names)
    want = [(True, c.characteristics) for c in children]
    same_children(ctx, 'properties of sub-boxes', want, subprops)
    same_children(ctx, 'tests of sub-boxes', nonempty(ctx, [c.tests for c in children]), subtests)
    same_children(ctx, 'warnings of sub-boxes', nonempty(ctx, [c.warnings for c in children]),
                  ctx.tree(v.warnings))
    return owntests, ownprops


def nonempty(ctx, elems):
    out = []
    for e in elems:
        kids = ctx.tree(e)
        g = False
        for h, c in kids:
            g = g or h
        if g is not False:
            out.append((g, e))
    return out


def check_own(ctx, what, own, expected, verbose, skip=()):
    own = [x for x in own if x[1] not in skip]
    expected = [x for x in expected if x[0] not in skip]
    if verbose:
        check_values(ctx, what, own, expected)
    else:
        for g, t, x in own:
            ctx.check('%s: terse value of %s' % (what, t), not g or x is False)
        got = [t for g, t, x in own if g]
        for t, x in expected:
            ctx.check('%s: %s reported if it failed' % (what, t), (t in got) == (not x))
        for t in got:
            ctx.check('%s: known test' % what, t in [e[0] for e in expected])


def ihdr_bytes(ctx, name):
    """An image header: everything symbolic that other rules look at."""
    b = ctx.bytes(name, 3)
    return b'\0\0\0\x01\0\0\0\x02\0\x01' + b[0:1] + b'\x07' + b[1:3], b[0], b[1], b[2]


def header_box(ctx, n, first, alphabet, fmt, verbose=True, fixed=False):
    """A JP2 header box with n sub-boxes of any of the kinds in the alphabet."""
    kinds = []
    data = b''
    parts = []
    unkc = bpc = None
    ctypes = []
    for k in range(n):
        kind = first if k == 0 else ctx.choose('kind%d' % k, alphabet)
        if kind == 'ihdr':
            if fixed or 'ihdr' in kinds:
                c, b, u = b'\0\0\0\x01\0\0\0\x02\0\x01\x07\x07\0\0', 7, 0
            else:
                c, b, u, i = ihdr_bytes(ctx, 'ihdr%d' % k)
            if 'ihdr' not in kinds:
                bpc, unkc = b, u
        elif kind == 'short':          # image header that ends before the fields
            kind = 'ihdr'
            c = b'\0\0\0\x01'
            if 'ihdr' not in kinds:
                bpc, unkc = -9999, -9999
        elif kind == 'cdef':
            if 'cdef' in kinds:
                ct = b'\0\1'
            elif fixed:
                ct = b'\0\0'
            else:
                ct = ctx.bytes('ctyp%d' % k, 2)
            c = b'\0\x02\0\0\0\2\0\0\0\1' + ct + b'\0\1'
            ctypes = ctypes + [2, int.from_bytes(ct, 'big')]
        elif kind == 'colr':
            c = b'\x01\0\0\0\0\0\x10'
        elif kind == 'bpcc':
            c = b'\x07'
        elif kind == 'pclr':
            c = b'\0\1\1\7\5'
        elif kind == 'cmap':
            c = b'\0\0\1\0'
        elif kind == 'res':
            c = b''
        else:
            c = b''
        kinds.append(kind)
        t = TYPES[kind] if kind in TYPES else unknown_type(ctx, 'type%d' % k)
        parts.append((t, c))
        data = data + box(t, c)
    o = options(fmt, verbose)
    v = run(o, 'jp2h', data)
    observe(ctx, v)
    kids = [run(o, t, c) for t, c in parts]
    tests, props = check_reports(ctx, v, kids)
    skip = ('containsColourSpecificationBox',) if fmt == 'jph' and unkc is None else ()
    check_own(ctx, 'test', tests, SP.jp2h(kinds, fmt, unkc, bpc, ctypes), verbose, skip)
    ctx.check('the header box has no properties of its own', len(props) == 0)


def small_super(ctx, which, n, fmt, verbose=True):
    """Resolution and UUID info boxes."""
    spec, alphabet = {'res': (SP.res, ['resc', 'resd', 'other']),
                      'uinf': (SP.uinf, ['ulst', 'url', 'other'])}[which]
    kinds = []
    data = b''
    parts = []
    for k in range(n):
        kind = ctx.choose('kind%d' % k, alphabet)
        c = {'resc': b'\0\1\0\1\0\1\0\1\0\0', 'resd': b'\0\2\0\1', 'ulst': b'\0\0',
             'url': b'\0\0\0\0a\0', 'other': b'12'}[kind]
        kinds.append(kind)
        t = TYPES[kind] if kind in TYPES else unknown_type(ctx, 'type%d' % k)
        parts.append((t, c))
        data = data + box(t, c)
    o = options(fmt, verbose)
    v = run(o, which, data)
    observe(ctx, v)
    tests, props = check_reports(ctx, v, [run(o, t, c) for t, c in parts])
    check_own(ctx, 'test', tests, spec(kinds), verbose)
    ctx.check('no properties of its own', len(props) == 0)


def check_framing(ctx, o, which, data):
    v = run(o, which, data)
    observe(ctx, v)
    parts = SP.boxes(data)
    kids = [run(o, t, c) for t, c in parts]
    check_reports(ctx, v, kids)
    return v, parts, kids


def one_box(ctx, which, kind, extra, fmt='jp2', verbose=True, zero_ext=False):
    """A box with an arbitrary length field (and, if that is 1, an arbitrary extended length)
    followed by `extra` more bytes."""
    t = TYPES[kind] if kind in TYPES else unknown_type(ctx, 'type')
    n = ctx.choose('extra', extra)
    size = ctx.bytes('length', 4)
    data = size + t
    if ctx.choose('extended', [False, True]):
        ctx.assume(size == b'\0\0\0\1')
        ext = ctx.bytes('extended length', min(n, 8))
        if len(ext) == 8:
            ctx.assume(ext != b'\0\0\0\0\0\0\0\0')
        data = data + ext
        n = n - len(ext)
    else:
        ctx.assume(size != b'\0\0\0\1')
    data = data + (b'\1\2\3\4\0\0\0\x0bzyxw\5\0\0\0\0\0\0\0\0\0\0\0')[0:n]
    check_framing(ctx, options(fmt, verbose), which, data)


def big_box(ctx, which, size, fmt='jp2'):
    """A large box, with a plain or an extended length, followed by another one."""
    d = ctx.int('difference', -3, 3)
    t = unknown_type(ctx, 'type') if ctx.choose('unknown', [False, True]) else TYPES['uuid']
    if ctx.choose('extended', [False, True]):
        head = b'\0\0\0\1' + t + (size + 16 + d).to_bytes(8, 'big')
    else:
        head = (size + 8 + d).to_bytes(4, 'big') + t
    data = head + b'0123456789abcdef' + b'\1' * (size - 16) + box(TYPES['xml'], b'x') * 2
    check_framing(ctx, options(fmt), which, data)


def cut_header(ctx, which, fmt='jp2'):
    """A complete box followed by an incomplete header."""
    n = ctx.choose('bytes', [0, 1, 2, 3, 4, 5, 6, 7])
    data = box(TYPES['xml'], b'x') + ctx.bytes('tail', n)
    check_framing(ctx, options(fmt), which, data)


def unknown_box(ctx, fmt, verbose=True):
    """An unknown box is reported with its type and a warning, and carries no tests."""
    t = ctx.bytes('type', 4)
    for k in NAMES:
        ctx.assume(t != TYPES[k])
    c = ctx.bytes('contents', ctx.choose('length', [0, 1, 5]))
    v = run(options(fmt, verbose), t, c)
    observe(ctx, v)
    ctx.check('no tests', len(ctx.tree(v.tests)) == 0)
    check_values(ctx, 'property', leaves(ctx, v.characteristics), [('boxType', t)])
    ctx.check('name', v.characteristics.tag == 'unknownBox')
    ctx.check('one warning', [x for g, x, y in leaves(ctx, v.warnings)] == ['warning'])


def names(ctx, fmt):
    """Every known type is reported under its own element."""
    kind = ctx.choose('kind', sorted(NAMES))
    v = run(options(fmt), kind, b'')
    ctx.check('element for the properties', v.characteristics.tag == NAMES[kind])
    ctx.check('element for the tests', v.tests.tag == NAMES[kind])


def insert_unknown(ctx, which, fmt, verbose=True):
    """Unknown boxes anywhere do not change tests, verdict or other properties."""
    t = unknown_type(ctx, 'type')
    n = ctx.choose('length', [0, 3])
    u = box(t, ctx.bytes('contents', n))
    seqs = {'JP2': [('jP', b'\x0d\x0a\x87\x0a'), ('ftyp', b'jp2 \0\0\0\0jp2 '), ('jp2h', b''),
                    ('uuid', b'')],
            'jp2h': [('ihdr', b'\0\0\0\1\0\0\0\1\0\1\7\7\0\0'), ('colr', b'\1\0\0\0\0\0\x10'),
                     ('bpcc', b'\7')],
            'res': [('resc', b'\0\1\0\1\0\1\0\1\0\0'), ('resd', b'')],
            'uinf': [('ulst', b'\0\0'), ('url', b'\0\0\0\0a\0')]}[which]
    low = {'JP2': 2, 'jp2h': 1}[which] if which in ('JP2', 'jp2h') else 0
    pos = ctx.choose('position', list(range(low, len(seqs) + 1)))
    with_, without = b'', b''
    for k in range(len(seqs)):
        if k == pos:
            with_ = with_ + u
        with_ = with_ + box(TYPES[seqs[k][0]], seqs[k][1])
        without = without + box(TYPES[seqs[k][0]], seqs[k][1])
    if pos == len(seqs):
        with_ = with_ + u
    o = options(fmt, verbose)
    a, b = run(o, which, without), run(o, which, with_)
    observe(ctx, b)
    same_tree(ctx, 'tests', a.tests, b.tests)
    ctx.check('verdict', same_text(a.isValid, b.isValid))
    same_children(ctx, 'properties', ctx.tree(a.characteristics),
                  [x for x in ctx.tree(b.characteristics) if x[1].tag != 'unknownBox'])
    ctx.check('the unknown box is reported once', len(
        [x for x in ctx.tree(b.characteristics) if x[1].tag == 'unknownBox']) == 1)


def top_level(ctx, prefix, n, alphabet, fmt, verbose=True):
    """A file of the given boxes followed by n more of any of the kinds in the alphabet.  The
    codestream is empty, so that it is not compared with the header."""
    kinds = []
    data = b''
    parts = []
    ipr = None
    for k in range(len(prefix) + n):
        kind = prefix[k] if k < len(prefix) else ctx.choose('kind%d' % k, alphabet)
        c = {'jP': b'\x0d\x0a\x87\x0a', 'ftyp': b'jp2 \0\0\0\0jp2 ', 'jp2c': b'', 'jp2i': b'1',
             'other': b'', 'xml': b'x', 'ihdr': b'\0\0\0\1\0\0\0\2\0\1\7\7\0\1',
             'jp2h': b'', 'empty': b''}[kind]
        if kind == 'jp2h':
            f, b, u, i = ihdr_bytes(ctx, 'ihdr%d' % k)
            ctx.assume(b == 7)
            ctx.assume(u == 0)
            c = box(TYPES['ihdr'], f)
            if ipr is None:
                ipr = i
        if kind == 'empty':
            kind = 'jp2h'
        kinds.append(kind)
        t = TYPES[kind] if kind in TYPES else unknown_type(ctx, 'type%d' % k)
        parts.append((t, c))
        data = data + box(t, c)
    o = options(fmt, verbose)
    v = run(o, 'JP2', data)
    observe(ctx, v)
    tests, props = check_reports(ctx, v, [run(o, t, c) for t, c in parts])
    check_own(ctx, 'test', tests, SP.jp2(kinds, ipr), verbose)
    ctx.check('no properties of its own', len(props) == 0)
    ctx.check('names of the results', v.tests.tag == 'tests' and
              v.characteristics.tag == 'properties')


def siz_bytes(ctx, n, rsiz=b'\0\0'):
    """A SIZ segment (with marker) for n components, one tile; returns it and its fields."""
    d = ctx.bytes('siz dimensions', 16)
    comps = ctx.bytes('siz components', n)
    b = (38 + 3 * n).to_bytes(2, 'big') + rsiz + d + b'\xff\xff\xff\xff\xff\xff\xff\xff' + \
        b'\0\0\0\0\0\0\0\0' + n.to_bytes(2, 'big')
    out = []
    for k in range(n):
        b = b + comps[k:k + 1] + b'\1\1'
        out.append((comps[k] // 128, comps[k] % 128 + 1))
    v = [int.from_bytes(d[4 * k:4 * k + 4], 'big') for k in range(4)]
    return b'\xff\x51' + b, dict(x=v[0], y=v[1], xo=v[2], yo=v[3], n=n, comps=out)


STRUCTURE = ['containsSignatureBox', 'containsFileTypeBox', 'containsJP2HeaderBox',
             'containsContiguousCodestreamBox', 'containsIntellectualPropertyBox',
             'firstBoxIsSignatureBox', 'secondBoxIsFileTypeBox', 'locationJP2HeaderBoxIsValid',
             'noMoreThanOneSignatureBox', 'noMoreThanOneFileTypeBox', 'noMoreThanOneJP2HeaderBox']


def check_ratio(ctx, elem, size, depths, h, w):
    got = [(g, x) for g, t, x in leaves(ctx, elem) if t == 'compressionRatio']
    ctx.check('one compression ratio', len(got) == 1)
    if len(got) != 1:
        return
    ctx.check('compression ratio is reported', got[0][0])
    bits = 0
    for d in depths:
        bits = bits + d[1]
    actual = got[0][1]
    if ctx.symbolic:
        ctx.check('compression ratio', actual == round(bits / 8 * h * w / size, 2))
    else:
        from fractions import Fraction
        exact = Fraction(bits * h * w, 8 * size)
        ctx.check('compression ratio', type(actual) in (int, float) and
                  abs(Fraction(actual) - exact) <= Fraction(5001, 1000000) + abs(exact) / 10 ** 9)


def consistent(ctx, ncs, nboxes, fmt, pad=0, verbose=True, wild=False, nc=None):
    """Image header (arbitrary), bits per component box (if there are nboxes), codestream with an
    arbitrary SIZ segment."""
    nsiz = ctx.choose('components of SIZ', ncs)
    f = ctx.bytes('ihdr', 14)
    if nc is None:
        nc = int.from_bytes(f[8:10], 'big')
        ctx.assume(nc <= 3)
    else:
        f = f[0:8] + nc.to_bytes(2, 'big') + f[10:14]
    bp = ctx.bytes('bpcc', nboxes)
    if nboxes:
        ctx.assume(f[10] == 255)
    hdr = box(TYPES['ihdr'], f)
    if nboxes:
        hdr = hdr + box(TYPES['bpcc'], bp)
    seg, siz = siz_bytes(ctx, nsiz)
    data = box(TYPES['jP'], b'\x0d\x0a\x87\x0a') + box(TYPES['jp2h'], hdr) + \
        box(TYPES['jp2c'], b'\xff\x4f' + seg + b'\0' * pad)
    v = run(options(fmt, verbose), 'JP2', data)
    observe(ctx, v)
    own = [x for x in leaves(ctx, v.tests) if x[1] not in STRUCTURE]
    h, w = int.from_bytes(f[0:4], 'big'), int.from_bytes(f[4:8], 'big')
    if f[10] == 255:
        depths = [(x // 128, x % 128 + 1) for x in bp]
    else:
        depths = [(f[10] // 128, f[10] % 128 + 1)] * nc
    check_own(ctx, 'test', own, SP.consistency(h, w, nc, depths, siz), verbose)
    check_ratio(ctx, v.characteristics, len(data), depths, h, w)


def raw_ratio(ctx, ncs, fmt, pads):
    nsiz = ctx.choose('components of SIZ', ncs)
    seg, siz = siz_bytes(ctx, nsiz)
    data = b'\xff\x4f' + seg + b'\0' * ctx.choose('pad', pads)
    v = run(options(fmt), 'contiguousCodestreamBox', data)
    observe(ctx, v)
    check_ratio(ctx, v.characteristics, len(data), siz['comps'], siz['y'] - siz['yo'],
                siz['x'] - siz['xo'])


def many_boxes(ctx, which, number, kinds, fmt='jp2', verbose=True):
    """Many boxes, of which two neighbours at any of three places have arbitrary kinds."""
    at = ctx.choose('place', [0, number // 2, number - 2])
    data = b''
    parts = []
    for k in range(number):
        kind = ctx.choose('kind%d' % k, ['xml', 'uuid', 'other']) if k in (at, at + 1) else \
            kinds[k % len(kinds)]
        c = bytes([k % 256]) * (k % 5)
        t = TYPES[kind] if kind in TYPES else b'o%03d' % k
        parts.append((t, c))
        data = data + box(t, c)
    o = options(fmt, verbose)
    v = run(o, which, data)
    observe(ctx, v)
    check_reports(ctx, v, [run(o, t, c) for t, c in parts])


def long_header_box(ctx, kinds, fmt, verbose=True):
    """A JP2 header with many sub-boxes; one at any place is repeated, moved, dropped or
    replaced."""
    good = {'ihdr': b'\0\0\0\x01\0\0\0\x02\0\x01\xff\x07\0\0', 'bpcc': b'\7', 'pclr': b'\0\1\1\7\5',
            'colr': b'\x01\0\0\0\0\0\x10', 'cmap': b'\0\0\1\0', 'cdef': b'\0\1\0\0\0\0\0\1',
            'res': b''}
    ks = list(kinds)
    at = ctx.choose('place', list(range(len(ks))))
    what = ctx.choose('change', ['none', 'repeat', 'drop', 'move', 'replace'])
    x = ks[at]
    if what == 'drop':
        ks = ks[0:at] + ks[at + 1:]
    elif what == 'repeat':
        ks = ks + [x]
    elif what == 'move':
        ks = ks[0:at] + ks[at + 1:] + [x]
    elif what == 'replace':
        ks[at] = ctx.choose('by', ['ihdr', 'bpcc', 'colr', 'pclr', 'cmap', 'cdef', 'res', 'other'])
    parts = [(TYPES[k] if k in TYPES else b'othr', good.get(k, b'')) for k in ks]
    data = b''
    for t, c in parts:
        data = data + box(t, c)
    o = options(fmt, verbose)
    v = run(o, 'jp2h', data)
    observe(ctx, v)
    tests, props = check_reports(ctx, v, [run(o, t, c) for t, c in parts])
    noihdr = 'ihdr' not in ks
    skip = ('containsColourSpecificationBox',) if fmt == 'jph' and noihdr else ()
    ctypes = [0] * len([k for k in ks if k == 'cdef'])
    check_own(ctx, 'test', tests, SP.jp2h(ks, fmt, None if noihdr else 0, None if noihdr else 255,
                                          ctypes), verbose, skip)
