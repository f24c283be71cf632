"""Harnesses for the main header and the tile-parts of codestreams."""
from spec import stream as SP
from spec.util import ANY
from .common import options, run, check_values, observe, TYPES, leaves
from .structure import same_children, nonempty, check_own, box

CONTENTS = {
    'cod': b'\0\x0c\0\0\0\1\0\0\4\4\0\1', 'qcd': b'\0\4\x40\x48', 'rgn': b'\0\5\0\0\7',
    'poc': b'\0\x09\0\0\0\1\1\0\2', 'crg': b'\0\6\0\0\0\0', 'com': b'\0\6\0\1hi',
    'cap': b'\0\x08\0\2\0\0\0\0', 'prf': b'\0\4\0\1', 'cpf': b'\0\4\0\1', 'tlm': b'\0\4\0\0',
    'plm': b'\0\5\0\1\5', 'ppm': b'\0\4\0\1', 'plt': b'\0\4\0\5', 'ppt': b'\0\4\0\1'}
SEGS = ['cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'crg', 'com', 'cap', 'prf', 'cpf', 'tlm', 'plm',
        'ppm', 'other']
TSEGS = ['cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'com', 'plt', 'ppt', 'other']
ALLTESTS = ['codestreamStartsWithSOCMarker', 'foundSIZMarker', 'foundCODMarker',
            'foundQCDMarker', 'foundCAPMarker', 'maxOneCcocPerComponentMain',
            'maxOneCqccPerComponentMain']


def siz(csiz, x=1, y=1, xt=1, yt=1, rsiz=b'\0\0'):
    c = (38 + 3 * csiz).to_bytes(2, 'big') + rsiz
    for v in (x, y, 0, 0, xt, yt, 0, 0):
        c = c + v.to_bytes(4, 'big')
    return c + csiz.to_bytes(2, 'big') + b'\7\1\1' * csiz


def other_marker(ctx, name, known):
    """A marker that is none of the known ones."""
    m = ctx.bytes(name, 1)
    for k in ('SOC', 'SIZ', 'SOT'):
        ctx.assume(m != {'SOC': b'\x4f', 'SIZ': b'\x51', 'SOT': b'\x90'}[k])
    for k in known:
        ctx.assume(m != k[1:2])
    for k in SP.BARE:
        ctx.assume(m != k[1:2])
    return b'\xff' + m


def segment(ctx, name, kind, csiz, comps, table):
    """(marker, contents including length)"""
    if kind in ('coc', 'qcc'):
        i = ctx.bytes(name + ' component', 1 if csiz < 257 else 2)
        comps[kind].append(int.from_bytes(i, 'big'))
        rest = b'\0\0\4\4\0\1' if kind == 'coc' else b'\x40\x48'
        return TYPES[kind], (2 + len(i) + len(rest)).to_bytes(2, 'big') + i + rest
    if kind == 'other':
        n = ctx.choose(name + ' length', [2, 5])
        return other_marker(ctx, name + ' marker', table), n.to_bytes(2, 'big') + \
            ctx.bytes(name + ' contents', max(0, n - 2))
    c = CONTENTS[kind]
    if csiz >= 257 and kind in ('rgn', 'poc'):
        c = {'rgn': b'\0\6\1\0\0\7', 'poc': b'\0\x0b\0\0\0\0\1\1\1\1\2'}[kind]
    return TYPES[kind], c


def nested(ctx, elem):
    """Sub-elements that are not single values; (own leaves, elements)."""
    own, subs = [], []
    known = list(SP.MAIN.values()) + list(SP.TILE.values()) + [
        'siz', 'sot', 'tileParts', 'tilePart']
    for g, c in ctx.tree(elem):
        if c.tag in known or len(ctx.tree(c)) > 0:
            subs.append((g, c))
        else:
            own.append((g, c.tag, c.text))
    return own, subs


def check_segments(ctx, label, v, kids, packet):
    """The reports of the segments are there, in order and unchanged.  kids: [(kind,
    validator)].  Returns own tests and properties."""
    owntests, subtests = nested(ctx, v.tests)
    ownprops, subprops = nested(ctx, v.characteristics)
    drop = ('tileParts',)
    subtests = [x for x in subtests if x[1].tag not in drop]
    subprops = [x for x in subprops if x[1].tag not in drop]
    warn = [x for x in ctx.tree(v.warnings) if x[1].tag not in drop]
    shown = [(True, r.characteristics) for k, r in kids
             if packet or k not in ('plm', 'ppm', 'plt', 'ppt')]
    same_children(ctx, label + 'properties of segments', shown, subprops)
    same_children(ctx, label + 'tests of segments', nonempty(ctx, [r.tests for k, r in kids]),
                  subtests)
    same_children(ctx, label + 'warnings of segments', nonempty(ctx, [r.warnings for k, r in kids]),
                  warn)
    return owntests, ownprops


def check_main(ctx, v, o, parts, rsiz, csiz, sizc, verbose, extra=()):
    """parts: [(kind, contents)] of the known segments after SIZ."""
    kids = [('siz', run(o, 'siz', sizc))]
    comps = {'coc': [], 'qcc': []}
    for k, c in parts:
        kids.append((k, run(o, k, c, components=csiz)))
        if k in comps:
            comps[k].append(SP.component_index(c, csiz))
    tests, props = check_segments(ctx, '', v, kids, o['packetmarkersFlag'])
    kinds = [k for k, c in parts]
    check_own(ctx, 'test', [x for x in tests if x[1] in ALLTESTS],
              SP.main_header(kinds, rsiz, comps), verbose)
    for g, t, x in tests:
        ctx.check('known test %s' % t, t in ALLTESTS or t in (
            'foundEOCMarker', 'foundExpectedNumberOfTiles', 'foundExpectedNumberOfTileParts'))
    check_values(ctx, 'property', [x for x in props if x[1] != 'compressionRatio'],
                 [('ppmCount', SP.count(kinds, 'ppm')), ('plmCount', SP.count(kinds, 'plm'))])
    ctx.check('tile-parts of the report', len(
        [1 for g, c in ctx.tree(v.characteristics) if c.tag == 'tileParts']) == 1)


def main_header(ctx, prefix, n, alphabet, fmt='jp2', verbose=True, packet=False, csizs=(3,),
                tails=('', 'eoc')):
    """SOC, SIZ, given segments and n more of the kinds in the alphabet."""
    csiz = ctx.choose('components', list(csizs))
    r = bytes([ctx.choose('rsiz', [0, 0x40, 0x80, 0xc0, 0xc3, 0x3f])]) + b'\0'
    sizc = siz(csiz, rsiz=r)
    data = b'\xff\x4f\xff\x51' + sizc
    comps = {'coc': [], 'qcc': []}
    parts = []
    for k in range(len(prefix) + n):
        kind = prefix[k] if k < len(prefix) else ctx.choose('kind%d' % k, alphabet)
        m, c = segment(ctx, 'seg%d' % k, kind, csiz, comps, SP.MAIN)
        data = data + m + c
        if kind != 'other':
            parts.append((kind, c))
    tail = ctx.choose('tail', list(tails))
    data = data + {'': b'', 'eoc': b'\xff\xd9', 'half': b'\xff',
                   'sot': b'\xff\x90\0\x0a\0\0\0\0\0\0\0\1\xff\x93\xff\xd9'}[tail]
    o = options(fmt, verbose, packetmarkers=packet)
    v = run(o, 'contiguousCodestreamBox', data)
    observe(ctx, v)
    check_main(ctx, v, o, parts, int.from_bytes(r, 'big'), csiz, sizc, verbose)
    own = [x for x in nested(ctx, v.tests)[0] if x[1] in (
        'foundEOCMarker', 'foundExpectedNumberOfTiles', 'foundExpectedNumberOfTileParts')]
    want = [('foundEOCMarker', data[len(data) - 2:] == b'\xff\xd9'),
            ('foundExpectedNumberOfTiles', tail == 'sot')]
    if tail == 'sot':
        want.append(('foundExpectedNumberOfTileParts', True))
    check_own(ctx, 'test', own, want, verbose)


def start(ctx, fmt='jp2', verbose=True):
    """The first two markers are arbitrary."""
    a, b = ctx.bytes('first', 2), ctx.bytes('second', 2)
    cut = ctx.choose('length', [0, 1, 2, 3, 4, 5, 90])
    sizc = siz(1)
    data = (a + b + sizc + b'\xff\x52' + CONTENTS['cod'] + b'\xff\x5c' + CONTENTS['qcd'])[0:cut]
    ctx.assume(not SP.bare(a) or a == b'\xff\x4f')
    if a != b'\xff\x4f':
        # without SOC, only the test on that is prescribed
        data = a + b'\0\4\0\0\xff\x51' + sizc
    v = run(options(fmt, verbose), 'contiguousCodestreamBox', data)
    observe(ctx, v)
    tests, subs = nested(ctx, v.tests)
    if not (a == b'\xff\x4f' and len(data) >= 2):
        own = [x for x in tests if x[1] == 'codestreamStartsWithSOCMarker']
        check_own(ctx, 'test', own, [('codestreamStartsWithSOCMarker', False)], verbose)
        ctx.check('not valid', v.isValid is False)
    elif not (b == b'\xff\x51' and len(data) >= 4):
        check_own(ctx, 'test', tests, [('codestreamStartsWithSOCMarker', True),
                                       ('foundSIZMarker', False)], verbose)
        ctx.check('no segments', len(subs) == 0)
        ctx.check('not valid', v.isValid is False)
    else:
        own = [x for x in tests if x[1] in ('codestreamStartsWithSOCMarker', 'foundSIZMarker')]
        check_own(ctx, 'test', own, [('codestreamStartsWithSOCMarker', True),
                                     ('foundSIZMarker', True)], verbose)


def any_length(ctx, kind, extra, fmt='jp2'):
    """One segment with an arbitrary length field; what it covers is decided by that."""
    sizc = siz(3)
    size = ctx.bytes('size', 2)
    comps = {'coc': [], 'qcc': []}
    if kind == 'other':
        m = other_marker(ctx, 'marker', SP.MAIN)
    else:
        m, c = segment(ctx, 'seg', kind, 3, comps, SP.MAIN)
    n = ctx.choose('bytes', extra)
    head = b'\xff\x4f\xff\x51' + sizc
    tail = (b'\xff\x64\0\4\0\0\xff\x5c\0\4\x40\x48\xff\x60\0\3\0\xff\x52\0\2\xff\x90\0\2')
    data = head + m + size + tail[0:n]
    # (the lists in these are as long as the length field says)
    if kind in ('poc', 'prf', 'cpf', 'qcd', 'qcc'):
        ctx.assume(int.from_bytes(size, 'big') <= n + 20)
    o = options(fmt)
    v = run(o, 'contiguousCodestreamBox', data)
    observe(ctx, v)
    parts, pos = SP.segments(data, len(head), SP.SOT, SP.MAIN)
    check_main(ctx, v, o, parts, 0, 3, sizc, True)


def check_tile(ctx, label, o, data, pos, csiz, got, verbose):
    """got: report (tests, characteristics, warnings elements) of the tile-part at pos."""
    n = SP.rd(data, pos + 2, 2)
    sotc = data[pos + 2:pos + 2 + n] if n >= 0 else b''
    kids = [('sot', run(o, 'sot', sotc))]
    sod = None
    parts = []
    if n >= 0:
        parts, sod = SP.segments(data, pos + 2 + n, SP.SOD, SP.TILE)
    comps = {'coc': [], 'qcc': []}
    for k, c in parts:
        kids.append((k, run(o, k, c, components=csiz)))
        if k in comps:
            comps[k].append(SP.component_index(c, csiz))
    tests, props = check_segments(ctx, label, got, kids, o['packetmarkersFlag'])
    kinds = [k for k, c in parts]
    psot, tpsot = SP.u32(sotc, 4), SP.u8(sotc, 8)
    follow = data[pos + psot:pos + psot + 2] if psot >= 0 else b''
    want = SP.tile_part(kinds, sod is not None, tpsot, comps, psot, follow)
    check_own(ctx, label + 'test', tests, want, verbose)
    check_values(ctx, label + 'property', props, [('pltCount', SP.count(kinds, 'plt')),
                                                  ('pptCount', SP.count(kinds, 'ppt'))])
    return psot


def tile_segments(ctx, n, alphabet, fmt='jp2', verbose=True, packet=False, csizs=(3,), prefix=()):
    """One tile-part with arbitrary header fields and n segments."""
    csiz = ctx.choose('components', list(csizs))
    comps = {'coc': [], 'qcc': []}
    head = ctx.bytes('isot', 2)
    last = ctx.bytes('tpsot and tnsot', 2)
    body = b''
    for k in range(len(prefix) + n):
        kind = prefix[k] if k < len(prefix) else ctx.choose('kind%d' % k, alphabet)
        m, c = segment(ctx, 'seg%d' % k, kind, csiz, comps, SP.TILE)
        body = body + m + c
    body = body + {'sod': b'\xff\x93', 'none': b'', 'cut': b'\xff'}[
        ctx.choose('end', ['sod', 'none', 'cut'])]
    size = ctx.choose('length', ['exact', 'zero', 'short'])
    psot = {'exact': 12 + len(body), 'zero': 0, 'short': 11 + len(body)}[size]
    data = b'\xff\x4f\xff\x90\0\x0a' + head + psot.to_bytes(4, 'big') + last + body + b'\xff\xd9'
    o = options(fmt, verbose, packetmarkers=packet)
    v = run(o, 'tilePart', data, startOffset=2, components=csiz)
    observe(ctx, v)
    check_tile(ctx, '', o, data, 2, csiz, v, verbose)
    ctx.check('where the next tile-part starts', v.returnOffset == 2 + psot)


def tile_length(ctx, extra, fmt='jp2', lsot=False):
    """One tile-part with an arbitrary length (or arbitrary length of its first segment)."""
    size = b'\0\0\0\x12' if lsot else ctx.bytes('psot', 4)
    n = ctx.choose('bytes', extra)
    ls = ctx.bytes('lsot', 2) if lsot else b'\0\x0a'
    tail = b'\xff\x64\0\4\0\0\xff\x93\1\2\xff\x90\xff\xd9\xff\xff'
    data = b'\xff\x4f' + (b'\xff\x90' + ls + b'\0\0' + size + b'\0\1' + tail)[0:n]
    o = options(fmt)
    v = run(o, 'tilePart', data, startOffset=2, components=1)
    observe(ctx, v)
    psot = check_tile(ctx, '', o, data, 2, 1, v, True)
    if psot >= 0:
        ctx.check('where the next tile-part starts', v.returnOffset == 2 + psot)


def tiles(ctx, n, grid, sizes, fmt='jp2', verbose=True, tails=('eoc', ''), tnsot=(0, 1, 2, 3)):
    """A codestream with n tile-parts, for an image of grid[0] x grid[1] tiles."""
    ntiles = grid[0] * grid[1]
    sizc = siz(1, grid[0] * 2, grid[1] * 3 - 1, 2, 3)
    data = b'\xff\x4f\xff\x51' + sizc + b'\xff\x52' + CONTENTS['cod'] + b'\xff\x5c' + \
        CONTENTS['qcd']
    first = len(data)
    for k in range(n):
        i = ctx.int('isot%d' % k, 0, ntiles) if ntiles < 4 else ctx.choose(
            'isot%d' % k, list(range(ntiles)))
        tn = ctx.choose('tnsot%d' % k, list(tnsot))
        size = ctx.choose('size%d' % k, list(sizes))
        length = {'exact': 14, 'zero': 0, 'early': 13, 'late': 16, 'two': 28,
                  'huge': 4294967295}[size]
        data = data + b'\xff\x90\0\x0a' + i.to_bytes(2, 'big') + length.to_bytes(4, 'big') + \
            ctx.bytes('tpsot%d' % k, 1) + tn.to_bytes(1, 'big') + b'\xff\x93'
    data = data + {'eoc': b'\xff\xd9', '': b'', 'half': b'\xff', 'more': b'\xff\xd9\0'}[
        ctx.choose('tail', list(tails))]
    o = options(fmt, verbose)
    v = run(o, 'contiguousCodestreamBox', data)
    observe(ctx, v)
    own = [x for x in nested(ctx, v.tests)[0] if x[1] not in ALLTESTS]
    parts = SP.tile_parts(data, first, ntiles)
    want = SP.tiles(parts, ntiles) + [('foundEOCMarker', data[len(data) - 2:] == b'\xff\xd9')]
    check_own(ctx, 'test', own, want, verbose)
    kids = [run(o, 'tilePart', data, startOffset=p[0], components=1) for p in parts]
    for what in ('characteristics', 'tests', 'warnings'):
        tp = [c for g, c in ctx.tree(getattr(v, what)) if c.tag == 'tileParts']
        each = [getattr(x, what) for x in kids]
        exp = [(True, x) for x in each] if what == 'characteristics' else nonempty(ctx, each)
        got = ctx.tree(tp[0]) if tp else []
        same_children(ctx, what + ' of tile-parts', exp, got)


def geometry(ctx, n, fmt='jp2'):
    """The number of tiles follows from the dimensions in SIZ: ceil((Xsiz-XTOsiz)/XTsiz) *
    ceil((Ysiz-YTOsiz)/YTsiz); n tile-parts for tiles 0..n-1 are present."""
    d = ctx.bytes('dimensions', 8)
    t = ctx.bytes('tiles', 2)
    z = b'\0\0\0'
    sizc = b'\0\x29\0\0' + z[0:2] + d[0:2] + z[0:2] + d[2:4] + b'\0' * 8 + z + t[0:1] + z + \
        t[1:2] + z[0:2] + d[4:6] + z[0:2] + d[6:8] + b'\0\1\7\1\1'
    data = b'\xff\x4f\xff\x51' + sizc
    for k in range(n):
        data = data + b'\xff\x90\0\x0a' + k.to_bytes(2, 'big') + b'\0\0\0\x0e\0\1\xff\x93'
    data = data + b'\xff\xd9'
    x, y, xo, yo = [int.from_bytes(d[2 * k:2 * k + 2], 'big') for k in range(4)]
    ctx.assume(x > xo)
    ctx.assume(y > yo)
    ctx.assume(t[0] > 0)
    ctx.assume(t[1] > 0)
    cols, rows = -((xo - x) // t[0]), -((yo - y) // t[1])
    ctx.assume(cols <= 3)
    ctx.assume(rows <= 3)
    v = run(options(fmt), 'contiguousCodestreamBox', data)
    observe(ctx, v)
    got = [x for x in leaves(ctx, v.tests) if x[1] == 'foundExpectedNumberOfTiles']
    check_values(ctx, 'test', got, [('foundExpectedNumberOfTiles', cols * rows == n)])


def tiles_many(ctx, ntiles, order, where, fmt='jp2', verbose=True, isots=None):
    """Tile-parts of the tiles in `order` (each announcing the number of tile-parts of its tile, or
    none); the header of one of them, at any of the places in `where`, is arbitrary."""
    sizc = siz(1, ntiles * 2, 1, 2, 1)
    data = b'\xff\x4f\xff\x51' + sizc + b'\xff\x52' + CONTENTS['cod'] + b'\xff\x5c' + \
        CONTENTS['qcd']
    first = len(data)
    odd = ctx.choose('which', list(where))
    what = ctx.choose('field', ['isot', 'tnsot', 'psot', 'none'])
    seen = [0] * ntiles
    for k in range(len(order)):
        i = order[k]
        tn = SP.count(order, i)
        isot, length, last = i.to_bytes(2, 'big'), b'\0\0\0\x0e', bytes([seen[i], tn])
        seen[i] = seen[i] + 1
        if k == odd:
            if what == 'isot':
                isot = ctx.choose('isot', isots).to_bytes(2, 'big') if isots else \
                    ctx.bytes('isot', 2)
            elif what == 'tnsot':
                last = last[0:1] + ctx.bytes('tnsot', 1)
            elif what == 'psot':
                length = ctx.choose('psot', [0, 13, 14, 15, 28, 42, 2 ** 31]).to_bytes(4, 'big')
        data = data + b'\xff\x90\0\x0a' + isot + length + last + b'\xff\x93'
    data = data + b'\xff\xd9'
    o = options(fmt, verbose)
    v = run(o, 'contiguousCodestreamBox', data)
    observe(ctx, v)
    own = [x for x in nested(ctx, v.tests)[0] if x[1] not in ALLTESTS]
    parts = SP.tile_parts(data, first, ntiles)
    want = SP.tiles(parts, ntiles) + [('foundEOCMarker', True)]
    check_own(ctx, 'test', own, want, verbose)
    tp = [c for g, c in ctx.tree(v.characteristics) if c.tag == 'tileParts']
    got = [leaves(ctx, d) for g, c in ctx.tree(tp[0]) for h, d in ctx.tree(c) if d.tag == 'sot']
    ctx.check('number of tile-parts', len(got) == len(parts))
    for k in range(min(len(got), len(parts))):
        ctx.check('index of tile-part', [x for g, t, x in got[k] if t == 'isot'] == [parts[k][1]])


def long_header(ctx, kinds, at, fmt='jp2', verbose=True, packet=False, csiz=3):
    """Main header of many segments, one of them (at any of the places) of any kind."""
    sizc = siz(csiz)
    data = b'\xff\x4f\xff\x51' + sizc
    comps = {'coc': [], 'qcc': []}
    odd = ctx.choose('which', list(at))
    parts = []
    for k in range(len(kinds)):
        kind = kinds[k]
        if k == odd:
            kind = ctx.choose('kind', SEGS)
        m, c = segment(ctx, 'seg%d' % k, kind, csiz, comps, SP.MAIN)
        data = data + m + c
        if kind != 'other':
            parts.append((kind, c))
    data = data + b'\xff\xd9'
    o = options(fmt, verbose, packetmarkers=packet)
    v = run(o, 'contiguousCodestreamBox', data)
    observe(ctx, v)
    check_main(ctx, v, o, parts, 0, csiz, sizc, verbose)


def long_tile(ctx, kinds, at, fmt='jp2', verbose=True, packet=False, csiz=3):
    """Tile-part with many segments, one of them (at any of the places) of any kind."""
    comps = {'coc': [], 'qcc': []}
    odd = ctx.choose('which', list(at))
    last = ctx.bytes('tpsot and tnsot', 2)
    body = b''
    for k in range(len(kinds)):
        kind = kinds[k]
        if k == odd:
            kind = ctx.choose('kind', TSEGS)
        m, c = segment(ctx, 'seg%d' % k, kind, csiz, comps, SP.TILE)
        body = body + m + c
    body = body + b'\xff\x93'
    data = b'\xff\x4f\xff\x90\0\x0a\0\0' + (12 + len(body)).to_bytes(4, 'big') + last + body + \
        b'\xff\xd9'
    o = options(fmt, verbose, packetmarkers=packet)
    v = run(o, 'tilePart', data, startOffset=2, components=csiz)
    observe(ctx, v)
    check_tile(ctx, '', o, data, 2, csiz, v, verbose)
