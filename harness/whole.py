"""Harnesses over complete files: a valid file in which some fields take any value."""
from .common import options, run, observe, TYPES

XMP = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')


def n2(x):
    return x.to_bytes(2, 'big')


def n4(x):
    return x.to_bytes(4, 'big')


def F(name, b):
    return [(name, b)]


def size(fields):
    n = 0
    for f, b in fields:
        n = n + len(b)
    return n


def bx(name, contents):
    """Fields of a box."""
    return F(name + '.length', n4(8 + size(contents))) + F(name + '.type', TYPES[name]) + contents


def seg(name, contents, label=None):
    """Fields of a marker segment."""
    lab = label or name
    return F(lab + '.marker', TYPES[name]) + F(lab + '.size', n2(2 + size(contents))) + contents


def siz(ht):
    f = F('siz.rsiz', b'\x40\0' if ht else b'\0\0')
    for name, v in (('xsiz', 2), ('ysiz', 1), ('xOsiz', 0), ('yOsiz', 0), ('xTsiz', 2),
                    ('yTsiz', 1), ('xTOsiz', 0), ('yTOsiz', 0)):
        f = f + F('siz.' + name, n4(v))
    f = f + F('siz.csiz', n2(1)) + F('siz.ssiz', b'\7') + F('siz.xRsiz', b'\1') + \
        F('siz.yRsiz', b'\1')
    return seg('siz', f)


def style(p, ht):
    return F(p + '.levels', b'\0') + F(p + '.xcb', b'\4') + F(p + '.ycb', b'\4') + \
        F(p + '.style', b'\x40' if ht else b'\0') + F(p + '.transform', b'\1')


def cod(label, ht):
    return seg('cod', F(label + '.scod', b'\0') + F(label + '.order', b'\0') +
               F(label + '.layers', b'\0\1') + F(label + '.mct', b'\0') + style(label, ht), label)


def coc(label, ht):
    return seg('coc', F(label + '.ccoc', b'\0') + F(label + '.scoc', b'\0') + style(label, ht),
               label)


def qcd(label):
    return seg('qcd', F(label + '.sqcd', b'\x40') + F(label + '.step', b'\x48'), label)


def qcc(label):
    return seg('qcc', F(label + '.cqcc', b'\0') + F(label + '.sqcc', b'\x40') +
               F(label + '.step', b'\x48'), label)


def tile_part(label, ht, index, num, first):
    body = []
    if first:
        body = cod(label + '.cod', ht) + coc(label + '.coc', ht) + qcd(label + '.qcd') + \
            qcc(label + '.qcc') + \
            seg('rgn', F(label + '.rgn.crgn', b'\0') + F(label + '.rgn.srgn', b'\0') +
                F(label + '.rgn.sprgn', b'\7'), label + '.rgn') + \
            seg('ppt', F(label + '.ppt.z', b'\0') + F(label + '.ppt.i', b'\1'), label + '.ppt')
    body = body + \
        seg('poc', F(label + '.poc.rs', b'\0') + F(label + '.poc.cs', b'\0') +
            F(label + '.poc.lye', b'\0\1') + F(label + '.poc.re', b'\1') +
            F(label + '.poc.ce', b'\1') + F(label + '.poc.order', b'\2'), label + '.poc') + \
        seg('com', F(label + '.com.rcom', b'\0\1') + F(label + '.com.text', b'hi'), label + '.com') + \
        seg('plt', F(label + '.plt.z', b'\0') + F(label + '.plt.i', b'\x81\5'), label + '.plt') + \
        F(label + '.sod', b'\xff\x93') + F(label + '.data', b'\0')
    return F(label + '.sot', b'\xff\x90') + F(label + '.lsot', b'\0\x0a') + \
        F(label + '.isot', b'\0\0') + F(label + '.psot', n4(12 + size(body))) + \
        F(label + '.tpsot', bytes([index])) + F(label + '.tnsot', bytes([num])) + body


def stream(ht):
    return F('soc', b'\xff\x4f') + siz(ht) + \
        (seg('cap', F('cap.pcap', b'\0\2\0\0') + F('cap.ccap', b'\0\0')) if ht else []) + \
        cod('cod', ht) + coc('coc', ht) + qcd('qcd') + qcc('qcc') + \
        seg('rgn', F('rgn.crgn', b'\0') + F('rgn.srgn', b'\0') + F('rgn.sprgn', b'\7')) + \
        seg('poc', F('poc.rs', b'\0') + F('poc.cs', b'\0') + F('poc.lye', b'\0\1') +
            F('poc.re', b'\1') + F('poc.ce', b'\1') + F('poc.order', b'\2')) + \
        seg('crg', F('crg.x', b'\0\0') + F('crg.y', b'\0\0')) + \
        seg('com', F('com.rcom', b'\0\1') + F('com.text', b'abc')) + \
        seg('tlm', F('tlm.z', b'\0') + F('tlm.s', b'\0')) + \
        seg('plm', F('plm.z', b'\0') + F('plm.n', b'\1') + F('plm.i', b'\5')) + \
        seg('ppm', F('ppm.z', b'\0') + F('ppm.n', b'\1')) + \
        tile_part('t0', ht, 0, 2, True) + tile_part('t1', ht, 1, 2, False) + F('eoc', b'\xff\xd9')


def header():
    res = bx('resc', F('resc.vn', b'\0\1') + F('resc.vd', b'\0\1') + F('resc.hn', b'\0\1') +
             F('resc.hd', b'\0\1') + F('resc.ve', b'\0') + F('resc.he', b'\0')) + \
        bx('resd', F('resd.vn', b'\0\1') + F('resd.vd', b'\0\1') + F('resd.hn', b'\0\1') +
           F('resd.hd', b'\0\1') + F('resd.ve', b'\0') + F('resd.he', b'\0'))
    return bx('jp2h', bx('ihdr', F('ihdr.height', n4(1)) + F('ihdr.width', n4(2)) +
                         F('ihdr.nc', b'\0\1') + F('ihdr.bpc', b'\7') + F('ihdr.c', b'\7') +
                         F('ihdr.unkc', b'\0') + F('ihdr.ipr', b'\0')) +
              bx('colr', F('colr.meth', b'\1') + F('colr.prec', b'\0') + F('colr.approx', b'\0') +
                 F('colr.enumcs', b'\0\0\0\x10')) +
              bx('pclr', F('pclr.ne', b'\0\1') + F('pclr.npc', b'\1') + F('pclr.b', b'\7') +
                 F('pclr.c', b'\5')) +
              bx('cmap', F('cmap.cmp', b'\0\0') + F('cmap.mtyp', b'\1') + F('cmap.pcol', b'\0')) +
              bx('cdef', F('cdef.n', b'\0\1') + F('cdef.cn', b'\0\0') + F('cdef.typ', b'\0\0') +
                 F('cdef.assoc', b'\0\1')) + bx('res', res))


def parts(fmt):
    """[(field, bytes)] of a valid file."""
    ht = fmt in ('jph', 'jhc')
    if fmt in ('j2c', 'jhc'):
        return stream(ht)
    brand = b'jph ' if ht else b'jp2 '
    return bx('jP', F('jP.signature', b'\x0d\x0a\x87\x0a')) + \
        bx('ftyp', F('ftyp.br', brand) + F('ftyp.minv', b'\0\0\0\0') + F('ftyp.cl', brand)) + \
        header() + bx('xml', F('xml.content', b'<a>b</a>')) + \
        bx('uuid', F('uuid.id', b'0123456789abcdef') + F('uuid.data', b'x')) + \
        bx('uinf', bx('ulst', F('ulst.n', b'\0\1') + F('ulst.id', b'0123456789abcdef')) +
           bx('url', F('url.version', b'\0') + F('url.flag', b'\0\0\0') +
              F('url.loc', b'http://a\0'))) + \
        bx('jp2c', stream(ht))


def fields(fmt, wanted=None, skip=()):
    return [f for f, b in parts(fmt) if (wanted is None or wanted(f)) and f not in skip]


def root(fmt):
    return 'JP2' if fmt in ('jp2', 'jph') else 'contiguousCodestreamBox'


# (the XML parser is the library's; any content of these is covered by the harness of the boxes)
CONCRETE = ('xml.content', 'url.loc', 'uuid.id')
# counts of entries: at most this many
COUNTS = {'siz.csiz': 3, 'ihdr.nc': 3, 'pclr.ne': 3, 'pclr.npc': 3, 'cdef.n': 3, 'ulst.n': 3,
          'siz.xsiz': 8, 'cap.pcap': 15, 'siz.ysiz': 8, 't0.isot': 3, 't1.isot': 3, 'cod.levels': 35,
          'coc.levels': 35, 't0.cod.levels': 35, 't0.coc.levels': 35}


def build(ctx, fmt, names, counts=True):
    """The valid file in which the named fields are arbitrary."""
    data = b''
    for f, b in parts(fmt):
        if f in names:
            x = ctx.bytes(f, len(b))
            if f in COUNTS and counts:
                ctx.assume(int.from_bytes(x, 'big') <= COUNTS[f])
            data = data + x
        else:
            data = data + b
    return data


# what delimits boxes, segments and tile-parts
FRAME = ('length', 'type', 'marker', 'size', 'sot', 'sod', 'psot', 'lsot', 'soc', 'eoc')


def picks(fmt, group):
    """Fields that one harness run makes arbitrary (one of these at a time)."""
    fs = fields(fmt, None, CONCRETE)
    if group.startswith('frame:'):
        fs = [f for f in fs if f.split('.')[-1] in FRAME]
        group = group[6:]
    else:
        fs = [f for f in fs if f.split('.')[-1] not in FRAME]
    if group == 'all':
        return fs
    return [f for f in fs if f.split('.')[0] in group.split(',')]


def flat(ctx, elem, path=''):
    """[(present, path, value)] of all elements without children."""
    out = []
    for g, c in ctx.tree(elem):
        kids = ctx.tree(c)
        here = path + '/' + c.tag
        if len(kids) == 0:
            if c.text is not None:
                out.append((g, here, c.text))
        else:
            for h, p, t in flat(ctx, c, here):
                out.append((g and h if g is not True else h, p, t))
    return out


def verdict(ctx, fmt, group, verbose=True, extra=()):
    """The verdict is the conjunction of all tests."""
    f = ctx.choose('field', picks(fmt, group))
    data = build(ctx, fmt, [f] + list(extra))
    v = run(options(fmt, verbose), root(fmt), data)
    observe(ctx, v)
    check_verdict(ctx, v, verbose)
    if not verbose:
        full = run(options(fmt, True), root(fmt), data)
        check_verdict(ctx, full, True)
        ctx.check('same verdict as with verbose output', v.isValid is full.isValid)


def check_verdict(ctx, v, verbose):
    allt = True
    n = 0
    for g, p, t in flat(ctx, v.tests):
        ctx.check('test result is True or False: %s' % p, not g or t is True or t is False)
        if not verbose:
            ctx.check('only failed tests: %s' % p, not g or t is False)
        allt = allt and (not g or t)
        n = n + 1
    if verbose:
        ctx.check('tests are reported', n > 0)
    ctx.check('verdict', v.isValid is True if allt else v.isValid is False)


BAD = [('jP.signature', b'\x0d\x0a\x87\x0b'), ('ftyp.minv', b'\0\0\0\1'), ('ihdr.c', b'\6'),
       ('colr.approx', b'\1'), ('cmap.mtyp', b'\2'), ('resc.vn', b'\0\0'), ('resd.hd', b'\0\0'),
       ('url.version', b'\1'), ('siz.yRsiz', b'\0'), ('cod.order', b'\5'), ('qcd.sqcd', b'\x1f'),
       ('rgn.srgn', b'\1'), ('poc.order', b'\6'), ('t0.cod.order', b'\5'), ('t0.coc.xcb', b'\x0f'),
       ('t0.qcc.sqcc', b'\x1f'), ('t0.poc.order', b'\7'), ('t1.poc.order', b'\6'),
       ('t1.lsot', b'\0\x0b'), ('eoc', b'\xff\xd8')]


def mistakes(ctx, fmt, verbose=True):
    """Any subset of mistakes in different places: the file is valid exactly without any."""
    data = b''
    bad = dict(BAD)
    any_ = False
    for f, b in parts(fmt):
        if f in bad:
            w = ctx.bool('wrong ' + f)
            b = bad[f] if w else b
            any_ = any_ or w
        data = data + b
    v = run(options(fmt, verbose), root(fmt), data)
    observe(ctx, v)
    ctx.check('valid exactly without mistakes', v.isValid is (not any_) if any_ is True or
              any_ is False else (v.isValid is False if any_ else v.isValid is True))


def failures(ctx, elem, path=''):
    """Flattened tests; (present, path, failed)."""
    return [(g, p, t is False) for g, p, t in flat(ctx, elem, path)]


def same_flat(ctx, label, a, b):
    if len(a) != len(b):
        a = [x for x in a if x[0] is True or x[0]]
        b = [x for x in b if x[0] is True or x[0]]
    ctx.check(label + ': number', len(a) == len(b))
    for k in range(min(len(a), len(b))):
        ctx.check(label + ': place', a[k][1] == b[k][1])
        ctx.check(label + ': present', a[k][0] == b[k][0])
        ctx.check(label + ': value', type(a[k][2]) == type(b[k][2]) and a[k][2] == b[k][2])


def check_terse(ctx, full, terse):
    """The terse tests are the failed ones of the verbose tests, in the same order."""
    a, b = flat(ctx, full), flat(ctx, terse)
    if len(a) == len(b) and [x[1] for x in a] == [x[1] for x in b]:
        for k in range(len(a)):
            ctx.check('terse: %s' % a[k][1], b[k][0] == (a[k][0] and not a[k][2]))
            ctx.check('terse value: %s' % a[k][1], not b[k][0] or b[k][2] is False)
        return
    places = []
    for x in a + b:
        if x[1] not in places:
            places.append(x[1])
    for p in places:
        ap = [x for x in a if x[1] == p]
        bp = [x for x in b if x[1] == p]
        if len(ap) != len(bp):
            ap = [x for x in ap if not ctx.surely(x[2])]
        if len(ap) == len(bp):
            for k in range(len(ap)):
                ctx.check('terse: %s' % p, bp[k][0] == (ap[k][0] and not ap[k][2]))
        else:
            failed = 0
            for x in ap:
                failed = failed + (1 if x[0] and not x[2] else 0)
            shown = 0
            for x in bp:
                shown = shown + (1 if x[0] else 0)
            ctx.check('failed tests: %s' % p, failed == shown)
        for x in bp:
            ctx.check('terse value: %s' % p, not x[0] or x[2] is False)


PACKET = ('plm', 'ppm', 'plt', 'ppt')


def without_packets(items):
    return [x for x in items if x[1].split('/')[-2] not in PACKET]


def compare(ctx, fmt, a, b, oa, ob):
    """Two results of the same content with different options."""
    ctx.check('verdict', a.isValid is b.isValid)
    if oa['verboseFlag'] == ob['verboseFlag']:
        same_flat(ctx, 'tests', flat(ctx, a.tests), flat(ctx, b.tests))
    elif oa['verboseFlag']:
        check_terse(ctx, a.tests, b.tests)
    else:
        check_terse(ctx, b.tests, a.tests)
    pa, pb = flat(ctx, a.characteristics), flat(ctx, b.characteristics)
    if oa['packetmarkersFlag'] != ob['packetmarkersFlag']:
        fewer = pb if oa['packetmarkersFlag'] else pa
        ctx.check('no packet markers unless asked for', len(fewer) == len(without_packets(fewer)))
        pa, pb = without_packets(pa), without_packets(pb)
    same_flat(ctx, 'properties', pa, pb)
    same_flat(ctx, 'warnings', flat(ctx, a.warnings), flat(ctx, b.warnings))


def two_options(ctx, fmt, group, which, vary=False):
    """The same file with one option off and on."""
    f = ctx.choose('field', picks(fmt, group))
    data = build(ctx, fmt, [f])
    both(ctx, fmt, root(fmt), data, which, None, vary)


def both(ctx, fmt, kind, data, which, components=None, vary=False):
    base = dict(verbose=which != 'verbose', nullxml=False, packetmarkers=False)
    if vary:
        for k in ('verbose', 'nullxml', 'packetmarkers'):
            if k != which:
                base[k] = ctx.choose(k, [False, True])
    base[which] = False
    more = dict(base)
    more[which] = True
    oa, ob = options(fmt, **base), options(fmt, **more)
    a, b = run(oa, kind, data, components=components), run(ob, kind, data, components=components)
    observe(ctx, b)
    compare(ctx, fmt, a, b, oa, ob)


def one_box_options(ctx, kind, lengths, fmt, which):
    """A single box or segment with arbitrary content."""
    c = ctx.bytes('contents', ctx.choose('length', lengths))
    both(ctx, fmt, kind, c, which, components=2)


def nested(kind, c):
    """A part of a file that contains c as the contents of one of its boxes or segments."""
    if kind in ('bpcc', 'cmap'):
        inner = n4(22) + b'ihdr' + b'\0\0\0\1\0\0\0\2\0\1' + \
            (b'\xff' if kind == 'bpcc' else b'\7') + b'\7\0\0' + \
            n4(15) + b'colr' + b'\1\0\0\0\0\0\x11' + n4(8 + len(c)) + TYPES[kind] + c
        cs = nested('crg', b'\0\0\0\0')[1]
        return 'JP2', n4(12) + b'jP  \x0d\x0a\x87\x0a' + n4(20) + b'ftypjp2 \0\0\0\0jp2 ' + \
            n4(8 + len(inner)) + b'jp2h' + inner + n4(8 + len(cs)) + b'jp2c' + cs
    rest = b'\xff\x52\0\x0c\0\0\0\1\0\0\4\4\0\1\xff\x5c\0\4\x40\x48'
    tp = b'\xff\x93\0'
    if kind == 'siz':
        n = len(c) // 3
        head = b'\xff\x51' + n2(38 + len(c)) + b'\0\0' + n4(2) + n4(1) + n4(0) + n4(0) + n4(2) + \
            n4(1) + n4(0) + n4(0) + n2(n) + c + rest
    else:
        head = b'\xff\x51\0\x29\0\0' + n4(2) + n4(1) + n4(0) + n4(0) + n4(2) + n4(1) + n4(0) + \
            n4(0) + b'\0\1\7\1\1' + rest
        s = TYPES[kind] + n2(2 + len(c)) + c
        if kind in ('poc', 'plt'):
            tp = s + tp
        else:
            head = head + s
    return 'jp2c', b'\xff\x4f' + head + b'\xff\x90\0\x0a\0\0' + n4(12 + len(tp)) + b'\0\1' + \
        tp + b'\xff\xd9'


def many(ctx, kind, n, fmt):
    """A nested box or segment with many results of its own: none, some or all of them failed
    tests, each of which counts and none of which hides another."""
    c = ctx.bytes('contents', n)
    outer, data = nested(kind, c)
    if kind == 'poc':
        for k in range(0, n, 7):
            ctx.assume(c[k + 5] == 1)
    full = run(options(fmt, True), outer, data)
    terse = run(options(fmt, False), outer, data)
    observe(ctx, terse)
    check_verdict(ctx, full, True)
    check_verdict(ctx, terse, False)
    ctx.check('same verdict', full.isValid is terse.isValid)
    check_terse(ctx, full.tests, terse.tests)
    same_flat(ctx, 'properties', flat(ctx, full.characteristics),
              flat(ctx, terse.characteristics))


def xml_options(ctx, fmt, lengths, xmp):
    """XML content with an arbitrary answer of the XML parser: extraction of null-terminated XML
    changes neither tests nor verdict, and only the properties of this box."""
    from .boxes import parser
    n = ctx.choose('length', lengths)
    c = ctx.bytes('contents', n)
    parser(ctx, c)
    verbose = ctx.choose('verbose', [False, True])
    data = b''
    for f, b in parts(fmt):
        if f == 'xml.length':
            b = n4(8 + n + (16 if xmp else 0))
        elif f == 'xml.type' and xmp:
            b = TYPES['uuid']
        elif f == 'xml.content':
            b = XMP + c if xmp else c
        data = data + b
    a = run(options(fmt, verbose, False), root(fmt), data)
    b = run(options(fmt, verbose, True), root(fmt), data)
    observe(ctx, b)
    ctx.check('verdict', a.isValid is b.isValid)
    same_flat(ctx, 'tests', flat(ctx, a.tests), flat(ctx, b.tests))
    same_flat(ctx, 'warnings', flat(ctx, a.warnings), flat(ctx, b.warnings))
    pa = [x for x in flat(ctx, a.characteristics) if x[1].split('/')[-1] != 'parsed']
    pb = [x for x in flat(ctx, b.characteristics) if x[1].split('/')[-1] != 'parsed']
    same_flat(ctx, 'properties', pa, pb)


# -- arbitrary contents

OUTER = {'ihdr': ['jp2h'], 'colr': ['jp2h'], 'pclr': ['jp2h'], 'cmap': ['jp2h'], 'cdef': ['jp2h'],
         'res': ['jp2h'], 'resc': ['res', 'jp2h'], 'resd': ['res', 'jp2h'], 'ulst': ['uinf'],
         'url': ['uinf'], 'jP': [], 'ftyp': [], 'xml': [], 'uuid': [], 'uinf': [], 'jp2h': [],
         'jp2c': []}
INSIDE = {'jp2h': ['ihdr', 'colr', 'pclr', 'cmap', 'cdef', 'res', 'resc', 'resd'],
          'res': ['resc', 'resd'], 'uinf': ['ulst', 'url'], 't0': [], 't1': []}


def belongs(f, name):
    if f.startswith(name + '.'):
        return True
    for k in INSIDE[name] if name in INSIDE else []:
        if f.startswith(k + '.'):
            return True
    return name == 'jp2c' and f.split('.')[0] in ('soc', 'siz', 'cap', 'cod', 'coc', 'qcd', 'qcc',
                                                  'rgn', 'poc', 'crg', 'com', 'tlm', 'plm', 'ppm',
                                                  't0', 't1', 'eoc')


def replaced(fmt, name, contents):
    """The valid file in which the contents of a box or segment are others, of any length;
    None: the whole box or segment is left out."""
    fs = parts(fmt)
    mine = [f for f, b in fs if belongs(f, name)]
    head = [f for f in mine[0:2]]
    if contents is None:
        gone = mine
        delta = 0 - size([x for x in fs if x[0] in mine])
    else:
        gone = mine[2:]
        delta = len(contents) - size([x for x in fs if x[0] in gone])
    if name in OUTER:
        outer = [k + '.length' for k in OUTER[name]]
    else:
        outer = ['jp2c.length'] + ([name.split('.')[0] + '.psot'] if '.' in name else [])
    out = b''
    for f, b in fs:
        if f in gone:
            continue
        if f in outer:
            b = n4(int.from_bytes(b, 'big') + delta)
        if f == head[0] and name in OUTER:
            b = n4(8 + len(contents))
        out = out + (n2(2 + len(contents)) if f == head[1] and name not in OUTER else b)
        if f == head[1]:
            out = out + contents
    return out


# (position, bytes, largest value): counts of entries, and what decides how many there are
LIMITS = {'pclr': [(0, 2, 2), (2, 1, 2)], 'cdef': [(0, 2, 2)], 'ulst': [(0, 2, 2)],
          'siz': [(34, 2, 2), (2, 4, 8), (6, 4, 8), (18, 4, 8), (22, 4, 8), (26, 4, 8),
                  (30, 4, 8)], 'cap': [(0, 4, 15)], 'cod': [(5, 1, 3)],
          'coc': [(2, 1, 3)], 'ihdr': [(8, 2, 2)], 'uinf': [], 'colr': []}


def limited(ctx, name, c):
    kind = name.split('.')[-1]
    for pos, n, most in LIMITS[kind] if kind in LIMITS else []:
        if len(c) >= pos + n:
            ctx.assume(int.from_bytes(c[pos:pos + n], 'big') <= most)
    if kind == 'uuid' and len(c) >= 16:      # (XMP: see the harness of this box)
        ctx.assume(c[0:16] != XMP)


def outcome(ctx, v):
    ctx.check('there is a verdict', v.isValid is True or v.isValid is False)
    for e in (v.tests, v.characteristics, v.warnings):
        ctx.check('there is a report', e is not None)


def any_contents(ctx, fmt, name, lengths, **opts):
    """A box or segment with arbitrary contents in an otherwise valid file."""
    c = ctx.bytes('contents', ctx.choose('length', lengths))
    limited(ctx, name, c)
    v = run(options(fmt, **opts), root(fmt), replaced(fmt, name, c))
    observe(ctx, v)
    outcome(ctx, v)


def missing(ctx, fmt, **opts):
    """One box or segment is missing, or empty."""
    names = []
    for f, b in parts(fmt):
        n = '.'.join(f.split('.')[0:len(f.split('.')) - 1])
        if n != '' and n not in names and n not in ('t0', 't1'):
            names.append(n)
    name = ctx.choose('name', names)
    empty = ctx.choose('empty', [False, True])
    v = run(options(fmt, **opts), root(fmt), replaced(fmt, name, b'' if empty else None))
    observe(ctx, v)
    outcome(ctx, v)


def truncated(ctx, fmt, lo, hi, **opts):
    """The file ends anywhere, and its last byte may be wrong."""
    data = b''
    for f, b in parts(fmt):
        data = data + b
    n = ctx.choose('length', list(range(lo, min(hi, len(data)))))
    data = data[0:n]
    v = run(options(fmt, **opts), root(fmt), data)
    observe(ctx, v)
    outcome(ctx, v)
    ctx.check('not valid', v.isValid is False)



def arbitrary(ctx, fmt, lengths, prefix='', limit=None, **opts):
    """Any bytes (after a valid beginning)."""
    data = b''
    for f, b in parts(fmt):
        if f == prefix:
            break
        if prefix != '':
            data = data + b
    rest = ctx.bytes('rest', ctx.choose('length', lengths))
    if len(rest) > 2 and limit:
        ctx.assume(rest[2] == 0)
    if len(rest) > 3 and limit:
        ctx.assume(rest[3] <= limit)
    data = data + rest
    v = run(options(fmt, **opts), root(fmt), data)
    observe(ctx, v)
    outcome(ctx, v)
    if prefix != 'eoc':
        ctx.check('not valid', v.isValid is False)


# -- amount of work

def lean(fmt, tail=True):
    """A small valid file."""
    ht = fmt in ('jph', 'jhc')
    s = F('soc', b'\xff\x4f') + siz(ht) + cod('cod', ht) + qcd('qcd')
    for k in (0, 1):
        s = s + F('t%d.sot' % k, b'\xff\x90') + F('t%d.lsot' % k, b'\0\x0a') + \
            F('t%d.isot' % k, b'\0\0') + F('t%d.psot' % k, n4(20)) + \
            F('t%d.tpsot' % k, bytes([k])) + F('t%d.tnsot' % k, b'\2') + \
            seg('com', F('t%d.com.rcom' % k, b'\0\0'), 't%d.com' % k) + \
            F('t%d.sod' % k, b'\xff\x93')
    s = s + F('eoc', b'\xff\xd9')
    if fmt in ('j2c', 'jhc'):
        return s
    brand = b'jph ' if ht else b'jp2 '
    return bx('jP', F('jP.signature', b'\x0d\x0a\x87\x0a')) + \
        bx('ftyp', F('ftyp.br', brand) + F('ftyp.minv', b'\0\0\0\0') + F('ftyp.cl', brand)) + \
        bx('jp2h', bx('ihdr', F('ihdr.all', n4(1) + n4(2) + b'\0\1\7\7\0\0')) +
           bx('colr', F('colr.all', b'\1\0\0\0\0\0\x10')) + bx('res', bx('resc', F(
               'resc.all', b'\0\1\0\1\0\1\0\1\0\0')))) + \
        bx('jp2c', s)


def bounded(ctx, fmt, names, extended=False, limits=()):
    """Arbitrary length fields: the number of loop iterations stays below a multiple of the size
    of the file."""
    data = b''
    lim = dict(limits)
    for f, b in lean(fmt):
        if f in names:
            x = ctx.bytes(f, len(b))
            if f in lim:
                ctx.assume(int.from_bytes(x, 'big') <= lim[f])
            if extended and f.endswith('.length'):
                data = data + b'\0\0\0\1' + b[0:0]
                ext = ctx.bytes(f + ' extended', 8)
                hold = ext
            else:
                data = data + x
        elif extended and f.endswith('.type') and f[0:len(f) - 5] + '.length' in names:
            data = data + b + hold
        else:
            data = data + b
    o = options(fmt)
    v, n = ctx.work(lambda: run(o, root(fmt), data))
    observe(ctx, v)
    ctx.check('loop iterations are bounded by the size', n <= 400000 + 60 * len(data))
    outcome(ctx, v)


def packets(ctx, kind, lengths):
    """Packet lengths of any bytes."""
    c = ctx.bytes('contents', ctx.choose('length', lengths))
    o = options('jp2', packetmarkers=True)
    v, n = ctx.work(lambda: run(o, kind, c, components=2))
    observe(ctx, v)
    ctx.check('loop iterations are bounded by the size', n <= 1000 + 60 * len(c))


def far(ctx, which, distances, fmt='jp2'):
    """A box, segment or tile-part and, so far after it that the mark for unreadable values leads
    back to it, an incomplete one."""
    d = ctx.choose('distance', distances)
    sz = b'\xff\x51\0\x29\0\0' + n4(2) + n4(1) + n4(0) + n4(0) + n4(2) + n4(1) + n4(0) + \
        n4(0) + b'\0\1\7\1\1'
    main = b'\xff\x4f' + sz + b'\xff\x52\0\x0c\0\0\0\1\0\0\4\4\0\1\xff\x5c\0\4\x40\x48'
    if which == 'tile-part':
        n = ctx.choose('bytes', list(range(0, 15)))
        kind = 'contiguousCodestreamBox'
        data = main + b'\xff\x90\0\x0a\0\0' + n4(d) + b'\0\0\xff\x93' + b'\0' * (d - 14) + (
            b'\xff\x90\0\x0a\0\0' + ctx.bytes('length', 4) + b'\0\0\xff\x93')[0:n]
    elif which in ('segment', 'tile segment'):
        n = ctx.choose('bytes', [0, 1, 2, 3])
        kind = 'contiguousCodestreamBox'
        data = main
        if which == 'tile segment':
            data = data + b'\xff\x90\0\x0a\0\0\0\0\0\0\0\1'
        data = data + b'\xff\x64' + n2(d - 2) + b'\0\0' + b'a' * (d - 6) + (ctx.choose(
            'marker', [b'\xff\x64', b'\xff\x6f', b'\xff\x53']) + ctx.bytes('rest', 1))[0:n]
    else:
        n = ctx.choose('bytes', [0, 1, 3, 4, 7])
        kind = which
        data = n4(d) + b'xml ' + b'a' * (d - 8) + ctx.choose('start', [
            b'', b'\0\0\0\1xml ', b'\0\0\0\1junk']) + ctx.bytes('rest', n)
    o = options(fmt)
    v, n = ctx.work(lambda: run(o, kind, data))
    observe(ctx, v)
    ctx.check('loop iterations are bounded by the size', n <= 4000)
    if kind in ('contiguousCodestreamBox', 'JP2'):
        outcome(ctx, v)


def segment_options(ctx, fmt, which, ahead, inside, at, vary=False):
    """A codestream with several segments of the same kind in main header and tile-part; one of
    them of any kind.  One option off and on."""
    k = ctx.choose('place', list(at))
    place = {'plm': b'\xff\x57\0\5\0\1\5', 'ppm': b'\xff\x60\0\4\0\1', 'com': b'\xff\x64\0\6\0\1hi',
             'tlm': b'\xff\x55\0\4\0\0', 'plt': b'\xff\x58\0\4\0\5', 'ppt': b'\xff\x61\0\4\0\1',
             'rgn': b'\xff\x5e\0\5\0\0\7', 'other': b'\xff\x6f\0\4\0\0'}
    tags = list(ahead) + list(inside)
    tags[k] = ctx.choose('kind', sorted(place))
    segs = []
    for i in range(len(tags)):
        x = place[tags[i]]
        if i == k:
            x = x[0:4] + ctx.bytes('contents', len(x) - 4)
        segs.append(x)
    data = nested('crg', b'\0\0\0\0')[1]
    p = data.find(b'\xff\x90')
    head, tile = b'', b''
    for i in range(len(segs)):
        if i < len(ahead):
            head = head + segs[i]
        else:
            tile = tile + segs[i]
    body = tile + b'\xff\x93\0'
    data = data[0:p] + head + b'\xff\x90\0\x0a\0\0' + n4(12 + len(body)) + b'\0\1' + body + b'\xff\xd9'
    both(ctx, fmt, 'contiguousCodestreamBox', data, which, None, vary)
