"""Reference validation of the boxes in a JP2/JPH header (ISO/IEC 15444-1 Annex I, 15444-15
Annex D, and the user manual's tables).  Each function returns (tests, properties)."""
from .util import rd, u8, u16, u32, bit, within, one_of


def signature(c, fmt):
    return [('boxLengthIsValid', len(c) == 4),
            ('signatureIsValid', c[0:4] == b'\r\n\x87\n')], []


def ftyp(c, fmt):
    brand = b'jp2 ' if fmt == 'jp2' else b'jph '
    n = (len(c) - 8) // 4 if len(c) >= 8 else 0
    props = [('br', c[0:4]), ('minV', u32(c, 4))]
    cl = [c[8 + 4 * k:12 + 4 * k] for k in range(n)]
    for x in cl:
        props.append(('cL', x))
    found = False
    for x in cl:
        found = found or x == brand
    return [('boxLengthIsValid', len(c) % 4 == 0),
            ('brandIsValid', c[0:4] == brand),
            ('minorVersionIsValid', u32(c, 4) == 0),
            ('compatibilityListIsValid', found)], props


def ihdr(c, fmt):
    h, w, nc = u32(c, 0), u32(c, 4), u16(c, 8)
    bpc, comp, unk, ipr = u8(c, 10), u8(c, 11), u8(c, 12), u8(c, 13)
    depth = bpc % 128 + 1
    tests = [('boxLengthIsValid', len(c) == 14),
             ('heightIsValid', within(1, h, 4294967295)),
             ('widthIsValid', within(1, w, 4294967295)),
             ('nCIsValid', within(1, nc, 16384)),
             ('bPCIsValid', within(1, depth, 38) or bpc == 255),
             ('cIsValid', comp == 7),
             ('unkCIsValid', within(0, unk, 1)),
             ('iPRIsValid', within(0, ipr, 1))]
    props = [('height', h), ('width', w), ('nC', nc), ('bPCSign', bit(bpc, 1)),
             ('bPCDepth', depth), ('c', comp), ('unkC', unk), ('iPR', ipr)]
    return tests, props


def bpcc(c, fmt):
    tests, props = [], []
    for k in range(len(c)):
        d = c[k] % 128 + 1
        props.append(('bPCSign', c[k] // 128))
        props.append(('bPCDepth', d))
        tests.append(('bPCIsValid', d <= 38))
    return tests, props


PRIMS = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]
TRANSF = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]
MATRIX = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]


def colr(c, fmt):
    """Without the embedded ICC profile's own properties; returns also the profile."""
    meth, prec, approx = u8(c, 0), u8(c, 1), u8(c, 2)
    ok = [1, 2] if fmt == 'jp2' else [1, 2, 3, 5]
    tests = [('methIsValid', one_of(meth, ok)), ('precIsValid', prec == 0),
             ('approxIsValid', approx == 0)]
    props = [('meth', meth), ('prec', prec), ('approx', approx)]
    profile = None
    if meth == 1:
        cs = u32(c, 3) if len(c) == 7 else -9999
        props.append(('enumCS', cs))
        tests.append(('enumCSIsValid', within(16, cs, 18)))
    elif meth == 2:
        profile = c[3:]
        size = u32(profile, 0)
        cls = profile[12:16]
        tests.append(('iccSizeIsValid', size == len(profile)))
        tests.append(('iccPermittedProfileClass', one_of(cls, [b'scnr', b'mntr'])))
        lut = False
        for s in icc_tags(profile):
            lut = lut or s[0] == b'A2B0'
        tests.append(('iccNoLUTBasedProfile', not lut))
    elif meth == 3:
        profile = c[3:]
    elif meth == 5:
        p, t, m = u16(c, 3), u16(c, 5), u16(c, 7)
        props += [('colPrims', p), ('transfC', t), ('matCoeffs', m),
                  ('vidFRng', bit(u8(c, 9), 1))]
        if fmt == 'jph':
            tests += [('colPrimsIsValid', one_of(p, PRIMS)), ('transfCIsValid', one_of(t, TRANSF)),
                      ('matCoeffsIsValid', one_of(m, MATRIX))]
    return tests, props, profile


def icc_tags(p):
    """(signature, offset, size) of every tag table entry (the count is capped at 4096)."""
    n = u32(p, 128)
    if n > 4096:
        n = 4096
    out = []
    k = 0
    while k < n:
        o = 132 + 12 * k
        out.append((p[o:o + 4], u32(p, o + 4), u32(p, o + 8)))
        k += 1
    return out


def two(v):
    return '%02d' % v


def icc_props(p):
    minor = u8(p, 9)
    flags, attr = u8(p, 44), u8(p, 56)
    props = [
        ('profileSize', u32(p, 0)),
        ('preferredCMMType', p[4:8]),
        ('profileVersion', '%d.%d.%d' % (u8(p, 8), minor >> 4, minor & 15)),
        ('profileClass', p[12:16]),
        ('colourSpace', p[16:20]),
        ('profileConnectionSpace', p[20:24]),
        ('dateTimeString', '%d/%02d/%02d, %02d:%02d:%02d' % (
            u16(p, 24), u8(p, 27), u8(p, 29), u8(p, 31), u8(p, 33), u8(p, 35))),
        ('profileSignature', p[36:40]),
        ('primaryPlatform', p[40:44]),
        ('embeddedProfile', bit(flags, 1)),
        ('profileCannotBeUsedIndependently', bit(flags, 2)),
        ('deviceManufacturer', p[48:52]),
        ('deviceModel', p[52:56]),
        ('transparency', bit(attr, 1)),
        ('glossiness', bit(attr, 2)),
        ('polarity', bit(attr, 3)),
        ('colour', bit(attr, 4)),
        ('renderingIntent', u16(p, 66)),
        ('connectionSpaceIlluminantX', round(u32(p, 68) / 65536, 4)),
        ('connectionSpaceIlluminantY', round(u32(p, 72) / 65536, 4)),
        ('connectionSpaceIlluminantZ', round(u32(p, 76) / 65536, 4)),
        ('profileCreator', p[80:84]),
        ('profileID', p[84:100].hex().encode('ascii')),
    ]
    tags = icc_tags(p)
    for t in tags:
        props.append(('tag', t[0]))
    desc = ''
    for t in tags:
        if t[0] == b'desc':
            d = p[t[1]:t[1] + t[2]]
            n = u32(d, 8)
            desc = d[12:12 + n - 1]
            break
    props.append(('description', desc))
    return props


def pclr(c, fmt):
    ne, npc = u16(c, 0), u8(c, 2)
    tests = [('nEIsValid', within(1, ne, 1024)), ('nPCIsValid', within(1, npc, 255))]
    props = [('nE', ne), ('nPC', npc)]
    # entries follow the bit depths, entry by entry, each value as wide as its column;
    # they are reported per column
    widths = []
    i = 0
    while i < npc:
        widths.append((u8(c, 3 + i) % 128 + 8) // 8)
        i += 1
    row = 0
    for w in widths:
        row = row + w
    start = 3 + len(widths)
    for i in range(len(widths)):
        b = u8(c, 3 + i)
        d = b % 128 + 1
        props += [('bSign', bit(b, 1)), ('bDepth', d)]
        tests.append(('bDepthIsValid', d <= 38))
        j = 0
        while j < ne:
            off = start + j * row
            if off + widths[i] > len(c):
                break
            s = c[off:off + widths[i]]
            props.append(('cP', int.from_bytes(s, 'big')))
            j += 1
        start = start + widths[i]
    return tests, props


def cmap(c, fmt):
    tests, props = [], []
    for k in range(len(c) // 4):
        cmp_, mt, pc = u16(c, 4 * k), u8(c, 4 * k + 2), u8(c, 4 * k + 3)
        props += [('cMP', cmp_), ('mTyp', mt), ('pCol', pc)]
        tests += [('cMPIsValid', within(0, cmp_, 16384)), ('mTypIsValid', within(0, mt, 1)),
                  ('pColIsValid', mt != 0 or pc == 0)]
    return tests, props


def cdef(c, fmt):
    n = u16(c, 0)
    tests = [('nIsValid', within(1, n, 65535)), ('boxLengthIsValid', len(c) == 2 + 6 * n)]
    props = [('n', n)]
    alphas = []
    k = 0
    while k < n:
        o = 2 + 6 * k
        cn, ct, ca = u16(c, o), u16(c, o + 2), u16(c, o + 4)
        props += [('cN', cn), ('cTyp', ct), ('cAssoc', ca)]
        tests += [('cNIsValid', within(0, cn, 65535)),
                  ('cTypIsValid', one_of(ct, [0, 1, 2, 65535] if fmt == 'jp2'
                                         else [0, 1, 2, 3, 65535])),
                  ('cAssocIsValid', within(0, ca, 65535))]
        if ct == 1 or ct == 2:
            alphas.append(ca)
        k += 1
    if fmt == 'jph':
        tests.append(('noMoreThanOneAlphaChannel', len(alphas) <= 1))
        for a in alphas:
            tests.append(('cAssocAlphaChannelIsZero', a == 0))
    return tests, props
