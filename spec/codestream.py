"""Reference validation of codestream marker segments (ISO/IEC 15444-1 Annex A, 15444-15
Annex A, and the user manual's tables).  c: the segment without its marker code; csiz: number
of components of the image.  Each function returns (tests, properties)."""
from .util import rd, u8, u16, u32, bit, within, one_of, ANY

CINEMA = ["ISO/IEC 15444-1", "Profile 0", "Profile 1", "2K digital cinema profile",
          "4K digital cinema profile", "Scalable 2K digital cinema profile",
          "Scalable 4K digital cinema profile", "Long-term storage profile"]
BROADCAST = {1: "Broadcast Contribution Single Tile Profile",
             2: "Broadcast Contribution Multi-tile Profile",
             3: "Broadcast Contribution Multi-tile Reversible Profile"}
IMF = {4: "2k IMF Single Tile Lossy Profile", 5: "4k IMF Single Tile Lossy Profile",
       6: "8k IMF Single Tile Lossy Profile", 7: "2k IMF Single/Multi Tile Reversible Profile",
       8: "4k IMF Single/Multi Tile Reversible Profile",
       9: "8k IMF Single/Multi Tile Reversible Profile"}
UNKNOWN = "Unknown (value not defined in ISO/IEC 15444-1)"
HT = ['jph', 'jhc']


def capability(rsiz):
    if rsiz < 0:
        return ANY
    ext, prof = rsiz // 16384, rsiz // 256 % 16
    sub, main = rsiz // 16 % 16, rsiz % 16
    if ext == 1:
        return "CAP"
    if ext == 2:
        return "ISO/IEC 15444-2"
    if ext == 3:
        return "ISO/IEC 15444-2 + CAP"
    if prof == 0:
        for k in range(8):
            if main == k:
                return CINEMA[k]
        return UNKNOWN
    for k in BROADCAST:
        if prof == k:
            return "%s, Mainlevel %d" % (BROADCAST[k], main)
    for k in IMF:
        if prof == k:
            return "%s, Mainlevel %d; Sublevel %d" % (IMF[k], main, sub)
    if rsiz % 4096 == 4095:
        return "Profile signalled in Profile Marker"
    return UNKNOWN


def ceildiv(a, b):
    return -((-a) // b)


def siz(c, fmt, csiz_=None):
    lsiz, rsiz = u16(c, 0), u16(c, 2)
    x, y, xo, yo = u32(c, 4), u32(c, 8), u32(c, 12), u32(c, 16)
    xt, yt, xto, yto = u32(c, 20), u32(c, 24), u32(c, 28), u32(c, 32)
    n = u16(c, 36)
    big = 2 ** 32
    if fmt in HT:
        rok = rsiz // 16384 % 2 == 1
    else:
        rok = rsiz // 4096 % 16 == 0
    tests = [('lsizIsValid', within(41, lsiz, 49190)),
             ('rsizIsValid', rok if rsiz >= 0 else ANY),
             ('xsizIsValid', within(1, x, big - 1)), ('ysizIsValid', within(1, y, big - 1)),
             ('xOsizIsValid', within(0, xo, big - 2)), ('yOsizIsValid', within(0, yo, big - 2)),
             ('xTsizIsValid', within(1, xt, big - 1)), ('yTsizIsValid', within(1, yt, big - 1)),
             ('xTOsizIsValid', within(0, xto, big - 2)),
             ('yTOsizIsValid', within(0, yto, big - 2)),
             ('csizIsValid', within(1, n, 16384)),
             ('lsizConsistentWithCsiz', lsiz == 38 + 3 * n)]
    if len(c) < 36:
        tiles = ANY
    elif xt == 0 or yt == 0:
        tiles = 0
    else:
        tiles = ceildiv(x - xto, xt) * ceildiv(y - yto, yt)
    props = [('lsiz', lsiz), ('rsiz', rsiz), ('capability', capability(rsiz)), ('xsiz', x),
             ('ysiz', y), ('xOsiz', xo), ('yOsiz', yo), ('xTsiz', xt), ('yTsiz', yt),
             ('xTOsiz', xto), ('yTOsiz', yto), ('numberOfTiles', tiles), ('csiz', n)]
    k = 0
    while k < n:
        o = 38 + 3 * k
        s, xr, yr = u8(c, o), u8(c, o + 1), u8(c, o + 2)
        d = s % 128 + 1
        props += [('ssizSign', bit(s, 1)), ('ssizDepth', d), ('xRsiz', xr), ('yRsiz', yr)]
        tests += [('ssizIsValid', d <= 38), ('xRsizIsValid', within(1, xr, 255)),
                  ('yRsizIsValid', within(1, yr, 255))]
        k += 1
    return tests, props


def coding(c, o, fmt, precincts, length, base, lname):
    """The part shared by coding style default/component, from the number of levels on."""
    levels = u8(c, o)
    w, h, style, tr = u8(c, o + 1) + 2, u8(c, o + 2) + 2, u8(c, o + 3), u8(c, o + 4)
    tests = [('levelsIsValid', within(0, levels, 32)),
             (lname, length == (base + 1 + levels if precincts == 1 else base)),
             ('codeBlockWidthExponentIsValid', within(2, w, 10)),
             ('codeBlockHeightExponentIsValid', within(2, h, 10)),
             ('sumHeightWidthExponentIsValid', w + h <= 12),
             ('transformationIsValid', within(0, tr, 1))]
    props = [('levels', levels), ('codeBlockWidth', 2 ** w), ('codeBlockHeight', 2 ** h),
             ('codingBypass', bit(style, 8)), ('termOnEachPass', bit(style, 6)),
             ('vertCausalContext', bit(style, 5)), ('transformation', tr)]
    if not (fmt in HT and style // 64 % 4 == 1):
        # defined unless all code-blocks are high-throughput
        props += [('resetOnBoundaries', bit(style, 7)), ('predTermination', bit(style, 4)),
                  ('segmentationSymbols', bit(style, 3))]
    k = 0
    while k < levels + 1:
        if precincts == 1:
            b = u8(c, o + 5 + k)
            px, py = b % 16, b // 16 % 16
            props += [('precinctSizeX', 2 ** px), ('precinctSizeY', 2 ** py)]
            tests += [('precinctSizeXIsValid', k == 0 or px >= 1),
                      ('precinctSizeYIsValid', k == 0 or py >= 1)]
        else:
            props += [('precinctSizeX', 32768), ('precinctSizeY', 32768)]
        k += 1
    return tests, props


def cod(c, fmt, csiz=None):
    lcod, scod = u16(c, 0), u8(c, 2)
    prec = scod % 2
    order, layers, mct = u8(c, 3), u16(c, 4), u8(c, 6)
    tests = [('lcodIsValid', within(12, lcod, 45)), ('orderIsValid', within(0, order, 4)),
             ('layersIsValid', within(1, layers, 65535)),
             ('multipleComponentTransformationIsValid', within(0, mct, 1))]
    props = [('lcod', lcod), ('precincts', prec), ('sop', bit(scod, 7)), ('eph', bit(scod, 6)),
             ('order', order), ('layers', layers), ('multipleComponentTransformation', mct)]
    t, p = coding(c, 7, fmt, prec, lcod, 12, 'lcodConsistencyCheck')
    return tests + t, props + p


def component(c, o, csiz):
    """Component index field: one byte if there are fewer than 257 components, else two."""
    if csiz < 257:
        v = u8(c, o)
        return v, within(0, v, 255), o + 1
    v = u16(c, o)
    return v, within(0, v, 16383), o + 2


def coc(c, fmt, csiz):
    lcoc = u16(c, 0)
    comp, ok, o = component(c, 2, csiz)
    prec = u8(c, o) % 2
    tests = [('lcocIsValid', within(9, lcoc, 43)), ('ccocIsValid', ok)]
    props = [('lcoc', lcoc), ('ccoc', comp), ('precincts', prec)]
    t, p = coding(c, o + 1, fmt, prec, lcoc, 9 if csiz < 257 else 10, 'lcocConsistencyCheck')
    return tests + t, props + p


def rgn(c, fmt, csiz):
    lrgn = u16(c, 0)
    comp, ok, o = component(c, 2, csiz)
    style, shift = u8(c, o), u8(c, o + 1)
    return [('lrgnIsValid', within(5, lrgn, 6)), ('crgnIsValid', ok),
            ('roiStyleIsValid', style == 0),
            ('roiShiftIsValid', within(0, shift, 37 if fmt in HT else 255))], \
        [('lrgn', lrgn), ('crgn', comp), ('roiStyle', style), ('roiShift', shift)]


def quantization(c, o, length, base):
    """From the quantization style on; base: length of a segment without step sizes."""
    s = u8(c, o)
    style = s % 32
    tests = [('qStyleIsValid', within(0, style, 2))]
    props = [('qStyle', style), ('guardBits', s // 32 % 8)]
    o = o + 1
    if style == 0:
        k = 0
        while 3 * k + 3 <= length - base:
            props.append(('epsilon', u8(c, o + k) // 8 % 32))
            k += 1
    elif style == 1:
        v = u16(c, o)
        props += [('mu', v % 2048), ('epsilon', v // 2048 % 32)]
    elif style == 2:
        k = 0
        while 6 * k + 6 <= length - base - 1:
            v = u16(c, o + 2 * k)
            props += [('mu', v % 2048), ('epsilon', v // 2048 % 32)]
            k += 1
    return tests, props


def qcd(c, fmt, csiz=None):
    lqcd = u16(c, 0)
    t, p = quantization(c, 2, lqcd, 4)
    return [('lqcdIsValid', within(4, lqcd, 197))] + t, [('lqcd', lqcd)] + p


def qcc(c, fmt, csiz):
    lqcc = u16(c, 0)
    comp, ok, o = component(c, 2, csiz)
    t, p = quantization(c, o, lqcc, 5 if csiz < 257 else 6)
    return [('lqccIsValid', within(5, lqcc, 199))] + t, [('lqcc', lqcc), ('cqcc', comp)] + p


def poc(c, fmt, csiz):
    lpoc = u16(c, 0)
    tests = [('lpocIsValid', within(9, lpoc, 65535))]
    props = [('lpoc', lpoc)]
    size = 7 if csiz < 257 else 9
    o = 2
    k = 0
    while size * k + size <= lpoc - 2:
        rs = u8(c, o)
        cs, csok, o2 = component(c, o + 1, csiz)
        ly, re = u16(c, o2), u8(c, o2 + 2)
        ce, _, o3 = component(c, o2 + 3, csiz)
        order = u8(c, o3)
        o = o3 + 1
        tests += [('rspocIsValid', within(0, rs, 32)), ('cspocIsValid', csok),
                  ('lyepocIsValid', within(1, ly, 65535)),
                  ('repocIsValid', within(rs + 1, re, 33)),
                  ('cepocIsValid', within(cs + 1, ce, 255 if csiz < 257 else 16384) or ce == 0),
                  ('orderIsValid', within(0, order, 4))]
        props += [('rspoc', rs), ('cspoc', cs), ('lyepoc', ly), ('repoc', re), ('cepoc', ce),
                  ('order', order)]
        k += 1
    return tests, props


def crg(c, fmt, csiz):
    lcrg = u16(c, 0)
    tests = [('lcrgIsValid', within(6, lcrg, 65534))]
    props = [('lcrg', lcrg)]
    for k in range(csiz):
        x, y = u16(c, 2 + 4 * k), u16(c, 4 + 4 * k)
        tests += [('xcrgIsValid', x >= 0), ('ycrgIsValid', y >= 0)]
        props += [('xcrg', x), ('ycrg', y)]
    return tests, props


# ISO 8859-15 differs from ISO 8859-1 in these eight places
LATIN9 = {0xa4: 0x20ac, 0xa6: 0x160, 0xa8: 0x161, 0xb4: 0x17d, 0xb8: 0x17e, 0xbc: 0x152,
          0xbd: 0x153, 0xbe: 0x178}


def latin9(b):
    r = b
    for k in LATIN9:
        r = LATIN9[k] if b == k else r
    return r


def printable(b):
    """Latin text byte that is not a control (tab, newline, return are fine) or format code."""
    return b >= 32 and b < 127 or b >= 160 and b != 173 or one_of(b, [9, 10, 13])


def com(c, fmt, csiz=None):
    lcom, rcom = u16(c, 0), u16(c, 2)
    tests = [('lcomIsValid', within(5, lcom, 65535)), ('rcomIsValid', within(0, rcom, 1))]
    props = [('lcom', lcom), ('rcom', rcom)]
    body = c[4:]
    if rcom == 0:
        ok = True
        props.append(('comment', body.hex().encode('ascii')))
    elif rcom == 1:
        ok = True
        for b in body:
            ok = ok and printable(b)
        if ok:
            props.append(('comment', ''.join([chr(latin9(b)) for b in body])))
    else:
        ok = False
    tests.append(('commentIsValid', ok))
    return tests, props


def cap(c, fmt, csiz=None):
    lcap, pcap = u16(c, 0), u32(c, 2)
    props = [('lcap', lcap)]
    parts = []
    if pcap < 0:
        return None, None        # nothing meaningful to report
    for k in range(1, 33):
        if bit(pcap, k, 32) == 1:
            parts.append(k)
            props.append(('pcapPart', k))
    tests = [('lcapIsValid', lcap == 6 + 2 * len(parts))]
    if fmt in HT:
        tests.append(('pcap15IsValid', 15 in parts))
        if 15 in parts:
            v = u16(c, 6 + 2 * parts.index(15))
            if v < 0:
                v = None
            props += cap15(v)
    return tests, props


def cap15(v):
    if v is None:
        return [(t, ANY) for t in ('htCodeBlocks', 'htSets', 'htRegion', 'htHomogeneous',
                                   'htReversible', 'htB')]
    p = v % 32
    if p == 0:
        b = 8
    elif p < 20:
        b = p + 8
    elif p < 31:
        b = 4 * (p - 19) + 27
    else:
        b = 74
    return [('htCodeBlocks', v // 16384 * 16384), ('htSets', bit(v, 3, 16)),
            ('htRegion', bit(v, 4, 16)), ('htHomogeneous', bit(v, 5, 16)),
            ('htReversible', bit(v, 11, 16)), ('htB', b)]


def profnum(c, length, start):
    n = start
    last = None
    k = 0
    while 2 * k + 2 <= length - 2:
        v = u16(c, 2 + 2 * k)
        n = n + v * 65536 ** k
        last = v
        k += 1
    return n, last


def prf(c, fmt, csiz=None):
    lprf = u16(c, 0)
    n, last = profnum(c, lprf, 4095)
    tests = [('lprfIsValid', within(4, lprf, 65534)), ('PRFnumIsValid', n > 4095)]
    if last is not None:
        tests.append(('pprfIsValid', last != 0))
    return tests, [('lprf', lprf), ('PRFnum', n)]


def cpf(c, fmt, csiz=None):
    lcpf = u16(c, 0)
    n, last = profnum(c, lcpf, -1)
    tests = []
    if fmt in HT:
        tests.append(('lcpfIsValid', within(4, lcpf, 65534)))
        if last is not None:
            tests.append(('pcpfIsValid', last != 0))
    return tests, [('lcpf', lcpf), ('CPFnum', n)]


def sot(c, fmt, csiz=None):
    lsot, isot, psot, tp, tn = u16(c, 0), u16(c, 2), u32(c, 4), u8(c, 8), u8(c, 9)
    return [('lsotIsValid', lsot == 10), ('isotIsValid', within(0, isot, 65534)),
            ('psotIsValid', psot < 1 or psot > 13), ('tpsotIsValid', within(0, tp, 254))], \
        [('lsot', lsot), ('isot', isot), ('psot', psot), ('tpsot', tp), ('tnsot', tn)]


def packets(c, o):
    """Packet lengths: groups of bytes of which all but the last have their top bit set, seven
    bits each; as hexadecimal numbers of two digits per byte, separated by commas."""
    out = ''
    v = 0
    k = 0
    for i in range(o, len(c)):
        v = v * 128 + c[i] % 128
        k += 1
        if c[i] < 128 or i == len(c) - 1:
            out = out + (',' if out else '') + format(v, '0%dX' % (2 * k))
            v = 0
            k = 0
    return out


def plt(c, fmt, csiz=None):
    return [], [('lplt', u16(c, 0)), ('zplt', u8(c, 2)), ('iplt', packets(c, 3))]


def plm(c, fmt, csiz=None):
    return [], [('lplm', u16(c, 0)), ('zplm', u8(c, 2)), ('nplm', u8(c, 3)),
                ('iplm', packets(c, 4))]
