"""Harnesses for the analysis of files: result assembly, MIX records, the command line."""
import argparse
import datetime
import os
import struct
import sys
import xml.etree.ElementTree as XML
from jpylyzer import boxvalidator
from jpylyzer import config
from jpylyzer import etpatch as ET
from jpylyzer import jpylyzer
from jpylyzer import mix
from spec import mix as SM
from .common import options, run
from .whole import parts, build, root, picks, flat, same_flat, n2, n4, bx, F, stream, header


# ------------------------------------------------------------------ one file (C27)
def kids(ctx, elem):
    return [c for g, c in ctx.tree(elem) if g is True or g]


def texts(ctx, elem):
    """[(path, text)] of the elements without children."""
    return [(p, t) for g, p, t in flat(ctx, elem) if g is True or g]


def observe_result(ctx, r):
    for g, c in ctx.tree(r):
        if c.tag in ('isValid', 'tests', 'properties', 'propertiesExtension', 'warnings'):
            ctx.observe(c.tag, c)


def whole_result(ctx, r, fmt, mixed):
    """The parts of a result: all there, in the order of the schema."""
    ctx.check('root', r.tag == 'file')
    ks = kids(ctx, r)
    want = ['fileInfo', 'statusInfo', 'isValid', 'tests', 'properties']
    if mixed:
        want.append('propertiesExtension')
    want.append('warnings')
    ctx.check('parts of the result', [c.tag for c in ks] == want)
    out = {}
    for c in ks:
        out[c.tag] = c
    ctx.check('format of the verdict', out['isValid'].attrib == {'format': fmt})
    return out


def check_info(ctx, info, path, size, name=None):
    ks = kids(ctx, info)
    ctx.check('file information', [c.tag for c in ks] == [
        'fileName', 'filePath', 'fileSizeInBytes', 'fileLastModified'])
    if name is None:
        ctx.check('file name', ks[0].text == os.path.basename(path))
        ctx.check('file path', ks[1].text == os.path.abspath(path))
    ctx.check('file size', ks[2].text == str(size))
    ctx.check('date', ks[3].text is not None)
    return ks


def check_status(ctx, status, success):
    ks = kids(ctx, status)
    if success:
        ctx.check('status', [c.tag for c in ks] == ['success'] and ks[0].text == 'True')
    else:
        ctx.check('status', [c.tag for c in ks] == ['success', 'failureMessage'] and
                  ks[0].text == 'False' and ks[1].text is not None and len(ks[1].text) > 0)


def analyse(path, fmt, verbose=False, packetmarkers=False, nullxml=False, mixFlag=0):
    return jpylyzer.checkOneFile(path, fmt, verbose, packetmarkers, nullxml, mixFlag)


def expect(ctx, r, fmt, data, opts, path, mixFlag, before=()):
    """The result is that of the validator, made readable."""
    out = whole_result(ctx, r, fmt, mixFlag != 0)
    check_info(ctx, out['fileInfo'], path, len(data))
    check_status(ctx, out['statusInfo'], True)
    v = run(opts, root(fmt), data)
    v.tests.makeHumanReadable()
    v.characteristics.makeHumanReadable(jpylyzer.generatePropertiesRemapTable())
    v.warnings.makeHumanReadable()
    ctx.check('verdict', out['isValid'].text == ('True' if v.isValid else 'False'))
    same_flat(ctx, 'tests', flat(ctx, out['tests']), flat(ctx, v.tests))
    same_flat(ctx, 'properties', flat(ctx, out['properties']), flat(ctx, v.characteristics))
    same_flat(ctx, 'warnings', flat(ctx, out['warnings']), flat(ctx, v.warnings))
    return out, v


def result(ctx, fmt, group, mixFlag=0, verbose=True):
    """Any one field of a valid file takes any value."""
    f = ctx.choose('field', [x for x in picks(fmt, group) if x != 'siz.rsiz'])
    data = build(ctx, fmt, [f])
    path = ctx.file('a.' + fmt, data)
    o = options(fmt, verbose)
    r = analyse(path, fmt, verbose, False, False, mixFlag)
    observe_result(ctx, r)
    expect(ctx, r, fmt, data, o, path, mixFlag)


def result_options(ctx, fmts):
    """Every combination of options."""
    fmt = ctx.choose('format', fmts)
    data = b''
    for f, b in parts(fmt):
        if f == 'xml.content':
            b = ctx.choose('xml', [b'<a>b</a>', b'<a>b<a>\0'])
        data = data + b
    data = data[0:len(data) - ctx.choose('cut', [0, 1])]
    verbose = ctx.bool('verbose')
    packets = ctx.bool('packetmarkers')
    nullxml = ctx.bool('nullxml')
    verbose, packets, nullxml = (True if verbose else False), (True if packets else False), \
        (True if nullxml else False)
    m = ctx.choose('mix', [0, 1, 2])
    path = ctx.file('a.' + fmt, data)
    r = analyse(path, fmt, verbose, packets, nullxml, m)
    observe_result(ctx, r)
    out, v = expect(ctx, r, fmt, data, options(fmt, verbose, nullxml, packets), path, m)
    if m != 0:
        ext = kids(ctx, out['propertiesExtension'])
        if v.isValid and fmt in ('jp2', 'jph'):
            ctx.check('extension', len(ext) == 1 and ext[0].tag == 'mix:mix')
        else:
            ctx.check('no extension', len(ext) == 0)


def any_bytes(ctx, fmts, lengths):
    """Files of any few bytes."""
    fmt = ctx.choose('format', fmts)
    n = ctx.choose('length', lengths)
    data = ctx.bytes('data', n)
    path = ctx.file('x', data)
    r = analyse(path, fmt, True)
    observe_result(ctx, r)
    out = whole_result(ctx, r, fmt, False)
    check_info(ctx, out['fileInfo'], path, n)
    check_status(ctx, out['statusInfo'], True)
    ctx.check('not valid', out['isValid'].text == 'False')


def empty(ctx):
    """An empty file is analysed, is not valid and a warning says so."""
    fmt = ctx.choose('format', ['jp2', 'jph', 'j2c', 'jhc'])
    path = ctx.file('empty', b'')
    r = analyse(path, fmt, True, False, False, ctx.choose('mix', [0, 1, 2]))
    m = len([c for c in kids(ctx, r) if c.tag == 'propertiesExtension'])
    out = whole_result(ctx, r, fmt, m == 1)
    check_info(ctx, out['fileInfo'], path, 0)
    check_status(ctx, out['statusInfo'], True)
    ctx.check('not valid', out['isValid'].text == 'False')
    ctx.check('warning', len([1 for p, t in texts(ctx, out['warnings']) if 'empty file' in t]) == 1)


class Odd(Exception):
    pass


def exceptions():
    return [MemoryError(), OSError('x'), RuntimeError('y'), FileNotFoundError(2, 'z'),
            PermissionError(13, 'z'), RecursionError(), ValueError('v'), KeyError('k'),
            IndexError('i'), TypeError('t'), AttributeError('a'), struct.error('s'),
            UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'u'), ZeroDivisionError(), OverflowError(),
            AssertionError(), NotImplementedError(), StopIteration(), Odd('o'), EOFError(),
            SyntaxError('p')]


def check_failed(ctx, r, fmt, path, size, mixFlag, exc):
    observe_result(ctx, r)
    out = whole_result(ctx, r, fmt, mixFlag != 0)
    check_info(ctx, out['fileInfo'], path, size)
    check_status(ctx, out['statusInfo'], False)
    ctx.check('not valid', out['isValid'].text == 'False')
    msg = kids(ctx, out['statusInfo'])[1].text
    if type(exc) is MemoryError:
        ctx.check('message: memory', 'memory' in msg)
    elif type(exc) is OSError:
        ctx.check('message: I/O', 'I/O' in msg)
    elif type(exc) is RuntimeError:
        ctx.check('message: runtime', 'runtime' in msg)
    if mixFlag != 0:
        ctx.check('no extension', len(kids(ctx, out['propertiesExtension'])) == 0)


def crash(ctx, fmt, last):
    """Validation fails at any point (the k-th box or segment), in any way."""
    k = ctx.int('k', 1, last)
    exc = ctx.choose('exception', exceptions())
    m = ctx.choose('mix', [0, 2])
    data = b''.join([b for f, b in parts(fmt)])
    path = ctx.file('a.' + fmt, data)
    count = [0]
    old = boxvalidator.BoxValidator.validate

    def validate(self):
        count[0] = count[0] + 1
        if count[0] == k:
            count[0] = count[0] + 1000
            raise exc
        return old(self)
    ctx.patch(boxvalidator.BoxValidator, 'validate', validate)
    r = analyse(path, fmt, True, False, False, m)
    if count[0] < 1000:           # (never got that far)
        return
    check_failed(ctx, r, fmt, path, len(data), m, exc)


def fault(ctx, where):
    """Reading the file, or making the results readable, fails in any way."""
    fmt = ctx.choose('format', ['jp2', 'jhc'])
    exc = ctx.choose('exception', exceptions())
    m = ctx.choose('mix', [0, 1])
    data = b''.join([b for f, b in parts(fmt)])
    path = ctx.file('a.' + fmt, data)
    hit = [0]

    def bad(*a, **k):
        hit[0] = 1
        raise exc
    if where == 'open':
        ctx.patch(jpylyzer, 'open', bad)
    elif where == 'mmap':
        if type(exc) is ValueError:
            return
        if not hasattr(jpylyzer, 'mmap'):
            return
        ctx.patch(jpylyzer.mmap, 'mmap', bad)
    elif where == 'validator':
        ctx.patch(boxvalidator, 'BoxValidator', bad)
    else:
        if not hasattr(ET.Element, 'makeHumanReadable'):
            return
        ctx.patch(ET.Element, 'makeHumanReadable', bad)
    r = analyse(path, fmt, True, False, False, m)
    if hit[0] == 0:               # (not used)
        return
    check_failed(ctx, r, fmt, path, len(data), m, exc)


NAMES = ['a.jp2', 'name with space', 'a&b<c>"d\'', 'é\u20ac\u4e2d', '\U0001f600x', 'tab\there',
         'ctl\x01x', 'del\x7fx', '\x1f', '\ufffe.jp2', 'x\uffff', '\udc80raw', '\udcff\udc80', '\ud7ff\ue000',
         'new\nline', '\ufffd', '\U0010ffff', '\x0b\x0c\x0e', '-x', '%s{0}', '*?[a]']


def legal(ch):
    o = ord(ch)
    return o in (9, 10, 13) or 32 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or o >= 0x10000


def name(ctx):
    """Any name: reported as it is, without characters that XML forbids."""
    nm = ctx.choose('name', NAMES)
    sub = ctx.choose('in directory', ['', 'd\x02/', '\udc81/', 'e e/'])
    path = ctx.file(sub + nm, b'x')
    ks = kids(ctx, kids(ctx, analyse(path, 'jp2'))[0])
    ctx.observe('info', [k.text for k in ks[:2]][:1])
    for what, full, t in (('file name', nm, ks[0].text),
                          ('file path', os.path.abspath(path), ks[1].text)):
        ctx.check(what + ': legal', len([c for c in t if not legal(c)]) == 0)
        # (surrogates may leave a question mark behind)
        want = ''.join([c for c in full if legal(c)])
        hide = ''.join([c if legal(c) else '?' if 0xd800 <= ord(c) <= 0xdfff else ''
                        for c in full])
        ctx.check(what, t == want or t == hide)


TIMES = [0, 1, 1.5, 86399, 951782400, 1700000000.25, 2147483647, 2147483648, 4102444800,
         253402214400, -1, -86400, -2208988800]


def modified(ctx):
    """The date of the last change is the one of the file, or some date if it has none."""
    path = ctx.file('a', b'x')
    t = ctx.choose('time', TIMES)
    os.utime(path, (t, t))
    ks = kids(ctx, kids(ctx, analyse(path, 'jp2'))[0])
    ctx.check('date', ks[3].text == datetime.datetime.fromtimestamp(
        os.path.getmtime(path)).isoformat())


def undated(ctx):
    path = ctx.file('a', b'x')
    t = ctx.choose('time', [1e18, 1e300, -1e18, 253402400000 + 86400 * 3, OverflowError('x'),
                            ValueError('x')])

    def getmtime(p):
        if isinstance(t, Exception):
            raise t
        return t
    ctx.patch(os.path, 'getmtime', getmtime)
    r = analyse(path, 'jp2')
    out = whole_result(ctx, r, 'jp2', False)
    check_info(ctx, out['fileInfo'], path, 1)
    check_status(ctx, out['statusInfo'], True)


# ------------------------------------------------------------------ MIX (C26)
def set_text(ctx, props, path, value):
    props.find(path).text = value


def described(v, table, default=None):
    for k in table:
        if v == k:
            return table[k]
    return str(v)


def read_props(fmt):
    """The readable properties of a valid file."""
    v = run(options(fmt), root(fmt), b''.join([b for f, b in parts(fmt)]))
    v.characteristics.makeHumanReadable(jpylyzer.generatePropertiesRemapTable())
    return v.characteristics


def base(fmt):
    """What the valid file says."""
    return dict(brand='jph' if fmt == 'jph' else 'jp2', transformation='5-3 reversible',
                ratio=0.0, width='2', height='1', icc=None, enumcs='sRGB', codec=None,
                xTsiz='2', yTsiz='1', layers='1', levels='0', capture=None,
                resolution=(100, 100), depths=['8'], components='1')


def check_mix(ctx, m, want, version):
    ctx.check('element', m.tag == 'mix:mix')
    ctx.check('version', m.attrib.get('xmlns:mix') == 'http://www.loc.gov/mix/v%d0' % version)
    ctx.check('schema', m.attrib.get('xsi:schemaLocation') == (
        'http://www.loc.gov/mix/v10 http://www.loc.gov/standards/mix/mix10/mix10.xsd'
        if version == 1 else
        'http://www.loc.gov/mix/v20 http://www.loc.gov/standards/mix/mix.xsd') and
        m.attrib.get('xmlns:xsi') == 'http://www.w3.org/2001/XMLSchema-instance')
    got = texts(ctx, m)
    exp = SM.record(want, version)
    ctx.check('statements', [p for p, t in got] == [p for p, t in exp])
    for k in range(min(len(got), len(exp))):
        ctx.check(exp[k][0], got[k][1] == exp[k][1])


def mix_values(ctx, fmt, version, which):
    """The record of properties with any values."""
    props = read_props(fmt)
    want = base(fmt)
    want['ratio'] = float(props.find('compressionRatio').text)
    c = 'contiguousCodestreamBox/'
    h = 'jp2HeaderBox/'
    if which == 'size':
        for k, path in (('width', h + 'imageHeaderBox/width'),
                        ('height', h + 'imageHeaderBox/height'), ('xTsiz', c + 'siz/xTsiz'),
                        ('yTsiz', c + 'siz/yTsiz')):
            t = str(ctx.int(k, 1, 2 ** 32 - 1))
            want[k] = t
            set_text(ctx, props, path, t)
    elif which == 'coding':
        t = str(ctx.int('layers', 0, 65535))
        want['layers'] = t
        set_text(ctx, props, c + 'cod/layers', t)
        t = str(ctx.int('levels', 0, 32))
        want['levels'] = t
        set_text(ctx, props, c + 'cod/levels', t)
        t = ctx.choose('transformation', ['5-3 reversible', '9-7 irreversible', '2'])
        want['transformation'] = t
        set_text(ctx, props, c + 'cod/transformation', t)
    elif which == 'components':
        n = ctx.choose('components', [1, 2, 3, 4])
        siz = props.find(c + 'siz')
        want['depths'] = [str(ctx.int('depth%d' % k, 1, 38)) for k in range(n)]
        siz.find('ssizDepth').text = want['depths'][0]
        for k in range(1, n):
            siz.appendChildTagWithText('ssizSign', 'unsigned')
            siz.appendChildTagWithText('ssizDepth', want['depths'][k])
            siz.appendChildTagWithText('xRsiz', '1')
            siz.appendChildTagWithText('yRsiz', '1')
        siz.find('csiz').text = str(n)
        want['components'] = str(n)
    elif which == 'ratio':
        t = ctx.choose('ratio', ['0.0', '1.0', '0.5', '1.5', '2.5', '12.34', '12.35', '0.01',
                                 '99999.99', '123456789.12', '1e+16', '1.005', '29.94', '7.49', '3'])
        want['ratio'] = float(t)
        set_text(ctx, props, 'compressionRatio', t)
    elif which == 'brand':
        f = props.find('fileTypeBox/br')
        t = ctx.choose('brand', ['jp2 ', 'jph ', 'jpx ', 'mjp2'])
        f.text = t
        want['brand'] = t.strip()
    elif which == 'comment':
        t = ctx.choose('comment', ['Kakadu-v5.2.1', 'abc', '-v', 'x-v1-v2.0', 'a -v3 b', 'v1',
                                   'line\nKakadu-v6.0', ''])
        more = ctx.choose('another', [False, True])
        first = props.find(c + 'com/comment')
        first.text = t
        want['codec'] = {'Kakadu-v5.2.1': ('Kakadu', '5.2.1'), '-v': ('', ''),
                         'x-v1-v2.0': ('x-v1', '2.0'), 'a -v3 b': ('a ', '3'),
                         'line\nKakadu-v6.0': ('Kakadu', '6.0')}.get(t)
        if more:
            e = ET.Element('com')
            e.appendChildTagWithText('comment', 'Other-v9')
            props.find('contiguousCodestreamBox').append(e)
    elif which == 'no comment':
        cc = props.find('contiguousCodestreamBox')
        cc.remove(cc.find('com'))
        want['codec'] = None
    elif which == 'colour':
        hd = props.find('jp2HeaderBox')
        hd.remove(hd.find('colourSpecificationBox'))
        kinds = ctx.choose('boxes', [['enum'], ['icc'], ['enum', 'icc'], ['icc', 'enum'], ['none'],
                                     ['none', 'enum'], []])
        want['enumcs'] = None
        for kind in kinds:
            b = ET.Element('colourSpecificationBox')
            b.appendChildTagWithText('meth', 'x')
            if kind == 'enum':
                t = described(ctx.int('enumcs', 0, 2 ** 32 - 1),
                              {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'})
                b.appendChildTagWithText('enumCS', t)
                want['enumcs'] = t
            elif kind == 'icc':
                e = ET.Element('icc')
                e.appendChildTagWithText('colourSpace', ctx.choose('space', ['RGB ', 'GRAY', 'Lab ']))
                d = ctx.choose('name', ['sRGB v4', None, 'x'])
                e.appendChildTagWithText('description', d)
                b.append(e)
                want['icc'] = (e.find('colourSpace').text.strip(), d)
            hd.append(b)
    elif which == 'resolution':
        hd = props.find('jp2HeaderBox')
        hd.remove(hd.find('resolutionBox'))
        boxes = ctx.choose('boxes', [[], ['d'], ['c'], ['c', 'd'], ['d', 'c']])
        vals = ['11811.02', '5905.512', '0.005', '0.0049', '1.0', '1e-05', '1e+16', '299.99999', '7874.0157']
        want['resolution'] = None
        if boxes != []:
            rb = ET.Element('resolutionBox')
            for kind in boxes:
                e = ET.Element('captureResolutionBox' if kind == 'c' else 'displayResolutionBox')
                x = ctx.choose(kind + 'x', vals if kind == 'c' or boxes == ['d'] else vals[1:3])
                y = ctx.choose(kind + 'y', vals[0:2])
                for k, t in (('v', y), ('h', x)):
                    e.appendChildTagWithText('%sRes%sInPixelsPerMeter' % (k, kind), t)
                    e.appendChildTagWithText('%sRes%sInPixelsPerInch' % (k, kind), '7.7')
                rb.append(e)
                if want['resolution'] is None or kind == 'c':
                    want['resolution'] = (int(round(float(x) * 100)), int(round(float(y) * 100)))
            hd.append(rb)
    m = mix.Mix(version).generateMix(props)
    ctx.observe('mix', m)
    check_mix(ctx, m, want, version)


RDF = '<x:xmpmeta xmlns:x="adobe:ns:meta/"><r:RDF xmlns:r="http://www.w3.org/1999/02/22-rdf-syntax-ns#" ' \
    'xmlns:xap="http://ns.adobe.com/xap/1.0/" xmlns:tiff="http://ns.adobe.com/tiff/1.0/" ' \
    'xmlns:aux="http://ns.adobe.com/exif/1.0/aux/">%s</r:RDF></x:xmpmeta>'
CAPTURE = (('xap', 'CreateDate', '2020-01-02T03:04:05'), ('tiff', 'Artist', ' Me '),
           ('tiff', 'Make', 'Maker'), ('tiff', 'Model', 'M1'), ('aux', 'SerialNumber', '42'),
           ('xap', 'CreatorTool', 'Soft 1.2'))


def mix_file(ctx, fmt, version, which):
    """From the file to the record: the properties of valid files with different contents."""
    want = base(fmt)
    change = {}
    xml = b'<a>b</a>'
    uuid = None
    if which == 'fields':
        d = ctx.choose('depth', [1, 8, 38])
        change['siz.ssiz'] = change['ihdr.bpc'] = bytes([d - 1])
        want['depths'] = [str(d)]
        t = ctx.choose('transformation', [0, 1])
        change['cod.transform'] = bytes([t])
        want['transformation'] = '5-3 reversible' if t == 1 else '9-7 irreversible'
        ly = ctx.choose('layers', [1, 256, 65535])
        change['cod.layers'] = n2(ly)
        want['layers'] = str(ly)
        cs = ctx.choose('enumcs', [16, 17, 18])
        change['colr.enumcs'] = n4(cs)
        want['enumcs'] = {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'}[cs]
    elif which == 'size':
        w, h = ctx.choose('width', [1, 2, 65537]), ctx.choose('height', [1, 3, 70000])
        change['siz.xsiz'] = change['ihdr.width'] = change['siz.xTsiz'] = n4(w)
        change['siz.ysiz'] = change['ihdr.height'] = change['siz.yTsiz'] = n4(h)
        want['width'] = want['xTsiz'] = str(w)
        want['height'] = want['yTsiz'] = str(h)
    elif which == 'resolution':
        n, d, e = ctx.choose('resolution', [(1, 1, 0), (1, 3, 4), (11811, 1, 0), (30000, 254, 2),
                                            (65535, 1, 127), (1, 65535, 0), (1, 2, -2 + 256),
                                            (5, 1, 256 - 3), (1, 200, 0)])
        change['resc.hn'], change['resc.hd'], change['resc.he'] = n2(n), n2(d), bytes([e])
        exact = n / d * 10.0 ** (e if e < 128 else e - 256)
        want['resolution'] = (None, 100)
    elif which == 'comment':
        t = ctx.choose('comment', [b'v-v', b'a-v1', b'abc'])
        t = (t + b'   ')[0:3] if len(t) < 3 else t[0:3]
        change['com.text'] = t
        want['codec'] = ('v', '') if t == b'v-v' else ('a', '') if t == b'a-v' else None
    else:
        inside = ctx.choose('capture', ['none', 'empty RDF', 'empty description', 'attributes',
                                        'elements', 'second description'])
        keep = [x for x in CAPTURE if ctx.choose(x[1], [True, False])] \
            if inside in ('attributes', 'elements') and which == 'capture' else \
            list(CAPTURE) if inside != 'none' else []
        tool = ctx.choose('tool', ['Soft 1.2', 'Soft', 'My Soft 10', 'a b c', 'x 1.2 y']) \
            if which == 'tool' else 'Soft 1.2'
        keep = [(a, b, tool if b == 'CreatorTool' else t) for a, b, t in keep]
        text = None
        if inside == 'empty RDF':
            text = RDF % ''
            keep = []
        elif inside == 'empty description':
            text = RDF % '<r:Description/>'
            keep = []
        elif inside == 'attributes':
            text = RDF % ('<r:Description %s/>' % ' '.join(
                ['%s:%s="%s"' % x for x in keep]))
        elif inside == 'elements' or inside == 'second description':
            text = RDF % ('<r:Description>%s</r:Description>' % ''.join(
                ['<%s:%s>%s</%s:%s>' % (a, b, t, a, b) for a, b, t in keep]))
        place = ctx.choose('place', ['xml', 'uuid']) if text is not None else 'none'
        if text is not None:
            if place == 'xml':
                xml = text.encode('utf-8')
            else:
                uuid = text.encode('utf-8')
        cap = {}
        for a, b, t in keep:
            if b == 'CreatorTool':
                cap['software'] = {'Soft 1.2': ('Soft', '1.2'), 'Soft': ('Soft', None),
                                   'My Soft 10': ('My Soft', '10'), 'a b c': ('a b c', None),
                                   'x 1.2 y': ('x 1.2 y', None)}[t]
            else:
                cap[b] = t
        want['capture'] = cap if text is not None else None
    fs = []
    skip = ('xml.length', 'xml.type', 'uuid.length', 'uuid.type', 'uuid.id', 'uuid.data')
    for f, b in parts(fmt):
        if f == 'xml.content':
            fs = fs + bx('xml', F('xml.content', xml))
            if uuid is not None:
                fs = fs + bx('uuid', F('uuid.id', bytes.fromhex('be7acfcb97a942e89c71999491e3afac')) +
                             F('uuid.data', uuid))
        elif f not in skip:
            fs.append((f, change.get(f, b)))
    data = b''.join([b for f, b in fs])
    path = ctx.file('a.' + fmt, data)
    r = analyse(path, fmt, False, False, False, version)
    out = {}
    for c in kids(ctx, r):
        out[c.tag] = c
    ctx.check('valid', out['isValid'].text == 'True')
    ext = kids(ctx, out['propertiesExtension'])
    ctx.check('one record', len(ext) == 1)
    ctx.observe('mix', ext[0])
    want['ratio'] = float(out['properties'].find('compressionRatio').text)
    if which == 'resolution':
        # as a rational number, within rounding of the reported value
        num = [t for p, t in texts(ctx, ext[0]) if p.endswith('xSamplingFrequency/mix:numerator')][0]
        ctx.check('resolution', abs(int(num) - exact * 100) <= max(1.0, exact * 1e-9))
        want['resolution'] = (int(num), 100)
    check_mix(ctx, ext[0], want, version)


# ------------------------------------------------------------------ the command line (C28)
class Sink:
    """Standard output."""
    encoding = 'utf-8'

    def __init__(self):
        self.data = b''
        self.buffer = self

    def write(self, s):
        self.data = self.data + (s if isinstance(s, bytes) else s.encode('utf-8'))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def program(ctx, args, parser=argparse.ArgumentParser):
    """Run the program; (standard output, exit status or None)."""
    real = argparse._sys
    out, err = Sink(), Sink()
    argv = ['jpylyzer'] + args
    for s in (sys, real):
        ctx.patch(s, 'argv', argv)
        ctx.patch(s, 'stdout', out)
        ctx.patch(s, 'stderr', err)
    for n in ('OUTPUT_VERBOSE_FLAG', 'OUTPUT_PACKET_MARKERS_FLAG', 'INPUT_RECURSIVE_FLAG',
              'EXTRACT_NULL_TERMINATED_XML_FLAG', 'NO_PRETTY_XML_FLAG', 'VALIDATION_FORMAT',
              'MIX_FLAG'):
        if hasattr(config, n):
            ctx.patch(config, n, getattr(config, n))
    if hasattr(jpylyzer, 'PARSER'):
        ctx.patch(jpylyzer, 'PARSER', parser(description='x'))
    if hasattr(jpylyzer, 'EXISTING_FILES'):
        ctx.patch(jpylyzer, 'EXISTING_FILES', [])
    code = None
    try:
        jpylyzer.main()
    except SystemExit as e:
        code = e.code if e.code is not None else 0
    return out.data, code


NS = '{http://openpreservation.org/ns/jpylyzer/v2/}'


def tidy(e):
    """[tag, attributes, text, children] without the name space and the white space that
    pretty-printing adds."""
    t = e.tag[len(NS):] if e.tag.startswith(NS) else e.tag
    return [t, dict(e.attrib), (e.text or '').strip(), [tidy(c) for c in e]]


def plain_tree(e):
    """The same of a result."""
    tag, attrib = e.tag, dict(e.attrib)
    if tag.startswith('mix:'):
        version = '2'
        tag = tag[4:]
    return [tag, attrib, (e.text or '').strip(), [plain_tree(c) for c in e]]


def no_mix_names(t):
    """Name space declarations are not attributes once parsed."""
    tag, at, text, ks = t
    if tag.startswith('{http://www.loc.gov/mix/'):
        tag = tag.split('}')[1]
    elif tag.startswith('mix:'):
        tag = tag[4:]
    at = {k: v for k, v in at.items() if not k.startswith('xmlns') and 'schemaLocation' not in k}
    return [tag, at, text, [no_mix_names(c) for c in ks]]


def reports(ctx, out):
    """Elements of the files in the output."""
    doc = XML.fromstring(out)
    ctx.check('document', doc.tag == NS + 'jpylyzer')
    ks = list(doc)
    ctx.check('tool', len(ks) > 0 and ks[0].tag == NS + 'toolInfo' and
              [c.tag for c in ks[0]] == [NS + 'toolName', NS + 'toolVersion'])
    for c in ks[1:]:
        ctx.check('files', c.tag == NS + 'file')
    return ks[1:]


FLAGS = {'verbose': ['--verbose'], 'packetmarkers': ['-p', '--packetmarkers'],
         'nullxml': ['--nullxml'], 'nopretty': ['--nopretty']}


def cli_options(ctx, fmt, mixes, spell):
    """Every combination of options: the output is the result of the analysis with exactly
    the settings that were asked for."""
    args = []
    on = {}
    for k in ('verbose', 'packetmarkers', 'nullxml', 'nopretty'):
        on[k] = ctx.choose(k, [False, True])
        if on[k]:
            args.append(FLAGS[k][spell % len(FLAGS[k])])
    m = ctx.choose('mix', mixes)
    if m != 0:
        args = args + ['--mix', str(m)]
    f = ctx.choose('format', [fmt, fmt.upper(), None] if fmt == 'jp2' else [fmt, fmt.upper()])
    if f is not None:
        args = [('-f', '--format')[spell % 2], f] + args
    data = b''
    for f, b in parts(fmt):
        if f == 'xml.content' and m == 0:
            b = b'<a>b</a>\0'
        elif f == 'xml.length' and m == 0:
            b = n4(17)
        data = data + b
    path = ctx.file('a.' + fmt, data)
    args = [path] + args if ctx.choose('file first', [False, True]) else args + [path]
    out, code = program(ctx, args)
    ctx.check('ends normally', code is None or code == 0)
    rs = reports(ctx, out)
    ctx.check('one file', len(rs) == 1)
    want = analyse(path, fmt, on['verbose'], on['packetmarkers'], on['nullxml'],
                   m if fmt in ('jp2', 'jph') else 0)
    got = no_mix_names(tidy(rs[0]))
    ctx.check('report', got == no_mix_names(plain_tree(want)))
    if m != 0 and fmt in ('jp2', 'jph'):
        ctx.check('version of MIX', out.decode('utf-8').count(
            'xmlns:mix="http://www.loc.gov/mix/v%d0"' % m) == 1)
    lines = out.decode('utf-8').count('\n')
    ctx.check('pretty-printing', lines < 12 if on['nopretty'] else lines > 60)


def cli_refused(ctx):
    """Formats that are not supported, MIX versions that do not exist, no input."""
    path = ctx.file('a', b'x')
    args = ctx.choose('arguments', [['-f', 'jpx'], ['-f', 'jp'], ['-f', '.jp2'], ['-f', 'jp2.'], ['-f', 'image/jp2'],
                                    ['-f', 'j2k'], ['-f', 'jpc'], ['-f', 'jpf'], ['-f', 'jpeg2000'], ['--format', ''], ['-f', 'JPX2'], ['-f', 'jp2 '],
                                    ['--mix', '0'], ['--mix', '3'], ['--mix', 'x'], ['--unknown'],
                                    ['-f', 'jp2,jph'], ['--mix', '1', '-f', 'all']])
    out, code = program(ctx, args + [path])
    ctx.check('refused', code is not None)
    ctx.check('nothing analysed', b'<' not in out)


class AnyFormat(argparse.ArgumentParser):
    """Replaces the format given on the command line, after the arguments have been parsed."""
    text = None

    def parse_args(self, args=None, namespace=None):
        ns = argparse.ArgumentParser.parse_args(self, args, namespace)
        for k, v in list(vars(ns).items()):
            if v == 'QQQQ':
                setattr(ns, k, AnyFormat.text)
        return ns


def cli_format(ctx, lengths):
    """A format of any characters is either one of the four, in any case, or refused."""
    path = ctx.file('a', b'x')
    raw = ctx.bytes('format', ctx.choose('length', lengths))
    for k in range(len(raw)):
        ctx.assume(32 <= raw[k])
        ctx.assume(raw[k] < 127)
    text = raw.decode('ascii')
    low = text.lower()
    ctx.patch(AnyFormat, 'text', text)
    seen = []

    def one(path, validationFormat=None, *args, **kw):
        seen.append(validationFormat)
        return ET.Element('file')

    ctx.patch(jpylyzer, 'checkOneFile', one)
    out, code = program(ctx, ['-f', 'QQQQ', path], AnyFormat)
    good = low in ['jp2', 'jph', 'j2c', 'jhc']
    if len(seen) == 0:
        ctx.check('not analysed', code is not None)
        ctx.check('a known format is not refused', not good)
    else:
        ctx.check('an unknown format is refused', good)
        ctx.check('the format is passed on', len(seen) == 1 and seen[0] == low)


def cli_nothing(ctx):
    ctx.file('d/a', b'x')
    ctx.file('d/b.jp2', b'x')
    top = ctx.dir() + '/'
    args = ctx.choose('arguments', [[], ['--verbose'], [top + 'nofile'], [top + 'd'],
                                    [top + 'no*'], [top + 'x1', top + 'x2'],
                                    ['-r', top + 'nodir'], ['-r', top + 'd/*.jpx'], [top + 'd/'],
                                    ['-r', top + 'nodir/*.jp2'], [top + '*']])
    out, code = program(ctx, args)
    ctx.check('fails', code is not None and code != 0)
    ctx.check('no results', b'<isValid' not in out)


TREE = ['a.jp2', 'b.jp2', 'c.txt', 'd[1].jp2', 's/a.jp2', 's/e.jp2', 's/f.txt', 's/t/g.jp2',
        's/t/h.txt', 'u/e.jp2']


def below(d, name):
    return name.startswith(d + '/')


def matches(pattern, name):
    """Simple patterns: 'x*y' (the star matches no slash)."""
    if '/' in pattern:
        pd, _, pp = pattern.rpartition('/')
        nd, _, nn = name.rpartition('/')
        return '/' in name and matches(pd, nd) and matches(pp, nn)
    if '/' in name:
        return False
    if '*' not in pattern:
        return pattern == name
    a, _, b = pattern.partition('*')
    return len(name) >= len(a) + len(b) and name.startswith(a) and name.endswith(b) and \
        not name.startswith('.')


def selected(there, arg, recurse):
    """The files that an argument names, as a set."""
    if arg in there:
        return {arg}
    if '*' in arg:
        dirs = {n.rpartition('/')[0] for n in there if '/' in n}
        one = [n for n in sorted(dirs | {d.rpartition('/')[0] for d in dirs if '/' in d} | set(there))
               if n != '' and matches(arg, n)]
        out = {n for n in there if matches(arg, n)}
        if recurse:
            if len(one) == 1 and one[0] not in there:
                return {n for n in there if below(one[0], n)}
            d, _, p = arg.rpartition('/')
            for n in there:
                nd, _, nn = n.rpartition('/')
                if matches(p, nn) and any_prefix(d, nd):
                    out.add(n)
        return out
    if recurse:
        return {n for n in there if below(arg, n) or arg == '.'}
    return set()


def any_prefix(pattern, d):
    """d is (below) a directory that the pattern names."""
    if pattern == '':
        return True
    ps = d.split('/')
    for k in range(1, len(ps) + 1):
        if matches(pattern, '/'.join(ps[0:k])):
            return True
    return False


ARGS = ['a.jp2', 'b.jp2', 'd[1].jp2', 's', 's/', 'u', 's/t', 'nofile', 's/a.jp2', '*.jp2', 's/*.jp2',
        '*', 'a*', 's*', 'u*', '*/e.jp2', 's/*', 's*/*.jp2', '*.none', 's/t/*', 'nodir/*.jp2', '.',
        'c.*', '*.txt', 'u/*.jp2', 's/t*/*']


def cli_files(ctx, number, some, relative, args=None):
    """Any small tree, any few arguments: the files that are analysed."""
    args = args or ARGS
    there = []
    for n in TREE:
        if n in some:
            if not ctx.choose('exists ' + n, [True, False]):
                continue
        there.append(n)
    recurse = ctx.choose('recurse', [False, True])
    wanted = [ctx.choose('argument %d' % k, args) for k in range(number)]
    for n in there:
        ctx.file('w/' + n, b'x')
    top = os.path.join(ctx.dir(), 'w')
    if not os.path.isdir(top):
        os.mkdir(top)
    if relative:
        os.chdir(top)
    out, code = program(ctx, (['-r'] if recurse else []) + ['--nopretty'] + [
        w if relative else os.path.join(top, w) for w in wanted])
    exp = [selected(there, w[:-1] if w.endswith('/') else w, recurse) for w in wanted]
    total = 0
    for s in exp:
        total = total + len(s)
    if total == 0:
        ctx.check('nothing to analyse', code is not None and code != 0)
        return
    ctx.check('ends normally', code is None or code == 0)
    got = [r.find(NS + 'fileInfo/' + NS + 'filePath').text for r in reports(ctx, out)]
    got = [os.path.relpath(os.path.normpath(g), top) for g in got]
    ctx.observe('files', sorted(got))
    ctx.check('number of files', len(got) == total)
    at = 0
    for s in exp:
        ctx.check('files of an argument', sorted(got[at:at + len(s)]) == sorted(s))
        at = at + len(s)


# ------------------------------------------------------------------ histories (C30)
def same_result(ctx, label, a, b, infos=False):
    for what in ('isValid', 'tests', 'properties', 'propertiesExtension', 'warnings',
                 'statusInfo') + (('fileInfo',) if infos else ()):
        x = [c for c in kids(ctx, a) if c.tag == what]
        y = [c for c in kids(ctx, b) if c.tag == what]
        ctx.check('%s: %s' % (label, what), len(x) == len(y))
        for k in range(min(len(x), len(y))):
            ctx.check('%s: %s' % (label, what), x[k].attrib == y[k].attrib and
                      x[k].text == y[k].text)
            same_flat(ctx, label + ' ' + what, flat(ctx, x[k]), flat(ctx, y[k]))


def rich(fmt, nulls=False):
    """A valid file with all kinds of boxes; its XML is null-terminated or not."""
    if not nulls or fmt not in ('jp2', 'jph'):
        return b''.join([b for f, b in parts(fmt)])
    out = b''
    for f, b in parts(fmt):
        if f == 'xml.length':
            b = (int.from_bytes(b, 'big') + 1).to_bytes(4, 'big')
        elif f == 'xml.content':
            b = b + b'\0'
        out = out + b
    return out


def other_options(ctx, fmt):
    """The same file with some options, with others, and with the first ones again."""
    a = ctx.file('a', rich(fmt, True))

    def pick(n):
        return [ctx.choose('%s %d' % (o, n), [False, True]) for o in ('verbose', 'packets',
                                                                      'nullxml')] + \
            [ctx.choose('mix %d' % n, [0, 2]) if fmt in ('jp2', 'jph') else 0]
    o, p = pick(0), pick(1)
    first = analyse(a, fmt, o[0], o[1], o[2], o[3])
    other = analyse(a, fmt, p[0], p[1], p[2], p[3])
    again = analyse(a, fmt, o[0], o[1], o[2], o[3])
    observe_result(ctx, other)
    same_result(ctx, 'again', first, again, True)
    expect(ctx, other, fmt, rich(fmt, True), options(fmt, p[0], p[2], p[1]), a, p[3])


def history(ctx, fmt, group, other):
    """A file, another one in which any one field is arbitrary, and the first one again."""
    f = ctx.choose('field', [x for x in picks(other, group) if x != 'siz.rsiz'])
    data = build(ctx, other, [f])
    m = 2 if fmt in ('jp2', 'jph') else 0
    a = ctx.file('a', rich(fmt, True))
    b = ctx.file('b', data)
    first = analyse(a, fmt, True, True, False, m)
    analyse(b, other, False, False, True, 0)
    again = analyse(a, fmt, True, True, False, m)
    same_result(ctx, 'again', first, again, True)
    # the arbitrary one, after the others, gives what the validator on its own gives
    r = analyse(b, other, True, False, False, 0)
    expect(ctx, r, other, data, options(other, True), b, 0)


def failed_before(ctx, fmt):
    """After a failure at any point."""
    k = ctx.int('k', 1, 12)
    a = ctx.file('a', rich(fmt))
    first = analyse(a, fmt, True, False, False, 0)
    count = [0]
    old = boxvalidator.BoxValidator.validate

    def validate(self):
        count[0] = count[0] + 1
        if count[0] == k:
            raise RuntimeError('x')
        return old(self)
    ctx.patch(boxvalidator.BoxValidator, 'validate', validate)
    analyse(a, fmt, True, False, False, 0)
    count[0] = 1000
    again = analyse(a, fmt, True, False, False, 0)
    same_result(ctx, 'after a failure', first, again, True)


def changed_file(ctx, fmt, name):
    """A file whose content changes between two analyses."""
    a = ctx.file('a', rich(fmt))
    analyse(a, fmt, True)
    data = build(ctx, fmt, [name])
    a = ctx.file('a', data)
    r = analyse(a, fmt, True)
    expect(ctx, r, fmt, data, options(fmt, True), a, 0)


def same_bytes(ctx, fmt, group):
    """Equal contents in different files give equal results, in any order of options."""
    f = ctx.choose('field', [x for x in picks(fmt, group) if x != 'siz.rsiz'])
    data = build(ctx, fmt, [f])
    a, b = ctx.file('a', data), ctx.file('d/b', data)
    opts = [(True, False), (False, False), (False, True)]
    x = [analyse(a, fmt, v, p) for v, p in opts]
    y = [analyse(b, fmt, v, p) for v, p in reversed(opts)]
    for k in range(3):
        same_result(ctx, 'copy', x[k], y[2 - k])


def validators(ctx, kinds, lengths):
    """Validators that exist at the same time do not share results."""
    one = ctx.choose('first', kinds)
    two = ctx.choose('second', kinds)
    n, m = ctx.choose('length', lengths), ctx.choose('other length', lengths)
    a, b = ctx.bytes('a', n), ctx.bytes('b', m)
    from .common import validator
    va = validator(options('jp2'), one, a)
    vb = validator(options('jp2'), two, b)
    ra = va.validate()
    rb = vb.validate()
    alone = run(options('jp2'), two, b)
    ctx.check('verdict', rb.isValid is alone.isValid)
    same_flat(ctx, 'tests', flat(ctx, rb.tests), flat(ctx, alone.tests))
    same_flat(ctx, 'properties', flat(ctx, rb.characteristics), flat(ctx, alone.characteristics))
    same_flat(ctx, 'warnings', flat(ctx, rb.warnings), flat(ctx, alone.warnings))


def cli_history(ctx):
    """Several files in one run: each has the report that it has on its own."""
    fmt = ctx.choose('format', ['jp2', 'jhc'])
    good = rich(fmt)
    pool = [good, good[0:60], b'', b'x', good[0:len(good) - 1]]
    picked = [ctx.choose('file %d' % k, [0, 1, 2, 3, 4]) for k in range(3)]
    paths = [ctx.file('f%d' % k, pool[k]) for k in range(5)]
    out, code = program(ctx, ['-f', fmt, '--nopretty'] + [paths[k] for k in picked])
    ctx.check('ends normally', code is None or code == 0)
    rs = reports(ctx, out)
    ctx.check('number of files', len(rs) == 3)
    for k in range(3):
        got = no_mix_names(tidy(rs[k]))
        ctx.check('report', got == no_mix_names(plain_tree(analyse(paths[picked[k]], fmt))))
