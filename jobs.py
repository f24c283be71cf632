"""Registry: property -> jobs, assumptions, known findings."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
J = {}
A = {'*': [
    'z3 decides correctly; the symbolic interpreter (sym/) follows the semantics of CPython - '
    'checked on every run by replaying witnesses of explored paths on the real code',
    'Python functions implemented in C (struct, binascii, unicodedata, uuid, ElementTree) behave as '
    'their models in sym/shims.py',
    'spec/ states the rules of ISO/IEC 15444-1 and -15 as documented in the user manual of '
    'jpylyzer',
    'nothing is said about inputs outside the bounds of the jobs']}


def job(prop, name, module, func, params=None, tier='quick', **kw):
    d = dict(name=name, module=module, func=func, params=params or {}, tier=tier)
    d.update(kw)
    J.setdefault(prop, []).append(d)


def jobs_for(prop, tier):
    return [dict(j) for j in J.get(prop, []) if tier == 'thorough' and j['tier'] != 'quickonly'
            or j['tier'] in ('quick', 'quickonly') and tier == 'quick']


def assumptions_for(prop):
    return A.get('*', []) + A.get(prop, [])


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop):
                    out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        job('C09', 'signature ' + sfx, 'header', 'simple_box',
            dict(kind='jP', lengths=list(range(0, 9)), fmt=fmt, verbose=vb),
            bounds='contents of 0..8 arbitrary bytes')
        job('C09', 'ftyp ' + sfx, 'header', 'simple_box',
            dict(kind='ftyp', lengths=list(range(0, 21)), fmt=fmt, verbose=vb),
            bounds='contents of 0..20 arbitrary bytes')
        job('C09', 'ihdr ' + sfx, 'header', 'simple_box',
            dict(kind='ihdr', lengths=list(range(0, 17)), fmt=fmt, verbose=vb),
            bounds='contents of 0..16 arbitrary bytes')
        job('C09', 'bpcc ' + sfx, 'header', 'simple_box',
            dict(kind='bpcc', lengths=list(range(0, 9)), fmt=fmt, verbose=vb),
            bounds='contents of 0..8 arbitrary bytes')
        job('C12', 'cmap ' + sfx, 'header', 'simple_box',
            dict(kind='cmap', lengths=list(range(0, 14)), fmt=fmt, verbose=vb), bounds='0..13')
        job('C12', 'cdef ' + sfx, 'header', 'cdef_box', dict(maxn=2, fmt=fmt, verbose=vb),
            bounds='n<=2')
        job('C12', 'pclr ' + sfx, 'header', 'pclr_box',
            dict(maxne=2, maxnpc=2, maxlen=12, fmt=fmt, verbose=vb), bounds='x')
        job('C12', 'pclr counts ' + sfx, 'header', 'pclr_counts', dict(fmt=fmt, verbose=vb),
            bounds='any number of entries without columns; 0, 1, 3, 40 columns without entries')
        job('C10', 'colr ' + sfx, 'header', 'colr_box',
            dict(lengths=list(range(0, 14)), fmt=fmt, verbose=vb),
            bounds='contents of 0..13 arbitrary bytes')
        job('C10', 'colr with ICC ' + sfx, 'header', 'colr_icc',
            dict(short=[0, 3, 4, 11, 13, 16, 131, 132], tags=[1], cuts=[0], fmt=fmt, verbose=vb),
            bounds='methods 1-3 followed by a profile of 0,3,4,11,13,16,131,132 arbitrary bytes '
            '(no tags) or a complete profile with 1 tag')
job('C11', 'icc', 'header', 'icc_profile',
    dict(short=[0, 1, 3, 4, 9, 10, 15, 19, 23, 25, 27, 29, 35, 44, 45, 57, 67, 79, 99, 100, 131,
                132],
         tags=[1], cuts=[0, 9, 21, 30]),
    bounds='22 profile lengths up to 132 bytes without tags; 1 tag, truncated at 4 points')
job('C11', 'icc two tags', 'header', 'icc_profile', dict(short=[], tags=[2], cuts=[0, 30]), bounds='2 tags')
job('C11', 'icc tag count', 'header', 'icc_count', dict(maxtags=4), bounds='0..5 tags claimed')


# -- codestream marker segments

def seg(prop, name, kind, lengths, bounds, fmts=('jp2', 'jph', 'j2c', 'jhc'), terse=('jp2', 'jph'),
        tier='quick', weight=1, **params):
    for fmt in fmts:
        for vb in (True, False):
            if not vb and fmt not in terse:
                continue
            job(prop, '%s %s/%s' % (name, fmt, 'verbose' if vb else 'terse'), 'markers', 'segment',
                dict(kind=kind, lengths=list(lengths), fmt=fmt, verbose=vb, **params),
                tier=tier, bounds=bounds, weight=weight)


CS = (1, 256, 257)
seg('C17', 'siz capability', 'siz', [0, 1, 2, 3, 4, 5],
    'segments of 0..5 bytes')
for nm, r in (('', 0), (' cap', 0x4000)):
    seg('C17', 'siz' + nm, 'siz', [8, 19, 35, 36, 37, 38, 41, 43, 44, 47],
        'segments of 10 lengths up to 47 bytes, at most 2 components',
        limits=[(2, 2, r, r), (36, 2, 0, 2)], weight=5)
job('C17', 'siz many components', 'markers', 'segment',
    dict(kind='siz', lengths=[0], fmt='jp2', heads=[
        'ffff' + 68 * '0' + x for x in ('4000', '4001')]), ticks=10 ** 6,
    bounds='16384 and 16385 components, no component data')
seg('C18', 'cod', 'cod', range(0, 16), 'segments of 0..15 bytes, at most 3 levels',
    limits=[(7, 1, 0, 3)], weight=3)
seg('C18', 'cod levels', 'cod', [8, 12], '31..34 levels', limits=[(7, 1, 31, 34)],
    fmts=('jp2', 'jph'), terse=())
seg('C18', 'coc', 'coc', range(0, 14), 'segments of 0..13 bytes, at most 3 levels; 1, 256, 257 '
    'components', limits=[(4, 1, 0, 3), (5, 1, 0, 3)], csiz=CS, fmts=('jp2', 'jph'), weight=3)
seg('C18', 'coc levels', 'coc', [10], '31..34 levels', limits=[(4, 1, 31, 34)], csiz=(3,),
    fmts=('jp2', 'jph'), terse=())
seg('C19', 'qcd', 'qcd', range(0, 12), 'segments of 0..11 bytes, length field at most 23',
    limits=[(0, 2, 0, 23)], fmts=('jp2', 'jph'))
seg('C19', 'qcd length', 'qcd', [3, 5], 'any length field, styles without a list',
    odd=(2,), fmts=('jp2',), weight=2)
seg('C19', 'qcc length', 'qcc', [5, 7], 'any length field, styles without a list',
    odd=(3, 4), csiz=CS, fmts=('jp2',))
seg('C19', 'qcc', 'qcc', range(0, 13), 'segments of 0..12 bytes, length field at most 25',
    limits=[(0, 2, 0, 25)], csiz=CS, fmts=('jp2', 'jph'))
seg('C20', 'poc', 'poc', list(range(0, 12)) + [16, 18, 20], 'length field at most 20 '
    '(2 progressions)', limits=[(0, 2, 0, 20)], csiz=CS, fmts=('jp2', 'jph'), weight=3)
seg('C20', 'crg', 'crg', range(0, 13), 'segments of 0..12 bytes', csiz=(0, 1, 2, 3),
    fmts=('jp2', 'jph'))
seg('C20', 'rgn', 'rgn', range(0, 8), 'segments of 0..7 bytes', csiz=CS)
seg('C21', 'com', 'com', range(0, 8), 'segments of 0..7 bytes', fmts=('jp2', 'jph'))
seg('C21', 'com 4', 'com', range(8, 9), 'segments of 8 bytes', fmts=('jp2', ), terse=())
seg('C22', 'cap', 'cap', list(range(0, 17)), 'parts 1, 2, 15, 17, 32',
    masks=[(2, 4, 0xc0028001)], fmts=('jp2', 'jph', 'jhc'))
seg('C22', 'cap other parts', 'cap', [6, 8, 14], 'parts 3-7, 14, 16',
    masks=[(2, 4, 0x3e050000)], fmts=('jp2', 'jph'), terse=())
seg('C22', 'prf', 'prf', range(0, 11), 'length field at most 11', limits=[(0, 2, 0, 11)])
seg('C22', 'cpf', 'cpf', range(0, 11), 'length field at most 11', limits=[(0, 2, 0, 11)])
seg('C23', 'sot', 'sot', range(0, 12), 'segments of 0..11 bytes', anylength=True)
seg('C23', 'plt', 'plt', range(0, 9), 'segments of 0..8 bytes', fmts=('jp2', 'jph'))
seg('C23', 'plm', 'plm', range(0, 9), 'segments of 0..8 bytes', fmts=('jp2', 'jph'))


# -- byte conversions

job('C24', 'integers', 'convert', 'integers', dict(lengths=list(range(0, 12))),
    bounds='byte strings of 0..11 bytes')
job('C24', 'integer of any length', 'convert', 'anyinteger', dict(lengths=list(range(0, 9))),
    bounds='byte strings of 0..8 bytes')
job('C24', 'hexadecimal', 'convert', 'hexa', dict(lengths=list(range(0, 9))),
    bounds='byte strings of 0..8 bytes')
job('C24', 'control characters', 'convert', 'controls', dict(lengths=list(range(0, 7))),
    bounds='byte strings of 0..6 bytes')
job('C24', 'text', 'convert', 'text', dict(lengths=[0, 1, 2, 3, 4]),
    bounds='every byte string of 0..4 bytes, including ill-formed UTF-8')
job('C24', 'strings', 'convert', 'strip_text', dict(lengths=[0, 1, 2]),
    bounds='strings of 0..2 arbitrary code points')

job('C25', 'integers', 'report', 'integers', dict(tags=None),
    bounds='every enumerated property and 37 others; integers -9999..2^32')
job('C25', 'byte strings', 'report', 'names', dict(lengths=[0, 1, 3, 4, 5]),
    bounds='10 properties; ASCII byte strings of 0,1,3,4,5 bytes')
job('C25', 'kinds', 'report', 'kinds', {}, bounds='every type of value, strings of 2 code points')
job('C25', 'tree', 'report', 'tree', {}, bounds='nested trees with up to 3 values')
job('C25', 'sequence', 'report', 'sequence', {}, bounds='2 values of any type (integers -1..2), '
    'equal or not, under equal or different names; read by themselves and one after the other')
job('C25', 'legal bytes', 'report', 'legal', dict(lengths=[0, 1, 2, 3, 4], isbytes=True),
    bounds='byte strings of 0..4 bytes')
job('C25', 'legal strings', 'report', 'legal', dict(lengths=[0, 1, 2], isbytes=False),
    bounds='strings of 0..2 code points')

# -- resolution and metadata boxes

for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        for k in ('resc', 'resd'):
            job('C13', '%s %s' % (k, sfx), 'boxes', 'resolution',
                dict(kind=k, lengths=list(range(0, 12)), fmt=fmt, verbose=vb),
                bounds='contents of 0..11 arbitrary bytes')
        job('C14', 'uuid ' + sfx, 'boxes', 'uuid_box',
            dict(lengths=list(range(0, 21)), fmt=fmt, verbose=vb), bounds='contents of 0..20 bytes')
        job('C14', 'uuid list ' + sfx, 'boxes', 'uuid_list',
            dict(lengths=[0, 1, 2, 3, 17, 18, 19, 33, 34, 35, 50], fmt=fmt, verbose=vb),
            bounds='at most 3 UUIDs, 11 lengths')
        job('C14', 'url ' + sfx, 'boxes', 'url',
            dict(lengths=list(range(0, 9)), fmt=fmt, verbose=vb), bounds='contents of 0..8 bytes')
        for nx in (False, True):
            job('C14', 'xml %s/%s' % (sfx, nx), 'boxes', 'xml_box',
                dict(lengths=[0, 1, 2, 3, 4], fmt=fmt, verbose=vb, nullxml=nx),
                bounds='contents of 0..4 bytes, any answer of the XML parser')
            job('C14', 'xmp %s/%s' % (sfx, nx), 'boxes', 'xmp_box',
                dict(lengths=[0, 1, 2, 3], fmt=fmt, verbose=vb, nullxml=nx),
                bounds='0..3 bytes after the XMP UUID, any answer of the XML parser')
            if vb:
                job('C14', 'xml samples %s/%s' % (sfx, nx), 'boxes', 'xml_real',
                    dict(fmt=fmt, nullxml=nx), bounds='17 sample contents, real XML parser')

# -- structure of superboxes

HB = ['ihdr', 'bpcc', 'colr', 'pclr', 'cmap', 'cdef', 'res', 'other', 'short']
for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        for first in HB:
            for n in (1, 2, 3):
                job('C07', 'header %d %s %s' % (n, first, sfx), 'structure', 'header_box',
                    dict(n=n, first=first, alphabet=HB, fmt=fmt, verbose=vb), weight=n,
                    tier='quick' if n < 3 or vb else 'thorough',
                    bounds='%d sub-boxes of any kind, first: %s' % (n, first))
        for tier, n, alpha in (('quick', 5, ['colr', 'other']), ('quick', 4, ['pclr', 'cmap', 'bpcc']),
                               ('quick', 4, ['cdef', 'res', 'colr']),
                               ('thorough', 5, ['pclr', 'cmap', 'colr', 'cdef', 'res'])):
            job('C07', 'header %d %s %s' % (n, '+'.join(alpha), sfx), 'structure', 'header_box',
                dict(n=n, first='ihdr', alphabet=alpha, fmt=fmt, verbose=vb, fixed=True),
                weight=n, tier=tier, bounds='image header and %d of: %s' % (n - 1, alpha))
        job('C07', 'header 0 ' + sfx, 'structure', 'header_box',
            dict(n=0, first=None, alphabet=HB, fmt=fmt, verbose=vb), bounds='no sub-boxes')
        for n in (0, 1, 2, 3, 4):
            job('C13', 'superbox %d %s' % (n, sfx), 'structure', 'small_super',
                dict(which='res', n=n, fmt=fmt, verbose=vb), bounds='%d sub-boxes' % n)
            job('C14', 'info box %d %s' % (n, sfx), 'structure', 'small_super',
                dict(which='uinf', n=n, fmt=fmt, verbose=vb), bounds='%d sub-boxes' % n)

# -- box framing

for which in ('JP2', 'jp2h', 'res', 'uinf'):
    fm = ('jp2', 'jph') if which == 'jp2h' else ('jp2',)
    for fmt in fm:
        for kind in ('ihdr', 'xml', 'uuid', 'other', 'jp2i'):
            job('C05', 'one box %s %s %s' % (which, kind, fmt), 'structure', 'one_box',
                dict(which=which, kind=kind, extra=[0, 1, 7, 8, 9, 13, 20], fmt=fmt), weight=3,
                bounds='any length field, any non-zero extended length, up to 20 further bytes')
        job('C05', 'big box %s %s' % (which, fmt), 'structure', 'big_box',
            dict(which=which, size=70000, fmt=fmt), bounds='unknown or UUID box of 69997..70003 bytes, plain or '
            'extended length')
        job('C05', 'cut header %s %s' % (which, fmt), 'structure', 'cut_header',
            dict(which=which, fmt=fmt), bounds='0..7 arbitrary bytes after a box')
        for vb in (True, False):
            job('C05', 'insert unknown %s %s %s' % (which, fmt, vb), 'structure', 'insert_unknown',
                dict(which=which, fmt=fmt, verbose=vb), bounds='unknown box of 0 or 3 bytes, any '
                'printable type, every position')
for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        job('C05', 'unknown box %s %s' % (fmt, vb), 'structure', 'unknown_box',
            dict(fmt=fmt, verbose=vb), bounds='any type, contents of 0, 1, 5 bytes')
    job('C05', 'names ' + fmt, 'structure', 'names', dict(fmt=fmt), bounds='19 box types')

# -- whole files

TL = ['jP', 'ftyp', 'jp2h', 'jp2c', 'jp2i', 'other']
for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        for n in (0, 1, 2, 3):
            for first in TL + ['empty', 'ihdr'] if n == 3 else [None]:
                job('C06', 'boxes %d %s %s' % (n, first, sfx), 'structure', 'top_level',
                    dict(prefix=[first] if first else [], n=n - 1 if first else n, alphabet=TL,
                         fmt=fmt, verbose=vb), weight=n,
                    bounds='%d boxes of 6 kinds' % n)
        for pre in (['jP', 'ftyp'], ['ftyp', 'jP'], ['jP', 'other']):
            if vb or pre == ['jP', 'ftyp']:
                job('C06', 'boxes after %s %s' % ('+'.join(pre), sfx), 'structure', 'top_level',
                    dict(prefix=pre, n=3, alphabet=TL, fmt=fmt, verbose=vb), weight=4,
                    bounds='%s and 3 boxes of 6 kinds' % pre)
        for nb in (0, 1, 2):
            job('C08', 'consistency %d %s' % (nb, sfx), 'structure', 'consistent',
                dict(ncs=[0, 1, 2] if vb else [1], nboxes=nb, fmt=fmt, verbose=vb), weight=3,
                tier='quick' if vb or nb == 1 else 'thorough',
                bounds='any image header with at most 3 components, %d entries in the '
                'bits-per-component box, any dimensions and depths in a SIZ with at most 2 '
                'components' % nb)
for fmt in ('j2c', 'jhc'):
    job('C08', 'ratio ' + fmt, 'structure', 'raw_ratio', dict(ncs=[0, 1, 2, 3], fmt=fmt,
        pads=[0, 7, 100]), bounds='any dimensions and depths, at most 3 components, 3 file sizes')

# -- codestreams

MS = ['cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'crg', 'com', 'cap', 'prf', 'cpf', 'tlm', 'plm',
      'ppm', 'other']
for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    job('C15', 'segments 0-1 ' + fmt, 'codestream', 'main_header',
        dict(prefix=[], n=1, alphabet=MS, fmt=fmt, csizs=[3, 257],
             tails=['', 'eoc', 'half', 'sot']), bounds='one segment of any of 15 kinds, 3 or 257 '
        'components, 4 endings')
    job('C15', 'start ' + fmt, 'codestream', 'start', dict(fmt=fmt),
        bounds='any first two markers, cut at 7 places')
for fmt in ('jp2', 'jhc'):
    for vb in (True, False):
        for first in MS:
            job('C15', 'segments %s+1 %s/%s' % (first, fmt, vb), 'codestream', 'main_header',
                dict(prefix=[first], n=1, alphabet=MS, fmt=fmt, verbose=vb, packet=vb,
                     tails=['eoc']), bounds='%s and one segment of any of 15 kinds' % first)
        job('C15', 'segments cod,qcd+2 %s/%s' % (fmt, vb), 'codestream', 'main_header',
            dict(prefix=['cod', 'qcd'], n=2, alphabet=['coc', 'qcc', 'cap', 'other'], fmt=fmt,
                 verbose=vb, tails=['sot']), bounds='COD, QCD and 2 of COC, QCC, CAP, unknown')
for k in ('cod', 'coc', 'qcd', 'com', 'plm', 'ppm', 'tlm', 'rgn', 'other'):
    job('C15', 'length %s' % k, 'codestream', 'any_length', dict(kind=k, extra=[0, 1, 3, 9, 24]),
        bounds='%s with any length field, up to 24 bytes after it' % k)
TS = ['cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'com', 'plt', 'ppt', 'other']
for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    job('C16', 'tile-part 1 ' + fmt, 'codestream', 'tile_segments',
        dict(n=1, alphabet=TS, fmt=fmt, csizs=[3, 257]),
        bounds='a tile-part with one segment of any kind, any index fields, 3 or 257 components')
for fmt in ('jp2', 'jhc'):
    for vb in (True, False) if fmt == 'jp2' else (True,):
        for first in TS:
            job('C16', 'tile-part %s+1 %s/%s' % (first, fmt, vb), 'codestream', 'tile_segments',
                dict(prefix=[first], n=1, alphabet=TS, fmt=fmt, verbose=vb, packet=vb),
                bounds='a tile-part with %s and a segment of any kind' % first)
job('C16', 'tile-part length', 'codestream', 'tile_length', dict(extra=[2, 3, 5, 11, 12, 18, 20, 24, 26]),
    bounds='any tile-part length, codestream cut at 9 places')
job('C16', 'tile-part header length', 'codestream', 'tile_length',
    dict(extra=[3, 4, 12, 26], lsot=True), bounds='any length of the SOT segment')
for n, grid in ((0, (1, 1)), (1, (1, 1)), (1, (2, 1)), (2, (1, 1)), (2, (2, 1)), (3, (1, 1)),
                (3, (1, 2)), (3, (3, 1))):
    for vb in (True, False):
        six = ['exact', 'zero', 'early', 'late', 'two', 'huge']
        full = n < 2
        sz = six if n < 2 else ['exact', 'zero', 'two'] if n == 2 else ['exact']
        tl = ['eoc', '', 'half', 'more'] if n < 2 else ['eoc']
        tn = [0, 1, 2, 3] if n < 3 else [0, 1, 2] if grid == (3, 1) else [0, 1, 2, 3]
        job('C16', 'tiles %d of %s %s' % (n, grid, vb), 'codestream', 'tiles',
            dict(n=n, grid=list(grid), sizes=sz, verbose=vb, tails=tl, tnsot=tn), weight=n,
            tier='quick' if vb or n < 2 else 'thorough',
            bounds='%d tile-parts of any tile, lengths %s, announced numbers %s, image of %dx%d '
            'tiles' % (n, sz, tn, grid[0], grid[1]))
        if n == 2 and vb:
            job('C16', 'tiles %d of %s %s long' % (n, grid, vb), 'codestream', 'tiles',
                dict(n=n, grid=list(grid), sizes=six, verbose=vb, tails=['eoc', '', 'half', 'more'],
                     tnsot=[0, 1, 2, 3]), weight=n, tier='thorough',
                bounds='as above, with lengths %s' % six)
for n in range(0, 5):
    job('C16', 'geometry %d' % n, 'codestream', 'geometry', dict(n=n),
        bounds='16-bit dimensions and offsets, 8-bit tile sizes, at most 3x3 tiles, %d present' % n)

# -- complete files

GROUPS = ['jP', 'ftyp', 'ihdr', 'colr,pclr', 'cmap,cdef', 'resc,resd',
          'uuid,ulst,url', 'siz', 'cap,cod,coc', 'qcd,qcc,rgn,poc',
          'crg,com,tlm,plm,ppm', 't0', 't1']
RAW = GROUPS[7:]
WB = 'a valid file (or codestream) with all kinds of boxes and segments, two tile-parts; '
for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        for g in GROUPS if fmt in ('jp2', 'jph') else RAW:
            job('C01', 'field %s %s' % (g, sfx), 'whole', 'verdict',
                dict(fmt=fmt, group=g, verbose=vb), weight=2 if g == 't0' else 1,
                tier='quick' if fmt in ('jp2', 'jhc') else 'thorough',
                bounds=WB + 'any one field of %s arbitrary' % g)
        job('C01', 'mistakes ' + sfx, 'whole', 'mistakes', dict(fmt=fmt, verbose=vb),
            weight=3, bounds='a valid file with any subset of mistakes at 20 (raw codestream: 11) '
            'places of all depths')

for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    for which in ('verbose', 'packetmarkers', 'nullxml'):
        for g in GROUPS if fmt in ('jp2', 'jph') else RAW:
            job('C02', 'field %s %s %s' % (g, fmt, which), 'whole', 'two_options',
                dict(fmt=fmt, group=g, which=which), weight=2 if g == 't0' else 1,
                tier='quick' if (fmt, which) in (('jp2', 'verbose'), ('jhc', 'packetmarkers'))
                else 'thorough',
                bounds=WB + 'any one field of %s arbitrary; %s off and on' % (g, which))
            job('C02', 'field %s %s %s, any' % (g, fmt, which), 'whole', 'two_options',
                dict(fmt=fmt, group=g, which=which, vary=True), weight=2 if g == 't0' else 1,
                tier='thorough',
                bounds=WB + 'any one field of %s arbitrary; %s off and on, any setting of the '
                'other options' % (g, which))
    for xmp in (False, True):
        if fmt in ('jp2', 'jph'):
            job('C02', 'XML %s %s' % (xmp, fmt), 'whole', 'xml_options',
                dict(fmt=fmt, lengths=[0, 1, 3], xmp=xmp), bounds=WB + 'XML box (or XMP UUID box) '
                'with up to 3 arbitrary bytes that the parser accepts or not; nullxml off and on')
for kind, n in (('jP', 5), ('ftyp', 16), ('ihdr', 15), ('bpcc', 3), ('colr', 12), ('cmap', 9),
                ('resc', 11), ('resd', 10), ('url', 6), ('rgn', 5), ('crg', 6), ('com', 6),
                ('tlm', 6), ('plm', 6), ('plt', 6), ('ppm', 5), ('ppt', 5), ('sot', 10)):
    for fmt in ('jp2', 'jph'):
        job('C02', 'contents %s %s' % (kind, fmt), 'whole', 'one_box_options',
            dict(kind=kind, lengths=[n], fmt=fmt, which='verbose'),
            tier='quick' if fmt == 'jp2' else 'thorough',
            bounds='%d arbitrary bytes' % n)

for kind, ns in (('bpcc', (3, 12, 40)), ('cmap', (24, 48)), ('siz', (6, 24)), ('poc', (7, 28)),
                 ('crg', (4, 40)), ('com', (5,))):
    for n in ns:
        for p in ('C01', 'C02'):
            job(p, 'many results %s %d' % (kind, n), 'whole', 'many', dict(kind=kind, n=n, fmt='jp2'),
                bounds='%s with %d arbitrary bytes inside its superbox (or codestream), verbose '
                'and terse' % (kind, n))

NATURAL = {'jP': 4, 'ftyp': 12, 'ihdr': 14, 'colr': 7, 'pclr': 5, 'cmap': 4, 'cdef': 8,
           'res': 9, 'resc': 10, 'resd': 10, 'uuid': 17, 'uinf': 9, 'ulst': 18, 'url': 5, 'siz': 39,
           'cap': 6, 'cod': 10, 'coc': 7, 'qcd': 2, 'qcc': 3, 'rgn': 3, 'poc': 7, 'crg': 4,
           'com': 3, 'tlm': 2, 'plm': 3, 'ppm': 2, 't0.cod': 10, 't0.coc': 7, 't0.qcd': 2,
           't0.qcc': 3, 't0.rgn': 3, 't0.ppt': 2, 't0.poc': 7, 't0.com': 3, 't0.plt': 3,
           't1.poc': 7, 't1.com': 3, 't1.plt': 3}
for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    raw = fmt in ('j2c', 'jhc')
    for name, n in NATURAL.items():
        if raw and list(NATURAL).index(name) < 14 or name == 'cap' and fmt in ('jp2', 'j2c'):
            continue
        ls = sorted(set(list(range(0, min(n, 7))) + [n - 1, n, n + 1]))
        if name in ('colr',):
            ls = [k for k in ls if k < 3] + [7, 8]
        if name in ('res', 'uinf'):
            job('C03', 'contents %s %s, longer' % (name, fmt), 'whole', 'any_contents',
                dict(fmt=fmt, name=name, lengths=ls, packetmarkers=True, nullxml=True),
                tier='thorough', bounds=WB + 'contents of %s: %s arbitrary bytes' % (name, ls))
            ls = [0, 1, 3, 4]
        if name == 'siz':
            job('C03', 'contents %s %s, longer' % (name, fmt), 'whole', 'any_contents',
                dict(fmt=fmt, name=name, lengths=ls, packetmarkers=True, nullxml=True),
                tier='thorough', bounds=WB + 'contents of %s: %s arbitrary bytes' % (name, ls))
            ls = [0, 1, 2, 6, 18, 25]
        quick = fmt == 'jp2' if not raw and list(NATURAL).index(name) < 14 else fmt == 'jhc'
        if name == 'cap':
            quick = fmt == 'jhc'
        job('C03', 'contents %s %s' % (name, fmt), 'whole', 'any_contents',
            dict(fmt=fmt, name=name, lengths=ls, packetmarkers=True, nullxml=True),
            tier='quick' if quick else 'thorough',
            bounds=WB + 'contents of %s: %s arbitrary bytes, counts of entries at most 2' %
            (name, ls))
    for lo in range(0, 600 if not raw else 300, 100):
        job('C03', 'truncated %d.. %s' % (lo, fmt), 'whole', 'truncated',
            dict(fmt=fmt, lo=lo, hi=lo + 100), ticks=400000, bounds=WB + 'cut after any number of bytes')
    job('C03', 'missing ' + fmt, 'whole', 'missing', dict(fmt=fmt),
        bounds=WB + 'any one box or segment missing or empty')
    for pre in ('', 'ftyp.length', 'ihdr.length', 'colr.length', 'resc.length', 'ulst.length',
                'soc', 'siz.marker', 'siz.rsiz', 'cod.marker', 'poc.marker', 't0.sot',
                't0.cod.marker', 't0.com.marker', 't0.data', 't1.sot', 't1.poc.marker', 'eoc'):
        if raw and pre[0:4] in ('ftyp', 'ihdr', 'colr', 'resc', 'ulst'):
            continue
        for ls, tier in (([0, 1, 2, 3, 4], 'quick'), ([5, 6, 7, 8], 'thorough')):
            lim = None if raw and pre == '' or not raw and (
                pre == '' or pre.endswith('length')) else 12
            job('C03', 'arbitrary bytes at %s %d.. %s' % (pre, ls[0], fmt), 'whole', 'arbitrary',
                dict(fmt=fmt, lengths=ls, prefix=pre, limit=lim, packetmarkers=True, nullxml=True),
                ticks=400000, tier=tier if fmt in ('jp2', 'jhc') else 'thorough',
                bounds='the valid file up to %s and %s arbitrary bytes%s' % (
                    pre, ls, ' (the third and fourth, often a length, at most %d)' % lim
                    if lim else ''))

LEAN = 'a small valid file with 2 tile-parts; '
for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
    raw = fmt in ('j2c', 'jhc')
    q = 'quick' if fmt in ('jp2', 'jhc') else 'thorough'
    for names in (['jP.length'], ['ftyp.length'], ['jp2h.length'], ['ihdr.length'], ['colr.length'],
                  ['res.length'], ['resc.length'], ['jp2c.length'], ['ihdr.length', 'colr.length'],
                  ['jp2h.length', 'ihdr.length'], ['res.length', 'resc.length'],
                  ['siz.size'], ['cod.size'], ['qcd.size'], ['t0.lsot'], ['t0.psot'], ['t1.psot'],
                  ['t0.com.size'], ['t1.com.size'], ['cod.size', 'qcd.size'],
                  ['t0.psot', 't1.psot'], ['t0.lsot', 't0.psot'], ['t0.com.size', 't0.psot'],
                  ['cod.size', 't0.psot']):
        isbox = names[0].endswith('.length')
        if raw and isbox or not raw and not isbox and fmt == 'jph':
            continue
        if not raw and not isbox:
            continue
        for ext in (False, True) if isbox and len(names) == 1 else (False,):
            lim = {x: 40 for x in names if not x.endswith('.length') and not x.endswith('psot')} \
                if len(names) > 1 or names == ['qcd.size'] else {}
            if lim:
                job('C04', '%s %s, any' % ('+'.join(names), fmt), 'whole', 'bounded',
                    dict(fmt=fmt, names=names), tier='thorough', ticks=1000000,
                    bounds=LEAN + 'any value of %s' % (names,))
            job('C04', '%s%s %s' % ('+'.join(names), ' extended' if ext else '', fmt), 'whole',
                'bounded', dict(fmt=fmt, names=names, extended=ext, limits=lim),
                tier='thorough' if names in (['ihdr.length', 'colr.length'],
                                             ['jp2h.length', 'ihdr.length'], ['cod.size', 't0.psot'],
                                             ['t0.lsot', 't0.psot']) else q,
                ticks=1000000, bounds=LEAN + 'any value of %s, limits %s' % (names, lim))
for kind in ('plt', 'plm', 'tlm', 'ppm', 'ppt', 'com', 'crg'):
    job('C04', 'packets ' + kind, 'whole', 'packets', dict(kind=kind, lengths=list(range(0, 9))),
        bounds='0..8 arbitrary bytes')

# ---------------------------------------------------------------- analysis of files
ALL4 = ['jp2', 'jph', 'j2c', 'jhc']
for fmt in ALL4:
    raw = fmt in ('j2c', 'jhc')
    q = 'quick' if fmt in ('jp2', 'jhc') else 'thorough'
    groups = [] if raw else ['jP,ftyp', 'ihdr', 'colr,pclr', 'cmap,cdef', 'resc,resd',
                             'uuid,ulst,url']
    groups += ['siz', 'cod,coc', 'qcd,qcc,rgn,poc', 'crg,com,tlm,plm,ppm,cap', 't0', 't1',
               'frame:all']
    for g in groups:
        if g == 'frame:all' and not raw:
            g = 'frame:jP,ftyp,jp2h,ihdr,colr,res,xml,uuid,uinf,jp2c'
        job('C27', 'result %s %s' % (g, fmt), 'program', 'result', dict(fmt=fmt, group=g),
            tier='quick' if q == 'quick' and g in ('ihdr', 'jP,ftyp', 'siz', 'crg,com,tlm,plm,ppm,cap',
                                                   'uuid,ulst,url', 'cod,coc') else 'thorough',
            ticks=400000, bounds='a valid file with all kinds of boxes and segments; any one field of '
            '%s takes any value (counts of entries at most 3)' % g)
    job('C27', 'options ' + fmt, 'program', 'result_options', dict(fmts=[fmt]), ticks=400000,
        bounds='all combinations of format, verbose, packetmarkers, nullxml, mix, with valid and '
        'broken files')
    job('C27', 'crash ' + fmt, 'program', 'crash', dict(fmt=fmt, last=60), tier=q, ticks=4000000,
        bounds='an exception of 21 types at any one of the first 60 boxes and segments')
    job('C27', 'any bytes ' + fmt, 'program', 'any_bytes', dict(fmts=[fmt], lengths=[1, 2, 3]),
        ticks=400000, bounds='files of 1..3 arbitrary bytes')
    for n in (4, 5, 8, 9):
        job('C27', 'any %d bytes %s' % (n, fmt), 'program', 'any_bytes', dict(fmts=[fmt], lengths=[n]),
            ticks=400000, tier='thorough', bounds='files of %d arbitrary bytes' % n)
for where in ('open', 'mmap', 'validator', 'readable'):
    job('C27', 'fault ' + where, 'program', 'fault', dict(where=where), ticks=4000000,
        bounds='exceptions of 21 types')
job('C27', 'empty file', 'program', 'empty', {}, bounds='all formats and MIX versions')
job('C27', 'file names', 'program', 'name', {}, bounds='21 file names in 4 directories')
job('C27', 'dates', 'program', 'modified', {}, bounds='13 dates from 1900 to 9999')
job('C27', 'dates that cannot be represented', 'program', 'undated', {}, bounds='6 cases')
for fmt in ('jp2', 'jph'):
    for version in (1, 2):
        for which in ('size', 'coding', 'components', 'ratio', 'brand', 'comment', 'no comment',
                      'colour', 'resolution'):
            job('C26', 'values: %s %s %d' % (which, fmt, version), 'program', 'mix_values',
                dict(fmt=fmt, version=version, which=which), ticks=400000,
                tier='quick' if fmt == 'jp2' or which in ('size', 'colour') else 'thorough',
                bounds='the reported properties of a valid file, in which %s take any value (sizes '
                '32 bits, 1..4 components, ratio, resolution, comment and ICC from lists)' % which)
        for which in ('fields', 'size', 'resolution', 'comment', 'capture', 'tool'):
            job('C26', 'file: %s %s %d' % (which, fmt, version), 'program', 'mix_file',
                dict(fmt=fmt, version=version, which=which), ticks=400000,
                tier='quick' if (fmt == 'jp2') == (version == 2) or which == 'size' else 'thorough',
                bounds='valid files with chosen values of %s' % which)
for fmt in ALL4:
    for spell in (0, 1):
        job('C28', 'options %s %d' % (fmt, spell), 'program', 'cli_options',
            dict(fmt=fmt, mixes=[0, 1, 2], spell=spell), ticks=400000,
            tier='quick' if (fmt in ('jp2', 'j2c')) == (spell == 0) else 'thorough',
            bounds='every combination of options, before and after the file')
job('C28', 'refused', 'program', 'cli_refused', {}, bounds='18 unsupported settings')
job('C28', 'any format', 'program', 'cli_format', dict(lengths=[1, 2, 3, 4, 5, 8]), ticks=400000,
    bounds='a format of 1..5 or 8 arbitrary printable ASCII characters')
job('C28', 'nothing to do', 'program', 'cli_nothing', {}, bounds='11 command lines')
for rel in (False, True):
    job('C28', 'files, one argument%s' % (' relative' if rel else ''), 'program', 'cli_files',
        dict(number=1, some=['a.jp2', 's/a.jp2', 's/t/g.jp2', 'u/e.jp2'], relative=rel), ticks=400000,
        bounds='trees of 6..10 files in 4 directories, 26 arguments, with and without recursion')
    job('C28', 'files, two arguments%s' % (' relative' if rel else ''), 'program', 'cli_files',
        dict(number=2, some=['a.jp2'], relative=rel, args=['a.jp2', 'nofile', 's', '*.jp2', 's/*', 's/a.jp2',
                                                          'u*', '*', 'a*', 'u/e.jp2', 'u/*.jp2']),
        ticks=400000, bounds='as above, two of 11 arguments')
    job('C28', 'files, three arguments%s' % (' relative' if rel else ''), 'program', 'cli_files',
        dict(number=3, some=[], relative=rel, args=['a.jp2', 'nofile', 's', '*.jp2']), ticks=400000,
        bounds='as above, three of 4 arguments')
for fmt, other, gs in (('jp2', 'jp2', ['ihdr', 'siz', 'colr,pclr', 'cod', 'uuid,ulst,url']),
                       ('jhc', 'jp2', ['jP,ftyp', 'qcd,qcc,rgn,poc', 't0', 'cmap,cdef', 'resc,resd']),
                       ('jp2', 'jhc', ['crg,com,tlm,plm,ppm,cap', 't1', 'frame:all', 'siz', 'cod']),
                       ('jph', 'j2c', ['siz', 'cod', 't0'])):
    for g in gs:
        job('C30', 'history %s, %s %s' % (fmt, g, other), 'program', 'history',
            dict(fmt=fmt, group=g, other=other), ticks=400000,
            tier='quick' if g in ('ihdr', 'siz', 'qcd,qcc,rgn,poc', 't1') else 'thorough',
            bounds='a valid file before and after one in which any one field of %s takes any value '
            '(counts at most 3)' % g)
for fmt in ALL4:
    job('C30', 'other options ' + fmt, 'program', 'other_options', dict(fmt=fmt), ticks=400000,
        tier='quick' if fmt in ('jp2', 'jhc') else 'thorough',
        bounds='every pair of option settings, one file')
    job('C30', 'after a failure ' + fmt, 'program', 'failed_before', dict(fmt=fmt), ticks=400000,
        bounds='a failure at any of the first 12 boxes or segments')
    for n in ('ihdr.width', 'colr.enumcs', 'siz.xTsiz', 'cod.order', 't0.tnsot', 'com.text'):
        if fmt in ('j2c', 'jhc') and n[0] in 'i' or n.startswith('colr') and fmt in ('j2c', 'jhc'):
            continue
        job('C30', 'changed %s %s' % (n, fmt), 'program', 'changed_file', dict(fmt=fmt, name=n),
            ticks=400000, bounds='the same path with any value of %s' % n)
    for g in (['ihdr', 'colr,pclr'] if fmt in ('jp2', 'jph') else ['siz', 'com,crg']):
        job('C30', 'copies %s %s' % (g, fmt), 'program', 'same_bytes', dict(fmt=fmt, group=g),
            ticks=400000, tier='quick' if fmt in ('jp2', 'jhc') else 'thorough',
            bounds='any one field of %s' % g)
job('C30', 'several files in a run', 'program', 'cli_history', {}, ticks=400000,
    bounds='three of 5 files')
for ks, ls in ((['ihdr', 'jP'], [4, 14]), (['url', 'jP'], [4, 6]),
               (['resc', 'resd'], [10])):
    job('C30', 'validators ' + ','.join(ks), 'program', 'validators', dict(kinds=ks, lengths=ls),
        bounds='any two of the boxes with arbitrary contents of %s bytes' % ls)

# ---------------------------------------------------------------- longer contents


def be(n):
    return '%04x' % n


for fmt in ('jp2', 'jph'):
    for kind, hs, what in (
            ('ftyp', [('', 24), ('', 40), ('', 76), ('', 141)], '4..33 compatible brands'),
            ('bpcc', [('', 12), ('', 17), ('', 40), ('', 130)], '12, 17, 40, 130 components'),
            ('cmap', [('', 20), ('', 36), ('', 70), ('', 131)], '5, 9, 17, 32 channels'),
            ('cdef', [('0003', 18), ('0004', 18, '00000001', 2), ('0004', 18, '00000001', 1)] +
             [[be(n)] + (n - 2) * [2, '0000', 2, ''] + [6, '', 6] for n in (5, 9, 17)] +
             [[be(n)] + [6, '', 6, ''] + (n - 2) * [2, '0003', 2, ''] + [0] for n in (5, 9, 17)],
             '3, 4, 5, 9, 17 channels, the type of at most 3 arbitrary'),
            ('pclr', [('0005030707' + '07', 15), ('000502070b', 15), ('000402872f', 32),
                      ('0009010f', 18), ('00030407070707', 12), ('000304070f1707', 21),
                      ('000304070f1707', 20), ('0100030707' + '07', 768),
                      ('0100030707' + '07', 767), ('04000107', 1024), ('040003000f07', 4096)],
             '1..4 columns, 3..1024 entries')):
        c = 'C09' if kind in ('ftyp', 'bpcc') else 'C12'
        for vb in (True, False):
            job(c, 'long %s %s/%s' % (kind, fmt, 'verbose' if vb else 'terse'), 'header', 'long_box',
                dict(kind=kind, heads=hs, fmt=fmt, verbose=vb), ticks=2000000, bounds=what,
                tier='quick' if vb or fmt == 'jp2' else 'thorough')
    job('C14', 'long uuid list ' + fmt, 'boxes', 'uuid_list',
        dict(lengths=[82, 83, 146, 200, 274], fmt=fmt, maxnu=18), bounds='up to 17 UUIDs')
    job('C14', 'long uuid ' + fmt, 'boxes', 'uuid_box', dict(lengths=[33, 70, 150], fmt=fmt),
        bounds='33, 70, 150 bytes')
job('C11', 'icc many tags', 'header', 'icc_many', dict(counts=[4, 9, 17], size=12),
    bounds='4, 9 or 17 tags, the description being any of them')
job('C11', 'icc long description', 'header', 'icc_many', dict(counts=[3], size=90),
    bounds='3 tags, description of 90 bytes')
job('C11', 'icc many tags, none description', 'header', 'icc_count', dict(maxtags=20),
    bounds='0..21 tags claimed')


def longseg(prop, name, kind, heads, bounds, fmts=('jp2', 'jph'), csiz=(None,), **kw):
    for fmt in fmts:
        for vb in (True, False):
            job(prop, 'long %s %s/%s' % (name, fmt, 'verbose' if vb else 'terse'), 'markers',
                'long_segment', dict(kind=kind, heads=heads, csiz=list(csiz), fmt=fmt, verbose=vb, **kw),
                ticks=2000000, bounds=bounds, tier='quick' if vb or fmt == 'jp2' else 'thorough')

longseg('C17', 'siz', 'siz', [(be(38 + 3 * n) + '0000' + 32 * '01' + be(n), 3 * n)
                              for n in (3, 4, 5, 8, 17, 40)], '3..40 components with arbitrary data',
        fmts=('jp2', 'jph', 'j2c', 'jhc'))
longseg('C18', 'cod', 'cod', [(be(13 + n) + '0100000100%02x0404' % n, 2 + n + 1)
                              for n in (4, 5, 6, 8, 15, 32)], '4..32 levels with precinct sizes')
longseg('C18', 'coc', 'coc', [(be(10 + n) + '0001%02x0404' % n, 2 + n + 1)
                              for n in (4, 5, 6, 8, 15, 32)], '4..32 levels with precinct sizes',
        csiz=(3,))
longseg('C18', 'coc wide', 'coc', [(be(11 + n) + '000001%02x0404' % n, 2 + n + 1)
                                   for n in (4, 6, 32)], '4, 6, 32 levels with precinct sizes',
        csiz=(300,))
longseg('C19', 'qcd', 'qcd', [(be(4 + 3 * n) + '40', 1 + 3 * n) for n in (3, 5, 6, 8, 32)] +
        [(be(5 + 6 * n) + '42', 2 + 6 * n) for n in (3, 5, 6, 8, 32)] + [(be(5) + '41', 2)],
        '3..32 levels')
longseg('C19', 'qcc', 'qcc', [(be(5 + 3 * n) + '0140', 1 + 3 * n) for n in (3, 5, 6, 8, 32)] +
        [(be(6 + 6 * n) + '0142', 2 + 6 * n) for n in (3, 5, 6, 8, 32)], '3..32 levels', csiz=(3,))
longseg('C19', 'qcc wide', 'qcc', [(be(6 + 3 * n) + '000140', 1 + 3 * n) for n in (3, 5, 32)] +
        [(be(7 + 6 * n) + '000142', 2 + 6 * n) for n in (3, 5, 32)], '3..32 levels', csiz=(300,))
longseg('C20', 'poc', 'poc', [(be(2 + 7 * n), 7 * n) for n in (3, 4, 5, 9, 32)],
        '3..32 progressions', csiz=(3, 256))
longseg('C20', 'poc wide', 'poc', [(be(2 + 9 * n), 9 * n) for n in (3, 4, 5, 9, 32)],
        '3..32 progressions', csiz=(257,))
for n in (4, 5, 8, 17, 257):
    longseg('C20', 'crg %d' % n, 'crg', [(be(2 + 4 * n), 4 * n), (be(2 + 4 * n), 4 * n - 1)],
            '%d components' % n, csiz=(n,))
longseg('C22', 'cap', 'cap', [(be(70) + 'ffffffff', 64), (be(36) + 'ffff0000', 30),
                              (be(36) + '0000ffff', 32), (be(38) + 'aaaaaaaa', 32),
                              (be(38) + '55555555', 32)], '15..32 parts',
        fmts=('jp2', 'jph', 'jhc'))
for k in ('prf', 'cpf'):
    longseg('C22', k, k, [(be(2 + 2 * n), 2 * n) for n in (5, 6, 8, 17)], '5..17 words')
longseg('C21', 'com', 'com', [(be(4 + n) + '0001', n) for n in (9, 20)] +
        [(be(4 + n) + '0000', n) for n in (9, 20)] + [(be(74) + '0000', 70)],
        '9, 20 bytes, three arbitrary below 128, others printable', ascii=True)
for k, z in (('plt', '00'), ('plm', '00')):
    longseg('C23', k, k, [(be(2 + len(z) // 2 + n) + z, n) for n in (9, 10)],
            '9, 10 arbitrary bytes')
    longseg('C23', k + ' short packets', k, [(be(2 + len(z) // 2 + n) + z, n) for n in (20, 60)],
            '20, 60 bytes below 128', ascii=True)

# ---------------------------------------------------------------- more tile-parts, segments, boxes
for n, order, where in (
        (12, list(range(12)), [0, 5, 11]), (12, list(range(11, -1, -1)), [3, 11]),
        (11, list(range(10)), [4, 9]), (5, [0, 1, 2, 3, 4] * 3, [0, 7, 14]),
        (2, [0] * 9 + [1] * 8, [0, 8, 9, 16]), (40, list(range(40)), [0, 39]),
        (1, [0] * 30, [0, 13, 29]), (300, list(range(300)), [299])):
    for vb in (True, False):
        job('C16', 'many tile-parts %d/%d %s %s' % (n, len(order), order[0], vb), 'codestream',
            'tiles_many', dict(ntiles=n, order=order, where=where, verbose=vb,
                               isots=[0, 43, 255, 256, 298, 299, 300, 555, 65535] if n > 40 else None), ticks=4000000,
            tier='quick' if vb or n == 12 else 'thorough',
            bounds='%d tile-parts of %d tiles, header fields of one of them (place %s) arbitrary' % (
                len(order), n, where))
for fmt in ('jp2', 'jhc'):
    for vb in (True, False):
        for nm, kinds, at in (
                ('mixed', ['com', 'cod', 'coc', 'qcc', 'rgn', 'com', 'poc', 'plm', 'ppm', 'tlm', 'prf', 'crg',
                           'qcd', 'plm', 'com', 'ppm', 'cpf', 'other', 'com', 'qcc'], [1, 7, 12, 19]),
                ('comments', ['cod', 'qcd'] + 40 * ['com'], [20, 41]),
                ('coc', ['cod', 'qcd'] + 7 * ['coc'], [1]), ('qcc', ['cod', 'qcd'] + 7 * ['qcc'], [0])):
            job('C15', 'long %s %s %s' % (nm, fmt, vb), 'codestream', 'long_header',
                dict(kinds=kinds, at=at, fmt=fmt, verbose=vb, packet=not vb), ticks=4000000,
                tier='quick' if vb or fmt == 'jp2' else 'thorough',
                bounds='%d segments, one of them (place %s) of any kind' % (len(kinds), at))
        for nm, kinds, at in (
                ('mixed', ['com', 'cod', 'coc', 'qcc', 'rgn', 'com', 'poc', 'plt', 'ppt', 'plt', 'com', 'qcd',
                           'plt', 'com', 'ppt', 'other', 'com', 'qcc'], [1, 7, 12, 17]),
                ('packets', 40 * ['plt'], [20, 39]),
                ('coc', 7 * ['coc'], [1]), ('qcc', 7 * ['qcc'], [0])):
            job('C16', 'long tile-part %s %s %s' % (nm, fmt, vb), 'codestream', 'long_tile',
                dict(kinds=kinds, at=at, fmt=fmt, verbose=vb, packet=not vb), ticks=4000000,
                tier='quick' if vb or fmt == 'jp2' else 'thorough',
                bounds='%d segments, one of them (place %s) of any kind' % (len(kinds), at))

for fmt in ('jp2', 'jph'):
    for vb in (True, False):
        sfx = '%s/%s' % (fmt, 'verbose' if vb else 'terse')
        q = 'quick' if vb or fmt == 'jp2' else 'thorough'
        for pre in (['jP', 'ftyp', 'jp2h', 'jp2c'], ['jP', 'ftyp', 'other', 'jp2h', 'other', 'jp2c'],
                    ['jP', 'ftyp'] + 12 * ['other'] + ['jp2h'] + 12 * ['other'] + ['jp2c'],
                    ['jP', 'ftyp', 'jp2c'] + 6 * ['other'], ['jP', 'ftyp', 'jp2h'] + 5 * ['jp2c']):
            n = 2 if len(pre) < 9 else 1
            job('C06', 'boxes after %d boxes %s %s' % (len(pre), pre[2], sfx), 'structure', 'top_level',
                dict(prefix=pre, n=n, alphabet=TL + ['empty'], fmt=fmt, verbose=vb), weight=3, tier=q,
                bounds='%s and %d boxes of 7 kinds' % (pre, n))
        for i, ks in enumerate((
                ['ihdr', 'bpcc', 'colr', 'pclr', 'cmap', 'cdef', 'res'],
                ['ihdr', 'colr', 'colr', 'colr', 'bpcc', 'res', 'cdef', 'cmap', 'pclr'],
                ['ihdr'] + 9 * ['colr'] + ['cdef', 'bpcc'],
                ['ihdr', 'other', 'other', 'bpcc', 'other', 'colr', 'other', 'cdef', 'other', 'other'])):
            job('C07', 'long header %d %s' % (i, sfx), 'structure', 'long_header_box',
                dict(kinds=ks, fmt=fmt, verbose=vb), tier=q,
                bounds='%s with one repeated, moved, dropped or replaced' % ks)
        for n in (4, 5, 9, 17):
            job('C08', 'consistency of %d components %s' % (n, sfx), 'structure', 'consistent',
                dict(ncs=[n - 1, n] if n < 9 else [n], nboxes=n, fmt=fmt, verbose=vb, nc=n), weight=3,
                tier='quick' if vb and n < (9 if fmt == 'jph' else 17) else 'thorough',
                bounds='any image header, %d components with a bits-per-component box, any SIZ with '
                '%d or %d components' % (n, n - 1, n))
for which in ('JP2', 'jp2h', 'res', 'uinf'):
    for n, ks in ((12, ['xml', 'other', 'uuid']), (60, ['other']), (300, ['other', 'xml'])):
        job('C05', 'many boxes %s %d' % (which, n), 'structure', 'many_boxes',
            dict(which=which, number=n, kinds=ks), ticks=4000000,
            bounds='%d boxes, two of them of any of 3 kinds at 3 places' % n)
for which in ('tile-part', 'segment', 'tile segment', 'JP2', 'jp2h', 'res', 'uinf'):
    job('C04', 'far ' + which, 'whole', 'far', dict(which=which, distances=[9995, 9997, 9999]),
        ticks=6000, bounds='an incomplete box, segment or tile-part 9995, 9997, 9999 bytes after another')
for which in ('verbose', 'packetmarkers', 'nullxml'):
    for i, (ah, ins, at) in enumerate((
            (['plm', 'plm', 'ppm', 'ppm', 'com', 'com', 'tlm'], ['plt', 'plt', 'ppt', 'ppt', 'com', 'plt'],
             [1, 5, 7, 8, 11]),
            (6 * ['plm'] + 6 * ['ppm'], 6 * ['plt'] + 6 * ['ppt'], [0, 11, 12, 23]))):
        for fmt in ('jp2', 'jhc'):
            job('C02', 'segments %d %s %s' % (i, fmt, which), 'whole', 'segment_options',
                dict(fmt=fmt, which=which, ahead=ah, inside=ins, at=at, vary=True),
                tier='quick' if fmt == 'jp2' else 'thorough',
                bounds='codestream with %s in the main header, %s in the tile-part, one of them of any '
                'of 8 kinds; any setting of the other options' % (ah, ins))

# ---------------------------------------------------------------- very long lists
job('C11', 'icc very many tags', 'header', 'icc_table', dict(counts=[60, 129, 300, 1030]), ticks=8000000,
    bounds='60, 129, 300, 1030 tags, the description at 3 places, 3 other signatures arbitrary')
job('C11', 'icc tags at the limit', 'header', 'icc_table', dict(counts=[4096, 4097]), ticks=20000000,
    bounds='4096 or 4097 tags (the limit is 4096), the description at 3 places, 3 other signatures '
    'arbitrary')
for kind, hs, what in (
        ('bpcc', [('', 2, n * '07', 2, 200 * '07', 2) for n in (60, 260, 1030, 16180)],
         '266, 466, 1236, 16386 components'),
        ('ftyp', [('6a70322000000000', 4, n * '6a703220', 4) for n in (62, 254, 1030)],
         '64, 256, 1032 compatible brands'),
        ('cmap', [('', 4, n * '00000000', 8, 100 * '00010100', 4) for n in (30, 160, 930)],
         '133, 263, 1033 channels'),
        ('cdef', [(be(n), 6, (n - 2) * '000300030003', 6) for n in (40, 129, 260, 1030)] +
         [(be(n), 0, (n - 1) * '000300030003', 6) for n in (40, 129, 260, 1030, 16385)],
         '40..16385 channels'),
        ('pclr', [('0002' + '%02x' % n + n * '07', n, '', n) for n in (40, 130, 255)] +
         [('0400ff' + 255 * '07', 8, 1022 * 255 * '00' + 494 * '00', 8)],
         '40, 130, 255 columns; 255 columns and 1024 entries')):
    job('C09' if kind in ('ftyp', 'bpcc') else 'C12', 'very long ' + kind, 'header', 'long_box',
        dict(kind=kind, heads=hs, fmt='jp2'), ticks=30000000, bounds=what)
for prop, kind, hs, csiz, what in (
        ('C17', 'siz', [(be(38 + 3 * n) + '0000' + 32 * '01' + be(n), 3, (n - 2) * '070101', 3)
                        for n in (129, 257, 1030, 16384)], (None,), '129..16384 components'),
        ('C20', 'poc', [(be(2 + 7 * n), 7, (n - 2) * '00000001010100', 7) for n in (65, 129, 1030, 9361)],
         (3,), '65..9361 progressions'),
        ('C20', 'crg', [(be(2 + 4 * 1030), 4, 1028 * '00010002', 4)], (1030,), '1030 components'),
        ('C20', 'crg', [(be(2 + 4 * 16383), 4, 16381 * '00010002', 4)], (16383,), '16383 components'),
        ('C21', 'com', [(be(4 + n) + '0001', 2, (n - 4) * '41', 2) for n in (130, 300, 1030)] +
         [(be(65535) + '0001', 0, 65529 * '41', 2)],
         (None,), '130..65531 characters'),
        ('C22', 'prf', [(be(2 + 2 * n), 2, (n - 2) * '0001', 2) for n in (40, 130, 257)], (None,),
         '40, 130, 257 words'),
        ('C22', 'cpf', [(be(2 + 2 * n), 2, (n - 2) * '0001', 2) for n in (40, 130, 257)], (None,),
         '40, 130, 257 words'),
        ('C23', 'plt', [(be(3 + n) + '00', 3, (n - 6) * '41', 3) for n in (130, 300, 1030, 65532)],
         (None,), '130..65532 bytes, all below 128'),
        ('C23', 'plm', [(be(3 + n) + '00', 3, (n - 6) * '41', 3) for n in (130, 300, 1030, 65532)],
         (None,), '130..65532 bytes, all below 128')):
    job(prop, 'very long %s %s' % (kind, csiz[0]), 'markers', 'long_segment',
        dict(kind=kind, heads=hs, csiz=list(csiz), fmt='jp2', ascii=kind in ('com', 'plt', 'plm')), ticks=30000000,
        bounds=what)
job('C14', 'very long uuid list', 'boxes', 'uuid_list_long', dict(counts=[40, 129, 257, 1030]),
    ticks=8000000, bounds='40..1030 UUIDs, the first and last arbitrary')
