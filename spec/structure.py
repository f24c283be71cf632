"""Reference for the structure rules of files and superboxes (ISO/IEC 15444-1 Annex I,
15444-15 Annex D).  kinds: the boxes in file order, by name (other names are other boxes)."""
from .util import ANY


def count(kinds, k):
    n = 0
    for x in kinds:
        if x == k:
            n = n + 1
    return n


def jp2h(kinds, fmt, unkc, bpc, ctypes):
    """unkc, bpc: of the first image header box (None without one); ctypes: channel types of
    all channel definition boxes."""
    colr = count(kinds, 'colr')
    t = [('containsImageHeaderBox', count(kinds, 'ihdr') > 0)]
    if fmt == 'jp2':
        t.append(('containsColourSpecificationBox', colr > 0))
    else:
        if unkc is not None and unkc == 0:
            t.append(('containsColourSpecificationBox', colr > 0))
        if colr == 0:
            ok = True
            for c in ctypes:
                ok = ok and c != 0
            t.append(('noZeroCTypesIfNoColourBox', ok))
    if bpc is not None and bpc == 255:
        t.append(('containsBitsPerComponentBox', count(kinds, 'bpcc') > 0))
    t.append(('firstJP2HeaderBoxIsImageHeaderBox', len(kinds) > 0 and kinds[0] == 'ihdr'))
    for k, name in (('ihdr', 'ImageHeader'), ('bpcc', 'BitsPerComponent'), ('pclr', 'Palette'),
                    ('cmap', 'ComponentMapping'), ('cdef', 'ChannelDefinition'),
                    ('res', 'Resolution')):
        t.append(('noMoreThanOne%sBox' % name, count(kinds, k) <= 1))
    runs = 0
    for i in range(len(kinds)):
        if kinds[i] == 'colr' and (i == 0 or kinds[i - 1] != 'colr'):
            runs = runs + 1
    t.append(('colourSpecificationBoxesAreContiguous', runs <= 1))
    t.append(('paletteAndComponentMappingBoxesOnlyTogether',
              (count(kinds, 'pclr') > 0) == (count(kinds, 'cmap') > 0)))
    return t


def position(kinds, k):
    for i in range(len(kinds)):
        if kinds[i] == k:
            return i
    return None


def jp2(kinds, ipr):
    """ipr: of the first image header box in a JP2 header box (None without one)."""
    t = []
    for k, name in (('jP', 'Signature'), ('ftyp', 'FileType'), ('jp2h', 'JP2Header'),
                    ('jp2c', 'ContiguousCodestream')):
        t.append(('contains%sBox' % name, count(kinds, k) > 0))
    if ipr is not None and ipr == 1:
        t.append(('containsIntellectualPropertyBox', count(kinds, 'jp2i') > 0))
    t.append(('firstBoxIsSignatureBox', len(kinds) > 0 and kinds[0] == 'jP'))
    t.append(('secondBoxIsFileTypeBox', len(kinds) > 1 and kinds[1] == 'ftyp'))
    h, c = position(kinds, 'jp2h'), position(kinds, 'jp2c')
    t.append(('locationJP2HeaderBoxIsValid',
              h is not None and c is not None and h >= 2 and h < c))
    for k, name in (('jP', 'Signature'), ('ftyp', 'FileType'), ('jp2h', 'JP2Header')):
        t.append(('noMoreThanOne%sBox' % name, count(kinds, k) <= 1))
    return t


def res(kinds):
    return [('containsCaptureOrDisplayResolutionBox',
             count(kinds, 'resc') > 0 or count(kinds, 'resd') > 0),
            ('noMoreThanOneCaptureResolutionBox', count(kinds, 'resc') <= 1),
            ('noMoreThanOneDisplayResolutionBox', count(kinds, 'resd') <= 1)]


def uinf(kinds):
    return [('containsOneListBox', count(kinds, 'ulst') == 1),
            ('containsOneURLBox', count(kinds, 'url') == 1)]


def boxes(data):
    """The boxes of a file or superbox: [(type, contents)].  A box whose length cannot be read
    is the last one and has no contents; an incomplete type is padded."""
    out = []
    pos = 0
    n = len(data)
    while pos < n:
        size = data[pos:pos + 4]
        kind = data[pos + 4:pos + 8]
        while len(kind) < 4:
            kind = kind + b'\0'
        head = 8
        if len(size) < 4:
            out.append((kind, b''))
            return out
        length = int.from_bytes(size, 'big')
        if length == 1:
            head = 16
            ext = data[pos + 8:pos + 16]
            if len(ext) < 8:
                out.append((kind, b''))
                return out
            length = int.from_bytes(ext, 'big')
        if length == 0:
            length = n - pos
        end = pos + length
        if end > n:
            end = n
        out.append((kind, data[pos + head:end]))
        pos = pos + length
    return out


def consistency(height, width, nc, depths, siz):
    """depths: [(sign, depth)] per component according to the header boxes; siz: dict with
    x, y, xo, yo, n and comps [(sign, depth)]."""
    same = len(depths) == len(siz['comps'])
    signs = same
    deep = same
    for k in range(len(depths)):
        if same:
            signs = signs and depths[k][0] == siz['comps'][k][0]
            deep = deep and depths[k][1] == siz['comps'][k][1]
    return [('heightConsistentWithSIZ', height == siz['y'] - siz['yo']),
            ('widthConsistentWithSIZ', width == siz['x'] - siz['xo']),
            ('nCConsistentWithSIZ', nc == siz['n']),
            ('bPCSignConsistentWithSIZ', signs), ('bPCDepthConsistentWithSIZ', deep)]
