"""Reference for the structure of codestreams (ISO/IEC 15444-1 Annex A and the user manual)."""
from .util import ANY, u8, u16, u32, rd

BARE = [b'\xff\x4f', b'\xff\x93', b'\xff\xd9', b'\xff\x92']       # SOC, SOD, EOC, EPH
SOT, SOD, EOC = b'\xff\x90', b'\xff\x93', b'\xff\xd9'
MAIN = {b'\xff\x50': 'cap', b'\xff\x52': 'cod', b'\xff\x53': 'coc', b'\xff\x55': 'tlm',
        b'\xff\x56': 'prf', b'\xff\x57': 'plm', b'\xff\x59': 'cpf', b'\xff\x5c': 'qcd',
        b'\xff\x5d': 'qcc', b'\xff\x5e': 'rgn', b'\xff\x5f': 'poc', b'\xff\x60': 'ppm',
        b'\xff\x63': 'crg', b'\xff\x64': 'com'}
TILE = {b'\xff\x52': 'cod', b'\xff\x53': 'coc', b'\xff\x58': 'plt', b'\xff\x5c': 'qcd',
        b'\xff\x5d': 'qcc', b'\xff\x5e': 'rgn', b'\xff\x5f': 'poc', b'\xff\x61': 'ppt',
        b'\xff\x64': 'com'}


def bare(marker):
    r = False
    for m in BARE:
        r = r or marker == m
    return r


def kind_of(marker, table):
    for m in table:
        if marker == m:
            return table[m]
    return None


def segments(data, pos, stop, table):
    """Segments from pos up to the marker `stop` or to where no length can be read:
    ([(kind, contents)] of known ones, position of stop, or None if it is not there)."""
    out = []
    while True:
        marker = data[pos:pos + 2]
        if marker == stop:
            return out, pos
        if bare(marker):
            pos = pos + 2
            continue
        size = data[pos + 2:pos + 4]
        k = kind_of(marker, table)
        if len(size) < 2:
            if k is not None:
                out.append((k, b''))
            return out, None
        n = int.from_bytes(size, 'big')
        if k is not None:
            out.append((k, data[pos + 2:pos + 2 + n]))
        pos = pos + 2 + n


def unique(values):
    r = True
    for i in range(len(values)):
        for j in range(i):
            r = r and values[i] != values[j]
    return r


def count(kinds, k):
    n = 0
    for x in kinds:
        if x == k:
            n = n + 1
    return n


def component_index(contents, csiz):
    return rd(contents, 2, 1 if csiz < 257 else 2)


def main_header(kinds, rsiz, comps):
    """comps: dict of lists of component indices for coc and qcc."""
    t = [('codestreamStartsWithSOCMarker', True), ('foundSIZMarker', True),
         ('foundCODMarker', count(kinds, 'cod') > 0), ('foundQCDMarker', count(kinds, 'qcd') > 0)]
    if rsiz >= 0 and rsiz // 16384 % 2 == 1:
        t.append(('foundCAPMarker', count(kinds, 'cap') > 0))
    for k, name in (('coc', 'maxOneCcocPerComponentMain'), ('qcc', 'maxOneCqccPerComponentMain')):
        if comps[k]:
            t.append((name, unique(comps[k])))
    return t


def tile_part(kinds, sod, tpsot, comps, psot, following):
    """following: the two bytes psot bytes after the start of the tile-part."""
    t = [('foundSODMarker', sod)]
    for k in ('cod', 'coc', 'qcd', 'qcc', 'rgn'):
        if count(kinds, k) > 0:
            t.append((k.upper() + 'Allowed', tpsot == 0))
    for k, name in (('coc', 'maxOneCcocPerComponentTP'), ('qcc', 'maxOneCqccPerComponentTP')):
        if comps[k]:
            t.append((name, unique(comps[k])))
    if psot != 0:
        t.append(('foundNextTilePartOrEOC', following == SOT or following == EOC))
    return t


def tile_parts(data, pos, ntiles):
    """The tile-parts from pos on: [(position, isot, tnsot)].  Ends after a tile-part without
    (readable) length, and after one that does not belong to any tile."""
    out = []
    while data[pos:pos + 2] == SOT:
        n = rd(data, pos + 2, 2)
        seg = data[pos + 2:pos + 2 + n] if n >= 0 else b''
        isot, psot, tnsot = u16(seg, 2), u32(seg, 4), u8(seg, 9)
        out.append((pos, isot, tnsot))
        if isot < 0 or isot >= ntiles or psot <= 0:
            break
        pos = pos + psot
    return out


def tiles(parts, ntiles):
    """Tests on the number of tiles and tile-parts."""
    found = [0] * ntiles
    extra = False
    want = {}
    conflict = []
    for pos, isot, tnsot in parts:
        hit = False
        for k in range(ntiles):
            if isot == k:
                hit = True
                found[k] = found[k] + 1
                if tnsot != 0:
                    if k in want and want[k] != tnsot:
                        conflict.append(k)
                    want[k] = tnsot
        if not hit:
            extra = True
            if tnsot != 0:
                want[-1] = tnsot
    present = True
    for n in found:
        present = present and n > 0
    t = [('foundExpectedNumberOfTiles', present and not extra)]
    if want:
        ok = -1 not in want
        for k in range(ntiles):
            if k in want:
                ok = ok and found[k] == want[k]
        t.append(('foundExpectedNumberOfTileParts', ANY if conflict and ok else ok))
    return t
