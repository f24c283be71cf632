"""Reference for the readable report: descriptions of enumerated values (user manual,
ISO/IEC 15444-1, 15444-15, ICC.1)."""
YESNO = {0: 'no', 1: 'yes'}
SIGN = {0: 'unsigned', 1: 'signed'}
TEXTS = {
    'unkC': YESNO, 'iPR': YESNO, 'embeddedProfile': YESNO, 'vidFRng': YESNO,
    'profileCannotBeUsedIndependently': YESNO, 'sop': YESNO, 'eph': YESNO,
    'multipleComponentTransformation': YESNO, 'codingBypass': YESNO,
    'resetOnBoundaries': YESNO, 'termOnEachPass': YESNO, 'vertCausalContext': YESNO,
    'predTermination': YESNO, 'segmentationSymbols': YESNO,
    'bSign': SIGN, 'bPCSign': SIGN, 'ssizSign': SIGN,
    'c': {7: 'jpeg2000'},
    'meth': {1: 'Enumerated', 2: 'Restricted ICC', 3: 'Any ICC', 4: 'Vendor Colour',
             5: 'Parameterized Colourspace'},
    'enumCS': {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'},
    'transparency': {0: 'Reflective', 1: 'Transparent'},
    'glossiness': {0: 'Glossy', 1: 'Matte'},
    'polarity': {0: 'Positive', 1: 'Negative'},
    'colour': {0: 'Colour', 1: 'Black and white'},
    'renderingIntent': {0: 'Perceptual', 1: 'Media-Relative Colorimetric', 2: 'Saturation',
                        3: 'ICC-Absolute Colorimetric'},
    'mTyp': {0: 'direct use', 1: 'palette mapping'},
    'cTyp': {0: 'colour', 1: 'opacity', 2: 'premultiplied opacity', 3: 'application-defined',
             65535: 'not specified'},
    'cAssoc': {0: 'all colours', 65535: 'no colours'},
    'precincts': {0: 'default', 1: 'user defined'},
    'order': {0: 'LRCP', 1: 'RLCP', 2: 'RPCL', 3: 'PCRL', 4: 'CPRL'},
    'transformation': {0: '9-7 irreversible', 1: '5-3 reversible'},
    'roiStyle': {0: 'Implicit ROI (maximum shift)'},
    'qStyle': {0: 'no quantization', 1: 'scalar derived', 2: 'scalar expounded'},
    'rcom': {0: 'binary', 1: 'ISO/IEC 8859-15 (Latin)'},
    'htCodeBlocks': {0: 'HTONLY', 32768: 'HTDECLARED', 49152: 'MIXED'},
    'htSets': {0: 'SINGLEHT', 1: 'MULTIHT'},
    'htRegion': {0: 'RGNFREE', 1: 'RGN'},
    'htHomogeneous': {0: 'HOMOGENEOUS', 1: 'HETEROGENEOUS'},
    'htReversible': {0: 'HTREV', 1: 'HTIRV'},
}
BYTES = {
    'profileClass': {b'scnr': 'Input Device Profile', b'mntr': 'Display Device Profile',
                     b'prtr': 'Output Device Profile', b'link': 'DeviceLink Profile',
                     b'spac': 'ColorSpace Conversion Profile', b'abst': 'Abstract Profile',
                     b'nmcl': 'Named Colour Profile'},
    'primaryPlatform': {b'APPL': 'Apple Computer, Inc.', b'MSFT': 'Microsoft Corporation',
                        b'SGI ': 'Silicon Graphics, Inc.', b'SUNW': 'Sun Microsystems, Inc.'},
}
# reported as they are
PLAIN = ['height', 'width', 'nC', 'bPCDepth', 'prec', 'approx', 'minV', 'rsiz', 'xsiz', 'csiz',
         'ssizDepth', 'layers', 'levels', 'lcod', 'nE', 'nPC', 'cN', 'cmp', 'pCol', 'vRcN',
         'isot', 'psot', 'tpsot', 'tnsot', 'profileSize', 'xRsiz', 'codeBlockWidth', 'guardBits',
         'epsilon', 'mu', 'spod', 'ppmCount', 'nU', 'version', 'ccoc', 'sroi', 'psiz']
PLAINBYTES = ['br', 'cL', 'loc', 'boxType', 'preferredCMMType', 'colourSpace',
              'profileSignature', 'comment']


def described(tag, value):
    """The description of an integer value, or None."""
    if tag in TEXTS:
        for k in TEXTS[tag]:
            if value == k:
                return TEXTS[tag][k]
    return None


def described_bytes(tag, value):
    if tag in BYTES:
        for k in BYTES[tag]:
            if value == k:
                return BYTES[tag][k]
    return None
