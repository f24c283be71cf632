"""Shared harness code (runs symbolically and concretely)."""
from jpylyzer import boxvalidator
from spec.util import ANY

TYPES = {
    'jP': b'jP  ', 'ftyp': b'ftyp', 'ihdr': b'ihdr', 'bpcc': b'bpcc', 'colr': b'colr',
    'pclr': b'pclr', 'cmap': b'cmap', 'cdef': b'cdef', 'res': b'res ', 'resc': b'resc',
    'resd': b'resd', 'jp2h': b'jp2h', 'jp2c': b'jp2c', 'jp2i': b'jp2i', 'xml': b'xml ',
    'uuid': b'uuid', 'uinf': b'uinf', 'ulst': b'ulst', 'url': b'url ', 'icc': 'icc',
    'cap': b'\xff\x50', 'siz': b'\xff\x51', 'cod': b'\xff\x52', 'coc': b'\xff\x53',
    'tlm': b'\xff\x55', 'prf': b'\xff\x56', 'plm': b'\xff\x57', 'plt': b'\xff\x58',
    'cpf': b'\xff\x59', 'qcd': b'\xff\x5c', 'qcc': b'\xff\x5d', 'rgn': b'\xff\x5e',
    'poc': b'\xff\x5f', 'ppm': b'\xff\x60', 'ppt': b'\xff\x61', 'crg': b'\xff\x63',
    'com': b'\xff\x64', 'tilePart': b'\xff\x90', 'sot': 'startOfTile',
}


def options(fmt='jp2', verbose=True, nullxml=False, packetmarkers=False):
    return {'validationFormat': fmt, 'verboseFlag': verbose, 'nullxmlFlag': nullxml,
            'packetmarkersFlag': packetmarkers}


def validator(opts, kind, contents, startOffset=None, components=None):
    t = TYPES[kind] if type(kind) == str and kind in TYPES else kind
    return boxvalidator.BoxValidator(opts, t, contents, startOffset, components)


def run(opts, kind, contents, startOffset=None, components=None):
    v = validator(opts, kind, contents, startOffset, components)
    return v.validate()


def leaves(ctx, elem):
    """[(present, tag, value)] of the children that have no children of their own."""
    out = []
    for g, c in ctx.tree(elem):
        if len(ctx.tree(c)) == 0:
            out.append((g, c.tag, c.text))
    return out


def subtrees(ctx, elem, tag=None):
    out = []
    for g, c in ctx.tree(elem):
        if len(ctx.tree(c)) > 0 and (tag is None or c.tag == tag):
            out.append((g, c))
    return out


def same_value(a, b):
    """Equal as reported values: same kind of value and equal."""
    if a is ANY or b is ANY:
        return True
    if a is None or b is None:
        return a is b
    if type(a) != type(b):
        return False
    return a == b


def seqs(items):
    """Group [(present, tag, value)] by tag; absent ones are dropped (deciding presence)."""
    out = {}
    order = []
    for g, tag, v in items:
        if g is True or g:
            if tag not in out:
                out[tag] = []
                order.append(tag)
            out[tag].append(v)
    return out, order


def check_values(ctx, what, actual, expected):
    """actual: [(present, tag, value)]; expected: [(tag, value)].  Values of one tag must be
    the same sequence; tags may be interleaved in any way."""
    a, oa = seqs(actual)
    e, oe = seqs([(True, t, v) for t, v in expected])
    for t in oa:
        if t not in e:
            ctx.check('%s: unexpected %s' % (what, t), False)
    for t in oe:
        if t not in a:
            ctx.check('%s: missing %s' % (what, t), False)
            continue
        ctx.check('%s: number of %s' % (what, t), len(a[t]) == len(e[t]))
        for k in range(min(len(a[t]), len(e[t]))):
            ctx.check('%s: %s' % (what, t), same_value(a[t][k], e[t][k]))


def check_tests(ctx, elem, expected, verbose):
    """Tests reported by elem against [(name, holds)]."""
    acts = leaves(ctx, elem)
    if verbose:
        check_values(ctx, 'test', acts, expected)
        return
    # terse output: exactly the failed tests, each reported as False
    names = []
    for g, t, v in acts:
        if t not in names:
            names.append(t)
    for t, c in expected:
        if t not in names:
            names.append(t)
    for t in names:
        n = 0
        for g, tag, v in acts:
            if tag == t:
                n = n + (1 if g else 0)
                ctx.check('terse test value: %s' % t, not g or v is False)
        m = 0
        known = True
        for tag, c in expected:
            if tag == t:
                if c is ANY:
                    known = False
                else:
                    m = m + (0 if c else 1)
        if known:
            ctx.check('terse tests: %s' % t, n == m)


def check_props(ctx, elem, expected):
    check_values(ctx, 'property', leaves(ctx, elem), expected)


def no_subtrees(ctx, what, elem):
    for g, c in subtrees(ctx, elem):
        ctx.check('%s: no nested element %s' % (what, c.tag), not g)


def warnings_of(ctx, elem):
    return [(g, v) for g, t, v in leaves(ctx, elem)]


def observe(ctx, v):
    ctx.observe('tests', v.tests)
    ctx.observe('characteristics', v.characteristics)
