"""Harnesses for the readable report."""
from jpylyzer import etpatch as ET
from jpylyzer import jpylyzer
from jpylyzer import byteconv as bc
from spec import report as SP
from .convert import allowed


def readable(tag, value, remap=True):
    root = ET.Element('properties')
    root.appendChildTagWithText(tag, value)
    if remap:
        root.makeHumanReadable(jpylyzer.generatePropertiesRemapTable())
    else:
        root.makeHumanReadable()
    return root


def child(ctx, root, tag):
    kids = ctx.tree(root)
    ctx.check('one child', len(kids) == 1)
    ctx.check('name kept', kids[0][0] and kids[0][1].tag == tag)
    return kids[0][1].text


def integers(ctx, tags, lo=-9999, hi=2 ** 32):
    tag = ctx.choose('tag', tags or sorted(list(SP.TEXTS) + SP.PLAIN))
    v = ctx.int('value', lo, hi)
    t = child(ctx, readable(tag, v), tag)
    ctx.observe('text', t)
    want = SP.described(tag, v)
    ctx.check('integer of %s' % tag, t == (str(v) if want is None else want))


def names(ctx, lengths):
    tag = ctx.choose('tag', sorted(list(SP.BYTES) + SP.PLAINBYTES))
    n = ctx.choose('length', lengths)
    v = ctx.bytes('value', n)
    for x in v:                    # multi-byte text is covered by the conversions (C24)
        ctx.assume(x < 128)
    t = child(ctx, readable(tag, v), tag)
    ctx.observe('text', t)
    want = SP.described_bytes(tag, v)
    if want is None:
        want = ''.join([chr(x) for x in v if x >= 32 and x != 127 or x == 9 or x == 10 or x == 13])
    ctx.check('bytes of %s' % tag, t == want)


FLOATS = [0.0, 1.5, 123456.78, -2.25, 1e22, 1e-5, 3e300, 29.94]


def kinds(ctx):
    """Values of every type, under names with and without descriptions."""
    tag = ctx.choose('tag', ['compressionRatio', 'order', 'isValid', 'unknownProperty'])
    kind = ctx.choose('kind', ['bool', 'float', 'str', 'none', 'big', 'negative'])
    remap = ctx.choose('remap', [True, False])
    if kind == 'bool':
        v = ctx.bool('b')
        if tag == 'order' and remap:
            return
        want = 'True' if v else 'False'
    elif kind == 'float':
        v = ctx.choose('f', FLOATS)
        if tag == 'order' and remap:
            return
        want = repr(v)
    elif kind == 'str':
        v = ''.join([chr(ctx.int('c%d' % k, 0, 0x10ffff)) for k in range(2)])
        want = ''.join([c for c in v if allowed(c)])
    elif kind == 'none':
        v = None
        want = None
    elif kind == 'big':
        v = 7 ** 6000
        want = None
    else:
        v = ctx.int('i', -2 ** 40, -1)
        want = str(v)
    t = child(ctx, readable(tag, v, remap), tag)
    ctx.observe('text', t if kind != 'big' else None)
    if kind == 'big':
        ctx.check('huge integer', len(t) == 5071 and t[0:12] == '387471786866')
    elif want is None:
        ctx.check('no text', t is None)
    else:
        ctx.check('text of a %s' % kind, t == want)


def tree(ctx):
    """Nested elements: nothing is added, lost, renamed or reordered."""
    root = ET.Element('properties')
    sub = ET.Element('cod')
    n = ctx.choose('children', [0, 1, 3])
    vals = [ctx.int('v%d' % k, -1, 6) for k in range(n)]
    names = ['order', 'layers', 'order']
    for k in range(n):
        sub.appendChildTagWithText(names[k], vals[k])
    inner = ET.Element('xmlBox')
    inner.text = b'ab\x01c'
    sub.append(inner)
    root.append(sub)
    root.appendChildTagWithText('layers', ctx.int('last', 0, 9))
    root.makeHumanReadable(jpylyzer.generatePropertiesRemapTable())
    ctx.observe('root', root)
    kids = ctx.tree(root)
    ctx.check('children of the root', [c.tag for g, c in kids] == ['cod', 'layers'])
    ctx.check('empty text stays empty', root.text is None and kids[0][1].text is None)
    sk = ctx.tree(kids[0][1])
    ctx.check('children', [c.tag for g, c in sk] == names[0:n] + ['xmlBox'])
    for k in range(n):
        want = SP.described(names[k], vals[k])
        ctx.check('nested value', sk[k][1].text == (str(vals[k]) if want is None else want))
    ctx.check('nested bytes', sk[n][1].text == 'abc')


def sequence(ctx):
    """Several values in one report: each has the text it has on its own."""
    root = ET.Element('properties')
    want = []
    for k in range(2):
        tag = ctx.choose('tag %d' % k, ['layers', 'order', 'isValid'])
        kind = ctx.choose('kind %d' % k, ['int', 'bool', 'float', 'str', 'bytes'])
        v = ctx.int('v%d' % k, -1, 2)
        text = str(v)
        if kind == 'bool':
            v = v == 1
            if tag == 'order':
                tag = 'layers'
            text = 'True' if v else 'False'
        elif kind == 'float':
            v = 1.0 if v == 1 else 0.0
            if tag == 'order':
                tag = 'layers'
            text = '1.0' if v == 1.0 else '0.0'
        elif kind == 'str':
            v = '1' if v == 1 else '0'
            text = v
        elif kind == 'bytes':
            text = '1' if v == 1 else '0'
            v = b'1' if v == 1 else b'0'
        elif tag == 'order' and SP.described(tag, v) is not None:
            text = SP.described(tag, v)
        root.appendChildTagWithText(tag, v)
        want.append((tag, text))
    root.makeHumanReadable(jpylyzer.generatePropertiesRemapTable())
    ctx.observe('root', root)
    got = ctx.tree(root)
    ctx.check('number', len(got) == 2)
    for k in range(min(2, len(got))):
        ctx.check('name', got[k][1].tag == want[k][0])
        ctx.check('text', got[k][1].text == want[k][1])


def legal(ctx, lengths, isbytes):
    """No text of the report contains a character that XML forbids."""
    n = ctx.choose('length', lengths)
    if isbytes:
        v = ctx.bytes('value', n)
    else:
        v = ''.join([chr(ctx.int('c%d' % k, 0, 0x10ffff)) for k in range(n)])
    t = child(ctx, readable('comment', v), 'comment')
    for ch in t:
        o = ord(ch)
        ctx.check('legal XML character', o == 9 or o == 10 or o == 13 or 32 <= o <= 0xd7ff or
                  0xe000 <= o <= 0xfffd or o >= 0x10000)
