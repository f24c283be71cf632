"""Harnesses for the byte conversion layer and the readable report."""
import unicodedata
from jpylyzer import byteconv as bc
from spec.util import rd

READERS = {'bytesToULongLong': (8, False), 'bytesToUInt': (4, False),
           'bytesToUShortInt': (2, False), 'bytesToUnsignedChar': (1, False),
           'bytesToSignedChar': (1, True)}


def integers(ctx, lengths):
    name = ctx.choose('function', sorted(READERS))
    n = ctx.choose('length', lengths)
    b = ctx.bytes('b', n)
    size, signed = READERS[name]
    r = getattr(bc, name)(b)
    ctx.observe('result', r)
    want = rd(b, 0, size, signed) if n == size else -9999
    ctx.check('%s gives the big-endian value' % name, r == want)
    ctx.check('%s gives an integer' % name, type(r) == int)


def anyinteger(ctx, lengths):
    n = ctx.choose('length', lengths)
    b = ctx.bytes('b', n)
    r = bc.bytesToInteger(b)
    ctx.observe('result', r)
    ctx.check('value of all bytes', r == (int.from_bytes(b, 'big') if n > 0 else -9999))


def hexa(ctx, lengths):
    n = ctx.choose('length', lengths)
    b = ctx.bytes('b', n)
    r = bc.bytesToHex(b)
    ctx.observe('result', r)
    digits = b'0123456789abcdef'
    ctx.check('two digits per byte', len(r) == 2 * n)
    for k in range(n):
        for x in range(16):
            ctx.check('high digit', (b[k] // 16 == x) == (r[2 * k] == digits[x]))
            ctx.check('low digit', (b[k] % 16 == x) == (r[2 * k + 1] == digits[x]))


def is_control(x):
    return x < 32 or x == 127


def controls(ctx, lengths):
    n = ctx.choose('length', lengths)
    b = ctx.bytes('b', n)
    r = bc.containsControlCharacters(b)
    ctx.observe('result', r)
    want = False
    for x in b:
        want = want or is_control(x)
    ctx.check('control characters are recognised', bool(r) == want)
    s = bc.removeNullTerminator(b)
    ctx.observe('stripped', s)
    k = n
    while k > 0 and b[k - 1] == 0:
        k = k - 1
    ctx.check('null bytes are removed from the end only', s == b[0:k])


def allowed(c):
    return c in '\t\n\r' or unicodedata.category(c) not in ('Cc', 'Cf', 'Cs', 'Co', 'Cn')


def text(ctx, lengths, lo=0, hi=255):
    n = ctx.choose('length', lengths)
    b = ctx.bytes('b', n)
    for x in b:
        ctx.assume(x >= lo)
        ctx.assume(x <= hi)
    r = bc.bytesToText(b)
    ctx.observe('result', r)
    ctx.check('text is a string', type(r) == str)
    try:
        s = b.decode('utf-8', 'strict')
    except UnicodeDecodeError:
        ctx.check('undecodable bytes give no text', r == '')
        return
    want = ''.join([c for c in s if allowed(c)])
    ctx.check('text without control characters', r == want)


def strip_text(ctx, lengths):
    """removeControlCharacters on strings of arbitrary code points."""
    n = ctx.choose('length', lengths)
    s = ''.join([chr(ctx.int('c%d' % k, 0, 0x10ffff)) for k in range(n)])
    r = bc.removeControlCharacters(s)
    ctx.observe('result', r)
    ctx.check('control characters are removed', r == ''.join([c for c in s if allowed(c)]))
