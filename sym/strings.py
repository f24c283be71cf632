"""Symbolic text: sequences of literal text, symbolic code points and formatted values."""
import re
import unicodedata
import z3
from . import engine as E
from .values import (Sym, SymInt, SymBool, SymBytes, SymFloat, Union, mkbool, mkint, mkbytes,
                     zand, zor, znot, zb, eng, not_, truth, eq, clamp_index, from_bytes, _b8)


def cp_item(x):
    return x


WHITE = ''.join(chr(k) for k in range(0x3001) if chr(k).isspace())


class SymStr(Sym):
    """pieces: str | ('c', SymInt codepoint) | ('i', SymInt, spec) | ('f', SymFloat, spec)
    | ('b', SymBool) | ('t', name, operand)."""
    __slots__ = ('p',)
    pytype = str

    def __init__(self, pieces):
        self.p = pieces

    def __repr__(self):
        return 'SymStr(%r)' % (self.p,)

    def charwise(self):
        return all(isinstance(x, str) or x[0] == 'c' for x in self.p)

    def chars(self):
        if not self.charwise():
            return None
        out = []
        for x in self.p:
            if isinstance(x, str):
                out += [ord(c) for c in x]
            else:
                out.append(x[1])
        return out

    def concrete(self):
        out = []
        for x in self.p:
            if isinstance(x, str):
                out.append(x)
            elif x[0] == 'c':
                out.append(chr(x[1].concrete()))
            elif x[0] == 'i':
                out.append(format(x[1].concrete(), x[2]))
            elif x[0] == 'b':
                out.append(str(bool(x[1])))
            elif x[0] == 't' and isinstance(x[2], SymBytes):
                eng().approx = True
                out.append(x[2].concrete().decode('utf-8', 'replace'))
            else:
                raise E.Unsupported("concretising text piece %r" % (x[0],))
        return ''.join(out)

    def __hash__(self):
        return hash(self.concrete())

    def __symtruth__(self):
        for x in self.p:
            if isinstance(x, str) and x:
                return True
            if x[0] in 'cifb':
                return True
        c = [x[2] for x in self.p]
        return bool(self.concrete())

    def __bool__(self):
        return bool(self.__symtruth__())

    def __len__(self):
        c = self.allchars()
        if c is None:
            return len(self.concrete())
        return len(c)

    def allchars(self):
        """Code points, with numbers split into digits (their number is decided by forking)."""
        if self.charwise():
            return self.chars()
        out = []
        for x in self.p:
            if isinstance(x, str):
                out += [ord(c) for c in x]
            elif x[0] == 'c':
                out.append(x[1])
            elif x[0] == 'i':
                d = digits(x[1], x[2])
                if d is None:
                    return None
                out += d
            else:
                return None
        return out

    def _pad(self, n, fill, left):
        if isinstance(n, Sym):
            n = n.concrete()
        if len(self.p) == 1 and self.p[0][0] == 'i' and fill == '0' and left and \
                self.p[0][2] in ('', 'd', 'x', 'X', 'b', 'o') and self.p[0][1].lo >= 0:
            return SymStr([('i', self.p[0][1], '0%d%s' % (n, self.p[0][2]))]) if n > 1 else self
        c = self.allchars()
        if c is None:
            return None
        k = max(0, n - len(c)) * fill
        return mkstr([k] + self.p) if left else mkstr(self.p + [k])

    def rjust(self, n, fill=' '):
        r = self._pad(n, fill, True)
        return self.concrete().rjust(n, fill) if r is None else r

    def ljust(self, n, fill=' '):
        r = self._pad(n, fill, False)
        return self.concrete().ljust(n, fill) if r is None else r

    def zfill(self, n):
        c = None
        if all(not isinstance(x, str) and x[0] == 'i' and x[1].lo >= 0 for x in self.p[:1]):
            c = self._pad(n, '0', True)
        elif self.charwise():
            c = self.chars()
            c = None if not c or isinstance(c[0], Sym) or chr(c[0]) in '+-' else self._pad(
                n, '0', True)
        return self.concrete().zfill(n) if c is None else c

    def __iter__(self):
        c = self.allchars()
        if c is None:
            yield from self.concrete()
            return
        for x in c:
            yield mkstr_chars([x])

    def __getitem__(self, i):
        c = self.chars()
        if c is None:
            if isinstance(i, slice) and i.start in (None, 0) and i.step in (None, 1) \
                    and isinstance(i.stop, int) and i.stop < 0 and isinstance(self.p[-1], str) \
                    and len(self.p[-1]) >= -i.stop:
                return mkstr(self.p[:-1] + [self.p[-1][:i.stop]])
            if isinstance(i, slice) and i.stop is None and i.step in (None, 1) \
                    and isinstance(i.start, int) and isinstance(self.p[0], str) \
                    and len(self.p[0]) >= i.start >= 0:
                return mkstr([self.p[0][i.start:]] + self.p[1:])
            c = self.allchars()
            if c is None:
                return self.concrete()[i]
        if isinstance(i, slice):
            n = len(c)
            return mkstr_chars(c[slice(clamp_index(i.start, n), clamp_index(i.stop, n), i.step)])
        if isinstance(i, Sym):
            i = i.concrete()
        return mkstr_chars([c[i]])

    def __add__(self, o):
        if isinstance(o, str):
            return mkstr(self.p + [o])
        if isinstance(o, SymStr):
            return mkstr(self.p + o.p)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr([o] + self.p)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.p * int(n))

    def __eq__(self, o):
        if isinstance(o, Union):
            return NotImplemented
        if isinstance(o, str):
            return str_eq(self.p, [o] if o else [])
        if isinstance(o, SymStr):
            return str_eq(self.p, o.p)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def contains(self, x):
        c = self.chars()
        if c is None or not isinstance(x, (str, SymStr)):
            return x in self.concrete()
        y = [ord(k) for k in x] if isinstance(x, str) else x.chars()
        return mkbool(zor([zb(chars_eq(c[k:k + len(y)], y))
                           for k in range(len(c) - len(y) + 1)]))

    def __contains__(self, x):
        return bool(self.contains(x))

    def startswith(self, pre, *a):
        if isinstance(pre, tuple):
            return mkbool(zor([zb(self.startswith(q)) for q in pre]))
        if isinstance(self.p[0], str) and isinstance(pre, str) and not a:
            if len(self.p[0]) >= len(pre):
                return self.p[0].startswith(pre)
        c = self.chars()
        if c is not None and isinstance(pre, str) and not a:
            return chars_eq(c[:len(pre)], [ord(k) for k in pre])
        return self.concrete().startswith(pre, *a)

    def endswith(self, suf, *a):
        if isinstance(suf, str) and isinstance(self.p[-1], str) and not a \
                and len(self.p[-1]) >= len(suf):
            return self.p[-1].endswith(suf)
        c = self.chars()
        if c is not None and isinstance(suf, str) and not a:
            return len(c) >= len(suf) and chars_eq(c[len(c) - len(suf):], [ord(k) for k in suf])
        return self.concrete().endswith(suf, *a)

    def _strip(self, chars, ends):
        if isinstance(chars, Sym):
            chars = chars.concrete()
        ws = chars if chars is not None else WHITE
        plain = not set(ws) & set('0123456789abcdefABCDEF-+.infTrueFalse')
        p = list(self.p)
        for k in ends:
            while p:
                x = p[k]
                if isinstance(x, str):
                    t = x.lstrip(ws) if k == 0 else x.rstrip(ws)
                    if t:
                        p[k] = t
                        break
                elif x[0] == 'c':
                    if not bool(_in_chars(x[1], ws)):
                        break
                elif plain and (x[0] in 'fb' or x[0] == 'i' and (
                        x[2] in ('', 'd', 'x', 'X') or x[2][0] == '0')):
                    break
                else:
                    t = self.concrete()
                    if len(ends) == 2:
                        return t.strip(chars)
                    return t.lstrip(chars) if ends == (0,) else t.rstrip(chars)
                p.pop(k)
        return mkstr(p)

    def strip(self, chars=None):
        return self._strip(chars, (0, -1))

    def lstrip(self, chars=None):
        return self._strip(chars, (0,))

    def rstrip(self, chars=None):
        return self._strip(chars, (-1,))

    def upper(self):
        return self._case('upper', 'X')

    def lower(self):
        return self._case('lower', 'x')

    def _case(self, m, hx):
        if all(isinstance(x, str) or x[0] == 'i' for x in self.p):
            out = []
            for x in self.p:
                if isinstance(x, str):
                    out.append(getattr(x, m)())
                elif x[2][-1:] in ('x', 'X'):
                    out.append(('i', x[1], x[2][:-1] + hx))
                else:
                    out.append(x)
            return mkstr(out)
        if self.charwise() and all(isinstance(x, str) or x[1].hi < 128 for x in self.p):
            from .values import merge
            lo, hi, by = (65, 90, 32) if m == 'lower' else (97, 122, -32)
            out = []
            for x in self.p:
                if isinstance(x, str):
                    out.append(getattr(x, m)())
                    continue
                c = merge(zand([zb(x[1] >= lo), zb(x[1] <= hi)]), x[1] + by, x[1])
                out.append(('c', c) if isinstance(c, SymInt) else chr(c))
            return mkstr(out)
        return getattr(self.concrete(), m)()

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def join(self, it):
        return join(self, it)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)

        def f(*a, **k):
            a = [x.concrete() if isinstance(x, SymStr) else x for x in a]
            return getattr(self.concrete(), name)(*a, **k)
        return f

    def __format__(self, spec):
        raise E.Unsupported("native formatting of symbolic text")

    def __str__(self):
        raise E.Unsupported("native str() of symbolic text")


_SPEC = re.compile(r'(?:0(\d+))?([dxXbo]?)$')


def digits(v, spec):
    """Code points of format(v, spec) for v >= 0; None if there is no such form."""
    m = _SPEC.match(spec)
    if m is None or v.lo < 0:
        return None
    base = {'x': 16, 'X': 16, 'b': 2, 'o': 8}.get(m.group(2), 10)
    n = max(1, int(m.group(1) or 1))
    while v.hi >= base ** n and bool(v >= base ** n):
        n += 1
    out = []
    for k in reversed(range(n)):
        d = v // base ** k % base if k else v % base
        if not isinstance(d, SymInt):
            out.append(ord(('0123456789ABCDEF' if m.group(2) == 'X' else '0123456789abcdef')[d]))
            continue
        c = d + 48
        if base == 16 and d.hi > 9:
            from .values import merge
            c = merge(zb(d > 9), d + (55 if m.group(2) == 'X' else 87), c)
        out.append(c)
    return out


def parse_digits(x, base):
    """int(x, base) of symbolic text; None if it has to be decided otherwise."""
    c = x.allchars()
    if not c or base not in (2, 8, 10, 16) or len(c) > 40:
        return None
    from .values import merge
    r = 0
    for k in c:
        if not isinstance(k, SymInt):
            t = chr(k)
            if t not in '0123456789abcdefABCDEF'[:base if base <= 10 else 22]:
                return None
            r = r * base + int(t, 16)
            continue
        if not bool(mkbool(zand([zb(k >= 48), zb(k <= 47 + min(base, 10))]))):
            if base != 16 or not bool(_in_chars(k, 'abcdefABCDEF')):
                return None
            d = merge(zb(k >= 97), k - 87, k - 55)
        else:
            d = k - 48
        r = r * base + d
    return r


def _in_chars(x, s):
    if isinstance(x, int):
        return chr(x) in s
    return mkbool(zor([zb(x == ord(k)) for k in s]))


def mkstr(pieces):
    out = []
    for x in pieces:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        elif x[0] == 'c' and isinstance(x[1], int):
            if out and isinstance(out[-1], str):
                out[-1] += chr(x[1])
            else:
                out.append(chr(x[1]))
        else:
            out.append(x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def mkstr_chars(cps):
    return mkstr([('c', c) for c in cps])


def chars_eq(a, b):
    if len(a) != len(b):
        return False
    return mkbool(zand([zb(truth(eq(x, y))) for x, y in zip(a, b)]))


def piece_eq(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    if x[0] != y[0]:
        return False
    if x[0] == 'c':
        return eq(x[1], y[1])
    if x[0] in 'if':
        if x[2] != y[2]:
            return False
        return eq(x[1], y[1])
    if x[0] == 'b':
        return eq(x[1], y[1])
    return x[1] == y[1] and eq(x[2], y[2])


def str_eq(a, b):
    ca, cb = SymStr(a).chars(), SymStr(b).chars()
    if ca is not None and cb is not None:
        return chars_eq(ca, cb)
    if len(a) == len(b):
        r = [zb(truth(piece_eq(x, y))) for x, y in zip(a, b)]
        if all(isinstance(x, str) == isinstance(y, str) for x, y in zip(a, b)):
            return mkbool(zand(r))
    # literal beginnings and ends decide most comparisons
    pa, pb = (x[0] if x and isinstance(x[0], str) else '' for x in (a, b))
    k = min(len(pa), len(pb))
    if pa[:k] != pb[:k]:
        return False
    pa, pb = (x[-1] if x and isinstance(x[-1], str) else '' for x in (a, b))
    k = min(len(pa), len(pb))
    if k and pa[-k:] != pb[-k:]:
        return False
    lit = b if cb is not None and all(isinstance(x, str) for x in b) else None
    oth = a
    if lit is None and ca is not None and all(isinstance(x, str) for x in a):
        lit, oth = a, b
    if lit is not None:
        s = ''.join(lit)
        # every literal piece must occur in order
        pos = 0
        for x in oth:
            if isinstance(x, str):
                k = s.find(x, pos)
                if k < 0:
                    return False
                pos = k + len(x)
        if isinstance(oth[0], str) and not s.startswith(oth[0]):
            return False
        if isinstance(oth[-1], str) and not s.endswith(oth[-1]):
            return False
        if len(oth) == 1 and oth[0][0] == 'i' and oth[0][2] == '':
            try:
                v = int(s)
            except ValueError:
                return False
            return eq(oth[0][1], v) if str(v) == s else False
        if len(oth) == 1 and oth[0][0] == 'b':
            return (oth[0][1] if s == 'True' else not_(oth[0][1])) if s in (
                'True', 'False') else False
        if not s:
            return not any(isinstance(x, str) or x[0] in 'cifb' for x in oth) and \
                SymStr(oth).concrete() == ''
        ce = SymStr(oth).allchars()
        if ce is not None:
            return chars_eq(ce, [ord(c) for c in s])
        return SymStr(oth).concrete() == s
    if ca is not None or cb is not None:
        ca, cb = SymStr(a).allchars(), SymStr(b).allchars()
        if ca is not None and cb is not None:
            return chars_eq(ca, cb)
    ea, eb = expand(a), expand(b)
    if ea is not None and eb is not None and len(ea) * len(eb) <= 70000:
        return mkbool(zor([zand([g, h]) for g, x in ea for h, y in eb if x == y]))
    raise E.Unsupported("comparison of differently shaped texts %r %r" % (a, b))


def expand(p):
    """[(guard, text)] if every piece is a number (or truth value) of few possible values."""
    out = [([], '')]
    for x in p:
        if isinstance(x, str):
            alts = [(None, x)]
        elif x[0] == 'i' and x[1].hi - x[1].lo <= 300:
            alts = [(zb(truth(eq(x[1], v))), format(v, x[2]))
                    for v in range(x[1].lo, x[1].hi + 1)]
        elif x[0] == 'b':
            alts = [(zb(x[1]), 'True'), (zb(not_(x[1])), 'False')]
        else:
            return None
        out = [(g + ([h] if h is not None else []), s + t) for g, s in out for h, t in alts]
        if len(out) > 5000:
            return None
    return [(zand(g), s) for g, s in out]


def tostr(x):
    """str(x) for any symbolic x."""
    if isinstance(x, (SymStr, str)):
        return x
    if isinstance(x, SymBool):
        return SymStr([('b', x)])
    if isinstance(x, SymInt):
        return SymStr([('i', x, '')])
    if isinstance(x, SymFloat):
        return SymStr([('f', x, '')])
    if isinstance(x, Union):
        from .values import merge
        alts = [(g, tostr(v)) for g, v in x.alts]
        r = alts[-1][1]
        for g, v in reversed(alts[:-1]):
            r = merge(g, v, r)
        return r
    if hasattr(x, '__symstr__'):
        return x.__symstr__()
    if isinstance(x, SymBytes):
        return repr(x.concrete())
    return str(x)


def fmt(x, spec=''):
    """format(x, spec)."""
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if not isinstance(x, Sym):
        if hasattr(x, '__symstr__') and not spec:
            return x.__symstr__()
        return format(x, spec)
    if isinstance(x, SymStr):
        if spec in ('', 's'):
            return x
        return format(x.concrete(), spec)
    if isinstance(x, SymBool):
        if spec == '':
            return tostr(x)
        x = x.asint()
        if not isinstance(x, SymInt):
            return format(x, spec)
    if isinstance(x, SymInt):
        if spec == 'd':
            spec = ''
        if spec[-1:] in 'eEfFgG%' and spec:
            from .values import tofloat
            return SymStr([('f', tofloat(x), spec)])
        if spec[-1:] == 's':
            raise ValueError("Unknown format code 's' for object of type 'int'")
        if spec == 'c':
            return mkstr_chars([x])
        if spec in ('#x', '#X', '#b', '#o') and x.lo >= 0:
            return SymStr(['0' + spec[1:], ('i', x, spec[1:])])
        return SymStr([('i', x, spec)])
    if isinstance(x, SymFloat):
        return SymStr([('f', x, spec)])
    if isinstance(x, SymBytes):
        return format(x.concrete(), spec)
    raise E.Unsupported("format")


def str_format(f, args, kwargs):
    import string
    if isinstance(f, SymStr):
        f = f.concrete()
    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if name is None:
            continue
        if name == '':
            v = args[auto]
            auto += 1
        else:
            import re
            m = re.match(r'^([^.\[]*)(.*)$', name)
            base, rest = m.group(1), m.group(2)
            v = args[int(base)] if base.isdigit() else kwargs[base]
            for a, i in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
                v = getattr(v, a) if a else v[int(i) if i.isdigit() else i]
        if spec and '{' in spec:
            # nested fields
            sub = []
            for l2, n2, s2, c2 in string.Formatter().parse(spec):
                sub.append(l2)
                if n2 is not None:
                    if n2 == '':
                        w = args[auto]
                        auto += 1
                    else:
                        w = args[int(n2)] if n2.isdigit() else kwargs[n2]
                    sub.append(format(int(w) if isinstance(w, SymInt) else w, s2 or ''))
            spec = ''.join(sub)
        if conv == 's':
            v = tostr(v)
        elif conv == 'r':
            v = repr(v.concrete() if isinstance(v, Sym) else v)
        r = fmt(v, spec or '')
        out += r.p if isinstance(r, SymStr) else [r]
    return mkstr(out)


def str_mod(f, args):
    import re
    if isinstance(f, SymStr):
        f = f.concrete()
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    k = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, wid, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[0][key]
        else:
            if wid == '*':
                wid = str(int(args[k]))
                k += 1
            v = args[k]
            k += 1
        if isinstance(v, Union):
            v = v.resolve()
        if not isinstance(v, Sym):
            out.append(('%' + flags + (wid or '') + ('.' + prec if prec else '') + ty) % (v,))
            continue
        if ty in 'diu':
            ty = ''
            if isinstance(v, SymFloat):
                v = v.__trunc__()
        elif ty == 's':
            v = tostr(v)
            ty = ''
        elif ty == 'r':
            v = tostr(v) if not isinstance(v, (SymStr, SymBytes)) else repr(v.concrete())
            ty = ''
        sp = ('0' if '0' in flags else '') + (wid or '') + ('.' + prec if prec else '') + ty
        if '#' in flags:
            sp = '#' + sp
        r = fmt(v, sp)
        out += r.p if isinstance(r, SymStr) else [r]
    out.append(f[pos:])
    return mkstr(out)


def join(sep, it):
    out = []
    first = True
    for x in it:
        if not first:
            out += sep.p if isinstance(sep, SymStr) else [sep]
        first = False
        if isinstance(x, Union):
            x = x.resolve()
        if isinstance(x, SymStr):
            out += x.p
        elif isinstance(x, str):
            out.append(x)
        else:
            raise TypeError("sequence item: expected str instance, %s found"
                            % getattr(type(x), 'pytype', type(x)).__name__)
    return mkstr(out)


# ------------------------------------------------------------------ bytes <-> text
class HexBytes(SymBytes):
    """ASCII hex digits of another byte string (remembers it)."""
    __slots__ = ('src',)


def nib(e):
    """ASCII code (8 bit) of the 4-bit value e."""
    z = z3.ZeroExt(4, e)
    return z3.If(z3.ULT(e, 10), z + 48, z + 87)


def hex_items(b):
    out = []
    for x in b.items:
        if isinstance(x, int):
            out += list(b'%02x' % x)
        else:
            out += [nib(z3.Extract(7, 4, x)), nib(z3.Extract(3, 0, x))]
    return out


def hexlify(b):
    if not isinstance(b, SymBytes):
        import binascii
        return binascii.hexlify(b)
    h = HexBytes(hex_items(b))
    h.src = b
    return h


class HexStr(SymStr):
    __slots__ = ('src',)


def hexstr(b):
    h = HexStr([('c', SymInt(z3.ZeroExt(1, i), 0, 255)) if not isinstance(i, int) else chr(i)
                for i in hex_items(b)])
    h.src = b
    return h


_SBCS = {}


def single_byte_table(enc):
    """code point (or None) of each byte for a single-byte codec; None if it is not one."""
    if enc not in _SBCS:
        t = None
        if enc.startswith(('iso', 'latin', 'cp12', 'cp437', 'cp85', 'windows-12', 'l9', 'koi8')):
            t = []
            for k in range(256):
                try:
                    s = bytes([k]).decode(enc)
                    t.append(ord(s) if len(s) == 1 else None)
                except UnicodeDecodeError:
                    t.append(None)
            try:
                if bytes(range(65, 91)).decode(enc) != ''.join(map(chr, range(65, 91))) or \
                        len(b'AAAA'.decode(enc)) != 4 or None in t[:128]:
                    t = None
            except (UnicodeError, LookupError):
                t = None
        _SBCS[enc] = t
    return _SBCS[enc]


def decode_table(b, t, enc):
    out = []
    n = len(b.items)
    runs = []                       # (first, last, delta)
    for k in range(256):
        d = None if t[k] is None else t[k] - k
        if runs and runs[-1][2] == d:
            runs[-1][1] = k
        else:
            runs.append([k, k, d])
    lo, hi = min(x for x in t if x is not None), max(x for x in t if x is not None)
    for i in range(n):
        x = b.at(i)
        if isinstance(x, int):
            if t[x] is None:
                raise UnicodeDecodeError(enc, b'\0' * n, i, i + 1, 'undefined')
            out.append(t[x])
            continue
        for a, z, d in runs:
            if d is None and bool((x >= a) & (x <= z)):
                raise UnicodeDecodeError(enc, b'\0' * n, i, i + 1, 'undefined')
        from .values import fit, mkint, width
        w = max(width(lo, hi), 10)
        e = fit(x.e, w)
        main = max(runs, key=lambda r: (r[1] - r[0]) if r[2] is not None else -1)
        r = e + main[2]
        for a, z, d in runs:
            if d is not None and d != main[2]:
                r = z3.If(z3.And(e >= a, e <= z), e + d, r)
        out.append(mkint(z3.simplify(r), lo, hi))
    return mkstr_chars(out)


def decode(b, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if enc in ('utf8',):
        enc = 'utf-8'
    n = len(b.items)
    if enc in ('latin-1', 'iso-8859-1', 'latin1', 'iso8859-1'):
        return mkstr_chars([b.at(i) for i in range(n)])
    table = single_byte_table(enc) if enc not in ('utf-8', 'ascii', 'us-ascii') else None
    if table is not None and (errors == 'strict' or None not in table):
        return decode_table(b, table, enc)
    if isinstance(b, HexBytes):
        h = HexStr([('c', b.at(i)) if not isinstance(b.items[i], int) else chr(b.items[i])
                    for i in range(n)])
        h.src = b.src
        return h
    if errors != 'strict' or enc not in ('utf-8', 'ascii', 'us-ascii'):
        if errors in ('ignore', 'replace') and enc in ('ascii', 'us-ascii'):
            out = []
            for i in range(n):
                x = b.at(i)
                if bool(x < 128):
                    out.append(x)
                elif errors == 'replace':
                    out.append(0xFFFD)
            return mkstr_chars(out)
        eng().approx = True
        return b.concrete().decode(encoding, errors)

    def bad(i, why):
        raise UnicodeDecodeError(enc, b'\0' * n, i, i + 1, why)
    out = []
    i = 0
    while i < n:
        x = b.at(i)
        if bool(x < 0x80):
            out.append(x if isinstance(x, int) else SymInt(x.e, 0, 127))
            i += 1
            continue
        if enc != 'utf-8':
            bad(i, 'ordinal not in range(128)')
        if bool(x < 0xC2) or bool(x > 0xF4):
            bad(i, 'invalid start byte')
        k = 1 if bool(x < 0xE0) else 2 if bool(x < 0xF0) else 3
        lo2, hi2 = 0x80, 0xBF
        if i + 1 >= n:
            bad(i, 'unexpected end of data')
        y = b.at(i + 1)
        if k == 2:
            ok = zor([zand([zb(x == 0xE0), zb(y >= 0xA0), zb(y <= 0xBF)]),
                      zand([zb(x == 0xED), zb(y >= 0x80), zb(y <= 0x9F)]),
                      zand([zb(x != 0xE0), zb(x != 0xED), zb(y >= 0x80), zb(y <= 0xBF)])])
        elif k == 3:
            ok = zor([zand([zb(x == 0xF0), zb(y >= 0x90), zb(y <= 0xBF)]),
                      zand([zb(x == 0xF4), zb(y >= 0x80), zb(y <= 0x8F)]),
                      zand([zb(x != 0xF0), zb(x != 0xF4), zb(y >= 0x80), zb(y <= 0xBF)])])
        else:
            ok = zand([zb(y >= lo2), zb(y <= hi2)])
        if not mkbool(ok):
            bad(i, 'invalid continuation byte')
        cp = (x & (0x1F if k == 1 else 0x0F if k == 2 else 0x07)) << 6 | (y & 0x3F)
        for j in range(2, k + 1):
            if i + j >= n:
                bad(i, 'unexpected end of data')
            z = b.at(i + j)
            if not mkbool(zand([zb(z >= 0x80), zb(z <= 0xBF)])):
                bad(i, 'invalid continuation byte')
            cp = cp << 6 | (z & 0x3F)
        lo, hi = ((0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF))[k - 1]
        out.append(SymInt(cp.e, lo, hi) if isinstance(cp, SymInt) else cp)
        i += k + 1
    return mkstr_chars(out)


def encode(s, encoding, errors):
    c = s.chars()
    enc = encoding.lower().replace('_', '-')
    if c is None:
        return s.concrete().encode(encoding, errors)
    out = []
    for i, x in enumerate(c):
        if isinstance(x, int):
            out += list(chr(x).encode(encoding, errors))
            continue
        if enc in ('utf-8', 'utf8'):
            if bool(x < 0x80):
                out.append(_item(x))
            elif bool(x < 0x800):
                out += [_item((x >> 6) | 0xC0), _item((x & 0x3F) | 0x80)]
            elif bool(x < 0x10000):
                if mkbool(zand([zb(x >= 0xD800), zb(x <= 0xDFFF)])):
                    if errors == 'ignore':
                        continue
                    if errors == 'replace':
                        out.append(ord('?'))
                        continue
                    if errors == 'strict':
                        raise UnicodeEncodeError('utf-8', 'x' * len(c), i, i + 1,
                                                 'surrogates not allowed')
                    if errors != 'surrogatepass':
                        raise E.Unsupported("encode errors=%s" % errors)
                out += [_item((x >> 12) | 0xE0), _item(((x >> 6) & 0x3F) | 0x80),
                        _item((x & 0x3F) | 0x80)]
            else:
                out += [_item((x >> 18) | 0xF0), _item(((x >> 12) & 0x3F) | 0x80),
                        _item(((x >> 6) & 0x3F) | 0x80), _item((x & 0x3F) | 0x80)]
        elif enc in ('ascii', 'us-ascii', 'latin-1', 'iso-8859-1'):
            lim = 0x80 if enc.endswith('ascii') else 0x100
            if bool(x < lim):
                out.append(_item(x))
            elif errors == 'ignore':
                continue
            elif errors == 'replace':
                out.append(ord('?'))
            else:
                raise UnicodeEncodeError(enc, 'x' * len(c), i, i + 1, 'ordinal not in range')
        else:
            return s.concrete().encode(encoding, errors)
    return mkbytes(out)


def _item(x):
    from .values import byteitem
    if isinstance(x, int):
        return x
    e = x.e
    e = z3.Extract(7, 0, e) if e.size() >= 8 else z3.ZeroExt(8 - e.size(), e)
    return byteitem(z3.simplify(e))


# ------------------------------------------------------------------ unicode categories
_CAT = {}


def cat_ranges(pred):
    """Intervals of code points whose category satisfies pred (cached by key)."""
    out = []
    start = None
    for cp in range(0x110000):
        if pred(unicodedata.category(chr(cp))):
            if start is None:
                start = cp
        elif start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return out


def cat_pred(cp, key, pred):
    if key not in _CAT:
        _CAT[key] = cat_ranges(pred)
    if isinstance(cp, int):
        return any(a <= cp <= b for a, b in _CAT[key])
    conds = []
    for a, b in _CAT[key]:
        if b < cp.lo or a > cp.hi:
            continue
        conds.append(zand([zb(cp >= a), zb(cp <= b)]))
    return mkbool(zor(conds))


class Category(Sym):
    """unicodedata.category of a symbolic code point."""
    __slots__ = ('cp', 'k')
    pytype = str

    def __init__(self, cp, k=None):
        self.cp = cp
        self.k = k          # None: both letters, 0: first, 1: second

    def __getitem__(self, i):
        if self.k is None and i in (0, 1):
            return Category(self.cp, i)
        return self.concrete()[i]

    def concrete(self):
        for c in ('Cc', 'Cf', 'Cs', 'Co', 'Cn', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Mc', 'Me',
                  'Nd', 'Nl', 'No', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Sm', 'Sc', 'Sk',
                  'So', 'Zs', 'Zl', 'Zp'):
            if bool(cat_pred(self.cp, c, lambda x, c=c: x == c)):
                return c if self.k is None else c[self.k]
        raise E.Infeasible()

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        k = self.k
        return cat_pred(self.cp, (k, o), (lambda c: c == o) if k is None
                        else (lambda c: c[k] == o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(self.concrete())

    def contains(self, x):
        return x in self.concrete()

    def startswith(self, p):
        if self.k is None and isinstance(p, str) and len(p) == 1:
            return Category(self.cp, 0) == p
        return self.concrete().startswith(p)

    def __len__(self):
        return 2 if self.k is None else 1

    def __iter__(self):
        return iter(self.concrete())
