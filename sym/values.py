"""Symbolic values.  SymInt are exact mathematical integers (adaptive-width signed
bit-vectors carrying an interval), so Python's unbounded ints are not wrapped."""
import math
import z3
from . import engine as E

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def eng():
    return E.CUR


# ---------------------------------------------------------------- booleans
def zb(x):
    """z3 Bool of a bool-like."""
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, SymBool):
        return x.e
    if z3.is_bool(x) if isinstance(x, z3.ExprRef) else False:
        return x
    raise E.Unsupported("zb(%r)" % type(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def truth(x):
    """Truth value as SymBool/bool without forking (forks for odd types)."""
    if x is True or x is False or x is None:
        return bool(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymFloat):
        return x != 0
    if isinstance(x, Union):
        return mkbool(zor([zand([g, zb(truth(v))]) for g, v in x.alts]))
    if isinstance(x, SymBytes):
        return len(x.items) > 0
    if hasattr(type(x), '__symtruth__'):
        return x.__symtruth__()
    return bool(x)


def zand(l):
    l = [a for a in l if not z3.is_true(a)]
    if not l:
        return TRUE
    for a in l:
        if z3.is_false(a):
            return FALSE
    return l[0] if len(l) == 1 else z3.And(*l)


def zor(l):
    l = [a for a in l if not z3.is_false(a)]
    if not l:
        return FALSE
    for a in l:
        if z3.is_true(a):
            return TRUE
    return l[0] if len(l) == 1 else z3.Or(*l)


def znot(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


HASHID = [False]    # hash symbolic values by identity (only inside SymDict)


class Sym:
    """Marker base class."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().decide(self.e)

    def asint(self):
        return mkint(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __hash__(self):
        return id(self) if HASHID[0] else hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else mkbool(znot(self.e))
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, Union):
            return NotImplemented
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return self.asint() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(zand([self.e, zb(o)]))
        return self.asint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(zor([self.e, zb(o)]))
        return self.asint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, zb(o)))
        return self.asint() ^ o
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))


def _fwd(name):
    def f(self, *a):
        return getattr(self.asint(), name)(*a)
    f.__name__ = name
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'mod',
           'rmod', 'truediv', 'rtruediv', 'lshift', 'rlshift', 'rshift', 'rrshift',
           'pow', 'rpow', 'lt', 'le', 'gt', 'ge', 'neg', 'invert', 'abs', 'pos'):
    setattr(SymBool, '__%s__' % _n, _fwd('__%s__' % _n))


def not_(x):
    t = truth(x)
    if t is True or t is False:
        return not t
    return mkbool(znot(t.e))


# ---------------------------------------------------------------- integers
def width(lo, hi):
    """Smallest signed width that holds [lo, hi]."""
    w = max(hi.bit_length() if hi >= 0 else (-hi - 1).bit_length(),
            lo.bit_length() if lo >= 0 else (-lo - 1).bit_length())
    return w + 1


def fit(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        if z3.is_bv_value(e):
            return z3.BitVecVal(e.as_signed_long(), w)
        return z3.SignExt(w - s, e)
    if z3.is_bv_value(e):
        return z3.BitVecVal(e.as_signed_long(), w)
    return z3.Extract(w - 1, 0, e)


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def tint(x):
    """(expr, lo, hi) of an int-like, or None."""
    if isinstance(x, SymInt):
        return x.e, x.lo, x.hi
    if isinstance(x, SymBool):
        y = x.asint()
        return y.e, y.lo, y.hi
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, width(x, x)), x, x
    return None


def from_bytes(items, signed=False, order='big'):
    """Integer of a list of byte items (int or BitVec 8)."""
    items = list(items)
    if order == 'little':
        items.reverse()
    if all(isinstance(i, int) for i in items):
        return int.from_bytes(bytes(items), 'big', signed=signed)
    # strip leading constant zeros when unsigned
    if not signed:
        while items and isinstance(items[0], int) and items[0] == 0:
            items = items[1:]
    n = len(items)
    parts = [z3.BitVecVal(i, 8) if isinstance(i, int) else i for i in items]
    e = parts[0] if n == 1 else z3.Concat(*parts)
    if signed:
        return SymInt(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return SymInt(z3.ZeroExt(1, e), 0, (1 << (8 * n)) - 1)


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi')
    pytype = int

    def __init__(self, e, lo, hi):
        w = width(lo, hi)
        self.e = fit(e, w) if e.size() != w else e
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'SymInt[%s,%s]' % (self.lo, self.hi)

    def __hash__(self):
        return id(self) if HASHID[0] else hash(self.concrete())

    def __bool__(self):
        return bool(self != 0)

    def concrete(self):
        """Concretise by forking over all values possible on this path."""
        en = eng()
        n = 0
        while True:
            v = en.choose_value(self.e)
            if en.decide(self.e == z3.BitVecVal(v, self.e.size())):
                return v
            n += 1
            en.st['concretised'] += 1
            if n > 300 and en.guards:
                raise E.MustFork(en.region_sites[-1], "concretisation of many values")
            if n > en.max_concretise:
                raise E.Unsupported("concretisation of more than %d values" % n)

    def __index__(self):
        return self.concrete()
    __int__ = __index__

    # arithmetic
    def _bin(self, o, op, rng):
        t = tint(o)
        if t is None:
            return NotImplemented
        lo, hi = rng(self.lo, self.hi, t[1], t[2])
        w = max(width(lo, hi), self.e.size(), t[0].size())
        return mkint(op(fit(self.e, w), fit(t[0], w)), lo, hi)

    def __add__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) + o
        if isinstance(o, int) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))

    def __radd__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(o) + tofloat(self)
        if isinstance(o, int) and o == 0:
            return self
        t = tint(o)
        if t is None:
            return NotImplemented
        return SymInt(*t).__add__(self) if t[1] != t[2] else _constsym(o)._bin(
            self, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))

    def __sub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) - o
        if isinstance(o, int) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(o) - tofloat(self)
        t = tint(o)
        if t is None:
            return NotImplemented
        return _constsym(o)._bin(self, lambda a, b: a - b,
                                 lambda a, b, c, d: (a - d, b - c))

    @staticmethod
    def _mulrng(a, b, c, d):
        p = [a * c, a * d, b * c, b * d]
        return min(p), max(p)

    def __mul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.concrete()
        if isinstance(o, int) and o == 1:
            return self
        return self._bin(o, lambda a, b: a * b, self._mulrng)

    def __rmul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(o) * tofloat(self)
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.concrete()
        if isinstance(o, int) and o == 1:
            return self
        t = tint(o)
        if t is None:
            return NotImplemented
        return _constsym(o)._bin(self, lambda a, b: a * b, self._mulrng)

    def __truediv__(self, o):
        return tofloat(self) / o

    def __rtruediv__(self, o):
        return tofloat(o) / tofloat(self)

    def _divmod(self, o):
        if isinstance(o, (float, SymFloat)):
            raise E.Unsupported("float floor division")
        t = tint(o)
        if t is None:
            return NotImplemented
        if t[1] <= 0 <= t[2]:
            if isinstance(o, int):
                raise ZeroDivisionError("integer division or modulo by zero")
            if (o == 0).__bool__():
                raise ZeroDivisionError("integer division or modulo by zero")
        lo, hi, c, d = self.lo, self.hi, t[1], t[2]
        m = max(abs(lo), abs(hi))
        if lo >= 0 and c >= 0:
            qlo, qhi = (lo // max(d, 1)), hi // max(c, 1)
            rlo, rhi = 0, min(hi, max(d - 1, 0))
        else:
            qlo, qhi = -m - 1, m + 1
            k = max(abs(c), abs(d))
            rlo, rhi = (0 if c >= 0 else -k), (k if d > 0 else 0)
        w = max(width(-m - 1, m + 1), width(c, d), width(rlo, rhi)) + 1
        a, b = fit(self.e, w), fit(t[0], w)
        if lo >= 0 and c >= 0:
            if isinstance(o, int) and o & (o - 1) == 0:
                sh = o.bit_length() - 1
                q = z3.LShR(a, z3.BitVecVal(sh, w))
                r = a & z3.BitVecVal(o - 1, w)
            else:
                q, r = z3.UDiv(a, b), z3.URem(a, b)
        else:
            q0, r0 = a / b, z3.SRem(a, b)          # truncating
            adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
            q = z3.If(adj, q0 - 1, q0)
            r = z3.If(adj, r0 + b, r0)
        return mkint(q, qlo, qhi), mkint(r, rlo, rhi)

    def __divmod__(self, o):
        return self._divmod(o)

    def __rdivmod__(self, o):
        return _constsym(o)._divmod(self)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]

    def __rfloordiv__(self, o):
        return _constsym(o)._divmod(self)[0]

    def __rmod__(self, o):
        if tint(o) is None:
            return NotImplemented
        return _constsym(o)._divmod(self)[1]

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = 0 - self
        hi = max(abs(self.lo), abs(self.hi))
        w = width(-hi, hi)
        return mkint(z3.If(fit(self.e, w) < 0, fit(n.e, w), fit(self.e, w)), 0, hi)

    def __invert__(self):
        return mkint(~self.e, -self.hi - 1, -self.lo - 1)

    def __and__(self, o):
        t = tint(o)
        if t is None:
            return NotImplemented
        if t[1] == t[2] and t[1] >= 0:
            m = t[1]
            w = m.bit_length()
            if w == 0:
                return 0
            w += 1
            hi = m if self.lo < 0 else min(m, self.hi)
            e = fit(self.e, w) if self.e.size() >= w else z3.SignExt(
                w - self.e.size(), self.e)
            if m & (m + 1) == 0 and self.e.size() >= w:
                k = m.bit_length()
                x = z3.simplify(z3.Extract(k - 1, 0, self.e))
                return mkint(z3.ZeroExt(1, x) if not z3.is_bv_value(x)
                             else z3.BitVecVal(x.as_long(), k + 1), 0, m)
            return mkint(e & z3.BitVecVal(m, w), 0, hi)
        if self.lo >= 0 and t[1] >= 0:
            rng = (0, min(self.hi, t[2]))
        elif self.lo >= 0:
            rng = (0, self.hi)
        elif t[1] >= 0:
            rng = (0, t[2])
        else:
            k = 1 << (max(width(self.lo, self.hi), width(t[1], t[2])) - 1)
            rng = (-k, k - 1)
        return self._bin(o, lambda a, b: a & b, lambda a, b, c, d: rng)
    __rand__ = __and__

    def _orrng(self, t):
        k = 1 << (max(width(self.lo, self.hi), width(t[1], t[2])) - 1)
        return (0 if self.lo >= 0 and t[1] >= 0 else -k), k - 1

    def __or__(self, o):
        t = tint(o)
        if t is None:
            return NotImplemented
        r = self._orrng(t)
        return self._bin(o, lambda a, b: a | b, lambda a, b, c, d: r)
    __ror__ = __or__

    def __xor__(self, o):
        t = tint(o)
        if t is None:
            return NotImplemented
        r = self._orrng(t)
        return self._bin(o, lambda a, b: a ^ b, lambda a, b, c, d: r)
    __rxor__ = __xor__

    def __rshift__(self, o):
        t = tint(o)
        if t is None:
            return NotImplemented
        if t[1] < 0:
            if (o < 0).__bool__() if not isinstance(o, int) else o < 0:
                raise ValueError("negative shift count")
        c, d = max(t[1], 0), max(t[2], 0)
        p = [self.lo >> c, self.lo >> min(d, 4096), self.hi >> c, self.hi >> min(d, 4096)]
        if t[1] == t[2]:
            w = self.e.size()
            if d >= w:
                return mkint(z3.If(self.e < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)),
                             min(p), max(p))
            x = z3.simplify(z3.Extract(w - 1, d, self.e))
            return mkint(x, min(p), max(p))
        w = max(self.e.size(), t[0].size())
        return mkint(fit(self.e, w) >> fit(t[0], w), min(p), max(p))

    def __rrshift__(self, o):
        return _constsym(o).__rshift__(self)

    def __lshift__(self, o):
        t = tint(o)
        if t is None:
            return NotImplemented
        if t[1] < 0:
            if (o < 0).__bool__() if not isinstance(o, int) else o < 0:
                raise ValueError("negative shift count")
        c, d = max(t[1], 0), max(t[2], 0)
        if d > 600:
            o = o.concrete()
            return self << o
        p = [self.lo << c, self.lo << d, self.hi << c, self.hi << d]
        lo, hi = min(p), max(p)
        w = max(width(lo, hi), t[0].size())
        return mkint(fit(self.e, w) << fit(t[0], w), lo, hi)

    def __rlshift__(self, o):
        return _constsym(o).__lshift__(self)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(self.concrete(), int(o), int(mod))
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) ** o
        if isinstance(o, SymInt):
            o = o.concrete()
        if o < 0:
            return tofloat(self) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o, mod=None):
        if isinstance(o, (float, SymFloat)):
            return tofloat(o) ** self
        if not isinstance(o, int):
            return NotImplemented
        if self.lo < 0:
            if (self < 0).__bool__():
                return SymFloat(fpow(fint(o), fint(self)))
        if o == 2 and max(self.hi, 0) <= 600:
            x = self if self.lo >= 0 else SymInt(
                z3.If(self.e < 0, z3.BitVecVal(0, self.e.size()), self.e), 0,
                max(self.hi, 0))
            return (1 << x) if isinstance(x, SymInt) else 1 << x
        if self.hi - self.lo > 16 and 1 < o and self.hi * math.log10(o) < 300:
            # treated as its value in floating point (such powers only occur as factors there)
            return SymFloat(fpow(fint(o), fint(self)))
        return o ** self.concrete()

    # comparisons
    def _cmp(self, o, opf, quick, fop):
        if isinstance(o, float):
            if o == int(o) if math.isfinite(o) else False:
                o = int(o)
            else:
                return fop(tofloat(self), o)
        if isinstance(o, SymFloat):
            return fop(tofloat(self), o)
        t = tint(o)
        if t is None:
            return NotImplemented
        q = quick(self.lo, self.hi, t[1], t[2])
        if q is not None:
            return q
        w = max(self.e.size(), t[0].size())
        return mkbool(opf(fit(self.e, w), fit(t[0], w)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b,
                      lambda a, b, c, d: False if b < c or d < a else None,
                      lambda a, b: a == b)
        if r is NotImplemented and not isinstance(o, Union):
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b,
                         lambda a, b, c, d: True if b < c else False if a >= d else None,
                         lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b,
                         lambda a, b, c, d: True if b <= c else False if a > d else None,
                         lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b,
                         lambda a, b, c, d: True if a > d else False if b <= c else None,
                         lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b,
                         lambda a, b, c, d: True if a >= d else False if b < c else None,
                         lambda a, b: a >= b)

    def __ceil__(self):
        return self
    __floor__ = __trunc__ = __ceil__

    def __round__(self, n=None):
        return self

    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        w = a.e.size()
        r = z3.BitVecVal(0, 16)
        for i in range(w - 1):
            r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i + 1, 16), r)
        return mkint(r, 0, w)

    def bit_count(self):
        a = abs(self)
        w = a.e.size()
        r = 0
        for i in range(w - 1):
            r = r + mkint(z3.ZeroExt(1, z3.Extract(i, i, a.e)), 0, 1)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = int(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if self.lo < lo or self.hi > hi:
            if not (mkbool(zand([zb(self >= lo), zb(self <= hi)]))):
                raise OverflowError("int too big to convert")
        e = self.e
        n = 8 * length
        e = z3.SignExt(n - e.size(), e) if e.size() < n else z3.Extract(n - 1, 0, e)
        items = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == 'big':
            items.reverse()
        return mkbytes([byteitem(x) for x in items])

    @property
    def real(self):
        return self

    def __format__(self, spec):
        raise E.Unsupported("native formatting of a symbolic int")

    def __str__(self):
        raise E.Unsupported("native str() of a symbolic int")


def _constsym(v):
    """A SymInt object for a constant (only as left operand of _bin)."""
    s = SymInt.__new__(SymInt)
    v = int(v)
    w = width(v, v)
    s.e = z3.BitVecVal(v, w)
    s.lo = s.hi = v
    return s


# ---------------------------------------------------------------- floats
F64 = z3.DeclareSort('F64')
_INTW = 160
_fint = z3.Function('f_of_int', z3.BitVecSort(_INTW), F64)
_fop2 = {n: z3.Function('f_' + n, F64, F64, F64)
         for n in ('add', 'sub', 'mul', 'div', 'pow', 'mod', 'round')}
_fop1 = {n: z3.Function('f_' + n, F64, F64) for n in ('neg', 'sqrt', 'log', 'log2', 'log10')}
_flt = z3.Function('f_lt', F64, F64, z3.BoolSort())
_feq = z3.Function('f_eq', F64, F64, z3.BoolSort())
_ftoint = {n: z3.Function('f_' + n, F64, z3.BitVecSort(_INTW))
           for n in ('ceil', 'floor', 'trunc', 'rint')}


def fint(x):
    t = tint(x)
    if width(t[1], t[2]) > _INTW:
        raise E.Unsupported("int too wide for a float")
    return z3.simplify(_fint(fit(t[0], _INTW)))


def fconst(v):
    if math.isfinite(v) and v == int(v) and width(int(v), int(v)) <= _INTW:
        return fint(int(v))
    return z3.Const('fc_' + float(v).hex(), F64)


def fpow(a, b):
    return _fop2['pow'](a, b)


def tofloat(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, float):
        if math.isfinite(x) and abs(x) < 2 ** 52:
            n, d = x.as_integer_ratio()
            return SymFloat(fconst(x), (n, d) if d < 2 ** 20 else None)
        return SymFloat(fconst(x))
    t = tint(x)
    if t is None:
        return None
    if width(t[1], t[2]) > 53:
        return SymFloat(fint(x), None, isint=x)
    return SymFloat(fint(x), (x, 1))


class SymFloat(Sym):
    """An IEEE double as a term over uninterpreted operations; `rat` is the exact
    rational (num, den>0) it was rounded from, when both are ints below 2**53."""
    __slots__ = ('e', 'rat', 'isint')
    pytype = float

    def __init__(self, e, rat=None, isint=None):
        self.e = e
        self.rat = rat
        self.isint = isint

    def __repr__(self):
        return 'SymFloat(%s)' % str(self.e)[:60]

    def __hash__(self):
        return hash(self.e)

    def _op(self, o, name, rev=False):
        o = tofloat(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return a, b, _fop2[name](a.e, b.e)

    def _arith(self, o, name, rev=False):
        r = self._op(o, name, rev)
        if r is NotImplemented:
            return r
        a, b, e = r
        rat = None
        if a.rat and b.rat and a.rat[1] == 1 and b.rat[1] == 1 and \
                isinstance(a.rat[1], int) and isinstance(b.rat[1], int):
            v = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
                 'mul': lambda x, y: x * y}[name](a.rat[0], b.rat[0])
            t = tint(v)
            if width(t[1], t[2]) <= 53:
                rat = (v, 1)
                e = fint(v)
        return SymFloat(e, rat)

    def __add__(self, o):
        return self._arith(o, 'add')

    def __radd__(self, o):
        return self._arith(o, 'add', True)

    def __sub__(self, o):
        return self._arith(o, 'sub')

    def __rsub__(self, o):
        return self._arith(o, 'sub', True)

    def __mul__(self, o):
        return self._arith(o, 'mul')

    def __rmul__(self, o):
        return self._arith(o, 'mul', True)

    def __truediv__(self, o):
        r = self._op(o, 'div')
        if r is NotImplemented:
            return r
        return self._dv(*r)

    def __rtruediv__(self, o):
        r = self._op(o, 'div', True)
        if r is NotImplemented:
            return r
        return self._dv(*r)

    @staticmethod
    def _dv(a, b, e):
        if truth(b == 0):
            raise ZeroDivisionError("division by zero")
        rat = None
        if a.rat and b.rat and all(isinstance(x[1], int) and x[1] == 1
                                   for x in (a.rat, b.rat)):
            n, d = a.rat[0], b.rat[0]
            td = tint(d)
            if td[1] >= 0:
                rat = (n, d)
            elif td[2] <= 0:
                rat = (0 - n, 0 - d)
        return SymFloat(e, rat)

    def __pow__(self, o):
        r = self._op(o, 'pow')
        return r if r is NotImplemented else SymFloat(r[2])

    def __rpow__(self, o):
        r = self._op(o, 'pow', True)
        return r if r is NotImplemented else SymFloat(r[2])

    def __mod__(self, o):
        r = self._op(o, 'mod')
        return r if r is NotImplemented else SymFloat(r[2])

    def __neg__(self):
        return SymFloat(_fop1['neg'](self.e),
                        (0 - self.rat[0], self.rat[1]) if self.rat else None)

    def __abs__(self):
        if self.rat:
            return SymFloat(z3.Function('f_abs', F64, F64)(self.e),
                            (abs(self.rat[0]), self.rat[1]))
        return SymFloat(z3.Function('f_abs', F64, F64)(self.e))

    def __bool__(self):
        return bool(self != 0)

    def _cmp(self, o, ratop, uf):
        o = tofloat(o)
        if o is None:
            return NotImplemented
        if self.rat and o.rat:
            # exact as long as one side is an integer or both are: two doubles
            # rounded from different small rationals could still coincide
            if (isinstance(o.rat[1], int) and o.rat[1] == 1) or \
                    (isinstance(self.rat[1], int) and self.rat[1] == 1):
                return ratop(self.rat[0] * o.rat[1], o.rat[0] * self.rat[1])
        return uf(self.e, o.e)

    def __eq__(self, o):
        if isinstance(o, Union):
            return NotImplemented
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: mkbool(z3.simplify(a == b)))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: mkbool(_flt(a, b)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: mkbool(_flt(b, a)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: mkbool(
            zor([_flt(a, b), a == b])))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: mkbool(
            zor([_flt(b, a), a == b])))

    def _toint(self, kind):
        if self.isint is not None:
            return self.isint
        if self.rat:
            n, d = self.rat
            if isinstance(d, int) and d == 1:
                return n
            if kind == 'floor':
                return n // d
            if kind == 'ceil':
                return 0 - ((0 - n) // d)
            if kind == 'trunc':
                t = tint(n)
                if t[1] >= 0:
                    return n // d
                return merge(zb(n >= 0), n // d, 0 - ((0 - n) // d))
        return mkint(_ftoint[kind](self.e), -(1 << (_INTW - 1)), (1 << (_INTW - 1)) - 1)

    def __ceil__(self):
        return self._toint('ceil')

    def __floor__(self):
        return self._toint('floor')

    def __trunc__(self):
        return self._toint('trunc')

    def __round__(self, n=None):
        if n is None:
            return self._toint('rint')
        return SymFloat(_fop2['round'](self.e, fint(n)))

    def is_integer(self):
        if self.rat:
            if isinstance(self.rat[1], int) and self.rat[1] == 1:
                return True
            return self.rat[0] % self.rat[1] == 0
        raise E.Unsupported("is_integer")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        raise E.Unsupported("float concretisation")

    def __format__(self, spec):
        raise E.Unsupported("native formatting of a symbolic float")

    def __str__(self):
        raise E.Unsupported("native str() of a symbolic float")


# ---------------------------------------------------------------- bytes
def byteitem(x):
    """Normalise a byte item to int or BitVec 8."""
    if isinstance(x, int):
        return x
    if isinstance(x, SymInt):
        e = x.e
        if e.size() >= 8:
            e = z3.simplify(z3.Extract(7, 0, e))
        else:
            e = z3.simplify(z3.ZeroExt(8 - e.size(), e))  # only for lo>=0
        x = e
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def mkbytes(items):
    if all(isinstance(i, int) for i in items):
        return bytes(items)
    return SymBytes(items)


def clamp_index(i, n):
    """slice index in [0, n] of a (symbolic) index, concretised by forking."""
    if not isinstance(i, (SymInt, SymBool)):
        return i
    if isinstance(i, SymBool):
        i = i.asint()
    if i.lo < 0:
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                return 0
    if i.hi >= n:
        if bool(i >= n):
            return n
    return i.concrete()


class SymBytes(Sym):
    __slots__ = ('items',)
    pytype = bytes

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'SymBytes(%d)' % len(self.items)

    def __len__(self):
        return len(self.items)

    def __hash__(self):
        return id(self) if HASHID[0] else hash(self.concrete())

    def concrete(self):
        return bytes(i if isinstance(i, int) else SymInt(z3.ZeroExt(1, i), 0, 255).concrete()
                     for i in self.items)

    def __bool__(self):
        return bool(self.items)

    def at(self, i):
        x = self.items[i]
        return x if isinstance(x, int) else SymInt(z3.ZeroExt(1, x), 0, 255)

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = len(self.items)
            st = i.step
            if isinstance(st, Sym):
                st = st.concrete()
            if st is not None and st < 0:
                a, b = (x.concrete() if isinstance(x, Sym) else x
                        for x in (i.start, i.stop))
            else:
                a, b = clamp_index(i.start, n), clamp_index(i.stop, n)
            return mkbytes(self.items[slice(a, b, st)])
        if isinstance(i, Sym):
            n = len(self.items)
            inr = mkbool(zand([zb(i >= -n), zb(i < n)]))
            if not inr:
                raise IndexError("index out of range")
            i = i.concrete()
        return self.at(i)

    def __iter__(self):
        for k in range(len(self.items)):
            yield self.at(k)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if isinstance(x, (bytes, SymBytes, bytearray)):
            m = len(x)
            return mkbool(zor([zb(bytes_eq(self.items[k:k + m], list(x) if isinstance(
                x, (bytes, bytearray)) else x.items)) for k in range(len(self.items) - m + 1)]))
        return mkbool(zor([zb(self.at(k) == x) for k in range(len(self.items))]))

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return bytes_eq(self.items, list(o))
        if isinstance(o, SymBytes):
            return bytes_eq(self.items, o.items)
        if isinstance(o, Union):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _lex(self, o):
        o = list(o) if isinstance(o, (bytes, bytearray)) else o.items
        lt = FALSE
        eq = TRUE
        for a, b in zip(self.items, o):
            a, b = _b8(a), _b8(b)
            lt = zor([lt, zand([eq, z3.ULT(a, b)])])
            eq = zand([eq, a == b])
        return lt, eq, len(self.items), len(o)

    def __lt__(self, o):
        lt, eq, n, m = self._lex(o)
        return mkbool(z3.simplify(zor([lt, eq]) if n < m else lt))

    def __le__(self, o):
        lt, eq, n, m = self._lex(o)
        return mkbool(z3.simplify(zor([lt, eq]) if n <= m else lt))

    def __gt__(self, o):
        return not_(self.__le__(o))

    def __ge__(self, o):
        return not_(self.__lt__(o))

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(self.items + list(o))
        if isinstance(o, SymBytes):
            return mkbytes(self.items + o.items)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(list(o) + self.items)
        return NotImplemented

    def __mul__(self, n):
        return mkbytes(self.items * int(n))
    __rmul__ = __mul__

    # methods of bytes
    def rstrip(self, chars=None):
        chars = list(b' \t\n\r\x0b\f' if chars is None else chars)
        items = list(self.items)
        while items and bool(_in_items(items[-1], chars)):
            items.pop()
        return mkbytes(items)

    def lstrip(self, chars=None):
        chars = list(b' \t\n\r\x0b\f' if chars is None else chars)
        items = list(self.items)
        while items and bool(_in_items(items[0], chars)):
            items.pop(0)
        return mkbytes(items)

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    def startswith(self, p):
        if isinstance(p, tuple):
            return mkbool(zor([zb(self.startswith(q)) for q in p]))
        return mkbytes(self.items[:len(p)]) == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return mkbool(zor([zb(self.endswith(q)) for q in p]))
        if len(p) > len(self.items):
            return False
        return mkbytes(self.items[len(self.items) - len(p):]) == p

    def hex(self, *a):
        from .strings import hexstr
        return hexstr(self)

    def decode(self, encoding='utf-8', errors='strict'):
        from .strings import decode
        return decode(self, encoding, errors)

    def find(self, sub, *a):
        if isinstance(sub, int):
            sub = bytes([sub])
        n = len(self.items)
        st = clamp_index(a[0], n) if a else 0
        en = clamp_index(a[1], n) if len(a) > 1 else n
        for k in range(st, en - len(sub) + 1):
            if bool(mkbytes(self.items[k:k + len(sub)]) == sub):
                return k
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def ljust(self, n, fill=b' '):
        n = n.concrete() if isinstance(n, Sym) else n
        return mkbytes(self.items + list(fill) * max(0, n - len(self.items)))

    def rjust(self, n, fill=b' '):
        n = n.concrete() if isinstance(n, Sym) else n
        return mkbytes(list(fill) * max(0, n - len(self.items)) + self.items)

    def removeprefix(self, p):
        if len(p) and bool(self.startswith(p)):
            return mkbytes(self.items[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return mkbytes(self.items[:len(self.items) - len(p)])
        return self

    def rfind(self, sub, *a):
        if a:
            return self.concrete().rfind(sub, *a)
        if isinstance(sub, int):
            sub = bytes([sub])
        for k in range(len(self.items) - len(sub), -1, -1):
            if bool(mkbytes(self.items[k:k + len(sub)]) == sub):
                return k
        return -1

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return (self, b'', b'')
        return (mkbytes(self.items[:k]), sep, mkbytes(self.items[k + len(sep):]))

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return (b'', b'', self)
        return (mkbytes(self.items[:k]), sep, mkbytes(self.items[k + len(sep):]))

    def replace(self, old, new, *a):
        if a or not len(old):
            return self.concrete().replace(old, new, *a)
        out = []
        k = 0
        new = list(new) if isinstance(new, (bytes, bytearray)) else new.items
        while k < len(self.items):
            if k + len(old) <= len(self.items) and bool(mkbytes(
                    self.items[k:k + len(old)]) == old):
                out += new
                k += len(old)
            else:
                out.append(self.items[k])
                k += 1
        return mkbytes(out)

    def count(self, sub):
        if isinstance(sub, int):
            return sum(mkbool(zb(self.at(k) == sub)) for k in range(len(self.items)))
        return self.concrete().count(sub)

    def __getattr__(self, name):
        # a bytes method without a symbolic model: concretise (flagged)
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError(name)

        def f(*a, **k):
            return getattr(self.concrete(), name)(*a, **k)
        return f


def _b8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def _in_items(x, chars):
    if isinstance(x, int):
        return x in chars
    return mkbool(zor([x == z3.BitVecVal(c, 8) for c in chars]))


def bytes_eq(a, b):
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        else:
            c = _b8(x) == _b8(y)
            conj.append(z3.simplify(c) if not isinstance(x, int) and not isinstance(
                y, int) else c)
    return mkbool(zand(conj))


# ---------------------------------------------------------------- unions and merging
class Union(Sym):
    """A value that is one of several alternatives under exclusive guards."""
    __slots__ = ('alts',)
    pytype = None

    def __init__(self, alts):
        self.alts = alts

    def resolve(self):
        for g, v in self.alts[:-1]:
            if eng().decide(g):
                return v
        return self.alts[-1][1]

    def __repr__(self):
        return 'Union(%r)' % [v for _, v in self.alts]

    def __eq__(self, o):
        return mkbool(zor([zand([g, zb(truth(eq(v, o)))]) for g, v in self.alts]))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return id(self) if HASHID[0] else hash(self.resolve())

    def __bool__(self):
        return bool(self.resolve())

    def __index__(self):
        return self.resolve().__index__()

    def __len__(self):
        return len(self.resolve())

    def __iter__(self):
        return iter(self.resolve())

    def __getitem__(self, i):
        return self.resolve()[i]

    def __contains__(self, i):
        return i in self.resolve()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.resolve(), n)

    def __str__(self):
        return str(self.resolve())

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)


def _ufwd(name):
    import operator
    base = name.strip('_')
    rev = base.startswith('r') and base not in ('rshift',)
    opn = base[1:] if rev else base
    op = getattr(operator, '__%s__' % opn)

    def f(self, *a):
        v = self.resolve()
        if not a:
            return op(v)
        return op(a[0], v) if rev else op(v, a[0])
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv', 'rfloordiv', 'mod',
           'rmod', 'truediv', 'rtruediv', 'lshift', 'rlshift', 'rshift', 'rrshift',
           'pow', 'rpow', 'lt', 'le', 'gt', 'ge', 'neg', 'invert', 'abs', 'pos',
           'and', 'rand', 'or', 'ror', 'xor', 'rxor'):
    setattr(Union, '__%s__' % _n, _ufwd('__%s__' % _n))


def eq(a, b):
    """a == b as bool/SymBool."""
    if isinstance(b, Sym) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(b, Union) and not isinstance(a, Union):
        a, b = b, a
    r = a == b
    return r


LEAF = (str, bytes, float, type(None), bool, int)


class CannotMerge(Exception):
    pass


def pytype(x):
    return getattr(type(x), 'pytype', None) if isinstance(x, Sym) else type(x)


def merge(g, a, b):
    """if g then a else b (g: z3 Bool)."""
    if a is b:
        return a
    if z3.is_true(g):
        return a
    if z3.is_false(g):
        return b
    isb = (bool, SymBool)
    if isinstance(a, isb) and isinstance(b, isb):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return mkbool(g if a else znot(g))
        return mkbool(z3.simplify(z3.If(g, zb(a), zb(b))))
    ints = (int, SymInt)
    if isinstance(a, ints) and isinstance(b, ints) and not isinstance(a, bool) \
            and not isinstance(b, bool):
        x, y = tint(a), tint(b)
        if x[1] == x[2] == y[1] == y[2]:
            return a
        lo, hi = min(x[1], y[1]), max(x[2], y[2])
        w = width(lo, hi)
        if w < 400:
            return mkint(z3.If(g, fit(x[0], w), fit(y[0], w)), lo, hi)
    bys = (bytes, SymBytes)
    if isinstance(a, bys) and isinstance(b, bys) and len(a) == len(b):
        ia = list(a) if isinstance(a, bytes) else a.items
        ib = list(b) if isinstance(b, bytes) else b.items
        return mkbytes([x if (x is y or (isinstance(x, int) and isinstance(y, int) and x == y))
                        else z3.If(g, _b8(x), _b8(y)) for x, y in zip(ia, ib)])
    if isinstance(a, SymFloat) and isinstance(b, SymFloat) and not a.rat and not b.rat:
        return SymFloat(z3.If(g, a.e, b.e))
    if (isinstance(a, LEAF) or isinstance(a, Sym)) and \
            (isinstance(b, LEAF) or isinstance(b, Sym)):
        if type(a) is type(b) and not isinstance(a, Sym) and a == b:
            return a
        alts = []
        for gg, v in ((g, a), (znot(g), b)):
            if isinstance(v, Union):
                alts += [(zand([gg, h]), w) for h, w in v.alts]
            else:
                alts.append((gg, v))
        # join equal concrete alternatives
        out = []
        for gg, v in alts:
            for k, (h, w) in enumerate(out):
                if type(w) is type(v) and not isinstance(v, Sym) and w == v:
                    out[k] = (zor([h, gg]), w)
                    break
            else:
                out.append((gg, v))
        if len(out) == 1:
            return out[0][1]
        return Union(out)
    raise CannotMerge("%s / %s" % (type(a).__name__, type(b).__name__))
