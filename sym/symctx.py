import z3
from . import engine as E
from . import runtime as R
from .values import (Sym, SymInt, SymBool, SymBytes, SymFloat, Union, mkbool, zb, truth, TRUE,
                     width, zand, zor, znot, mkbytes)
from .strings import SymStr, Category
from .shims import Element
from .ctx import newdir, place, dropdir


class SymCtx:
    symbolic = True

    def __init__(self, en, world):
        self.en = en
        self.world = world
        self.inputs = {}          # name -> ('bytes', [z3]) ...
        self.obls = []            # (label, z3 Bool)
        self.obs = {}
        self._stubs = []
        self.held = 0
        self._tmp = None

    def bytes(self, name, n):
        vs = [z3.BitVec('%s.%d' % (name, i), 8) for i in range(n)]
        self.inputs[name] = ('bytes', vs)
        return mkbytes(vs)

    def int(self, name, lo, hi):
        w = width(lo, hi)
        v = z3.BitVec(name, w)
        self.inputs[name] = ('int', v)
        x = SymInt(v, lo, hi)
        if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
            self.en.assume(zand([v >= lo, v <= hi]))
        return x if lo != hi else lo

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return SymBool(v)

    def choose(self, name, options):
        if len(options) == 1:
            self.inputs[name] = ('const', 0)
            return options[0]
        n = len(options)
        x = self.int(name, 0, n - 1)
        lo, hi = 0, n - 1
        while lo < hi:            # balanced forks
            mid = (lo + hi) // 2
            if bool(x <= mid):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def assume(self, cond):
        t = truth(cond)
        if t is True:
            return
        if t is False:
            raise E.Infeasible()
        self.en.assume(t.e)

    def check(self, label, cond):
        if cond is True:        # (decided while executing the path)
            self.held += 1
            return
        t = truth(cond)
        self.obls.append((label, zb(t)))

    def observe(self, name, value):
        self.obs[name] = snap(value)

    def work(self, fn):
        """(result, number of loop iterations) of a call."""
        t = self.en.ticks
        r = fn()
        return r, self.en.ticks - t

    def surely(self, x):
        """True if x is True without having to decide anything."""
        if isinstance(x, SymBool):
            return R._status(self.en, x) is True
        return x is True

    def tree(self, elem):
        """Children of an element with their presence conditions, without forking."""
        return [(mkbool(g), c) for g, c in elem._kids]

    def stub(self, obj, name, fn):
        """Replace an attribute in the instrumented world for this path."""
        self._stubs.append((obj, name, obj.__dict__[name] if name in obj.__dict__ else None,
                            name in obj.__dict__))
        setattr(obj, name, fn)

    patch = stub

    def dir(self):
        if self._tmp is None:
            self._tmp = newdir(self)
        return self._tmp

    def file(self, name, data):
        """Path of a file; reading it through open or mmap yields the (symbolic) content."""
        if isinstance(data, Union):
            data = data.resolve()
        path = place(self.dir(), name)
        conc = data if isinstance(data, bytes) else bytes(
            x if isinstance(x, int) else 0 for x in data.items)
        with open(path, 'wb') as f:
            f.write(conc)
        self.world.vfiles[path] = data
        return path

    def unstub(self):
        for obj, name, old, had in reversed(self._stubs):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._stubs = []
        if self._tmp is not None:
            dropdir(self, self._tmp)
            self._tmp = None
            self.world.vfiles.clear()

    def note(self, *a):
        pass

    def model_inputs(self, m):
        out = {}
        for n, (k, v) in self.inputs.items():
            if k == 'bytes':
                out[n] = bytes(m.eval(x, model_completion=True).as_long() for x in v).hex()
            elif k == 'int':
                out[n] = m.eval(v, model_completion=True).as_signed_long()
            elif k == 'bool':
                out[n] = bool(z3.is_true(m.eval(v, model_completion=True)))
            else:
                out[n] = v
        return out


class SnapEl:
    __slots__ = ('tag', 'text', 'kids')


def snap(v):
    if isinstance(v, Element):
        s = SnapEl()
        s.tag, s.text = v.tag, snap(v.text)
        s.kids = [(g, snap(c)) for g, c in v._kids]
        return s
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    return v


UNK = {'?': 1}


def concof(m, v):
    """plain() form of a symbolic value under a model."""
    from .ctx import plain
    ev = lambda e: m.eval(e, model_completion=True)
    if isinstance(v, SnapEl):
        return [v.tag, concof(m, v.text),
                [concof(m, c) for g, c in v.kids if z3.is_true(ev(g))]]
    if isinstance(v, Union):
        for g, x in v.alts:
            if z3.is_true(ev(g)):
                return concof(m, x)
        return concof(m, v.alts[-1][1])
    if isinstance(v, SymBool):
        return z3.is_true(ev(v.e))
    if isinstance(v, SymInt):
        return plain(ev(v.e).as_signed_long())
    if isinstance(v, SymBytes):
        return plain(bytes(x if isinstance(x, int) else ev(x).as_long() for x in v.items))
    if isinstance(v, SymFloat):
        if v.rat:
            n, d = (x if isinstance(x, int) else ev(x.e).as_signed_long() for x in v.rat)
            if d:
                return plain(n / d)
        return dict(UNK)
    if isinstance(v, SymStr):
        out = []
        for p in v.p:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == 'c':
                out.append(chr(ev(p[1].e).as_signed_long()))
            elif p[0] == 'i':
                out.append(format(ev(p[1].e).as_signed_long(), p[2]))
            elif p[0] == 'b':
                out.append(str(z3.is_true(ev(p[1].e))))
            else:
                return dict(UNK)
        return ''.join(out)
    if isinstance(v, (list, tuple)):
        return [concof(m, x) for x in v]
    if isinstance(v, Sym):
        return dict(UNK)
    return plain(v)


def same(a, b):
    """Compare plain forms; '?' matches anything."""
    if isinstance(a, dict) and '?' in a:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and type(a) is type(b)
