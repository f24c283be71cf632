"""Runtime the instrumented code calls into (bound as _SYM_ in every module)."""
import builtins
import math
import operator
import types
import z3
from . import engine as E
from . import strings as ST
from .values import (Sym, SymInt, SymBool, SymBytes, SymFloat, Union, mkbool, mkint, mkbytes,
                     zand, zor, znot, zb, eng, truth, merge, CannotMerge, pytype, clamp_index,
                     from_bytes, tofloat, tint, TRUE)
from . import values as V
from .strings import SymStr, mkstr, mkstr_chars

Control = E.Control
_MISSING = object()


def issym(x):
    return isinstance(x, Sym)


def deepsym(x, d=2):
    if isinstance(x, Sym):
        return True
    if d and isinstance(x, (list, tuple, set, frozenset)):
        return any(deepsym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(deepsym(y, d - 1) for y in x.values())
    return False


def concretise(x):
    if isinstance(x, Union):
        return concretise(x.resolve())
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        return x.concrete()
    if isinstance(x, list):
        return [concretise(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concretise(y) for y in x)
    return x


# ------------------------------------------------------------------ control
def tick():
    en = eng()
    if en is not None:
        en.tick()


ENTERED = set()
enter = ENTERED.add


def impure():
    en = eng()
    if en is not None and en.guards:
        raise E.MustFork(en.region_sites[-1], "side effect")


def _status(en, t):
    """True/False if the truth of SymBool t is already fixed on this path, else None."""
    e = t.e
    k = en.known.get(e.get_id())
    if k is None:
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = en.known.get(s.get_id())
        if k is None and z3.is_not(s):
            k = en.known.get(s.arg(0).get_id())
            k = None if k is None else not k
    return k


class Merge:
    """An if/elif/else chain: one branch when its tests are decided, else all of them under
    their guards, followed by a merge of the variables they assign."""
    __slots__ = ('site', 'gs', 'merging', 'second', 'names', 'pre', 'outs', 'en', 'pick', 'g')

    def __init__(self, site, names, tests):
        self.site = site
        self.names = names
        self.second = False
        self.merging = False
        self.outs = []
        self.pre = None
        en = self.en = eng()
        n = len(tests)
        fork = en is None or site in en.mustfork
        gs = []              # (branch number, guard relative to the chain)
        negs = []
        pushed = 0
        for k in range(n):
            try:
                t = truth(tests[k]())
            except Control:
                raise
            except BaseException as e:
                if negs:
                    raise E.MustFork(site, "exception %s" % type(e).__name__)
                raise
            if t is not True and t is not False:
                st = _status(en, t)
                if st is not None:
                    t = st
                elif fork:
                    t = en.decide(t.e)
            if t is True:
                gs.append((k, zand(negs)))
                break
            if t is False:
                continue
            gs.append((k, zand(negs + [t.e])))
            ng = znot(t.e)
            negs.append(ng)
            en.guards.append(ng)
            en.region_sites.append(site)
            pushed += 1
        else:
            gs.append((n, zand(negs)))
        for _ in range(pushed):
            en.guards.pop()
            en.region_sites.pop()
        if len(gs) == 1:
            self.pick = gs[0][0]
        else:
            self.merging = True
            self.gs = gs
            en.st['merges'] += 1

    def __iter__(self):
        if not self.merging:
            yield self.pick
            return
        en = self.en
        for k, g in self.gs:
            en.guards.append(g)
            en.region_sites.append(self.site)
            yield k
            en.guards.pop()
            en.region_sites.pop()
            self.second = True

    def snap(self, loc):
        self.pre = {n: loc[n] for n in self.names if n in loc}

    def had(self, n):
        return n in self.pre

    def saved(self, n):
        return self.pre[n]

    def exc(self, e):
        if self.merging and not isinstance(e, Control):
            raise E.MustFork(self.site, "exception %s" % type(e).__name__)

    def done(self, loc):
        self.outs.append({n: loc[n] for n in self.names if n in loc})

    def merged(self, n):
        c = sum(1 for o in self.outs if n in o)
        if c == len(self.outs):
            return True
        if c:
            raise E.MustFork(self.site, "variable %s not bound in every branch" % n)
        return False

    def get(self, n):
        try:
            r = self.outs[-1][n]
            for (k, g), o in zip(reversed(self.gs[:-1]), reversed(self.outs[:-1])):
                r = merge(g, o[n], r)
            return r
        except CannotMerge as e:
            raise E.MustFork(self.site, "cannot merge %s: %s" % (n, e))


def ifm(site, names, *tests):
    return Merge(site, names, tests)


def _under(site, g, thunk):
    en = eng()
    en.guards.append(g)
    en.region_sites.append(site)
    try:
        r = thunk()
    except Control:
        raise
    except BaseException as e:
        raise E.MustFork(site, "exception %s" % type(e).__name__)
    en.guards.pop()
    en.region_sites.pop()
    return r


def _known(t):
    en = eng()
    k = en.known.get(t.e.get_id())
    return k


def and_(site, a, thunk):
    t = truth(a)
    if t is True:
        return thunk()
    if t is False:
        return a
    en = eng()
    if site in en.mustfork or _known(t) is not None:
        return thunk() if en.decide(t.e) else a
    r = _under(site, t.e, thunk)
    if isinstance(a, SymBool) and isinstance(r, (bool, SymBool)):
        return mkbool(zand([t.e, zb(r)]))
    try:
        return merge(t.e, r, a)
    except CannotMerge as e:
        raise E.MustFork(site, str(e))


def or_(site, a, thunk):
    t = truth(a)
    if t is True:
        return a
    if t is False:
        return thunk()
    en = eng()
    if site in en.mustfork or _known(t) is not None:
        return a if en.decide(t.e) else thunk()
    r = _under(site, znot(t.e), thunk)
    if isinstance(a, SymBool) and isinstance(r, (bool, SymBool)):
        return mkbool(zor([t.e, zb(r)]))
    try:
        return merge(t.e, a, r)
    except CannotMerge as e:
        raise E.MustFork(site, str(e))


def ifexp(site, test, f, g):
    t = truth(test)
    if t is True:
        return f()
    if t is False:
        return g()
    en = eng()
    if site in en.mustfork or _known(t) is not None:
        return f() if en.decide(t.e) else g()
    a = _under(site, t.e, f)
    b = _under(site, znot(t.e), g)
    try:
        return merge(t.e, a, b)
    except CannotMerge as e:
        raise E.MustFork(site, str(e))


def not_(x):
    return V.not_(x)


# ------------------------------------------------------------------ comparisons
def _one(x):
    return x


def is_(a, b):
    if isinstance(b, Union) and not isinstance(a, Union):
        a, b = b, a
    if isinstance(a, Union):
        return mkbool(zor([zand([g, zb(is_(v, b))]) for g, v in a.alts]))
    if isinstance(a, SymBool) and isinstance(b, bool) or isinstance(b, SymBool) and isinstance(
            a, bool) or isinstance(a, SymBool) and isinstance(b, SymBool):
        return V.eq(a, b)
    if isinstance(a, types.FunctionType) or isinstance(b, type):
        pass
    return a is b


def isnot(a, b):
    return not_(is_(a, b))


def eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return V.eq(a, b)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and (deepsym(a) or deepsym(b)):
        if len(a) != len(b):
            return False
        return mkbool(zand([zb(truth(eq(x, y))) for x, y in zip(a, b)]))
    return a == b


def ne(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (list, tuple)):
        return not_(eq(a, b))
    return a != b


_REL = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}


def rel(op, a, b):
    return _REL[op](a, b)


def cmp1(op, a, b):
    if op == 'Eq':
        return eq(a, b)
    if op == 'NotEq':
        return ne(a, b)
    if op == 'In':
        return in_(a, b)
    if op == 'NotIn':
        return notin(a, b)
    if op == 'Is':
        return is_(a, b)
    if op == 'IsNot':
        return isnot(a, b)
    return rel(op, a, b)


def chain(site, ops, *thunks):
    a = thunks[0]()
    r = True
    for i, (op, th) in enumerate(zip(ops, thunks[1:])):
        t = truth(r)
        if t is False:
            return r
        if t is True:
            b = th()
            r = cmp1(op, a, b)
        else:
            en = eng()
            if site in en.mustfork:
                if not en.decide(t.e):
                    return False
                b = th()
                r = cmp1(op, a, b)
            else:
                box = []

                def f():
                    box.append(th())
                    return cmp1(op, a, box[0])
                q = _under(site, t.e, f)
                b = box[0]
                r = mkbool(zand([t.e, zb(truth(q))]))
        a = b
    return r


def in_(x, c):
    if isinstance(c, Union):
        c = c.resolve()
    if isinstance(x, Union):
        return mkbool(zor([zand([g, zb(truth(in_(v, c)))]) for g, v in x.alts]))
    if isinstance(c, (SymBytes, SymStr, SymSet)) or hasattr(type(c), 'contains') and isinstance(
            c, Sym):
        return c.contains(x)
    if isinstance(c, SymRange):
        return c.contains(x)
    if isinstance(c, SymDict) and c.symkeys:
        return mkbool(zor([zb(truth(eq(x, y))) for y in dict.keys(c)]))
    if isinstance(x, Sym):
        if isinstance(c, (list, tuple, set, frozenset)):
            return mkbool(zor([zb(truth(eq(x, y))) for y in c]))
        if isinstance(c, dict):
            return mkbool(zor([zb(truth(eq(x, y))) for y in dict.keys(c)]))
        if isinstance(c, type({}.keys())):
            return mkbool(zor([zb(truth(eq(x, y))) for y in list(c)]))
        if isinstance(c, bytes):
            return SymBytes(list(c)).contains(x)
        if isinstance(c, str):
            if isinstance(x, (SymStr, ST.Category)):
                return SymStr([c]).contains(x) if c and isinstance(x, SymStr) else \
                    concretise(x) in c
        if isinstance(c, range):
            if isinstance(x, (SymInt, SymBool)):
                if len(c) == 0:
                    return False
                lo, hi = min(c), max(c)
                r = [zb(x >= lo), zb(x <= hi)]
                if abs(c.step) != 1:
                    r.append(zb((x - c.start) % c.step == 0))
                return mkbool(zand(r))
    elif isinstance(c, (list, tuple)) and deepsym(c):
        return mkbool(zor([zb(truth(eq(x, y))) for y in c]))
    return x in c


def notin(x, c):
    return not_(in_(x, c))


# ------------------------------------------------------------------ containers
class SymDict(dict):
    """dict with symbolic keys: lookups fork over the stored keys.  A key that is symbolic and
    differs from all stored ones (on the path) is stored as it is, hashed by identity."""
    symkeys = False

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a or k:
            SymDict.update(self, *a, **k)

    @staticmethod
    def _raw(f, *a):
        V.HASHID[0] = True
        try:
            return f(*a)
        finally:
            V.HASHID[0] = False

    def _find(self, k):
        """The stored key equal to k, or _MISSING."""
        if isinstance(k, Union):
            k = k.resolve()
        if not (isinstance(k, Sym) or deepsym(k)):
            if dict.__contains__(self, k):
                return k
            if not getattr(self, 'symkeys', False):
                return _MISSING
        for key in list(dict.keys(self)):
            if key is k:
                return key
            t = truth(eq(key, k))
            if t is True or (t is not False and eng().decide(t.e)):
                return key
        return _MISSING

    def __getitem__(self, k):
        key = self._find(k)
        if key is _MISSING:
            return self.__missing__(k)
        return self._raw(dict.__getitem__, self, key)

    def __missing__(self, k):
        raise KeyError("symbolic key" if isinstance(k, Sym) else k)

    def __setitem__(self, k, v):
        impure()
        if isinstance(k, Union):
            k = k.resolve()
        key = self._find(k)
        if key is _MISSING:
            key = k
            if isinstance(k, Sym) or deepsym(k):
                self.symkeys = True
        self._raw(dict.__setitem__, self, key, v)

    def __delitem__(self, k):
        impure()
        key = self._find(k)
        if key is _MISSING:
            raise KeyError("symbolic key" if isinstance(k, Sym) else k)
        self._raw(dict.__delitem__, self, key)

    def get(self, k, d=None):
        key = self._find(k)
        return d if key is _MISSING else self._raw(dict.__getitem__, self, key)

    def pop(self, k, *d):
        impure()
        key = self._find(k)
        if key is not _MISSING:
            return self._raw(dict.pop, self, key)
        if d:
            return d[0]
        raise KeyError("symbolic key" if isinstance(k, Sym) else k)

    def setdefault(self, k, d=None):
        key = self._find(k)
        if key is not _MISSING:
            return self._raw(dict.__getitem__, self, key)
        self[k] = d
        return d

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for key in list(dict.keys(o)):
                    self[key] = SymDict._raw(dict.__getitem__, o, key)
            else:
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def items(self):
        if not getattr(self, 'symkeys', False):
            return dict.items(self)
        return list(self._raw(lambda: [(x, dict.__getitem__(self, x)) for x in dict.keys(self)]))

    def __eq__(self, o):
        if not self.symkeys and not getattr(o, 'symkeys', False):
            return dict.__eq__(self, o)
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k in list(dict.keys(self)):
            w = SymDict._find(o, k)
            if w is _MISSING or not truth(eq(self[k], SymDict._raw(dict.__getitem__, o, w))):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __contains__(self, k):
        if isinstance(k, Sym) or deepsym(k) or self.symkeys:
            return bool(in_(k, self))
        return dict.__contains__(self, k)

    def copy(self):
        n = type(self)()
        n.__dict__.update(self.__dict__)
        SymDict.update(n, self)
        return n


class Counter(SymDict):
    """collections.Counter over possibly symbolic elements."""

    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it, **k)

    def __missing__(self, k):
        return 0

    def update(self, it=None, **k):
        if isinstance(it, dict):
            for x in list(dict.keys(it)):
                self[x] = self[x] + SymDict._raw(dict.__getitem__, it, x)
        elif it is not None:
            for x in it:
                self[x] = self[x] + 1
        for x, v in k.items():
            self[x] = self[x] + v

    def elements(self):
        for x, n in self.items():
            for _ in range(n):
                yield x

    def total(self):
        return sum(dict.values(self))

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda x: concretise(x[1]), reverse=True)
        return r if n is None else r[:n]


class DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v

    def copy(self):
        return DefaultDict(self.default_factory, self)


def mkdictitems(l):
    """A dict display or comprehension, from its items."""
    d = SymDict()
    for k, v in l:
        d[k] = v
    return d


def mkdict(d):
    return SymDict(d) if type(d) is dict else d


class SymSet(Sym):
    """set of possibly symbolic (and possibly equal) elements."""
    pytype = set

    def __init__(self, items=()):
        self.items = list(items)

    def length(self):
        n = 0
        for i, x in enumerate(self.items):
            dup = mkbool(zor([zb(truth(eq(x, y))) for y in self.items[:i]]))
            n = n + ((0 if dup else 1) if isinstance(dup, bool) else 1 - dup.asint())
        return n

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else n.concrete()

    def __iter__(self):
        if not deepsym(self.items):
            yield from set(self.items)      # (the order of the real set)
            return
        seen = []
        for x in list(self.items):
            if not any(bool(truth(eq(x, y))) for y in seen):
                seen.append(x)
                yield x

    def contains(self, x):
        return mkbool(zor([zb(truth(eq(x, y))) for y in self.items]))

    def __contains__(self, x):
        return bool(self.contains(x))

    @staticmethod
    def _of(o):
        if isinstance(o, Union):
            o = o.resolve()
        return list(o.items) if isinstance(o, SymSet) else list(o)

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        oi = self._of(o)
        return mkbool(zand([zb(self.contains(x)) for x in oi] +
                           [zor([zb(truth(eq(x, y))) for y in oi]) for x in self.items]))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return bool(self.items)

    __hash__ = None

    def concrete(self):
        return set(concretise(list(self.items)))

    def copy(self):
        return SymSet(self.items)

    # comparisons
    def issubset(self, o):
        oi = self._of(o)
        return mkbool(zand([zor([zb(truth(eq(x, y))) for y in oi]) for x in self.items]))

    def issuperset(self, o):
        return mkbool(zand([zb(self.contains(x)) for x in self._of(o)]))

    def isdisjoint(self, o):
        return mkbool(znot(zor([zb(self.contains(x)) for x in self._of(o)])))

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return mkbool(zand([zb(self.issubset(o)), znot(zb(self.issuperset(o)))]))

    def __gt__(self, o):
        return mkbool(zand([zb(self.issuperset(o)), znot(zb(self.issubset(o)))]))

    # combinations
    def union(self, *os):
        r = list(self.items)
        for o in os:
            r += self._of(o)
        return SymSet(r)

    def intersection(self, *os):
        r = list(self.items)
        for o in os:
            oi = self._of(o)
            r = [x for x in r if bool(mkbool(zor([zb(truth(eq(x, y))) for y in oi])))]
        return SymSet(r)

    def difference(self, *os):
        r = list(self.items)
        for o in os:
            oi = self._of(o)
            r = [x for x in r if not bool(mkbool(zor([zb(truth(eq(x, y))) for y in oi])))]
        return SymSet(r)

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(self._of(o)).difference(self))

    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference

    def __rsub__(self, o):
        return SymSet(self._of(o)).difference(self)

    # changes
    def add(self, x):
        impure()
        if isinstance(x, (list, dict, set, SymSet)):
            raise TypeError("unhashable type: '%s'" % pytype(x).__name__)
        if isinstance(x, Sym) or deepsym(x) or not any(
                not isinstance(y, Sym) and type(y) is type(x) and y == x for y in self.items):
            self.items.append(x)

    def update(self, *os):
        for o in os:
            for x in self._of(o):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def discard(self, x):
        impure()
        self.items = [y for y in self.items if not bool(truth(eq(x, y)))]

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def clear(self):
        impure()
        self.items = []

    def pop(self):
        impure()
        if not self.items:
            raise KeyError('pop from an empty set')
        x = next(iter(self))
        self.discard(x)
        return x


def mkset(l):
    l = list(l)
    return set(l) if l and not deepsym(l) else SymSet(l)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        s = self.s
        while True:
            tick()
            if s > 0:
                if not truth(i < self.b):
                    return
            elif not truth(i > self.b):
                return
            yield i
            i = i + s

    def __len__(self):
        n = max(0, concretise((self.b - self.a + self.s - 1) // self.s))
        return n

    def contains(self, x):
        if self.s != 1:
            return x in range(concretise(self.a), concretise(self.b), self.s)
        return mkbool(zand([zb(x >= self.a), zb(x < self.b)]))

    def __contains__(self, x):
        return bool(self.contains(x))

    def __getitem__(self, i):
        return range(concretise(self.a), concretise(self.b), self.s)[i]


def slice(a, b, c):
    return builtins.slice(a, b, c)


def getitem(o, i):
    if isinstance(o, Union):
        o = o.resolve()
    if isinstance(i, builtins.slice):
        if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
            i = builtins.slice(*[x.resolve() if isinstance(x, Union) else x
                                 for x in (i.start, i.stop, i.step)])
            if isinstance(o, (bytes, bytearray, list, tuple, str)):
                n = len(o)
                st = concretise(i.step)
                if st is not None and st < 0:
                    return o[concretise(i.start):concretise(i.stop):st]
                return o[clamp_index(i.start, n):clamp_index(i.stop, n):st]
        return o[i]
    if isinstance(i, (SymInt, SymBool)) and isinstance(o, (list, tuple, bytes, str)):
        n = len(o)
        if not mkbool(zand([zb(i >= -n), zb(i < n)])):
            raise IndexError("index out of range")
        if isinstance(o, (list, tuple)) and n and all(
                isinstance(x, (int, SymInt, bool, SymBool)) for x in o):
            # table lookup as nested if-then-else
            try:
                r = o[-1]
                for k in range(n - 2, -1, -1):
                    hit = zor([zb(i == k), zb(i == k - n)])
                    r = merge(hit, o[k], r)
                return r
            except CannotMerge:
                pass
        return o[concretise(i)]
    return o[i]


def setitem(o, i, v):
    impure()
    if isinstance(o, Union):
        o = o.resolve()
    if isinstance(i, Sym) and isinstance(o, list):
        i = concretise(i)
    elif isinstance(o, SymDict):
        pass
    elif isinstance(i, builtins.slice):
        i = builtins.slice(concretise(i.start), concretise(i.stop), concretise(i.step))
    elif isinstance(i, Sym):
        i = concretise(i)
    o[i] = v


def setattr(o, name, v):
    en = eng()
    if isinstance(o, Union):
        o = o.resolve()
    if en is not None and en.guards:
        birth = getattr(o, '_birth', None)
        if birth is None or birth != en.guard_key():
            old = o.__dict__.get(name, _MISSING) if hasattr(o, '__dict__') else _MISSING
            if old is _MISSING:
                raise E.MustFork(en.region_sites[-1], "attribute %s not set before" % name)
            depth = 0
            if birth is not None:
                # born in an enclosing region: only the inner guards matter
                key = en.guard_key()
                while depth < len(birth) and depth < len(key) and birth[depth] == key[depth]:
                    depth += 1
            try:
                v = merge(zand(en.guards[depth:]), v, old)
            except CannotMerge as e:
                raise E.MustFork(en.region_sites[-1], "attribute %s: %s" % (name, e))
    builtins.setattr(o, name, v)


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod,
        'Pow': operator.ipow, 'LShift': operator.ilshift, 'RShift': operator.irshift,
        'BitOr': operator.ior, 'BitXor': operator.ixor, 'BitAnd': operator.iand,
        'MatMult': operator.imatmul}


def aug(op, a, b):
    if isinstance(a, (list, set, dict, bytearray)):
        impure()
    if op == 'Mod':
        return mod(a, b)
    return _AUG[op](a, b)


def mod(a, b):
    if isinstance(a, Union):
        a = a.resolve()
    if isinstance(a, SymStr) or isinstance(a, str) and (deepsym(b)):
        return ST.str_mod(a, b)
    if isinstance(a, bytes) and deepsym(b):
        return a % concretise(b)
    return a % b


def fmtval(v, conv, spec):
    if conv == 115:
        v = ST.tostr(v)
    elif conv in (114, 97):
        v = repr(concretise(v))
    return ST.fmt(v, spec)


def fjoin(parts):
    out = []
    for p in parts:
        out += p.p if isinstance(p, SymStr) else [p]
    return mkstr(out)


# ------------------------------------------------------------------ calls
H = {}           # handlers of builtins


def handler(*fs):
    def deco(h):
        for f in fs:
            H[f] = h
        return h
    return deco


@handler(isinstance)
def _isinstance(x, t):
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, Sym):
        pt = pytype(x)
        return issubclass(pt, t) if not hasattr(t, '__args__') else isinstance(pt(), t)
    return isinstance(x, t)


@handler(type)
def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Union):
            x = x.resolve()
        return pytype(x) if isinstance(x, Sym) else type(x)
    return type(*a)


@handler(len)
def _len(x):
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, SymSet):
        return x.length()
    if hasattr(x, '__symlen__'):
        return x.__symlen__()
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        raise TypeError("object of type '%s' has no len()" % pytype(x).__name__)
    return len(x)


@handler(bool)
def _bool(*a):
    return truth(a[0]) if a else False


@handler(int)
def _int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(x, Union):
        x = x.resolve()
    if not isinstance(x, Sym):
        return int(*[concretise(y) for y in a], **k)
    if base is not None:
        if isinstance(x, (ST.HexBytes, ST.HexStr)) and base == 16:
            return from_bytes(x.src.items)
        if isinstance(x, SymStr) and len(x.p) == 1 and x.p[0][0] == 'i' and \
                x.p[0][2][-1:] in ('x', 'X') and base == 16:
            return x.p[0][1]
        if isinstance(x, SymStr):
            r = ST.parse_digits(x, concretise(base))
            if r is not None:
                return r
        return int(concretise(x), base)
    if isinstance(x, SymBool):
        return x.asint()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.__trunc__()
    if isinstance(x, SymStr) and len(x.p) == 1 and x.p[0][0] == 'i' and x.p[0][2] == '':
        return x.p[0][1]
    if isinstance(x, SymStr) and len(x.p) == 1 and x.p[0][0] == 'f':
        raise ValueError("invalid literal for int() with base 10")
    if isinstance(x, SymStr):
        r = ST.parse_digits(x, 10)
        if r is not None:
            return r
    return int(concretise(x))


@handler(float)
def _float(*a):
    x = a[0] if a else 0.0
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, SymStr) and len(x.p) == 1 and x.p[0][0] in 'if' and x.p[0][2] == '':
        return tofloat(x.p[0][1])
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return tofloat(x)
    return float(concretise(x))


@handler(str)
def _str(*a, **k):
    if len(a) == 1 and not k:
        return ST.tostr(a[0])
    if a and isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


@handler(repr, ascii)
def _repr(x):
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return ST.tostr(x)
    return repr(concretise(x))


@handler(format)
def _format(x, spec=''):
    return ST.fmt(x, spec)


@handler(hex)
def _hex(x):
    return ST.fmt(x, '#x')


@handler(oct)
def _oct(x):
    return ST.fmt(x, '#o')


@handler(bin)
def _bin(x):
    return ST.fmt(x, '#b')


@handler(ord)
def _ord(c):
    if isinstance(c, Union):
        c = c.resolve()
    if isinstance(c, SymBytes):
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return c.at(0)
    if isinstance(c, SymStr):
        ch = c.chars()
        if ch is None:
            return ord(c.concrete())
        if len(ch) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(ch))
        return ch[0]
    return ord(c)


@handler(chr)
def _chr(x):
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, (SymInt, SymBool)):
        if isinstance(x, SymBool):
            x = x.asint()
        if not mkbool(zand([zb(x >= 0), zb(x <= 0x10FFFF)])):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr_chars([x])
    return chr(x)


@handler(range)
def _range(*a):
    a = [x.resolve() if isinstance(x, Union) else x for x in a]
    for x in a:
        if isinstance(x, SymFloat):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if any(isinstance(x, Sym) for x in a):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        st = concretise(a[2]) if len(a) > 2 else 1
        return SymRange(lo, hi, st)
    return range(*a)


@handler(min, max)
def _minmax_dummy(*a, **k):
    raise AssertionError


def _mm(f, pick, a, k):
    items = list(a[0]) if len(a) == 1 else list(a)
    if k.get('key') is None and items and any(isinstance(x, Sym) for x in items) and \
            all(isinstance(x, (int, SymInt, SymBool)) for x in items):
        r = items[0]
        for y in items[1:]:
            r = merge(zb(truth(pick(y, r))), y, r)
        return r
    if len(a) == 1:
        return f(items, **k)
    return f(*items, **k)


H[min] = lambda *a, **k: _mm(min, operator.lt, a, k)
H[max] = lambda *a, **k: _mm(max, operator.gt, a, k)


@handler(set)
def _set(*a):
    return mkset(a[0]) if a else SymSet()


@handler(frozenset)
def _fset(*a):
    l = list(a[0]) if a else []
    return SymSet(l) if any(isinstance(x, Sym) for x in l) else frozenset(l)


@handler(dict)
def _dict(*a, **k):
    return SymDict(*a, **k)


@handler(bytes, bytearray)
def _bytes(*a, **k):
    if not a:
        return b''
    x = a[0]
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if isinstance(x, (SymInt, SymBool)):
        return bytes(concretise(x))
    if isinstance(x, (str, bytes, bytearray, int)):
        return bytes(*a, **k)
    items = list(x)
    if any(isinstance(i, Sym) for i in items):
        for i in items:
            if isinstance(i, SymInt) and not mkbool(zand([zb(i >= 0), zb(i <= 255)])):
                raise ValueError("bytes must be in range(0, 256)")
        return mkbytes([ST._item(i) for i in items])
    return bytes(items)


@handler(int.from_bytes)
def _from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, Union):
        b = b.resolve()
    if isinstance(b, SymBytes):
        if not isinstance(byteorder, str):
            byteorder = concretise(byteorder)
        return from_bytes(b.items, signed, byteorder)
    return int.from_bytes(b, byteorder, signed=signed)


@handler(round)
def _round(x, n=None):
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, (SymInt, SymBool)) and n is not None and n >= 0:
        return x if isinstance(x, SymInt) else x.asint()
    if isinstance(x, SymBool):
        return x.asint()
    return round(x) if n is None else round(x, n)


@handler(pow)
def _pow(a, b, m=None):
    return pow(concretise(a), concretise(b), m) if m is not None else a ** b


@handler(math.ceil)
def _ceil(x):
    x = x.resolve() if isinstance(x, Union) else x
    if isinstance(x, SymBool):
        x = x.asint()
    return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)


@handler(math.floor)
def _floor(x):
    x = x.resolve() if isinstance(x, Union) else x
    if isinstance(x, SymBool):
        x = x.asint()
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


@handler(math.trunc)
def _trunc(x):
    x = x.resolve() if isinstance(x, Union) else x
    if isinstance(x, SymBool):
        x = x.asint()
    return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)


@handler(math.pow)
def _mpow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return tofloat(a) ** tofloat(b)
    return math.pow(a, b)


@handler(any)
def _any(it):
    if isinstance(it, (list, tuple)):
        return mkbool(zor([zb(truth(x)) for x in it]))
    return any(it)


@handler(all)
def _all(it):
    if isinstance(it, (list, tuple)):
        return mkbool(zand([zb(truth(x)) for x in it]))
    return all(it)


@handler(print)
def _print(*a, **k):
    en = eng()
    if en is not None:
        en.outputs.append((list(en.guards), 'print', a))


@handler(next)
def _next(*a):
    impure()
    return next(*a)


@handler(getattr)
def _getattr(o, n, *d):
    if isinstance(o, Union):
        o = o.resolve()
    return getattr(o, concretise(n), *d)


@handler(hasattr)
def _hasattr(o, n):
    if isinstance(o, Union):
        o = o.resolve()
    if isinstance(o, Sym):
        return hasattr(pytype(o), n)
    return hasattr(o, concretise(n))


@handler(builtins.setattr)
def _setattr(o, n, v):
    return setattr(o, concretise(n), v)


@handler(divmod)
def _divmod(a, b):
    return divmod(a, b)


@handler(hash)
def _hash(x):
    return hash(concretise(x))


@handler(memoryview)
def _mv(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


SAFE = {list, tuple, iter, enumerate, zip, map, filter, reversed, sorted, sum, abs, id, callable,
        object, property, staticmethod, classmethod, super, isinstance, issubclass, input, slice,
        builtins.slice, Exception, ValueError, TypeError, KeyError, IndexError, RuntimeError,
        OSError, divmod}

IMMUT = (str, bytes, int, float, tuple, frozenset, bool, type(None), range, complex)
MUTFREE = {'copy', 'count', 'index', 'get', 'keys', 'values', 'items', 'issubset', 'issuperset',
           'union', 'intersection', 'difference', 'isdisjoint', 'symmetric_difference', '__len__',
           '__getitem__', '__contains__', '__iter__', '__eq__'}


def _methods(f, self, name, a, k):
    """Builtin method `name` of the concrete object `self`."""
    if isinstance(self, str):
        if name == 'join':
            items = list(a[0])
            if any(isinstance(x, Sym) for x in items):
                return ST.join(self, items)
            return self.join(items)
        if name == 'format' and (any(deepsym(x) for x in a) or any(deepsym(x) for x in k.values())
                                 or any(hasattr(x, '__symstr__') for x in a)):
            return ST.str_format(self, a, k)
        if any(isinstance(x, Sym) for x in a):
            if name in ('startswith', 'endswith') and isinstance(a[0], SymStr):
                return getattr(SymStr([self]), name)(a[0].concrete())
            return f(*[concretise(x) for x in a], **k)
        return f(*a, **k)
    if isinstance(self, (bytes, bytearray)):
        if name == 'join':
            items = list(a[0])
            if any(isinstance(x, Sym) for x in items):
                out = []
                for n, x in enumerate(items):
                    if n:
                        out += list(self)
                    out += x.items if isinstance(x, SymBytes) else list(x)
                return mkbytes(out)
            return self.join(items)
        if any(isinstance(x, Sym) for x in a):
            return f(*[concretise(x) for x in a], **k)
        return f(*a, **k)
    if isinstance(self, (list, tuple)):
        if name == 'count' and (isinstance(a[0], Sym) or deepsym(self)):
            r = 0
            for y in self:
                t = truth(eq(y, a[0]))
                r = r + (int(t) if isinstance(t, bool) else t.asint())
            return r
        if name == 'index' and (isinstance(a[0], Sym) or deepsym(self)):
            if len(a) == 1:
                for n, y in enumerate(self):
                    if truth(eq(y, a[0])):
                        return n
                raise ValueError("not in list")
        if name == 'sort':
            impure()
            return self.sort(*a, **k)
    if isinstance(self, dict) and not isinstance(self, SymDict) and a and isinstance(a[0], Sym) \
            and name in ('get', '__getitem__', '__contains__'):
        return getattr(SymDict(self), name)(*a, **k)
    if isinstance(self, dict) and not isinstance(self, SymDict) and a and isinstance(
            a[0], Sym) and name in ('pop', 'setdefault'):
        impure()
        key = SymDict._find(self, a[0])
        if key is _MISSING:
            key = concretise(a[0])
        return getattr(dict, name)(self, key, *a[1:], **k)
    if not isinstance(self, IMMUT) and name not in MUTFREE and isinstance(
            self, (list, dict, set, bytearray)):
        impure()
    elif not isinstance(self, IMMUT) and name not in MUTFREE and not isinstance(
            self, (types.ModuleType, type)):
        # unknown native object
        if name not in ('match', 'search', 'sub', 'findall', 'fullmatch', 'split'):
            impure()
        if any(isinstance(x, Sym) for x in a):
            return f(*[concretise(x) for x in a], **{x: concretise(y) for x, y in k.items()})
    return f(*a, **k)


def call(f, *a, **k):
    if isinstance(f, Union):
        f = f.resolve()
    tf = type(f)
    if tf is types.FunctionType:
        if '_SYM_' in f.__globals__ or not any(map(issym, a)) or getattr(f, '_symok', False):
            return f(*a, **k)
        if f.__module__ and f.__module__.startswith('sym.'):
            return f(*a, **k)
        return f(*[concretise(x) for x in a], **{x: concretise(y) for x, y in k.items()})
    if tf is types.MethodType:
        return f(*a, **k)
    try:
        h = H.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, type):
                if s is int and f.__name__ == 'from_bytes':
                    return _from_bytes(*a, **k)
                if s is bytes and f.__name__ == 'fromhex':
                    return bytes.fromhex(concretise(a[0]))
                if s is dict and f.__name__ == 'fromkeys':
                    return SymDict(dict.fromkeys(*a))
                return f(*a, **k)
            return _methods(f, s, f.__name__, a, k)
        if f in SAFE or not any(map(issym, a)):
            return f(*a, **k)
        return f(*[concretise(x) for x in a], **{x: concretise(y) for x, y in k.items()})
    if tf is types.MethodDescriptorType and a:
        # str.join(x, ...) and the like
        m = getattr(a[0], f.__name__, None)
        if m is not None:
            return call(m, *a[1:], **k)
    if isinstance(f, type):
        if f.__module__ == 'builtins' and f not in SAFE and any(map(issym, a)) and \
                not issubclass(f, BaseException):
            return f(*[concretise(x) for x in a], **{x: concretise(y) for x, y in k.items()})
        return f(*a, **k)
    return f(*a, **k)
