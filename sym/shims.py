"""Symbolic stand-ins for the C-implemented library modules the code calls."""
import binascii as _binascii
import struct as _struct
import sys as _sys
import unicodedata as _unicodedata
import uuid as _uuid
import types
import z3
from . import engine as E
from . import strings as ST
from . import runtime as R
from .values import (Sym, SymInt, SymBool, SymBytes, SymFloat, Union, mkbool, mkbytes, zand, zor,
                     zb, eng, truth, from_bytes, TRUE, znot, merge)
from .strings import SymStr, mkstr


# ------------------------------------------------------------------ struct
class struct:
    error = _struct.error
    SZ = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True),
          'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}

    @staticmethod
    def calcsize(f):
        return _struct.calcsize(R.concretise(f))

    @staticmethod
    def unpack(f, b):
        f = R.concretise(f)
        if isinstance(b, Union):
            b = b.resolve()
        if not isinstance(b, SymBytes):
            return _struct.unpack(f, b)
        if _struct.calcsize(f) != len(b):
            raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(f))
        order = 'little'
        body = f
        if f[:1] in '@=<>!':
            body = f[1:]
            order = 'big' if f[0] in '>!' else 'little'
        if f[:1] not in '=<>!' and any(c in 'lLqQ' for c in f):
            return _struct.unpack(f, b.concrete())
        import re
        out = []
        pos = 0
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', body.replace(' ', '')):
            k = int(n) if n else 1
            if c == 's':
                out.append(b[pos:pos + k])
                pos += k
                continue
            if c == 'x':
                pos += k
                continue
            for _ in range(k):
                if c == 'c':
                    out.append(b[pos:pos + 1])
                    pos += 1
                    continue
                if c not in struct.SZ:
                    return _struct.unpack(f, b.concrete())
                sz, sg = struct.SZ[c]
                out.append(from_bytes(b.items[pos:pos + sz], sg, order))
                pos += sz
        return tuple(out)

    @staticmethod
    def unpack_from(f, b, offset=0):
        n = _struct.calcsize(R.concretise(f))
        x = R.getitem(b, R.slice(offset, offset + n, None))
        if len(x) != n:
            raise _struct.error("unpack_from requires a buffer of at least %d bytes" % n)
        return struct.unpack(f, x)

    @staticmethod
    def pack(f, *a):
        f = R.concretise(f)
        if not any(isinstance(x, Sym) for x in a):
            return _struct.pack(f, *a)
        out = []
        order = 'big' if f[0] in '>!' else 'little'
        import re
        a = list(a)
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', f.lstrip('@=<>!')):
            for _ in range(int(n) if n else 1):
                sz, sg = struct.SZ[c]
                v = a.pop(0)
                v = v.to_bytes(sz, order, signed=sg)
                out += list(v) if isinstance(v, bytes) else v.items
        return mkbytes(out)

    class Struct:
        def __init__(self, f):
            self.format = f
            self.size = _struct.calcsize(f)

        def unpack(self, b):
            return struct.unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return struct.unpack_from(self.format, b, offset)

        def pack(self, *a):
            return struct.pack(self.format, *a)


for _n in ('calcsize', 'unpack', 'unpack_from', 'pack'):
    R.H[getattr(struct, _n)] = getattr(struct, _n)


# ------------------------------------------------------------------ binascii
class binascii:
    Error = _binascii.Error
    unhexlify = _binascii.unhexlify
    crc32 = _binascii.crc32

    @staticmethod
    def hexlify(b, *a):
        if isinstance(b, Union):
            b = b.resolve()
        return ST.hexlify(b)

    b2a_hex = hexlify


# ------------------------------------------------------------------ unicodedata
class _UD:
    def __getattr__(self, n):
        return getattr(_unicodedata, n)

    @staticmethod
    def category(c):
        if isinstance(c, Union):
            c = c.resolve()
        if isinstance(c, SymStr):
            ch = c.chars()
            if ch is None:
                return _unicodedata.category(c.concrete())
            if len(ch) != 1:
                raise TypeError("category() argument must be a unicode character")
            return ST.Category(ch[0])
        return _unicodedata.category(c)


unicodedata = _UD()


# ------------------------------------------------------------------ uuid
class UUID:
    def __new__(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None,
                **k):
        if isinstance(bytes, Union):
            bytes = bytes.resolve()
        if isinstance(hex, Union):
            hex = hex.resolve()
        if isinstance(bytes, SymBytes) and hex is None:
            if len(bytes) != 16:
                raise ValueError('bytes is not a 16-char string')
            o = object.__new__(cls)
            o.bytes = bytes
            return o
        if isinstance(hex, ST.HexStr):
            if len(hex.src) != 16:
                raise ValueError('badly formed hexadecimal UUID string')
            o = object.__new__(cls)
            o.bytes = hex.src
            return o
        if isinstance(int, SymInt):
            o = object.__new__(cls)
            o.bytes = int.to_bytes(16, 'big')
            return o
        return _uuid.UUID(hex=R.concretise(hex), bytes=R.concretise(bytes), int=R.concretise(int),
                          bytes_le=R.concretise(bytes_le), **k)

    def __symstr__(self):
        h = ST.hexstr(self.bytes if isinstance(self.bytes, SymBytes)
                      else SymBytes(list(self.bytes)))
        return h[0:8] + '-' + h[8:12] + '-' + h[12:16] + '-' + h[16:20] + '-' + h[20:32]

    @property
    def hex(self):
        return ST.hexstr(self.bytes)

    @property
    def int(self):
        return from_bytes(self.bytes.items)

    @property
    def urn(self):
        return 'urn:uuid:' + self.__symstr__()

    def __eq__(self, o):
        return R.eq(self.bytes, o.bytes)

    def __str__(self):
        raise E.Unsupported("native str() of a symbolic UUID")


class _UM:
    UUID = UUID

    def __getattr__(self, n):
        return getattr(_uuid, n)


uuid = _UM()


# ------------------------------------------------------------------ sys
class Stream:
    def __init__(self, name):
        self.name = name
        self.encoding = 'utf-8'
        self.buffer = self

    def write(self, s):
        en = eng()
        if en is not None:
            en.outputs.append((list(en.guards), self.name, s))

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return 2


class _Sys:
    def __init__(self):
        self.stderr = Stream('stderr')
        self.stdout = Stream('stdout')
        self.argv = ['jpylyzer']

    def __getattr__(self, n):
        return getattr(_sys, n)

    @staticmethod
    def exit(*a):
        raise SystemExit(*a)


sys = _Sys()


# ------------------------------------------------------------------ ElementTree
class ParseError(SyntaxError):
    pass


class Element:
    """Pure Python element whose children are present under guards."""

    def __init__(self, tag, attrib=None, **extra):
        en = eng()
        d = self.__dict__
        d['_birth'] = en.guard_key() if en is not None and en.guards else None
        d['tag'] = tag
        d['text'] = None
        d['tail'] = None
        a = dict(attrib or {})
        a.update(extra)
        d['attrib'] = a
        d['_kids'] = []      # (guard z3 Bool, element)

    def __copy__(self):
        e = Element(self.tag, self.attrib)
        e.text, e.tail = self.text, self.tail
        e._kids.extend(self._kids)
        return e

    def _g(self):
        en = eng()
        if en is None or not en.guards:
            return TRUE
        depth = 0
        if self._birth:
            key = en.guard_key()
            while depth < len(self._birth) and depth < len(key) and \
                    self._birth[depth] == key[depth]:
                depth += 1
        return zand(en.guards[depth:])

    def append(self, sub):
        if not isinstance(sub, Element):
            raise TypeError("expected an Element, not %s" % type(sub).__name__)
        g = self._g()
        self._kids.append((g, sub))

    def extend(self, subs):
        for s in list(subs):
            self.append(s)

    def _present(self):
        out = []
        for g, c in self._kids:
            if z3.is_true(g) or eng().decide(g):
                out.append(c)
        return out

    def insert(self, i, sub):
        R.impure()
        kids = self._present()
        kids.insert(R.concretise(i), sub)
        self._kids[:] = [(TRUE, k) for k in kids]

    def remove(self, sub):
        R.impure()
        for n, (g, c) in enumerate(self._kids):
            if c is sub:
                del self._kids[n]
                return
        raise ValueError("Element.remove(x): element not found")

    def clear(self):
        R.impure()
        self._kids[:] = []
        self.text = self.tail = None
        self.attrib.clear()

    def __symlen__(self):
        n = 0
        for g, c in self._kids:
            b = mkbool(g)
            n = n + (int(b) if isinstance(b, bool) else b.asint())
        return n

    def __len__(self):
        return len(self._present())

    def __bool__(self):
        return len(self) != 0

    def __getitem__(self, i):
        return self._present()[i if isinstance(i, slice) else R.concretise(i)]

    def __setitem__(self, i, v):
        R.impure()
        kids = self._present()
        kids[i] = v
        self._kids[:] = [(TRUE, k) for k in kids]

    def __delitem__(self, i):
        R.impure()
        kids = self._present()
        del kids[i]
        self._kids[:] = [(TRUE, k) for k in kids]

    def __iter__(self):
        n = 0
        while n < len(self._kids):
            g, c = self._kids[n]
            n += 1
            if z3.is_true(g) or eng().decide(g):
                yield c

    def iter(self, tag=None):
        if tag == '*':
            tag = None
        if tag is None or R.truth(R.eq(self.tag, tag)):
            yield self
        for c in self:
            yield from c.iter(tag)

    def itertext(self):
        for e in self.iter():
            if e.text:
                yield e.text

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, v):
        R.impure()
        self.attrib[k] = v

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def _step(self, nodes, step):
        out = []
        for n in nodes:
            for g, c in n._kids:
                if step != '*' and not R.truth(R.eq(c.tag, step)):
                    continue
                if z3.is_true(g) or eng().decide(g):
                    out.append(c)
        return out

    def findall(self, path, namespaces=None):
        path = R.concretise(path)
        if '[' in path or '{' in path:
            import re
            if '[' in path:
                raise E.Unsupported("element path %r" % path)
        nodes = [self]
        parts = _split(path)
        k = 0
        while k < len(parts):
            p = parts[k]
            if p == '.':
                pass
            elif p == '':        # '//'
                k += 1
                t = parts[k]
                out = []
                for n in nodes:
                    for e in n.iter():
                        if e is not n and (t == '*' or R.truth(R.eq(e.tag, t))):
                            out.append(e)
                nodes = out
            else:
                nodes = self._step(nodes, p)
            k += 1
        return nodes

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path))

    def find(self, path, namespaces=None):
        path = R.concretise(path)
        parts = _split(path)
        if len(parts) == 1 and parts[0] not in ('.', '', '*'):
            for g, c in self._kids:
                if R.truth(R.eq(c.tag, path)) and (z3.is_true(g) or eng().decide(g)):
                    return c
            return None
        r = self.findall(path)
        return r[0] if r else None

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path)
        if e is None:
            return default
        return e.text or ""

    def makeelement(self, tag, attrib):
        return Element(tag, attrib)

    def __repr__(self):
        return '<Element %r>' % (self.tag,)


def _split(path):
    import re
    # keep {namespace}tag together
    return re.findall(r'((?:\{[^}]*\})?[^/]*)(?:/|$)', path)[:-1] if not path.endswith('/') \
        else path.split('/')


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


SubElement._symok = True


class ETModule:
    Element = Element
    SubElement = staticmethod(SubElement)
    ParseError = ParseError

    def __init__(self):
        self.fromstring_stub = None

    def fromstring(self, text, *a):
        if self.fromstring_stub is not None:
            return self.fromstring_stub(text)
        import xml.etree.ElementTree as RET
        if isinstance(text, Sym):
            text = R.concretise(text)
        try:
            return conv(RET.fromstring(text))
        except RET.ParseError as e:
            raise ParseError(str(e))

    XML = fromstring

    def tostring(self, elem, encoding=None, method=None, **k):
        import xml.etree.ElementTree as RET
        return RET.tostring(unconv(elem), encoding, method, **k)

    def iselement(self, e):
        return isinstance(e, Element)

    def register_namespace(self, *a):
        pass

    def QName(self, *a):
        import xml.etree.ElementTree as RET
        return RET.QName(*a)


def conv(e):
    n = Element(e.tag, dict(e.attrib))
    n.text, n.tail = e.text, e.tail
    for c in e:
        n.append(conv(c))
    return n


def unconv(e):
    import xml.etree.ElementTree as RET
    n = RET.Element(e.tag, dict(e.attrib))
    n.text, n.tail = R.concretise(e.text), e.tail
    for c in e:
        n.append(unconv(c))
    return n


ET = ETModule()


# ------------------------------------------------------------------ files
class VFile:
    """A file opened for reading whose content is (partly) symbolic."""

    def __init__(self, f, data, fds):
        self.f, self.data, self.pos = f, data, 0
        self.name = f.name
        self.mode = 'rb'
        fds[f.fileno()] = self
        self.fds = fds

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self.f.closed:
            self.fds.pop(self.f.fileno(), None)
            self.f.close()

    @property
    def closed(self):
        return self.f.closed

    def fileno(self):
        return self.f.fileno()

    def read(self, n=-1):
        n = R.concretise(n)
        end = len(self.data) if n is None or n < 0 else self.pos + n
        b = self.data[self.pos:end]
        self.pos = min(end, len(self.data))
        return b

    def seek(self, off, whence=0):
        off = R.concretise(off)
        self.pos = off + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        return self.pos


class MMap(SymBytes):
    """A memory map of it."""
    __slots__ = ('isclosed',)

    def close(self):
        self.isclosed = True

    def size(self):
        return len(self.items)


def files(vfiles):
    """open() and the mmap module for a world with these virtual files."""
    import os
    import mmap as _mmap
    fds = {}

    def vopen(file, mode='r', *a, **k):
        f = open(file, mode, *a, **k)
        if isinstance(file, str) and vfiles:
            p = os.path.realpath(file)
            if p in vfiles and 'b' in mode and 'r' in mode:
                return VFile(f, vfiles[p], fds)
        return f

    def vmap(fileno, length, *a, **k):
        if fileno not in fds:
            return _mmap.mmap(fileno, length, *a, **k)
        data = fds[fileno].data
        if len(data) == 0:
            raise ValueError("cannot mmap an empty file")
        return MMap(list(data) if isinstance(data, bytes) else data.items)
    vopen._symok = vmap._symok = True
    m = types.ModuleType('mmap')
    m.__dict__.update({n: getattr(_mmap, n) for n in dir(_mmap) if n.isupper() or '_' in n
                       and n[0] != '_'})
    m.mmap = vmap
    return vopen, m


def ns(**k):
    m = types.ModuleType('shim')
    m.__dict__.update(k)
    return m


import collections as _collections      # noqa
collections = ns(**{n: getattr(_collections, n) for n in _collections.__all__})
collections.Counter, collections.defaultdict = R.Counter, R.DefaultDict
collections.OrderedDict = R.SymDict
collections.abc = _collections.abc

SHIMS = {
    'collections': collections,
    'struct': struct, 'binascii': binascii, 'unicodedata': unicodedata, 'uuid': uuid, 'sys': sys,
    'xml.etree.ElementTree': ET,
    'xml.etree': ns(ElementTree=ET),
    'xml': ns(etree=ns(ElementTree=ET)),
}
