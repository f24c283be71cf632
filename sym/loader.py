"""Loads the package under test (and the specifications) from source, instrumented."""
import builtins
import os
import sys
import types
from . import transform as TR
from . import runtime as R
from . import shims as SH

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class World:
    """One set of instrumented modules."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self.imp
        self.extra = {}
        self.vfiles = {}
        self.shims = dict(SH.SHIMS)
        self.builtins['open'], self.shims['mmap'] = SH.files(self.vfiles)

    def roots(self, top):
        if top == 'jpylyzer':
            return os.path.join(self.repo, 'jpylyzer')
        if top == 'spec' or top == 'harness':
            return os.path.join(VERIF, top)
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        root = self.roots(parts[0])
        path = os.path.join(root, *parts[1:])
        parent = self.load('.'.join(parts[:-1])) if len(parts) > 1 else None
        m = types.ModuleType(name)
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            m.__path__ = [path]
            m.__package__ = name
        else:
            f = path + '.py'
            m.__package__ = '.'.join(parts[:-1])
        if not os.path.exists(f):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m.__file__ = f
        m.__builtins__ = self.builtins
        m._SYM_ = R
        self.mods[name] = m
        with open(f, 'rb') as fh:
            src = fh.read()
        self.sources[f] = src
        try:
            code = TR.transform(src, f, name)
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            absname = pkg + ('.' + name if name else '')
        else:
            absname = name
        top = absname.split('.')[0]
        if self.roots(top) is not None:
            m = self.load(absname)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(absname + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if absname in self.shims:
            if fromlist:
                return self.shims[absname]
            return self.shims.get(top, self.shims[absname])
        m = builtins.__import__(name, globals, locals, fromlist, level)
        return m
