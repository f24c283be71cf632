"""Harness contexts.  The same harness runs symbolically (SymCtx, instrumented code) and
concretely (ConcCtx, the real code in an ordinary interpreter)."""


class ReplayMismatch(Exception):
    pass


class AssumeFailed(Exception):
    pass


def newdir(ctx):
    """A scratch directory; the current directory of this process is restored afterwards."""
    import os
    import tempfile
    ctx._cwd = os.getcwd()
    return os.path.realpath(tempfile.mkdtemp(prefix='verif-'))


def place(top, name):
    import os
    path = os.path.join(top, name)
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    return path


def dropdir(ctx, top):
    import os
    import shutil
    os.chdir(ctx._cwd)
    shutil.rmtree(top, ignore_errors=True)


class Node:
    """Plain snapshot of an element: tag, text, kids = [(guard, Node)]."""
    __slots__ = ('tag', 'text', 'kids')

    def __init__(self, tag, text, kids):
        self.tag, self.text, self.kids = tag, text, kids


class ConcCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.checked = 0
        self.obs = {}
        self._patches = []
        self._tmp = None

    def bytes(self, name, n):
        b = bytes.fromhex(self.inputs.get(name, ''))
        if len(b) != n:
            b = (b + bytes(n))[:n]
        return b

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choose(self, name, options):
        return options[self.inputs.get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, label, cond):
        self.checked += 1
        if not cond:
            self.failed.append(label)

    def observe(self, name, value):
        self.obs[name] = plain(value)

    def work(self, fn):
        """(result, number of loop iterations) of a call: how often the first line of a loop
        of the code under test is run."""
        import ast
        import sys
        heads = {}
        n = [0]

        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno in heads[frame.f_code.co_filename]:
                n[0] += 1
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if '/jpylyzer/' not in f:
                return None
            if f not in heads:
                with open(f, 'rb') as fh:
                    heads[f] = {x.lineno for x in ast.walk(ast.parse(fh.read()))
                                if isinstance(x, (ast.For, ast.While))}
            return local
        sys.settrace(tracer)
        try:
            r = fn()
        finally:
            sys.settrace(None)
        return r, n[0]

    def surely(self, x):
        """True if x is True without having to decide anything."""
        return x is True

    def tree(self, elem):
        return [(True, c) for c in elem]

    def stub(self, obj, name, fn):
        pass

    def patch(self, obj, name, fn):
        """Replace an attribute (an environment stand-in) for this run, here too."""
        had = name in vars(obj)
        self._patches.append((obj, name, vars(obj)[name] if had else None, had))
        setattr(obj, name, fn)

    def dir(self):
        if self._tmp is None:
            self._tmp = newdir(self)
        return self._tmp

    def file(self, name, data):
        """Path of a file with this content, in a scratch directory of this run."""
        path = place(self.dir(), name)
        with open(path, 'wb') as f:
            f.write(data)
        return path

    def unstub(self):
        for obj, name, old, had in reversed(self._patches):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._patches = []
        if self._tmp is not None:
            dropdir(self, self._tmp)
            self._tmp = None

    def note(self, *a):
        pass


def plain(v):
    """JSON-able form of a concrete value."""
    if v is None or isinstance(v, (bool, int, str)):
        return v if not isinstance(v, int) or isinstance(v, bool) or abs(v) < 2 ** 53 else \
            {'i': hex(v)}
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, 'tag') and hasattr(v, 'text'):
        return [v.tag, plain(v.text), [plain(c) for c in v]]
    return {'s': str(v)}
