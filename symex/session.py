"""What a harness sees: a source of inputs and a place to state assertions.

SymSession makes the inputs solver variables (needs z3); ConcreteSession replays recorded values
through exactly the same harness on plain, unmodified code."""


class Abort(BaseException):
    """the current input lies outside the harness's domain"""


class Failed(BaseException):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


FULL = ((0, 0xd7ff), (0xe000, 0x10ffff))       # every Unicode scalar value
ASCII = ((0, 127),)


class Base:
    symbolic = False

    def __init__(self):
        self.reached = {}
        self.observations = []
        self.cleanups = []

    def reset(self):
        self.observations = []
        self.cleanups = []

    # -- inputs
    def pick(self, options, name='pick'):
        options = list(options)
        return options[self.choose(len(options), name)]

    def flag(self, name='flag'):
        return self.choose(2, name) == 1

    def string(self, name, minlen, maxlen=None, ranges=FULL, default=None):
        n = minlen
        if maxlen is not None and maxlen > minlen:
            n = minlen + self.choose(maxlen - minlen + 1, name + '.len')
        return self.chars(name, n, ranges, default)

    def subset(self, items, name='subset'):
        return [x for i, x in enumerate(items) if self.flag(f'{name}.{i}')]

    # -- results
    def reach(self, tag):
        self.reached[tag] = self.reached.get(tag, 0) + 1

    def obs(self, *xs):
        self.observations.append(xs)

    def raises(self, exc, fn, *a, **k):
        """-> the exception if fn raises exc (a class or tuple), else None; other exceptions escape"""
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None

    def run(self, fn, *a, **k):
        """-> ('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except Exception as e:
            return 'exc', e


class ConcreteSession(Base):
    def __init__(self, log, scratch=None):
        super().__init__()
        self.log = list(log)
        self.i = 0
        self.scratch = scratch

    def _take(self, name):
        if self.i >= len(self.log):
            raise Abort(f'no recorded value for {name}')
        n, v = self.log[self.i]
        self.i += 1
        if n.partition('@')[0] != name:
            raise Abort(f'recorded {n}, asked for {name}')
        return v

    def int(self, name, lo, hi, default=None):
        v = self._take(name)
        if not lo <= v <= hi:
            raise Abort('out of range')
        return v

    def real(self, name, lo, hi, scale, default=None):
        return self.int(name, lo, hi) / scale

    def decimal(self, name, lo, hi, scale, default=None):
        """-> (the number n/scale, n)"""
        n = self.int(name, lo, hi)
        return n / scale, n

    def chars(self, name, n, ranges=FULL, default=None):
        return ''.join(chr(self._take(f'{name}[{k}]')) for k in range(n))

    def choose(self, n, name='c'):
        return self._take(name)

    def assume(self, c):
        if not c:
            raise Abort('assumption')

    def check(self, c, msg, key=None):
        if not c:
            raise Failed(msg() if callable(msg) else msg, key)

    def fail(self, msg, key=None):
        raise Failed(msg() if callable(msg) else msg, key)

    def path(self, name):
        import os
        return os.path.join(self.scratch, name)

    def exists(self, p):
        import os
        return os.path.exists(p)

    def locale(self, encoding):
        """the encoding of text files for which none is given"""
        import builtins
        import io
        was = builtins.open

        def opened(file, mode='r', buffering=-1, enc=None, *a, **k):
            enc = k.pop('encoding', enc)
            if 'b' not in mode and enc in (None, 'locale'):
                enc = encoding
            return was(file, mode, buffering, enc, *a, **k)
        builtins.open = io.open = opened

        def undo():
            builtins.open = io.open = was
        self.cleanups.append(undo)

    def hash_of(self, x):
        return hash(x)

    def is_true(self, c):
        return bool(c)


class SymSession(Base):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def int(self, name, lo, hi, default=None):
        from .values import SymInt
        if hi > 2 ** 53 or lo < -2 ** 53:
            from . import instrument
            instrument.VFS.wide = True
        v, e = self.eng.int_var(name, lo, hi, default)
        return SymInt(v, e)

    def real(self, name, lo, hi, scale, default=None):
        from .values import SymReal
        v, e = self.eng.int_var(name, lo, hi, default)
        return SymReal(v, e, scale)

    def decimal(self, name, lo, hi, scale, default=None):
        from .values import SymReal, SymInt
        v, e = self.eng.int_var(name, lo, hi, default)
        return SymReal(v, e, scale), SymInt(v, e)

    def chars(self, name, n, ranges=FULL, default=None):
        from .values import SymStr
        if n == 0:
            return ''
        vs, es = [], []
        for k in range(n):
            d = ord(default[k % len(default)]) if default else (97 + k % 26)
            if not any(lo <= d <= hi for lo, hi in ranges):
                d = ranges[0][0]
            v, e = self.eng.int_var(f'{name}[{k}]', 0, 0, d, ranges)
            vs.append(chr(v))
            es.append(e)
        return SymStr(''.join(vs), tuple(es))

    def choose(self, n, name='c'):
        return self.eng.choose(n, name)

    def assume(self, c):
        from .values import SymBool
        from .engine import PathAbort
        if isinstance(c, SymBool):
            c = self.eng.branch(c.e, c.v, 'assume')
        if not c:
            raise PathAbort

    def check(self, c, msg, key=None):
        from .values import SymBool
        from .engine import Violation
        if isinstance(c, SymBool):
            if c.e.id in self.eng.known:
                self.eng.asserts_path += 1
                c = self.eng.known[c.e.id]
            else:
                c = self.eng.branch(c.e, c.v, 'assert')
        else:
            self.eng.asserts_path += 1
        if not c:
            raise Violation(msg() if callable(msg) else msg, key)

    def fail(self, msg, key=None):
        from .engine import Violation
        raise Violation(msg() if callable(msg) else msg, key)

    def path(self, name):
        return '/symfs/' + name

    def locale(self, encoding):
        from . import instrument
        instrument.VFS.locale = encoding

    def exists(self, p):
        from . import instrument
        return p in instrument.VFS.files

    def hash_of(self, x):
        from . import instrument
        return _H(instrument.m_hash(x))

    def is_true(self, c):
        return bool(c)


class _H:
    """a hash value, compared as an uninterpreted injective function of what was hashed"""

    def __init__(self, h):
        from .instrument import hash_tree
        self.tree = hash_tree(h)

    def __eq__(self, o):
        return _eqp(self.tree, o.tree)


def _eqp(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 't':
        return all_(_eqp(x, y) for x, y in zip(a[1:], b[1:]))
    x, y = a[1], b[1]
    if isinstance(x, str) != isinstance(y, str) or (x is None) != (y is None):
        return False
    return x == y


def plain(x, seen=0):
    """observation -> JSON-able structure without symbolic parts (uses shadows; for comparison of a
    symbolic path with the plain run of the same inputs)"""
    t = type(x).__name__
    if t in ('SymStr', 'LazyStr'):
        from .values import parts
        return ['s', parts(x)[0]]
    if isinstance(x, str):
        return ['s', str.__str__(x)]
    if t == 'SymBool':
        return x.v
    if t == 'SymInt':
        return x.v
    if t == 'SymReal':
        return ['f', x.v]
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, float):
        return ['f', x]
    if isinstance(x, BaseException):
        return ['exc', type(x).__name__]
    if isinstance(x, dict):
        return ['d'] + sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((plain(k) for k in x), key=repr)
    if isinstance(x, (list, tuple)):
        return ['l'] + [plain(v) for v in x]
    d = getattr(x, 'value', None)
    if type(x).__name__ == 'JSON':
        return ['json', plain(d)]
    return ['o', type(x).__name__]


# non-forking logic over bool | SymBool, for oracles
def no(b):
    return (not b) if b.__class__ is bool else ~b


def all_(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        r = r & x
    return r


def any_(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        r = r | x
    return r


def iff(a, b):
    return (a & b) | (no(a) & no(b))


def implies(a, b):
    return no(a) | b


def eq_(a, b):
    """a == b as one condition, for strings/ints and lists of them"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all_(eq_(x, y) for x, y in zip(a, b))
    return a == b
