"""Proxy values: Python numbers and strings that carry a concrete shadow and a symbolic expression."""
import sys
import unicodedata

from . import engine
from .engine import NoFork
from .expr import E, mk, e_not

# ------------------------------------------------------------------ expression helpers


def x_add(a, b):
    if isinstance(a, E) or isinstance(b, E):
        if not isinstance(b, E):
            if b == 0:
                return a
            if a.op == 'add' and not isinstance(a.args[1], E):
                return x_add(a.args[0], a.args[1] + b)
        elif not isinstance(a, E):
            return x_add(b, a)
        return mk('add', a, b)
    return a + b


def x_neg(a):
    return mk('neg', a) if isinstance(a, E) else -a


def x_sub(a, b):
    if isinstance(b, E):
        if a is b:
            return 0
        return mk('sub', a, b)
    return x_add(a, -b) if isinstance(a, E) else a - b


def x_mul(a, b):
    if isinstance(a, E) or isinstance(b, E):
        if not isinstance(a, E):
            a, b = b, a
        if not isinstance(b, E):
            if b == 0:
                return 0
            if b == 1:
                return a
        return mk('mul', a, b)
    return a * b


def b_cmp(op, a, b):
    """-> E or bool"""
    if not isinstance(a, E) and not isinstance(b, E):
        return {'eq': a == b, 'lt': a < b, 'le': a <= b}[op]
    if a is b:
        return op != 'lt'
    if op == 'eq' and not isinstance(a, E):
        a, b = b, a
    if isinstance(a, E) and not isinstance(b, E) and (r := span(a)):
        if op == 'eq' and not any(lo <= b <= hi for lo, hi in r):
            return False
        if op != 'eq':
            if r[0][0] > b or op == 'lt' and r[0][0] == b:
                return False
            if r[-1][1] < b or op == 'le' and r[-1][1] == b:
                return True
    elif isinstance(b, E) and not isinstance(a, E) and (r := span(b)):
        if r[-1][1] < a or op == 'lt' and r[-1][1] == a:
            return False
        if r[0][0] > a or op == 'le' and r[0][0] == a:
            return True
    return mk(op, a, b)


_U8 = {2: ((0xc2, 0xdf),), 3: ((0xe0, 0xef),), 4: ((0xf0, 0xf4),)}


def span(e):
    """a superset of the values of a hexadecimal digit / UTF-8 byte term, as sorted ranges"""
    if e.op == 'hexd':
        return ((48, 57), (65, 70))
    if e.op == 'dch':      # made only where the path condition fixes the number of digits
        return ((49 if e.args[2] and e.args[1] else 48, 57),)
    if e.op == 'u8':
        return _U8[e.args[1]] if e.args[2] == 0 else ((0x80, 0xbf),)
    return None


def b_in(a, ranges):
    if isinstance(a, E):
        if r := span(a):
            if all(any(lo <= x and y <= hi for lo, hi in ranges) for x, y in r):
                return True
            if not any(x <= hi and lo <= y for x, y in r for lo, hi in ranges):
                return False
        return mk('in', a, ranges)
    return any(lo <= a <= hi for lo, hi in ranges)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def b_not(x):
    if isinstance(x, E):
        return e_not(x)
    return not x


def mkbool(e, shadow):
    if isinstance(e, E):
        return SymBool(e, bool(shadow))
    return e


def mkint(e, shadow):
    if isinstance(e, E):
        return SymInt(shadow, e)
    return shadow


# ------------------------------------------------------------------ booleans

class SymBool:
    __slots__ = ('e', 'v')

    def __init__(self, e, v):
        self.e, self.v = e, v

    def __bool__(self):
        return engine.ENGINE.branch(self.e, self.v)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(b_and(self.e, o.e), self.v and o.v)
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(b_or(self.e, o.e), self.v or o.v)
        return True if o else self
    __ror__ = __or__

    def __invert__(self):
        return SymBool(e_not(self.e), not self.v)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(b_or(b_and(self.e, o.e), b_and(b_not(self.e), b_not(o.e))), self.v == o.v)
        if o is True or (type(o) in (int, float) and o == 1):
            return self
        if o is False or (type(o) in (int, float) and o == 0):
            return ~self
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return bool(self) + o
    __radd__ = __add__

    def __repr__(self):
        return f'<SymBool {self.v}>'

    def __deepcopy__(self, memo):
        return self


def sh(x):
    """concrete shadow"""
    t = type(x)
    if t is SymBool:
        return x.v
    if t is SymInt or t is SymReal:
        return x.v
    if t is SymStr or t is LazyStr:
        return parts(x)[0]
    return x


# ------------------------------------------------------------------ numbers

class HashFlag:
    count = 0


HASHED = HashFlag


def _iexpr(x):
    """int-like -> (value, expr) or None"""
    t = type(x)
    if t is SymInt:
        return x.v, x.e
    if t is int or t is bool:
        return int(x), int(x)
    if t is SymBool:
        b = int(bool(x))
        return b, b
    if isinstance(x, SymInt):
        return x.v, x.e
    if isinstance(x, int):
        return int(x), int(x)
    return None


def _cmp_num(a, b, op):
    """exact comparison of two numbers as rationals; -> SymBool|bool|NotImplemented"""
    ra, rb = _rat(a), _rat(b)
    if ra is None or rb is None:
        return NotImplemented
    va, na, da = ra
    vb, nb, db = rb
    if na is None or nb is None:        # inf / nan
        va = va if na is None else 0.0
        vb = vb if nb is None else 0.0
        return {'eq': va == vb, 'lt': va < vb, 'le': va <= vb}[op]
    ea = x_mul(na, db)
    eb = x_mul(nb, da)
    sa = va[0] * db
    sb = vb[0] * da
    return mkbool(b_cmp(op, ea, eb), {'eq': sa == sb, 'lt': sa < sb, 'le': sa <= sb}[op])


def _rat(x):
    """-> ((shadow numerator,), numerator expr, positive denominator)"""
    t = type(x)
    if t is SymReal:
        return (x.n,), x.e, x.scale
    i = _iexpr(x)
    if i is not None:
        return (i[0],), i[1], 1
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return x, None, 1
        from fractions import Fraction
        # a float literal stands for the decimal it prints as (<= 15 significant digits)
        f = Fraction(repr(float(x)))
        return (f.numerator,), f.numerator, f.denominator
    return None


class SymInt(int):


    def __new__(cls, v, e):
        self = int.__new__(cls, v)
        self.v = int(v)
        self.e = e
        return self

    def _bin(self, o, fs, fe):
        p = _iexpr(o)
        if p is None:
            return NotImplemented
        return mkint(fe(self.e, p[1]), fs(self.v, p[0]))

    def __add__(self, o):
        if isinstance(o, float):
            return SymReal(self.v, self.e, 1) + o
        return self._bin(o, lambda a, b: a + b, x_add)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return SymReal(self.v, self.e, 1) - o
        return self._bin(o, lambda a, b: a - b, x_sub)

    def __rsub__(self, o):
        p = _iexpr(o)
        if p is None:
            return NotImplemented
        return mkint(x_sub(p[1], self.e), p[0] - self.v)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        if isinstance(o, float):
            return SymReal(self.v, self.e, 1) * o
        return self._bin(o, lambda a, b: a * b, x_mul)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(x_neg(self.e), -self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __invert__(self):
        return mkint(x_sub(-1, self.e), ~self.v)

    def _divmod(self, o):
        p = _iexpr(o)
        if p is None:
            return None
        ov, oe = p
        if isinstance(oe, E):
            ov = oe = int(pin(o, 'divisor'))
        if ov == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if ov > 0:
            return (mkint(mk('ediv', self.e, ov), self.v // ov), mkint(mk('emod', self.e, ov), self.v % ov))
        m = mkint(x_neg(mk('emod', x_neg(self.e), -ov)), self.v % ov)
        q = mkint(mk('ediv', x_neg(self.e), -ov), self.v // ov)
        return q, m

    def __floordiv__(self, o):
        if isinstance(o, float):
            return SymReal(self.v, self.e, 1) // o
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        if isinstance(o, float):
            return SymReal(self.v, self.e, 1) % o
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        if isinstance(o, float):
            return divmod(SymReal(self.v, self.e, 1), o)
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return o // pin(self, 'divisor')

    def __rmod__(self, o):
        return o % pin(self, 'divisor')

    def __truediv__(self, o):
        p = _iexpr(o)
        if p is None:
            return SymReal(self.v, self.e, 1) / o
        ov = int(pin(o, 'divisor')) if isinstance(p[1], E) else p[0]
        if ov == 0:
            raise ZeroDivisionError('division by zero')
        if ov < 0:
            return SymReal(-self.v, x_neg(self.e), -ov)
        return SymReal(self.v, self.e, ov)

    def __rtruediv__(self, o):
        return o / pin(self, 'divisor')

    def __pow__(self, o, m=None):
        return pow(pin(self, 'pow'), pin(o, 'pow'), m) if m else pin(self, 'pow') ** pin(o, 'pow')

    def __rpow__(self, o):
        return o ** pin(self, 'pow')

    def __eq__(self, o):
        if isinstance(o, SymReal) or isinstance(o, float):
            return _cmp_num(self, o, 'eq')
        p = _iexpr(o)
        if p is None:
            return False if isinstance(o, (str, list, tuple, dict, type(None))) else NotImplemented
        return mkbool(b_cmp('eq', self.e, p[1]), self.v == p[0])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)

    def __lt__(self, o):
        return _cmp_num(self, o, 'lt')

    def __le__(self, o):
        return _cmp_num(self, o, 'le')

    def __gt__(self, o):
        return _cmp_num(o, self, 'lt')

    def __ge__(self, o):
        return _cmp_num(o, self, 'le')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        HASHED.count += 1
        return 0

    def __index__(self):
        return int(pin(self, 'index'))

    def __int__(self):
        return self

    def __trunc__(self):
        return self

    def __float__(self):
        return float(pin(self, 'float'))

    def is_integer(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<SymInt {self.v}>'

    def __str__(self):
        return str_of_int(self)

    def __format__(self, spec):
        if not spec:
            return str_of_int(self)
        return format(int(pin(self, 'format')), spec)


class SymReal(float):
    """A float whose value is n/scale exactly (n symbolic; see the bound on digits in DESIGN)."""
    __slots__ = ('v', 'n', 'e', 'scale')

    def __new__(cls, n, e, scale):
        self = float.__new__(cls, n / scale)
        self.v = n / scale
        self.n, self.e, self.scale = int(n), e, scale
        return self

    def _lift(self, o):
        r = _rat(o)
        if r is None or r[1] is None:
            return None
        return r

    def _lin(self, o, sign, rev=False):
        r = self._lift(o)
        if r is None:
            return NotImplemented
        (on,), oe, os_ = r
        n1, e1 = self.n * os_, x_mul(self.e, os_)
        n2, e2 = on * self.scale, x_mul(oe, self.scale)
        if rev:
            n1, e1, n2, e2 = n2, e2, n1, e1
        return mkreal(n1 + sign * n2, (x_add if sign > 0 else x_sub)(e1, e2), self.scale * os_)

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return self._lin(o, -1, True)

    def __neg__(self):
        return mkreal(-self.n, x_neg(self.e), self.scale)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    # multiplication/division/modulus of binary floats is not exact: concretise
    def __mul__(self, o):
        return pin(self, 'float*') * pin(o, 'float*')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return pin(self, 'float/') / pin(o, 'float/')

    def __rtruediv__(self, o):
        return pin(o, 'float/') / pin(self, 'float/')

    def __mod__(self, o):
        if type(o) in (int, float) and o > 0 and o == int(o) and isinstance(self.e, E):
            if bool(mkint(self.e, self.n) % (int(o) * self.scale) == 0):
                return 0.0
            return SymRem(self, o)
        return pin(self, 'float%') % pin(o, 'float%')

    def __rmod__(self, o):
        return pin(o, 'float%') % pin(self, 'float%')

    def __floordiv__(self, o):
        if type(o) in (int, float) and o > 0 and o == int(o):
            i = mkint(self.e, self.n) // (int(o) * self.scale)
            return mkreal(i.v, i.e, 1) if type(i) is SymInt else float(i)
        return pin(self, 'float//') // pin(o, 'float//')

    def __rfloordiv__(self, o):
        return pin(o, 'float//') // pin(self, 'float//')

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        return pin(self, 'float**') ** pin(o, 'float**')

    def __eq__(self, o):
        r = _cmp_num(self, o, 'eq')
        if r is NotImplemented:
            return False if isinstance(o, (str, list, tuple, dict, type(None))) else r
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)

    def __lt__(self, o):
        return _cmp_num(self, o, 'lt')

    def __le__(self, o):
        return _cmp_num(self, o, 'le')

    def __gt__(self, o):
        return _cmp_num(o, self, 'lt')

    def __ge__(self, o):
        return _cmp_num(o, self, 'le')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        HASHED.count += 1
        return 0

    def __int__(self):
        i = mkint(self.e, self.n)
        if not isinstance(i, SymInt):
            return int(i / self.scale)
        if i >= 0:
            return i // self.scale
        return -((-i) // self.scale)
    __trunc__ = __int__

    def is_integer(self):
        i = mkint(self.e, self.n)
        return (i % self.scale) == 0

    def __floor__(self):
        return mkint(self.e, self.n) // self.scale

    def __ceil__(self):
        return -((-mkint(self.e, self.n)) // self.scale)

    def __float__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<SymReal {self.v}>'

    def __str__(self):
        return LazyStr(lambda: str(pin(self, 'str(float)')), origin=self)

    def __format__(self, spec):
        return format(pin(self, 'format'), spec)


class SymRem(float):
    """The remainder, known not to be 0, of dividing a float by a positive integer; its value needs the float"""

    def __new__(cls, x, o):
        self = float.__new__(cls, x.v % o)
        self.x, self.o = x, o
        return self

    def __eq__(self, o):
        if type(o) in (int, float) and not 0 < o < self.o:
            return False
        return SymRem.get(self) == o

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return True

    def get(self):
        return pin(self.x, 'float%') % self.o

    def __hash__(self):
        return hash(self.get())


def _rem_op(n):
    def f(self, *a, **k):
        return getattr(self.get(), n)(*a, **k)
    return f


for _n in dir(float):
    if _n not in SymRem.__dict__ and callable(getattr(float, _n)) and _n not in (
            '__class__', '__new__', '__init__', '__init_subclass__', '__subclasshook__', '__getattribute__', '__setattr__',
            '__delattr__', '__dir__', '__sizeof__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getformat__', 'fromhex'):
        setattr(SymRem, _n, _rem_op(_n))


def mkreal(n, e, scale):
    if isinstance(e, E):
        return SymReal(n, e, scale)
    return n / scale


class SymHash(int):
    """hash() of a symbolic value; `parts` is what was hashed."""

    def __new__(cls, parts_):
        HASHED.count += 1
        self = int.__new__(cls, 0)
        self.parts = parts_
        return self


# ------------------------------------------------------------------ strings

def parts(s):
    """str-like -> (shadow str, tuple of code point | E)"""
    t = type(s)
    if t is LazyStr:
        s = s.force()
        t = type(s)
    if t is SymStr:
        return s.sh, s.items
    if t is str:
        return s, tuple(map(ord, s))
    if isinstance(s, SymStr):
        return parts(s.force()) if isinstance(s, LazyStr) else (s.sh, s.items)
    p = str.__str__(s)
    return p, tuple(map(ord, p))


def mkstr(shadow, items):
    for i in items:
        if isinstance(i, E):
            return SymStr(shadow, tuple(items))
    return str(shadow)


def _isstr(o):
    return isinstance(o, str)


def eq_expr(a, b):
    """-> (E|bool, shadow)"""
    sa, ia = parts(a)
    sb, ib = parts(b)
    if len(ia) != len(ib):
        return False, False
    conds = []
    for x, y in zip(ia, ib):
        c = b_cmp('eq', x, y)
        if c is False:
            return False, False
        if c is not True:
            conds.append(c)
    return b_and(*conds), sa == sb


def str_eq(a, b):
    e, v = eq_expr(a, b)
    return mkbool(e, v)


def lt_expr(ia, ib, or_eq):
    """lexicographic by code point"""
    n = min(len(ia), len(ib))
    e = len(ia) < len(ib) or (or_eq and len(ia) == len(ib))
    for k in range(n - 1, -1, -1):
        e = b_or(b_cmp('lt', ia[k], ib[k]), b_and(b_cmp('eq', ia[k], ib[k]), e))
    return e


def _ranges(pred):
    out, start = [], None
    for c in range(0x110000):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, 0x10ffff))
    return tuple(out)


_range_cache = {}


def ranges_of(name):
    r = _range_cache.get(name)
    if r is None:
        r = _range_cache[name] = _ranges(lambda c: getattr(c, name)())
    return r


def space_ranges():
    return ranges_of('isspace')


def cbool(item, ranges, shadow_c):
    """does the char lie in ranges?  -> bool, forking if symbolic"""
    e = b_in(item, ranges)
    if isinstance(e, E):
        return engine.ENGINE.branch(e, any(lo <= shadow_c <= hi for lo, hi in ranges))
    return e


def ceq(item, c, shadow_c):
    e = b_cmp('eq', item, c)
    if isinstance(e, E):
        return engine.ENGINE.branch(e, shadow_c == c)
    return e


def match_at(a, sa, i, b, sb):
    """does b occur in a at i?  forking"""
    if i + len(b) > len(a):
        return False
    conds = []
    for x, y in zip(a[i:i + len(b)], b):
        c = b_cmp('eq', x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    e = b_and(*conds)
    if isinstance(e, E):
        return engine.ENGINE.branch(e, sa[i:i + len(b)] == sb)
    return e


_WHITELIST = None


class SymStr(str):
    __slots__ = ('sh', 'items')

    def __new__(cls, shadow, items):
        self = str.__new__(cls, shadow)
        self.sh = str(shadow)
        self.items = items
        return self

    def force(self):
        return self

    # -- comparison
    def __eq__(self, o):
        if not _isstr(o):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not _isstr(o):
            return NotImplemented
        r = str_eq(self, o)
        return ~r if isinstance(r, SymBool) else not r

    def __lt__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(self), parts(o)
        return mkbool(lt_expr(a[1], b[1], False), a[0] < b[0])

    def __le__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(self), parts(o)
        return mkbool(lt_expr(a[1], b[1], True), a[0] <= b[0])

    def __gt__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(o), parts(self)
        return mkbool(lt_expr(a[1], b[1], False), a[0] < b[0])

    def __ge__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(o), parts(self)
        return mkbool(lt_expr(a[1], b[1], True), a[0] <= b[0])

    def __hash__(self):
        HASHED.count += 1
        return 0

    # -- sequence
    def __len__(self):
        return len(parts(self)[0])

    def __bool__(self):
        return len(parts(self)[0]) > 0

    def __iter__(self):
        s, it = parts(self)
        for k in range(len(it)):
            yield mkstr(s[k], it[k:k + 1])

    def __getitem__(self, i):
        s, it = parts(self)
        if isinstance(i, slice):
            i = conc_slice(i, len(it))
            return mkstr(s[i], it[i])
        i = conc_index(i, len(it), 'string index out of range')
        return mkstr(s[i], (it[i],))

    def __contains__(self, o):
        if not _isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(self.contains(o))

    def contains(self, o):
        """one condition, no forking"""
        s, it = parts(self)
        so, io = parts(o)
        alts = []
        for k in range(len(it) - len(io) + 1):
            alts.append(b_and(*[b_cmp('eq', x, y) for x, y in zip(it[k:k + len(io)], io)]))
        return mkbool(b_or(*alts), so in s)

    def __add__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(self), parts(o)
        return mkstr(a[0] + b[0], a[1] + b[1])

    def __radd__(self, o):
        if not _isstr(o):
            return NotImplemented
        a, b = parts(o), parts(self)
        return mkstr(a[0] + b[0], a[1] + b[1])

    def __mul__(self, n):
        n = int(pin(n, 'str*'))
        a = parts(self)
        return mkstr(a[0] * n, a[1] * n)
    __rmul__ = __mul__

    def __mod__(self, o):
        return pin(self, 'str%') % o

    # -- conversion
    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            return format(pin(self, 'format'), spec)
        return self

    def __repr__(self):
        return LazyStr(lambda: repr_str(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- searching
    def _bounds(self, args, n):
        st = args[0] if len(args) > 0 else None
        en = args[1] if len(args) > 1 else None
        sl = conc_slice(slice(st, en), n)
        raw = st if st is not None else 0
        return sl.start, sl.stop, raw

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = r | self.startswith(q, *a)
            return r
        s, it = parts(self)
        lo, hi, raw = self._bounds(a, len(it))
        sp, ip = parts(p)
        if raw > len(it) or lo + len(ip) > hi:
            return False
        e = b_and(*[b_cmp('eq', x, y) for x, y in zip(it[lo:], ip)])
        return mkbool(e, s.startswith(sp, lo, hi))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = r | self.endswith(q, *a)
            return r
        s, it = parts(self)
        lo, hi, raw = self._bounds(a, len(it))
        sp, ip = parts(p)
        if raw > len(it) or hi - len(ip) < lo:
            return False
        e = b_and(*[b_cmp('eq', x, y) for x, y in zip(it[hi - len(ip):hi], ip)])
        return mkbool(e, s.endswith(sp, lo, hi))

    def find(self, sub, *a):
        s, it = parts(self)
        lo, hi, raw = self._bounds(a, len(it))
        sb, ib = parts(sub)
        if raw > len(it):
            return -1
        for k in range(lo, hi - len(ib) + 1):
            if match_at(it, s, k, ib, sb):
                return k
        return -1

    def rfind(self, sub, *a):
        s, it = parts(self)
        lo, hi, raw = self._bounds(a, len(it))
        sb, ib = parts(sub)
        if raw > len(it):
            return -1
        for k in range(hi - len(ib), lo - 1, -1):
            if match_at(it, s, k, ib, sb):
                return k
        return -1

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k < 0:
            raise ValueError('substring not found')
        return k

    def rindex(self, sub, *a):
        k = self.rfind(sub, *a)
        if k < 0:
            raise ValueError('substring not found')
        return k

    def _occ(self, ib, sb, limit=-1):
        s, it = parts(self)
        out, k = [], 0
        while k + len(ib) <= len(it) and (limit < 0 or len(out) < limit):
            if match_at(it, s, k, ib, sb):
                out.append(k)
                k += len(ib)
            else:
                k += 1
        return out

    def count(self, sub, *a):
        if a:
            return self[slice(*(list(a) + [None])[:2])].count(sub)
        s, it = parts(self)
        sb, ib = parts(sub)
        if not ib:
            return len(it) + 1
        return len(self._occ(ib, sb))

    def replace(self, old, new, count=-1):
        s, it = parts(self)
        so, io = parts(old)
        sn, in_ = parts(new)
        if not io:
            return pin(self, 'replace').replace(pin(old, 'replace'), pin(new, 'replace'), count)
        out, os_, p = [], [], 0
        for k in self._occ(io, so, count):
            out.extend(it[p:k])
            os_.append(s[p:k])
            out.extend(in_)
            os_.append(sn)
            p = k + len(io)
        out.extend(it[p:])
        os_.append(s[p:])
        return mkstr(''.join(os_), tuple(out))

    def split(self, sep=None, maxsplit=-1):
        s, it = parts(self)
        if sep is None:
            out, cur, k = [], None, 0
            n = len(it)
            while k < n:
                if cbool(it[k], space_ranges(), ord(s[k])):
                    if cur is not None:
                        out.append(self[cur:k])
                        cur = None
                elif cur is None:
                    if 0 <= maxsplit <= len(out):
                        out.append(self[k:].rstrip())
                        return out
                    cur = k
                k += 1
            if cur is not None:
                out.append(self[cur:n])
            return out
        sb, ib = parts(sep)
        if not ib:
            raise ValueError('empty separator')
        out, p = [], 0
        for k in self._occ(ib, sb, maxsplit):
            out.append(mkstr(s[p:k], it[p:k]))
            p = k + len(ib)
        out.append(mkstr(s[p:], it[p:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return pin(self, 'rsplit').rsplit(sep, maxsplit)
        if maxsplit < 0 and len(sep) == 1:
            return self.split(sep)
        out, rest = [], self
        while maxsplit != 0:
            k = rest.rfind(sep)
            if k < 0:
                break
            out.append(rest[k + len(sep):])
            rest = rest[:k]
            maxsplit -= 1
            if not isinstance(rest, SymStr):
                rest = SymStr(rest, parts(rest)[1])
        out.append(mkstr(*parts(rest)))
        return out[::-1]

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return self, '', ''
        return self[:k], sep, self[k + len(sep):]

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return '', '', self
        return self[:k], sep, self[k + len(sep):]

    def _strip_set(self, chars):
        if chars is None:
            return None
        return tuple((c, c) if not isinstance(c, E) else None for c in parts(chars)[1])

    def lstrip(self, chars=None):
        s, it = parts(self)
        rs = space_ranges() if chars is None else self._strip_set(chars)
        if None in rs:
            return pin(self, 'strip').lstrip(pin(chars, 'strip'))
        k = 0
        while k < len(it) and rs and cbool(it[k], rs, ord(s[k])):
            k += 1
        return mkstr(s[k:], it[k:])

    def rstrip(self, chars=None):
        s, it = parts(self)
        rs = space_ranges() if chars is None else self._strip_set(chars)
        if None in rs:
            return pin(self, 'strip').rstrip(pin(chars, 'strip'))
        k = len(it)
        while k > 0 and rs and cbool(it[k - 1], rs, ord(s[k - 1])):
            k -= 1
        return mkstr(s[:k], it[:k])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self[:]

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self[:]

    def join(self, xs):
        xs = list(xs)
        return str_join(self, xs)

    def _all(self, name):
        s, it = parts(self)
        if not it:
            return getattr('', name)()
        rs = ranges_of(name)
        return mkbool(b_and(*[b_in(i, rs) for i in it]), all(any(lo <= ord(c) <= hi for lo, hi in rs) for c in s))

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isascii(self):
        s, it = parts(self)
        return mkbool(b_and(*[b_in(i, ((0, 127),)) for i in it]), s.isascii())

    def isprintable(self):
        s, it = parts(self)
        rs = ranges_of('isprintable')
        return mkbool(b_and(*[b_in(i, rs) for i in it]), s.isprintable())

    def _case(self, lo, hi, delta, name):
        s, it = parts(self)
        out, os_ = [], []
        for c, i in zip(s, it):
            if isinstance(i, E):
                if cbool(i, ((0, 127),), ord(c)):
                    if cbool(i, ((lo, hi),), ord(c)):
                        i = x_add(i, delta)
                        c = chr(ord(c) + delta)
                else:
                    p = pin(SymStr(c, (i,)), name)
                    p = getattr(p, name)()
                    os_.append(p)
                    out.extend(map(ord, p))
                    continue
            else:
                c = getattr(c, name)()
                os_.append(c)
                out.extend(map(ord, c))
                continue
            os_.append(c)
            out.append(i)
        return mkstr(''.join(os_), tuple(out))

    def lower(self):
        return self._case(65, 90, 32, 'lower')

    def casefold(self):
        return self._case(65, 90, 32, 'casefold')

    def upper(self):
        return self._case(97, 122, -32, 'upper')

    def encode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if errors in ('strict', 'surrogatepass') and enc.startswith('utf') and enc not in ('utf-7', 'utf-8-sig'):
            s, it = parts(self)
            if errors == 'surrogatepass' or not any(cbool(i, ((0xD800, 0xDFFF),), ord(c)) for c, i in zip(s, it)):
                return SymBytes(self, enc, errors)
        return pin(self, 'encode').encode(encoding, errors)


def _pinned_method(name):
    def m(self, *a, **k):
        return getattr(pin(self, 'str.' + name), name)(*[pin(x, 'str.' + name) for x in a], **k)
    m.__name__ = name
    return m


for _n in dir(str):
    if not _n.startswith('__') and _n not in SymStr.__dict__ and _n not in ('maketrans',):
        setattr(SymStr, _n, _pinned_method(_n))


class LazyStr(SymStr):
    """A string whose characters are computed only if somebody looks at them (message texts)."""
    __slots__ = ('thunk', 'origin', 'val')

    def __new__(cls, thunk, origin=None):
        self = str.__new__(cls, '')
        self.thunk, self.origin, self.val = thunk, origin, None
        return self

    def force(self):
        v = self.val
        if v is None:
            v = self.thunk()
            while type(v) is LazyStr:
                v = v.force()
            self.val = v
            self.thunk = None
        return v

    def __str__(self):
        return self

    def __repr__(self):
        return LazyStr(lambda: repr_str(self))


class SymBytes(bytes):
    """The encoding of a text; anything but decoding it or taking its length makes it concrete"""

    def __new__(cls, text, enc='utf-8', errors='strict'):
        if type(text) is LazyStr:
            text = text.force()
        if type(text) is not SymStr:
            return text.encode(enc, errors)
        self = bytes.__new__(cls, text.sh.encode(enc, errors))
        self.text, self.enc, self.errors = text, enc, errors
        return self

    def __len__(self):
        """forks on the length class of every character"""
        n = 2 if self.enc in ('utf-16', 'utf16') else 4 if self.enc in ('utf-32', 'utf32') else 0
        for c, i in zip(*parts(self.text)):
            o = ord(c)
            if '32' in self.enc:
                n += 4
            elif '16' in self.enc:
                n += 4 if cbool(i, ((0x10000, 0x10FFFF),), o) else 2
            else:
                n += 1 if cbool(i, ((0, 0x7F),), o) else 2 if cbool(i, ((0x80, 0x7FF),), o) else 3 if cbool(i, ((0x800, 0xFFFF),), o) else 4
        return n

    def decode(self, encoding='utf-8', errors='strict'):
        e = str(encoding).lower().replace('_', '-')
        if e in ('utf-8', 'utf8') and self.enc in e or e == self.enc or self.enc in ('utf-8', 'utf8') and e in ('ascii', 'us-ascii', 'latin-1', 'iso-8859-1', 'cp1252', 'utf-8-sig') and \
                all(cbool(i, ((0, 127),), ord(c)) for c, i in zip(*parts(self.text))):
            return self.text
        return pin(self, 'decode').decode(encoding, errors)

    def startswith(self, o, *a):
        if self.enc in ('utf-8', 'utf8') and not a and isinstance(o, tuple) and all(b[0] > 127 or b[0] == 0 for b in o if b) or self.enc in ('utf-8', 'utf8') and isinstance(o, bytes) and o and o[0] > 127:
            s, it = parts(self.text)
            if not s or cbool(it[0], ((1, 127),), ord(s[0])):
                return False
        return pin(self, 'bytes').startswith(o, *a)


def _bytes_op(n):
    def f(self, *a, **k):
        return getattr(pin(self, f'bytes.{n}'), n)(*[pin(x, n) for x in a], **k)
    return f


for _n in dir(bytes):
    if _n not in SymBytes.__dict__ and callable(getattr(bytes, _n)) and _n not in (
            '__class__', '__new__', '__init__', '__init_subclass__', '__subclasshook__', '__getattribute__', '__setattr__',
            '__delattr__', '__dir__', '__repr__', '__str__', '__sizeof__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__buffer__', 'fromhex', 'maketrans'):
        setattr(SymBytes, _n, _bytes_op(_n))


SYM = (SymBool, SymInt, SymReal, SymStr, LazyStr, SymBytes)
SYMSET = frozenset(SYM)


def is_sym(x):
    return type(x) in SYMSET


def str_join(sep, xs):
    ss, si = parts(sep)
    os_, out = [], []
    for k, x in enumerate(xs):
        if not _isstr(x):
            raise TypeError(f'sequence item {k}: expected str instance, {type(x).__name__} found')
        if k:
            out.extend(si)
            os_.append(ss)
        a, b = parts(x)
        os_.append(a)
        out.extend(b)
    return mkstr(''.join(os_), tuple(out))


def repr_str(s):
    s = s.force() if type(s) is LazyStr else s
    if type(s) is str:
        return repr(s)
    shd, it = parts(s)
    printable = ranges_of('isprintable')
    body, bs = [], []
    has_sq = has_dq = False
    for c, i in zip(shd, it):
        if ceq(i, 39, ord(c)):
            has_sq = True
        elif ceq(i, 34, ord(c)):
            has_dq = True
    quote = '"' if has_sq and not has_dq else "'"
    for c, i in zip(shd, it):
        o = ord(c)
        if not isinstance(i, E):
            r = repr('"' + c)[2:-1] if c != "'" else c
            if c in (quote, '\\'):
                r = '\\' + c
            body.extend(map(ord, r))
            bs.append(r)
            continue
        if ceq(i, ord(quote), o) or ceq(i, 92, o):
            body += [92, i]
            bs.append('\\' + c)
        elif cbool(i, printable, o):
            body.append(i)
            bs.append(c)
        else:
            p = pin(SymStr(c, (i,)), 'repr')
            r = repr(p)[1:-1]
            body.extend(map(ord, r))
            bs.append(r)
    return mkstr(quote + ''.join(bs) + quote, (ord(quote),) + tuple(body) + (ord(quote),))


def str_of_int(x):
    """decimal digits of a symbolic int (forks on sign and number of digits)"""
    if type(x) is not SymInt:
        return str(int(x))
    # a number that was read from decimal digits without leading zeros is written with the same digits
    known = engine.ENGINE.digits
    t = known.get(x.e)
    if t is None and x.e.op == 'neg' and x.e.args[0] in known:
        t = known[x.e.args[0]]
        if ceq(t[0], 48, ord(str(abs(x.v))[0]) if len(str(abs(x.v))) == len(t) else 48):
            t = None
        else:
            return mkstr(str(x.v), (45,) + t)
    if t is not None and (len(t) == 1 or len(str(x.v)) == len(t) and not ceq(t[0], 48, ord(str(x.v)[0]))):
        return mkstr(str(x.v), t)
    neg = bool(x < 0)
    a = -x if neg else x
    if not isinstance(a, SymInt):
        return ('-' if neg else '') + str(a)
    n = 1
    while bool(a >= 10 ** n):
        n += 1
    items, s = [], str(abs(x.v))
    for k in range(n - 1, -1, -1):
        items.append(mk('dch', a.e, k, k == n - 1))
    if neg:
        items.insert(0, 45)
        s = '-' + s
    return mkstr(s, tuple(items))


_ND = None


def nd_ranges():
    global _ND
    if _ND is None:
        rs = _ranges(str.isdecimal)
        _ND = []
        for lo, hi in rs:
            z = lo
            while z <= hi:
                _ND.append(z - unicodedata.decimal(chr(z)))
                z += 10 - unicodedata.decimal(chr(z))
        _ND = tuple(dict.fromkeys(_ND))
    return _ND


def whole_of(items):
    """the number whose leading digits these characters are, if they are the digits of one number"""
    f = items[0] if items else None
    if not (isinstance(f, E) and f.op == 'dch' and f.args[2]):
        return None
    a, k = f.args[0], f.args[1]
    for i, c in enumerate(items[1:], 1):
        if not (isinstance(c, E) and c.op == 'dch' and c.args[0] is a and c.args[1] == k - i and not c.args[2]):
            return None
    t = k - len(items) + 1
    return mk('ediv', a, 10 ** t) if t else a


def int_of_str(s, base=10):
    """int(str) with Python's own grammar"""
    shd, it = parts(s)
    t = SymStr(shd, it).strip()
    shd, it = parts(t)
    err = LazyStr(lambda: f'invalid literal for int() with base 10')
    k, neg, ascii_, digits = 0, False, True, []
    if it and ceq(it[0], 45, ord(shd[0])):
        neg, k = True, 1
    elif it and ceq(it[0], 43, ord(shd[0])):
        k = 1
    if k >= len(it):
        raise ValueError(err)
    val, prev_digit = 0, False
    e, sv = 0, 0
    while k < len(it):
        c, o = it[k], ord(shd[k])
        if cbool(c, ((48, 57),), o):
            d, dv = x_sub(c, 48) if isinstance(c, E) else c - 48, o - 48
        elif ceq(c, 95, o):
            if not prev_digit or k + 1 >= len(it):
                raise ValueError(err)
            ascii_ = False
            prev_digit = False
            k += 1
            continue
        elif cbool(c, ranges_of('isdecimal'), o):
            ascii_ = False
            dv = unicodedata.decimal(chr(o))
            if isinstance(c, E):
                d = x_sub(c, 48)
                for z in nd_ranges():
                    if z != 48:
                        d = mk('ite', mk('in', c, ((z, z + 9),)), x_sub(c, z), d)
            else:
                d = dv
        else:
            raise ValueError(err)
        e = x_add(x_mul(e, 10), d)
        sv = sv * 10 + dv
        digits.append(c)
        prev_digit = True
        k += 1
    if not prev_digit:
        raise ValueError(err)
    if isinstance(e, E) and ascii_ and (q := whole_of(digits)) is not None:
        e = q
    if isinstance(e, E) and ascii_:
        engine.ENGINE.digits.setdefault(e, tuple(digits))
    return mkint(x_neg(e), -sv) if neg else mkint(e, sv)


# ------------------------------------------------------------------ concretisation

def where():
    f = sys._getframe(1)
    here = __file__
    while f is not None and ('/symex/' in f.f_code.co_filename):
        f = f.f_back
    if f is None:
        return '?'
    return f'{f.f_code.co_filename.rsplit("/", 1)[-1]}:{f.f_code.co_name}'


def pin(x, what):
    """concretise (recorded: the exploration then enumerates values instead of quantifying)"""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        if isinstance(x.e, E):
            engine.ENGINE.pin(x.e, x.v, f'{what}@{where()}')
        return x.v
    if t is SymReal:
        if isinstance(x.e, E):
            engine.ENGINE.pin(x.e, x.n, f'{what}@{where()}')
        return x.v
    if t is SymStr or t is LazyStr:
        s, it = parts(x)
        for c, i in zip(s, it):
            if isinstance(i, E):
                engine.ENGINE.pin(i, ord(c), f'{what}@{where()}')
        return s
    if t is SymBytes:
        return pin(x.text, what).encode(x.enc, x.errors)
    if t is list:
        return [pin(y, what) for y in x]
    if t is tuple:
        return tuple(pin(y, what) for y in x)
    if t is dict:
        return {pin(k, what): pin(v, what) for k, v in x.items()}
    return x


def conc_index(i, n, msg):
    """resolve a possibly symbolic index against a sequence of known length: forks, complete"""
    if isinstance(i, SymInt):
        if not bool(i >= -n) or not bool(i < n):
            raise IndexError(msg)
        for k in range(-n, n):
            if k == n - 1 or bool(i == k):
                return k
    if type(i) is not int and not isinstance(i, bool):
        i = i.__index__()
    if i < -n or i >= n:
        raise IndexError(msg)
    return i


def _bound(b, n):
    if isinstance(b, SymInt):
        if bool(b < 0):
            b = b + n
            if bool(b < 0):
                return 0
        if bool(b >= n):
            return n
        for k in range(n):
            if k == n - 1 or bool(b == k):
                return k
    return b


def conc_slice(sl, n):
    if sl.step is not None:
        st = pin(sl.step, 'slice step')
        if isinstance(sl.start, SymInt) or isinstance(sl.stop, SymInt):
            return slice(pin(sl.start, 'slice'), pin(sl.stop, 'slice'), st)
        return slice(sl.start, sl.stop, st)
    if isinstance(sl.start, SymInt) or isinstance(sl.stop, SymInt):
        sl = slice(_bound(sl.start, n), _bound(sl.stop, n))
    lo, hi, _ = sl.indices(n)
    return slice(lo, max(hi, lo))
