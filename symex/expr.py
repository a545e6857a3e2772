"""Hash-consed expressions over integer/boolean solver variables, lowered to z3 lazily.

Integers are mathematical (Python's int); reals only ever occur as (integer expr)/(constant),
so every atom lowers to linear integer/real arithmetic unless the harness multiplies variables."""
import z3


class E:
    __slots__ = ('op', 'args', 'id', '_z')

    def __init__(self, op, args, id_):
        self.op, self.args, self.id, self._z = op, args, id_, None

    def __repr__(self):
        return f'{self.op}({", ".join(map(repr, self.args))})'


_table = {}


def mk(op, *args):
    key = (op,) + tuple(('#', a.id) if isinstance(a, E) else a for a in args)
    e = _table.get(key)
    if e is None:
        e = _table[key] = E(op, args, len(_table))
    return e


def reset():
    _table.clear()


TRUE = ('T',)


def e_not(a):
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def lower(e):
    """E -> z3 term (cached). Python ints/bools stay constants."""
    if not isinstance(e, E):
        if isinstance(e, bool):
            return z3.BoolVal(e)
        return z3.IntVal(int(e))
    z = e._z
    if z is None:
        z = e._z = _lower(e)
    return z


def _lower(e):
    op, a = e.op, e.args
    if op == 'ivar':
        return z3.Int(a[0])
    if op == 'bvar':
        return z3.Bool(a[0])
    if op == 'add':
        return lower(a[0]) + lower(a[1])
    if op == 'sub':
        return lower(a[0]) - lower(a[1])
    if op == 'mul':
        return lower(a[0]) * lower(a[1])
    if op == 'neg':
        return -lower(a[0])
    if op == 'ediv':   # floor division by positive constant
        return lower(a[0]) / lower(a[1])
    if op == 'emod':   # floor modulus by positive constant
        return lower(a[0]) % lower(a[1])
    if op == 'eq':
        return lower(a[0]) == lower(a[1])
    if op == 'lt':
        return lower(a[0]) < lower(a[1])
    if op == 'le':
        return lower(a[0]) <= lower(a[1])
    if op == 'and':
        return z3.And(*[lower(x) for x in a])
    if op == 'or':
        return z3.Or(*[lower(x) for x in a])
    if op == 'not':
        return z3.Not(lower(a[0]))
    if op == 'ite':
        return z3.If(lower(a[0]), lower(a[1]), lower(a[2]))
    if op == 'hexd':   # upper-case hexadecimal digit of 0..15
        d = lower(a[0])
        return z3.If(d < 10, d + 48, d + 55)
    if op == 'dch':    # character of decimal digit k (from the right) of a natural number; a[2]: it is the leading one
        d = lower(a[0])
        d = d / 10 ** a[1] if a[1] else d
        return (d if a[2] else d % 10) + 48
    if op == 'u8':     # byte k of the n-byte UTF-8 form of c
        c, n, k = lower(a[0]), a[1], a[2]
        sh = 1 << (6 * (n - 1 - k))
        x = c / sh if sh > 1 else c
        return x + {2: 0xc0, 3: 0xe0, 4: 0xf0}[n] if k == 0 else x % 64 + 0x80
    if op == 'in':     # a[1] is a tuple of inclusive ranges
        x = lower(a[0])
        return z3.Or(*[(x == lo) if lo == hi else z3.And(x >= lo, x <= hi) for lo, hi in a[1]])
    raise AssertionError(op)
