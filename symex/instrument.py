"""Import hook that rewrites the source of the code under test so that operations CPython would
perform in C (calls of builtins, dict lookups, f-strings, `in`, regexes ...) go through models that
understand symbolic values.  The rewriting is regenerated from the current source at every run."""
import ast
import builtins
import collections
import copy
import enum
import functools
import importlib.abc
import importlib.util
import itertools
import codecs
import json
import math
import operator
import os
import re
import sys
import sysconfig
import types
import unicodedata
import urllib.parse
from decimal import Decimal, InvalidOperation, DivisionByZero
from fractions import Fraction

from . import engine, regex
from .engine import NoFork
from .expr import E, mk
from .values import *
from .values import (SymBool, SymInt, SymReal, SymStr, LazyStr, SymBytes, SymHash, SYMSET, HASHED, is_sym, pin,
                     str_join, parts, mkstr, mkint, mkbool, mkreal, conc_index, conc_slice, _bound,
                     int_of_str, str_of_int, repr_str, cbool, ceq, b_in, x_add, x_sub, x_mul, x_neg,
                     where, whole_of)

FUNCS = {}          # module:qualname -> entered at least once (evidence)
NATIVE = {}         # stdlib functions that received symbolic values without a model


# ------------------------------------------------------------------ AST rewriting

def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, mark=True):
        self.mod = modname
        self.mark = mark
        self.qual = []

    def call(self, fn, *args):
        return ast.Call(func=_name(fn), args=list(args), keywords=[])

    # names of functions, for evidence
    def _func(self, node):
        self.qual.append(node.name)
        decs = node.decorator_list
        node.decorator_list = []
        rets, node.returns = node.returns, None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        node = self.generic_visit(node)
        node.decorator_list = [self.visit(d) for d in decs]
        if self.mark:
            q = f'{self.mod}:{".".join(self.qual)}'
            mark = ast.Expr(self.call('__sfn__', ast.Constant(q)))
            body = node.body
            pos = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str) else 0
            body.insert(pos, mark)
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        node = self.generic_visit(node)
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'):
            node.args = [self.visit(a) for a in node.args]
            return node
        node = self.generic_visit(node)
        return ast.Call(func=_name('__sc__'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_JoinedStr(self, node):
        out = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                out.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                out.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return self.call('__sf__', *out)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1:
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
                return node     # chained `in`: left native
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return self.call('__sin__', l, r)
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(op=ast.Not(), operand=self.call('__sin__', l, r))
        if isinstance(op, ast.Eq):
            return self.call('__seq__', l, r)
        if isinstance(op, ast.NotEq):
            return self.call('__sne__', l, r)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return self.call('__s' + type(op).__name__.lower() + '__', l, r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            for c in (l, r):
                if isinstance(c, ast.Constant) and (c.value is True or c.value is False):
                    x = self.call('__sis__', l, r)
                    return x if isinstance(op, ast.Is) else ast.UnaryOp(op=ast.Not(), operand=x)
                if isinstance(c, ast.Name) and c.id in ('int', 'str', 'float', 'bool', 'set'):
                    x = self.call('__sis__', l, r)
                    return x if isinstance(op, ast.Is) else ast.UnaryOp(op=ast.Not(), operand=x)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call('__sget__', node.value, self._idx(node.slice))
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return self.call('slice', s.lower or n, s.upper or n, s.step or n)
        return s

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # evaluation order: value, then container, then key
            return ast.Expr(self.call('__sset__', node.value, t.value, self._idx(t.slice)))
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            o, k = self.visit(t.value), self.visit(t.slice)
            if isinstance(k, ast.Slice):
                k = self._idx(k)
            fn = ast.Constant(type(node.op).__name__)
            return ast.Expr(self.call('__saug__', o, k, fn, self.visit(node.value)))
        node = self.generic_visit(node)
        if isinstance(node.target, ast.Name) and type(node.op).__name__ in _ARITH:
            return ast.Assign([node.target], self.call('__siop__', ast.Constant(type(node.op).__name__), ast.Name(node.target.id, ast.Load()), node.value))
        return node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(self.call('__sdel__', t.value, self._idx(t.slice)))
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return self.call('__sdict__', g)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = [ast.Tuple(elts=[k, v], ctx=ast.Load()) if k is not None else
                ast.Tuple(elts=[v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self.call('__sdict__', ast.List(elts=elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return self.call('__smkset__', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self.call('__smkset__', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('__smod__', node.left, node.right)
        if isinstance(node.op, ast.BitOr):
            return self.call('__sbor__', node.left, node.right)
        if type(node.op).__name__ in _ARITH:
            return self.call('__sbin__', ast.Constant(type(node.op).__name__), node.left, node.right)
        return node


def instrument(source, filename, modname, mark=True):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, mark).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ containers

_setitem = operator.setitem


def sym_key(k):
    """does hashing k involve symbolic data?"""
    t = type(k)
    if t is str or t is int:
        return False
    if t in SYMSET:
        return True
    n = HASHED.count
    try:
        hash(k)
    except TypeError:
        return False
    return HASHED.count != n


_MISS = object()


def find_key(d, k):
    """the key of d equal to k, or _MISS; forks when symbolic keys are involved"""
    t = type(k)
    if t is SymBool:
        k = bool(k)
    if t is LazyStr:
        k = k.force()
        t = type(k)
    if not sym_key(k):
        if dict.__contains__(d, k):
            return k
        for q in d:
            tq = type(q)
            if tq is str or tq is int:
                continue
            if (tq in SYMSET or sym_key(q)) and bool(q == k):
                return q
        return _MISS
    if t is SymStr:
        for q in d:
            if isinstance(q, str) and len(q) == len(k) and bool(k == q):
                return q
        return _MISS
    for q in d:
        if q is k:
            return q
    for q in d:
        if bool(q == k):
            return q
    return _MISS


def dget(d, k, default=None):
    q = find_key(d, k)
    return default if q is _MISS else dict.__getitem__(d, q)


def sget(o, k):
    if isinstance(o, dict):
        cls = type(o)
        if cls.__getitem__ is dict.__getitem__:
            try:
                if type(k) is str:
                    return dict.__getitem__(o, k)
            except KeyError:
                pass
            q = find_key(o, k)
            if q is _MISS:
                m = getattr(cls, '__missing__', None)
                if m is not None:
                    return m(o, k)
                raise KeyError(k)
            return dict.__getitem__(o, q)
        return o[k]
    if isinstance(o, (list, tuple, str)) and not isinstance(o, SymStr):
        if type(k) is SymInt:
            if type(o).__getitem__ not in _SEQ_GETITEM:
                return o[k]
            return o[conc_index(k, len(o), f'{type(o).__name__} index out of range')]
        if type(k) is slice:
            if type(k.start) in SYMSET or type(k.stop) in SYMSET or type(k.step) in SYMSET:
                return o[conc_slice(k, len(o))]
    if isinstance(o, type) or not isinstance(o, types.MappingProxyType):
        return o[k]
    for q in o:
        if bool(q == k):
            return o[q]
    raise KeyError(k)


_SEQ_GETITEM = (list.__getitem__, tuple.__getitem__, str.__getitem__)


def dset(d, k, v):
    if type(k) is LazyStr:
        k = k.force()
    if type(k) is SymBool:
        k = bool(k)
    q = find_key(d, k)
    if q is _MISS:
        dict.__setitem__(d, k, v)
    else:
        dict.__setitem__(d, q, v)


def sset(v, o, k):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__:
        return dset(o, k, v)
    if isinstance(o, list) and type(o).__setitem__ is list.__setitem__:
        if type(k) is SymInt:
            k = conc_index(k, len(o), 'list assignment index out of range')
        elif type(k) is slice:
            k = conc_slice(k, len(o))
    o[k] = v


def sdel(o, k):
    if isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        q = find_key(o, k)
        if q is _MISS:
            raise KeyError(k)
        dict.__delitem__(o, q)
        return
    if isinstance(o, list) and type(o).__delitem__ is list.__delitem__:
        if type(k) is SymInt:
            k = conc_index(k, len(o), 'list assignment index out of range')
        elif type(k) is slice:
            k = conc_slice(k, len(o))
    del o[k]


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'BitOr': operator.ior,
        'BitAnd': operator.iand, 'Mod': operator.imod, 'FloorDiv': operator.ifloordiv,
        'Div': operator.itruediv, 'BitXor': operator.ixor, 'Pow': operator.ipow,
        'LShift': operator.ilshift, 'RShift': operator.irshift}


def saug(o, k, op, v):
    sset(_AUG[op](sget(o, k), v), o, k)


def sdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k, v in p[0].items():
                dset(d, k, v)
        else:
            k, v = p
            dset(d, k, v)
    return d


class SymSet(set):
    """set with insertion order and equality-based membership"""

    def __init__(self, it=()):
        set.__init__(self)
        self._p = {}
        self._s = []
        for x in it:
            self.add(x)

    def _find(self, x):
        if type(x) is LazyStr:
            x = x.force()
        if not sym_key(x):
            if x in self._p:
                return True
            return any(bool(x == y) for y in self._s)
        return any(bool(x == y) for y in self._s) or any(bool(x == y) for y in self._p)

    def __contains__(self, x):
        return self._find(x)

    def add(self, x):
        if type(x) is LazyStr:
            x = x.force()
        if not self._find(x):
            if sym_key(x):
                self._s.append(x)
            else:
                self._p[x] = None

    def __iter__(self):
        yield from list(self._p)
        yield from list(self._s)

    def __len__(self):
        return len(self._p) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def discard(self, x):
        for y in list(self._s):
            if bool(x == y):
                self._s.remove(y)
                return
        if not sym_key(x):
            self._p.pop(x, None)
        else:
            for y in list(self._p):
                if bool(x == y):
                    del self._p[y]
                    return

    def remove(self, x):
        if not self._find(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._p, self._s = {}, []

    def copy(self):
        return SymSet(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymSet(copy.deepcopy(x, memo) for x in self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            o = SymSet(it)
            r = SymSet(x for x in r if x in o)
        return r

    def difference(self, *its):
        r = self
        for it in its:
            o = SymSet(it)
            r = SymSet(x for x in r if x not in o)
        return r

    def symmetric_difference(self, it):
        o = SymSet(it)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        r = self.difference(*its)
        self._p, self._s = r._p, r._s

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self._p, self._s = r._p, r._s

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _ok(o):
        return isinstance(o, (set, frozenset)) or isinstance(o, collections.abc.Set)

    def __or__(self, o):
        return self.union(o) if SymSet._ok(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self) if SymSet._ok(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if SymSet._ok(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self) if SymSet._ok(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if SymSet._ok(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if SymSet._ok(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if SymSet._ok(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not SymSet._ok(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return SymSet(o).issubset(self)

    def __gt__(self, o):
        return len(self) > len(o) and SymSet(o).issubset(self)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(map(str, self)) + '}'

    def __reduce__(self):
        return (SymSet, (list(self),))


def smkset(it):
    return SymSet(it)


def sin(x, c):
    t = type(c)
    if isinstance(c, str):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        if type(x) in SYMSET or t in SYMSET:
            s, it = parts(c)
            return SymStr(s, it).contains(x)
        return x in c
    if isinstance(c, dict):
        if type(c).__contains__ is dict.__contains__:
            return find_key(c, x) is not _MISS
        return x in c
    if t is _dict_keys:
        return any(bool(x == q) for q in c)
    if (t is set or t is frozenset) and (type(x) in SYMSET or sym_key(x)):
        return any(bool(x == q) for q in c)
    if t is SymRange:
        return (x >= c.lo) & (x < c.hi)
    if t is range and type(x) is SymInt:
        if c.step == 1:
            return (x >= c.start) & (x < c.stop)
        return pin(x, 'in range') in c
    if t is list or t is tuple:
        return any(v is x or bool(seq(v, x)) for v in c)
    return x in c


_dict_keys = type({}.keys())
_EXACT = frozenset((str, int, float, bool, type(None), SymStr, SymInt, SymReal, SymBool, LazyStr))


def seq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if type(a).__eq__ is dict.__eq__ and type(b).__eq__ is dict.__eq__:
            if len(a) != len(b):
                return False
            for k, v in a.items():
                q = find_key(b, k)
                if q is _MISS:
                    return False
                w = dict.__getitem__(b, q)
                if v is not w and not bool(seq(v, w)):
                    return False
            return True
    elif type(a) is list and type(b) is list or type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        for v, w in zip(a, b):
            if v is not w and not bool(seq(v, w)):
                return False
        return True
    elif type(a) is _dict_keys and type(b) is _dict_keys:
        return len(a) == len(b) and all(sin(x, b) for x in a)
    return operator.eq(*lifted(a, b))


# an operation of a plain float (or truth value) with a symbolic integer is not left to the float,
# which would take the integer for the plain one it is a subclass of
_ARITH = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow}
_IARITH = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow}


def lifted(a, b):
    if isinstance(b, SymInt):
        if type(a) is float:
            return a, SymReal(b.v, b.e, 1)
        if type(a) is bool:
            return int(a), b
    return a, b


def sbin(op, a, b):
    return _ARITH[op](*lifted(a, b))


def siop(op, a, b):
    return _IARITH[op](*lifted(a, b))


def slt(a, b):
    return operator.lt(*lifted(a, b))


def slte(a, b):
    return operator.le(*lifted(a, b))


def sgt(a, b):
    return operator.gt(*lifted(a, b))


def sgte(a, b):
    return operator.ge(*lifted(a, b))


def sne(a, b):
    if (isinstance(a, dict) and isinstance(b, dict)) or (type(a) in (list, tuple) and type(a) is type(b)):
        if type(a).__ne__ in (dict.__ne__, list.__ne__, tuple.__ne__):
            return not bool(seq(a, b))
    return operator.ne(*lifted(a, b))


def sis(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return a == b
    if type(b) is SymBool and (a is True or a is False):
        return b == a
    if isinstance(b, type) and isinstance(a, type):
        return _plain_type(a) is _plain_type(b)
    return a is b


def _plain_type(t):
    return {SymInt: int, SymReal: float, SymStr: str, LazyStr: str, SymBytes: bytes, SymBool: bool, SymSet: set,
            SymHash: int}.get(t, t)


def smod(a, b):
    if isinstance(a, str) or isinstance(a, bytes):
        if type(a) in SYMSET or type(b) in SYMSET or isinstance(b, (tuple, dict)) and has_sym(b):
            return LazyStr(lambda: pin(a, '%') % pin(b, '%'))
        return a % b
    return operator.mod(*lifted(a, b))


def sbor(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and type(a).__or__ is dict.__or__:
        return sdict([(a,), (b,)])
    if (type(a) is set or type(a) is frozenset) and not isinstance(b, SymSet) and isinstance(b, (set, frozenset)):
        return a | b
    return a | b


def has_sym(x, depth=40):
    t = type(x)
    if t in SYMSET:
        return True
    if depth == 0 or t in (str, int, float, bool, type(None)):
        return False
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return any(has_sym(v, depth - 1) for v in x)
    d = getattr(x, 'data', None)
    if d is not None and type(d) in (list, dict) or type(d) in SYMSET:
        return has_sym(d, depth - 1)
    return False


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        i = self.lo
        while bool(i < self.hi):
            yield i
            i = i + 1

    def __len__(self):
        n = self.hi - self.lo
        return int(pin(n, 'len(range)')) if bool(n > 0) else 0

    def __contains__(self, x):
        return bool((x >= self.lo) & (x < self.hi))

    def __getitem__(self, k):
        return self.lo + k

    def __reversed__(self):
        return iter(list(self)[::-1])


# ------------------------------------------------------------------ f-strings

_SIMPLE = frozenset((str, int, float, bool, type(None)))


def _fmt(v, conv, spec):
    if conv == 'r' or conv == 'a':
        v = m_repr(v)
    elif conv == 's':
        v = m_str(v)
    if spec:
        return format(pin(v, 'format'), pin(spec, 'format'))
    if isinstance(v, str) and not isinstance(v, enum.Enum):
        return v
    if type(v) in (SymInt, SymReal, SymBool):
        return m_str(v)
    if type(v).__format__ is object.__format__:
        return m_str(v)
    return format(v, '')


def sf(*ps):
    simple = True
    for p in ps:
        if type(p) is tuple:
            t = type(p[0])
            if not (t in _SIMPLE or (t is SymStr and not p[1] and not p[2])):
                simple = False
                break
    if simple:
        return str_join('', [p if type(p) is not tuple else _fmt(*p) for p in ps])
    if len(ps) == 1 and type(ps[0]) is tuple and type(ps[0][0]) in (SymInt, SymReal) and not ps[0][1] \
            and not ps[0][2]:
        return m_str(ps[0][0])

    def now():
        return str_join('', [p if type(p) is not tuple else _fmt(*p) for p in ps])
    eng = engine.ENGINE
    if eng is None:
        return now()
    eng.nofork += 1
    try:
        r = [p if type(p) is not tuple else _fmt(*p) for p in ps]
        if any(type(x) is LazyStr for x in r):
            for x in r:
                if type(x) is LazyStr:
                    x.force()
        return str_join('', r)
    except NoFork:
        pass
    finally:
        eng.nofork -= 1
    return LazyStr(now)


# ------------------------------------------------------------------ builtin models

def m_str(x='', *a, **k):
    t = type(x)
    if a or k:
        return str(x, *a, **k)
    if t is SymStr or t is LazyStr:
        return x
    if t is SymInt or t is SymReal:
        return LazyStr(lambda: str_of_int(x) if t is SymInt else real_str(x), origin=x)
    if t is SymBool:
        return str(bool(x))
    if t in _SIMPLE:
        return str(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1 and type(x).__str__ is BaseException.__str__ and isinstance(x.args[0], str):
            return x.args[0]
    m = t.__str__
    if isinstance(m, types.FunctionType):
        return m(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)) and has_sym(x):
        return m_repr(x)
    return str(x)


def real_str(x):
    """repr of a SymReal with scale 10^d: exact decimal digits (magnitudes below 1e15)"""
    d = 0
    sc = x.scale
    while sc % 10 == 0:
        sc //= 10
        d += 1
    if sc != 1 or d == 0:
        return repr(pin(x, 'repr(float)'))
    i = mkint(x.e, x.n)
    neg = bool(i < 0)
    a = -i if neg else i
    if bool(a >= 10 ** 15) or bool(a < 1):
        return repr(pin(x, 'repr(float)'))
    if d > 4:
        return repr(pin(x, 'repr(float)'))
    t = 0
    while t < d - 1 and bool(a % 10 ** (t + 1) == 0):
        t += 1
    n = 1
    while bool(a >= 10 ** n):
        n += 1
    digits = [mk('dch', a.e, k, k == n - 1) if k < n else 48 for k in range(max(n - 1, d), t - 1, -1)]
    ds = str(a.v).zfill(d + 1)
    ds = ds[:-t] if t else ds
    digits.insert(len(digits) - (d - t), 46)
    ds = ds[:len(ds) - (d - t)] + '.' + ds[len(ds) - (d - t):]
    out = [('-' if neg else ''), mkstr(ds, tuple(digits))]
    return str_join('', out)


def m_repr(x):
    t = type(x)
    if t is SymStr or t is LazyStr:
        return LazyStr(lambda: repr_str(x))
    if t in (SymInt, SymReal, SymBool):
        return m_str(x)
    if t in _SIMPLE:
        return repr(x)
    m = t.__repr__
    if isinstance(m, types.FunctionType) and t is not SymSet:
        return m(x)
    if t in (list, tuple, dict) and has_sym(x):
        if t is dict:
            body = [str_join('', [m_repr(k), ': ', m_repr(v)]) for k, v in x.items()]
            return str_join('', ['{', str_join(', ', body), '}'])
        body = str_join(', ', [m_repr(v) for v in x])
        if t is list:
            return str_join('', ['[', body, ']'])
        return str_join('', ['(', body, ',)' if len(x) == 1 else ')'])
    return repr(x)


def hex_of_str(s):
    shd, it = parts(s)
    e, v = 0, 0
    if not it:
        raise ValueError('invalid literal for int() with base 16')
    for c, i in zip(shd, it):
        o = ord(c)
        if cbool(i, ((48, 57),), o):
            d, dv = (x_sub(i, 48) if isinstance(i, E) else i - 48), o - 48
        elif cbool(i, ((65, 70),), o):
            d, dv = (x_sub(i, 55) if isinstance(i, E) else i - 55), o - 55
        elif cbool(i, ((97, 102),), o):
            d, dv = (x_sub(i, 87) if isinstance(i, E) else i - 87), o - 87
        else:
            return int(pin(s, 'int16'), 16)
        e, v = x_add(x_mul(e, 16), d), v * 16 + dv
    return mkint(e, v)


def m_int(x=0, base=None):
    t = type(x)
    if t is LazyStr and x.origin is not None and base is None:
        if type(x.origin) is SymInt:
            return x.origin
        x = x.force()
        t = type(x)
    if t is SymStr or t is LazyStr:
        if type(x) is LazyStr:
            x = x.force()
            if type(x) is str:
                return int(x) if base is None else int(x, base)
        if base is None or base == 10:
            return int_of_str(x)
        if base == 16:
            return hex_of_str(x)
        return int(pin(x, 'int'), base)
    if t is SymInt:
        return x
    if t is SymReal:
        return x.__int__()
    if t is SymBool:
        return mkint(mk('ite', x.e, 1, 0), int(x.v))
    if base is not None:
        return int(x, pin(base, 'int'))
    if t is SymDec or t is SymFrac:
        return x.__int__()
    return int(x)


def m_float(x=0.0):
    t = type(x)
    if t is LazyStr and x.origin is not None:
        return m_float(x.origin)
    if t is SymInt:
        return mkreal(x.v, x.e, 1) if not VFS or not VFS.wide else nearest(x)
    if t is SymReal:
        return x
    if t is SymStr or t is LazyStr:
        return float_of_str(x)
    return float(pin(x, 'float') if t in SYMSET else x)


def nearest(x):
    """the double nearest to a symbolic integer that may be beyond 2^53"""
    neg = bool(x < 0)
    a = -x if neg else x
    if not bool(a <= 2 ** 53):
        e = 1
        while not bool(a < 2 ** (53 + e)):
            e += 1
        q, r, half = a // 2 ** e, a % 2 ** e, 2 ** (e - 1)
        if bool(r > half) or bool(r == half) and bool(q % 2 == 1):
            q = q + 1
        a = q * 2 ** e
    if neg:
        a = -a
    return mkreal(a.v, a.e, 1) if type(a) is SymInt else float(a)


def float_of_str(s):
    """plain decimals d+.d+ with few digits are exact; anything else is concretised"""
    shd, it = parts(s)
    if len(it) <= 16:
        k, neg = 0, False
        if it and ceq(it[0], 45, ord(shd[0])):
            neg, k = True, 1
        n, v, dot, d, digits, seen = 0, 0, False, 0, 0, []
        while k < len(it):
            o = ord(shd[k])
            if cbool(it[k], ((48, 57),), o):
                n = x_add(x_mul(n, 10), x_sub(it[k], 48) if isinstance(it[k], E) else it[k] - 48)
                v = v * 10 + o - 48
                d += dot
                digits += 1
                if seen or it[k] != 48:
                    seen.append(it[k])
            elif not dot and ceq(it[k], 46, o):
                dot = True
            else:
                break
            k += 1
        if k == len(it) and digits and not (neg and d and False):
            if isinstance(n, E):
                if (w := whole_of(seen)) is not None:
                    n = w
                if neg and bool(mkint(n, v) == 0):
                    return -0.0
                return mkreal(-v if neg else v, x_neg(n) if neg else n, 10 ** d)
    return float(pin(s, 'float(str)'))


class TreeHash(int):
    """hash() of a concrete value that remembers what was hashed"""

    def __new__(cls, h, tree):
        self = int.__new__(cls, h)
        self.tree = tree
        return self


def m_hash(x):
    t = type(x)
    if t in SYMSET:
        return SymHash(('v', sym_norm(x)))
    if isinstance(x, tuple) and t.__hash__ is tuple.__hash__:
        hs = [m_hash(y) for y in x]
        tree = ('t',) + tuple(hash_tree(h) for h in hs)
        if any(type(h) is SymHash for h in hs):
            return SymHash(tree)
        return TreeHash(hash(tuple(map(int, hs))), tree)
    if t.__hash__ is None:
        raise TypeError(f'unhashable type: {t.__name__!r}')
    if isinstance(t.__hash__, types.FunctionType):
        return t.__hash__(x)
    return TreeHash(hash(x), ('v', x))


def hash_tree(h):
    return h.parts if type(h) is SymHash else h.tree if type(h) is TreeHash else ('h', h)


def sym_norm(x):
    return x.force() if type(x) is LazyStr else x


def m_bool(x=False):
    return bool(x)


def m_isinstance(x, c):
    if type(x) is SymBool:
        if c is bool or c is int or (isinstance(c, tuple) and (bool in c or int in c)):
            return True
        return isinstance(True, c)
    return isinstance(x, c)


def m_type(*a, **k):
    if len(a) == 1 and not k:
        return _plain_type(type(a[0]))
    if type(a[0]) in SYMSET:
        a = (pin(a[0], 'type name'),) + a[1:]
    return type(*a, **k)


def m_len(x):
    if type(x) is LazyStr:
        return len(parts(x)[0])
    return len(x)


def m_ord(c):
    if type(c) in SYMSET:
        s, it = parts(c)
        if len(it) != 1:
            raise TypeError('ord() expected a character')
        return mkint(it[0], ord(s))
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        if not bool(i >= 0) or not bool(i < 0x110000):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr(chr(i.v), (i.e,))
    return chr(i)


def m_range(*a):
    if any(type(x) is SymInt for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(*a)
        a = tuple(pin(x, 'range') for x in a)
    return range(*a)


def m_set(*a):
    return SymSet(*a)


def m_frozenset(*a):
    xs = list(a[0]) if a else []
    if any(type(x) in SYMSET or sym_key(x) for x in xs):
        return SymSet(xs)
    return frozenset(xs)


def m_dict(*a, **k):
    d = {}
    if a:
        dict_update(d, a[0])
    for q, v in k.items():
        dset(d, q, v)
    return d


def dict_update(d, src):
    if hasattr(src, 'keys'):
        for q in list(src.keys()):
            dset(d, q, src[q] if not isinstance(src, dict) else dict.__getitem__(src, q)
                 if type(src).__getitem__ is dict.__getitem__ else src[q])
    else:
        for q, v in src:
            dset(d, q, v)


def _wrap_callable(f):
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a: sc(f, *a)


def m_map(f, *its):
    return map(_wrap_callable(f), *its)


def m_filter(f, it):
    return filter(_wrap_callable(f), it)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrap_callable(key), reverse=reverse)


def m_minmax(fn):
    def f(*a, **k):
        if 'key' in k:
            k['key'] = _wrap_callable(k['key'])
        return fn(*a, **k)
    return f


def m_reduce(f, *a):
    return functools.reduce(_wrap_callable(f), *a)


def m_format(x, spec=''):
    return _fmt(x, None, spec)


def m_getattr(o, n, *d):
    return getattr(o, pin(n, 'getattr') if type(n) in SYMSET else n, *d)


def m_divmod(a, b):
    return divmod(a, b)


def m_round(x, *a):
    return round(pin(x, 'round'), *a)


def m_re(name):
    def f(pattern, *a, flags=0, **k):
        if type(pattern) in SYMSET:
            pattern = pin(pattern, 're pattern')
        nstr = {'sub': 2, 'subn': 2}.get(name, 1)
        extra = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
        if len(a) > extra:
            flags = a[extra]
            a = a[:extra]
        pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
        if 'count' in k:
            a = a + (k.pop('count'),)
        if 'maxsplit' in k:
            a = a + (k.pop('maxsplit'),)
        return pattern_call(pat, name, a, k)
    return f


def pattern_call(pat, name, a, k):
    if any(type(x) in SYMSET for x in a) or any(type(x) in SYMSET for x in k.values()):
        if 'string' in k:
            a = a + (k.pop('string'),)
        return regex.call(pat, name, a, k)
    if name in ('sub', 'subn') and a and callable(a[0]):
        return getattr(pat, name)(_wrap_callable(a[0]), *a[1:], **k)
    return getattr(pat, name)(*a, **k)


def m_re_compile(p, flags=0):
    return re.compile(pin(p, 're.compile') if type(p) in SYMSET else p, flags)


def m_re_escape(p):
    if type(p) not in SYMSET:
        return re.escape(p)
    s, it = parts(p)
    special = tuple((c, c) for c in sorted(re._special_chars_map))
    out, os_ = [], []
    for c, i in zip(s, it):
        if cbool(i, special, ord(c)):
            out.append(92)
            os_.append('\\')
        out.append(i)
        os_.append(c)
    return mkstr(''.join(os_), tuple(out))


# -- Decimal

class SymDec:
    """Decimal n / 10^k with symbolic n"""

    def __init__(self, n, e, scale):
        self.n, self.e, self.scale = n, e, scale

    def _i(self):
        return mkint(self.e, self.n)

    @staticmethod
    def lift(o):
        if isinstance(o, SymDec):
            return o
        if type(o) is SymInt:
            return SymDec(o.v, o.e, 1)
        if isinstance(o, int):
            return SymDec(int(o), int(o), 1)
        if isinstance(o, Fraction) or isinstance(o, Decimal) and o.is_finite():
            f = Fraction(o)
            return SymDec(f.numerator, f.numerator, f.denominator)
        return None

    def _parts(self, o):
        d = SymDec.lift(o)
        if d is None:
            return None
        if isinstance(d.e, E):
            d = SymDec(*(2 * (pin(d._i(), 'Decimal divisor'),)), d.scale)
        return self._i() * d.scale, d.n * self.scale, self.scale * d.scale

    def __mod__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        a, b, scale = p
        if b == 0:
            raise InvalidOperation
        b = abs(b)
        neg = bool(a < 0)
        if neg:
            a = -a
        if bool(a >= b * 10 ** 28):
            raise InvalidOperation
        r = a % b
        if neg:
            r = -r
        return SymDec(r.v, r.e, scale) if isinstance(r, SymInt) else Decimal(r) / scale

    def __rmod__(self, o):
        return o % self.conc()

    def conc(self):
        return Decimal(pin(self._i(), 'Decimal')) / self.scale

    def __floordiv__(self, o):
        return self.conc() // (o.conc() if isinstance(o, SymDec) else o)

    def __truediv__(self, o):
        return self.conc() / (o.conc() if isinstance(o, SymDec) else o)

    def __rtruediv__(self, o):
        return o / self.conc()

    def __neg__(self):
        i = -self._i()
        return SymDec(i.v, i.e, self.scale) if isinstance(i, SymInt) else Decimal(i) / self.scale

    def __mul__(self, o):
        return self.conc() * (o.conc() if isinstance(o, SymDec) else o)
    __rmul__ = __mul__

    def _cmp(self, o, f):
        if isinstance(o, float) and not isinstance(o, SymReal):
            o = Decimal(o)
        if isinstance(o, SymReal):
            o = SymDec(o.n, o.e, o.scale)
        d = SymDec.lift(o)
        if d is None:
            return NotImplemented
        return f(self._i() * d.scale, mkint(d.e, d.n) * self.scale)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self._i() != 0)

    def __int__(self):
        return SymReal(self.n, self.e, self.scale).__int__() if isinstance(self.e, E) else int(Fraction(self.n, self.scale))

    def is_zero(self):
        return self._i() == 0

    def __hash__(self):
        HASHED.count += 1
        return 0

    def to_integral_value(self, *a, **k):
        return self.conc().to_integral_value(*a, **k)

    def remainder_near(self, o):
        return self.conc().remainder_near(o)

    def quantize(self, *a, **k):
        return self.conc().quantize(*a, **k)


class SymFrac(SymDec):
    """Fraction n / 10^k with symbolic n"""

    def __mod__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        a, b, scale = p
        if b == 0:
            raise ZeroDivisionError
        r = a % b
        return SymFrac(r.v, r.e, scale) if isinstance(r, SymInt) else Fraction(r, scale)

    def __truediv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        a, b, _ = p
        if b == 0:
            raise ZeroDivisionError
        if b < 0:
            a, b = -a, -b
        return SymFrac(a.v, a.e, b) if isinstance(a, SymInt) else Fraction(a, b)

    def __floordiv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        a, b, _ = p
        if b == 0:
            raise ZeroDivisionError
        return a // b if b > 0 else -a // -b

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        i = -self._i()
        return SymFrac(i.v, i.e, self.scale) if isinstance(i, SymInt) else Fraction(i, self.scale)

    def _gcd(self):
        i, n = self._i(), self.scale
        small = [d for d in range(1, math.isqrt(n) + 1) if n % d == 0] if n < 10 ** 12 else None
        if small is None:
            return math.gcd(pin(i, 'Fraction'), n)
        for d in sorted({*small, *(n // d for d in small)}, reverse=True):
            if bool(i % d == 0):
                return d

    @property
    def denominator(self):
        return self.scale // self._gcd()

    @property
    def numerator(self):
        return self._i() // self._gcd()

    def is_integer(self):
        return self._i() % self.scale == 0

    def __floor__(self):
        return self._i() // self.scale

    def __ceil__(self):
        return -(-self._i() // self.scale)

    def conc(self):
        return Fraction(pin(self._i(), 'Fraction'), self.scale)


def m_fraction(x=0, *a, **k):
    r = None
    if not a and not k:
        r = m_decimal(x) if type(x) in (LazyStr, SymInt, SymDec) else None
        if type(x) is SymReal:
            r = SymFrac(x.n, x.e, x.scale)
    if isinstance(r, SymDec):
        return SymFrac(r.n, r.e, r.scale)
    if isinstance(r, Decimal):
        return Fraction(r)
    if isinstance(x, SymDec):
        x = x.conc()
    a = tuple(pin(q, 'Fraction') for q in a)
    return Fraction(pin(x, 'Fraction'), *a, **k)


def m_decimal(x=0, *a, **k):
    t = type(x)
    if t is LazyStr and x.origin is not None:
        o = x.origin
        if type(o) is SymInt:
            return SymDec(o.v, o.e, 1)
        if type(o) is SymReal:
            return SymDec(o.n, o.e, o.scale)
    if t is SymInt:
        return SymDec(x.v, x.e, 1)
    if t in SYMSET:
        return Decimal(pin(x, 'Decimal'), *a, **k)
    if t is SymDec:
        return x
    return Decimal(x, *a, **k)


# -- urllib.parse

_ALWAYS_SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'


def _hexd(d, dv):
    """hex digit (upper) of a value 0..15"""
    if isinstance(d, E):
        return mk('hexd', d), '0123456789ABCDEF'[dv]
    return ord('0123456789ABCDEF'[d]), '0123456789ABCDEF'[dv]


def utf8(c, o):
    """(item, shadow code point) -> list of (byte expr, byte shadow); forks on the length class"""
    def u8(n):
        return [(mk('u8', c, n, k), b) for k, b in enumerate(chr(o).encode())]
    if not isinstance(c, E):
        return [(b, b) for b in chr(c).encode()]
    if cbool(c, ((0, 0x7f),), o):
        return [(c, o)]
    if cbool(c, ((0x80, 0x7ff),), o):
        return u8(2)
    if cbool(c, ((0xd800, 0xdfff),), o):
        raise UnicodeEncodeError('utf-8', chr(o), 0, 1, 'surrogates not allowed')
    if cbool(c, ((0x800, 0xffff),), o):
        return u8(3)
    return u8(4)


def pct_encode(string, safe):
    """percent-encode the UTF-8 of every char not in `safe` (ranges)"""
    s, it = parts(string)
    out, os_ = [], []
    for ch, i in zip(s, it):
        if cbool(i, safe, ord(ch)):
            out.append(i)
            os_.append(ch)
            continue
        for b, bv in utf8(i, ord(ch)):
            hi = mk('ediv', b, 16) if isinstance(b, E) else b >> 4
            lo = mk('emod', b, 16) if isinstance(b, E) else b & 15
            out.append(37)
            os_.append('%')
            for d, dv in ((hi, bv >> 4), (lo, bv & 15)):
                e, v = _hexd(d, dv)
                out.append(e)
                os_.append(v)
    return mkstr(''.join(os_), tuple(out))


def m_quote(string, safe='/', encoding=None, errors=None):
    if type(string) is LazyStr:
        string = string.force()
    if type(string) is not SymStr or encoding or errors or type(safe) is not str:
        return urllib.parse.quote(pin(string, 'quote'), pin(safe, 'quote'), encoding, errors)
    chars = set(_ALWAYS_SAFE) | {c for c in safe if ord(c) < 128}
    rs = regex._norm([(ord(c), ord(c)) for c in chars])
    return pct_encode(string, rs)


_HEXR = ((48, 57), (65, 70), (97, 102))


def utf8_decode_replace(bs):
    """list of (byte expr, shadow) -> (items, shadow str), CPython 'replace' semantics"""
    out, os_, k = [], [], 0

    def rng(i, lo, hi):
        b, v = bs[i]
        return cbool(b, ((lo, hi),), v)

    while k < len(bs):
        b, v = bs[k]
        if isinstance(b, E) and b.op == 'u8' and b.args[2] == 0:
            c, n, _ = b.args
            if all(k + j < len(bs) and bs[k + j][0] is mk('u8', c, n, j) for j in range(n)):
                out.append(c)
                os_.append(bytes(x for _, x in bs[k:k + n]).decode())
                k += n
                continue
        if rng(k, 0, 0x7f):
            out.append(b)
            os_.append(chr(v))
            k += 1
            continue
        if rng(k, 0xc2, 0xdf):
            need, lo, hi, base, bits = 1, 0x80, 0xbf, 0xc0, 6
        elif rng(k, 0xe0, 0xef):
            need, base, lo, hi = 2, 0xe0, 0x80, 0xbf
            if rng(k, 0xe0, 0xe0):
                lo = 0xa0
            elif rng(k, 0xed, 0xed):
                hi = 0x9f
        elif rng(k, 0xf0, 0xf4):
            need, base, lo, hi = 3, 0xf0, 0x80, 0xbf
            if rng(k, 0xf0, 0xf0):
                lo = 0x90
            elif rng(k, 0xf4, 0xf4):
                hi = 0x8f
        else:
            out.append(0xfffd)
            os_.append('\ufffd')
            k += 1
            continue
        e = x_sub(b, base) if isinstance(b, E) else b - base
        val = v - base
        n = 1
        ok = True
        while n <= need:
            if k + n >= len(bs) or not rng(k + n, lo if n == 1 else 0x80, hi if n == 1 else 0xbf):
                ok = False
                break
            c, cv = bs[k + n]
            e = x_add(x_mul(e, 64), x_sub(c, 0x80) if isinstance(c, E) else c - 0x80)
            val = val * 64 + cv - 0x80
            n += 1
        if ok:
            out.append(e)
            os_.append(chr(val))
        else:
            out.append(0xfffd)
            os_.append('\ufffd')
        k += n
    return out, ''.join(os_)


def m_unquote(string, encoding='utf-8', errors='replace'):
    if type(string) is LazyStr:
        string = string.force()
    if type(string) is not SymStr or encoding.lower() != 'utf-8' or errors != 'replace':
        return urllib.parse.unquote(pin(string, 'unquote'), encoding, errors)
    s, it = parts(string)
    out, os_, k, run = [], [], 0, []

    def flush():
        if run:
            o, sv = utf8_decode_replace(run)
            out.extend(o)
            os_.append(sv)
            run.clear()

    def hexv(i):
        c, o = it[i], ord(s[i])
        if isinstance(c, E) and c.op == 'hexd':
            return c.args[0], int(s[i], 16)
        if cbool(c, ((48, 57),), o):
            d = 48
        elif cbool(c, ((65, 70),), o):
            d = 55
        else:
            d = 87
        return (x_sub(c, d) if isinstance(c, E) else c - d), o - d
    while k < len(it):
        o = ord(s[k])
        if not cbool(it[k], ((0, 127),), o):
            flush()
            out.append(it[k])
            os_.append(s[k])
            k += 1
            continue
        if ceq(it[k], 37, o) and k + 2 < len(it) and cbool(it[k + 1], _HEXR, ord(s[k + 1])) and \
                cbool(it[k + 2], _HEXR, ord(s[k + 2])):
            (h, hv), (l, lv) = hexv(k + 1), hexv(k + 2)
            b = x_add(x_mul(h, 16), l)
            if isinstance(h, E) and h.op == 'ediv' and h.args[1] == 16 and isinstance(l, E) and \
                    l is mk('emod', h.args[0], 16):
                b = h.args[0]
            run.append((b, hv * 16 + lv))
            k += 3
            continue
        run.append((it[k], o))
        k += 1
    flush()
    return mkstr(''.join(os_), tuple(out))


# -- json

SYMJSON = None
SYMCOPY = None


def _symjson():
    global SYMJSON
    if SYMJSON is None:
        SYMJSON = importlib.import_module('symjson')
    return SYMJSON


def m_json(name):
    def f(x, *a, **k):
        if name in ('loads',):
            if type(x) is LazyStr:
                x = x.force()
            if type(x) is SymBytes:
                x = x.decode(json.detect_encoding(bytes(pin(x, 'bytes'))) if '8' not in x.enc else 'utf-8')
            if type(x) is not SymStr:
                k = {q: (_wrap_callable(v) if callable(v) and not isinstance(v, type) else v) for q, v in k.items()}
                return json.loads(x, *a, **k)
            return _symjson().loads(x, *a, **k)
        if name == 'load':
            return m_json('loads')(x.read(), *a, **k)
        if name == 'dumps' and not has_sym(x):
            return json.dumps(x, *a, **k)
        return getattr(_symjson(), name)(x, *a, **k)
    return f


def m_deepcopy(x, memo=None):
    global SYMCOPY
    t = type(x)
    if t in SYMSET or t in _SIMPLE:
        return x
    if SYMCOPY is None:
        SYMCOPY = importlib.import_module('symcopy')
    return SYMCOPY.deepcopy(x, memo)


def m_copy(x):
    if type(x) in SYMSET:
        return x
    return copy.copy(x)


def m_normalize(form, s):
    """texts of characters that normalisation does not touch are quantified over, others enumerated"""
    if type(s) is LazyStr:
        s = s.force()
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    form = pin(form, 'normalize')
    key = 'normalize ' + form
    if key not in _NORM:
        inert, single, last = [], [], 0x10FFFF
        for o in range(last + 1):
            c = chr(o)
            if unicodedata.normalize(form, c) != c:
                single.append(o)
            elif not unicodedata.combining(c) and not 0x1100 <= o <= 0x11FF and not 0xAC00 <= o <= 0xD7FF and not unicodedata.category(c).startswith('M'):
                inert.append(o)
        _NORM[key] = (_runs(inert), _runs(single))
    inert, single = _NORM[key]
    sh, it = parts(s)
    plain_ = [cbool(i, inert, ord(c)) for c, i in zip(sh, it)]
    if all(plain_):
        return s
    for c, i, ok in zip(sh, it, plain_):
        if not ok:
            cbool(i, single, ord(c))
    return unicodedata.normalize(form, pin(s, 'normalize'))


_NORM = {}


def _runs(xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return tuple(map(tuple, out))


def m_modf(x):
    if bool(x % 1 == 0):
        return 0.0, x
    return (x % 1, x // 1) if bool(x >= 0) else math.modf(pin(x, 'modf'))


def m_open(path, *a, **k):
    vfs = VFS
    p = path if isinstance(path, str) else os.fspath(path)
    if vfs is not None and p.startswith('/symfs/'):
        return vfs.open(p, *a, **k)
    return open(path, *a, **k)


VFS = None


class VFile:
    def __init__(self, fs, path, mode, encoding=None):
        self.fs, self.path, self.mode = fs, path, mode
        self.encoding = None if 'b' in mode else codecs.lookup(fs.locale if encoding is None or encoding == 'locale' else encoding).name
        if 'r' in mode:
            if path not in fs.files:
                raise FileNotFoundError(2, 'No such file or directory', path)
        else:
            if 'w' in mode:
                fs.files[path] = ''
                fs.encodings[path] = self.encoding or 'utf-8'
            self.buf = []
            if 'w' not in mode:
                self.buf.append(fs.files.get(path, ''))

    def read(self, *a):
        text, enc = self.fs.files[self.path], self.fs.encodings[self.path]
        if a and a != (-1,) and a != (None,):
            raise NotImplementedError('part of a file')
        if 'b' in self.mode:
            return SymBytes(text) if enc == 'utf-8' or _below(text, 0x80) else pin(text, 'file').encode(enc)
        if self.encoding is None or self.encoding == enc or _below(text, 0x80):
            return text
        return pin(text, 'file').encode(enc).decode(self.encoding)

    def write(self, s):
        if type(s) is LazyStr:
            s = s.force()
        if type(s) is SymBytes:
            s = s.text
        elif type(s) in (bytes, bytearray):
            s = bytes(s).decode('utf-8')
        elif self.encoding and not self.encoding.startswith('utf-') and not _below(s, {'ascii': 0x80, 'iso8859-1': 0x100}.get(self.encoding, 0x80)):
            pin(s, 'file').encode(self.encoding)
        self.buf.append(s)
        return len(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def close(self):
        if 'r' not in self.mode:
            self.fs.files[self.path] = str_join('', self.buf)

    def flush(self):
        pass


def _below(text, n):
    """are all characters below n"""
    if type(text) is str:
        return all(ord(c) < n for c in text)
    return all(bool(c < chr(n)) for c in text)


class VirtualFS:
    def __init__(self):
        self.files = {}
        self.encodings = {}
        self.locale = 'utf-8'
        self.wide = False       # are there integers beyond 2^53

    def open(self, p, mode='r', buffering=-1, encoding=None, *a, **k):
        return VFile(self, p, mode, encoding)


# -- pathlib

import pathlib


class SymPath(os.PathLike):
    """a pathlib.Path that may contain symbolic text; anything but joining and turning into text makes it concrete"""

    def __init__(self, text=''):
        self._text = text           # normal in the way of PurePosixPath: no empty or '.' components

    def __truediv__(self, rel):
        if type(rel) is SymPath:
            rel = rel._text
        if type(rel) is LazyStr:
            rel = rel.force()
        if type(rel) is not SymStr:
            rel = str(pathlib.PosixPath(rel))
            rel = '' if rel == '.' else rel
        cur = self._text
        if len(rel) and bool(rel[0] == '/'):
            cur = '//' if len(rel) > 1 and bool(rel[1] == '/') and not (len(rel) > 2 and bool(rel[2] == '/')) else '/'
        for c in rel.split('/'):
            if len(c) == 0 or (len(c) == 1 and bool(c == '.')):
                continue
            cur = c if len(cur) == 0 else cur + c if len(cur) <= 2 and bool(cur[-1] == '/') else cur + '/' + c
        return SymPath(cur)

    def __rtruediv__(self, left):
        return SymPath() / left / self

    def joinpath(self, *rels):
        r = self
        for x in rels:
            r = r / x
        return r

    def __str__(self):
        return self._text if len(self._text) else '.'

    __fspath__ = __str__

    # files of the virtual file system
    def _virtual(self):
        return VFS is not None and bool(self._text.startswith('/symfs/'))

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        if self._virtual():
            return VFS.open(self._text, mode, buffering, encoding)
        return open(self, mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None):
        with self.open('r', -1, encoding, errors) as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with self.open('w', -1, encoding, errors, newline) as f:
            return f.write(data)

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def write_bytes(self, data):
        with self.open('wb') as f:
            return f.write(data)

    def exists(self, **k):
        return self._text in VFS.files if self._virtual() else self._pinned().exists(**k)

    def is_file(self, **k):
        return self._text in VFS.files if self._virtual() else self._pinned().is_file(**k)

    def _pinned(self):
        return pathlib.PosixPath(pin(self._text, 'path') if type(self._text) is SymStr else self._text)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(self._pinned(), n)
        if callable(v):
            return lambda *a, **k: SymPath._wrap(v(*[x._pinned() if type(x) is SymPath else pin(x, 'path') if type(x) in (SymStr, LazyStr) else x for x in a], **k))
        return SymPath._wrap(v)

    @staticmethod
    def _wrap(r):
        if isinstance(r, pathlib.PosixPath):
            return SymPath() / str(r)
        if isinstance(r, types.GeneratorType):
            return (SymPath._wrap(x) for x in r)
        return r

    def __eq__(self, o):
        if type(o) is SymPath:
            o = o._text
        elif isinstance(o, pathlib.PurePosixPath):
            o = '' if str(o) == '.' else str(o)
        else:
            return NotImplemented
        return o == self._text

    def __hash__(self):
        return hash(self._pinned())

    def __repr__(self):
        return f"PosixPath('{self._text}')"


def m_path(*a):
    r = SymPath()
    for x in a:
        r = r / x
    return r


# -- rfc3986.normalizers

def escapes_at(it, s, n):
    """positions of %xx"""
    return [k for k in range(n - 2) if cbool(it[k], ((37, 37),), ord(s[k])) and cbool(it[k + 1], _HEXR, ord(s[k + 1])) and cbool(it[k + 2], _HEXR, ord(s[k + 2]))]


def rfc_models(norm, misc):
    """models of two functions of rfc3986 that go through bytes and sets of texts"""
    real_enc, real_pct = norm.encode_component, norm.normalize_percent_characters
    keep = regex._norm([(ord(c), ord(c)) for c in misc.NON_PCT_ENCODED if c != '%'])

    def encode_component(text, encoding):
        if type(text) is LazyStr:
            text = text.force()
        if type(text) is not SymStr or encoding.lower() != 'utf-8':
            return real_enc(text, encoding)
        s, it = parts(text)
        pct = [k for k in range(len(s)) if cbool(it[k], ((37, 37),), ord(s[k]))]
        whole = len(pct) == len(escapes_at(it, s, len(s))) if pct else False
        return pct_encode(text, regex._norm(list(keep) + [(37, 37)]) if whole else keep)

    def normalize_percent_characters(s):
        if type(s) is LazyStr:
            s = s.force()
        if type(s) is not SymStr:
            return real_pct(s)
        sh, it = parts(s)
        at = escapes_at(it, sh, len(sh))
        r = s
        for k in at:
            r = r[:k] + r[k:k + 3].upper() + r[k + 3:]
        return r

    FUNC[real_enc], FUNC[real_pct] = encode_component, normalize_percent_characters


# ------------------------------------------------------------------ dispatcher

FUNC = {
    isinstance: m_isinstance, len: m_len, ord: m_ord, chr: m_chr, hash: m_hash, repr: m_repr,
    format: m_format, sorted: m_sorted, min: m_minmax(min), max: m_minmax(max), getattr: m_getattr,
    round: m_round, open: m_open,
    functools.reduce: m_reduce,
    re.compile: m_re_compile, re.escape: m_re_escape,
    copy.deepcopy: m_deepcopy, copy.copy: m_copy,
    urllib.parse.quote: m_quote, urllib.parse.unquote: m_unquote,
    math.floor: lambda x: x.__floor__() if type(x) in (SymReal, SymFrac) else (x if type(x) is SymInt else math.floor(x)),
    math.ceil: lambda x: x.__ceil__() if type(x) in (SymReal, SymFrac) else (x if type(x) is SymInt else math.ceil(x)),
    math.trunc: lambda x: x.__int__() if type(x) in (SymReal, SymFrac) else (x if type(x) is SymInt else math.trunc(x)),
    math.isfinite: lambda x: True if type(x) in (SymReal, SymInt) else math.isfinite(x),
    math.isinf: lambda x: False if type(x) in (SymReal, SymInt) else math.isinf(x),
    math.isnan: lambda x: False if type(x) in (SymReal, SymInt) else math.isnan(x),
    unicodedata.normalize: m_normalize,
    math.modf: lambda x: m_modf(x) if type(x) is SymReal else math.modf(pin(x, 'modf')),
    math.fabs: lambda x: abs(x) if type(x) is SymReal else math.fabs(x),
    math.fmod: lambda x, y: x % y if type(x) is SymReal and type(y) in (int, float) and y > 0 and bool(x >= 0) else math.fmod(pin(x, 'fmod'), pin(y, 'fmod')),
    operator.eq: lambda a, b: seq(a, b), operator.ne: lambda a, b: sne(a, b),
    operator.contains: lambda a, b: sin(b, a), operator.getitem: lambda a, b: sget(a, b),
}
for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split'):
    FUNC[getattr(re, _n)] = m_re(_n)
for _n in ('loads', 'load', 'dumps', 'dump'):
    FUNC[getattr(json, _n)] = m_json(_n)

CLS = {str: m_str, int: m_int, float: m_float, bool: m_bool, type: m_type, range: m_range,
       set: m_set, frozenset: m_frozenset, dict: m_dict, Decimal: m_decimal, Fraction: m_fraction, map: m_map, filter: m_filter,
       pathlib.Path: m_path, pathlib.PosixPath: m_path, pathlib.PurePath: m_path, pathlib.PurePosixPath: m_path}

SAFE = frozenset((isinstance, issubclass, iter, next, any, all, sum, abs, print, id, callable, hasattr,
                  setattr, delattr, divmod, sorted, min, max, len, repr, pow, vars,
                  operator.lt, operator.le, operator.gt, operator.ge, operator.add, operator.sub,
                  operator.not_, operator.truth, operator.is_, operator.is_not, operator.or_, operator.and_,
                  operator.iadd, operator.ior))
SAFE_CLS = frozenset((list, tuple, enumerate, zip, reversed, slice, object, property, collections.deque,
                      staticmethod, classmethod, functools.partial, types.SimpleNamespace, itertools.chain,
                      collections.OrderedDict, collections.ChainMap, types.MappingProxyType))
SAFE_MODS = ('_collections_abc', 'collections', 'typing', 'abc', 'functools', 'contextlib', 'enum', 'copy',
             'inspect', 'os', 'posixpath', 'pathlib', 'symjson', 'symcopy', 'weakref', 'warnings', 'itertools')
SAFE_SELF = (list, collections.deque, tuple, BaseException, types.GeneratorType, SymSet, type(iter([])),
             enumerate, zip, map, filter, type({}.keys()), type({}.items()), type({}.values()))

INSTRUMENTED = ['jschon', 'rfc3986', 'symjson', 'symcopy', 'harness']
_BF = (types.BuiltinFunctionType, type(re.compile('').match))
_MW = type(''.__str__)
_WD = type(str.__str__)
_MD = type(str.join)


def _anysym(a, k):
    for x in a:
        if type(x) in SYMSET:
            return True
    if k:
        for x in k.values():
            if type(x) in SYMSET:
                return True
    return False


def sc(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        m = FUNC.get(f)
        if m is not None:
            return m(*a, **k)
        if _anysym(a, k):
            mod = f.__module__ or ''
            top = mod.partition('.')[0]
            if top not in INSTRUMENTED and top not in SAFE_MODS and not top.startswith('sym') and not top.startswith('namedtuple_'):
                NATIVE[f'{mod}.{f.__qualname__}'] = NATIVE.get(f'{mod}.{f.__qualname__}', 0) + 1
                a = tuple(pin(x, f'call {f.__qualname__}') for x in a)
                k = {q: pin(v, f'call {f.__qualname__}') for q, v in k.items()}
        return f(*a, **k)
    if t is types.MethodType:
        fn = f.__func__
        m = FUNC.get(fn) if type(fn) is types.FunctionType else None
        return f(*a, **k)
    if isinstance(f, type):
        m = CLS.get(f)
        if m is not None:
            return m(*a, **k)
        if t is enum.EnumType and a and type(a[0]) in SYMSET:
            for x in f:
                if bool(x.value == a[0]):
                    return x
            if getattr(f._missing_, '__func__', None) is enum.Enum._missing_.__func__ and len(a) == 1:
                v = a[0]
                raise ValueError(LazyStr(lambda: f'{m_repr(v)!s} is not a valid {f.__qualname__}'))
            return f(pin(a[0], 'enum'))
        if _anysym(a, k) and f not in SAFE_CLS and f.__module__ in ('builtins', 'fractions', 'decimal', 'datetime',
                                                                  'ipaddress', 'uuid', '_io', 'io'):
            if not issubclass(f, BaseException):
                a = tuple(pin(x, f'call {f.__name__}') for x in a)
                k = {q: pin(v, f'call {f.__name__}') for q, v in k.items()}
        if f in SAFE_CLS and f.__module__ == 'itertools':
            pass
        return f(*a, **k)
    if t in _BF:
        self = f.__self__
        if self is None or type(self) is types.ModuleType:
            m = FUNC.get(f)
            if m is not None:
                return m(*a, **k)
            if _anysym(a, k) and f not in SAFE and f.__name__ not in ('__import__', '__build_class__'):
                a = tuple(pin(x, f'call {f.__name__}') for x in a)
                k = {q: pin(v, f'call {f.__name__}') for q, v in k.items()}
            return f(*a, **k)
        return bound(f, self, f.__name__, a, k)
    if t is _MW:       # bound slot wrapper
        self = f.__self__
        if isinstance(self, (str, dict, int, float)) and type(self) not in SYMSET and _anysym(a, k):
            return slot(self, f.__name__, a)
        if f.__name__ == '__getitem__' and isinstance(self, (dict, list, tuple)):
            return sget(self, *a)
        return f(*a, **k)
    if t is _MD or t is _WD:     # unbound method of a builtin type
        if a:
            o = f.__objclass__
            if o in (str, dict, list, set, re.Pattern) and t is _MD:
                s = a[0]
                if type(s) in (SymStr, LazyStr):
                    return getattr(s, f.__name__)(*a[1:], **k)
                if type(s).__dict__.get(f.__name__) is None or type(s) in (str, dict, list):
                    return bound(f.__get__(s), s, f.__name__, a[1:], k)
            if t is _WD and type(a[0]) in SYMSET:
                n = f.__name__
                if n in ('__repr__', '__str__'):
                    return m_str(a[0]) if n == '__str__' or type(a[0]) in (SymInt, SymReal, SymBool) else m_repr(a[0])
                if n == '__hash__':
                    return m_hash(a[0])
                return getattr(a[0], n)(*a[1:], **k)
            if t is _WD and o is tuple and f.__name__ == '__hash__':
                return m_hash(tuple(a[0]))
        return f(*a, **k)
    if t is functools.partial:
        return sc(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, functools._lru_cache_wrapper):
        if _anysym(a, k) or has_sym(a, 2) or any(sym_key(x) for x in a):
            return sc(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if t is operator.itemgetter or t is operator.attrgetter or t is operator.methodcaller:
        return f(*a, **k)
    if _anysym(a, k) and not isinstance(getattr(t, '__call__', None), types.FunctionType) \
            and t.__module__ not in ('typing', 'collections.abc'):
        a = tuple(pin(x, f'call {t.__name__}') for x in a)
        k = {q: pin(v, f'call {t.__name__}') for q, v in k.items()}
    return f(*a, **k)


def slot(self, name, a):
    if isinstance(self, str):
        s, it = parts(self)
        return getattr(SymStr(s, it), name)(*a)
    if name == '__contains__':
        return sin(a[0], self)
    if name == '__getitem__':
        return sget(self, a[0])
    if name == '__setitem__':
        return sset(a[1], self, a[0])
    if name == '__delitem__':
        return sdel(self, a[0])
    if name == '__eq__':
        return seq(self, a[0])
    if name == '__ne__':
        return sne(self, a[0])
    return getattr(self, name)(*[pin(x, name) for x in a])


def bound(f, self, name, a, k):
    if isinstance(self, str):
        if name == 'join':
            xs = list(a[0])
            if any(type(x) in SYMSET for x in xs):
                return str_join(self, xs)
            return f(xs)
        if not _anysym(a, k):
            if name == 'startswith' or name == 'endswith':
                if a and type(a[0]) is tuple and has_sym(a[0]):
                    s, it = parts(self)
                    return getattr(SymStr(s, it), name)(*a, **k)
            if name == 'format' and (has_sym(a) or has_sym(k)):
                return LazyStr(lambda: f(*pin(a, 'format'), **pin(k, 'format')))
            return f(*a, **k)
        if name == 'format':
            return LazyStr(lambda: f(*pin(a, 'format'), **pin(k, 'format')))
        s, it = parts(self)
        return getattr(SymStr(s, it), name)(*a, **k)
    if isinstance(self, dict):
        if name == 'get':
            return dget(self, *a)
        if name == 'setdefault':
            q = find_key(self, a[0])
            if q is not _MISS:
                return dict.__getitem__(self, q)
            v = a[1] if len(a) > 1 else None
            dset(self, a[0], v)
            return v
        if name == 'pop':
            q = find_key(self, a[0])
            if q is _MISS:
                if len(a) > 1:
                    return a[1]
                if 'default' in k:
                    return k['default']
                raise KeyError(a[0])
            return dict.pop(self, q)
        if name == 'update':
            if a:
                dict_update(self, a[0])
            for q, v in k.items():
                dset(self, q, v)
            return None
        if name == 'fromkeys':
            v = a[1] if len(a) > 1 else None
            return sdict((q, v) for q in a[0])
        if name == '__contains__':
            return sin(a[0], self)
        if name == '__getitem__':
            return sget(self, a[0])
        return f(*a, **k)
    if self is dict and name == 'fromkeys':
        v = a[1] if len(a) > 1 else None
        return sdict((q, v) for q in a[0])
    if isinstance(self, re.Pattern):
        return pattern_call(self, name, a, k)
    if isinstance(self, list):
        if name == 'insert' and type(a[0]) is SymInt:
            return f(_bound(a[0], len(self)), a[1])
        if name == 'pop' and a and type(a[0]) is SymInt:
            return f(conc_index(a[0], len(self), 'pop index out of range'))
        if name == 'sort' and 'key' in k:
            k['key'] = _wrap_callable(k['key'])
        return f(*a, **k)
    if isinstance(self, (set, frozenset)) and not isinstance(self, SymSet):
        if _anysym(a, k) or any(sym_key(x) for x in a):
            if name == '__contains__':
                return sin(a[0], self)
            r = getattr(SymSet(self), name)(*a, **k)
            if name in ('add', 'update', 'discard', 'remove'):
                raise AssertionError('symbolic element into a native set')
            return r
        return f(*a, **k)
    if isinstance(self, SAFE_SELF) or isinstance(self, type):
        return f(*a, **k)
    if isinstance(self, types.MappingProxyType) and name == 'get':
        for q in self:
            if bool(q == a[0]):
                return self[q]
        return a[1] if len(a) > 1 else None
    if isinstance(self, (Decimal, Fraction)) and any(isinstance(x, SymDec) for x in a):
        return f(*[x.conc() if isinstance(x, SymDec) else x for x in a], **k)
    if _anysym(a, k) and type(self).__module__ in ('builtins', '_io', 're', 'decimal', '_random'):
        a = tuple(pin(x, f'{type(self).__name__}.{name}') for x in a)
        k = {q: pin(v, name) for q, v in k.items()}
    return f(*a, **k)


def sfn(q):
    FUNCS[q] = FUNCS.get(q, 0) + 1


def install():
    b = builtins
    b.__sc__, b.__sf__, b.__sin__, b.__seq__, b.__sne__, b.__sis__ = sc, sf, sin, seq, sne, sis
    b.__slt__, b.__slte__, b.__sgt__, b.__sgte__, b.__sbin__, b.__siop__ = slt, slte, sgt, sgte, sbin, siop
    b.__sget__, b.__sset__, b.__sdel__, b.__sdict__, b.__smod__ = sget, sset, sdel, sdict, smod
    b.__smkset__, b.__sfn__, b.__saug__, b.__sbor__ = smkset, sfn, saug, sbor


# ------------------------------------------------------------------ import hook

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves jschon (from the overlay), rfc3986, the harnesses, and pure-Python copies of json/copy."""

    def __init__(self, roots):
        self.roots = roots          # top-level package -> (directory containing it, mark)

    def find_spec(self, name, path=None, target=None):
        top = name.partition('.')[0]
        if top == 'symjson' or top == 'symcopy':
            std = sysconfig.get_path('stdlib')
            p = os.path.join(std, *name.replace('symjson', 'json').replace('symcopy', 'copy').split('.'))
        elif top in self.roots:
            p = os.path.join(self.roots[top][0], *name.split('.'))
        else:
            return None
        if os.path.isfile(os.path.join(p, '__init__.py')):
            f, pkg = os.path.join(p, '__init__.py'), True
        elif os.path.isfile(p + '.py'):
            f, pkg = p + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, f, loader=self, submodule_search_locations=[p] if pkg else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        name = module.__name__
        top = name.partition('.')[0]
        if top == 'symjson':
            src = src.replace('from json', 'from symjson').replace('from _json import', 'from _no_such_json import')
        mark = self.roots.get(top, (None, False))[1]
        code = instrument(src, f, name, mark)
        exec(code, module.__dict__)


def activate(roots):
    install()
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
