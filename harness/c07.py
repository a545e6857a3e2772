"""C07: equality and order of JSON values."""
from jschon import JSON
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_, FULL
from harness.util import same, clone, strict

BOUNDS = 'all pairs of values from 24 shapes (scalars of every type, arrays of up to 3 items, objects of up to 3 members, ' \
         'nesting up to depth 3), integers from -10^12 to 10^12, decimals with 3 fractional digits, strings and keys of up to ' \
         '2 characters (3 in thorough) over all Unicode scalar values; comparison JSON-JSON, JSON-plain and plain-JSON'

BIG = 10 ** 12
SMALL = ((34, 34), (47, 122), (0x3b1, 0x3c9))


def leaf(s, kind, n, small=False):
    if kind == 'null':
        return None
    if kind == 'bool':
        return s.flag(n + 'b')
    if kind == 'int':
        return s.int(n + 'i', -1, 10, 1) if small else s.int(n + 'i', -BIG, BIG, 1)
    if kind == 'real':
        return s.real(n + 'r', -1, 10, 10, 10) if small else s.real(n + 'r', -BIG, BIG, 1000, 1000)
    if kind.startswith('str'):
        return s.string(n + 's', int(kind[3:] or 1), ranges=SMALL if small else FULL, default='1a')


def build(s, t, n='', small=False):
    """t: a leaf kind, a list of templates, or a dict-like tuple of (keylen, template)"""
    if isinstance(t, str):
        return leaf(s, t, n, small)
    if isinstance(t, list):
        return [build(s, x, f'{n}{i}.', small) for i, x in enumerate(t)]
    d = {}
    for i, (kl, x) in enumerate(t):
        k = kl if isinstance(kl, str) else s.string(f'{n}k{i}', kl, ranges=SMALL if small else FULL, default='ab')
        s.assume(all_(no(k == q) for q in d))
        d[k] = build(s, x, f'{n}{i}.', small)
    return d


LEAF = ['null', 'bool', 'int', 'real', 'str0', 'str1', 'str2']
SHAPES = {**{k: k for k in LEAF},
          'arr0': [], 'arr-int': ['int'], 'arr-real': ['real'], 'arr-bool': ['bool'], 'arr-str': ['str1'], 'arr2': ['int', 'str1'],
          'arr2b': ['str1', 'int'], 'arr3': ['int', 'real', 'int'], 'nest': [['int'], []], 'nest2': [[], ['bool']],
          'nest3': [['int', 'int']],
          'obj0': (), 'obj1': ((1, 'int'),), 'obj1b': ((1, 'bool'),), 'obj1s': ((1, 'null'),), 'obj2': ((1, 'int'), (1, 'real')),
          'obj2k': ((0, 'int'), (2, 'int')), 'obj3': ((1, 'int'), (1, 'int'), (1, 'str1')), 'objarr': ((1, ['int', 'bool']),),
          'objarr2': ((1, ['real', 'bool']),), 'objobj': ((1, ((1, 'int'), (1, 'int'))),), 'arrobj': [((1, 'int'), (1, 'int'))],
          'arrobj2': [((1, 'real'), (1, 'int'))]}


def pair(s, ta, tb, order):
    a, b = build(s, SHAPES[ta], 'a'), build(s, SHAPES[tb], 'b')
    want = same(a, b)
    ja, jb = JSON(a), JSON(b)
    s.check(iff(ja == jb, want), 'equality is not equality of the JSON values')
    s.check(iff(jb == ja, want), 'equality is not symmetric')
    s.check(iff(ja != jb, no(want)), '!= is not the negation of ==')
    s.check(iff(ja == b, want), 'comparing with plain data differs')
    s.check(iff(b == ja, want), 'comparing plain data differs')
    s.check(iff(jb != a, no(want)), '!= with plain data differs')
    s.check(ja == ja, 'not equal to itself')
    s.check(ja == JSON(clone(a)), 'not equal to a copy')
    if isinstance(a, dict) and len(a) > 1:
        r = dict(reversed(list(a.items())))
        s.check(ja == JSON(r), 'equality depends on the order of members')
        s.check(iff(JSON(r) == jb, want), 'equality depends on the order of members')
    # containment uses equality
    if isinstance(a, list):
        s.check(iff(any_(same(x, b) for x in a), jb in ja), 'containment is not equality with an item')
    s.check(strict(ja.value, a) & strict(jb.value, b), 'comparing changed a value')
    if order:
        for name, f in OPS.items():
            for x, y in ((ja, jb), (ja, b)):
                s.check(iff(f(x, y), f(a, b)), f'{name} is not the order of the values')
        s.check(iff(OPS['<='](a, jb), OPS['<='](a, b)), 'order with plain data on the left')
        s.check(iff(OPS['>'](a, jb), OPS['>'](a, b)), 'order with plain data on the left')


OPS = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}


def unordered(s, ta, tb):
    a, b = build(s, ta, 'a'), build(s, tb, 'b')
    for name, f in OPS.items():
        for x, y in ((JSON(a), JSON(b)), (JSON(a), b)):
            k, r = s.run(f, x, y)
            s.check(k == 'exc' and isinstance(r, TypeError), f'{name} between a {ta} and a {tb}')


def mutated(s, t):
    """equality is that of the present value"""
    a = build(s, SHAPES[t], 'a')
    j, k = JSON(a), JSON(clone(a))
    s.check(j == k, 'equal')
    i = s.int('new', -3, 3, 0)
    if isinstance(a, list):
        j[0] = i
        a[0] = i
    else:
        key = s.string('key', 1, default='a')
        j[key] = i
        a[key] = i
    s.check(iff(j == k, same(a, k.value)), 'equality after a change')
    s.check(j == JSON(a), 'equality after a change')


def cases(tier):
    cs = []
    names = list(SHAPES)
    big = {'obj3', 'obj2', 'arrobj', 'arrobj2', 'objobj'}
    for i, a in enumerate(names):
        for b in names[i:]:
            order = {a, b} <= {'int', 'real'} or {a, b} <= {'str0', 'str1', 'str2'}
            cs.append(Case(f'pair-{a}-{b}', pair, ta=a, tb=b, order=order, weight=4 if {a, b} <= big else 1))
    cs += [Case(f'unordered-{a}-{b}', unordered, ta=a, tb=b) for a in ('int', 'real', 'str1', 'null') for b in ('int', 'real', 'str1', 'null')
           if 'null' in (a, b) or ('str1' in (a, b) and a != b)]
    cs += [Case(f'mutated-{t}', mutated, t=t) for t in ('arr2', 'arrobj', 'obj2', 'objarr', 'obj3')]
    return cs
