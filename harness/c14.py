"""C14: logical applicators."""
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness.util import distinct
from harness import sch

prepare = sch.prepare
BOUNDS = 'each logical keyword with up to 4 subschemas whose verdicts are independent symbolic conditions, true or false; every ' \
         'subset of the logical keywords in one schema; every nesting of three logical keywords, also reached through properties, ' \
         'items and $ref; instances integer, string, array and object with symbolic contents; 2019-09 and 2020-12'


class Leaf:
    """subschemas with symbolic, independent verdicts"""

    def __init__(self, s, kind='int'):
        self.s, self.n, self.kind = s, 0, kind

    def __call__(self):
        s, n = self.s, self.n
        self.n += 1
        lim = s.int(f'm{n}', -4, 4, 0)
        return {'int': lambda: {'maximum': lim}, 'str': lambda: {'const': s.string(f'c{n}', 1, default='a')},
                'arr': lambda: {'items': {'minimum': lim}}, 'obj': lambda: {'required': [s.string(f'r{n}', 1, default='a')]}}[self.kind]()

    def some(self):
        k = self.s.pick(['sym', 'true', 'false'], f'kind{self.n}')
        if k == 'sym':
            return self()
        self.n += 1
        return k == 'true'

    def inst(self):
        s = self.s
        return {'int': lambda: s.int('x', -5, 5, 0), 'str': lambda: s.string('x', 1, default='a'),
                'arr': lambda: [s.int('x', -5, 5, 0), s.int('x1', -5, 5, 0)],
                'obj': lambda: {s.string('x', 1, default='a'): 1}}[self.kind]()


def group(s, key, n, kind, dialect, mixed):
    l = Leaf(s, kind)
    x = l.inst()
    v = [l.some() if mixed else l() for _ in range(n)]
    sch.agree(s, {key: v if key in ('allOf', 'anyOf', 'oneOf') else v[0]}, x, dialect)


def conditional(s, keys, kind, dialect):
    l = Leaf(s, kind)
    x = l.inst()
    sch.agree(s, {k: l.some() for k in keys}, x, dialect)


KEYS = ('allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else')


def subset(s, mask, kind, extra):
    """several logical keywords together, and an assertion besides them"""
    l = Leaf(s, kind)
    x = l.inst()
    d = {}
    for i, k in enumerate(KEYS):
        if mask >> i & 1:
            d[k] = [l(), l()] if k in ('allOf', 'anyOf', 'oneOf') else l()
    if extra:
        d.update(l())
    sch.agree(s, d, x, s.pick(['2020', '2019'], 'dialect'))


def wrap(op, inner, other):
    return {'allOf': lambda: {'allOf': [inner, other()]}, 'anyOf': lambda: {'anyOf': [other(), inner]}, 'oneOf': lambda: {'oneOf': [inner, other()]},
            'not': lambda: {'not': inner}, 'if': lambda: {'if': inner, 'then': other(), 'else': other()},
            'then': lambda: {'if': other(), 'then': inner}, 'else': lambda: {'if': other(), 'then': False, 'else': inner},
            'allOf1': lambda: {'allOf': [inner]}, 'dep': lambda: {'dependentSchemas': {'a': inner}}}[op]()


def nested(s, ops, place, dialect):
    l = Leaf(s)
    x = l.inst()
    v = l()
    for op in reversed(ops):
        v = wrap(op, v, l)
    if place == 'properties':
        v, x = {'properties': {'p': v, 'q': v}}, {'p': x, 'q': 0}
    elif place == 'items':
        v, x = {'items': v}, [x, 0]
    elif place == 'ref':
        v = {'$ref': '#/$defs/d', '$defs': {'d': v}}
    elif place == 'additional':
        v, x = {'additionalProperties': v}, {'p': x}
    elif place == 'again':
        v, x = {'properties': {'p': {'$ref': '#/$defs/d'}, 'q': {'not': {'$ref': '#/$defs/d'}}}, '$defs': {'d': v}}, {'p': x, 'q': 5}
    sch.agree(s, v, x, dialect)


def dependent(s, names, members, dialect, kinds):
    """dependentSchemas: symbolic names"""
    x = {}
    for i, n in enumerate(members):
        k = s.string(f'x{i}', n, default='ab')
        s.assume(all_(no(k == q) for q in x))
        x[k] = s.int(f'v{i}', 0, 3, 1)
    v = {}
    for i, n in enumerate(names):
        k = s.string(f'k{i}', n, default='ba')
        s.assume(all_(no(k == q) for q in v))
        v[k] = {'max': lambda: {'maxProperties': s.int(f'm{i}', 0, 3, 2)}, 'req': lambda: {'required': [s.string(f'r{i}', 1, default='c')]},
                'false': lambda: False, 'true': lambda: True, 'prop': lambda: {'properties': {k: {'maximum': s.int(f'm{i}', 0, 3, 1)}}}}[kinds[i]]()
    sch.agree(s, {'dependentSchemas': v}, x, dialect)


def ignored(s, dialect):
    x = s.pick([None, True, 1, 'a', ['a'], []], 'x')
    sch.agree(s, {'dependentSchemas': {'a': False, '0': False}}, x, dialect)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for key in ('allOf', 'anyOf', 'oneOf', 'not'):
        for n in ((1, 2, 3, 4) if key != 'not' else (1,)):
            for kind in ('int', 'str', 'arr', 'obj'):
                for dialect in ('2020', '2019'):
                    if T or n <= 3 or kind == 'int':
                        cs.append(Case(f'{key}{n}-{kind}-{dialect}', group, key=key, n=n, kind=kind, dialect=dialect, mixed=n <= 3, weight=3 ** n))
    for keys in (('if',), ('then',), ('else',), ('then', 'else'), ('if', 'then'), ('if', 'else'), ('if', 'then', 'else'), ('else', 'then', 'if')):
        for kind in ('int', 'str', 'arr', 'obj'):
            for dialect in ('2020', '2019'):
                cs.append(Case(f"{'-'.join(keys)}-{kind}-{dialect}", conditional, keys=keys, kind=kind, dialect=dialect, weight=3))
    for mask in range(1, 128):
        n = sum((2 if i < 3 else 1) for i in range(7) if mask >> i & 1)
        if T or n <= 5:
            cs.append(Case(f'subset-{mask}', subset, mask=mask, kind='int', extra=False, weight=2 ** n))
        if n <= 4:
            cs.append(Case(f'subset-{mask}-extra', subset, mask=mask, kind='obj', extra=True, weight=2 ** n))
    ops = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else']
    places = ['root', 'properties', 'items', 'ref', 'additional', 'again']
    i = 0
    for a in ops:
        for b in ops:
            for place in places:
                cs.append(Case(f'nested-{a}-{b}-{place}', nested, ops=(a, b), place=place, dialect='2020', weight=4))
            for c in ops:
                i += 1
                cs.append(Case(f'nested-{a}-{b}-{c}', nested, ops=(a, b, c), place=places[i % 6], dialect=('2020', '2019')[i % 2], weight=8, thorough_only=False))
    for names in ((1,), (1, 1), (0, 2)):
        for members in ((), (1,), (1, 1), (0, 2)):
            for kinds in (('max', 'req'), ('false', 'max'), ('req', 'true'), ('prop', 'prop'), ('max', 'max'), ('false', 'false')):
                cs.append(Case(f"dependent-{names}-{members}-{'-'.join(kinds)}", dependent, names=names, members=members, kinds=kinds,
                               dialect='2020' if len(members) < 2 else '2019', weight=5))
    cs += [Case(f'ignored-{d}', ignored, dialect=d) for d in ('2020', '2019')]
    return cs
