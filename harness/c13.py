"""C13: value assertion keywords."""
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_, FULL
from harness.util import same, clone, strict, distinct
from harness import sch, schref
from harness.c07 import build, SHAPES

prepare = sch.prepare
BOUNDS = 'every keyword with every type of instance, in the 2019-09 and 2020-12 dialects; instance and keyword numbers integers from -10^12 ' \
         'to 10^12, or to 10^20 beyond what floating point numbers can tell, and decimals with 3 fractional digits (multipleOf: up to 10^6, divisors 1..12 and decimals 0.01..1.20), strings of up to 4 ' \
         'characters over all Unicode scalar values, arrays of up to 4 items and objects of up to 3 members with symbolic contents, ' \
         '2 types, 3 enum values, 2 names and 9 patterns; const and enum with 24 value shapes'
ASSUMPTIONS = ['decimals are compared as the exact decimals they are written as']
BIG = 10 ** 12

INST = {
    'null': lambda s, n: None,
    'true': lambda s, n: True,
    'bool': lambda s, n: s.flag(n),
    'int': lambda s, n: s.int(n, -BIG, BIG, 1),
    'small': lambda s, n: s.int(n, -2, 6, 1),
    'huge': lambda s, n: s.int(n, -10 ** 20, 10 ** 20, 2 ** 53),
    'real': lambda s, n: s.real(n, -BIG, BIG, 1000, 2500),
    'str0': lambda s, n: '',
    'str1': lambda s, n: s.string(n, 1, default='a'),
    'str2': lambda s, n: s.string(n, 2, default='ab'),
    'str3': lambda s, n: s.string(n, 3, default='ab'),
    'str4': lambda s, n: s.string(n, 4, default='ab'),
    'arr0': lambda s, n: [],
    'arr1': lambda s, n: [s.int(n, 0, 3, 1)],
    'arr2': lambda s, n: [1, 'a'],
    'arr3': lambda s, n: [[], {}, None],
    'arr4': lambda s, n: [[1], 1, 1, 'a'],
    'obj0': lambda s, n: {},
    'obj1': lambda s, n: {s.string(n + 'k0', 1, default='a'): 1},
    'obj2': lambda s, n: {s.string(n + 'k0', 1, default='a'): None, s.string(n + 'k1', 2, default='b'): [1]},
    'obj3': lambda s, n: {s.string(n + 'k0', 0, default='a'): 1, s.string(n + 'k1', 1, default='b'): 'x', s.string(n + 'k2', 2, default='ab'): {}},
}


def judge(s, schema, x, dialect='2020'):
    """verdict of the code against the reference, with the instance also nested, and both left unchanged"""
    keep, keepx = clone(schema), clone(x)
    want = all_(schref.ASSERT[k](v, x) for k, v in schema.items() if k in schref.ASSERT)
    k, r = s.run(sch.valid, s, schema, x, dialect)
    s.check(k == 'ok', lambda: f'evaluation raises {type(r).__name__}: {r}')
    s.check(iff(r, want), lambda: f'{list(schema)} gives {bool(r)}')
    s.reach('valid' if r else 'invalid')
    s.check(strict(schema, keep) & strict(x, keepx), 'evaluation changes the schema or the instance')
    return want


def types(s, inst, two):
    names = ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object']
    x = INST[inst](s, 'x')
    t = s.pick(names, 't')
    if two:
        t = [t, s.pick(names, 't2')]
        s.assume(t[0] != t[1])
    judge(s, {'type': t}, x, s.pick(['2020', '2019'], 'dialect') if not two else '2020')


def numeric(s, inst, lim, key):
    x = INST[inst](s, 'x')
    v = INST[lim](s, 'v')
    judge(s, {key: v}, x)


def bounds4(s, inst, lim):
    x = INST[inst](s, 'x')
    judge(s, {k: INST[lim](s, 'v' + k) for k in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum')}, x, '2019')


def multiple(s, xk, vk):
    if xk == 'int':
        x = s.int('x', -10 ** 6, 10 ** 6, 12)
        xi = x * 100
    elif xk == 'huge':
        x = s.int('x', -10 ** 20, 10 ** 20, 2 ** 53)
        xi = x * 100
    else:
        x, xi = s.decimal('x', -10 ** 6, 10 ** 6, 100, 75)
    if vk == 'int':
        v = s.pick(range(1, 13), 'v')
    else:
        v = s.pick([1, 2, 5, 7, 10, 25, 30, 33, 75, 100, 110, 120], 'v') / 100
    schema = {'multipleOf': v}
    k, r = s.run(sch.valid, s, schema, x)
    s.check(k == 'ok', lambda: f'evaluation raises {type(r).__name__}: {r}')
    vi = round(v * 100)       # exact decimal arithmetic: xi = 100 x and vi = 100 v are integers
    s.check(iff(r, xi % vi == 0), lambda: f'multipleOf {v} gives {bool(r)}')
    s.reach('valid' if r else 'invalid')


def size(s, key, inst, lim):
    x = INST[inst](s, 'x')
    if isinstance(x, dict):
        distinct(s, list(x))
    v = s.int('v', 0, 6, 2) if lim == 'int' else s.real('v', 0, 6, 1, 2)
    judge(s, {key: v}, x, s.pick(['2020', '2019'], 'dialect'))


def pattern(s, p, inst):
    judge(s, {'pattern': p}, INST[inst](s, 'x'))


def small(s, n, kind):
    return {'i': lambda: s.int(n, 0, 2, 1), 'h': lambda: s.int(n, 2 ** 53, 2 ** 53 + 3, 2 ** 53), 'r': lambda: s.real(n, 0, 4, 2, 2), 'b': lambda: s.flag(n), 's': lambda: s.string(n, 1, default='1'),
            'n': lambda: None, 'a': lambda: [s.int(n, 0, 1, 1)], 'B': lambda: [s.flag(n)], 'o': lambda: {'k': s.int(n, 0, 1, 1)},
            'O': lambda: {s.string(n, 1, default='k'): 1}, 'e': lambda: [], 'N': lambda: [[s.int(n, 0, 1, 0)], s.flag(n + 'f')]}[kind]()


def uniquemixed(s, n, last):
    """equal items that are written differently, with others between them"""
    x, y = s.int('x', 0, 1, 0), s.int('y', 0, 1, 1)
    forms = [{'a': x, 'b': y}, {'a': y}, {'b': y, 'a': x}, [x, 'a'], [x], x, True, '1', 1.0, {'a': y, 'b': x}]
    items = [s.pick(forms[:-1], f'f{i}') for i in range(n - 1)] + [forms[last]]
    judge(s, {'uniqueItems': True}, items, '2020')


def unique(s, kinds, on):
    judge(s, {'uniqueItems': on}, [small(s, f'x{i}', k) for i, k in enumerate(kinds)], s.pick(['2020', '2019'], 'dialect'))


def enum(s, kinds, xk):
    judge(s, {'enum': [small(s, f'e{i}', k) for i, k in enumerate(kinds)]}, small(s, 'x', xk))


def const(s, a, b):
    judge(s, {'const': build(s, SHAPES[a], 'v', small=True)}, build(s, SHAPES[b], 'x', small=True))


def required(s, n, inst):
    x = INST[inst](s, 'x')
    if isinstance(x, dict):
        distinct(s, list(x))
    judge(s, {'required': [s.string(f'r{i}', [1, 2, 0][i], default='a') for i in range(n)]}, x)


def dependent(s, lens, inst):
    x = INST[inst](s, 'x')
    if isinstance(x, dict):
        distinct(s, list(x))
    v = {}
    for i, n in enumerate(lens):
        k = s.string(f'k{i}', 1 + i, default='ab')
        v[k] = [s.string(f'd{i}.{j}', 1 + j, default='b') for j in range(n)]
    judge(s, {'dependentRequired': v}, x)


VALUE = {'maximum': 1, 'minimum': 5, 'exclusiveMaximum': 1, 'exclusiveMinimum': 5, 'multipleOf': 7, 'maxLength': 0, 'minLength': 5, 'pattern': 'b',
         'maxItems': 0, 'minItems': 5, 'uniqueItems': True, 'maxProperties': 0, 'minProperties': 5, 'required': ['zz'], 'dependentRequired': {'a': ['zz']}}
FOR = {'number': ('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'multipleOf'), 'string': ('maxLength', 'minLength', 'pattern'),
       'array': ('maxItems', 'minItems', 'uniqueItems'), 'object': ('maxProperties', 'minProperties', 'required', 'dependentRequired')}


def ignored(s, inst):
    """keywords for other types ignore the instance, also all together"""
    x = INST[inst](s, 'x')
    if isinstance(x, dict):
        distinct(s, list(x))
    k = schref.kind(x)
    others = [q for t, qs in FOR.items() if t != k for q in qs]
    d = s.pick(['2020', '2019'], 'dialect')
    r = sch.valid(s, {q: VALUE[q] for q in others}, x, d)
    s.check(r, 'keywords of other types do not ignore the instance')
    for q in others:
        s.check(sch.valid(s, {q: VALUE[q]}, x, d), lambda: f'{q} does not ignore a {k}')


def several(s, inst):
    """assertions of one schema are a conjunction"""
    x = INST[inst](s, 'x')
    t = schref.kind(x)
    v = {'number': lambda: {'type': s.pick(['number', 'integer'], 't'), 'minimum': s.int('a', -9, 9, 0), 'exclusiveMaximum': s.int('b', -9, 9, 5),
                            'enum': [s.int('c', -9, 9, 1), 2.5]},
         'string': lambda: {'minLength': s.int('a', 0, 4, 1), 'maxLength': s.int('b', 0, 4, 2), 'pattern': 'a', 'const': s.string('c', len(x), default='a')},
         'array': lambda: {'minItems': s.int('a', 0, 4, 1), 'maxItems': s.int('b', 0, 4, 2), 'uniqueItems': s.flag('u'), 'type': 'array'},
         'object': lambda: {'minProperties': s.int('a', 0, 4, 1), 'maxProperties': s.int('b', 0, 4, 2), 'required': [s.string('c', 1, default='a')]}}[t]()
    if isinstance(x, dict):
        distinct(s, list(x))
    judge(s, v, x)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for i in INST:
        cs.append(Case(f'type-{i}', types, inst=i, two=False))
        cs.append(Case(f'type2-{i}', types, inst=i, two=True, weight=3))
        if i != 'true':
            cs.append(Case(f'ignored-{i}', ignored, inst=i))
    for k in FOR['number'][:4]:
        cs += [Case(f'{k}-{a}-{b}', numeric, key=k, inst=a, lim=b) for a in ('int', 'real', 'bool', 'str1') for b in ('int', 'real')]
        cs += [Case(f'{k}-{a}-{b}', numeric, key=k, inst=a, lim=b, weight=8) for a, b in (('huge', 'huge'), ('huge', 'real'), ('real', 'huge'))]
    cs += [Case(f'bounds-{a}-{b}', bounds4, inst=a, lim=b) for a in ('int', 'real') for b in ('int', 'real')]
    cs += [Case(f'multipleOf-{a}-{b}', multiple, xk=a, vk=b, weight=8) for a in ('int', 'real') for b in ('int', 'real')]
    cs += [Case(f'multipleOf-{a}-{b}', multiple, xk=a, vk=b, weight=8) for a in ('huge',) for b in ('int', 'real')]
    for key, insts in (('maxLength', 'str'), ('minLength', 'str'), ('maxItems', 'arr'), ('minItems', 'arr'), ('maxProperties', 'obj'), ('minProperties', 'obj')):
        cs += [Case(f'{key}-{i}-{l}', size, key=key, inst=i, lim=l) for i in INST if i.startswith(insts) for l in ('int', 'real')]
    cs += [Case(f'pattern-{n}-{i}', pattern, p=p, inst=i) for n, p in enumerate(schref.PATTERNS) for i in ('str0', 'str1', 'str2', 'str3', 'int')]
    kinds = 'irbsnaBoOe'
    for i, a in enumerate(kinds):
        for b in kinds[i:]:
            cs.append(Case(f'unique-{a}{b}', unique, kinds=a + b, on=True))
    cs += [Case(f'unique-{k}', unique, kinds=k, on=True, weight=4) for k in ('iii', 'irb', 'sss', 'ibr', 'aBi', 'ioO', 'Nia', 'ississ'[:5], 'iiii', 'srsr', 'NN', 'OOO', 'bib', 'aea', 'hh', 'hhh', 'hir')]
    cs += [Case(f'uniquemixed-{i}', uniquemixed, n=3, last=i, weight=10) for i in range(10)]
    cs += [Case(f'notunique-{k}', unique, kinds=k, on=False) for k in ('ii', 'ss', 'bb')]
    cs += [Case(f'enum-{k}-{x}', enum, kinds=k, xk=x) for k in ('i', 'sir', 'bna', 'aoB', 'rON', 'ei') for x in kinds + 'N']
    cs += [Case(f'enum-{k}-h', enum, kinds=k, xk='h') for k in ('h', 'hh', 'srh')]
    names = list(SHAPES)
    for i, a in enumerate(names):
        for b in names:
            if T or a == b or i % 4 == 0:
                cs.append(Case(f'const-{a}-{b}', const, a=a, b=b))
    cs += [Case(f'required{n}-{i}', required, n=n, inst=i, weight=2) for n in (0, 1, 2, 3) for i in ('obj0', 'obj1', 'obj2', 'obj3', 'arr2', 'str2')]
    cs += [Case(f'dependent{"".join(map(str, l))}-{i}', dependent, lens=l, inst=i, weight=2)
           for l in [(), (0,), (1,), (2,), (1, 1)] + ([(2, 2)] if T else []) for i in ('obj0', 'obj1', 'obj2', 'obj3', 'arr2', 'str2')]
    cs += [Case(f'several-{i}', several, inst=i, weight=4) for i in ('int', 'real', 'str1', 'str3', 'arr1', 'arr4', 'obj1', 'obj2')]
    return cs
