"""C15: array applicators."""
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch

prepare = sch.prepare
BOUNDS = 'arrays of 0 to 4 symbolic items (5 in thorough), up to 3 positional subschemas, every combination of the array keywords of ' \
         'the dialect with schema, true and false subschemas, minContains and maxContains any symbolic number from 0 to 4, nested ' \
         'arrays, keywords split over in-place applicators; 2019-09 and 2020-12'


def at(i):
    return {'minimum': i}


def array(s, n, kind='int'):
    if kind == 'int':
        return [s.int(f'x{i}', -1, 9, i) for i in range(n)]
    if kind == 'str':
        return [s.string(f'x{i}', 1, default='a') for i in range(n)]
    if kind == 'mixed':
        return [[s.int, None, s.string, s.int][i](f'x{i}', *[(-1, 9), (), (1,), (-1, 9)][i]) if i != 1 else [s.int('x1', -1, 9)] for i in range(n)]


def sub(s, kind, low):
    """a subschema for items: with a bound, true or false"""
    return {'schema': {'minimum': low}, 'max': {'maximum': low}, 'true': True, 'false': False, 'const': {'const': low}, 'type': {'type': 'integer'}}[kind]


def positional(s, dialect, npre, rest, nitems, kind):
    """prefixItems + items / items + additionalItems"""
    x = array(s, nitems, kind)
    d = {}
    if npre:
        d['prefixItems' if dialect == '2020' else 'items'] = [sub(s, s.pick(['schema', 'max'], f'pre{i}') if i else 'schema', i + 1) for i in range(npre)]
    if rest:
        d['items' if dialect == '2020' else 'additionalItems' if npre else 'items'] = sub(s, rest, 5)
    sch.agree(s, d, x, dialect)


def contains(s, dialect, keys, sk, nitems, extra):
    x = array(s, nitems)
    d = {'contains': sub(s, sk, 4)} if 'contains' in keys else {}
    for k in ('minContains', 'maxContains'):
        if k in keys:
            d[k] = s.int(k, 0, 4, 1) if s.flag(k + 'i') else s.real(k, 0, 4, 1, 1)
    if extra == 'items':
        d['items'] = {'maximum': 7}
    elif extra == 'pre':
        d['prefixItems' if dialect == '2020' else 'items'] = [{'minimum': 4}, True]
    elif extra == 'reversed':
        d = dict(reversed(list(d.items())))
    elif extra == 'unique':
        d['uniqueItems'] = True
        d['maxItems'] = 2
    sch.agree(s, d, x, dialect)


def apart(s, dialect, how, nitems):
    """keywords that depend on each other, in different schemas: they do not see each other"""
    x = array(s, nitems)
    pre, items = ('prefixItems', 'items') if dialect == '2020' else ('items', 'additionalItems')
    c = {'contains': {'minimum': 4}}
    lo, hi = {'minContains': s.int('lo', 0, 3, 2)}, {'maxContains': s.int('hi', 0, 3, 1)}
    d = {'allOf-min': lambda: {'allOf': [c], **lo}, 'in-min': lambda: {'allOf': [lo], **c}, 'any-max': lambda: {'anyOf': [c, hi], **hi},
         'allOf-pre': lambda: {'allOf': [{pre: [{'minimum': 3}]}], items: {'minimum': 2}},
         'in-items': lambda: {'allOf': [{items: {'minimum': 2}}], pre: [{'minimum': 3}]},
         'two': lambda: {'allOf': [{**c, **lo}, {'contains': {'maximum': 2}, **hi}]},
         'not': lambda: {'not': {**c, **lo, **hi}}, 'ref': lambda: {'$ref': '#/$defs/d', '$defs': {'d': c}, **lo}}[how]()
    sch.agree(s, d, x, dialect)


def nested(s, dialect, outer, inner, shape):
    """arrays in arrays, the same keywords at both levels"""
    x = [[s.int(f'x{i}.{j}', -1, 9, 5) for j in range(n)] for i, n in enumerate(shape)]
    pre, items = ('prefixItems', 'items') if dialect == '2020' else ('items', 'additionalItems')
    mk = {'items': lambda v: {'items': v}, 'pre': lambda v: {pre: [v]}, 'both': lambda v: {pre: [{'minItems': 1}], items: v},
          'contains': lambda v: {'contains': v}, 'min': lambda v: {'contains': v, 'minContains': s.pick([0, 2], 'lo')},
          'max': lambda v: {'contains': v, 'maxContains': 1}, 'all': lambda v: {pre: [v], items: v, 'contains': v, 'maxContains': 2}}
    sch.agree(s, mk[outer](mk[inner]({'minimum': 4})), x, dialect)


def ignored(s, dialect):
    x = s.pick([None, True, 5, 'abc', {}, {'0': 1, 'a': 'b'}], 'x')
    d = {'contains': False, 'minContains': 2, 'maxContains': 0, 'items': False}
    if dialect == '2020':
        d['prefixItems'] = [False, False]
    else:
        d['additionalItems'] = False
        if s.flag('array'):
            d['items'] = [False]
    sch.agree(s, d, x, dialect)


def unknown(s, nitems):
    """keywords of the other dialect do nothing"""
    x = array(s, nitems)
    sch.agree(s, {'additionalItems': False, 'items': {'minimum': 3}}, x, '2020')
    sch.agree(s, {'prefixItems': [False, False], 'items': {'minimum': 3}}, x, '2019')
    sch.agree(s, {'additionalItems': False}, x, '2019')
    sch.agree(s, {'additionalItems': {'minimum': 5}, 'items': True}, x, '2019')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    N = range(6) if T else range(5)
    for d in ('2020', '2019'):
        for npre in (0, 1, 2, 3):
            for rest in (None, 'schema', 'true', 'false', 'max'):
                for n in N:
                    if npre or rest:
                        cs.append(Case(f'positional-{d}-{npre}-{rest}-{n}', positional, dialect=d, npre=npre, rest=rest, nitems=n, kind='int', weight=2 ** n))
                        if n in (2, 3, 4) and rest != 'max':
                            cs.append(Case(f'positional-{d}-{npre}-{rest}-{n}-mixed', positional, dialect=d, npre=npre, rest=rest, nitems=n, kind='mixed', weight=2 ** n))
        for keys in (('contains',), ('contains', 'minContains'), ('contains', 'maxContains'), ('contains', 'minContains', 'maxContains'),
                     ('minContains',), ('maxContains',), ('minContains', 'maxContains')):
            for sk in ('schema', 'true', 'false', 'const'):
                for n in N:
                    for extra in (None, 'items', 'pre', 'reversed', 'unique'):
                        if 'contains' not in keys and (sk != 'schema' or extra):
                            continue
                        if T or extra is None or n <= 3 and sk == 'schema':
                            cs.append(Case(f"contains-{d}-{'-'.join(keys)}-{sk}-{n}-{extra}", contains, dialect=d, keys=keys, sk=sk, nitems=n, extra=extra,
                                           weight=3 * 2 ** n * len(keys)))
        for how in ('allOf-min', 'in-min', 'any-max', 'allOf-pre', 'in-items', 'two', 'not', 'ref'):
            cs += [Case(f'apart-{d}-{how}-{n}', apart, dialect=d, how=how, nitems=n, weight=3 * 2 ** n) for n in (0, 1, 2, 3)]
        for a in ('items', 'pre', 'both', 'contains', 'min', 'max', 'all'):
            for b in ('items', 'pre', 'both', 'contains', 'min', 'max', 'all'):
                for shape in ((2, 1), (0, 2), (1, 0, 1), ()) + (((2, 2), (1, 2, 1)) if T else ()):
                    cs.append(Case(f"nested-{d}-{a}-{b}-{'.'.join(map(str, shape))}", nested, dialect=d, outer=a, inner=b, shape=shape, weight=3 * 2 ** sum(shape)))
        cs.append(Case(f'ignored-{d}', ignored, dialect=d))
    cs += [Case(f'unknown-{n}', unknown, nitems=n) for n in (0, 1, 2, 3)]
    return cs
