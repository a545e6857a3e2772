"""C16: object applicators."""
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness.util import distinct, number
from harness import sch

prepare = sch.prepare
BOUNDS = 'objects of 0 to 3 members with symbolic names of up to 2 characters (all Unicode scalar values) and symbolic values, up to 2 ' \
         'properties with symbolic names, up to 2 of 9 patterns, additionalProperties and propertyNames schema, true or false, nested ' \
         'objects, keywords split over in-place applicators; 2019-09 and 2020-12'


def members(s, lens, name='x'):
    x = {}
    for i, n in enumerate(lens):
        k = s.string(f'{name}{i}', n, default=['ab', 'ba', 'x0'][i])
        s.assume(all_(no(k == q) for q in x))
        x[k] = s.int(f'{name}v{i}', 0, 9, 5)
    return x


def props(s, kinds):
    d = {}
    for i, k in enumerate(kinds):
        n = s.string(f'p{i}', 1 + i % 2, default='ab')
        s.assume(all_(no(n == q) for q in d))
        d[n] = {'min': {'minimum': 2 + i}, 'true': True, 'false': False}[k]
    return d


def build(s, pk, pats, add, names, first=None):
    d = {}
    if pk is not None:
        d['properties'] = props(s, pk)
    if pats:
        d['patternProperties'] = {p: {'maximum': 7 - i} if i < 2 else False for i, p in enumerate(pats)}
    if add is not None:
        d['additionalProperties'] = {'schema': {'multipleOf': 2}, 'true': True, 'false': False, 'const': {'const': 5}}[add]
    if names is not None:
        d['propertyNames'] = {'max': {'maxLength': 1}, 'pattern': {'pattern': 'a'}, 'const': {'enum': ['ab', 'a']}, 'type': {'type': 'string'},
                              'number': {'type': 'number'}, 'object': {'required': ['x'], 'minimum': 9}, 'true': True, 'false': False}[names]
    return d


def flat(s, pk, pats, add, names, lens, dialect, rev=False):
    x = members(s, lens)
    d = build(s, pk, pats, add, names)
    if rev:
        d = dict(reversed(list(d.items())))
    sch.agree(s, d, x, dialect)


def apart(s, how, lens, dialect):
    """additionalProperties sees only the properties and patternProperties besides it"""
    x = members(s, lens)
    p = {'properties': props(s, ['min'])}
    q = {'patternProperties': {'^a': {'maximum': 7}}}
    a = {'additionalProperties': {'multipleOf': 2}}
    d = {'allOf': lambda: {'allOf': [p, q], **a}, 'in': lambda: {'allOf': [a], **p, **q}, 'ref': lambda: {'$ref': '#/$defs/d', '$defs': {'d': p}, **a},
         'any': lambda: {'anyOf': [{**p, **a}, {**q, **a}]}, 'one': lambda: {'oneOf': [{**p, **a}, {**q, **a}]}, 'not': lambda: {'not': {**p, **a}},
         'two': lambda: {**p, 'allOf': [{**q, **a}], 'additionalProperties': {'minimum': 1}},
         'if': lambda: {'if': p, 'then': {**q, 'additionalProperties': False}, 'else': a}}[how]()
    sch.agree(s, d, x, dialect)


def nested(s, outer, inner, lens, dialect):
    x = {}
    for i, n in enumerate(lens):
        k = s.string(f'o{i}', 1, default='ab')
        s.assume(all_(no(k == q) for q in x))
        x[k] = members(s, (1,) * n, f'i{i}.') if n >= 0 else s.int(f'ov{i}', 0, 9, 5)
    leaf = {'minimum': 4}
    mk = {'properties': lambda v: {'properties': {'a': v}}, 'pattern': lambda v: {'patternProperties': {'a': v}},
          'additional': lambda v: {'properties': {'b': True}, 'additionalProperties': v}, 'all': lambda v: {'properties': {'a': v}, 'patternProperties': {'b': v}, 'additionalProperties': v},
          'names': lambda v: {'propertyNames': {'pattern': 'a'}, 'additionalProperties': v}, 'none': lambda v: {'properties': {'a': v}, 'additionalProperties': False}}
    sch.agree(s, mk[outer](mk[inner](leaf)), x, dialect)


def ignored(s, dialect):
    x = s.pick([None, True, 5, 'a', [], ['a', 1]], 'x')
    sch.agree(s, {'properties': {'a': False, '0': False}, 'patternProperties': {'': False}, 'additionalProperties': False, 'propertyNames': False}, x, dialect)


def special(s, nm, dialect):
    """names that are special elsewhere"""
    x = {nm: s.int('v', 0, 9, 5), s.string('k', 1, default='b'): s.int('w', 0, 9, 5)}
    s.assume(len(x) == 2)
    sch.agree(s, {'properties': {nm: {'minimum': 4}, 'a': {'minimum': 3}}, 'additionalProperties': {'maximum': 6}}, x, dialect)
    sch.agree(s, {'properties': {nm: {'minimum': 4}}, 'allOf': [{'properties': {nm: {'maximum': 8}}}], 'required': [nm]}, x, dialect)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    LENS = [(), (1,), (0,), (2,), (1, 1), (1, 2)] + ([(1, 1, 1), (0, 1, 2), (2, 2)] if T else [(1, 1, 1)])
    PATS = [(), ('^a',), ('a', 'b'), ('^[0-9]', 'x|y'), ('', '^a'), ('^.b', '[^a-z]'), ('aa', 'a')]
    for lens in LENS:
        for pk in (None, ('min',), ('min', 'false'), ('true', 'min')):
            for pats in PATS:
                for add in (None, 'schema', 'true', 'false', 'const'):
                    for names in (None, 'max', 'pattern'):
                        if pk is None and not pats and add is None and names is None:
                            continue
                        k = number(lens, pk, pats, add, names)
                        w = 3 ** sum(lens) * (1 + len(pk or ())) * (1 + len(pats))
                        quick = (w < 30 and k % 2 == 0) or (w <= 300 and k % 9 == 0) or (w <= 2000 and k % 71 == 0)
                        if T or quick:
                            cs.append(Case(f"flat-{'.'.join(map(str, lens))}-{pk}-{'+'.join(pats)}-{add}-{names}", flat, lens=lens, pk=pk, pats=pats, add=add,
                                           names=names, dialect=('2020', '2019')[k // 9 % 2], rev=k % 3 == 0, weight=w))
    for names in ('const', 'type', 'number', 'object', 'true', 'false'):
        for lens in LENS:
            for d in ('2020', '2019'):
                cs.append(Case(f"names-{names}-{'.'.join(map(str, lens))}-{d}", flat, lens=lens, pk=None, pats=(), add=None, names=names, dialect=d))
    for how in ('allOf', 'in', 'ref', 'any', 'one', 'not', 'two', 'if'):
        for lens in ((), (1,), (2,), (1, 1)):
            for d in ('2020', '2019'):
                cs.append(Case(f"apart-{how}-{'.'.join(map(str, lens))}-{d}", apart, how=how, lens=lens, dialect=d, weight=3 ** sum(lens)))
    i = 0
    for a in ('properties', 'pattern', 'additional', 'all', 'names', 'none'):
        for b in ('properties', 'pattern', 'additional', 'all', 'names', 'none'):
            for lens in ((1,), (0,), (2,), (-1,), (1, -1)) + (((1, 1), (2, 1)) if T else ()):
                i += 1
                cs.append(Case(f"nested-{a}-{b}-{'.'.join(map(str, lens))}", nested, outer=a, inner=b, lens=lens, dialect=('2020', '2019')[i % 2], weight=10))
    for n in ('', '/', '~', 'a/b', '~0', '0', '-', '$ref', 'properties', 'é', '#', '%'):
        cs += [Case(f'special-{n}-{d}', special, nm=n, dialect=d, weight=3) for d in ('2020', '2019')]
    cs += [Case(f'ignored-{d}', ignored, dialect=d) for d in ('2020', '2019')]
    return cs
