"""C17: unevaluatedItems and unevaluatedProperties."""
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch
from harness.util import some, number

prepare = sch.prepare
BOUNDS = 'every in-place route (adjacent, allOf, anyOf, oneOf, not, if, then, else, dependentSchemas, $ref, dynamic and recursive ' \
         'references) and every nesting of two of them over providers of every kind (named, pattern, additional, positional, rest, contains, ' \
         'nested unevaluated), with the verdict of every branch a symbolic condition on the values; objects of up to 3 members (names ' \
         'symbolic in part) and arrays of up to 3 items (4 in thorough), and values two levels deep with the same names, indices and digits as names; unevaluated keyword false, true or a schema, before or after the ' \
         'other keywords, at the root or below; 2019-09 and 2020-12'


class Gen:
    def __init__(self, s, what, dialect, second=None):
        self.s, self.what, self.dialect, self.second = s, what, dialect, second
        self.defs, self.n = {}, 0

    # providers: schemas that evaluate some of the members or items if they pass
    def prov(self, kind):
        lo = [3, 5, 4, 6, 2][self.n % 5]
        self.n += 1
        m = {'minimum': lo}
        if self.what == 'object':
            return {'prop': lambda: {'properties': {'a': m}}, 'prop2': lambda: {'properties': {'a': True, 'b': m}}, 'pat': lambda: {'patternProperties': {'b': m}},
                    'add': lambda: {'properties': {'a': m}, 'additionalProperties': {'minimum': 2}}, 'addonly': lambda: {'additionalProperties': m},
                    'uneval': lambda: {'properties': {'b': True}, 'unevaluatedProperties': m}, 'req': lambda: {'required': ['c'], 'properties': {'a': True}},
                    'names': lambda: {'propertyNames': {'pattern': 'a'}, 'properties': {'a': True}}, 'none': lambda: {'minProperties': 2}, 'true': lambda: True,
                    'deep': lambda: {'properties': {'a': {'properties': {'b': True}}}}}[kind]()
        new = self.dialect == '2020'
        pre, rest = ('prefixItems', 'items') if new else ('items', 'additionalItems')
        return {'pre': lambda: {pre: [m]}, 'pre3': lambda: {pre: [m, True, True]}, 'pre2': lambda: {pre: [True, m]}, 'items': lambda: {'items': m}, 'rest': lambda: {pre: [True], rest: m},
                'contains': lambda: {'contains': m}, 'min': lambda: {'contains': m, 'minContains': 0}, 'max': lambda: {'contains': m, 'maxContains': 1, 'minContains': 0},
                'uneval': lambda: {pre: [True], 'unevaluatedItems': m}, 'none': lambda: {'minItems': 2}, 'true': lambda: True,
                'prebool': lambda: {pre: [m, False]}, 'itemsbool': lambda: {'items': True}}[kind]()

    def cond(self):
        self.n += 1
        if self.what == 'object':
            return [{'required': ['b']}, {'properties': {'c': {'maximum': 5}}}, {'minProperties': 2}][self.n % 3]
        if self.dialect == '2019':
            return [{'minItems': 2}, {'contains': {'maximum': 4}}][self.n % 2]
        return [{'minItems': 2}, {'not': {'contains': {'maximum': 4}}}][self.n % 2]

    def route(self, op, p):
        q = self.other
        if op == 'adj':
            return p
        if op in ('ref', 'dyn'):
            n = f'd{len(self.defs)}'
            self.defs[n] = p
            if op == 'dyn' and self.dialect == '2020':
                self.defs[n] = {'$dynamicAnchor': n, **p} if isinstance(p, dict) else p
                return {'$dynamicRef': f'#{n}'} if isinstance(p, dict) else {'$ref': f'#/$defs/{n}'}
            return {'$ref': f'#/$defs/{n}'}
        return {'allOf': lambda: {'allOf': [p, q()]}, 'allOf1': lambda: {'allOf': [p]}, 'anyOf': lambda: {'anyOf': [p, q()]},
                'anyOf-cond': lambda: {'anyOf': [self.cond(), p]}, 'oneOf': lambda: {'oneOf': [q(), p]}, 'oneOf-cond': lambda: {'oneOf': [p, self.cond()]},
                'not': lambda: {'not': p}, 'notnot': lambda: {'not': {'not': p}}, 'if': lambda: {'if': p}, 'if-then': lambda: {'if': p, 'then': q()},
                'if-else': lambda: {'if': p, 'else': q()}, 'then': lambda: {'if': self.cond(), 'then': p}, 'else': lambda: {'if': self.cond(), 'else': p},
                'then-else': lambda: {'if': self.cond(), 'then': p, 'else': q()},
                'dep': lambda: {'dependentSchemas': {'b': p}}, 'dep2': lambda: {'dependentSchemas': {'b': p, 'c': q()}},
                'below': lambda: {'properties': {'a': p}} if self.what == 'object' else {'contains': p, 'minContains': 0}}[op]()

    def other(self):
        return self.prov('prop2' if self.what == 'object' else 'pre2' if self.second is None else self.second)


def instance(s, what, n, sym=None):
    if what == 'array':
        return [s.int(f'x{i}', 0, 9, 5) for i in range(n)]
    x = {}
    for i in range(n):
        k = 'abc'[i] if sym is None or i not in sym else s.string(f'k{i}', 1, default='ab'[i % 2])
        s.assume(all_(no(k == q) for q in x))
        x[k] = s.int(f'x{i}', 0, 9, 5)
    return x


def program(s, what, dialect, ops, prov, n, u, place='root', first=False, sym=None, second=None):
    g = Gen(s, what, dialect, second)
    p = g.prov(prov)
    for op in reversed(ops):
        p = g.route(op, p)
    key = 'unevaluatedProperties' if what == 'object' else 'unevaluatedItems'
    un = {key: {'false': False, 'true': True, 'schema': {'maximum': 7}}[u]}
    p = p if isinstance(p, dict) else {'allOf': [p]}
    v = {**un, **p} if first else {**p, **un}
    x = instance(s, what, n, sym)
    if place == 'properties':
        v, x = {'properties': {'p': v, 'q': {'maximum': 3}}}, {'p': x, 'q': s.int('q', 0, 5, 1)}
    elif place == 'items':
        v, x = {'items': v}, [x, instance(s, what, 0), x]
    elif place == 'nested':        # an outer unevaluated keyword sees what the inner one evaluated
        v = {'allOf': [v], key: False}
    elif place == 'cousin':        # a cousin does not
        v = {'allOf': [{k: w for k, w in v.items() if k != key}, un]}
    elif place == 'anyof':
        v = {'anyOf': [v, {('minProperties' if what == 'object' else 'minItems'): 1}], key: {'maximum': 8}}
    elif place == 'ref':
        g.defs['outer'] = v
        v = {'$ref': '#/$defs/outer', key: False}
    if g.defs:
        v = {**v, '$defs': g.defs}
    sch.agree(s, v, x, dialect)


def recursive(s, what, shape, anchor):
    """2019-09 $recursiveRef as a route: a tree whose nodes are closed by unevaluatedProperties/Items"""
    if what == 'object':
        base = {'properties': {'a': {'$recursiveRef': '#'}, 'v': {'minimum': 3}}, 'unevaluatedProperties': False}
        x = {'v': s.int('v', 0, 9, 5)}
        for i, k in enumerate(shape):
            x = {k: x, 'v': s.int(f'v{i}', 0, 9, 5)}
    else:
        base = {'items': [{'type': 'number'}, {'$recursiveRef': '#'}], 'unevaluatedItems': False}
        x = [s.int('v', 0, 9, 5)]
        for i, k in enumerate(shape):
            x = [s.int(f'v{i}', 0, 9, 5), x] + ([1] if k == 'b' else [])
    if anchor:
        base['$recursiveAnchor'] = True
    sch.agree(s, base, x, '2019')
    ext = {'$recursiveAnchor': True, 'allOf': [{'$ref': '#/$defs/t'}], '$defs': {'t': {'$id': 'https://example.org/t', **base}}}
    sch.agree(s, ext, x, '2019')


def levels(s, what, d, op, inner, outer):
    """what is evaluated inside a value says nothing about what is beside it, whatever the names"""
    g = Gen(s, 'object', d)
    new = d == '2020'
    pre, rest = ('prefixItems', 'items') if new else ('items', 'additionalItems')
    m = {'minimum': 2}
    A = {'props': {'properties': {'a': m, 'b': True}}, 'pattern': {'patternProperties': {'': m}}, 'add': {'additionalProperties': m}, 'uneval': {'unevaluatedProperties': m},
         'pre': {pre: [m, True]}, 'items': {'items': m}, 'rest': {pre: [True], rest: m}, 'contains': {'contains': m}, 'unevali': {'unevaluatedItems': m},
         'deeper': {'additionalProperties': {'additionalProperties': True}, 'items': {'items': True}}, 'both': {'additionalProperties': m, 'items': m}}[inner]
    n = s.int('n', 0, 3, 2)
    if what == 'object':
        p = g.route(op, {'properties': {'a': A}} if outer == 'props' else {'patternProperties': {'a': A, '0': A}} if outer == 'pattern' else {'properties': {'a': A, 'b': A}})
        names = [s.string(f'k{i}', 1, ranges=((0x30, 0x31), (0x61, 0x63)), default='aab'[i]) for i in range(3)]
        s.assume(no(names[0] == names[2]))
        c = {names[1]: n, 'a' + names[1]: {names[0]: 1}} if s.flag('obj') else [n, [3]]
        x = {names[0]: c, names[2]: n}
        un = {'unevaluatedProperties': False}
    else:
        p = g.route(op, {pre: [A]} if outer == 'props' else {'contains': A} if outer == 'pattern' else {pre: [True, A]})
        c = [n, n] if s.flag('arr') else {s.string('k', 1, ranges=((0x30, 0x32),), default='1'): n}
        x = [c, [n, 2, 3]] + [n] * s.pick([0, 1], 'more')
        un = {'unevaluatedItems': False}
    v = {**p, **un}
    where = s.pick(['root', 'in', 'rest'], 'where')
    if what == 'object' and where != 'root':
        v, x = {'properties': {'a': v}} if where == 'in' else {'additionalProperties': v}, {'a': x}
    elif where != 'root':
        v, x = {pre: [v]} if where == 'in' else {pre: [True], rest: v}, [x] if where == 'in' else [1, x]
    if g.defs:
        v = {**v, '$defs': g.defs}
    sch.agree(s, v, x, d)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    PO = ['prop', 'prop2', 'pat', 'add', 'addonly', 'uneval', 'req', 'names', 'none', 'true', 'deep']
    PA = ['pre', 'pre2', 'items', 'rest', 'contains', 'min', 'max', 'uneval', 'none', 'true', 'prebool', 'itemsbool']
    OO = ['adj', 'allOf', 'allOf1', 'anyOf', 'anyOf-cond', 'oneOf', 'oneOf-cond', 'not', 'notnot', 'if', 'if-then', 'if-else', 'then', 'else', 'then-else',
          'dep', 'dep2', 'ref', 'dyn', 'below']
    OA = [o for o in OO if not o.startswith('dep')]
    PLACES = ['root', 'properties', 'items', 'nested', 'cousin', 'anyof', 'ref']
    for what, ps, os_ in (('object', PO, OO), ('array', PA, OA)):
        for d in ('2020', '2019'):
            for p in ps:
                for op in os_:
                    for n in ((1, 2, 3) if not T else (0, 1, 2, 3, 4) if what == 'array' else (0, 1, 2, 3)):
                        k = number(what, d, p, op, n)
                        if n == 2 or T or some(3, what, d, p, op, n):
                            cs.append(Case(f'{what}-{d}-{op}-{p}-{n}', program, what=what, dialect=d, ops=(op,), prov=p, n=n, u=('false', 'schema', 'false', 'true')[k % 4],
                                           first=k % 2 == 0, weight=2 ** n))
                    k = number(what, d, p, op)
                    cs.append(Case(f'{what}-{d}-{op}-{p}-{PLACES[k % 7]}', program, what=what, dialect=d, ops=(op,), prov=p, n=2, u=('false', 'schema')[k % 2],
                                   place=PLACES[k % 7], first=k % 3 == 0, weight=6))
                    for op2 in os_:
                        k = number(what, d, p, op, op2)
                        if T or some(10, what, d, p, op, op2):
                            cs.append(Case(f'{what}-{d}-{op}-{op2}-{p}-{PLACES[k % 7]}', program, what=what, dialect=d, ops=(op, op2), prov=p, n=2 if k % 3 else 3,
                                           u=('false', 'schema')[k // 7 % 2], place=PLACES[k % 7 if k % 2 else 0], first=k % 3 == 0, weight=6))
    # what two branches evaluate, in either order
    BOTH = ('allOf', 'anyOf', 'oneOf', 'if-then', 'if-else', 'then-else')
    for d in ('2020', '2019'):
        for p in ('pre', 'pre2', 'pre3', 'rest', 'contains', 'min', 'uneval'):
            for q in ('pre', 'pre3', 'contains', 'rest', 'none'):
                for op in BOTH:
                    k = number(d, p, q, op)
                    if p != q and (T or op == ('allOf', 'anyOf', 'allOf', 'then-else')[k % 4] or op == 'allOf' and p[0] == q[0] == 'p'):
                        cs.append(Case(f'both-{d}-{op}-{p}-{q}', program, what='array', dialect=d, ops=(op,), prov=p, second=q, n=3 if not T or k % 2 else 4, u=('false', 'schema')[k // 4 % 2],
                                       place=('root', 'root', 'ref', 'properties')[k // 8 % 4], first=k % 3 == 0, weight=8))
    for p in ('prop', 'pat', 'add', 'uneval', 'prop2'):
        for op in ('adj', 'anyOf', 'oneOf', 'not', 'then-else', 'dep'):
            for d in ('2020', '2019'):
                cs.append(Case(f'names-{d}-{op}-{p}', program, what='object', dialect=d, ops=(op,), prov=p, n=2, u='false', sym=(0, 1), weight=15))
    for what in ('object', 'array'):
        for d in ('2020', '2019'):
            for op in (OO if what == 'object' else OA):
                for inner in ('props', 'pattern', 'add', 'uneval', 'pre', 'items', 'rest', 'contains', 'unevali', 'deeper', 'both'):
                    for outer in ('props', 'pattern', 'other'):
                        if T or some(16 if op == 'adj' else 50, what, d, op, inner, outer):
                            cs.append(Case(f'levels-{what}-{d}-{op}-{inner}-{outer}', levels, what=what, d=d, op=op, inner=inner, outer=outer, weight=30))
    for what in ('object', 'array'):
        for shape in ('', 'a', 'b', 'aa', 'ab'):
            cs += [Case(f'recursive-{what}-{shape}-{a}', recursive, what=what, shape=shape, anchor=a, weight=5) for a in (True, False)]
    return cs
