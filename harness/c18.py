"""C18: evaluation is deterministic, independent of order, and pure."""
import itertools
from jschon import JSON, JSONSchema
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch, schref
from harness.util import clone, strict, same, some, number

prepare = sch.prepare
BOUNDS = '17 groups of up to 7 interacting keywords covering the vocabularies, in every order (quick: a fixed third or less of the ' \
         'orders, every pair of keywords in both orders), objects of 3 members in every order, arrays of 3 items, all values symbolic; ' \
         'histories of 4 evaluations of two instances on one schema object, the ' \
         'nodes of schema and instance compared with what they held at first'

LEAF = {'minimum': 4}
HEAVY = ('unsorted', 'needs', 'array1', 'array2', 'object1', 'object2', 'object3', 'object4', 'object5', 'array3', 'array4', 'array5')
GROUPS = {
    'object1': ('object', '2020', {'properties': {'a': LEAF}, 'patternProperties': {'b': {'maximum': 6}}, 'additionalProperties': {'multipleOf': 2},
                                   'propertyNames': {'maxLength': 1}, 'minProperties': 2, 'required': ['a']}),
    'object2': ('object', '2020', {'properties': {'a': LEAF}, 'allOf': [{'properties': {'b': {'maximum': 6}}}], 'unevaluatedProperties': False,
                                   'if': {'properties': {'c': {'minimum': 5}}, 'required': ['c']}, 'then': {'minProperties': 1}, 'else': {'properties': {'c': True}}}),
    'object3': ('object', '2020', {'anyOf': [{'properties': {'a': LEAF}}, {'properties': {'b': LEAF}}], 'dependentSchemas': {'c': {'properties': {'c': {'maximum': 6}}}},
                                   'patternProperties': {'x|y': False}, 'unevaluatedProperties': {'maximum': 7}, 'not': {'required': ['d']}, '$ref': '#/$defs/d',
                                   '$defs': {'d': {'properties': {'c': True}}}}),
    'object4': ('object', '2019', {'properties': {'a': LEAF}, 'oneOf': [{'properties': {'b': LEAF}}, {'properties': {'b': {'maximum': 5}}}],
                                   'additionalProperties': {'maximum': 8}, 'unevaluatedProperties': False, 'dependentRequired': {'c': ['a', 'b']}}),
    'object5': ('object', '2019', {'unevaluatedProperties': {'minimum': 2}, 'if': {'properties': {'a': LEAF}}, 'then': {'properties': {'b': {'maximum': 6}}},
                                   'else': {'properties': {'c': {'maximum': 6}}}, 'dependentSchemas': {'b': {'properties': {'b': {'maximum': 8}}}},
                                   'allOf': [{'properties': {'c': {'$recursiveRef': '#'}}}], '$ref': '#/$defs/d', '$defs': {'d': {'properties': {'a': {'maximum': 7}}}}}),
    'array1': ('array', '2020', {'prefixItems': [LEAF], 'items': {'maximum': 7}, 'contains': {'minimum': 6}, 'minContains': 2, 'maxContains': 2, 'uniqueItems': True}),
    'array2': ('array', '2020', {'prefixItems': [LEAF], 'contains': {'minimum': 6}, 'minContains': 0, 'unevaluatedItems': {'maximum': 3}, 'maxItems': 3,
                                 'allOf': [{'prefixItems': [True, {'maximum': 8}]}]}),
    'array3': ('array', '2020', {'unevaluatedItems': False, 'if': {'prefixItems': [LEAF]}, 'then': {'prefixItems': [True, {'maximum': 6}]}, 'else': {'items': {'maximum': 8}},
                                 'anyOf': [{'contains': {'minimum': 7}}, {'minItems': 3}], 'not': {'maxItems': 0}}),
    'array4': ('array', '2019', {'items': [LEAF], 'additionalItems': {'maximum': 7}, 'contains': {'minimum': 6}, 'minContains': 2, 'maxContains': 2, 'unevaluatedItems': False}),
    'array5': ('array', '2019', {'items': [LEAF], 'unevaluatedItems': {'maximum': 5}, 'oneOf': [{'items': [True, {'minimum': 3}]}, {'contains': {'maximum': 1}}],
                                 'if': {'items': [True, True, {'maximum': 4}]}, 'then': {'minItems': 2}, 'else': {'contains': {'const': 9}}}),
    'scalar': ('int', '2020', {'type': 'integer', 'minimum': -2, 'exclusiveMaximum': 8, 'title': 'T', 'x-unknown': {'a': [1]}, 'not': {'const': 3}, 'default': 5}),
    'text': ('string', '2020', {'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': {'type': 'object'}, 'format': 'f', 'pattern': 'a', 'maxLength': 1}),
    'choice': ('int', '2020', {'enum': [3, 'a', 1, [2, 1], {'b': 1, 'a': 2}, 7], 'type': ['string', 'number', 'integer'], 'not': {'enum': [9, -1, 3]},
                               'anyOf': [{'enum': [5, 1]}, {'const': 7}, {'type': ['null', 'integer']}], 'multipleOf': 1}),
    'needs': ('object', '2020', {'required': ['c', 'a'], 'dependentRequired': {'c': ['b', 'a'], 'a': ['a', 'b', 'c']}, 'enum': [{'c': 1, 'b': 2, 'a': 3}, {}, {'b': 2, 'a': 3, 'c': 5}],
                                 'oneOf': [{'required': ['zz', 'a']}, {'const': {'b': 2, 'c': 1, 'a': 3}}, {'const': {'c': 5, 'b': 2, 'a': 3}}], 'maxProperties': 3, 'type': ['array', 'object']}),
    'unsorted': ('array', '2019', {'uniqueItems': True, 'enum': [[3, 2, 1], [1, 2, 3], [5]], 'type': ['string', 'array'], 'not': {'enum': [[3, 1, 2], [1, 2, 3]]}, 'items': {'enum': [3, 1, 2]},
                                   'minItems': 3, 'contains': {'const': 2}}),
    'core': ('object', '2020', {'$schema': 'https://json-schema.org/draft/2020-12/schema', '$id': 'https://example.org/x/', '$anchor': 'here',
                                '$ref': 'y#p', '$defs': {'y': {'$anchor': 'p', '$id': 'y', 'properties': {'a': LEAF}}},
                                'properties': {'b': {'$ref': '#/$defs/y/properties/a'}}, 'unevaluatedProperties': {'maximum': 5}}),
    'dynamic': ('object', '2020', {'$dynamicAnchor': 'n', 'properties': {'b': {'$dynamicRef': '#n'}, 'a': LEAF}, 'allOf': [{'$ref': 'z'}],
                                   '$id': 'https://example.org/x/', '$defs': {'z': {'properties': {'c': {'$dynamicRef': '#n'}}, '$dynamicAnchor': 'n', '$id': 'z'}},
                                   'unevaluatedProperties': False}),
}


def instance(s, what, name='x', dyn=False):
    v = lambda i: s.int(f'{name}{i}', 0, 9, 5)
    if what == 'object':
        return {'a': v(0), 'b': {'a': v(1)} if dyn else v(1), 'c': {'a': v(2)} if dyn else v(2)}
    return {'array': lambda: [v(0), v(1), v(2)], 'int': lambda: s.int(name, -9, 9, 1), 'string': lambda: s.string(name, 1, default='a')}[what]()


def annotations(r):
    """the annotations of a result, without their order"""
    out = []

    def visit(n):
        if n.valid:
            if n.annotation is not None:
                out.append((n.key, tuple(n.instance.path), n.annotation))
            for c in n.children.values():
                visit(c)
    visit(r)
    return out


def same_bag(a, b):
    if len(a) != len(b):
        return False
    b = list(b)
    for k, p, v in a:
        for i, (k2, p2, v2) in enumerate(b):
            if k == k2 and len(p) == len(p2) and all(x == y for x, y in zip(p, p2)) and unordered(v, v2):
                del b[i]
                break
        else:
            return False
    return True


def unordered(v, w):
    if isinstance(v, list) and isinstance(w, list):
        return len(v) == len(w) and all(any(same(x, y) for y in w) for x in v)
    return bool(same(v, w))


def order(s, group, perms, deep):
    what, dialect, d = GROUPS[group]
    x = instance(s, what, dyn=group == 'dynamic')
    x2 = x
    if what == 'object':
        x2 = {k: x[k] for k in s.pick(['abc', 'cba', 'bca'], 'members')}
    base = sch.evaluate(s, clone(d), x, dialect)
    want = schref.evaluate(d, x, dialect, base='https://example.org/root').valid
    s.check(bool(base.valid) == want, lambda: f'{bool(base.valid)} in the original order of {group}')
    anns = annotations(base)
    for perm in perms:
        e = {k: d[k] for k in perm}
        if deep:
            e = {k: {q: v[q] for q in reversed(list(v))} if isinstance(v, dict) else v for k, v in e.items()}
        r = sch.evaluate(s, e, x2, dialect)
        s.check(bool(r.valid) == want, lambda: f'{bool(r.valid)} with the keywords in the order {list(perm)}')
        if what != 'object' or x2 is x or group != 'core':
            s.check(same_bag(annotations(r), anns), lambda: f'different annotations with the keywords in the order {list(perm)}')
    s.reach('valid' if want else 'invalid')


def snapshot(j):
    """what a JSON node holds, read from the node itself"""
    d = j.data
    kind = (j.type, j.key, str(j.path))
    if isinstance(d, dict):
        return kind, [(k, snapshot(v)) for k, v in d.items()]
    if isinstance(d, list):
        return kind, [snapshot(v) for v in d]
    return kind, d


def unchanged(a, b):
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return bool(strict(a, b))


def history(s, group, steps, other, reuse):
    """one schema object, several evaluations"""
    what, dialect, d = GROUPS[group]
    m = sch.Made(s, clone(d), dialect)
    dyn = group == 'dynamic'
    xs = [instance(s, what, 'x', dyn), instance(s, what, 'y', dyn) if other == 'symbolic' else clone(other)]
    js = [JSON(x) for x in xs]
    value = clone(m.schema.value)
    held = snapshot(m.schema), [snapshot(j) for j in js]
    first = {}
    for step in steps:
        j = js[step] if reuse else JSON(xs[step])
        r = m.schema.evaluate(j)
        out = (bool(r.valid), clone(r.output('verbose')), clone(r.output('basic')))
        s.check(out[0] == schref.evaluate(d, xs[step], dialect).valid, 'the verdict is wrong on a schema evaluated before')
        if step in first:
            s.check(first[step][0] == out[0], 'the verdict changes when evaluated again')
            s.check(strict(first[step][1], out[1]), 'the verbose output changes when evaluated again')
            s.check(strict(first[step][2], out[2]), 'the basic output changes when evaluated again')
        first[step] = out
        s.check(strict(m.schema.value, value), 'evaluation changes the schema')
        s.check(strict(value, d) if group not in ('core', 'dynamic') else True, 'the value of the schema is not that given') if len(first) == 9 else None
        s.check(strict(js[step].value, xs[step]), 'evaluation changes the instance')
        s.check(unchanged(snapshot(m.schema), held[0]), 'evaluation changes the nodes of the schema')
        s.check(unchanged(snapshot(j), held[1][step]), 'evaluation changes the nodes of the instance')
        s.reach('valid' if out[0] else 'invalid')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for g, (what, dialect, d) in GROUPS.items():
        ks = list(d)
        perms = [p for p in itertools.permutations(ks)]
        if not T:
            # rotations and their reverses give every pair in both orders, first and last
            rot = [tuple(ks[i:] + ks[:i]) for i in range(len(ks))]
            keep = set(rot) | {tuple(reversed(r)) for r in rot}
            perms = [p for p in perms if p in keep or some(len(perms) // 12 + 1, g, p)]
        elif len(perms) > 1500:
            perms = [p for p in perms if some(3, g, p)]
        n = 6
        for i in range(0, len(perms), n):
            cs.append(Case(f'order-{g}-{i // n}', order, group=g, perms=perms[i:i + n], deep=i // n % 2 == 1, weight=20))
        for steps in ((0, 0, 1, 0), (1, 0, 0, 1)):
            for other in (None, [], {}, 'a', 0, ['b', 9, 9, {}], {'a': 9, 'b': 1, 'zz': None}):
                if T or other == [] or some(3, g, steps, other):
                    cs += [Case(f"history-{g}-{''.join(map(str, steps))}-{other}-{u}", history, group=g, steps=steps, other=other, reuse=u, weight=20) for u in (True, False)]
        cs.append(Case(f'history-{g}-010-symbolic', history, group=g, steps=(0, 1, 0), other='symbolic', reuse=number(g) % 2, weight=60, thorough_only=g in HEAVY))
    return cs
