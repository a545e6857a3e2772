"""Schemas with symbolic instances, for the harnesses that look at results: name -> (dialect, function of the session)"""
from symex.session import no, all_

P = {}


def program(dialect='2020'):
    def d(f):
        P[f.__name__] = (dialect, f)
        return f
    return d


def n(s, name='x'):
    return s.int(name, 0, 9, 5)


def names(s, *lens):
    ks = []
    for i, l in enumerate(lens):
        k = s.string(f'k{i}', l, default='ab'[i % 2:])
        s.assume(all_(no(k == q) for q in ks))
        ks.append(k)
    return ks


LO, HI = {'minimum': 4, 'title': 'low'}, {'maximum': 6, 'description': 'high'}
NOTE = {'title': 'T', 'description': 'D', 'default': [1, {'a': None}], 'deprecated': False, 'readOnly': True, 'writeOnly': True, 'examples': [1, 'x']}


@program()
def notes(s):
    return {**NOTE, 'minimum': 4, 'x-unknown': {'deep': [1, {'y': 2}]}, '$comment': 'no', 'unknown': 5}, n(s)


@program('2019')
def notes_2019(s):
    return {**NOTE, 'maximum': 4, 'x-unknown': 0, '$comment': 'no', 'prefixItems': [False], '$dynamicRef': '#foo'}, n(s)


@program()
def content(s):
    return {'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': {'type': 'object', 'title': 'x'}, 'format': 'f', 'maxLength': 1,
            'pattern': 'a'}, s.pick([s.string('t', 1, default='a'), s.string('u', 2, default='a'), 5, None, ['a']], 'kind')


@program()
def content_alone(s):
    return {'items': {'contentSchema': {'type': 'object'}, 'contentEncoding': 'e', 'format': 'regex'}}, ['a', 1]


@program()
def logic(s):
    return {'allOf': [LO, True, {'title': 'all'}], 'anyOf': [HI, {'const': 9, 'title': 'any'}], 'title': 'root'}, n(s)


@program()
def one(s):
    return {'oneOf': [LO, HI, {'const': 5, 'title': 'five'}, False], 'description': 'root'}, n(s)


@program()
def negative(s):
    return {'not': {**LO, 'not': {**HI, 'default': 1}}, 'default': 2}, n(s)


@program()
def negative2(s):
    return {'not': {'anyOf': [LO, {'allOf': [HI, False]}], 'if': {'const': 7}}, 'default': 2}, n(s)


@program()
def condition(s):
    return {'if': {**LO, 'default': 'if'}, 'then': {**HI, 'default': 'then'}, 'else': {'minimum': 1, 'default': 'else'}}, n(s)


@program()
def condition2(s):
    return {'if': {'allOf': [LO, HI]}, 'then': {'title': 'then'}, 'else': False, 'allOf': [{'if': {'maximum': 2, 'title': 'small'}}, {'then': False, 'else': False}]}, n(s)


@program()
def condition3(s):
    return {'if': False, 'then': False, 'else': LO, 'anyOf': [{'if': True, 'then': HI}, False]}, n(s)


@program()
def obj(s):
    a, b = names(s, 1, 1)
    return {'properties': {'a': LO, 'b': {'title': 'B', **HI}}, 'patternProperties': {'a': {'default': 1}, 'x|y': HI}, 'additionalProperties': {'title': 'add', 'minimum': 2}}, \
        {a: n(s), b: n(s, 'y')}


@program()
def obj2(s):
    return {'properties': {'a': {'properties': {'b': LO}, 'title': 'A'}, 'c': False}, 'required': ['a'], 'propertyNames': {'maxLength': 1}, 'title': 'R'}, \
        s.pick([{'a': {'b': n(s)}}, {'a': {'b': n(s), 'c': 1}, 'cc': {}}, {'a': 3}, {}, {'c': 1, 'a': []}, 7], 'x')


@program()
def dep(s):
    k, = names(s, 1)
    return {'dependentSchemas': {'a': {'properties': {'z': LO}, 'title': 'dep'}, 'b': False, 'c': {'default': 1}}, 'dependentRequired': {'c': ['d']}, 'title': 'R'}, {k: 1, 'z': n(s)}


@program()
def uneval(s):
    return {'properties': {'a': LO}, 'anyOf': [{'properties': {'b': HI}}, {'title': 'any'}], 'unevaluatedProperties': {'title': 'rest', 'minimum': 3}}, \
        {'a': n(s), 'b': n(s, 'y'), 'c': n(s, 'z')}


@program()
def uneval2(s):
    return {'allOf': [{'properties': {'a': LO}, 'unevaluatedProperties': False}], 'properties': {'b': True}, 'unevaluatedProperties': {'const': 5}}, \
        s.pick([{'a': n(s)}, {'a': n(s), 'b': 5}, {}], 'x')


@program('2019')
def uneval_2019(s):
    return {'oneOf': [{'properties': {'a': LO}}, {'properties': {'a': HI, 'b': HI}}], 'unevaluatedProperties': {'title': 'rest', 'minimum': 3}}, {'a': n(s), 'b': n(s, 'y')}


@program()
def arr(s):
    return {'prefixItems': [LO, {'title': 'second'}], 'items': {**HI, 'title': 'rest'}, 'contains': {'minimum': 5, 'default': 'hit'}, 'title': 'A'}, \
        [n(s, f'x{i}') for i in range(s.pick([0, 1, 2, 3], 'n'))]


@program()
def arr2(s):
    return {'contains': {'minimum': 5, 'title': 'hit'}, 'minContains': s.int('lo', 0, 3, 1), 'maxContains': 1, 'unevaluatedItems': {'maximum': 3, 'title': 'rest'}}, \
        [n(s, f'x{i}') for i in range(2)]


@program()
def arr3(s):
    return {'items': {'items': LO, 'title': 'inner', 'minItems': 1}, 'uniqueItems': True}, s.pick([[[n(s), n(s, 'y')], []], [[n(s)], [n(s, 'y')]], [], [3, [n(s)]]], 'x')


@program()
def arr4(s):
    return {'unevaluatedItems': {'if': LO, 'then': {'title': 'then'}, 'else': {'const': 1}}, 'prefixItems': [True]}, [n(s), n(s, 'y'), n(s, 'z')]


@program()
def arr5(s):
    return {'items': {'prefixItems': [LO], 'unevaluatedItems': False, 'title': 'inner'}}, [[n(s)], [n(s, 'y'), n(s, 'z')], []]


@program('2019')
def arr_2019(s):
    return {'items': [LO, {'title': 'second'}], 'additionalItems': {**HI, 'title': 'rest'}, 'contains': {'minimum': 5, 'default': 'hit'}, 'title': 'A'}, \
        [n(s, f'x{i}') for i in range(s.pick([0, 1, 2, 3], 'n'))]


@program('2019')
def arr2_2019(s):
    return {'items': {'title': 'item', 'minimum': 2, 'if': LO, 'else': {'default': 'small'}}, 'maxItems': 2}, [n(s, f'x{i}') for i in range(s.pick([0, 1, 3], 'n'))]


@program('2019')
def arr3_2019(s):
    return {'items': {'items': [LO, True], 'unevaluatedItems': False, 'title': 'inner'}}, [[n(s)], [1, n(s, 'y')], [5, 5, n(s, 'z')]][:s.pick([2, 3], 'n')]


@program('2019')
def arr4_2019(s):
    return {'items': {'properties': {'a': LO}, 'unevaluatedProperties': {'maximum': 5}}}, [{'a': n(s)}, {'a': n(s, 'y'), 'b': n(s, 'z')}]


@program('2019')
def arr5_2019(s):
    return {'anyOf': [{'items': [LO]}, {'items': False}, {'items': True}], 'unevaluatedItems': {'title': 'rest', 'maximum': 5}}, [n(s), n(s, 'y')]


@program()
def refs(s):
    return {'properties': {'a': {'$ref': '#/$defs/x', 'title': 'besides'}, 'b': {'$ref': '#anchor'}, 'c': {'$ref': 'sub'}},
            '$defs': {'x': LO, 'y': {'$anchor': 'anchor', **HI, 'allOf': [{'$ref': '#/$defs/x'}]}, 'z': {'$id': 'sub', '$ref': '#/$defs/q', '$defs': {'q': {'const': 5, 'title': 'Q'}}},
                      'f': False}, 'not': {'$ref': '#/$defs/f'}}, {'a': n(s), 'b': n(s, 'y'), 'c': n(s, 'z')}


@program()
def refs2(s):
    return {'items': {'$ref': '#/$defs/a~1b%25~0c'}, '$defs': {'a/b%~c': {'$ref': '#/$defs/f'}, 'f': {'if': LO, 'then': True, 'else': False, 'title': 'F'}, '': False}}, [n(s), n(s, 'y')]


@program()
def tree(s):
    return {'$dynamicAnchor': 'node', 'properties': {'v': LO, 'kids': {'items': {'$dynamicRef': '#node'}, 'title': 'kids'}}, 'title': 'node'}, \
        {'v': n(s), 'kids': [{'v': n(s, 'y')}, {'kids': [{'v': n(s, 'z')}]}]}


@program()
def tree2(s):
    return {'$id': 'https://example.org/ext', '$dynamicAnchor': 'node', '$ref': 'base', 'required': ['v'],
            '$defs': {'b': {'$id': 'base', '$dynamicAnchor': 'node', 'properties': {'v': LO, 'kids': {'items': {'$dynamicRef': '#node'}}}, 'title': 'base'}}}, \
        {'v': n(s), 'kids': s.pick([[{'v': n(s, 'y')}, {}], [], [{'v': 5, 'kids': [{'v': n(s, 'y')}]}]], 'kids')}


@program('2019')
def tree_2019(s):
    return {'$recursiveAnchor': True, 'properties': {'v': LO, 'kids': {'items': {'$recursiveRef': '#'}, 'title': 'kids'}}, 'title': 'node'}, \
        {'v': n(s), 'kids': [{'v': n(s, 'y')}, {'kids': []}]}


@program()
def boolean(s):
    return {'properties': {'a': False, 'b': True}, 'additionalProperties': False, 'allOf': [True], 'anyOf': [False, {'required': ['b'], 'title': 'any'}]}, \
        s.pick([{'a': 1}, {'b': 1}, {'c': 1, 'b': 2}, {}, 5], 'x')


@program()
def special(s):
    return {'properties': {'/': LO, 'a~b': {'properties': {'': HI, '%': LO}}, 'é"': {'title': 'T'}}, 'patternProperties': {'[^a-z]': {'description': 'p'}}}, \
        {'/': n(s), 'a~b': {'': n(s, 'y'), '%': n(s, 'z')}, 'é"': None}


@program()
def mixed(s):
    return {'type': 'object', 'properties': {'a': {'type': ['integer', 'null'], 'enum': [1, None, 5], 'multipleOf': 5}, 'b': {'minLength': 1, 'const': 'q'}},
            'minProperties': 1, 'maxProperties': 2}, s.pick([{'a': n(s)}, {'b': s.string('t', 1, default='q')}, {'a': None, 'b': '', 'c': 1}, {'a': 'x'}, [], {}], 'x')


@program()
def false(s):
    return False, s.pick([1, {}], 'x')


@program()
def true(s):
    return True, s.pick([1, {}], 'x')


# routes to a program from a root schema: how -> function of (program schema, instance) -> (schema, instance)
W = {
    'allOf': lambda v, x: ({'allOf': [v, {'title': 'W'}]}, x),
    'anyOf': lambda v, x: ({'anyOf': [{'type': 'null', 'title': 'W'}, v, {'default': 'W'}]}, x),
    'anyOf2': lambda v, x: ({'anyOf': [v, {'type': 'null'}], 'title': 'W'}, x),
    'oneOf': lambda v, x: ({'oneOf': [{'default': 'W'}, v], 'title': 'W'}, x),
    'not': lambda v, x: ({'not': v, 'title': 'W'}, x),
    'notnot': lambda v, x: ({'not': {'not': v, 'title': 'V'}, 'title': 'W'}, x),
    'if': lambda v, x: ({'if': v, 'then': {'title': 'yes'}, 'else': {'title': 'no', 'type': 'string'}}, x),
    'then': lambda v, x: ({'if': True, 'then': v, 'else': False}, x),
    'properties': lambda v, x: ({'properties': {'p/~': v, 'q': {'title': 'q'}}, 'title': 'W'}, {'q': 1, 'p/~': x}),
    'pattern': lambda v, x: ({'patternProperties': {'a': v, '^a': {'title': 'q'}}}, {'ab': x, 'c': 1}),
    'additional': lambda v, x: ({'properties': {'q': True}, 'additionalProperties': v}, {'q': 1, 'p': x, 'pp': x}),
    'unevaluated': lambda v, x: ({'properties': {'q': True}, 'unevaluatedProperties': v}, {'q': 1, 'p': x}),
    'items': lambda v, x: ({'items': v, 'title': 'W'}, [x, x]),
    'contains': lambda v, x: ({'contains': v, 'minContains': 0, 'title': 'W'}, [x, None]),
    'contains1': lambda v, x: ({'contains': v, 'title': 'W'}, [x]),
    'dependent': lambda v, x: ({'dependentSchemas': {'q': v}}, x),
    'deep': lambda v, x: ({'properties': {'p': {'items': {'allOf': [{'title': 'W'}, v]}}}}, {'p': [[], x]}),
    'ref': lambda v, x: ({'$ref': '#/$defs/w', '$defs': {'w': v}, 'title': 'W'}, x),
    'ref2': lambda v, x: ({'properties': {'p': {'$ref': 'https://example.org/prog/#'}}, '$defs': {'w': v}} if isinstance(v, dict) and v.get('$id', '').endswith('prog/')
                          else ({'properties': {'p': {'$ref': '#/$defs/w'}}, '$defs': {'w': v}}), {'p': x}),
}


def wrapped(s, name, how=()):
    """how: routes, innermost first -> dialect, schema, instance"""
    dialect, f = P[name]
    v, x = f(s)
    for i, h in enumerate(how):
        if isinstance(v, dict) and '$id' not in v:
            v = {'$id': 'https://example.org/prog/' if i == 0 else f'https://example.org/w{i}/', **v}
        v, x = W[h](v, x)
    return dialect, v, x
