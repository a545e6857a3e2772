"""C29: a schema is valid exactly if it has the form its dialect gives."""
from jschon import JSON, JSONSchema
from jschon.exc import JschonError
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch, schref
from harness.schref import kind, is_integer
from harness.util import same, clone, some, number, strict, preserve

prepare = sch.prepare
BOUNDS = 'every keyword of 2019-09 and 2020-12 and three unknown ones, each with a value of 20 shapes (numbers, texts of up to 3 characters, lists ' \
         'and objects of up to 2 members symbolic); one or two such keywords in each of 26 places, up to 3 deep, through symbolic names; places that ' \
         'hold no schemas; the schema by itself (validate) and its plain value against the metaschema'


# ---------------------------------------------------------------- the metaschemas, in other words
def is_schema(v, d):
    k = kind(v)
    if k == 'boolean':
        return True
    if k != 'object':
        return False
    return all_(form(key, x, d) for key, x in v.items())


def natural(v):
    return kind(v) == 'number' and is_integer(v) & (v >= 0)


def texts(v):
    return kind(v) == 'array' and all(kind(x) == 'string' for x in v) and all_(no(v[i] == v[j]) for i in range(len(v)) for j in range(i))


SIMPLE = ('array', 'boolean', 'integer', 'null', 'number', 'object', 'string')


def type_ok(v):
    one = lambda t: kind(t) == 'string' and any_(t == q for q in SIMPLE)
    return one(v) if kind(v) == 'string' else kind(v) == 'array' and len(v) > 0 and all_(one(t) for t in v) & all_(no(same(v[i], v[j])) for i in range(len(v)) for j in range(i))


def anchor(v, first, rest):
    if kind(v) != 'string' or len(v) == 0:
        return False
    at = lambda c, rs: any_((c >= lo) & (c <= hi) for lo, hi in rs)
    return at(v[0], first) & all_(at(c, rest) for c in v[1:])


ALPHA = (('A', 'Z'), ('a', 'z'))
ANCHOR = {'2020': (ALPHA + (('_', '_'),), ALPHA + (('0', '9'), ('-', '-'), ('.', '.'), ('_', '_'))),
          '2019': (ALPHA, ALPHA + (('0', '9'), ('-', '-'), ('.', '.'), (':', ':'), ('_', '_')))}
SCHEMA = ('not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'unevaluatedProperties', 'unevaluatedItems', 'propertyNames', 'contentSchema')
MAP = ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions')
LIST = ('allOf', 'anyOf', 'oneOf')
NUMBER = ('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum')
NATURAL = ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties', 'maxContains', 'minContains')
TEXT = ('pattern', 'title', 'description', 'contentMediaType', 'contentEncoding', 'format', '$comment')
FLAG = ('uniqueItems', 'deprecated', 'readOnly', 'writeOnly')
ANY = ('const', 'default', 'x', 'y', 'Items')
ARRAY = ('enum', 'examples')
KEYWORDS = SCHEMA + MAP + LIST + NUMBER + NATURAL + TEXT + FLAG + ANY + ARRAY + ('items', 'prefixItems', 'additionalItems', 'type', 'multipleOf', 'required', 'dependentRequired', 'dependencies', '$anchor', '$dynamicAnchor',
                                                                              '$recursiveAnchor')


def form(key, v, d):
    """the value has the form of the keyword"""
    hit = lambda ks: any_(key == q for q in ks)
    k = kind(v)
    schemas = lambda: k == 'array' and len(v) > 0 and all_(is_schema(x, d) for x in v)
    if hit(SCHEMA) or d == '2019' and key == 'additionalItems' or d == '2020' and key == 'items':
        return is_schema(v, d)
    if hit(MAP):
        return k == 'object' and all_(is_schema(x, d) for x in v.values())
    if hit(LIST) or d == '2020' and key == 'prefixItems':
        return schemas()
    if key == 'items':
        return schemas() if k == 'array' else is_schema(v, d)
    if hit(NUMBER):
        return k == 'number'
    if hit(NATURAL):
        return natural(v)
    if hit(TEXT):
        return k == 'string'
    if hit(FLAG):
        return k == 'boolean'
    if hit(ARRAY):
        return k == 'array'
    if key == 'type':
        return type_ok(v)
    if key == 'multipleOf':
        return k == 'number' and v > 0
    if key == 'required':
        return texts(v)
    if key == 'dependentRequired':
        return k == 'object' and all_(texts(x) for x in v.values())
    if key == 'dependencies':
        return k == 'object' and all_(texts(x) if kind(x) == 'array' else is_schema(x, d) for x in v.values())
    if key == '$anchor' or d == '2020' and (key == '$dynamicAnchor' or key == '$recursiveAnchor'):
        return anchor(v, *ANCHOR[d])
    if d == '2019' and key == '$recursiveAnchor':
        return k == 'boolean'
    if key == '$ref':
        return k == 'string'
    return True


# ---------------------------------------------------------------- values and places
def txt(s, name, n, default='a'):
    return s.string(name, n, ranges=((0x20, 0x7e), (0xe9, 0xe9), (0x1f600, 0x1f600)), default=default)


VALUES = {
    'null': lambda s: None,
    'flag': lambda s: s.flag('b'),
    'int': lambda s: s.int('i', -9, 9, 1),
    'real': lambda s: s.real('r', -90, 90, 10, 15),
    'text0': lambda s: '',
    'text1': lambda s: txt(s, 't', 1),
    'text2': lambda s: txt(s, 't', 2, 'ab'),
    'text3': lambda s: txt(s, 't', 3, 'a-b'),
    'type': lambda s: s.pick(list(SIMPLE) + ['any', 'Null', 'int'], 'type'),
    'types': lambda s: [s.pick(list(SIMPLE) + ['any'], 'type'), s.pick(['string', 'null', 'no', 1], 'type2')],
    'list0': lambda s: [],
    'texts': lambda s: [txt(s, 't', 1), txt(s, 'u', 1, 'b')],
    'mixed': lambda s: ['a', s.int('i', -9, 9, 1)],
    'schemas': lambda s: [True, {'minLength': s.int('i', -9, 9, 1)}],
    'object0': lambda s: {},
    'object': lambda s: {txt(s, 'k', 1): s.int('i', -9, 9, 1)},
    'schema': lambda s: {'minLength': s.int('i', -9, 9, 1), 'x': {'minLength': 'x'}},
    'map': lambda s: {txt(s, 'k', 1): s.flag('b'), 'other': {'maximum': s.pick([1, '1', None, 1.5, [1]], 'm')}},
    'maptexts': lambda s: {txt(s, 'k', 1): [txt(s, 't', 1), txt(s, 'u', 1, 'b')]},
    'nested': lambda s: {'properties': {txt(s, 'k', 1): {'items': {'type': s.pick(['integer', 'float', 5, ['null']], 'n')}}}},
}

PLACES = {
    'root': lambda v, k: v,
    'properties': lambda v, k: {'properties': {k: v, 'other': True}},
    'pattern': lambda v, k: {'patternProperties': {'^a': True, '[ab]': v}},
    'additional': lambda v, k: {'additionalProperties': v},
    'unevaluated': lambda v, k: {'unevaluatedProperties': v},
    'unevaluatedi': lambda v, k: {'unevaluatedItems': v},
    'names': lambda v, k: {'propertyNames': v},
    'dependent': lambda v, k: {'dependentSchemas': {k: v}},
    'items': lambda v, k: {'items': v},
    'contains': lambda v, k: {'contains': v},
    'allOf': lambda v, k: {'allOf': [True, v]},
    'anyOf': lambda v, k: {'anyOf': [v, {}]},
    'oneOf': lambda v, k: {'oneOf': [v]},
    'not': lambda v, k: {'not': v},
    'if': lambda v, k: {'if': v},
    'then': lambda v, k: {'then': v},
    'else': lambda v, k: {'if': False, 'else': v},
    'content': lambda v, k: {'contentMediaType': 'a', 'contentSchema': v},
    'defs': lambda v, k: {'$defs': {k: v}},
    'definitions': lambda v, k: {'definitions': {k: v}},
    'dependencies': lambda v, k: {'dependencies': {k: v}},
    'deep': lambda v, k: {'properties': {k: {'items': {'not': v}}}},
    'deep2': lambda v, k: {'$defs': {k: {'allOf': [{'dependentSchemas': {k: v}}]}}},
    'resource': lambda v, k: {'$defs': {k: {'$id': 'inner/', 'if': {'$ref': '#/if/$defs/a', '$defs': {'a': v}}}}},
    'ref': lambda v, k: {'$ref': '#/$defs/a/not', '$defs': {'a': {'not': v}}},
    'keyword': lambda v, k: {'properties': {'properties': {'properties': {'minimum': v}}}},
    # no schemas here
    'const': lambda v, k: {'const': v},
    'enum': lambda v, k: {'enum': [v, {k: v}]},
    'default': lambda v, k: {'default': {k: v}},
    'examples': lambda v, k: {'examples': [v]},
    'unknown': lambda v, k: {'x': v},
    'unknown2': lambda v, k: {'not': {'y': {'properties': v}}},
}
PLACES_D = {'2020': {'prefix': lambda v, k: {'prefixItems': [v, True]}}, '2019': {'prefix': lambda v, k: {'items': [v, True]}, 'additionalItems': lambda v, k: {'items': [], 'additionalItems': v}}}


def place(name, d):
    return PLACES.get(name) or PLACES_D[d][name]


def judged(s, v, d):
    """validate() and the metaschema on the plain value say what the grammar says"""
    keep = clone(v)
    want = bool(is_schema(v, d))
    k, node = s.run(sch.schema, s, v, d)
    if k == 'exc':
        s.check(not want and isinstance(node, (TypeError, ValueError, JschonError)), lambda: f'making {"a valid" if want else "an invalid"} schema raises {type(node).__name__}: {node}')
        s.reach('refused')
    else:
        k, r = s.run(node.validate)
        s.check(k == 'ok', lambda: f'validate raises {type(r).__name__}: {r}')
        s.check(bool(r.valid) == want, lambda: f'a schema that is {"valid" if want else "invalid"} is reported {"valid" if r.valid else "invalid"}')
        s.check(same(node.value, keep), 'validate changes the schema')
        s.check(want or any(True for _ in r.collect_errors()), 'invalid, without an error')
        s.reach('valid' if want else 'invalid')
    meta = sch.CAT.get_metaschema(sch.DIALECT[d])
    k, r = s.run(meta.evaluate, JSON(v))
    s.check(k == 'ok', lambda: f'the metaschema raises {type(r).__name__}: {r}')
    s.check(bool(r.valid) == want, lambda: f'the metaschema reports a schema that is {"valid" if want else "invalid"} as {"valid" if r.valid else "invalid"}')
    s.check(strict(v, keep), 'the value is changed')


def k_object(v):
    return kind(v) == 'object'


def one(s, key, value, where, d, extra=None):
    preserve(s, sch.CAT.get_metaschema(sch.DIALECT[d]))
    v = {key: VALUES[value](s)}
    if key == 'pattern':      # compiled when the schema is made
        k = kind(v[key])
        v[key] = s.pick(['a', '', '^[a-z]+$'], 'p') if k == 'string' else 1.5 if k == 'number' else v[key]
    if key == 'patternProperties' and k_object(v[key]):
        s.assume(all_(no(c == q) for t in v[key] for c in t for q in '([{*+?\\)|'))
    if extra:
        v[extra] = s.pick({'title': ['t', 1], 'maxItems': [0, -1, 1.0], 'required': [[], ['a', 'a'], 'a']}[extra], 'e')
    name = txt(s, 'name', 1, '/') if where in ('properties', 'dependent', 'defs', 'definitions', 'dependencies', 'deep') else '~/'
    judged(s, place(where, d)(v, name), d)


def bare(s, value, where, d):
    """not even an object or boolean where a schema should be"""
    preserve(s, sch.CAT.get_metaschema(sch.DIALECT[d]))
    v = VALUES[value](s)
    judged(s, place(where, d)(v, '~/'), d)


def document(s, d):
    """a larger schema with several symbolic parts"""
    preserve(s, sch.CAT.get_metaschema(sch.DIALECT[d]))
    k = txt(s, 'k', 1)
    n, lo = s.int('n', -1, 3, 1), s.int('lo', -1, 3, 1)
    v = {'$id': 'https://example.org/doc', 'title': s.pick(['T', None], 'title'), 'type': s.pick(['object', []], 'type'),
         'properties': {k: {'$ref': '#/$defs/a'}, 'list': {'type': 'array', 'maxItems': n, 'items': {'multipleOf': lo}}},
         'required': [k, txt(s, 'q', 1, 'b')], '$defs': {'a': {'$anchor': txt(s, 'a', 1), 'enum': [k, None]}}}
    if d == '2019':
        s.assume(no(any_(c == q for c in v['$defs']['a']['$anchor'] for q in '%#')))
    judged(s, v, d)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for d in ('2020', '2019'):
        for key in KEYWORDS:
            for value in VALUES:
                cs.append(Case(f'key-{key}-{value}-{d}', one, key=key, value=value, where='root', d=d, weight=8))
                for where in list(PLACES) + list(PLACES_D[d]):
                    if some(12 if T else 400, key, value, where, d):
                        cs.append(Case(f'place-{where}-{key}-{value}-{d}', one, key=key, value=value, where=where, d=d, extra=(None, None, 'title', 'maxItems', 'required')[number(key, value, where) % 5]
                                       if key not in ('title', 'maxItems', 'required') else None, weight=12))
        for where in list(PLACES) + list(PLACES_D[d]):
            for value in VALUES:
                if where != 'root' and (T or some(3, where, value, d)):
                    cs.append(Case(f'bare-{where}-{value}-{d}', bare, value=value, where=where, d=d, weight=8))
        cs.append(Case(f'document-{d}', document, d=d, weight=200))
    return cs
