"""C26: dialects."""
from jschon import JSON, JSONSchema, URI
from jschon.exc import CatalogError, JschonError
from jschon.vocabulary import Keyword, Metaschema
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch
from harness.c21 import Memory
from harness.util import some, strict, preserve



def prepare(*a):
    cat = sch.prepare(*a)
    if not STANDING:
        cat.create_vocabulary(URI(URIS['z']), KwA)
        cat.add_uri_source(URI('https://m.example/standing/'), Memory({'m': {**meta({CORE: True, URIS['a']: True, URIS['z']: False}), '$id': str(M)}}))
        STANDING.extend([cat.get_metaschema(M), *[cat.get_metaschema(u) for u in sch.DIALECT.values()]])
    return cat


STANDING = []


M = URI('https://m.example/standing/m')
BOUNDS = 'a probe for each of 40 asserting keywords; metaschemas that declare any combination of the vocabularies a probe needs, another one and an ' \
         'unknown one, required or not, in any order; vocabulary URIs with up to 11 symbolic characters; all keyword names of up to 11 characters that no vocabulary has; $schema absent ' \
         'or one of 4 at each of 3 nested levels and given, in 7 places, and through documents loaded by reference; 14 kinds of refused metaschemas, retried; ' \
         'default vocabularies in every combination'
ASSUMPTIONS = ['no two of the declared vocabularies have a keyword in common']

V = 'https://json-schema.org/draft/2020-12/vocab/'
CORE = V + 'core'
ADD = ('$schema', '$id', '$ref', '$anchor', '$defs', '$comment', '$vocabulary')
APPL = ('allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'items', 'contains', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames')
VALID = ('type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern', 'maxItems', 'minItems', 'uniqueItems',
         'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required', 'dependentRequired')
REST = ('title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'contentMediaType', 'contentEncoding', 'contentSchema', 'format')
UNEV = ('unevaluatedItems', 'unevaluatedProperties')
KNOWN = {'2019': ADD + ('$recursiveRef', '$recursiveAnchor', 'additionalItems') + UNEV + APPL + VALID + REST,
         '2020': ADD + ('$dynamicRef', '$dynamicAnchor', 'prefixItems') + UNEV + APPL + VALID + REST}
KNOWN['next'] = KNOWN['2020']

# keyword -> (vocabularies of 2020-12 it needs, schema, instance that is invalid by it alone)
PROBES = {
    'allOf': ('a', {'allOf': [False]}, 1), 'anyOf': ('a', {'anyOf': [False]}, 1), 'oneOf': ('a', {'oneOf': [True, True]}, 1), 'not': ('a', {'not': True}, 1), 'then': ('a', {'if': True, 'then': False}, 1),
    'else': ('a', {'if': False, 'else': False}, 1), 'dependentSchemas': ('a', {'dependentSchemas': {'a': False}}, {'a': 1}), 'prefixItems': ('a', {'prefixItems': [False]}, [1]), 'items': ('a', {'items': False}, [1]),
    'contains': ('a', {'contains': False}, [1]), 'properties': ('a', {'properties': {'a': False}}, {'a': 1}), 'patternProperties': ('a', {'patternProperties': {'a': False}}, {'a': 1}),
    'additionalProperties': ('a', {'additionalProperties': False}, {'a': 1}), 'propertyNames': ('a', {'propertyNames': False}, {'a': 1}),
    'unevaluatedItems': ('u', {'unevaluatedItems': False}, [1]), 'unevaluatedProperties': ('u', {'unevaluatedProperties': False}, {'a': 1}),
    'type': ('v', {'type': 'string'}, 1), 'enum': ('v', {'enum': [2]}, 1), 'const': ('v', {'const': 2}, 1), 'multipleOf': ('v', {'multipleOf': 2}, 1), 'maximum': ('v', {'maximum': 0}, 1),
    'exclusiveMaximum': ('v', {'exclusiveMaximum': 1}, 1), 'minimum': ('v', {'minimum': 2}, 1), 'exclusiveMinimum': ('v', {'exclusiveMinimum': 1}, 1), 'maxLength': ('v', {'maxLength': 0}, 'a'),
    'minLength': ('v', {'minLength': 2}, 'a'), 'pattern': ('v', {'pattern': 'b'}, 'a'), 'maxItems': ('v', {'maxItems': 0}, [1]), 'minItems': ('v', {'minItems': 2}, [1]), 'uniqueItems': ('v', {'uniqueItems': True}, [1, 1]),
    'maxProperties': ('v', {'maxProperties': 0}, {'a': 1}), 'minProperties': ('v', {'minProperties': 2}, {'a': 1}), 'required': ('v', {'required': ['b']}, {'a': 1}), 'dependentRequired': ('v', {'dependentRequired': {'a': ['b']}}, {'a': 1}),
    'maxContains': ('av', {'contains': True, 'maxContains': 0}, [1]), 'minContains': ('av', {'contains': True, 'minContains': 2}, [1]), '$ref': ('', {'$ref': '#/$defs/f', '$defs': {'f': False}}, 1),
    'kwA': ('x', {'kwA': 2}, 1), 'kwB': ('y', {'kwB': 2}, 1), '$dynamicRef': ('', {'$dynamicRef': '#/$defs/f', '$defs': {'f': False}}, 1),
}
URIS = {'a': V + 'applicator', 'u': V + 'unevaluated', 'v': V + 'validation', 'x': 'https://v.example/x', 'y': 'https://v.example/y', 'z': 'https://v.example/z', 'm': V + 'meta-data', 'f': V + 'format-annotation', 'c': V + 'content'}


class KwA(Keyword):
    key = 'kwA'

    def evaluate(self, instance, result):
        if instance.data != self.json.data:
            result.fail('A')


class KwB(Keyword):
    key = 'kwB'

    def evaluate(self, instance, result):
        if instance.data != self.json.data:
            result.fail('B')


def world(s, **docs):
    """the catalog with two more vocabularies and the documents in a source; everything is undone at the end"""
    cat = sch.CAT
    preserve(s, cat, *STANDING)
    src = Memory(docs)
    cat.add_uri_source(URI('https://m.example/'), src)
    cat.create_vocabulary(URI(URIS['x']), KwA)
    cat.create_vocabulary(URI(URIS['y']), KwB)
    return src


def meta(vocab, name='m', **more):
    return {'$schema': str(sch.DIALECT['2020']), '$id': 'https://m.example/' + name, '$vocabulary': vocab, **more}


def judged(s, value, x, known, what, args, own=None):
    """value is evaluated with or without what"""
    k, r = s.run(lambda: JSONSchema(value, catalog=sch.CAT, **args))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    k, res = s.run(r.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(res).__name__}: {res}')
    s.check(iff(res.valid, not known), lambda: f'{what} is {"ignored" if res.valid else "asserted"}')
    if not (known if own is None else own):
        c = [c for (key, path), c in res.children.items() if key == what]
        s.check(len(c) == 1 and c[0].annotation is not None and strict(c[0].annotation, value[what]), lambda: f'{what} is not annotated: {c}')
        s.check(any(a is c[0].annotation for a in res.collect_annotations(key=what)), 'the annotation is not collected')
    s.reach('known' if known else 'ignored')
    return r


def here(s):
    m = sch.Made(s, True)
    return m.cacheid


def declared(s, kw, other, unknown):
    """a metaschema that declares some vocabularies"""
    need, value, x = PROBES[kw]
    rows = [(CORE, True)]
    have = ''
    for v in need + other:
        n = s.choose(3, v)
        if n:
            rows.append((URIS[v], n == 1))
            have += v
    if unknown:
        rows.append(('https://v.example/unknown', False))
    k = s.pick([0, 1, -1], 'rotate')
    rows = rows[k:] + rows[:k]
    world(s, m=meta(dict(rows)))
    given = s.flag('given')
    args = dict(cacheid=here(s), metaschema_uri=URI('https://m.example/m') if given else sch.DIALECT['2020'], uri=sch.ROOT)
    judged(s, value if given else {'$schema': 'https://m.example/m', **value}, x, all(v in have for v in need), kw, args, need[-1:] in have)


def vocabulary(s, n, required):
    """a metaschema that declares a vocabulary by a symbolic URI"""
    t = s.string('t', n, ranges=((0x2d, 0x2d), (0x61, 0x7a)), default={10: 'applicator', 11: 'unevaluated'}.get(n, 'content')[:n])
    world(s, m=meta({CORE: True, V + t: required}))
    names = {V + t for t in ('applicator', 'unevaluated', 'validation', 'meta-data', 'format-annotation', 'content')}
    known = any(bool(V + t == q) for q in names)
    for again in range(2):
        k, r = s.run(lambda: JSONSchema({'$schema': 'https://m.example/m', 'not': True}, catalog=sch.CAT, cacheid=here(s), uri=sch.ROOT))
        if V + t == CORE:
            return
        if required and not known:
            s.check(k == 'exc' and isinstance(r, JschonError), lambda: f'the unknown vocabulary {t} is required, but {r!r}')
            s.reach('refused')
            continue
        s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    if k == 'exc':
        return
    args = dict(cacheid=here(s), metaschema_uri=URI('https://m.example/m'), uri=sch.ROOT)
    for kw, v in (('not', 'applicator'), ('minLength', 'validation'), ('unevaluatedItems', 'unevaluated')):
        judged(s, PROBES[kw][1], PROBES[kw][2], bool(t == v), kw, args)


def names(s, dialect, n, where):
    """a keyword by any name that no vocabulary has"""
    world(s)
    k = s.string('k', n, default='zzzzzzzzzzzz'[:n])
    for q in KNOWN[dialect]:
        if len(q) == n:
            s.assume(no(k == q))
    v = s.pick([5, False, 'a', None, [], {'not': True}, {}], 'value') if n < 3 else {'not': True}
    x = s.pick([1, 'a', [False], {'a': None}, None], 'instance') if n < 3 else {'a': 1}
    sub = {k: v, 'title': 'T'}
    value, way = {'root': (sub, ()), 'allOf': ({'allOf': [sub]}, ('allOf', '0')), 'ref': ({'$defs': {'d': sub}, '$ref': '#/$defs/d'}, ('$ref',))}[where]
    kind, r = s.run(lambda: JSONSchema(value, catalog=sch.CAT, cacheid=here(s), uri=sch.ROOT, metaschema_uri=sch.DIALECT[dialect]))
    s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
    res = r.evaluate(JSON(x))
    s.check(res.valid, lambda: f'a keyword by the name {k!r} is asserted')
    found = [a for a in res.collect_annotations()]
    want = 1 if v is None else 2
    s.check(len(found) == want and any(a == 'T' for a in found if type(a) is str or isinstance(a, str)), lambda: f'annotations {found}')
    if v is not None:
        s.check(any_(strict(a, v) for a in found), lambda: f'annotations {found}')
    s.check(strict(r.value, value), 'the schema has another value')


LEVEL = ('none', '2019', '2020', 'next', 'm')
LEAVES = {'minLength': ('2019', '2020', 'next'), 'prefixItems': ('2020', 'next', 'm'), 'kwA': ('m',), 'not': LEVEL, '$dynamicRef': ('2020', 'next', 'm'), '$recursiveRef': ('2019',)}
LEAF = {'$recursiveRef': ({'$id': 'rr', 'type': 'array', 'items': {'$recursiveRef': '#'}}, [1])}
PUT = {'allOf': lambda v: {'allOf': [True, v]}, 'not': lambda v: {'not': {'not': v}}, 'ref': lambda v: {'$id': 'r', '$ref': '#/$defs/q', '$defs': {'q': v}}, 'else': lambda v: {'if': False, 'else': v},
       'anyOf': lambda v: {'anyOf': [v]}, 'inner': lambda v: {'$id': 's', '$ref': 'inner', '$defs': {'q': {'$id': 'inner', 'allOf': [v]}}}, 'anchor': lambda v: {'$id': 'a', '$ref': '#an', '$defs': {'q': {'allOf': [v], '$anchor': 'an'}}}}


def uri_of(d):
    return M if d == 'm' else sch.DIALECT[d]


def a_leaf(s, leaf):
    """-> schema, instance, is it valid where the keyword is known"""
    if leaf == 'minLength':
        k = s.int('k', 0, 3, 2)
        return {'minLength': k}, s.string('x', 1), k <= 1
    if leaf == 'kwA':
        k, x = s.int('k', 0, 3, 2), s.int('x', 0, 3, 1)
        return {'kwA': k}, x, k == x
    value, x = LEAF.get(leaf) or PROBES[leaf][1:]
    return value, x, False


def levels(s, places, leaf):
    """$schema at nested levels"""
    value, x, verdict = a_leaf(s, leaf)
    if leaf == '$dynamicRef':
        value = {'$dynamicRef': 'https://example.org/false'}
    d = s.pick(LEVEL[1:], 'given')
    args = dict(cacheid=here(s), metaschema_uri=uri_of(d), uri=sch.ROOT)
    if leaf == '$dynamicRef':
        JSONSchema(False, catalog=sch.CAT, cacheid=args['cacheid'], uri=URI('https://example.org/false'))
    lv = [s.pick(LEVEL, f'level{i}') for i in range(len(places) + 1)]
    v = value
    for i in range(len(places), -1, -1):
        if lv[i] != 'none':
            v = {'$schema': str(uri_of(lv[i])), **v}
        if i:
            v = PUT[places[i - 1]](v)
    for q in lv:
        d = d if q == 'none' else q
    r = JSONSchema(v, catalog=sch.CAT, **args)
    res = r.evaluate(JSON(x)).valid
    known = d in LEAVES[leaf]
    s.check(iff(res, verdict if known else True), lambda: f'{leaf} is {"ignored" if res else "asserted"} with {d} of {lv}')
    s.reach('known' if known else 'ignored')


def loaded(s, leaf, deep):
    """a document loaded by a reference, or by its URI"""
    value, x, verdict = a_leaf(s, leaf)
    own = s.pick(LEVEL, 'own')
    doc = value if own == 'none' else {'$schema': str(uri_of(own)), **value}
    world(s, doc=doc)
    given = s.pick(LEVEL[1:], 'given')
    inner = s.pick(LEVEL, 'inner')
    ref = {'$ref': 'https://m.example/doc'}
    if inner != 'none':
        ref['$schema'] = str(uri_of(inner))
    cid = here(s)
    if deep == 'get':
        r = sch.CAT.get_schema(URI('https://m.example/doc'), cacheid=cid, metaschema_uri=uri_of(given))
        d = given
    else:
        r = JSONSchema({'allOf': [{'not': {'not': ref}}]} if deep == 'deep' else ref, catalog=sch.CAT, cacheid=cid, uri=sch.ROOT, metaschema_uri=uri_of(given))
        d = given if inner == 'none' else inner
    d = d if own == 'none' else own
    res = r.evaluate(JSON(x)).valid
    known = d in LEAVES[leaf]
    s.check(iff(res, verdict if known else True), lambda: f'{leaf} is {"ignored" if res else "asserted"} with {d}, own {own}, given {given}, at the reference {inner}')
    s.check(sch.CAT.get_schema(URI('https://m.example/doc'), cacheid=cid).metaschema_uri == uri_of(d), 'the metaschema URI')


REFUSED = {
    'required': lambda: meta({CORE: True, 'https://v.example/unknown': True}), 'nocore': lambda: meta({URIS['x']: True}), 'corefalse': lambda: meta({CORE: False}), 'empty': lambda: meta({}),
    'twocores': lambda: meta({CORE: True, 'https://json-schema.org/draft/2019-09/vocab/core': True}), 'relative': lambda: meta({CORE: True, 'unknown': False}), 'odd': lambda: meta({CORE: True, 'HTTPS://v.example/x': True}),
    'dots': lambda: meta({CORE: True, 'https://v.example/a/../x': False}), 'none': lambda: {k: v for k, v in meta(0).items() if k != '$vocabulary'}, 'invalid': lambda: meta({CORE: True}, minLength=-1),
    'deep': lambda: meta({CORE: True}, properties={'a': {'type': 'nonsense'}}), 'noschema': lambda: {k: v for k, v in meta({CORE: True}).items() if k != '$schema'}, 'elsewhere': lambda: {**meta({CORE: True}), '$schema': 'https://m.example/nothing'},
    'coreunknown': lambda: meta({'https://json-schema.org/draft/1999/vocab/core': True}),
}


def refused(s, how):
    """metaschemas that cannot be used, and can be later"""
    src = world(s)
    name = s.string('n', 1, ranges=((0x61, 0x62),), default='a')
    at = URI('https://m.example/' + name)
    bad = dict(REFUSED[how]())
    bad['$id'] = 'https://m.example/' + name
    src.docs[name] = bad
    cid = here(s)
    for again in range(2):
        kind, r = s.run(sch.CAT.get_metaschema, at)
        s.check(kind == 'exc' and isinstance(r, JschonError), lambda: f'the metaschema is {r!r}')
        kind, r = s.run(lambda: JSONSchema({'$schema': str(at), 'kwA': 1}, catalog=sch.CAT, cacheid=cid, uri=sch.ROOT))
        s.check(kind == 'exc' and isinstance(r, JschonError), lambda: f'a schema of a refused metaschema: {r!r}')
    src.docs[name] = {**meta({CORE: True, URIS['x']: True}), '$id': 'https://m.example/' + name}
    m = sch.CAT.get_metaschema(at)
    s.check(m is sch.CAT.get_metaschema(at), 'another object')
    judged(s, {'$schema': str(at), 'kwA': 2}, 1, True, 'kwA', dict(cacheid=cid, uri=sch.ROOT))


def validity(s):
    """a metaschema is refused exactly if it is invalid"""
    n = s.int('n', -2, 2, 0)
    src = world(s, m=meta({CORE: True, URIS['v']: True}, minLength=n))
    k, r = s.run(sch.CAT.get_metaschema, URI('https://m.example/m'))
    s.check(k == 'ok' if n >= 0 else k == 'exc' and isinstance(r, CatalogError), lambda: f'minLength {n}: {r!r}')
    s.reach(k)


def defaults(s, n):
    """create_metaschema with default vocabularies"""
    kw = s.pick(['not', 'minLength', 'unevaluatedItems', 'kwA', 'kwB'], 'probe')
    need, value, x = PROBES[kw]
    have = [v for v in 'avuxy' if s.flag(v)]
    own = s.pick(['none', 'core', 'x'], 'own')
    doc = meta({'core': {CORE: True}, 'x': {CORE: True, URIS['x']: True}}.get(own))
    if own == 'none':
        del doc['$vocabulary']
    world(s, m=doc)
    m = sch.CAT.create_metaschema(URI('https://m.example/m'), URI(CORE), *[URI(URIS[v]) for v in have])
    s.check(sch.CAT.get_metaschema(URI('https://m.example/m')) is m, 'the metaschema is not found')
    eff = {'none': have, 'core': [], 'x': ['x']}[own]
    judged(s, {'$schema': 'https://m.example/m', **value}, x, need in eff, kw, dict(cacheid=here(s), uri=sch.ROOT))


def given(s, own, by):
    """create_metaschema of a document that does not say what its metaschema is"""
    kw = s.pick(['not', 'kwA', 'kwB'], 'probe')
    need, value, x = PROBES[kw]
    have = [v for v in 'ax' if s.flag(v)]
    n = s.int('n', -1, 1, 0)
    body = s.pick(['empty', 'kwA', 'validation'], 'body')
    doc = meta({'core': {CORE: True}, 'x': {CORE: True, URIS['x']: True}}.get(own), **{'empty': {}, 'kwA': {'properties': {'kwA': {'const': 2}}}, 'validation': {'minLength': n}}[body])
    if own == 'none':
        del doc['$vocabulary']
    if own != 'id':
        del doc['$id']
    else:
        del doc['$vocabulary']
    if by != 'schema':
        del doc['$schema']
    src = world(s, m=doc)
    at = URI('https://m.example/m')
    args = {'2020': dict(metaschema_uri=sch.DIALECT['2020']), 'self': dict(metaschema_uri=at)}.get(by, {})
    k, m = s.run(lambda: sch.CAT.create_metaschema(at, URI(CORE), *[URI(URIS[v]) for v in have], **args))
    if by == 'nothing':
        s.check(k == 'exc' and isinstance(m, JschonError), lambda: f'made without a metaschema: {m!r}')
        s.reach('nothing')
        return
    # as its own metaschema it knows no validation keyword, and asserts nothing about one
    fine = body != 'validation' or by == 'self' or n >= 0
    s.check(k == 'ok' if fine else k == 'exc' and isinstance(m, CatalogError), lambda: f'with the metaschema {by}: {m!r}')
    if not fine:
        s.reach('invalid')
        return
    s.check(sch.CAT.get_metaschema(at) is m, 'the metaschema is not found')
    s.check(m.metaschema_uri == (at if by == 'self' else sch.DIALECT['2020']) and (m.metaschema is m) == (by == 'self'), lambda: f'its metaschema is {m.metaschema_uri}')
    s.check(strict(m.value, doc), 'its value')
    eff = {'core': [], 'x': ['x']}.get(own, have)
    r = judged(s, {'$schema': str(at), **value}, x, need in eff, kw, dict(cacheid=here(s), uri=sch.ROOT))
    s.check(iff(r.validate().valid, True), 'the schema is invalid')
    s.check(m.validate().valid, 'the metaschema is invalid')


def apart(s):
    """metaschemas do not affect each other"""
    world(s, m=meta({CORE: True, URIS['x']: True}), o=meta({CORE: True, URIS['y']: True}, 'o'))
    cid = here(s)
    for i in range(3):
        d = s.pick(['m', 'o', '2020'], f'd{i}')
        kw = s.pick(['kwA', 'kwB', 'kwC'], f'kw{i}')
        judged(s, {'$schema': str(sch.DIALECT['2020']) if d == '2020' else 'https://m.example/' + d, kw: 2}, 1, (d, kw) in (('m', 'kwA'), ('o', 'kwB')), kw, dict(cacheid=cid, uri=URI(f'https://example.org/{i}')))


def validates(s):
    """a schema is valid against its own metaschema"""
    v = s.pick([1, 'a', None], 'value')
    n = s.int('n', -1, 1, 0)
    world(s, m={**meta({CORE: True, URIS['x']: True}), 'properties': {'kwA': {'type': 'string'}, 'minLength': True}})
    cid = here(s)
    d = s.pick(['m', '2020', '2019'], 'd')
    r = JSONSchema({'$schema': 'https://m.example/m' if d == 'm' else str(uri_of(d)), 'kwA': v, 'minLength': n}, catalog=sch.CAT, cacheid=cid, uri=sch.ROOT)
    want = isinstance(v, str) if d == 'm' else n >= 0
    s.check(iff(r.validate().valid, want), lambda: f'{r} is {r.validate().valid} by {d}')
    s.check(iff(r.metaschema.evaluate(JSON(r.value)).valid, want), 'as a plain document')


def bad(s):
    """$schema that is no metaschema"""
    t = s.pick(['relative', '/p', '', '#', 'HTTPS://m.example/m', 'https://m.example/a/../m', 'https://m.example/zz', 'https://m.example/plain', 'https://m.example/m#x', 'https://m.example/z'], 'schema')
    world(s, plain={'const': 1})
    c = s.string('c', 1, ranges=((0x61, 0x62),), default='a')
    t = t + c if t == 'https://m.example/z' else t
    where = s.pick(['root', 'sub'], 'where')
    v = {'$schema': t, 'const': 1}
    k, r = s.run(lambda: JSONSchema(v if where == 'root' else {'allOf': [v]}, catalog=sch.CAT, cacheid=here(s), uri=sch.ROOT, metaschema_uri=sch.DIALECT['2020']))
    s.check(k == 'exc' and isinstance(r, JschonError), lambda: f'made with {t}: {r!r}')
    k, r = s.run(lambda: JSONSchema({'const': 1}, catalog=sch.CAT, cacheid=here(s), uri=sch.ROOT))
    s.check(k == 'exc' and isinstance(r, JschonError), lambda: f'made without a metaschema: {r!r}')
    k, r = s.run(sch.CAT.get_vocabulary, URI('https://v.example/' + c))
    s.check(k == 'exc' and isinstance(r, CatalogError), lambda: f'a vocabulary {r!r}')


ALONE = [('u', {'items': True, 'unevaluatedItems': False}, [1]), ('u', {'items': {}, 'unevaluatedItems': False}, [1]), ('u', {'prefixItems': [True], 'unevaluatedItems': False}, [1]),
         ('u', {'contains': True, 'unevaluatedItems': False}, [1]), ('u', {'properties': {'a': True}, 'unevaluatedProperties': False}, {'a': 1}), ('u', {'additionalProperties': True, 'unevaluatedProperties': False}, {'a': 1}),
         ('u', {'patternProperties': {'a': True}, 'unevaluatedProperties': False}, {'a': 1}), ('u', {'allOf': [{'properties': {'a': True}}], 'unevaluatedProperties': False}, {'a': 1}),
         ('v', {'contains': True, 'maxContains': 0}, [1]), ('v', {'contains': True, 'minContains': 2}, [1]), ('v', {'contains': {}, 'maxContains': 0}, [1]), ('c', {'contentMediaType': 'x', 'contentSchema': False}, 'a')]


def alone(s, i):
    """keywords whose companions are not known"""
    v, value, x = ALONE[i]
    world(s, m=meta({CORE: True, URIS[v]: True}), f=meta({CORE: True, URIS[v]: True, URIS['a']: True}, 'f'))
    t = s.pick([value, {'title': 'a', **value}, dict(reversed(value.items()))], 'order')
    d = s.pick(['m', 'f'], 'dialect')
    r = JSONSchema({'$schema': 'https://m.example/' + d, **t}, catalog=sch.CAT, cacheid=here(s), uri=sch.ROOT)
    k, res = s.run(r.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(res).__name__}: {res}')
    # without the companions nothing is evaluated, and there is nothing to count
    want = v in 'vc' if d == 'm' else v in 'uc' and 'contains' not in value or 'unevaluatedItems' in value
    s.check(iff(res.valid, want), lambda: f'{value} is {"valid" if res.valid else "invalid"} for {x} with {d}')
    s.reach(d)


def cases(tier):
    T = tier == 'thorough'
    cs = []
    cs += [Case(f'alone-{i}', alone, i=i, weight=10) for i in range(len(ALONE))]
    for kw, (need, _, _) in PROBES.items():
        for other in 'avxm':
            for unknown in (False, True):
                if other not in need and (T or some(3, kw, other, unknown)):
                    cs.append(Case(f'declared-{kw}-{other}-{unknown}', declared, kw=kw, other=other, unknown=unknown, weight=10 * 3 ** len(need)))
    for n in (0, 3, 7, 9, 10, 11):
        for req in (False, True):
            cs.append(Case(f'vocabulary-{n}-{req}', vocabulary, n=n, required=req, weight=n))
    for d in ('2019', '2020', 'next'):
        for n in range(12):
            for w in ('root', 'allOf', 'ref'):
                if n < 5 or T or some(2, d, n, w):
                    cs.append(Case(f'names-{d}-{n}-{w}', names, dialect=d, n=n, where=w, weight=20 if n < 3 else 4))
    for leaf in LEAVES:
        for p in PUT:
            cs.append(Case(f'levels-{p}-{leaf}', levels, places=(p,), leaf=leaf, weight=30))
            for q in PUT:
                if p != q and (T or some(12, p, q, leaf)):
                    cs.append(Case(f'levels-{p}-{q}-{leaf}', levels, places=(p, q), leaf=leaf, weight=150))
    for leaf in LEAVES:
        for deep in ('flat', 'deep', 'get'):
            if leaf not in ('$dynamicRef', '$recursiveRef'):
                cs.append(Case(f'loaded-{leaf}-{deep}', loaded, leaf=leaf, deep=deep, weight=30))
    cs += [Case(f'refused-{h}', refused, how=h) for h in REFUSED]
    cs += [Case('validity', validity), Case('defaults', defaults, n=0, weight=200), *[Case(f'given-{o}-{b}', given, own=o, by=b, weight=20) for o in ('none', 'id', 'core', 'x') for b in ('schema', '2020', 'self', 'nothing')], Case('apart', apart, weight=200), Case('validates', validates, weight=20), Case('bad', bad, weight=20)]
    return cs
