"""C31: a schema is a JSON document, and every subschema knows where it belongs."""
from jschon import JSON, JSONSchema, URI, JSONPointer
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness import sch, uriref
from harness import c28, c30
from jschon.vocabulary import Keyword
from harness.programs import P, W, wrapped
from harness.c29 import KEYWORDS, VALUES, PLACES, PLACES_D, place, txt
from harness.util import same, clone, some, number, strict, tree_ok, preserve, nodes, is_bool

prepare = sch.prepare
BOUNDS = f'{len(P)} schema programs with symbolic parts, each by itself and reached by {len(W)} routes (quick: a fixed quarter); every keyword, with values ' \
         'of 14 shapes with symbolic numbers, texts and names, in 26 places (a fixed selection); nested resources with symbolic $id segments and ' \
         'names, one with a metaschema of its own; what a keyword constructor is told in the middle of the construction, at 3 levels; before and after evaluation; 2019-09 and 2020-12'


class Doc(c28.Doc):
    """contentSchema: the schema of a text's content, which applies to no instance; kept as a plain value"""

    def kind(self, k, v):
        return 'data' if k == 'contentSchema' else c28.Doc.kind(self, k, v)


def document(s, sc, v, dialect, base='https://example.org/root'):
    """sc is the JSON document v and its subschemas are as they should be"""
    s.check(isinstance(sc, JSONSchema) and isinstance(sc, JSON), 'no schema')
    s.check(same(sc.value, v), lambda: f'the value is {sc.value}, made of {v}')
    tree_ok(s, sc)
    plain = JSON(clone(v))
    s.check((sc == plain) & (plain == sc), 'not equal to the plain document')
    s.check(sc == clone(v), 'not equal to its value')
    s.check(len(sc) == len(v) if isinstance(v, dict) else sc.data is v, 'length')
    s.check(same(JSON.loads(str(sc)).value, v), 'its text is that of another value')
    doc = Doc(s, sc, base, dialect)
    s.assume(doc.distinct())
    ids = {}
    count = 0

    def visit(node, kind, above, spots):
        nonlocal count
        count += 1
        s.check(isinstance(node, JSONSchema) == (kind == 'schema'), lambda: f'{node.path} is {"a" if isinstance(node, JSONSchema) else "no"} schema, in the place of {kind}')
        if kind == 'schema':
            s.check(node.parentschema is above, lambda: f'{node.path}: parentschema is {node.parentschema and node.parentschema.path}')
            s.check(node.document_rootschema is sc, lambda: f'{node.path}: document root')
            h = doc.home[id(node)]
            s.check(node.resource_rootschema is doc.resources[h][1], lambda: f'{node.path}: the resource root is {node.resource_rootschema.path}')
            s.check(uriref.equal(uriref.normal(uriref.parse(str(node.base_uri))), doc.resources[h][0]), lambda: f'{node.path}: base URI {node.base_uri}')
            s.check(node.metaschema_uri is not None and node.catalog is sch.CAT and node.cacheid == sc.cacheid, lambda: f'{node.path}: no metaschema')
            if node.type == 'object':
                s.check(set_eq(list(node.keywords), list(node.data)), lambda: f'{node.path}: keywords {list(node.keywords)}')
                for k, kw in node.keywords.items():
                    s.check(kw.key == k and kw.json is node.data[k] and kw.parentschema is node, lambda: f'{node.path}: keyword {k}')
            above = node
        if node.type == 'object':
            for k, c in node.data.items():
                s.check(c.path == JSONPointer.parse_uri_fragment('')  / list(node.path) / (k,), lambda: f'{c.path} below {node.path}')
                visit(c, doc.kind(k, c) if kind == 'schema' else 'schema' if kind == 'map' else 'data', above, spots)
        elif node.type == 'array':
            for c in node.data:
                visit(c, 'schema' if kind == 'list' else 'data', above, spots)
    visit(sc, 'schema', None, ids)
    s.check(count == sum(1 for _ in nodes(v)), 'nodes are missing')
    s.reach('schema')


def set_eq(a, b):
    return len(a) == len(b) and all_(any_(x == y for y in b) for x in a)


def program(s, program, how=()):
    dialect, value, x = wrapped(s, program, how)
    m = sch.Made(s, clone(value), dialect)
    document(s, m.schema, value, dialect)
    before = m.schema.value
    k, r = s.run(m.schema.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(strict(m.schema.value, before), 'evaluation changes the schema')
    document(s, m.schema, value, dialect)


# shapes that are right for some keyword
SHAPES = ('null', 'flag', 'int', 'real', 'text1', 'text2', 'types', 'list0', 'texts', 'schemas', 'object0', 'schema', 'map', 'maptexts')


def value(s, key, shape, where, d):
    preserve(s, sch.CAT.get_metaschema(sch.DIALECT[d]))
    v = VALUES[shape](s)
    name = txt(s, 'name', 1, '/') if where in ('properties', 'dependent', 'defs', 'definitions', 'dependencies', 'deep') else '~/'
    v = place(where, d)({key: v, 'title': 't'} if key != 'title' else {key: v}, name)
    k, sc = s.run(sch.schema, s, clone(v), d)
    if k == 'exc':
        s.check(isinstance(sc, (TypeError, ValueError)), lambda: f'{type(sc).__name__}: {sc}')
        s.reach('refused')
        return
    # what is no schema, where a schema should be, stays a plain value
    s.check(same(sc.value, v), lambda: f'the value is {sc.value}, made of {v}')
    tree_ok(s, sc)
    s.check((sc == JSON(clone(v))) & (JSON(clone(v)) == sc), 'not equal to the plain document')
    s.check(same(JSON.loads(str(sc)).value, v), 'its text is that of another value')
    odd = False

    def visit(n, kind):
        if kind == 'schema':
            # a schema exactly if it can be one
            s.check(isinstance(n, JSONSchema) == (n.type in ('object', 'boolean')), lambda: f'{n.path} is {"a" if isinstance(n, JSONSchema) else "no"} schema')
        else:
            s.check(not isinstance(n, JSONSchema), lambda: f'{n.path} is a schema')
        if n.type == 'object' and kind != 'list':
            for k, c in n.data.items():
                visit(c, doc_kind(k, c, d) if kind == 'schema' else 'schema' if kind == 'map' else 'data')
        elif n.type == 'array':
            for c in n.data:
                visit(c, 'schema' if kind == 'list' else 'data')
        elif n.type == 'object':
            for c in n.data.values():
                visit(c, 'data')
    visit(sc, 'schema')
    s.reach('made')


def doc_kind(k, v, d):
    class D:
        dialect = d
    if k == 'items' and v.type == 'array' and d != '2019':
        return 'data'
    kind = Doc.kind(D, k, v)
    if kind == 'map' and v.type != 'object' or kind == 'list' and v.type != 'array':
        return 'data'
    return kind


def nested(s, la, lb, d, own, kw):
    """resources in resources, through symbolic names; one with a metaschema of its own"""
    seg = lambda name, default: s.string(name, 1, ranges=((0x30, 0x31), (0x61, 0x62)), default=default)
    k = s.string('k', 1, default='/')
    other = '2019' if d == '2020' else '2020'
    a, b = {'rel': seg('a', 'a') + '/', 'abs': 'https://h.example/' + seg('a', 'a')}[la], {'rel': seg('b', 'b'), 'abs': 'https://h.example/x/' + seg('b', 'b'), 'up': '../' + seg('b', 'b')}[lb]
    inner = {'$id': b, 'items': {'not': {'const': k}}, '$defs': {k: True}}
    if own:
        inner = {**inner, '$schema': str(sch.DIALECT[other])}
    mid = {'$id': a, 'properties': {k: {'allOf': [True, inner]}}, 'if': {'title': 'x'}}
    v = {'$id': 'https://example.org/r/t', **{'items': {'items': mid}, 'not': {'not': mid}, '$defs': {'$defs': {k: mid}}, 'dependentSchemas': {'dependentSchemas': {k: mid, 'z' + k: {}}}}[kw], 'title': 'T'}
    m = sch.Made(s, clone(v), d)
    sc = m.schema
    document(s, sc, v, d, 'https://example.org/r/t')
    for node in every(sc):
        up, want = node, sch.DIALECT[d]
        while up is not None:
            if up.type == 'object' and '$schema' in up.data:
                want = sch.DIALECT[other]
                break
            up = up.parentschema
        s.check(node.metaschema_uri == want and node.metaschema is sch.CAT.get_metaschema(want), lambda: f'{node.path}: metaschema {node.metaschema_uri}, should be {want}')


WRAP = {'items': lambda v, k: {'items': v}, 'not': lambda v, k: {'not': v}, 'allOf': lambda v, k: {'allOf': [True, v]}, 'properties': lambda v, k: {'properties': {k: v, 'z' + k: True}}, '$defs': lambda v, k: {'$defs': {k: v}}}


def early(s, a, b):
    """asked by a keyword's constructor, in the middle of the construction, the relatives of a subschema are those it has in the end"""
    asked = []

    def init(self, parentschema, value):
        asked.append((parentschema, value, parentschema.parentschema, parentschema.document_rootschema, parentschema.resource_rootschema, str(parentschema.base_uri), parentschema.metaschema_uri, parentschema.path))
        Keyword.__init__(self, parentschema, value)
    Spy = type('Spy', (Keyword,), {'key': 'spy', '__init__': init})
    made = c30.dialect(s, [Spy])
    k = s.string('k', 1, default='/')
    seg = s.string('seg', 1, ranges=((0x61, 0x62),), default='a')
    last = s.flag('last')
    v = None
    for i, w in enumerate((None, b, a)):
        here = {'spy': i}
        sub = {} if v is None else WRAP[w](v, k)
        v = {**sub, **here} if last else {**here, **sub}
        n = s.choose(4 if i < 2 else 2, f'id{i}')
        if n:
            first = {'$id': [None, seg + f'/r{i}', f'https://h.example/{i}/', f'd{i}/' + seg][n]}
            v = {**v, **first} if n == 3 else {**first, **v}
    sc = made(v)
    doc = Doc(s, sc, 'https://example.org/custom', '2020')
    s.check(sorted(e[1] for e in asked) == [0, 1, 2], lambda: f'constructed {[e[1] for e in asked]}')
    for node, i, above, droot, rroot, base, mu, path in asked:
        s.check(node.data['spy'].value == i and node.parentschema is above and droot is sc and node.document_rootschema is sc, lambda: f'{node.path}: the document root was {droot.path}')
        h = doc.home[id(node)]
        s.check(rroot is doc.resources[h][1] and node.resource_rootschema is rroot, lambda: f'{node.path}: the resource root was {rroot.path}')
        for u in (base, str(node.base_uri)):
            s.check(uriref.equal(uriref.normal(uriref.parse(u)), doc.resources[h][0]), lambda: f'{node.path}: the base URI was {u}')
        s.check(mu == URI(c30.M) and node.metaschema_uri == mu, 'the metaschema URI')
        s.check(path == node.path, lambda: f'{node.path}: the path was {path}')
    s.reach('made')


def every(node):
    if isinstance(node, JSONSchema):
        yield node
    if node.type in ('object', 'array'):
        for c in (node.data.values() if node.type == 'object' else node.data):
            yield from every(c)


def cases(tier):
    T = tier == 'thorough'
    cs = [Case(f'program-{p}', program, program=p, weight=10) for p in P]
    cs += [Case(f'program-{p}-{w}', program, program=p, how=(w,), weight=12) for p in P for w in W if T or some(4, p, w, 31)]
    cs += [Case(f'early-{a}-{b}', early, a=a, b=b, weight=30) for a in WRAP for b in WRAP]
    for d in ('2020', '2019'):
        for key in KEYWORDS:
            if key == 'pattern':
                continue
            for shape in SHAPES:
                if T or shape in ('schemas', 'map') and some(2, key, shape, d) or some(6, key, shape, d, 31):
                  cs.append(Case(f'key-{key}-{shape}-{d}', value, key=key, shape=shape, where='root', d=d, weight=6))
                for where in list(PLACES) + list(PLACES_D[d]):
                    if where != 'ref' and where != 'resource' and some(8 if T else 240, key, shape, where, d, 31):
                        cs.append(Case(f'place-{where}-{key}-{shape}-{d}', value, key=key, shape=shape, where=where, d=d, weight=6))
        cs += [Case(f'nested-{la}-{lb}-{kw}-{own}-{d}', nested, la=la, lb=lb, d=d, own=own, kw=kw, weight=60) for la in ('rel', 'abs') for lb in ('rel', 'abs', 'up') for kw in ('items', 'not', '$defs', 'dependentSchemas')
               for own in (False, True) if T or some(9, la, lb, kw, own, d)]
    return cs
