"""C28: results locate keywords and instance values."""
from jschon import JSON, JSONSchema, URI
from symex.runner import Case
from symex.session import no, all_, any_, eq_
from harness import sch, schref, uriref
from harness.c21 import escape
from harness.c01 import tokens
from urllib.parse import unquote
from harness.programs import P, W, wrapped
from harness.util import clone, some, number, preserve

prepare = sch.prepare
BOUNDS = f'{len(P)} schema programs covering every keyword and every kind of nesting, with symbolic instance values and partly symbolic names, each by ' \
         f'itself and reached by {len(W)} routes (quick: a fixed sixth); 12 schemas with symbolic names of up to 2 characters (all Unicode scalar values; quick: names of two of 8 characters) as ' \
         'keys of the schema, of the instance and of pattern, among them any percent sequence and tilde sequence, in embedded resources with symbolic $id segments, through references, dynamic references ' \
         'and chains of them; every node of the result tree and every unit of the verbose and basic output; with and without a base URI; 2019-09 and 2020-12'
BASE = 'https://example.org/root'


class Spot:
    """a place in the schema document: node is the JSON node; kind: schema | map | list | data; scope: the resources entered on the way"""

    def __init__(self, node, kind, home, scope):
        self.node, self.kind, self.home, self.scope = node, kind, home, scope


class Doc:
    """a schema document as the specification has it: every subschema, its resource"""

    def __init__(self, s, root, base, dialect):
        self.s, self.dialect, self.root = s, dialect, root
        self.resources = []     # (base, node)
        self.anchors = []       # (index of the resource, name, node, dynamic)
        self.home = {}          # id(node) -> index of the resource
        self.scan(root, uriref.parse(base), None)

    def scan(self, node, base, home):
        d = node.data if node.type == 'object' else {}
        if '$id' in d or home is None:
            if '$id' in d:
                base = uriref.normal(uriref.resolve(uriref.parse(d['$id'].value), base))
                base[4] = None
            home = len(self.resources)
            self.resources.append((base, node))
        self.home[id(node)] = home
        for key in ('$anchor', '$dynamicAnchor'):
            if key in d:
                self.anchors.append((home, d[key].value, node, key == '$dynamicAnchor'))
        for x in self.subschemas(node):
            self.scan(x, base, home)

    def subschemas(self, node):
        for k, v in (node.data if node.type == 'object' else {}).items():
            kind = self.kind(k, v)
            if kind == 'schema':
                yield v
            elif kind == 'list':
                yield from v.data
            elif kind == 'map':
                yield from v.data.values()

    def kind(self, k, v):
        """of a keyword's value"""
        if k == 'prefixItems' and self.dialect == '2019' or k == 'additionalItems' and self.dialect != '2019':
            return 'data'
        if any(k == q for q in schref.Docs.LIST) or k == 'items' and v.type == 'array':
            return 'list'
        if any(k == q for q in schref.Docs.MAP):
            return 'map'
        if any(k == q for q in schref.Docs.ONE + ('contentSchema',)):
            return 'schema'
        return 'data'

    def distinct(self):
        return all_(no(uriref.equal(self.resources[i][0], self.resources[j][0])) for i in range(len(self.resources)) for j in range(i))

    def at(self, node, scope=()):
        """-> the Spot of a subschema, entered with this dynamic scope"""
        h = self.home[id(node)]
        return Spot(node, 'schema', h, scope if scope and scope[-1] == h else scope + (h,))

    def find(self, uri):
        """node | None"""
        frag = uri[4]
        for h, (b, root) in enumerate(self.resources):
            if uriref.equal(b, uriref.normal(uri)[:4] + [None]):
                break
        else:
            return None
        if frag is None or frag == '':
            return root
        if not frag.startswith('/'):
            for i, n, node, _ in self.anchors:
                if i == h and n == frag:
                    return node
            return None
        text = unquote(frag)
        node = root
        for t in tokens(text):
            node = child(node, t)
            if node is None:
                return None
        return node

    def target(self, spot, key):
        """the subschema a reference leads to"""
        text = spot.node.data[key].value
        base = self.resources[spot.home][0]
        node = self.find(uriref.resolve(uriref.parse(text), base))
        if key == '$dynamicRef':
            hit = [n for h, n, t, dyn in self.anchors if dyn and t is node and text.endswith('#' + n)]
            if hit:
                for h in spot.scope:
                    for i, n, t, dyn in self.anchors:
                        if dyn and i == h and n == hit[0]:
                            return t
        if key == '$recursiveRef' and recursive(node):
            for h in spot.scope:
                if recursive(self.resources[h][1]):
                    return self.resources[h][1]
        return node

    def follow(self, path):
        """-> (Spot at the end of a keyword path, the reference keyword the path ends with if it does)"""
        spot, through = self.at(self.root), None
        for t in path:
            if through:
                spot, through = self.at(self.target(spot, through), spot.scope), None
            if spot.kind == 'schema' and spot.node.type == 'object' and any(t == r for r in self.refs()):
                if t not in spot.node.data:
                    return None, None
                through = str(t)
                continue
            nxt = child(spot.node, t)
            if nxt is None:
                return None, None
            kind = {'schema': lambda: self.kind(t, nxt), 'map': lambda: 'schema', 'list': lambda: 'schema', 'data': lambda: 'data'}[spot.kind]()
            spot = self.at(nxt, spot.scope) if kind == 'schema' else Spot(nxt, kind, spot.home, spot.scope)
        return spot, through

    def refs(self):
        return ('$ref', '$recursiveRef') if self.dialect == '2019' else ('$ref', '$dynamicRef')


def recursive(node):
    return node.type == 'object' and '$recursiveAnchor' in node.data and node.data['$recursiveAnchor'].value is True


def child(node, t):
    if node.type == 'object':
        for k, v in node.data.items():
            if k == t:
                return v
        return None
    if node.type == 'array':
        for i, v in enumerate(node.data):
            if t == str(i):
                return v
    return None


def value_at(j, path):
    for t in path:
        j = child(j, t)
        if j is None:
            return None
    return j


def walk(r):
    yield r
    for c in r.children.values():
        yield from walk(c)


def units(u):
    if 'instanceLocation' in u:
        yield u
    for k in ('annotations', 'errors'):
        for v in u.get(k, []):
            yield from units(v)


def absolute(s, doc, uri, want, keep, what):
    """a text that names the node `want`"""
    s.check(uri is not None, lambda: f'no absolute location for {what}')
    text = str(uri)
    for t in keep.setdefault(id(want), []):
        if len(t) == len(text) and t == text:
            return
    p = uriref.parse(text)
    s.check(p[0] is not None, lambda: f'{text} is not absolute')
    got = doc.find(p)
    s.check(got is want, lambda: f'the absolute location {text} of {what} leads to {None if got is None else got.path}, should be {want.path}')
    keep[id(want)].append(text)


def check(s, m, x, dialect, base=None, formats=('verbose', 'basic', 'detailed')):
    """every location in the result of evaluating x"""
    base = BASE if base is None else base
    doc = Doc(s, m.schema, base, dialect)
    s.assume(doc.distinct())
    inst = JSON(clone(x))
    k, r = s.run(m.schema.evaluate, inst)
    s.check(k == 'ok', lambda: f'evaluation raises {type(r).__name__}: {r}')
    keep, count = {}, 0
    for n in walk(r):
        count += 1
        path = list(n.path)
        spot, ref = doc.follow(path)
        s.check(spot is not None, lambda: f'the keyword path {path} leads nowhere')
        node = spot.node.data[ref] if ref else spot.node
        named = any_(t == 'propertyNames' for t in path)
        s.check(n.schema_node is node, lambda: f'at {path}: the schema node is {n.schema_node.path}, should be {node.path}')
        at = value_at(inst, list(n.instance.path))
        s.check(at is not None, lambda: f'at {path}: the instance location {n.instance.path} leads nowhere')
        if named:
            s.check(at is n.instance or n.instance.type == 'string' and n.instance.value == list(n.instance.path)[-1], lambda: f'at {path}: {n.instance.path} is not the member of the name')
        else:
            s.check(at is n.instance, lambda: f'at {path}: {n.instance.path} is another value')
        if n.parent is not None:
            s.check(eq_(path[:-1], list(n.parent.path)) and path[-1] == n.key, lambda: f'the path {path} is not below {n.parent.path}')
            a, b = list(n.instance.path), list(n.parent.instance.path)
            s.check(eq_(a[:len(b)], b), lambda: f'at {path}: the instance location {a} is not below {b}')
            s.check(len(a) <= len(b) + 1, lambda: f'at {path}: the instance location {a}, below {b}')
        want = doc.target(spot, ref) if ref else node
        u = n.absolute_uri
        absolute(s, doc, u, want, keep, path)
        if isinstance(want, JSONSchema):
            got = sch.CAT.get_schema(u, cacheid=m.cacheid)
            s.check(got is want, lambda: f'at {path}: the catalog has {got.path} for {u}')
    for fmt in formats:
        for u in units(r.output(fmt)):
            count += 1
            path = tokens(u['keywordLocation'])
            spot, ref = doc.follow(path)
            s.check(spot is not None, lambda: f'{fmt}: the keyword location {u["keywordLocation"]} leads nowhere')
            ip = tokens(u['instanceLocation'])
            s.check(value_at(inst, ip) is not None, lambda: f'{fmt}: the instance location {u["instanceLocation"]} leads nowhere')
            absolute(s, doc, u.get('absoluteKeywordLocation'), doc.target(spot, ref) if ref else spot.node, keep, u['keywordLocation'])
    s.check(count >= 2, 'no results')
    s.reach('valid' if r.valid else 'invalid')


def one(s, program, how=()):
    dialect, value, x = wrapped(s, program, how)
    check(s, sch.Made(s, value, dialect), x, dialect)


def nouri(s, program):
    """a schema that is given no URI"""
    dialect, value, x = wrapped(s, program)
    m = sch.Made(s, value, dialect, None)
    check(s, m, x, dialect, str(m.schema.canonical_uri))


F = {'minimum': 4, 'title': 'F'}
G = {'const': 5}


def keyed(s, form, n, dialect, free=True):
    full = {} if free else {'ranges': ((0x24, 0x25), (0x2f, 0x30), (0x7e, 0x7f), (0xe9, 0xe9))}
    if n == 'hex':
        k = s.pick(['%', '%2', '~%'], 'lead') + s.string('k', 2, default='41', ranges=((0x30, 0x32), (0x41, 0x42), (0x61, 0x61)))
    elif n == 'tilde':
        k = '~' + s.string('k', 1, default='1', ranges=((0x2f, 0x31), (0x7e, 0x7e))) + s.pick(['', '~', '#', '?', '%25'], 'tail')
    else:
        k = s.string('k', n, default='é/~%'[:n], **full)
    j = s.string('j', 1, default='"') if free else '"'
    s.assume(no(k == j))
    x, y = s.int('x', 0, 9, 5), s.int('y', 0, 9, 5)
    ref = '/' + escape(s, k, 'least')
    seg = s.string('i', 1, ranges=((0x30, 0x31), (0x61, 0x62)), default='a')
    s.assume(no(any_(t == q for t in (k, j) for q in ('p', 'q', '$ref'))))
    d, v = {
        'properties': lambda: ({'properties': {k: F, j: {'properties': {k: G, j: False}}}}, {k: x, j: {k: y}}),
        'additional': lambda: ({'properties': {j: F}, 'additionalProperties': {'anyOf': [F, G]}}, {k: x, j: y}),
        'dependent': lambda: ({'dependentSchemas': {k: {'properties': {k: F}}, j: {'required': ['p']}}, 'dependentRequired': {k: [j], j: ['p']}}, {k: x, j: y}),
        'unevaluated': lambda: ({'allOf': [{'properties': {k: F}}], 'unevaluatedProperties': {'if': G, 'then': F, 'else': {'maximum': 3}}}, {k: x, j: y}),
        'names': lambda: ({'properties': {'p': {'propertyNames': {'maxLength': 1, 'not': {'const': j}}}}}, {'p': {k: x, j: y}}),
        'defs': lambda: ({'properties': {'p': {'$ref': '#/$defs' + ref, 'title': 'p'}}, '$defs': {k: {'allOf': [F, {'$ref': '#/$defs/' + escape(s, j, 'quote')}]}, j: G}}, {'p': x}),
        'id': lambda: ({'properties': {k: {'$id': seg, 'properties': {j: F, k: {'$ref': '#/properties/' + escape(s, j, 'quote')}}}}}, {k: {j: x, k: y}}),
        'ids': lambda: ({'$id': 'https://example.org/d/' + seg + '/', 'allOf': [{'$ref': 'in#here'}, {'$ref': '#/$defs' + ref + '/properties/p'}],
                         '$defs': {k: {'$id': 'in', '$anchor': 'here', 'properties': {'p': F, k: {'$ref': '../' + seg + '/in#/properties/p'}}}}}, {'p': x, k: y}),
        'array': lambda: ({'properties': {k: {'items': {'properties': {k: F}}, 'contains': {'required': [j], 'properties': {j: G}}}}}, {k: [{k: x}, {j: y}]}),
        'keyword': lambda: ({'properties': {'properties': {'properties': {'items': F, '$ref': G, k: {'items': F}}}, 'not': {'not': F}}}, {'properties': {'items': x, '$ref': y, k: [x]}, 'not': y}),
        'unknown': lambda: ({'a' + k + j: {'a': [1, {'b': 2}]}, 'properties': {k: {'a' + j: F}}}, {k: x}),
        'chain': lambda: ({'$ref': '#/$defs/a', '$defs': {'a': {'$ref': '#/$defs/b', 'title': 'a'}, 'b': {'$ref': '#' + '/$defs' + ref}, k: {'$anchor': 'c', 'additionalProperties': F}}}, {k: x, j: y}),
    }[form]()
    if form == 'unknown' and any_(('a' + k + j) == q for q in ('allOf', 'anyOf')):
        return
    preserve(s, sch.CAT.get_metaschema(sch.DIALECT[dialect]))
    check(s, sch.Made(s, d, dialect), v, dialect, formats=('verbose',))


def dynamic(s, how, dialect):
    seg = s.string('i', 1, ranges=((0x30, 0x31), (0x61, 0x62)), default='a')
    x, y = s.int('x', 0, 9, 5), s.int('y', 0, 9, 5)
    k = s.string('k', 1, default='/')
    s.assume(no(any_(k == q for q in ('b', 'v'))))
    dyn, ref = ({'$dynamicAnchor': 'n'}, {'$dynamicRef': '#n'}) if dialect == '2020' else ({'$recursiveAnchor': True}, {'$recursiveRef': '#'})
    base = {'$id': 'base/' + seg, **dyn, 'properties': {'v': F, k: {'items': ref}}}
    if how == 'static':
        for q in dyn:
            del base[q]
        if dialect == '2020':
            base['$anchor'] = 'n'
    ext = {'$id': 'https://example.org/ext/', **dyn, '$ref': 'base/' + seg, 'properties': {'v': G}, '$defs': {'b': base}}
    if how == 'middle':
        ext['$ref'] = 'mid'
        ext['$defs']['m'] = {'$id': 'mid', **dyn, '$ref': 'base/' + seg, 'required': ['v']}
    if how == 'inner':
        ext = {'$id': 'https://example.org/ext/', 'properties': {'v': G, k: {'contains': {'$ref': 'base/' + seg}}}, '$defs': {'b': base}}
    check(s, sch.Made(s, ext, dialect), {'v': x, k: [{'v': y, k: [{'v': x}]}]}, dialect, formats=('basic',))


def pointer(s, dialect):
    """keyword paths with the names of reference keywords where they are none"""
    k = s.pick(['$ref', '$dynamicRef', '$recursiveRef', '$id', '$anchor', '$defs', 'if', 'items', ''], 'k')
    x = s.int('x', 0, 9, 5)
    d = {'properties': {k: F, 'a': {'$ref': '#/properties/' + k}}, 'patternProperties': {'.': {'$ref': '#/$defs/' + k}}, 'dependentSchemas': {k: {'minProperties': 2}}, '$defs': {k: {'maximum': 6}}}
    check(s, sch.Made(s, d, dialect), {k: x, 'a': x}, dialect)


def cases(tier):
    T = tier == 'thorough'
    cs = [Case(f'program-{p}', one, program=p, weight=10) for p in P]
    cs += [Case(f'program-{p}-{w}', one, program=p, how=(w,), weight=12) for p in P for w in W if T or some(6, p, w)]
    cs += [Case(f'program-{p}-{w}-{u}', one, program=p, how=(w, u), weight=15) for p in P for w in W for u in W if some(3 if T else 100, p, w, u)]
    cs += [Case(f'nouri-{p}', nouri, program=p, weight=10) for p in P if p != 'refs']
    for form in ('properties', 'additional', 'dependent', 'unevaluated', 'names', 'defs', 'id', 'ids', 'array', 'keyword', 'unknown', 'chain'):
        for n in (0, 1, 2):
            for d in ('2020', '2019'):
                if T or n == 1 or number(form, n) % 2 == (d == '2020'):
                    cs.append(Case(f'keys-{form}-{n}-{d}', keyed, form=form, n=n, dialect=d, free=T or n < 2, weight=20 * 3 ** n))
        for n in ('hex', 'tilde'):
            for d in ('2020', '2019'):
                if T or number(form, n) % 3 == ('2019', '2020').index(d):
                    cs.append(Case(f'keys-{form}-{n}-{d}', keyed, form=form, n=n, dialect=d, weight=60))
    cs += [Case(f'dynamic-{h}-{d}', dynamic, how=h, dialect=d, weight=40) for h in ('outer', 'static', 'middle', 'inner') for d in ('2020', '2019')]
    cs += [Case(f'pointer-{d}', pointer, dialect=d, weight=30) for d in ('2020', '2019')]
    return cs
