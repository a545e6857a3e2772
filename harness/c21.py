"""C21: references."""
from urllib.parse import quote
from jschon import JSON, JSONSchema, URI, JSONPointer
from jschon.catalog import Source
from jschon.exc import JschonError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness import sch, uriref
from harness.c03 import decode_ascii
from harness.c01 import valid as pointer_ok, tokens
from harness.sch import ROOT
from harness.util import some, number, lookup, Missing, is_bool, preserve

prepare = sch.prepare
BOUNDS = 'references by pointer through up to 2 symbolic keys of up to 2 characters (all Unicode scalar values) in 12 places, escaped in 3 ways; ' \
         'every fragment of up to 3 printable ASCII characters after "#/$defs/"; documents of 3 nested resources with symbolic $id segments and ' \
         'anchors, a reference of 40 forms (partly symbolic) in each of 4 places; boolean targets, chains of references, separate documents in ' \
         'one cache and documents loaded from a source; instance values symbolic; 2019-09 and 2020-12'


def escape(s, k, how):
    """the key as a part of a fragment"""
    t = k.replace('~', '~0').replace('/', '~1')
    if how == 'all':
        r = ''
        for c in t:
            for b in quote(c, safe='') if c == '%' or True else c:
                r = r + b
        return quote(t, safe='')
    return quote(t, safe="!$&'()*+,;=:@?" if how == 'least' else '')


C = [{'const': i} for i in range(8)]


def expect(s, made, x, want):
    """the schema evaluates as {const: want} (or as a boolean)"""
    k, r = s.run(lambda: made().evaluate(JSON(x)).valid)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    w = want if is_bool(want) else x == want
    s.check(iff(r, w), lambda: f'{r} for {x}, the target is {want}')
    s.reach('valid' if r else 'invalid')


PLACES = {
    'defs': lambda k, t: ({'$defs': {'z': C[7], k: t}}, ('$defs', k)),
    'properties': lambda k, t: ({'properties': {k: t, 'z': C[7]}}, ('properties', k)),
    'pattern': lambda k, t: ({'patternProperties': {'^z$': C[7]}, 'dependentSchemas': {k: t}}, ('dependentSchemas', k)),
    'items': lambda k, t: ({'$defs': {k: {'items': t}}}, ('$defs', k, 'items')),
    'prefix': lambda k, t: ({'$defs': {k: {'allOf': [True, t, True]}}}, ('$defs', k, 'allOf', '1')),
    'two': lambda k, t: ({'$defs': {k: {'$defs': {k: t, 'z': C[7]}, 'properties': {'q': C[6]}}}}, ('$defs', k, '$defs', k)),
    'through': lambda k, t: ({'$defs': {'a': {'properties': {k: {'$ref': '#/$defs/b', 'not': t}}}, 'b': True}}, ('$defs', 'a', 'properties', k, 'not')),
    'cond': lambda k, t: ({'$defs': {k: {'if': False, 'then': True, 'else': t}}}, ('$defs', k, 'else')),
    'anyof': lambda k, t: ({'anyOf': [{'$defs': {k: C[5]}}, {'$defs': {k: t}, '$anchor': 'here'}]}, ('anyOf', '1', '$defs', k)),
    'names': lambda k, t: ({'propertyNames': {'$defs': {k: t}}}, ('propertyNames', '$defs', k)),
    'content': lambda k, t: ({'$defs': {k: {'contains': t, 'minContains': 0}}}, ('$defs', k, 'contains')),
    'additional': lambda k, t: ({'additionalProperties': {'unevaluatedProperties': {'$defs': {k: t}}}}, ('additionalProperties', 'unevaluatedProperties', '$defs', k)),
}


def by_pointer(s, place, n, how, prefix, dialect):
    k = s.string('k', n, default='é/')
    s.assume(no(k == 'z'))
    x = s.int('x', 0, 9, 5)
    w = s.int('w', 0, 9, 5)
    d, path = PLACES[place](k, {'const': w})
    ref = {'none': '#', 'abs': 'https://example.org/root#', 'rel': 'root#', 'dot': './root#'}[prefix]
    for p in path:
        ref = ref + '/' + escape(s, p, how)
    expect(s, lambda: sch.schema(s, {**d, '$ref': ref}, dialect), x, w)


KEYS = ['a', '', '~', '/', '%', 'é', 'a/b', '0', '~1', '%41', 'A', '~0']


def by_text(s, n, first):
    """somebody else's fragment"""
    f = s.string('f', n, ranges=((0x21, 0x21), (0x24, 0x2f), (0x30, 0x32), (0x37, 0x37), (0x41, 0x46), (0x61, 0x62), (0x7e, 0x7e)), default='%7')
    if first:
        s.assume(f[0] == first)
    x = s.int('x', 0, 20, 5)
    defs = {k: {'const': i} for i, k in enumerate(KEYS)}
    d = {'$ref': '#/$defs/' + f, '$defs': defs}
    # an escape that is no escape is not the business of this property
    esc = 0
    t = '/$defs/' + f
    i = 0
    while i < len(t):
        if t[i] == '%':
            if not (i + 2 < len(t) and all_(any_((c >= lo) & (c <= hi) for lo, hi in (('0', '9'), ('A', 'F'), ('a', 'f'))) for c in t[i + 1:i + 3])):
                return
        i += 1
    want = decode_ascii(t)
    if want is None:
        return
    target = None
    if pointer_ok(want):
        try:
            target = lookup(d, tokens(want))
        except Missing:
            target = None
    if target is None or not isinstance(target, dict) or 'const' not in target:
        if target is defs:
            return
        k, e = s.run(sch.schema, s, d)
        s.check(k == 'exc' and isinstance(e, JschonError), lambda: f'a reference to nothing gives {e!r}')
        s.reach('refused')
    else:
        expect(s, lambda: sch.schema(s, d), x, target['const'])


# ---- nested resources
def document(s, la, lb, mode, fixed=False):
    """resources R > A > B and (outside A) D; every subschema that a reference may name has a const of its own"""
    seg = ((0x2d, 0x2e), (0x30, 0x31), (0x61, 0x62))
    free = lambda name, n, ranges, default: default if fixed else s.string(name, n, ranges=ranges, default=default)
    ids = {'A': {'rel': lambda: free('a', 1, seg, 'a'), 'dir': lambda: free('a', 1, seg, 'a') + '/', 'abs': lambda: 'https://h.example/' + free('a', 1, seg, 'a'),
                 'up': lambda: '../' + free('a', 1, seg, 'a') + '/i', 'root': lambda: '/x/' + free('a', 1, seg, 'a'), 'query': lambda: '?' + free('a', 1, seg, 'a'),
                 'hash': lambda: 'h#', 'urn': lambda: 'urn:x:' + free('a', 1, ((0x61, 0x62),), 'a')}[la](),
           'B': {'rel': lambda: free('b', 1, seg, 'b'), 'dir': lambda: 'q/' + free('b', 1, seg, 'b'), 'abs': lambda: 'https://h.example/' + free('b', 1, seg, 'b'),
                 'up': lambda: '../' + free('b', 1, seg, 'b'), 'none': lambda: None}[lb]()}
    b = {'$anchor': 'n', 'const': 2, '$defs': {'y': {'$anchor': 'm', 'const': 5}}}
    if ids['B'] is not None:
        b = {'$id': ids['B'], **b}
    else:
        del b['$anchor']
    a = {'$anchor': 'n', 'const': 1, '$defs': {'b': b, 'y': {'const': 4, '$anchor': 'k'}}}
    a = {'$id': ids['A'], **a} if mode != 'idlast' else {**a, '$id': ids['A']}
    doc = {'$defs': {'a': a, 'y': {'const': 3, '$anchor': 'm'}, 'r': {'$anchor': 'n', 'const': 0}}}
    if mode == 'rootid':
        doc = {'$id': 'https://example.org/d/root', **doc}
    return doc, ids


class Res:
    """the resources of a document as the specification has them"""

    def __init__(self, doc, base):
        self.roots, self.anchors, self.places = [], [], []
        self.scan(doc, uriref.parse(base), ())

    def scan(self, d, base, at):
        if '$id' in d:
            base = uriref.normal(uriref.resolve(uriref.parse(d['$id']), base))
            base[4] = None
        if '$id' in d or not at:
            self.roots.append((base, d, at))
        self.places.append((d, base, at))
        for key in ('$anchor', '$dynamicAnchor'):
            if key in d:
                self.anchors.append((base, d[key], d))
        for k, x in d.get('$defs', {}).items():
            self.scan(x, base, at + ('$defs', k))

    def base_of(self, d):
        return [b for e, b, _ in self.places if e is d][0]

    def clash(self):
        return any_(uriref.equal(self.roots[i][0], self.roots[j][0]) for i in range(len(self.roots)) for j in range(i))

    def find(self, uri):
        frag, root = uri[4], None
        for b, d, _ in self.roots:
            if uriref.equal(b, uri[:4] + [None]):
                root = d, b
                break
        if root is None:
            return None
        if frag is None or frag == '':
            return root[0]
        if not frag.startswith('/'):
            for b, n, d in self.anchors:
                if n == frag and uriref.equal(b, root[1]):
                    return d
            return None
        try:
            t = lookup(root[0], tokens(frag))
        except Missing:
            return None
        return t if isinstance(t, dict) else None


REFS = ['#', '#n', '#m', '#k', '#/$defs/y', '#/$defs/a', '#/$defs/b', '#/$defs/a/$defs/b', '#/$defs/b/$defs/y', '#/$defs/a/$defs/y', '#q', '#/$defs/zz', 'root#/$defs/y', '/x/a#m', 'https://example.org/root#n',
        '{1}', '{1}#n', '{1}#m', '{1}#/$defs/y', '{1}#/$defs/b', '{1}#k', '../{1}', '../{1}#n', './{1}#m', '{1}/{1}', 'q/{1}#n', 'https://h.example/{1}', 'https://h.example/{1}#n', 'https://h.example/{1}#/$defs/y', '/{1}', '/x/{1}#n',
        '?{1}', '?{1}#m', 'urn:x:{1}', 'urn:x:{1}#n', 'h', 'h#', 'h#n', '', '/d/root#m']


def nested(s, la, lb, mode, place, ref, dialect):
    doc, ids = document(s, la, lb, mode)
    text = ''
    for i, c in enumerate(ref.split('{1}')):
        text = text + (s.string(f'r{i}', 1, ranges=((0x2d, 0x2e), (0x30, 0x31), (0x61, 0x62)), default='a') if i else '') + c
    spot = {'root': doc, 'a': doc['$defs']['a'], 'b': doc['$defs']['a']['$defs']['b'], 'y': doc['$defs']['a']['$defs']['y']}[place]
    # the schema that refers; a member of its own, so that its target is evaluated and nothing else
    spot.setdefault('$defs', {})['from'] = {'$ref': text, '$anchor': 'from'}
    res = Res(doc, 'https://example.org/root')
    s.assume(no(res.clash()))
    base = res.base_of(spot)
    if base[0] == 'urn' and not (text.startswith('#') or text.startswith('urn:') or text.startswith('https:')) or base[0] == 'urn' and spot is doc['$defs']['a']['$defs'].get('b'):
        return            # no resolution against such a base
    if base[0] == 'urn' and (ids['B'] is not None and not ids['B'].startswith('https:')):
        return
    if any_(b[0] == 'urn' and i is not None and not i.startswith('https:') for b, i in ((res.base_of(doc['$defs']['a']), ids['B']),)):
        return
    target = res.find(uriref.resolve(uriref.parse(text), base))
    made = lambda: sch.schema(s, doc, dialect)
    if target is None:
        k, e = s.run(made)
        s.check(k == 'exc' and isinstance(e, JschonError), lambda: f'the reference {text!r} to nothing gives {e!r}')
        s.reach('refused')
        return
    if '$ref' in target:
        return
    x = s.int('x', 0, 9, 5)
    at = [a for d, _, a in res.places if d is spot][0]

    def run():
        node = made()
        for k in at + ('$defs', 'from'):
            node = node[k]
        return node
    expect(s, run, x, target['const'] if 'const' in target else True)


def canonical(s, la, lb, mode, n):
    """every subschema has a canonical URI, by which the catalog returns it"""
    doc, ids = document(s, la, lb, mode, n > 0)
    k = s.string('k', n, default='é/~%'[:n]) if n else '"~1/%é'
    j = s.string('j', 1, default='"') if n != 2 else '%2f'
    doc['properties'] = {k: {'items': {'not': True}, 'allOf': [False, {'$defs': {j: C[1]}}]}}
    doc['$defs']['a']['$defs'][k] = {'const': 6, 'additionalProperties': {'$anchor': 'deep', 'dependentSchemas': {j: C[3]}}}
    res = Res(doc, 'https://example.org/root')
    s.assume(no(res.clash()))
    if any_(b[0] == 'urn' and i is not None and not i.startswith('https:') for b, i in ((res.base_of(doc['$defs']['a']), ids['B']),)):
        return
    m = sch.Made(s, doc)
    seen = []

    def walk(node):
        if isinstance(node, JSONSchema):
            seen.append(node)
        if node.type == 'array':
            for c in node.data:
                walk(c)
        elif node.type == 'object':
            for c in node.data.values():
                walk(c)
    walk(m.schema)
    s.check(len(seen) >= 13, 'subschemas are not schemas')
    for node in seen:
        u = node.canonical_uri
        s.check(u is not None and u.scheme is not None, lambda: f'no canonical URI for {node.path}')
        got = sch.CAT.get_schema(u, cacheid=m.cacheid)
        s.check(got is node, lambda: f'{u}, the canonical URI of {node.path}, gives {got.path}')
        # written down and read again
        s.check(sch.CAT.get_schema(URI(str(u)), cacheid=m.cacheid) is node, lambda: f'{u} as a text gives another schema')
        want = uriref.parse(str(u))
        base = [b for b, d, at in sorted(res.roots, key=lambda r: -len(r[2])) if eq_(list(node.path)[:len(at)], list(at))][0]
        s.check(uriref.equal(uriref.normal(want)[:4], base[:4]), lambda: f'{u} is not below {base}')
        s.check(node.base_uri == URI(uriref.unparse(base)), 'base_uri')


def boolean(s, n, dialect):
    k = s.string('k', n, default='ab')
    t = s.pick([True, False, {}, {'not': {}}], 'target')
    ref = '#/$defs/' + escape(s, k, 'least')
    form = s.pick(['ref', 'not', 'items', 'chain', 'both'], 'form')
    d = {'ref': lambda: {'$ref': ref}, 'not': lambda: {'not': {'$ref': ref}}, 'items': lambda: {'items': {'$ref': ref}}, 'chain': lambda: {'allOf': [{'$ref': '#/allOf/1'}, {'$ref': ref}]},
         'both': lambda: {'anyOf': [{'$ref': ref}, {'$ref': '#/$defs/q'}]}}[form]()
    d['$defs'] = {'q': {'const': 7}, k: t}
    s.assume(no(k == 'q'))
    x = s.int('x', 0, 9, 5)
    b = t is True or t == {}
    want = {'ref': b, 'not': not b, 'items': True, 'chain': b, 'both': b | (x == 7)}[form]
    expect(s, lambda: sch.schema(s, d, dialect), x, True if want is True else False if want is False else 7)


def chain(s, order, dialect):
    """references to references, siblings of a reference, loops that end with the instance"""
    x = s.int('x', 0, 9, 5)
    w = s.int('w', 0, 9, 5)
    c = s.int('c', 0, 9, 7)
    defs = {'a': {'$ref': '#/$defs/b', 'maximum': c}, 'b': {'$ref': '#three'}, 'c': {'$anchor': 'three', 'minimum': w}}
    d = {'$ref': '#/$defs/a', 'not': {'const': 5}, '$defs': {k: defs[k] for k in order}}
    k, r = s.run(sch.valid, s, d, x, dialect)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(iff(r, (x >= w) & (x <= c) & no(x == 5)), lambda: f'chain: {r} for {x}')
    tree = {'type': ['object', 'integer'], 'maximum': c, 'additionalProperties': {'$ref': '#'}}
    key = s.string('k', 1, default='k')
    k, r = s.run(sch.valid, s, tree, {key: {'a': x, key + 'b': {}}}, dialect)
    s.check(k == 'ok' and iff(r, x <= c), lambda: f'recursion: {r}')
    lst = {'$defs': {'node': {'anyOf': [{'type': 'integer', 'maximum': c}, {'type': 'array', 'items': {'$ref': '#/$defs/node'}}]}}, '$ref': '#/$defs/node'}
    k, r = s.run(sch.valid, s, lst, [[x], 0, [[w, []]]], dialect)
    s.check(k == 'ok' and iff(r, (x <= c) & (w <= c)), lambda: f'list: {r}')


class Memory(Source):
    def __init__(self, docs):
        super().__init__()
        self.docs = docs
        self.calls = []

    def __call__(self, relative_path):
        self.calls.append(relative_path)
        for k, v in self.docs.items():
            if k == relative_path:
                return v
        raise OSError(f'no {relative_path!s}')


def documents(s, how, dialect):
    """schemas made apart in one cache, and schemas loaded from a source"""
    x = s.int('x', 0, 9, 5)
    key = s.string('k', 1, default='é')
    seg = s.string('p', 1, ranges=((0x30, 0x31), (0x61, 0x62)), default='a')
    other = {'$defs': {key: {'const': 1}, 'n': {'$anchor': 'n', 'const': 2}, 'back': {'$ref': '../root'}}, 'const': 3}
    sub = s.pick(['', '#', '#n', '#/$defs/' + escape(s, key, 'least'), '#/$defs/zz', '#zz'], 'fragment') if how != 'missing' else '#n'
    s.assume(no(any_(key == q for q in ('n', 'back'))))
    ref = s.pick(['o/', './o/', 'https://example.org/o/'], 'form') + seg + sub
    at = 'https://example.org/o/a'
    want = None if no(seg == 'a') or sub in ('#/$defs/zz', '#zz') else {'': 3, '#': 3, '#n': 2}.get(sub if type(sub) is str else '?', 1)
    if how == 'same':
        del other['$defs']['back']
        m = sch.Made(s, other, dialect, URI(at))
        made = lambda: JSONSchema({'$ref': ref}, catalog=sch.CAT, cacheid=m.cacheid, metaschema_uri=sch.DIALECT[dialect], uri=ROOT)
    else:
        preserve(s, sch.CAT)
        mem = Memory({'a': {'$id': at, **other} if how == 'sourceid' else other} if how != 'missing' else {})
        sch.CAT.add_uri_source(URI('https://example.org/o/'), mem)
        if how == 'missing':
            want = None
        made = lambda: sch.schema(s, {'$ref': ref, '$defs': {'again': {'$ref': ref}, 'other': {'$ref': ref}}}, dialect)
    if want is None:
        k, e = s.run(made)
        s.check(k == 'exc' and isinstance(e, JschonError), lambda: f'the reference {ref} to nothing gives {e!r}')
        s.reach('refused')
        return
    expect(s, made, x, want)
    if how.startswith('source'):
        s.check(len(mem.calls) == 1, lambda: f'loaded {len(mem.calls)} times')


def where(s, dialect):
    """a reference is resolved against the base URI in force where it stands, whatever contains it"""
    x = s.int('x', 0, 9, 5)
    kw = s.pick(['properties', 'allOf', 'items', 'not', 'if', 'dependentSchemas', '$defs', 'then'], 'kw')
    inner = {'$id': 'inner/', '$ref': 'leaf', '$defs': {'l': {'$id': 'leaf', 'const': 1}}}
    d = {'properties': {'properties': {'a': inner}}, 'allOf': {'allOf': [inner]}, 'items': {'items': inner}, 'not': {'not': {'not': inner}}, 'if': {'if': inner, 'then': True, 'else': False},
         'dependentSchemas': {'dependentSchemas': {'a': inner}}, '$defs': {'$defs': {'i': inner}, '$ref': 'inner/'}, 'then': {'if': True, 'then': inner}}[kw]
    d['$defs'] = {**d.get('$defs', {}), 'l': {'$id': 'leaf', 'const': 2}}
    v = {'properties': {'a': x}, 'items': [x]}.get(kw, x)
    if kw == 'dependentSchemas':
        inner['$ref'] = 'leaf2'
        inner['$defs']['l'] = {'$id': 'leaf2', 'properties': {'a': {'const': 1}}}
        v = {'a': x}
    k, r = s.run(sch.valid, s, d, v, dialect)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(iff(r, x == 1), lambda: f'{kw}: {r} for {x}')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for place in PLACES:
        for n in (0, 1, 2):
            for how in ('quote', 'least', 'all'):
                for prefix in ('none', 'abs', 'rel', 'dot'):
                    if T or some(12 if n == 2 else 3, place, n, how, prefix) or (prefix == 'none' and how == 'least' and n < 2):
                        cs.append(Case(f'pointer-{place}-{n}-{how}-{prefix}', by_pointer, place=place, n=n, how=how, prefix=prefix, dialect=('2020', '2019')[number(place, n, how) % 2], weight=4 ** n))
    cs += [Case(f'text-{n}', by_text, n=n, first=None, weight=10 ** n) for n in (0, 1, 2)]
    cs += [Case(f'text-3-{c}', by_text, n=3, first=c, weight=400) for c in '%~' + ('a/0' if T else '')]
    for la in ('rel', 'dir', 'abs', 'up', 'root', 'query', 'hash', 'urn'):
        for lb in ('rel', 'dir', 'abs', 'up', 'none'):
            for mode in ('plain', 'rootid', 'idlast'):
                if mode == 'idlast' and not (T or some(3, la, lb)):
                    continue
                if T or some(3, la, lb, mode):
                    cs.append(Case(f'canonical-{la}-{lb}-{mode}', canonical, la=la, lb=lb, mode=mode, n=number(la, lb) % 3, weight=60))
                for place in ('root', 'a', 'b', 'y'):
                    for ref in REFS:
                        if some(4 if T else 40, la, lb, mode, place, ref):
                            cs.append(Case(f'nested-{la}-{lb}-{mode}-{place}-{ref}', nested, la=la, lb=lb, mode=mode, place=place, ref=ref, dialect=('2020', '2019')[number(la, lb, ref) % 2], weight=8))
    cs += [Case(f'boolean-{n}-{d}', boolean, n=n, dialect=d, weight=10) for n in (0, 1, 2) for d in ('2020', '2019')]
    cs += [Case(f'chain-{o}-{d}', chain, order=o, dialect=d, weight=20) for o in ('abc', 'cba', 'bca') for d in ('2020', '2019')]
    cs += [Case(f'documents-{h}-{d}', documents, how=h, dialect=d, weight=30) for h in ('same', 'source', 'sourceid', 'missing') for d in ('2020', '2019')]
    cs += [Case(f'where-{d}', where, dialect=d) for d in ('2020', '2019')]
    return cs
