"""C24: schema caches."""
import uuid
from itertools import product
from jschon import JSON, Catalog, JSONSchema, URI
from jschon.exc import CatalogError, JschonError
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch
from harness.c21 import Memory
from harness.util import some, preserve, empty

prepare = sch.prepare
BOUNDS = 'every sequence of up to 4 (thorough: up to 5) operations out of adding, removing, looking up, entering and leaving a cache context (also by ' \
         'an exception), each on a symbolic cache (of 2 or 3) and a symbolic URI (of 3), in one or two catalogs, and then looking up ' \
         'every URI in every cache; schemas with symbolic identifiers built, loaded, reloaded and moved in up to 3 caches; failing construction at ' \
         '11 places; cache identifiers of 10 kinds; subschemas with $id and $anchor two levels deep in every place for them; lookups and references by URI, anchor and path (11) from every one of 2 to 4 caches, the default and the metaschema one included, into every other'
ASSUMPTIONS = ['a context for a cache that had schemas which were all removed one by one, outside of a context, may be refused or not']

END = ((0x61, 0x63),)


def fresh(s):
    preserve(s, Catalog)


class Model:
    """cache -> the schemas in it, in a list of (cache, uri text, schema)"""

    def __init__(self):
        self.rows = []
        self.open = []

    def find(self, c, u):
        for i in range(len(self.rows) - 1, -1, -1):
            d, v, x = self.rows[i]
            if d == c and v == u:
                return i
        return None

    def add(self, c, u, x):
        i = self.find(c, u)
        if i is not None:
            del self.rows[i]
        self.rows.append((c, u, x))

    def remove(self, c, u):
        i = self.find(c, u)
        if i is not None:
            del self.rows[i]

    def clear(self, c):
        self.rows = [r for r in self.rows if no(r[0] == c)]

    def used(self, c):
        return any(bool(r[0] == c) for r in self.rows)


class Leave(Exception):
    pass


def history(s, ops, ncat, ncache, named):
    fresh(s)
    cats = [Catalog(f'c{i}') for i in range(ncat)]
    models = [Model() for _ in cats]
    touched = []
    spare = [JSONSchema(True, catalog=cats[0], cacheid='spare') for _ in ops]
    for i, op in enumerate(ops):
        k = s.choose(ncat, f'cat{i}') if ncat > 1 else 0
        cat, m = cats[k], models[k]
        c = (s.string(f'cache{i}', 1, ranges=((0x70, 0x70 + ncache - 1),), default='p') if named else s.int(f'cache{i}', 0, ncache - 1, 0))
        u = 'urn:x:' + s.string(f'uri{i}', 1, ranges=END, default='a') if op in ('add', 'make', 'del', 'get') else None
        if op == 'add':
            cat.add_schema(URI(u), spare[i], cacheid=c)
            m.add(c, u, spare[i])
        elif op == 'make':
            x = JSONSchema(False, catalog=cat, cacheid=c, uri=URI(u))
            m.add(c, u, x)
        elif op == 'del':
            cat.del_schema(URI(u), cacheid=c)
            m.remove(c, u)
        elif op == 'get':
            kind, r = s.run(cat.get_schema, URI(u), cacheid=c)
            i = m.find(c, u)
            if i is None:
                s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'{u} in {c} gives {r!r}')
            else:
                s.check(kind == 'ok' and r is m.rows[i][2], lambda: f'{u} in {c} gives {r!r}')
        elif op == 'enter':
            cm = cat.cache(c)
            kind, r = s.run(cm.__enter__)
            inuse = m.used(c) or any(bool(c == d) for d, _ in m.open)
            if inuse:
                s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'entered cache {c} which is in use')
                s.reach('refused')
            elif not any(bool(c == d) and k == e for e, d in touched):
                s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
            if kind == 'ok':
                s.cleanups.append(lambda cat=cat, cm=cm: (empty(cat), cm.gen.close()))
                s.check(r == c, 'the identifier of the cache')
                m.open.append((c, cm))
                s.reach('entered')
        else:
            if not m.open:
                return
            d, cm = m.open.pop()
            if op == 'leave':
                kind, r = s.run(cm.__exit__, None, None, None)
                s.check(kind == 'ok' and not r, lambda: f'leaving gives {r!r}')
            else:
                e = Leave()
                kind, r = s.run(cm.__exit__, Leave, e, None)
                s.check((kind == 'exc' and r is e) or (kind == 'ok' and not r), lambda: f'the exception is lost: {r!r}')
            m.clear(d)
            s.reach('left')
        if op == 'del':
            touched.append((k, c))
    for cat, m in zip(cats, models):
        for c in range(ncache):
            c = chr(0x70 + c) if named else c
            for u in ('urn:x:a', 'urn:x:b', 'urn:x:c'):
                kind, r = s.run(cat.get_schema, URI(u), cacheid=c)
                j = m.find(c, u)
                if j is None:
                    s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'after {op}: {u} in {c} of {cat} gives {r!r}')
                else:
                    s.check(kind == 'ok' and r is m.rows[j][2], lambda: f'after {op}: {u} in {c} of {cat} gives {r!r}')


def contexts(s):
    """every cache a context of its own"""
    a, b = s.string('a', 1, ranges=END, default='a'), s.string('b', 1, ranges=END, default='b')
    u, v = URI('https://h.example/' + a), URI('https://h.example/' + b)
    cat = sch.CAT
    n = s.pick([0, 1, 2], 'raise')
    try:
        with cat.cache() as one:
            x = JSONSchema({'$id': str(u), 'const': 1, '$defs': {'d': {'$anchor': 'n', 'const': 2}}}, catalog=cat, cacheid=one, metaschema_uri=sch.DIALECT['2020'])
            try:
                with cat.cache() as two:
                    s.check(no(one == two), 'the same identifier twice')
                    y = JSONSchema({'$id': str(v), 'const': 3, '$defs': {'d': {'$anchor': 'n', 'const': 4}}}, catalog=cat, cacheid=two, metaschema_uri=sch.DIALECT['2020'])
                    s.check(cat.get_schema(u, cacheid=one) is x and cat.get_schema(v, cacheid=two) is y, 'a schema is found in its cache')
                    if a == b:
                        s.check(cat.get_schema(u, cacheid=two) is y, 'the same URI in two caches')
                    else:
                        s.check(s.raises(CatalogError, cat.get_schema, u, cacheid=two) is not None, 'found in another cache')
                        s.check(s.raises(CatalogError, cat.get_schema, v, cacheid=one) is not None, 'found in another cache')
                    for t, i in ((u.copy(fragment='n'), 2), (u.copy(fragment='/$defs/d'), 2)):
                        s.check(cat.get_schema(t, cacheid=one)['const'].value == i, f'{t}')
                        s.check(cat.get_schema(t, cacheid=one) is cat.get_schema(t, cacheid=one), 'another object')
                    if n == 1:
                        raise Leave
            except Leave:
                pass
            s.check(s.raises(CatalogError, cat.get_schema, v, cacheid=two) is not None, 'still there after leaving')
            s.check(s.raises(CatalogError, cat.get_schema, v.copy(fragment='n'), cacheid=two) is not None, 'still there after leaving')
            s.check(cat.get_schema(u, cacheid=one) is x and cat.get_schema(u.copy(fragment='n'), cacheid=one) is x['$defs']['d'], 'lost')
            if n == 2:
                raise Leave
    except Leave:
        pass
    for t in (u, v, u.copy(fragment='n')):
        s.check(s.raises(CatalogError, cat.get_schema, t, cacheid=one) is not None, 'still there after leaving')
        s.check(s.raises(CatalogError, cat.get_schema, t) is not None, 'in the default cache')
        s.check(s.raises(CatalogError, cat.get_schema, t, cacheid='__meta__') is not None, 'in the cache of metaschemas')


IDS = {'none': None, 'zero': 0, 'empty': '', 'text': 'x', 'tuple': (1, 'a'), 'false': False, 'uuid': uuid.UUID(int=7), 'frozen': frozenset((1, 2)), 'object': object(), 'type': int}


CACHES = {'default': ('default', 'x'), 'meta': ('__meta__', 'default', 'x'), 'plain': ('x', 'y'), 'zero': (0, 'default', False, ''), 'three': ('default', 'x', '__meta__', None)}


def elsewhere(s, caches, ref):
    """nothing is found through another cache, be it by its URI, its anchors or a path into it"""
    preserve(s, sch.CAT)
    cat = sch.CAT
    ids = CACHES[caches]
    i, j = s.choose(len(ids), 'i'), s.choose(len(ids), 'j')
    a, b = s.string('a', 1, ranges=END, default='a'), s.string('b', 1, ranges=END, default='a')
    kw = dict(catalog=cat, metaschema_uri=sch.DIALECT['2020'])
    x = JSONSchema({'$id': 'https://h.example/' + a, 'const': 1, '$defs': {'d': {'$anchor': 'n', 'const': 2}, 'e': {'$id': a + 'e', 'const': 3, '$defs': {'f': {'const': 4}}}}}, cacheid=ids[i], **kw)
    both, z = s.flag('both'), None
    if both:
        z = JSONSchema({'$id': 'https://h.example/' + a, 'const': 1, '$defs': {'d': {'const': 2}, 'z': {'$anchor': 'z', 'const': 5}}}, cacheid=ids[1 - min(i, 1)], **kw)
    frag, want = s.pick([('', 1), ('#', 1), ('#/$defs/d', 2), ('#n', 2), ('e', 3), ('e#', 3), ('e#/$defs/f', 4), ('#/$defs/e/$defs/f', 4), ('#/$defs/z', 5), ('#z', 5), ('#/$defs/zz', 0)], 'frag')
    target = URI('https://h.example/' + b + frag)
    # 0 == False: the same identifier
    same = [ids[k] == ids[j] for k in range(len(ids))]
    mine, others = same[i], both and same[1 - min(i, 1)]
    found = a == b and (mine and not (others and frag in ('', '#')) and want not in (0, 5) or others and frag in ('', '#', '#/$defs/d', '#/$defs/z', '#z'))
    if mine and others and a == b:
        return          # one made in place of the other
    if ref:
        kind, r = s.run(JSONSchema, {'$ref': str(target)}, cacheid=ids[j], uri=URI('https://h.example/q/q'), **kw)
        if kind == 'ok':
            q = r.evaluate(JSON(want))
            s.check(q.valid and not r.evaluate(JSON(9)).valid, lambda: f'{target} is the schema of something else')
    else:
        kind, r = s.run(cat.get_schema, target, cacheid=ids[j], metaschema_uri=sch.DIALECT['2020'])
        if kind == 'ok':
            s.check(r['const'].value == want and r.document_rootschema is (x if mine else z), lambda: f'{target} gives another schema')
    s.check(kind == 'ok' if found else isinstance(r, CatalogError), lambda: f'{target} in {ids[j]!r}: {r!r}')


def wrap(v):
    return {
        'allOf': {'allOf': [True, v]}, 'anyOf': {'anyOf': [v, True]}, 'oneOf': {'oneOf': [v]}, 'not': {'not': v}, 'if': {'if': v}, 'then': {'then': v}, 'else': {'else': v},
        'properties': {'properties': {'p': v}}, 'patternProperties': {'patternProperties': {'p': v}}, 'dependentSchemas': {'dependentSchemas': {'p': v}}, '$defs': {'$defs': {'p': v}},
        'items': {'items': v}, 'contains': {'contains': v}, 'additionalProperties': {'additionalProperties': v}, 'propertyNames': {'propertyNames': v},
        'unevaluatedItems': {'unevaluatedItems': v}, 'unevaluatedProperties': {'unevaluatedProperties': v}, 'prefixItems': {'prefixItems': [v]}, 'itemslist': {'items': [v, True]},
        'additionalItems': {'items': [], 'additionalItems': v}}


def everywhere(s, where, inner, dialect):
    """subschemas with identifiers, in any place, are in the cache of the schema they are in and in no other"""
    preserve(s, sch.CAT)
    cat = sch.CAT
    a = s.string('a', 1, ranges=END, default='a')
    leaf = {'$id': 'leaf' + a, 'const': 2, '$defs': {'n': {'$anchor': 'n', 'const': 3}}}
    mid = {'$id': 'mid' + a, **wrap(leaf)[inner]}
    doc = {'$id': 'https://h.example/root' + a, **wrap(mid)[where], '$anchor': 'top'}
    uris = ['https://h.example/' + t + a for t in ('root', 'mid', 'leaf')] + ['https://h.example/leaf' + a + '#n', 'https://h.example/root' + a + '#top']
    other = sch.Made(s, True)
    caches = [other.cacheid, 'default', '__meta__']
    again = s.flag('again')
    for turn in range(2 if again else 1):
        with cat.cache() as c:
            x = JSONSchema(doc, catalog=cat, cacheid=c, metaschema_uri=sch.DIALECT[dialect])
            nodes = []
            for u in uris:
                k, r = s.run(cat.get_schema, URI(u), cacheid=c)
                s.check(k == 'ok' and isinstance(r, JSONSchema) and r.cacheid == c and r.document_rootschema is x, lambda: f'{u} gives {r!r}')
                nodes.append(r)
                for e in caches:
                    s.check(s.raises(CatalogError, cat.get_schema, URI(u), cacheid=e, metaschema_uri=sch.DIALECT[dialect]) is not None, lambda: f'{u} is found in the cache {e}')
            s.check(nodes[0] is x and nodes[4] is x and nodes[2]['const'].value == 2 and nodes[3]['const'].value == 3 and nodes[3].parentschema is nodes[2], 'another schema')
        for u in uris:
            for e in caches + [c]:
                s.check(s.raises(CatalogError, cat.get_schema, URI(u), cacheid=e, metaschema_uri=sch.DIALECT[dialect]) is not None, lambda: f'{u} is still found')


def ident(s, kind):
    """identifiers of any hashable type"""
    cid = IDS[kind]
    fresh(s)
    cat = Catalog('ids')
    n = s.int('n', 0, 3, 0)
    u = URI('urn:x:a')
    x, y = JSONSchema(True, catalog=cat, cacheid='spare'), JSONSchema(False, catalog=cat, cacheid='spare')
    with cat.cache(cid) as got:
        s.check(isinstance(got, uuid.UUID) if cid is None else got is cid, 'the identifier')
        e = s.raises(CatalogError, cat.cache(got).__enter__)
        s.check(e is not None, 'entered again')
        cat.add_schema(u, x, cacheid=got)
        cat.add_schema(u, y, cacheid=('other', n))
        e = s.raises(CatalogError, cat.cache(got).__enter__)
        s.check(e is not None, 'entered again')
        s.check(cat.get_schema(u, cacheid=got) is x and cat.get_schema(u, cacheid=('other', n)) is y, 'wrong schema')
        s.check(s.raises(CatalogError, cat.get_schema, u) is not None, 'in the default cache')
    s.check(s.raises(CatalogError, cat.get_schema, u, cacheid=got) is not None, 'still there')
    s.check(cat.get_schema(u, cacheid=('other', n)) is y, 'lost')
    with cat.cache(cid):
        pass


def names(s):
    """catalogs by name"""
    fresh(s)
    a, b = s.string('a', 1, ranges=END, default='a'), s.string('b', 1, ranges=END, default='b')
    one, two = Catalog(a), Catalog(b)
    u = URI('urn:x:a')
    x, y = JSONSchema(True, catalog=one, uri=u), JSONSchema(True, catalog=two, uri=u)
    s.check(one.get_schema(u) is x and two.get_schema(u) is y, 'caches are shared')
    s.check(Catalog.get_catalog(b) is two, 'the catalog by its name')
    s.check(Catalog.get_catalog(a) is (two if a == b else one), 'the catalog by its name')
    z = JSONSchema(False, catalog=a, uri=URI('urn:x:z'))
    s.check((two if a == b else one).get_schema(URI('urn:x:z')) is z, 'a schema in a catalog by name')
    s.check(z.catalog is Catalog.get_catalog(a), 'the catalog of a schema')
    s.check(s.raises(CatalogError, Catalog.get_catalog, 'd') is not None, 'a catalog that does not exist')
    two.del_schema(u)
    s.check(one.get_schema(u) is x and s.raises(CatalogError, two.get_schema, u) is not None, 'removal')


def loaded(s, n):
    """schemas loaded from a source"""
    src = Memory({})
    cat = sch.CAT
    preserve(s, sch.CAT)
    cat.add_uri_source(URI('https://l.example/'), src)
    src.docs.update({'a': {'const': 1, '$defs': {'k': {'$anchor': 'n', 'const': 4}}}, 'b': {'const': 2, '$ref': 'a'}, 'c': True})
    caches = [sch.Made(s, True) for _ in range(2)]
    ids = [m.cacheid for m in caches]
    have = [{}, {}]
    for i in range(n):
        c = s.choose(2, f'c{i}')
        op = s.choose(3, f'op{i}')
        t = s.string(f't{i}', 1, ranges=END, default='a')
        t = 'a' if t == 'a' else 'b' if t == 'b' else 'c'
        frag = (s.pick(['', '#', '#n', '#/$defs/k', '#/$defs'], f'f{i}') if t == 'a' else '') if op == 0 else ''
        u = URI('https://l.example/' + t + frag)
        if op == 2:
            cat.del_schema(URI('https://l.example/' + t), cacheid=ids[c])
            have[c].pop(t, None)
            continue
        before = len(src.calls)
        known = set(have[c])
        kind, r = s.run(cat.get_schema, u, cacheid=ids[c], metaschema_uri=sch.DIALECT['2020'])
        if frag == '#/$defs':
            s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'no schema, but {r!r}')
            kind, r = s.run(cat.get_schema, URI('https://l.example/' + t), cacheid=ids[c], metaschema_uri=sch.DIALECT['2020'])
            frag = ''
        if frag == '#n' and t not in known and kind == 'ok' and len(src.calls) == before:
            # an anchor of a removed document; it is a name of its own
            continue
        s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
        new = [t] if t not in known else []
        if t == 'b' and 'b' not in known and 'a' not in known:
            new.append('a')
        s.check(src.calls[before:] == new, lambda: f'{src.calls[before:]} loaded, should be {new}')
        root = cat.get_schema(URI('https://l.example/' + t), cacheid=ids[c])
        if t in known:
            s.check(root is have[c][t], 'another object')
        for q in new:
            have[c][q] = cat.get_schema(URI('https://l.example/' + q), cacheid=ids[c])
        for q, w in have[1 - c].items():
            s.check(cat.get_schema(URI('https://l.example/' + q), cacheid=ids[1 - c]) is w and all(w is not z for z in have[c].values()), 'the schema of another cache')
        if t == 'b':
            q = getattr(r.keywords['$ref'], 'refschema', None)
            s.check(q is None or q.cacheid == ids[c], 'a reference into another cache')
        if frag in ('#n', '#/$defs/k'):
            s.check(r is root['$defs']['k'], 'not the node')
        else:
            s.check(r is root, 'another object')
        s.check(r.cacheid == ids[c], 'the cache of a schema')


def moved(s):
    """a schema that gets another URI"""
    a, b = s.string('a', 1, ranges=END, default='a'), s.string('b', 1, ranges=END, default='b')
    u, v = URI('https://h.example/' + a), URI('https://h.example/' + b)
    m, o = sch.Made(s, True), sch.Made(s, True)
    mk = lambda c, uri: JSONSchema({'const': 1}, catalog=sch.CAT, cacheid=c, uri=uri, metaschema_uri=sch.DIALECT['2020'])
    x, y = mk(m.cacheid, u), mk(o.cacheid, u)
    how = s.pick(['uri', 'none', 'id'], 'how')
    if how == 'id':
        x = JSONSchema({'$id': str(v)}, catalog=sch.CAT, cacheid=m.cacheid, uri=u, metaschema_uri=sch.DIALECT['2020'])
    else:
        x.uri = v if how == 'uri' else None
    s.check(sch.CAT.get_schema(u, cacheid=o.cacheid) is y, 'the schema of another cache')
    if how != 'none':
        s.check(x.uri == v and sch.CAT.get_schema(v, cacheid=m.cacheid) is x, 'not found by its URI')
        if a != b:
            s.check(s.raises(CatalogError, sch.CAT.get_schema, v, cacheid=o.cacheid) is not None, 'found in another cache')
    if how == 'none' or a != b:
        s.check(s.raises(CatalogError, sch.CAT.get_schema, u, cacheid=m.cacheid) is not None, 'found by a URI it had')


BAD = {
    'ref': {'$ref': '#/nowhere'}, 'deep': {'properties': {'p': {'items': {'$ref': '#zz'}}}}, 'id': {'$defs': {'w': {'$id': 'q#z'}}}, 'nonschema': {'$defs': {'w': {'not': {'$ref': '#/$defs'}}}},
    'elsewhere': {'allOf': [True, {'$ref': 'https://nowhere.example/'}]}, 'schema': {'$defs': {'w': {'$schema': 'relative'}}}, 'meta': {'$defs': {'w': {'$schema': 'https://nowhere.example/', 'const': 1}}},
    'dynamic': {'$dynamicRef': '#zz'}, 'type': {'$defs': {'w': 5}}, 'root': 5, 'list': [],
}


def failing(s, how, by):
    """a schema that cannot be made leaves nothing in the cache"""
    c = s.string('c', 1, ranges=END, default='a')
    at = 'https://l.example/' + c
    bad = BAD[how]
    if isinstance(bad, dict):
        bad = {'$defs': {'k': {'$anchor': 'n'}, 'e': {'$id': 'https://l.example/embedded'}}, **bad}
        if '$defs' in BAD[how]:
            bad['$defs'] = {'k': {'$anchor': 'n'}, 'e': {'$id': 'https://l.example/embedded'}, **BAD[how]['$defs']}
    m = sch.Made(s, True)
    cat = sch.CAT
    src = Memory({})
    preserve(s, sch.CAT)
    cat.add_uri_source(URI('https://l.example/'), src)
    good = JSONSchema({'const': 7, '$anchor': 'x'}, catalog=cat, cacheid=m.cacheid, uri=URI('https://l.example/good'), metaschema_uri=sch.DIALECT['2020'])
    args = dict(metaschema_uri=sch.DIALECT['2020'], cacheid=m.cacheid)
    if by == 'load':
        src.docs[c] = bad
        make = lambda: cat.get_schema(URI(at), **args)
    elif by == 'ref':
        src.docs[c] = bad
        make = lambda: JSONSchema({'$ref': at}, catalog=cat, uri=URI('https://l.example/refers'), **args)
    else:
        make = lambda: JSONSchema(bad, catalog=cat, uri=URI(at), **args)
    for again in range(2):
        kind, r = s.run(make)
        s.check(kind == 'exc', lambda: f'made {r!r}')
        if by == 'make':
            for u in (at, at + '#n', at + '#/$defs/k', 'https://l.example/embedded', 'https://l.example/embedded#'):
                e = s.raises(JschonError, cat.get_schema, URI(u), **args)
                s.check(e is not None, lambda: f'{u} is found although the schema could not be made')
        for u in ('https://l.example/refers',):
            s.check(s.raises(JschonError, cat.get_schema, URI(u), **args) is not None, lambda: f'{u} is found although the schema could not be made')
        s.check(cat.get_schema(URI('https://l.example/good#x'), **args) is good, 'a schema made before is lost')
    src.docs[c] = {'const': 3, '$defs': {'k': {'$anchor': 'n'}}}
    r = cat.get_schema(URI(at), **args)
    s.check(r['const'].value == 3 and cat.get_schema(URI(at + '#n'), **args) is r['$defs']['k'], 'a schema that can be made now')


def meta(s, dialect):
    """a schema with the URI of a metaschema, in a cache of its own"""
    x = s.int('x', 0, 3, 0)
    m = sch.Made(s, False, dialect, uri=sch.DIALECT[dialect])
    r = JSONSchema({'$ref': str(sch.DIALECT[dialect]), 'const': x}, catalog=sch.CAT, cacheid=m.cacheid, uri=sch.ROOT, metaschema_uri=sch.DIALECT[dialect])
    s.check(not r.evaluate(JSON(x)).valid, 'the schema of the cache is referred to')
    s.check(r.validate().valid, 'the metaschema is another one')
    o = sch.Made(s, {'$ref': str(sch.DIALECT[dialect])}, dialect)
    s.check(o.schema.evaluate(JSON({'minLength': x})).valid, 'the metaschema is another one')
    s.check(not o.schema.evaluate(JSON({'minLength': str(x)})).valid, 'the metaschema is another one')
    s.check(sch.CAT.get_metaschema(sch.DIALECT[dialect]) is r.metaschema, 'the metaschema')


def cases(tier):
    T = tier == 'thorough'
    ops = ('add', 'make', 'del', 'get', 'enter', 'leave', 'exc')
    cs = []
    for n in (2, 3, 4) + ((5,) if T else ()):
        for seq in product(ops, repeat=n):
            depth, ok = 0, True
            for o in seq:
                depth += (o == 'enter') - (o in ('leave', 'exc'))
                ok = ok and depth >= 0
            if not ok or seq.count('get') > 1 or seq[0] in ('get', 'del') or seq[-1] == 'get':
                continue
            for ncat in (1, 2):
                for ncache in (2, 3):
                    named = some(2, 'named', seq, ncat)
                    if T and some({2: 1, 3: 1, 4: 3, 5: 40}[n] * (ncat * ncache if n > 3 else 1), seq, ncat, ncache) or not T and ncat + ncache < {2: 6, 3: 5, 4: 4}[n] and some({2: 1, 3: 3, 4: 20}[n] * ncat * (ncache - 1), seq, ncat, ncache):
                        cs.append(Case(f"history-{'.'.join(seq)}-{ncat}-{ncache}", history, ops=seq, ncat=ncat, ncache=ncache, named=named, weight=4 ** n * ncat ** (n - 1) / 20))
    cs += [Case('contexts', contexts, weight=10), Case('names', names), Case('moved', moved)]
    cs += [Case(f'elsewhere-{c}-{r}', elsewhere, caches=c, ref=r, weight=30) for c in CACHES for r in (False, True)]
    ws = list(wrap(True))
    for d, skip in (('2020', ('itemslist', 'additionalItems')), ('2019', ('prefixItems',))):
        for i, w in enumerate(q for q in ws if q not in skip):
            for j, v in enumerate(q for q in ws if q not in skip):
                if T or (i + j) % 5 == 0 and (d == '2020' or w in ('itemslist', 'additionalItems', 'unevaluatedItems')):
                    cs.append(Case(f'everywhere-{d}-{w}-{v}', everywhere, where=w, inner=v, dialect=d))
    cs += [Case(f'ident-{k}', ident, kind=k) for k in IDS]
    cs += [Case(f'loaded-{n}', loaded, n=n, weight=10 ** n) for n in (1, 2) + ((3,) if T else ())]
    cs += [Case(f'failing-{h}-{b}', failing, how=h, by=b) for h in BAD for b in ('make', 'load', 'ref')]
    cs += [Case(f'meta-{d}', meta, dialect=d, weight=20) for d in ('2019', '2020')]
    return cs
