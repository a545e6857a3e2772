"""C30: custom keywords are evaluated as they are declared."""
from itertools import permutations
from jschon import JSON, JSONSchema, URI
from jschon.vocabulary import Keyword, Subschema, ArrayOfSubschemas, ObjectOfSubschemas
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch
from harness.c21 import Memory, escape
from harness.schref import kind
from harness.util import some, strict, preserve, clone, number

prepare = sch.prepare
BOUNDS = 'vocabularies of 3 keywords (4: a fixed quarter, thorough all) with every acyclic set of direct dependencies among them and on absent ' \
         'and standard ones, in every order in the vocabulary and rotations in the schema; any set of instance types; what each keyword does (pass, fail, fail ' \
         'and recover, not assert, be discarded, annotate) symbolic; 7 instances; keywords with a subschema, a list or an object of subschemas, given any ' \
         'shape of value, nested twice, with references into them; evaluated in place, for children, by reference; result classes given by a keyword, nested twice'
TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
CORE = 'https://json-schema.org/draft/2020-12/vocab/core'
APPL = 'https://json-schema.org/draft/2020-12/vocab/applicator'
VALID = 'https://json-schema.org/draft/2020-12/vocab/validation'
U = 'https://v.example/'
M = 'https://m.example/m'


def dialect(s, classes, split=False, more=()):
    """a metaschema with the keywords"""
    preserve(s, sch.CAT)
    cat = sch.CAT
    groups = [classes] if not split else [classes[:1], classes[1:]]
    uris = []
    for i, g in enumerate(groups):
        cat.create_vocabulary(URI(U + f'v{i}'), *g)
        uris.append(U + f'v{i}')
    cat.add_uri_source(URI('https://m.example/'), Memory({'m': {'$schema': str(sch.DIALECT['2020']), '$id': M, '$vocabulary': {CORE: True, APPL: True, **{u: True for u in more}, **{u: True for u in uris}}}}))
    m = sch.Made(s, True)
    return lambda v: JSONSchema(v, catalog=cat, cacheid=m.cacheid, metaschema_uri=URI(M), uri=URI('https://example.org/custom'))


# what a keyword does, by the number that is its value
PASS, FAIL, RECOVER, NOASSERT, DISCARD, NOTE, DISCARDFAIL = range(7)


def make(log, key, deps, types, static=False):
    def evaluate(self, instance, result):
        log.append((self.json.parent, key, instance, result))
        act = self.json.data
        if act == FAIL:
            result.fail('no ' + key)
        elif act == RECOVER:
            result.fail('no')
            result.pass_()
            result.annotate('recovered ' + key)
        elif act == NOASSERT:
            result.fail('soft ' + key)
            result.noassert()
        elif act == DISCARD:
            result.annotate('gone')
            result.discard()
        elif act == DISCARDFAIL:
            result.fail('gone')
            result.discard()
        elif act == NOTE:
            result.annotate('note ' + key)
    return type('Kw' + key, (Keyword,), {'key': key, 'depends_on': deps, 'instance_types': types, 'static': static, 'evaluate': evaluate})


INST = {'null': None, 'boolean': True, 'number': 1, 'string': 'a', 'array': [], 'object': {}}


def order(s, n, perm, rot, acts, what):
    """dependencies, in any order"""
    names = ['a', 'b', 'c', 'd'][:n]
    deps = {k: [] for k in names}
    # dependencies follow the order perm, which the vocabulary does not have
    for j in range(n):
        for i in range(j):
            if s.flag(f'd{i}{j}'):
                deps[names[perm[j]]].append(names[perm[i]])
    log = []
    extra = {'absent': ('zz', 'type'), 'standard': ('properties', 'not'), 'none': ()}[what]
    classes = [make(log, k, tuple(deps[k][:1]) + extra + tuple(deps[k][1:]), TYPES) for k in names]
    made = dialect(s, classes, split=rot % 2 == 1)
    keys = names[rot:] + names[:rot]
    act = {k: (s.int('act_' + k, 0, 6, NOTE) if acts == i else [PASS, NOTE, FAIL][i % 3]) for i, k in enumerate(names)}
    v = {k: act[k] for k in keys}
    if what == 'standard':
        v = {**dict(list(v.items())[:1]), 'not': False, **v, 'properties': {'p': True}}
    k, sc = s.run(made, v)
    s.check(k == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    k, r = s.run(sc.evaluate, JSON({}))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    done = [e[1] for e in log]
    s.check(sorted(done) == names, lambda: f'evaluated {done}')
    for k in names:
        for q in deps[k]:
            s.check(done.index(q) < done.index(k), lambda: f'{k} before {q}, on which it depends; the schema has {keys}')
    judge(s, r, {k: act[k] for k in names})


def judge(s, r, act):
    bad = [k for k, a in act.items() if a == FAIL]
    s.check(bool(r.valid) == (not bad), lambda: f'{"valid" if r.valid else "invalid"}, failing: {bad}')
    s.check(bool(r.passed) == bool(r.valid), 'passed')
    own = {c.key for c in r.children.values()}
    for k, a in act.items():
        s.check((k in own) == (not (a == DISCARD or a == DISCARDFAIL)), lambda: f'{k} is {"among" if k in own else "missing from"} the results')
    if not bad:
        notes = sorted(a for a in r.collect_annotations() if isinstance(a, str))
        want = sorted(['note ' + k for k, a in act.items() if a == NOTE] + ['recovered ' + k for k, a in act.items() if a == RECOVER])
        s.check(notes == want, lambda: f'annotations {notes}, should be {want}')
        s.check(not list(r.collect_errors()), 'errors of a valid result')
    else:
        errs = sorted(e for e in r.collect_errors() if isinstance(e, str))
        want = sorted(['no ' + k for k in bad] + ['soft ' + k for k, a in act.items() if a == NOASSERT])
        s.check(errs == want, lambda: f'errors {errs}, should be {want}')
        s.check(not list(r.collect_annotations()), 'annotations of an invalid result')
    s.reach('invalid' if bad else 'valid')


def types(s, n, static, route):
    """instance types"""
    names = ['a', 'b'][:n]
    log = []
    t = s.pick(list(TYPES), 'type')
    rest = s.pick(['none', 'all', 'before'], 'rest')
    mine = s.flag('mine')
    at = TYPES.index(t)
    own = {'a': tuple(q for i, q in enumerate(TYPES) if (mine if q == t else rest == 'all' or rest == 'before' and i < at))}
    for k in names[1:]:
        own[k] = ('array', 'null')
    classes = [make(log, k, (), own[k], static=static and k == 'a') for k in names]
    made = dialect(s, classes)
    act = {k: s.int('act_' + k, 0, 6, FAIL) for k in names[:1]}
    act.update({k: NOTE for k in names[1:]})
    v, x = route_to(route, act, INST[t])
    k, sc = s.run(made, v)
    s.check(k == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    k, r = s.run(sc.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    live = [k for k in names if t in own[k] and not (static and k == 'a')]
    done = [e[1] for e in log]
    s.check(done == live, lambda: f'evaluated {done} for {t}, should be {live}')
    for node, key, inst, res in log:
        s.check(res.key == key and res.instance is inst and strict(inst.value, INST[t]), 'the result is for another instance or keyword')
        s.check(res.schema_node is node[key] and res.parent.children[key, inst.path] is res if not any_(act[key] == a for a in (DISCARD, DISCARDFAIL)) else True, 'the result is not that of the keyword')
    if route == 'root':
        judge(s, r, {k: act[k] for k in live}) if len(live) == len(names) else s.check(bool(r.valid) == (not any(act[k] == FAIL for k in live)), 'verdict')
    else:
        bad = any(act[k] == FAIL for k in live)
        s.check(bool(r.valid) == (bad if route == 'not' else not bad), lambda: f'verdict {r.valid} through {route}')


def subset(s, route, single):
    """any set of instance types"""
    log = []
    t = s.pick(list(TYPES), 'type')
    own = tuple(q for q in TYPES if s.flag(q)) if not single else (s.pick(TYPES, 'only'),)
    if single and s.flag('two'):
        own = own[0], s.pick(TYPES, 'also')
    made = dialect(s, [make(log, 'a', (), own)])
    v, x = route_to(route, {'a': FAIL}, INST[t])
    r = made(v).evaluate(JSON(x))
    s.check(len(log) == (t in own), lambda: f'evaluated {len(log)} times for {t}, declared for {own}')
    s.check(bool(r.valid) == ((t in own) == (route == 'not')), 'verdict')


def undeclared(s, route):
    """a keyword that declares nothing applies to every type"""
    log = []
    K = type('K', (Keyword,), {'key': 'a', 'evaluate': lambda self, instance, result: (log.append(instance), result.fail('no') if self.json.data == FAIL else None)})
    made = dialect(s, [K])
    t = s.pick(list(TYPES), 'type')
    act = s.int('act', 0, 3, 1)
    v, x = route_to(route, {'a': act}, INST[t])
    r = made(v).evaluate(JSON(x))
    s.check(len(log) == 1 and strict(log[0].value, INST[t]), lambda: f'evaluated {len(log)} times for {t}')
    s.check(bool(r.valid) == (no(act == FAIL) if route != 'not' else act == FAIL), 'verdict')


def route_to(route, v, x):
    return {'root': lambda: (v, x), 'properties': lambda: ({'properties': {'p': v}}, {'p': x}), 'items': lambda: ({'items': v}, [x]), 'allOf': lambda: ({'allOf': [True, v]}, x), 'not': lambda: ({'not': v}, x),
            'ref': lambda: ({'$ref': '#/$defs/v', '$defs': {'v': v}}, x), 'if': lambda: ({'if': v, 'else': False}, x)}[route]()


# ---- keywords with subschemas
def sub(mixin, key, how):
    class Kw(Keyword, mixin):
        def evaluate(self, instance, result):
            j = self.json
            if isinstance(j, JSONSchema):
                j.evaluate(instance, result)
            else:
                for k, v in (enumerate(j.data) if j.type == 'array' else j.data.items() if j.type == 'object' else ()):
                    if isinstance(v, JSONSchema):
                        with result(instance, str(k)) as r:
                            v.evaluate(instance, r)
                            if not r.passed:
                                result.fail('part')
    Kw.key = key
    return Kw


MIX = {'one': Subschema, 'list': ArrayOfSubschemas, 'map': ObjectOfSubschemas}


def subschemas(s, form, shape, nest, dyn):
    """values that are subschemas are schemas; others are plain"""
    classes = [sub(MIX[f], 'my' + f, f) for f in MIX]
    both = type('KwAny', (sub(Subschema, 'x', 0), ArrayOfSubschemas), {'key': 'myany'})
    made = dialect(s, classes + [both], more=(VALID,))
    c = s.int('c', 0, 9, 5)
    x = s.int('x', 0, 9, 5)
    k = s.string('k', 1, default='/')
    j = s.string('j', 1, default='~')
    s.assume(no(k == j))
    leaf = {'const': c}
    value = {'schema': lambda: leaf, 'bool': lambda: s.flag('b'), 'list': lambda: [True, leaf], 'empty': lambda: [], 'map': lambda: {k: leaf, j: True}, 'mapempty': lambda: {}, 'int': lambda: 5, 'text': lambda: 'ab',
             'null': lambda: None}[shape]()
    key = 'my' + form
    v = {key: value}
    # what is a schema, where
    at = {('one', 'schema'): [()], ('one', 'bool'): [()], ('any', 'schema'): [()], ('any', 'bool'): [()], ('any', 'list'): [('1',)], ('list', 'list'): [('1',)], ('map', 'map'): [(k,)]}.get((form, shape), [])
    if form in ('one', 'any') and shape == 'map':
        at, value_is = [()], 'object'      # an object is a schema, with unknown keywords
    pre, inst = (), x
    if nest == 'mymap':
        v, pre = {'mymap': {j: v}}, ('mymap', j)
    elif nest == 'mylist':
        v, pre = {'mylist': [False, True, v] if False else [True, v]}, ('mylist', '1')
    elif nest == 'items':
        v, pre, inst = {'items': v}, ('items',), [x]
    preserve(s, sch.CAT.get_metaschema(URI(M)))
    kk, sc = s.run(made, clone(v))
    if (form, shape) == ('map', 'schema'):
        s.check(kk == 'exc' and isinstance(sc, TypeError), lambda: f'what is no schema, where schemas are: {sc!r}')
        return
    s.check(kk == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    s.check(strict(sc.value, v), 'the value of the schema is another')
    r = sc.evaluate(JSON(inst))
    asserted = at and shape in ('schema', 'list') or at and (form, shape) == ('map', 'map')
    want = (x == c) if asserted else value if at and shape == 'bool' else True
    s.check(iff(r.valid, want), lambda: f'{r.valid} for {x} with {v}')
    for toks in at:
        node = sc
        for t in pre + (key,) + toks:
            node = node[int(t) if node.type == 'array' else t]
        s.check(isinstance(node, JSONSchema), 'a subschema is not a schema')
        s.check(node.parentschema is not None and node.metaschema_uri == URI(M) and node.document_rootschema is sc, 'the subschema does not know where it belongs')
        if asserted:
            # reached by a reference
            frag = '#'
            for t in pre + (key,) + toks:
                frag = frag + '/' + escape(s, t, 'least')
            k2, sc2 = s.run(made, {'$ref': frag, '$defs': {'never': False}, **{q: w for q, w in v.items()}} if nest != 'items' else {'$ref': frag, **v})
            s.check(k2 == 'ok', lambda: f'reference {frag}: {type(sc2).__name__}: {sc2}')
            s.check(iff(sc2.evaluate(JSON(x)).valid, (x == c)), 'through the reference')
    s.reach('schema' if at else 'plain')


def inner(s, form, what):
    """references inside, and identifiers of, subschemas of custom keywords"""
    classes = [sub(MIX[f], 'my' + f, f) for f in MIX]
    made = dialect(s, classes, more=(VALID,))
    c, x = s.int('c', 0, 9, 5), s.int('x', 0, 9, 5)
    seg = s.string('i', 1, ranges=((0x30, 0x31), (0x61, 0x62)), default='a')
    body = {'ref': {'$ref': '#/$defs/t'}, 'id': {'$id': seg, 'const': c}, 'anchor': {'$anchor': 'n', 'const': c}, 'idref': {'$id': 'q/' + seg, '$ref': '#/$defs/t', '$defs': {'t': {'const': c}}}}[what]
    v = {'my' + form: {'one': body, 'list': [body], 'map': {'k': body}}[form], '$defs': {'t': {'const': c if what == 'ref' else 99}}}
    if what == 'id':
        v['allOf'] = [{'$ref': seg}]
    if what == 'anchor':
        v['allOf'] = [{'$ref': '#n'}]
    if what == 'idref':
        v['not'] = {'not': {'$ref': 'https://example.org/q/' + seg}}
    k, sc = s.run(made, v)
    s.check(k == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    s.check(iff(sc.evaluate(JSON(x)).valid, x == c), 'verdict')


def siblings(s, n, rot):
    """a keyword reads the result of one it depends on; the whole evaluation shares its globals"""
    seen = []

    def first(self, instance, result):
        result.annotate(self.json.data)
        result.globals.setdefault('n', []).append(self.json.data)
        if self.json.data == 3:
            result.discard()

    def second(self, instance, result):
        sib = result.sibling(instance, 'first')
        seen.append((None if sib is None else sib.annotation, list(result.globals.get('n', []))))
        if sib is not None and sib.annotation == self.json.data:
            result.fail('equal')
    A = type('First', (Keyword,), {'key': 'first', 'evaluate': first, 'instance_types': ('number', 'array')})
    B = type('Second', (Keyword,), {'key': 'second', 'depends_on': ('first',) if n else 'first' and ('first', 'zz'), 'evaluate': second})
    made = dialect(s, [B, A] if rot else [A, B])
    p, q = s.int('p', 0, 5, 1), s.int('q', 0, 5, 2)
    v = {'second': q, 'first': p} if rot else {'first': p, 'second': q}
    x = s.pick([1, 'a', [1, 2]], 'x')
    d = {'allOf': [v, {'second': q}], 'items': v}
    sc = made(d)
    k, r = s.run(sc.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    live = not isinstance(x, str) and no(p == 3)
    s.check(iff(r.valid, no(live & (p == q))), lambda: f'{r.valid}')
    want = [None if isinstance(x, str) or p == 3 else p, None] + ([None if p == 3 else p] * 2 if isinstance(x, list) else [])
    s.check(len(seen) == len(want) and all(any(a is None if w is None else a is not None and a == w for w in want) for a, _ in seen), lambda: f'{seen}')
    total = [0 if isinstance(x, str) else 1, 0 if isinstance(x, str) else 1, 2, 3]
    s.check(all(len(g) in (total if isinstance(x, list) else total[:1]) and all_(e == p for e in g) for _, g in seen), lambda: f'globals {seen}')
    r2 = sc.evaluate(JSON(x))
    s.check(len(r2.globals.get('n', [])) == len(r.globals.get('n', [])), 'globals of another evaluation')


def resultclass(s, how, keyword):
    """a result class given by a keyword is that of the results below, and of no others"""
    from jschon.jsonschema import Result

    class Mine(Result):
        pass

    class Other(Mine):
        pass

    given = []

    def evaluate(self, instance, result):
        with result(instance, 'x', self.json if how != 'own' else None, cls=Mine) as sub:
            given.append(sub)
            self.json.evaluate(instance, sub)
            if how == 'nested':
                with sub(instance, 'y', self.json, cls=Other) as deep:
                    given.append(deep)
                    self.json.evaluate(instance, deep)
        if not sub.valid:
            result.fail('below')
    K = type('KwMine', (Keyword, Subschema), {'key': 'mine', 'evaluate': evaluate})
    made = dialect(s, [K], more=(VALID,))
    a, b = s.int('a', 0, 9, 4), s.int('b', 0, 9, 5)
    body = {'minimum': a, 'allOf': [{'maximum': b}], 'properties': {'p': {'minimum': a}}, '$ref': '#/$defs/d'}
    v = {'mine': body if keyword else a > 3, 'allOf': [{'minimum': 1}], '$defs': {'d': {'anyOf': [{'const': b}, {'items': {'minimum': a}}]}}}
    x = s.pick([5, {'p': 5}, [1, 7]], 'instance')
    k, sc = s.run(made, v)
    s.check(k == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    k, r = s.run(sc.evaluate, JSON(x))
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')

    def visit(node, cls):
        for c in node.children.values():
            mine = cls
            if any(c is g for g in given):
                mine = Other if c.key == 'y' else Mine
            s.check(type(c) is mine, lambda: f'a {type(c).__name__} at {c.path}, should be {mine.__name__}')
            visit(c, mine)
    s.check(type(r) is Result, 'the class of the root')
    visit(r, Result)
    below = given[0]
    s.check(below.parent.key == 'mine' and bool(r.children['mine', r.instance.path].valid) == bool(below.valid), 'the verdict')
    if how == 'own':
        s.check(below.schema is sc, 'the schema of a result that was given none')
    s.reach('valid' if r.valid else 'invalid')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in (2, 3, 4):
        for perm in permutations(range(n)):
            for rot in range(n):
                for what in ('none', 'absent', 'standard'):
                    q = number(n, perm, rot, what)
                    if T or n < 4 and (what == 'none' or some(3, perm, rot, what)) or n == 4 and some(16, perm, rot, what):
                        cs.append(Case(f"order-{n}-{''.join(map(str, perm))}-{rot}-{what}", order, n=n, perm=perm, rot=rot, acts=q % n, what=what, weight=4 ** n / 8))
    for route in ('root', 'properties', 'items', 'allOf', 'not', 'ref', 'if'):
        for n in (1, 2):
            for static in (False, True):
                if T or (n == 1) == (number(route) % 2 == 0) or route == 'root':
                    cs.append(Case(f'types-{route}-{n}-{static}', types, n=n, static=static, route=route, weight=60))
        cs += [Case(f'subset-{route}', subset, route=route, single=not T and route != 'root', weight=20), Case(f'undeclared-{route}', undeclared, route=route, weight=3)]
    for form in ('one', 'list', 'map', 'any'):
        for shape in ('schema', 'bool', 'list', 'empty', 'map', 'mapempty', 'int', 'text', 'null'):
            for nest in ('', 'mymap', 'mylist', 'items'):
                if (form, shape) in (('list', 'map'),) and False:
                    continue
                cs.append(Case(f'sub-{form}-{shape}-{nest}', subschemas, form=form, shape=shape, nest=nest, dyn=False, weight=15))
    cs += [Case(f'inner-{f}-{b}', inner, form=f, what=b) for f in MIX for b in ('ref', 'id', 'anchor', 'idref')]
    cs += [Case(f'class-{h}-{k}', resultclass, how=h, keyword=k, weight=5) for h in ('given', 'own', 'nested') for k in (True, False)]
    cs += [Case(f'sibling-{n}-{r}', siblings, n=n, rot=r) for n in (0, 1) for r in (False, True)]
    return cs
