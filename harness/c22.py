"""C22: dynamic and recursive references."""
from jschon import JSON, JSONSchema, URI
from jschon.exc import JschonError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness import sch
from harness.c21 import Memory
from harness.sch import ROOT
from harness.util import some, number, is_bool, preserve

prepare = sch.prepare
BOUNDS = 'chains of 1 to 4 resources, each with no, a dynamic, a static or two dynamic anchors whose names (one letter) are symbolic, so that ' \
         'every pattern of equal names is covered, and one such resource off the chain; entered by $ref at the root, at an anchor or a pointer, ' \
         'in place or for a child; in one document (flat, nested, reversed) or loaded from a source; the dynamic reference naming any ' \
         'of the resources or one off the chain; with and without evaluations from further down before and after; 2019-09: every assignment of $recursiveAnchor to chains of up to 4; ' \
         'every walk of up to 4 steps (thorough: 5), by references and dynamic references, over 2 resources, or of up to 3 (thorough: 4) over 3, with every assignment of anchors, which enters resources again; 7 orders of entering up to 3 resources at other places'
ASSUMPTIONS = ['2019-09 resources are entered at their root and $recursiveAnchor stands in resource roots only']

U = 'https://d.example/'


def wrap(kind, ref, i):
    """a schema that goes on to ref, and how the instance is wrapped for it"""
    same = lambda v: v
    child = lambda v: {'next': v}
    return {'ref': lambda: ({'$ref': ref}, same), 'allOf': lambda: ({'allOf': [True, {'$ref': ref}]}, same), 'prop': lambda: ({'properties': {'next': {'$ref': ref}}, 'required': ['next']}, child),
            'items': lambda: ({'items': {'$ref': ref}, 'minItems': 1}, lambda v: [v]), 'then': lambda: ({'if': True, 'then': {'$ref': ref}, 'else': False}, same),
            'not': lambda: ({'not': {'not': {'$ref': ref}}}, same), 'dyn': lambda: ({'$dynamicRef': ref}, same), 'any': lambda: ({'anyOf': [False, {'$ref': ref}]}, same),
            'dep': lambda: ({'dependentSchemas': {'next': {'properties': {'next': {'$ref': ref}}}}, 'required': ['next']}, child), 'uneval': lambda: ({'unevaluatedItems': {'$ref': ref}, 'minItems': 1}, lambda v: [v]),
            'pattern': lambda: ({'patternProperties': {'^ne': {'$ref': ref}}, 'required': ['next']}, child)}[kind]()


HOPS = ('ref', 'allOf', 'prop', 'items', 'then', 'not', 'dyn', 'any', 'dep', 'uneval', 'pattern')
HISTORY = ('before', 'after', None, 'both')
ENTRIES = ('root', 'anchor', 'pointer')


def anchors(s, i, kind):
    """-> the subschemas of resource i with anchors, [(name, dynamic, marker)]"""
    name = lambda t: s.string(f'n{i}{t}', 1, ranges=((0x61, 0x63),), default='a')
    if kind == 'none':
        return {}, []
    if kind == 'dyn':
        n = name('')
        return {'x': {'$dynamicAnchor': n, 'const': i}}, [(n, True, i)]
    if kind == 'static':
        n = name('')
        return {'x': {'$anchor': n, 'const': i}}, [(n, False, i)]
    if kind == 'both':
        n, m = name(''), name('s')
        s.assume(no(n == m))
        return {'x': {'$dynamicAnchor': n, 'const': i}, 'z': {'$anchor': m, 'const': 10 + i}}, [(n, True, i), (m, False, 10 + i)]
    if kind == 'two':
        n, m = name(''), name('s')
        s.assume(no(n == m))
        return {'x': {'items': {'$dynamicAnchor': n, 'const': i}}, 'z': {'not': {'$dynamicAnchor': m, 'const': 10 + i}}}, [(n, True, i), (m, True, 10 + i)]
    if kind == 'double':
        n, m = name(''), name('s')
        s.assume(no(n == m))
        return {'x': {'$dynamicAnchor': n, '$anchor': m, 'const': i}}, [(n, True, i), (m, None, i)]


def dynamic(s, kinds, hops, entries, target, layout, decoy, history):
    m = len(kinds)
    defs, names = zip(*[anchors(s, i, k) for i, k in enumerate(kinds)])
    ref = s.string('ref', 1, ranges=((0x61, 0x63),), default='a')
    uri = [U + f'r{i}' for i in range(m)]
    res = [None] * m
    wrapv = [None] * m
    cont = {'$dynamicRef': ('' if target == 'own' else U + 'decoy' if target == 'decoy' else uri[target]) + '#' + ref}
    for i in reversed(range(m)):
        r = {'$id': uri[i], '$defs': dict(defs[i])}
        if entries[i] == 'root':
            r.update(cont)
        else:
            r['$defs']['entry'] = {'$anchor': 'entry', **cont}
        res[i] = r
        at = uri[i] + {'root': '', 'anchor': '#entry', 'pointer': '#/$defs/entry'}[entries[i]]
        cont, wrapv[i] = wrap(hops[i], at, i)
    if decoy:
        d, outside = anchors(s, 9, decoy)
        dec = {'$id': U + 'decoy', '$defs': d}
    else:
        dec = True
    # the document: its root has no anchors and continues to resource 0
    x = s.int('x', 0, 19, 5)
    v = x
    for i in reversed(range(m)):
        v = wrapv[i](v)
    doc = {'$id': U + 'top', **cont}
    if layout in ('source', 'source-mixed'):
        preserve(s, sch.CAT)
        sch.CAT.add_uri_source(URI(U), Memory({f'r{i}': res[i] for i in range(m) if layout == 'source' or i % 2}))
        doc['$defs'] = {'dec': dec, **({f'r{i}': res[i] for i in range(0, m, 2)} if layout == 'source-mixed' else {})}
    elif layout == 'nested':
        for i in reversed(range(m - 1)):
            res[i]['$defs']['inner'] = res[i + 1]
        doc['$defs'] = {'r': res[0], 'dec': dec}
    elif layout == 'inside':
        for i in range(m - 1):
            res[i + 1]['$defs']['inner'] = res[i]
        doc['$defs'] = {'dec': dec, 'r': res[m - 1]}
    else:
        order = list(range(m))
        if layout == 'reversed':
            order.reverse()
        doc['$defs'] = {f'r{i}': res[i] for i in order}
        doc['$defs']['dec'] = dec
    # what should be evaluated
    there = outside if target == 'decoy' else names[m - 1 if target == 'own' else target]
    want = init = None
    for n, dyn, mark in there:
        if n == ref:
            init, want = dyn, mark
    plainly = want
    made = sch.Made(s, True)
    k, top = s.run(lambda: JSONSchema(doc, catalog=sch.CAT, cacheid=made.cacheid, metaschema_uri=sch.DIALECT['2020'], uri=ROOT))
    if want is None:
        s.check(k == 'exc' and isinstance(top, JschonError), lambda: f'a dynamic reference to nothing gives {top!r}')
        s.reach('refused')
        return
    s.check(k == 'ok', lambda: f'{type(top).__name__}: {top}')
    if init:
        for i in range(m):
            hit = [mark for n, dyn, mark in names[i] if dyn and n == ref]
            if hit:
                want = hit[0]
                break
    s.reach('dynamic' if init else 'static')

    def below():
        # from further down the chain, and from the last resource itself
        for i in range(m):
            y = x
            for j in reversed(range(i + 1, m)):
                y = wrapv[j](y)
            sub = sch.CAT.get_schema(URI(uri[i] + {'root': '', 'anchor': '#entry', 'pointer': '#/$defs/entry'}[entries[i]]), cacheid=made.cacheid)
            got = sub.evaluate(JSON(y)).valid
            w = plainly
            if init:
                for j in range(i, m):
                    hit = [mark for n, dyn, mark in names[j] if dyn and n == ref]
                    if hit:
                        w = hit[0]
                        break
            s.check(iff(got, x == w), lambda: f'from r{i}: {got} for {x}, the target is {w}')
    if history == 'before' or history == 'both':
        below()
    got = top.evaluate(JSON(v)).valid
    s.check(iff(got, x == want), lambda: f'{got} for {x}, the target is {want}')
    if history == 'after' or history == 'both':
        below()
    s.check(iff(top.evaluate(JSON(v)).valid, got), 'a second evaluation differs')


def roots(s, kinds, hops, history):
    """anchors in resource roots, which are evaluated again"""
    m = len(kinds)
    ref = s.string('ref', 1, ranges=((0x61, 0x62),), default='a')
    names, res, wrapv = [], {}, []
    uri = [U + f'r{i}' for i in range(m)]
    for i, kind in enumerate(kinds):
        n = s.string(f'n{i}', 1, ranges=((0x61, 0x62),), default='a') if kind != 'none' else None
        names.append((n, kind == 'dyn'))
        r = {'$id': uri[i], 'properties': {'leaf': {'const': i}}}
        if kind != 'none':
            r['$dynamicAnchor' if kind == 'dyn' else '$anchor'] = n
        w = lambda v: v
        if i + 1 < m:
            g, w = wrap(hops[i], uri[i + 1], i)
            r = {**g, **r, 'properties': {**g.get('properties', {}), **r['properties']}}
            if 'required' in g:
                del r['required']
            if 'minItems' in g:
                del r['minItems']
        else:
            r['properties']['go'] = {'$dynamicRef': '#' + ref}
        wrapv.append(w)
        res[f'r{i}'] = r
    x = s.int('x', 0, 9, 5)
    v = {'go': {'leaf': x}}
    for i in reversed(range(m)):
        v = wrapv[i](v)
    doc = {'$id': U + 'top', '$ref': 'r0', '$defs': res}
    made = sch.Made(s, True)
    k, top = s.run(lambda: JSONSchema(doc, catalog=sch.CAT, cacheid=made.cacheid, metaschema_uri=sch.DIALECT['2020'], uri=ROOT))
    n, dyn = names[-1]
    if n is None or no(n == ref):
        s.check(k == 'exc' and isinstance(top, JschonError), lambda: f'a dynamic reference to nothing gives {top!r}')
        return
    s.check(k == 'ok', lambda: f'{type(top).__name__}: {top}')
    want = m - 1
    if dyn:
        for i in range(m):
            if names[i][1] and names[i][0] == ref:
                want = i
                break
    if history:
        for i in reversed(range(m)):
            JSONSchema.evaluate(top['$defs'][f'r{i}'], JSON(v))
    s.reach(f'target {want}')
    got = top.evaluate(JSON(v)).valid
    s.check(iff(got, x == want), lambda: f'{got} for {x}, the target is r{want}')


def two_paths(s, hops, kinds):
    """one evaluation, two ways to the same dynamic reference"""
    x, y = s.int('x', 0, 9, 1), s.int('y', 0, 9, 2)
    nm = [s.string(f'n{i}', 1, ranges=((0x61, 0x62),), default='a') for i in range(3)]
    ref = nm[2]
    a = {'$id': U + 'a', '$defs': {'x': {'$dynamicAnchor' if kinds[0] else '$anchor': nm[0], 'const': 1}}}
    b = {'$id': U + 'b', '$defs': {'x': {'$dynamicAnchor' if kinds[1] else '$anchor': nm[1], 'const': 2}}}
    end = {'$id': U + 'end', '$dynamicRef': '#' + ref, '$defs': {'x': {'$dynamicAnchor' if kinds[2] else '$anchor': ref, 'const': 3}}}
    ca, wa = wrap(hops[0], U + 'end', 0)
    cb, wb = wrap(hops[1], U + 'end', 0)
    a.update(ca)
    b.update(cb)
    doc = {'properties': {'p': {'$ref': U + 'a'}, 'q': {'$ref': U + 'b'}}, '$defs': {'a': a, 'b': b, 'e': end}, 'additionalProperties': {'$ref': U + 'end'}}
    if s.flag('swap'):
        v = {'q': wb(y), 'p': wa(x)}
    else:
        v = {'p': wa(x), 'q': wb(y)}
    z = None
    if s.flag('direct'):
        z = s.int('z', 0, 9, 3)
        v['z'] = z
    k, r = s.run(sch.valid, s, doc, v)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    ta = 1 if kinds[2] and kinds[0] and nm[0] == ref else 3
    tb = 2 if kinds[2] and kinds[1] and nm[1] == ref else 3
    want = (x == ta) & (y == tb) & (True if z is None else z == 3)
    s.check(iff(r, want), lambda: f'{r} for {x} {y} {z}, targets {ta} {tb}')


def plain(s, form):
    """a dynamic reference whose target is no dynamic anchor is an ordinary one"""
    x = s.int('x', 0, 9, 5)
    nm = s.string('n', 1, ranges=((0x61, 0x7a),), default='a')
    outer = {'$dynamicAnchor': nm, 'const': 1}
    inner = {'$id': U + 'in', '$defs': {'t': {'const': 2}, 'd': {'$dynamicAnchor': nm, 'const': 3}, 'b': True, 'f': False}}
    ref, want = {'pointer': ('#/$defs/t', 2), 'pointer-dyn': ('#/$defs/d', 3), 'true': ('#/$defs/b', True), 'false': ('#/$defs/f', False), 'anchor': ('#s', 4),
                 'other': (U + 'k', 5), 'other-hash': ('k#', 5), 'other-anchor': ('k#s', 6), 'dyn': ('#' + nm, 1), 'other-dyn': ('k#' + nm, 1)}[form]
    inner['$defs']['s'] = {'$anchor': 's', 'const': 4}
    k = {'$id': U + 'k', 'const': 5, '$defs': {'s': {'$anchor': 's', 'const': 6}, 'd': {'$dynamicAnchor': nm, 'const': 7}}}
    if k and form.startswith('other') and form != 'other-anchor' and form != 'other-dyn':
        k['$defs'] = {'d': k['$defs']['d']}
    s.assume(no(nm == 's'))
    inner['$dynamicRef'] = ref
    doc = {'$ref': U + 'in', '$defs': {'i': inner, 'k': k, 'o': outer}}
    kind, r = s.run(sch.valid, s, doc, x)
    s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(iff(r, want if is_bool(want) else x == want), lambda: f'{form}: {r} for {x}, should be {want}')


def recursive(s, m, hops, layout, history):
    """2019-09"""
    uri = [U + f'r{i}' for i in range(m)]
    flags = [s.pick([True, False, None], f'anchor{i}') for i in range(m)]
    res, wrapv = [], []
    for i in range(m):
        r = {'$id': uri[i], 'properties': {'leaf': {'const': i}}}
        if flags[i] is not None:
            r['$recursiveAnchor'] = flags[i]
        w = lambda v: v
        if i + 1 < m:
            g, w = wrap(hops[i], uri[i + 1], i)
            r = {**g, **r, 'properties': {**g.get('properties', {}), **r['properties']}}
            r.pop('required', None)
            r.pop('minItems', None)
        else:
            r['properties']['go'] = {'$recursiveRef': '#'} if layout != 'deep' else {'allOf': [{'$recursiveRef': '#'}]}
        wrapv.append(w)
        res.append(r)
    x = s.int('x', 0, 9, 5)
    v = {'go': {'leaf': x}}
    for i in reversed(range(m)):
        v = wrapv[i](v)
    top = {'$ref': U + 'r0'}
    if layout == 'source':
        preserve(s, sch.CAT)
        sch.CAT.add_uri_source(URI(U), Memory({f'r{i}': res[i] for i in range(m)}))
    elif layout == 'nested':
        for i in reversed(range(m - 1)):
            res[i]['$defs'] = {'inner': res[i + 1]}
        top['$defs'] = {'r': res[0]}
    else:
        top['$defs'] = {f'r{i}': r for i, r in enumerate(res)}
    made = sch.Made(s, True, '2019')
    k, sc = s.run(lambda: JSONSchema(top, catalog=sch.CAT, cacheid=made.cacheid, metaschema_uri=sch.DIALECT['2019'], uri=ROOT))
    s.check(k == 'ok', lambda: f'{type(sc).__name__}: {sc}')
    want = m - 1
    if flags[-1] is True:
        want = [i for i in range(m) if flags[i] is True][0]

    def below():
        for i in reversed(range(m)):
            y = {'go': {'leaf': x}}
            for j in reversed(range(i, m)):
                y = wrapv[j](y)
            w = m - 1 if flags[-1] is not True else [j for j in range(i, m) if flags[j] is True][0]
            got = sch.CAT.get_schema(URI(uri[i]), cacheid=made.cacheid).evaluate(JSON(y)).valid
            s.check(iff(got, x == w), lambda: f'from r{i}: {got} for {x}, the target is r{w}')
    if history == 'before' or history == 'both':
        below()
    s.reach(f'target {want}')
    got = sc.evaluate(JSON(v)).valid
    s.check(iff(got, x == want), lambda: f'{got} for {x}, the target is r{want}, flags {flags}')
    if history == 'after' or history == 'both':
        below()


def tree(s, dialect, strict, n):
    """the extensible tree of the specification"""
    anchor, ref = ({'$recursiveAnchor': True}, {'$recursiveRef': '#'}) if dialect == '2019' else ({'$dynamicAnchor': 'node'}, {'$dynamicRef': '#node'})
    t = {'$id': U + 'tree', **anchor, 'type': 'object', 'properties': {'data': True, 'children': {'type': 'array', 'items': ref}}}
    st = {'$id': U + 'strict', **anchor, '$ref': 'tree', 'unevaluatedProperties': False, '$defs': {'t': t}}
    ks = [s.string(f'k{i}', 4 if i else 1, ranges=((0x61, 0x7a),), default='data') for i in range(n)]
    v = {'data': 1, 'children': []}
    for k in reversed(ks):
        v = {'children': [{'data': 0}, {k: 1, 'children': [v]}]}
    s.assume(all_(no(k == 'children') for k in ks)) if n else None
    doc = st if strict else t
    kind, r = s.run(sch.valid, s, doc, v, dialect)
    s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(iff(r, all_(k == 'data' for k in ks) if strict else True), lambda: f'tree: {r}')


def walk(s, n, m, dialect, layout, first):
    """a walk of n steps over m resources that refer to each other, by references and dynamic references, in any order"""
    flags = [s.pick([True, False, None], f'flag{i}') for i in range(m)]
    res = []
    for i in range(m):
        r = {'$id': U + f'r{i}', 'properties': {'leaf': {'const': i}, **{f'to{j}': {'$ref': f'r{j}'} for j in range(m)}}}
        if dialect == '2020':
            if flags[i] is not None:
                r['$dynamicAnchor' if flags[i] else '$anchor'] = 'n'
                r['properties']['go'] = {'$dynamicRef': '#n'}
        else:
            if flags[i] is not None:
                r['$recursiveAnchor'] = flags[i]
            r['properties']['go'] = {'$recursiveRef': '#'}
        res.append(r)
    top = {'$ref': U + 'r0'}
    if layout == 'nested':
        for i in reversed(range(m - 1)):
            res[i]['$defs'] = {'inner': res[i + 1]}
        top['$defs'] = {'r': res[0]}
    else:
        top['$defs'] = {f'r{i}': r for i, r in enumerate(res)}
    scope, path = [0], []
    for k in range(n):
        st = first if k == 0 and first else s.pick(['go'] + [f'to{j}' for j in range(m)], f'step{k}')
        path.append(st)
        if st == 'go':
            at = scope[-1]
            if dialect == '2020' and flags[at] is None:
                return            # no such property
            to = [i for i in scope if flags[i] is True][0] if flags[at] is True else at
        else:
            to = int(st[2:])
        scope.append(to)
    x = s.int('x', 0, 5, 1)
    v = {'leaf': x}
    for st in reversed(path):
        v = {st: v}
    k, r = s.run(sch.valid, s, top, v, dialect)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    s.check(iff(r, x == scope[-1]), lambda: f'{r} for {x} after {path}, should be at r{scope[-1]}; anchors {flags}')


def visits(s, order, kinds, hops, layout):
    """resources that are entered more than once"""
    m = len(kinds)
    defs, names = zip(*[anchors(s, i, k) for i, k in enumerate(kinds)])
    ref = s.string('ref', 1, ranges=((0x61, 0x63),), default='a')
    uri = [U + f'r{i}' for i in range(m)]
    res = [{'$id': uri[i], '$defs': dict(defs[i])} for i in range(m)]
    x = s.int('x', 0, 19, 5)
    cont, v = {'$dynamicRef': '#' + ref}, x
    for pos in reversed(range(len(order))):
        i = order[pos]
        res[i]['$defs'][f'entry{pos}'] = {'$anchor': f'entry{pos}', **cont}
        cont, w = wrap(hops[pos], uri[i] + f'#entry{pos}', pos)
        v = w(v)
    if layout == 'nested':
        for i in reversed(range(m - 1)):
            res[i]['$defs']['inner'] = res[i + 1]
        defs = {'r': res[0]}
    else:
        defs = {f'r{i}': res[i] for i in range(m)}
    want = init = None
    for n, dyn, mark in names[order[-1]]:
        if n == ref:
            init, want = dyn, mark
    k, r = s.run(sch.valid, s, {'$id': U + 'top', **cont, '$defs': defs}, v)
    if want is None:
        s.check(k == 'exc' and isinstance(r, JschonError), lambda: f'a dynamic reference to nothing gives {r!r}')
        return
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    if init:
        for i in order:
            hit = [mark for n, dyn, mark in names[i] if dyn and n == ref]
            if hit:
                want = hit[0]
                break
    s.check(iff(r, x == want), lambda: f'{r} for {x}, the target is {want}; resources entered: {order}')


def cases(tier):
    T = tier == 'thorough'
    from itertools import product
    cs = []
    KINDS = ('none', 'dyn', 'static', 'both', 'two', 'double')
    LAYOUTS = ('flat', 'reversed', 'nested', 'inside', 'source', 'source-mixed')
    every = {1: 1, 2: 1, 3: 2 if T else 9, 4: 12 if T else 150}
    for m in (1, 2, 3, 4):
        for kinds in product(KINDS, repeat=m):
            if kinds[-1] == 'none' and not some(6, kinds):
                continue
            if sum({'none': 0, 'dyn': 1, 'static': 1}.get(k, 2) for k in kinds) > (6 if T else 4) or not some(every[m], kinds, 'k'):
                continue
            for r in range(2 if m < 3 or T else 1):
                q = number(kinds, r)
                hops = tuple(HOPS[(q >> (4 * i)) % len(HOPS)] for i in range(m))
                entries = tuple(ENTRIES[(q >> (2 * i + 5)) % 5 % 3] for i in range(m))
                target = ('own', 'own', 'decoy', q // 4 % m)[q % 4]
                decoy = (None, 'dyn', None, 'both')[q // 7 % 4] if m < 4 else None
                if target == 'decoy':
                    decoy = ('dyn', 'both')[q // 7 % 2] if m < 3 else 'dyn'
                cs.append(Case(f"dynamic-{'.'.join(kinds)}-{r}", dynamic, kinds=kinds, hops=hops, entries=entries, target=target, layout=LAYOUTS[q // 3 % 6], decoy=decoy,
                               history=HISTORY[q // 11 % 4], weight=3 ** sum({'none': 0, 'dyn': 1, 'static': 1}.get(k, 2) for k in kinds)))
    for h in HOPS:
        for e in ENTRIES:
            for lay in LAYOUTS:
                if T or some(3, h, e, lay):
                    cs.append(Case(f'entry-{h}-{e}-{lay}', dynamic, kinds=('dyn', 'dyn'), hops=('ref', h), entries=('root', e), target='own', layout=lay, decoy='dyn', history=HISTORY[number(h, lay) % 4], weight=9))
                if T or some(6, h, e, lay, 2):
                    cs.append(Case(f'middle-{h}-{e}-{lay}', dynamic, kinds=('dyn', 'none', 'dyn'), hops=('allOf', h, 'prop'), entries=(e, 'root', e), target='own', layout=lay, decoy=None, history=HISTORY[number(h, lay) % 4], weight=9))
    for kinds in product(('none', 'dyn', 'static'), repeat=2):
        for i, h in enumerate(('after', 'both')):
            q = number(kinds, h)
            cs.append(Case(f"off-{'.'.join(kinds)}-{h}", dynamic, kinds=kinds, hops=(HOPS[q % len(HOPS)], HOPS[q // 16 % len(HOPS)]), entries=(ENTRIES[q % 3], ENTRIES[q // 5 % 3]), target='decoy',
                           layout=LAYOUTS[q % 6], decoy='dyn' if i else 'double', history=h, weight=12))
    ch = ('prop', 'items', 'dep', 'uneval', 'pattern')
    for m in (1, 2, 3):
        for kinds in product(('none', 'dyn', 'static'), repeat=m):
            q = number(kinds)
            cs.append(Case(f"roots-{'.'.join(kinds)}", roots, kinds=kinds, hops=tuple(ch[(q >> 3 * i) % 5] for i in range(m)), history=q % 2 == 0, weight=8))
    for kinds in product((True, False), repeat=3):
        for i, hops in enumerate((('ref', 'prop'), ('items', 'allOf'), ('dep', 'dyn'))):
            cs.append(Case(f'two-{kinds}-{i}', two_paths, hops=hops, kinds=kinds, weight=6))
    cs += [Case(f'plain-{f}', plain, form=f) for f in ('pointer', 'pointer-dyn', 'true', 'false', 'anchor', 'other', 'other-hash', 'other-anchor', 'dyn', 'other-dyn')]
    for m in (1, 2, 3, 4):
        for i in range(1 if m == 1 else 12 if T else 6):
            for lay in ('flat', 'nested', 'source', 'deep'):
                q = number(m, i, lay)
                cs.append(Case(f'recursive-{m}-{i}-{lay}', recursive, m=m, hops=tuple(ch[(q >> 3 * j) % 5] for j in range(m)), layout=lay, history=HISTORY[q % 4], weight=3 ** m / 3))
    for order in ((0, 1, 0), (0, 1, 0, 2), (0, 1, 2, 0), (0, 0, 1), (1, 0, 1, 0, 2), (0, 1, 2, 1), (0, 1, 2, 1, 0)):
        for kinds in product(('none', 'dyn', 'static', 'both'), repeat=max(order) + 1):
            if kinds[order[-1]] not in ('none', 'static') and sum(k == 'both' for k in kinds) < 2 and (T or len(kinds) < 3 or some(4, order, kinds)):
                q = number(order, kinds)
                cs.append(Case(f"visits-{''.join(map(str, order))}-{'.'.join(kinds)}", visits, order=order, kinds=kinds, hops=tuple(HOPS[(q >> (4 * i)) % len(HOPS)] for i in range(len(order))),
                               layout=('flat', 'nested')[q % 2], weight=20))
    for d in ('2020', '2019'):
        for n, m in ((2, 3), (3, 3), (4, 2)) + (((4, 3), (5, 2)) if T else ()):
            for lay in ('flat', 'nested'):
                if (n, m) == (2, 3) or T or lay == ('flat', 'nested')[(n + m + int(d)) % 2]:
                    for first in ('go', 'to0', 'to1', 'to2')[:m + 1] if n > 2 else (None,):
                        cs.append(Case(f'walk-{n}-{m}-{d}-{lay}-{first}', walk, n=n, m=m, dialect=d, layout=lay, first=first, weight=(m + 1) ** (n - 1) * 3))
    cs += [Case(f'tree-{d}-{st}-{n}', tree, dialect=d, strict=st, n=n, weight=5) for d in ('2019', '2020') for st in (True, False) for n in (0, 1, 2)]
    return cs
