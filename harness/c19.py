"""C19: output formats."""
from jschon import JSON, JSONPointer
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch, schref
from harness.programs import P, W, wrapped
from harness.util import same, clone, strict, some, is_bool
from harness.c18 import unordered
from harness.c20 import bag, shown, reference

prepare = sch.prepare
BOUNDS = f'{len(P)} schema programs covering every keyword, with symbolic instance values and partly symbolic names, each by itself, reached by ' \
         f'{len(W)} routes and (a fixed part) by two of them in a row; every output format; basic with no filter and five filters of up to ' \
         'three annotation names, in five kinds of iterable'


def pointer(toks):
    r = ''
    for t in toks:
        r = r + '/' + t.replace('~', '~0').replace('/', '~1')
    return r


def jsonlike(x):
    if x is None or isinstance(x, (str, int, float)):
        return True
    if type(x) is list:
        return all(jsonlike(v) for v in x)
    if type(x) is dict:
        return all(isinstance(k, str) and jsonlike(v) for k, v in x.items())
    return is_bool(x)


def unit_is(u, node, msg=True):
    """an output unit has the locations of the result, and its message"""
    ok = u['instanceLocation'] == str(node.instance.path) and u['keywordLocation'] == str(node.path) and \
        u['absoluteKeywordLocation'] == str(node.absolute_uri)
    if ok and msg:
        for name, v in (('annotation', node.annotation if node.valid else None), ('error', None if node.valid else node.error)):
            if v is None:
                ok = ok and name not in u
            else:
                ok = ok and name in u and bool(same(u[name], v))
    return ok


def verbose_ok(u, node):
    kids = u.get('annotations' if node.valid else 'errors', [])
    return u['valid'] == node.valid and unit_is(u, node) and len(kids) == len(node.children) and ('errors' if node.valid else 'annotations') not in u and \
        all(verbose_ok(k, c) for k, c in zip(kids, node.children.values()))


def detailed_leaves(u, out):
    kids = u.get('annotations', []) + u.get('errors', [])
    for k in kids:
        detailed_leaves(k, out)
    if not kids:
        out.append(u)


def nested_ok(u, top):
    """units that are neither the root nor leaves hold at least two others; locations deepen"""
    kids = u.get('annotations', u.get('errors'))
    if kids is None:
        return True
    return (top or len(kids) > 1) and 'annotation' not in u and 'error' not in u and \
        all(k['keywordLocation'].startswith(u['keywordLocation']) and nested_ok(k, False) for k in kids)


def tree_leaves(node, valid, out, top=True):
    kids = [c for c in node.children.values() if c.valid is valid]
    for c in kids:
        tree_leaves(c, valid, out, False)
    if not kids and not top:
        out.append(node)


def units(u):
    yield u
    for d in u.get('details', []):
        yield from units(d)


def results(node):
    yield node
    for c in node.children.values():
        yield from results(c)


def one(s, program, how=()):
    dialect, value, x = wrapped(s, program, how)
    r = sch.evaluate(s, value, x, dialect)
    ref = reference(value, x, dialect)
    v = ref.valid
    s.check(bool(r.valid) == v, 'verdict')
    s.reach('valid' if v else 'invalid')
    out = {f: r.output(f) for f in ('flag', 'basic', 'detailed', 'verbose', 'hierarchical')}
    for f, o in out.items():
        s.check(o['valid'] is v, lambda: f'{f} reports {o["valid"]} for {v}')
        s.check(jsonlike(o), lambda: f'{f} is not JSON data: {shown(o)}')
    s.check(list(out['flag']) == ['valid'], 'flag')
    # basic against the reference
    if v:
        want = [(pointer(p), pointer(ip), w) for p, ip, _, w in ref.anns if w is not None]
        units_ = [(u['keywordLocation'], u['instanceLocation'], u['annotation']) for u in out['basic']['annotations']]
        cmp = lambda a, b: a[0] == b[0] and a[1] == b[1] and unordered(a[2], b[2])
        s.check('errors' not in out['basic'], 'errors in a passing output')
    else:
        want = [(pointer(p), pointer(ip)) for p, ip, _ in ref.errs] + ([('', '')] if ref.own else [])
        units_ = [(u['keywordLocation'], u['instanceLocation']) for u in out['basic']['errors']]
        cmp = lambda a, b: a[0] == b[0] and a[1] == b[1]
        s.check('annotations' not in out['basic'] and all(u['error'] is not None for u in out['basic']['errors']), 'basic errors')
    s.check(bag(units_, want, cmp), lambda: f'basic lists {shown(units_)}, should be {shown(want)}')
    byloc = list(results(r))
    for u in out['basic']['annotations' if v else 'errors']:
        s.check(any(unit_is(u, node) for node in byloc), lambda: f'a unit that is no result: {shown(u)}')
    # filters
    form, names = s.pick([(list, []), (tuple, ['title']), (iter, ['title', 'properties', 'items']), (set, ['items', 'properties']),
                          (dict.fromkeys, ['nothing', 'default'])], 'filter') if not how else (iter, ['title', 'default'])
    o = r.output('basic', annotations=form(names))
    if v:
        left = [u for u in out['basic']['annotations'] if list(JSONPointer(u['keywordLocation']))[-1:] and list(JSONPointer(u['keywordLocation']))[-1] in names]
        s.check(strict(o, {'valid': True, 'annotations': left}), lambda: f'annotations filtered by {names} are {shown(o)}')
    else:
        s.check(strict(o, out['basic']), 'errors depend on the annotation filter')
    # nested formats against the tree of results
    s.check(verbose_ok(out['verbose'], r), 'verbose is not the tree of results')
    got, want = [], []
    d = out['detailed']
    for u in d['annotations' if v else 'errors']:
        detailed_leaves(u, got)
    tree_leaves(r, v, want)
    s.check(bag(got, want, unit_is), lambda: f'detailed has the leaves {shown(got)}')
    s.check(nested_ok(d, True), 'detailed is not nested right')
    s.check(d['instanceLocation'] == '' and d['keywordLocation'] == '', 'root of detailed')
    for u in units(out['hierarchical']):
        here = [n for n in byloc if str(n.path) == u['evaluationPath'] and str(n.instance.path) == u['instanceLocation'] and n.valid is u['valid']
                and str(n.absolute_uri) == u['schemaLocation']]
        s.check(len(here) > 0, lambda: f'a hierarchical unit that is no result: {shown(u)}')
        for name in ('annotations', 'errors'):
            for k, w in u.get(name, {}).items():
                s.check(any(c.key == k and bool(same(c.annotation if name == 'annotations' else c.error, w)) for n in here for c in n.children.values()),
                        lambda: f'{name} of a hierarchical unit: {k}: {shown(w)}')
            s.check((name == 'annotations') == u['valid'] or name not in u, 'errors in a valid unit or annotations in an invalid one')


def cases(tier):
    cs = [Case(f'program-{p}', one, program=p, weight=30) for p in P]
    cs += [Case(f'program-{p}-{w}', one, program=p, how=(w,), weight=10) for p in P for w in W if tier == 'thorough' or some(2, p, w)]
    cs += [Case(f'program-{p}-{w}-{u}', one, program=p, how=(w, u), weight=15) for p in P for w in W for u in W if some(3 if tier == 'thorough' else 60, p, w, u)]
    return cs
