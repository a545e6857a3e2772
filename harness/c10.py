"""C10: a JSON Patch is atomic, pure and repeatable."""
from jschon import JSONPatch, JSONPointer
from jschon.exc import JSONPatchError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, clone, strict
from harness import patchref
from harness.c09 import doc, toks

BOUNDS = 'patches of up to 3 (thorough 4) operations of every kind on documents of 7 shapes; target and source pointers of up to 2 symbolic ' \
         'tokens of 1 character or fixed pointers; values that are nested containers; a failing operation at any place'

VALUES = [lambda s: {'n': [1, {'m': []}]}, lambda s: [[2], {}]]


def containers(x, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            containers(v, out)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            containers(v, out)
    return out


def share(a, b):
    ids = {id(x) for x in containers(a)}
    return any(id(y) in ids for y in containers(b))


def spoil(x):
    for c in containers(x):
        if isinstance(c, list):
            c.append('spoilt')
        else:
            c['spoilt'] = ['x']


def shapes(s, name):
    if name == 'aliased':
        return {'a': {'x': [1]}, 'b': [[2], {'y': {}}]}
    return doc(s, name)


PTRS = {'sym1': lambda s, n: toks(s, n, (1,)), 'root': lambda s, n: [], 'sym2': lambda s, n: toks(s, n, (1, 1))}
PLANS = [  # lists of (op, target pointer kind, source pointer kind)
    [('add', 'sym1', None)], [('replace', 'sym1', None)], [('add', 'root', None)], [('replace', 'root', None)],
    [('remove', 'sym1', None)], [('remove', 'root', None)], [('copy', 'sym1', 'sym1')], [('move', 'sym1', 'sym1')],
    [('copy', 'sym1', 'root')], [('test', 'sym1', None)], [('copy', 'root', 'sym1')],
    [('add', 'root', None), ('add', 'sym1', None)], [('replace', 'root', None), ('remove', 'sym1', None)],
    [('add', 'sym1', None), ('copy', 'sym1', 'sym1')], [('copy', 'sym1', 'sym1'), ('add', 'sym2', None)],
    [('copy', 'sym1', 'sym1'), ('remove', 'sym2', None)],
    [('add', 'sym1', None), ('remove', 'sym1', None)], [('remove', 'sym1', None), ('add', 'sym1', None)],
    [('move', 'sym1', 'sym1'), ('replace', 'sym1', None)], [('add', 'sym1', None), ('test', 'sym1', None)],
    [('replace', 'sym1', None), ('move', 'sym1', 'sym1')],
    [('add', 'sym1', None), ('add', 'sym2', None)], [('replace', 'sym1', None), ('remove', 'sym2', None)],
    [('add', 'root', None), ('copy', 'sym1', 'sym1'), ('add', 'sym2', None)],
    [('add', 'sym1', None), ('copy', 'sym1', 'sym1'), ('remove', 'sym2', None)],
    [('replace', 'root', None), ('add', 'sym2', None), ('test', 'sym1', None)],
]


def run(s, shape, plan):
    d = shapes(s, shape)
    ops, cur, okay = [], clone(d), True
    values = []
    for i, (op, tk, fk) in enumerate(plan):
        path = PTRS[tk](s, f'p{i}.')
        frm = PTRS[fk](s, f'f{i}.') if fk else None
        o = {'op': op, 'path': str(JSONPointer(path))}
        v = None
        if op in ('add', 'replace', 'test'):
            v = VALUES[i % 2](s)
            if op == 'test' and s.flag('match'):
                v = clone(VALUES[0](s))
            o['value'] = v
            values.append(v)
        if frm is not None:
            o['from'] = str(JSONPointer(frm))
        ops.append(o)
        if okay:
            okay, cur = patchref.apply(cur, op, path, v, frm)
    patch = JSONPatch(*ops)
    keep_d, keep_ops = clone(d), [clone(o) for o in ops]
    inner = containers(d)
    results = []
    for turn in range(2):
        k, r = s.run(patch.evaluate, d)
        s.check((k == 'ok') == okay, lambda: f'evaluation {turn + 1} {"succeeds" if k == "ok" else "fails"}')
        s.check(strict(d, keep_d), 'the document given was changed')
        s.check(all(x is y for x, y in zip(inner, containers(d))) and len(inner) == len(containers(d)), 'containers of the document were replaced')
        s.check(all_(strict(o, q) for o, q in zip(ops, keep_ops)), 'a value in the patch was changed')
        s.check(all_(strict(o, q) for o, q in zip(patch.aslist(), keep_ops)), 'the patch was changed')
        if not okay:
            s.reach('error')
            s.check(isinstance(r, JSONPatchError), lambda: f'wrong exception {type(r).__name__}')
            continue
        s.reach('ok')
        s.check(same(r, cur), f'evaluation {turn + 1} gives the wrong document')
        s.check(not share(r, d), 'the result shares data with the document given')
        s.check(not any(share(r, v) for v in values), 'the result shares data with the patch')
        s.check(not any(share(r, q) for q in results), 'the result shares data with an earlier result')
        cs = containers(r)
        s.check(len({id(c) for c in cs}) == len(cs), 'the result holds the same container twice')
        results.append(r)
        spoil(r)
    if okay:
        # the patch evaluated on its own result, and on a part of another document
        k, r = s.run(patch.evaluate, clone(keep_d))
        s.check(k == 'ok' and same(r, cur), 'a later evaluation gives another document')
        if isinstance(d, (list, dict)):
            spoil(d)
            s.check(same(r, cur), 'a result changed with the document it was made from')


def fresh_state(s, n):
    """each evaluation starts from the operations as they are now"""
    k = s.string('k', 1, default='a')
    p = JSONPatch({'op': 'add', 'path': '/-', 'value': [1]})
    s.check(p.evaluate([]) == [[1]], 'add at the end')
    p.append({'op': 'add', 'path': '/0', 'value': {k: 2}})
    s.check(p.evaluate([]) == [{k: 2}, [1]], 'an operation appended after an evaluation is not applied')
    del p[0]
    s.check(p.evaluate([0]) == [{k: 2}, 0], 'an operation deleted after an evaluation is applied')
    p[0] = {'op': 'remove', 'path': '/0'}
    s.check(p.evaluate([0]) == [], 'an operation replaced after an evaluation is not applied')
    s.check(JSONPatch().evaluate({k: [1]}) == {k: [1]}, 'the empty patch changes the document')
    d = {k: [1]}
    s.check(JSONPatch().evaluate(d) is not d, 'the empty patch returns the document itself')


def cases(tier):
    cs = [Case('fresh', fresh_state, n=0)]
    for shape in ('aliased', 'arr2', 'obj2', 'objarr', 'arrobj', 'deep', 'null'):
        for i, plan in enumerate(PLANS):
            if shape == 'null' and len(plan) > 2:
                continue
            w = sum({'root': 0, 'sym1': 1, 'sym2': 2, None: 0}[k] for o in plan for k in o[1:])
            cs.append(Case(f'{shape}-{i}', run, shape=shape, plan=plan, weight=3 ** w, thorough_only=w > 3))
    return cs
