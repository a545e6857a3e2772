"""C09: JSON Patch operations against RFC 6902."""
from jschon import JSONPatch, JSONPointer, jsonpatch
from jschon.jsonpatch import JSONPatchOperation
from jschon.exc import JSONPatchError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, clone, strict, nodes, distinct
from harness import patchref

BOUNDS = 'documents of depth up to 4 of 12 shapes with arrays of up to 12 items and symbolic object keys of up to 2 characters; ' \
         'target and source pointers of up to 3 tokens of up to 2 characters (all Unicode scalar values); values of every type, ' \
         'symbolic for test; operations given as an object, as a patch of one, and as the function'


def doc(s, shape):
    k = lambda i, n=1: s.string(f'doc{i}', n, default='0a-')
    if shape == 'null':
        return None
    if shape == 'str':
        return 'ab'
    if shape == 'arr0':
        return []
    if shape == 'arr2':
        return [5, 'x']
    if shape == 'arr12':
        return list(range(100, 112))
    if shape == 'obj0':
        return {}
    if shape == 'obj1':
        return {k(0): 7}
    if shape == 'obj2':
        return {k(0): 7, k(1, 2): [1]}
    if shape == 'objarr':
        return {'a': [1, [2]], k(0): {'0': 5, '-': 6, '': []}}
    if shape == 'arrobj':
        return [{k(0): 1}, [], 'ab', 3]
    if shape == 'deep':
        return [[[1, 2], {'a': [3]}], {'a': {'a': {'b': 4}}}]
    if shape == 'objobj':
        return {'a': {'b': {}, k(0): 'ab'}, '0': 1}


def toks(s, name, lens):
    return [s.string(f'{name}{i}', n, default='0a-') for i, n in enumerate(lens)]


VALUE = {'add': lambda s: [{'new': 1}], 'replace': lambda s: {'new': [1]}, 'test': lambda s: None}


def run(s, op, d, path, v, frm, form):
    if form == 'function':
        f = getattr(jsonpatch, op)
        p = JSONPointer(path)
        c = clone(d)
        if op in ('move', 'copy'):
            return s.run(f, c, p, JSONPointer(frm))
        return s.run(f, c, p, v) if op != 'remove' else s.run(f, c, p)
    o = {'op': op, 'path': str(JSONPointer(path)) if form == 'text' else JSONPointer(path)}
    if op in ('add', 'replace', 'test'):
        o['value'] = v
    if op in ('move', 'copy'):
        o['from'] = str(JSONPointer(frm)) if form == 'text' else JSONPointer(frm)
    if form == 'operation':
        return s.run(JSONPatchOperation(**o).apply, clone(d))
    return s.run(JSONPatch(o).evaluate, d)


def one(s, op, shape, lens, flens=None, form='patch', tv=None):
    d = doc(s, shape)
    path = toks(s, 'p', lens)
    frm = toks(s, 'f', flens) if flens is not None else None
    v = testvalue(s, tv) if op == 'test' else VALUE[op](s) if op in VALUE else None
    keep = clone(d)
    ok, want = patchref.apply(d, op, path, v, frm)
    k, r = run(s, op, d, path, v, frm, form)
    if not ok:
        s.reach('error')
        s.check(k == 'exc', f'{op} succeeds where RFC 6902 makes it an error')
        s.check(isinstance(r, JSONPatchError), lambda: f'{op}: wrong exception {type(r).__name__}')
    else:
        s.reach('ok')
        s.check(k == 'ok', lambda: f'{op} fails where RFC 6902 defines a result: {r}')
        s.check(same(r, want), f'{op} gives the wrong document')
        s.obs(r)
    s.check(strict(d, keep), 'the document given was changed')


def testvalue(s, kind):
    return {'int': lambda: s.int('v', -9, 9, 5), 'str': lambda: s.string('v', 1, default='x'), 'bool': lambda: s.flag('v'),
            'real': lambda: s.real('v', -90, 90, 10, 50), 'null': lambda: None, 'arr': lambda: [s.int('v', -9, 9, 1)],
            'obj': lambda: {s.string('v', 1, default='b'): 4}}[kind]()


SHAPES = ['null', 'str', 'arr0', 'arr2', 'arr12', 'obj0', 'obj1', 'obj2', 'objarr', 'arrobj', 'deep', 'objobj']


def testdoc(s, kind, vkind):
    """test against symbolic values of all types"""
    mk = {'int': lambda: s.int('d', -9, 9, 5), 'str': lambda: s.string('d', 1, default='x'), 'bool': lambda: s.flag('d'),
          'real': lambda: s.real('d', -90, 90, 10, 50), 'null': lambda: None, 'arr': lambda: [s.int('d', -9, 9, 1)],
          'obj': lambda: {s.string('d', 1, default='b'): 4}}
    x = mk[kind]()
    v = testvalue(s, vkind)
    for d, p in (({'a': x}, '/a'), ([0, x], '/1'), (x, ''), ({'a': [{'b': x}]}, '/a/0/b')):
        k, r = s.run(JSONPatch({'op': 'test', 'path': p, 'value': v}).evaluate, d)
        s.check(iff(k == 'ok', same(x, v)), 'test does not mean equality')
        s.check(k == 'ok' or isinstance(r, JSONPatchError), 'wrong exception')
        s.check(k != 'ok' or same(r, d), 'test changes the document')


KINDS = ('int', 'str', 'bool', 'real', 'null', 'arr', 'obj')


def typed(s, kind, vkind):
    """a value of any type is put in the place of one of any type: types count, however alike the values"""
    x, v = typevalue(s, kind, 'd'), typevalue(s, vkind, 'v')
    for d, path in (({'a': x, 'b': v}, ('a',)), ([v, x], ('1',)), (x, ()), ({'a': [{'b': x}], 'b': v}, ('a', '0', 'b'))):
        for op in ('replace', 'add', 'copy', 'move'):
            frm = None
            if op in ('copy', 'move'):
                if not path:
                    continue
                frm = ('b',) if isinstance(d, dict) else ('0',)
            ok, want = patchref.apply(clone(d), op, path, v, frm)
            k, r = run(s, op, d, path, v, frm, 'patch')
            s.check((k == 'ok') == ok, lambda: f'{op} gives {r}')
            s.check(not ok or same(r, want), lambda: f'{op} of a value in the place of another gives the wrong document')
            s.reach(op)


def typevalue(s, kind, n):
    return {'int': lambda: s.int(n, -2, 2, 1), 'str': lambda: s.pick(['', '0', '1', 'null'], n), 'bool': lambda: s.flag(n),
            'real': lambda: s.real(n, -20, 20, 10, 10), 'null': lambda: None, 'arr': lambda: s.pick([[], [s.int(n, 0, 1, 1)], [s.flag(n)]], n + 's'),
            'obj': lambda: s.pick([{}, {'a': s.int(n, 0, 1, 1)}, {'a': s.flag(n)}], n + 's')}[kind]()


OPS = ['add', 'remove', 'replace', 'move', 'copy']


def sequence(s, shape, n, op0):
    """operations in order, each on the result of the one before"""
    d = doc(s, shape)
    ops, cur, okay = [], clone(d), True
    for i in range(n):
        op = op0 if i == 0 else s.pick(OPS, f'op{i}')
        path = toks(s, f'p{i}.', s.pick([(1,), ()] if i == 0 else [(1,), (1, 1)], f'len{i}'))
        frm = toks(s, f'f{i}.', (1,)) if op in ('move', 'copy') else None
        v = [i]
        o = {'op': op, 'path': str(JSONPointer(path))}
        if op in ('add', 'replace'):
            o['value'] = v
        if frm is not None:
            o['from'] = str(JSONPointer(frm))
        ops.append(o)
        if okay:
            okay, cur = patchref.apply(cur, op, path, v, frm)
        if not okay:
            break
    k, r = s.run(JSONPatch(*ops).evaluate, d)
    s.check((k == 'ok') == okay, lambda: f'the patch {"succeeds" if k == "ok" else "fails"}')
    if okay:
        s.check(same(r, cur), 'the patch gives the wrong document')
    else:
        s.check(isinstance(r, JSONPatchError), lambda: f'wrong exception {type(r).__name__}')


def cases(tier):
    T = tier == 'thorough'
    cs = [Case(f'typed-{a}-{b}', typed, kind=a, vkind=b) for a in KINDS for b in KINDS]
    for shape in SHAPES:
        depth = {'deep': 3, 'objobj': 3, 'objarr': 3, 'arrobj': 3}.get(shape, 2)
        lens = [()] + [(a,) for a in (0, 1, 2)] + [(a, b) for a in (0, 1) for b in (0, 1, 2) if a or b]
        if depth == 3:
            lens += [(1, 1, 1), (1, 1, 0)]
        if T:
            lens += [(3,), (2, 2), (1, 1, 2)]
        for op in ('add', 'remove', 'replace'):
            for l in lens:
                cs.append(Case(f"{op}-{shape}-{'.'.join(map(str, l))}", one, op=op, shape=shape, lens=l, weight=2 ** sum(l)))
            for form in ('function', 'operation', 'text'):
                cs.append(Case(f'{op}-{shape}-{form}', one, op=op, shape=shape, lens=(1,), form=form))
        for l in [(), (1,), (1, 1)]:
            for tv in ('int', 'str', 'arr', 'null'):
                cs.append(Case(f"test-{shape}-{'.'.join(map(str, l))}-{tv}", one, op='test', shape=shape, lens=l, tv=tv))
        for op in ('move', 'copy'):
            for l in [(), (1,), (2,), (1, 1), (1, 0), (1, 1, 1)]:
                for f in [(), (1,), (1, 1), (2,)] + ([(1, 1, 1)] if depth == 3 else []):
                    if sum(l) + sum(f) <= (6 if T else 4):
                        cs.append(Case(f"{op}-{shape}-{'.'.join(map(str, l))}-{'.'.join(map(str, f))}", one, op=op, shape=shape,
                                       lens=l, flens=f, weight=3 ** (sum(l) + sum(f))))
            for form in ('function', 'operation', 'text'):
                cs.append(Case(f'{op}-{shape}-{form}', one, op=op, shape=shape, lens=(1,), flens=(1,), form=form))
        for n in (2, 3):
            for op in OPS:
                cs.append(Case(f'sequence{n}-{shape}-{op}', sequence, shape=shape, n=n, op0=op, weight=(300 if op in ('move', 'copy') else 150) * n,
                               thorough_only=n == 3 or shape in ('deep', 'arr12', 'objarr')))
    kinds = ('int', 'real', 'bool', 'str', 'null', 'arr', 'obj')
    cs += [Case(f'testdoc-{a}-{b}', testdoc, kind=a, vkind=b) for a in kinds for b in kinds]
    return cs
