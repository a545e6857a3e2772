"""C04: evaluating a JSON pointer against a document."""
from jschon import JSON, JSONPointer
from jschon.exc import JSONPointerReferenceError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import Missing, lookup, nodes, distinct, strict

BOUNDS = 'documents of depth up to 3 from 12 shapes, arrays of up to 12 items, object keys of up to 2 symbolic ' \
         'characters; pointers of up to 3 tokens of up to 2 characters (3 in thorough), and of one index of up to 21 digits; all Unicode scalar values'


def make(s, shape):
    k = lambda i, n=1: s.string(f'doc{i}', n, default='01-a')
    if shape == 'null':
        return None
    if shape == 'int':
        return s.int('v', -5, 5)
    if shape == 'str':
        return s.string('v', 2, default='ab')
    if shape == 'arr0':
        return []
    if shape == 'arr3':
        return [5, 'x', None]
    if shape == 'arr12':
        return list(range(100, 112))
    if shape == 'tuple':
        return (1, 2)
    if shape == 'obj1':
        return {k(0): 7}
    if shape == 'obj2':
        a, b = k(0), k(1, 2)
        return {a: 7, b: 'x'}
    if shape == 'obj3':
        a, b, c = k(0, 0), k(1), k(2)
        distinct(s, [b, c])
        return {a: 7, b: True, c: None}
    if shape == 'arr-obj':
        return [[], {k(0): 1, '10': 2}, 'ab']
    if shape == 'obj-arr':
        a, b = k(0), k(1)
        distinct(s, [a, b])
        return {a: [1, 2, [3]], b: {'0': 5, '-': 6}}
    if shape == 'arr-arr':
        return [[1, [2, 3]], [[4], 5]]
    if shape == 'obj-obj':
        a = k(0)
        return {a: {'a': {'': 1, 'b': [1]}}, 'zz': 'str'}


def ev(s, shape, lens, kind, sub):
    doc = make(s, shape)
    ks = [s.string(f't{i}', n, default='0a-') for i, n in enumerate(lens)]
    cls = Mine if sub else JSONPointer
    p = cls(ks)
    try:
        want, found = lookup(doc, ks), True
    except Missing:
        want, found = None, False
    root = JSON(doc) if kind == 'json' else doc
    how, r = s.run(p.evaluate, root)
    if not found:
        s.reach('missing')
        s.check(how == 'exc', 'a location that does not exist was found')
        s.check(isinstance(r, JSONPointerReferenceError), lambda: f'wrong exception {type(r).__name__}: {r}')
        if sub:
            s.check(type(r) is MyRef, 'a subclass does not raise its own reference_exc')
        return
    s.reach('found')
    s.check(how == 'ok', lambda: f'a location that exists was not found: {type(r).__name__}')
    if kind == 'json':
        s.check(isinstance(r, JSON), 'not a JSON node')
        s.check(strict(r.value, want), 'the wrong node')
        s.check(eq_(list(r.path), ks), 'the path of the node found is not the pointer')
    else:
        s.check(r is want or (not isinstance(want, (dict, list, tuple)) and r == want), 'the wrong value')


class MyRef(JSONPointerReferenceError):
    pass


class Mine(JSONPointer):
    reference_exc = MyRef


def every(s, shape, kind):
    """every node of a document is what its own path evaluates to"""
    doc = make(s, shape)
    root = JSON(doc)
    for path, v in nodes(doc):
        p = JSONPointer(path)
        if kind == 'json':
            r = p.evaluate(root)
            s.check(strict(r.value, v), 'the path of a node leads elsewhere')
            s.check(r.path == p, 'the path of a node is not the pointer that leads to it')
            s.check(r.path.evaluate(root) is r, 'a path does not evaluate to its own node')
            for cut in range(len(path) + 1):
                mid = p[:cut].evaluate(root)
                s.check(p[cut:].evaluate(mid) is r, 'evaluating in two steps leads elsewhere')
        else:
            s.check(strict(p.evaluate(doc), v), 'the path of a node leads elsewhere')
        q = JSONPointer(str(p))
        s.check(strict(q.evaluate(doc), v), 'the text of a path leads elsewhere')


def long(s, n, size, kind, deep):
    """indices of many digits"""
    k = s.string('k', n, ranges=((0x30, 0x39),), default='0' * (n - 1) + '1')
    doc = list(range(100, 100 + size))
    doc = [doc] if deep else doc
    root = JSON(doc) if kind == 'json' else doc
    toks = ['0', k] if deep else [k]
    try:
        want, found = lookup(doc, toks), True
    except Missing:
        found = False
    how, r = s.run(JSONPointer(toks).evaluate, root)
    s.check((how == 'ok') == found, lambda: f'the index {k} of {size} items: {how}')
    if found:
        s.check(strict(r.value if kind == 'json' else r, want), 'the wrong item')
        s.reach('found')
    else:
        s.check(isinstance(r, JSONPointerReferenceError), lambda: f'wrong exception {type(r).__name__}: {r}')
        s.reach('missing')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in (1, 2, 3, 5, 8, 10, 11, 19, 20, 21) + ((30, 40) if T else ()):
        cs += [Case(f'long-{n}-{z}-{k}', long, n=n, size=z, kind=k, deep=n % 2 == 0) for z in (0, 1, 2, 12) for k in ('plain', 'json')]
    flat = {'null': [(1,)], 'int': [(0,), (1,)], 'str': [(1,), (0,)], 'arr0': [(), (1,), (2,)],
            'arr3': [(0,), (1,), (2,)], 'arr12': [(2,), (1,), (3,)], 'tuple': [(1,)], 'obj1': [(1,), (0,), (2,)],
            'obj2': [(1,), (2,), (1, 1)], 'obj3': [(0,), (1,)], 'arr-obj': [(1, 1), (1, 2), (2,), (1, 1, 1)],
            'obj-arr': [(1, 1), (1, 1, 1), (1, 2)], 'arr-arr': [(1, 1, 1), (1, 1), (2, 1)],
            'obj-obj': [(1, 1, 0), (1, 1, 1), (2, 1), (1, 1, 1, 1)]}
    for shape, ls in flat.items():
        allof = [()] + [(a,) for a in (0, 1, 2)] + [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)] + [(1, 0, 1), (0, 1, 1), (0, 0, 1)]
        if T:
            allof += [(3,), (1, 2, 1), (2, 1, 1), (1, 1, 2), (0, 0, 0)]
        for lens in ls + [x for x in allof if x not in ls]:
            for kind in ('plain', 'json'):
                if shape == 'tuple' and kind == 'json':
                    continue
                cs.append(Case(f"eval-{kind}-{shape}-{'.'.join(map(str, lens))}", ev, shape=shape, lens=lens, kind=kind,
                               sub=False, weight=3.0 ** sum(lens)))
        for kind in ('plain', 'json'):
            if shape != 'tuple' or kind == 'plain':
                cs.append(Case(f'every-{kind}-{shape}', every, shape=shape, kind=kind, weight=5))
    cs.append(Case('eval-sub', ev, shape='obj-arr', lens=(1, 1), kind='json', sub=True, reach=('found', 'missing')))
    cs.append(Case('eval-sub-plain', ev, shape='arr-obj', lens=(1, 1), kind='plain', sub=True, reach=('found', 'missing')))
    return cs
