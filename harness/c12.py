"""C12: JSON Patch objects as lists of RFC 6902 operation objects."""
import json

from jschon import JSONPatch, JSONPointer
from jschon.jsonpatch import JSONPatchOperation, PatchOp
from jschon.exc import JSONPointerMalformedError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, clone, strict
from harness.c01 import valid
from harness.c07 import build, SHAPES as VSHAPES

BOUNDS = 'operations of every kind with paths of up to 2 symbolic tokens of up to 2 characters and values of 9 shapes; all pairs of ' \
         'operations; lists of up to 4 operations under 10 list operations with symbolic indices'

OPS = ['add', 'remove', 'replace', 'move', 'copy', 'test']


def obj(s, op, n, lens=(1,), vt='int', text=True):
    toks = [s.string(f'{n}p{i}', k, default='a~') for i, k in enumerate(lens)]
    p = JSONPointer(toks)
    o = {'op': op, 'path': str(p) if text else p}
    if op in ('add', 'replace', 'test'):
        o['value'] = build(s, VSHAPES[vt], n + 'v', small=True)
    if op in ('move', 'copy'):
        f = JSONPointer([s.string(f'{n}f0', 1, default='b')])
        o['from'] = str(f) if text else f
    return o


def want(o):
    return {k: str(v) if k in ('path', 'from') else v for k, v in o.items()}


def serialise(s, op, lens, vt):
    o = obj(s, op, 'a', lens, vt)
    keep = clone(o)
    for form in ('dict', 'kwargs', 'pointers'):
        if form == 'dict':
            x = JSONPatchOperation(**o)
        elif form == 'kwargs':
            q = dict(o)
            if 'from' in q:
                q['from_'] = q.pop('from')
            q['op'] = PatchOp(op)
            x = JSONPatchOperation(**q)
        else:
            q = {k: JSONPointer(v) if k in ('path', 'from') else v for k, v in o.items()}
            x = JSONPatchOperation(**q)
        d = x.asdict()
        s.check(set(d) == set(keep), lambda: f'{op} has the members {sorted(d)}')
        s.check(same(d, keep), f'{op} does not serialise to what it was made of ({form})')
        s.check(type(d['op']) is str, 'op is not a plain string')
        s.check(JSONPatchOperation(**d) == x, 'the operation made of the serialised form is not equal')
        s.check(x == keep and x == d, 'an operation does not equal its operation object')
    p = JSONPatch(o, x)
    s.check(same(p.aslist(), [keep, keep]), 'aslist')
    s.check(JSONPatch(*p.aslist()) == p, 'the patch made of the serialised form is not equal')
    s.check(p == p.aslist(), 'a patch does not equal its list')
    s.check(strict(o, keep), 'the operation object was changed')


def equality(s, a, b, va, vb):
    x, y = obj(s, a, 'a', (1,), va), obj(s, b, 'b', (1,), vb)
    w = same(x, y)
    s.check(iff(JSONPatchOperation(**x) == JSONPatchOperation(**y), w), 'equality of operations is not equality of all their members')
    s.check(iff(JSONPatch(x) == JSONPatch(y), w), 'equality of patches')
    s.check(iff(JSONPatch(x) != JSONPatch(y), no(w)), '!= of patches')
    s.check(iff(JSONPatch(x, x) == [x, y], w), 'equality of a patch and a list')
    s.check(no(JSONPatch(x) == JSONPatch(x, y)), 'patches of different lengths are equal')
    s.check(no(JSONPatch(y, x) == [y]), 'patches of different lengths are equal')


LIST = ['set', 'del', 'insert', 'append', 'pop', 'popi', 'reverse', 'extend', 'clear', 'iadd', 'get', 'slice', 'contains', 'index']


def listop(s, n, op):
    model = [{'op': 'add', 'path': f'/{i}', 'value': [i]} for i in range(n)]
    p = JSONPatch(*[clone(o) for o in model])
    new = {'op': 'move', 'path': '/x', 'from': '/' + s.string('k', 1, ranges=((97, 122),), default='a')}
    arg = JSONPatchOperation(**new) if s.flag('asop') else dict(new)
    i = s.int('i', -n - 2, n + 2, 0)
    m = [clone(o) for o in model]
    f, g = {
        'set': (lambda: p.__setitem__(i, arg), lambda: m.__setitem__(i, new)),
        'del': (lambda: p.__delitem__(i), lambda: m.__delitem__(i)),
        'insert': (lambda: p.insert(i, arg), lambda: m.insert(i, new)),
        'append': (lambda: p.append(arg), lambda: m.append(new)),
        'pop': (lambda: p.pop(), lambda: m.pop()),
        'popi': (lambda: p.pop(i), lambda: m.pop(i)),
        'reverse': (lambda: p.reverse(), lambda: m.reverse()),
        'extend': (lambda: p.extend([arg, arg]), lambda: m.extend([new, new])),
        'clear': (lambda: p.clear(), lambda: m.clear()),
        'iadd': (lambda: p.__iadd__([arg]), lambda: m.__iadd__([new])),
        'get': (lambda: p[i], lambda: m[i]),
        'contains': (lambda: clone(model[0]) in p if n else False, lambda: n > 0),
        'index': (lambda: p.index(clone(model[-1])) if n else 0, lambda: n - 1 if n else 0),
        'slice': (None, None),
    }[op]
    if op == 'slice':
        j = s.int('j', -n - 2, n + 2, 1)
        st = s.pick([None, 1, 2, -1, -2], 'step')
        a = s.pick([None, 0], 'open')
        sl = slice(a if a is None else i, j, st)
        q = p[sl]
        s.check(type(q) is JSONPatch, 'a slice is not a patch')
        s.check(same(q.aslist(), m[sl]), 'a slice holds the wrong operations')
        q.append(new)
        s.check(same(p.aslist(), model), 'changing a slice changed the patch')
        return
    ka, ra = s.run(f)
    kb, rb = s.run(g)
    s.check(ka == kb, lambda: f'{op}: {ra!r} where a list gives {rb!r}')
    if ka == 'exc':
        s.check(type(ra) is type(rb), lambda: f'{op}: {type(ra).__name__} instead of {type(rb).__name__}')
    elif op in ('pop', 'popi', 'get'):
        s.check(isinstance(ra, JSONPatchOperation) and same(ra.asdict(), rb), f'{op} returns the wrong operation')
    elif op in ('contains', 'index'):
        s.check(ra == rb, op)
    s.check(same(p.aslist(), m), f'{op} leaves the wrong operations')
    s.check(len(p) == len(m), 'len()')
    s.check(all(isinstance(x, JSONPatchOperation) for x in p), 'iteration')
    s.check(p == m, 'the patch does not equal the list')


def refused(s, what):
    if what == 'op':
        t = s.string('op', s.pick([3, 4, 6, 7], 'len'), default='add')
        k, r = s.run(lambda: JSONPatchOperation(op=t, path='/a', value=1, **{'from': '/b'}))
        known = any_(t == o for o in OPS)
        s.check(iff(k == 'ok', known), 'an unknown operation name is accepted, or a known one refused')
        s.check(k == 'ok' or isinstance(r, ValueError), 'wrong exception')
        k2, _ = s.run(lambda: JSONPatch({'op': t, 'path': '/a', 'value': 1, 'from': '/b'}))
        s.check(k2 == k, 'a patch accepts what an operation refuses')
    elif what == 'path':
        t = s.string('path', s.pick([1, 2, 3], 'len'), default='/a~')
        field = s.pick(['path', 'from'], 'field')
        o = {'op': 'move', 'path': '/x', 'from': '/y'} | {field: t}
        k, r = s.run(lambda: JSONPatch(o))
        s.check(iff(k == 'ok', valid(t)), 'a malformed pointer is accepted, or a well-formed one refused')
        s.check(k == 'ok' or isinstance(r, JSONPointerMalformedError), 'wrong exception')
    else:
        for o in ({'op': 'add', 'value': 1}, {'path': '/a', 'value': 1}, {}):
            k, r = s.run(lambda: JSONPatch(o))
            s.check(k == 'exc' and isinstance(r, TypeError), 'an operation without a name or path is accepted')
            p = JSONPatch()
            k, r = s.run(lambda: p.append(o))
            s.check(k == 'exc' and len(p) == 0, 'an operation without a name or path is accepted')


def cases(tier):
    cs = []
    vts = ['null', 'bool', 'int', 'real', 'str1', 'arr2', 'obj1', 'objarr', 'arr0']
    for op in OPS:
        for lens in ((), (1,), (2,), (1, 1)):
            for vt in (vts if op in ('add', 'replace', 'test') and lens == (1,) else ['int']):
                cs.append(Case(f"serialise-{op}-{'.'.join(map(str, lens))}-{vt}", serialise, op=op, lens=lens, vt=vt))
    for a in OPS:
        for b in OPS:
            for va, vb in ((('int', 'int'), ('bool', 'int'), ('obj1', 'obj1'), ('null', 'bool')) if a == b and a in ('add', 'test') else (('int', 'int'),)):
                cs.append(Case(f'equality-{a}-{b}-{va}-{vb}', equality, a=a, b=b, va=va, vb=vb))
    for n in (0, 1, 3):
        for op in LIST:
            cs.append(Case(f'list{n}-{op}', listop, n=n, op=op))
    cs += [Case(f'refused-{w}', refused, what=w) for w in ('op', 'path', 'missing')]
    return cs
