"""C06: a JSON document stays a consistent tree under any history of changes."""
from jschon import JSON, JSONPointer
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import clone, strict, tree_ok, nodes, distinct, same

BOUNDS = 'every sequence of 2 operations (3 in thorough) from 22 kinds of array and object operations applied to any container of 5 ' \
         'documents (arrays of up to 7 items), indices from one below to one above the valid range, symbolic object keys of 1 character, with and without the path and value ' \
         'of every node, or of any single one, having been read before each operation; items of any type replaced by values of any type'

VALUES = [lambda s: [1, {'p': [2]}], lambda s: None]


def docs(s, name):
    k = lambda i: s.string(f'k{i}', 1, default='a')
    if name == 'arr':
        return [10, [20, 21], {'a': 30}]
    if name == 'obj':
        a = k(0)
        s.assume(no(a == 'l'))
        return {a: 1, 'l': [1, 2], '': {}}
    if name == 'long':
        return [0, [1], 2, {'x': [3]}, 4, [5], 6]
    if name == 'deep':
        return [[['x', 'y'], {'m': [1, 2, 3]}]]
    if name == 'mixed':
        return {'a': [{'b': [True, None]}, 'c'], 'd': {'e': [0]}}


def containers(model):
    return [p for p, v in nodes(model) if isinstance(v, (list, dict))]


def at(model, path):
    for p in path:
        model = model[int(p)] if isinstance(model, list) else model[p]
    return model


ARRAY = ['set', 'del', 'insert', 'append', 'extend', 'pop', 'popi', 'reverse', 'iadd', 'clear', 'setjson']
OBJECT = ['set', 'del', 'pop', 'update', 'setdefault', 'popitem', 'setjson', 'popdefault']


def apply(s, n, root, model, cps):
    path = s.pick(cps, f'at{n}')
    # the container may be gone after the previous operation
    try:
        m = at(model, path)
    except (KeyError, IndexError, TypeError, ValueError):
        return
    if not isinstance(m, (list, dict)):
        return
    j = root
    for p in path:
        j = j[int(p)] if j.type == 'array' else j[p]
    v = None
    if isinstance(m, list):
        op = s.pick(ARRAY, f'aop{n}')
        if op in ('set', 'setjson', 'insert', 'append', 'extend', 'iadd'):
            v = s.pick(VALUES, f'val{n}')(s)
        if op in ('set', 'del', 'insert', 'popi', 'setjson'):
            i = s.int(f'i{n}', -len(m) - 1, len(m) + 1, 0)
        if op == 'set':
            f, g = (lambda: j.__setitem__(i, v)), (lambda: m.__setitem__(i, clone(v)))
        elif op == 'setjson':
            src = JSON(v)
            f, g = (lambda: j.__setitem__(i, src)), (lambda: m.__setitem__(i, clone(v)))
        elif op == 'del':
            f, g = (lambda: j.__delitem__(i)), (lambda: m.__delitem__(i))
        elif op == 'insert':
            f, g = (lambda: j.insert(i, v)), (lambda: m.insert(i, clone(v)))
        elif op == 'append':
            f, g = (lambda: j.append(v)), (lambda: m.append(clone(v)))
        elif op == 'extend':
            f, g = (lambda: j.extend([v, 8])), (lambda: m.extend([clone(v), 8]))
        elif op == 'pop':
            f, g = (lambda: j.pop()), (lambda: m.pop())
        elif op == 'popi':
            f, g = (lambda: j.pop(i)), (lambda: m.pop(i))
        elif op == 'reverse':
            f, g = (lambda: j.reverse()), (lambda: m.reverse())
        elif op == 'iadd':
            f, g = (lambda: j.__iadd__([v])), (lambda: m.__iadd__([clone(v)]))
        elif op == 'clear':
            f, g = (lambda: j.clear()), (lambda: m.clear())
    else:
        op = s.pick(OBJECT, f'oop{n}')
        if op in ('set', 'setjson', 'update', 'setdefault'):
            v = s.pick(VALUES, f'val{n}')(s)
        k = s.string(f'key{n}', 1, default='a') if op != 'popitem' else None
        if op == 'set':
            f, g = (lambda: j.__setitem__(k, v)), (lambda: m.__setitem__(k, clone(v)))
        elif op == 'setjson':
            src = JSON(v)
            f, g = (lambda: j.__setitem__(k, src)), (lambda: m.__setitem__(k, clone(v)))
        elif op == 'del':
            f, g = (lambda: j.__delitem__(k)), (lambda: m.__delitem__(k))
        elif op == 'pop':
            f, g = (lambda: j.pop(k)), (lambda: m.pop(k))
        elif op == 'popdefault':
            f, g = (lambda: k in j), (lambda: k in m)
        elif op == 'update':
            f, g = (lambda: j.update({k: v, 'zz': 1})), (lambda: m.update({k: clone(v), 'zz': 1}))
        elif op == 'setdefault':
            f, g = (lambda: j.setdefault(k, v)), (lambda: m.setdefault(k, clone(v)))
        elif op == 'popitem':
            f, g = (lambda: j.popitem()), (lambda: first(m))
    ka, ra = s.run(f)
    kb, rb = s.run(g)
    s.check(ka == kb, lambda: f'{op}: {ra!r} where a Python container gives {rb!r}')
    if ka == 'exc':
        s.check(type(ra) is type(rb), lambda: f'{op}: {type(ra).__name__} instead of {type(rb).__name__}')
        s.reach('error')
    elif op in ('pop', 'popi') or op == 'setdefault' and isinstance(ra, JSON):
        s.check(same(ra.value, rb), f'{op} returns the wrong value')
    if op == 'setjson':
        tree_ok(s, src)
        s.check(strict(src.value, v), 'the assigned document changed')
    s.reach(op)


def first(m):
    if not m:
        raise KeyError
    k = next(iter(m))
    return k, m.pop(k)


def history(s, doc, n, warm, first_at):
    model = docs(s, doc)
    root = JSON(clone(model))
    cps = containers(model)
    for i in range(n):
        if warm == 'one':
            # a single node, whose path or value was read, while nothing else was
            node = s.pick([x for _, x in walk(root)], f'read{i}')
            node.path if s.flag(f'which{i}') else node.value
        elif warm:
            for _, node in walk(root):
                node.path, node.value
        apply(s, i, root, model, [cps[first_at]] if i == 0 else cps)
        check(s, root, model)
    s.obs(root.value)


def walk(node, path=()):
    yield path, node
    if node.type == 'array':
        for i, c in enumerate(node):
            yield from walk(c, path + (str(i),))
    elif node.type == 'object':
        for k, c in node.items():
            yield from walk(c, path + (k,))


def check(s, root, model):
    tree_ok(s, root)
    s.check(strict(root.value, model), 'the document does not hold the data of the same operations on Python data')
    s.check(len(root) == len(model), 'len()')


def construct(s, doc):
    """construction copies: no container is shared with the Python data, and changes do not travel"""
    data = docs(s, doc)
    keep = clone(data)
    root = JSON(data)
    tree_ok(s, root)
    s.check(strict(root.value, keep), 'value is not the data the document was made of')
    for _, v in nodes(data):
        if isinstance(v, list):
            v.append('changed')
        elif isinstance(v, dict):
            v['changed'] = 1
    root2 = root
    s.check(strict(JSON(root2.value).value, keep), 'the document changed with the data it was made of')
    tree_ok(s, root)
    other = JSON(keep)
    for _, node in list(walk(other)):
        if node.type == 'array':
            node.append(1)
    s.check(strict(root.value, keep), 'changing one document changed another')
    tree_ok(s, other)


def scalars(s):
    """types of scalar documents"""
    for v in (None, True, False, s.int('i', -9, 9), s.real('r', -900, 900, 100), s.string('t', 2)):
        j = JSON(v)
        tree_ok(s, j)
        s.check(len(j.path) == 0, 'the path of a root is not empty')
    s.check(JSON(True).type == 'boolean' and JSON(0).type == 'number', 'type')
    s.check(isinstance(s.run(JSON, object())[1], TypeError), 'an object that is not JSON is accepted')
    s.check(isinstance(s.run(JSON, [1, {2}])[1], TypeError), 'an object that is not JSON is accepted')


def typed(s, kind, vkind):
    """an item of any type is replaced by one of any type"""
    from harness.c09 import typevalue
    x, v = typevalue(s, kind, 'd'), typevalue(s, vkind, 'v')
    for d, i in (({'a': x}, 'a'), ([5, x], 1), ([x, 5], -2)):
        for src in (v, JSON(v)):
            root = JSON([clone(d)])
            s.check(strict(root.value, [d]), 'value')
            root[0][i] = src
            want = clone(d)
            want[i] = v
            s.check(strict(root.value, [want]), 'an item was not replaced by the one given')
            tree_ok(s, root)


def cases(tier):
    T = tier == 'thorough'
    from harness.c09 import KINDS
    cs = [Case(f'typed-{a}-{b}', typed, kind=a, vkind=b) for a in KINDS for b in KINDS]
    cont = {'arr': 3, 'obj': 3, 'deep': 4, 'mixed': 6, 'long': 5}
    for doc in ('arr', 'obj', 'deep', 'mixed', 'long'):
        for warm in (True, False):
            for fa in range(cont[doc]):
                if not warm and fa:
                    continue
                if warm:
                    cs.append(Case(f'history1-{doc}-one-{fa}', history, doc=doc, n=1, warm='one', first_at=fa, weight=40))
                cs.append(Case(f'history1-{doc}-{warm}-{fa}', history, doc=doc, n=1, warm=warm, first_at=fa, weight=10))
                cs.append(Case(f'history2-{doc}-{warm}-{fa}', history, doc=doc, n=2, warm=warm, first_at=fa, weight=200,
                               thorough_only=not (warm and (doc in ('arr', 'obj') and fa < 2 or fa == 1))))
                if T:
                    cs.append(Case(f'history3-{doc}-{warm}-{fa}', history, doc=doc, n=3, warm=warm, first_at=fa, weight=600,
                                   thorough_only=True))
        cs.append(Case(f'construct-{doc}', construct, doc=doc))
    cs.append(Case('scalars', scalars))
    return cs
