"""C11: the in-place patch methods of JSON agree with JSON Patch."""
from jschon import JSON, JSONPointer, JSONPatch
from jschon.exc import JSONError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, clone, strict, tree_ok, nodes
from harness.c06 import walk
from harness import patchref
from harness.c09 import doc, toks, typevalue, KINDS, SHAPES

BOUNDS = 'documents of 12 shapes (arrays of up to 12 items, symbolic object keys), called on the root and on every inner node, ' \
         'pointers of up to 3 tokens of up to 2 symbolic characters as text and as pointer, values plain and as JSON, with caches warm and ' \
         'cold; sequences of 2 operations (3 in thorough)'

OPS = ['add', 'remove', 'replace']


def at(model, path):
    for p in path:
        model = model[int(p)] if isinstance(model, list) else model[p]
    return model


def put(model, path, v):
    if not path:
        return v
    p = at(model, path[:-1])
    if isinstance(p, list):
        p[int(path[-1])] = v
    else:
        p[path[-1]] = v
    return model


def step(s, root, model, where, op, path, form, n):
    """call op on the node at where; -> the model afterwards"""
    node = root
    for p in where:
        node = node[int(p)] if node.type == 'array' else node[p]
    v = [{'new': n}] if form != 'scalar' else n
    okay, want = patchref.apply(at(model, where), op, path, v)
    ptr = JSONPointer(path)
    arg = str(ptr) if form == 'text' else ptr
    src = JSON(v) if form == 'json' else v
    if op == 'remove':
        k, r = s.run(node.remove, arg)
    else:
        k, r = s.run(getattr(node, op), arg, src)
    s.check((k == 'ok') == okay, lambda: f'{op} {"succeeds" if k == "ok" else "fails"} unlike the patch operation: {r}')
    if okay:
        s.reach('ok')
        s.check(r is None, 'a value is returned')
        model = put(model, where, want)
    else:
        s.reach('error')
        s.check(isinstance(r, JSONError), lambda: f'wrong exception {type(r).__name__}: {r}')
    tree_ok(s, root)
    s.check(same(root.value, model), f'{op} gives another document than the patch operation')
    s.check(strict(src.value if form == 'json' else src, v), 'the value given was changed')
    if form == 'json' and op != 'remove':
        tree_ok(s, src)
        if okay:        # no sharing with the value given
            src[0]['new'] = 'changed'
            s.check(same(root.value, model), 'the document changed with the value given')
    elif form in ('text', 'ptr') and okay and op != 'remove':
        v[0]['new'] = 'changed'
        s.check(same(root.value, model), 'the document changed with the value given')
    return model


def one(s, op, shape, where, lens, form, warm):
    model = doc(s, shape)
    root = JSON(clone(model))
    ps = [p for p, v in nodes(model)]
    where = ps[where] if where < len(ps) else ps[-1]
    path = toks(s, 'p', lens)
    if warm:
        for _, n in walk(root):
            n.path, n.value
    step(s, root, model, where, op, path, form, 1)
    s.obs(root.value)


def history(s, shape, n, op0, warm):
    model = doc(s, shape)
    root = JSON(clone(model))
    for i in range(n):
        op = op0 if i == 0 else s.pick(OPS, f'op{i}')
        ps = [p for p, v in nodes(model) if isinstance(v, (list, dict))] or [()]
        where = s.pick(ps, f'at{i}')
        path = toks(s, f'p{i}.', (1,) if i or where else s.pick([(1,), (1, 1), ()], f'len{i}'))
        if warm:
            for _, x in walk(root):
                x.path, x.value
        model = step(s, root, model, where, op, path, 'ptr', i)
    s.obs(root.value)


def typed(s, kind, vkind):
    """a value of any type in the place of one of any type"""
    x, v = typevalue(s, kind, 'd'), typevalue(s, vkind, 'v')
    for d, path in (({'a': x}, ('a',)), ([5, x], ('1',)), (x, ()), ({'a': [{'b': x}]}, ('a', '0', 'b'))):
        for op in ('replace', 'add'):
            for src in (v, JSON(v)):
                root = JSON(clone(d))
                root.value
                okay, want = patchref.apply(clone(d), op, path, v)
                k, r = s.run(getattr(root, op), JSONPointer(path), src)
                s.check(k == 'ok', lambda: f'{op} fails: {r}')
                s.check(same(root.value, want), lambda: f'{op} of a value in the place of another gives the wrong document')
                tree_ok(s, root)
                s.reach(op)


def cases(tier):
    T = tier == 'thorough'
    cs = [Case(f'typed-{a}-{b}', typed, kind=a, vkind=b) for a in KINDS for b in KINDS]
    for shape in SHAPES:
        deep = shape in ('deep', 'objobj', 'objarr', 'arrobj')
        lens = [()] + [(a,) for a in (0, 1, 2)] + [(1, 0), (1, 1), (0, 1), (1, 2)] + ([(1, 1, 1)] if deep else [])
        for op in OPS:
            for l in lens:
                cs.append(Case(f"{op}-{shape}-root-{'.'.join(map(str, l))}", one, op=op, shape=shape, where=0, lens=l,
                               form='ptr', warm=True, weight=2 ** sum(l)))
            for form in ('text', 'json', 'scalar'):
                cs.append(Case(f'{op}-{shape}-{form}', one, op=op, shape=shape, where=0, lens=(1,), form=form, warm=False))
                cs.append(Case(f'{op}-{shape}-{form}-whole', one, op=op, shape=shape, where=0, lens=(), form=form, warm=True))
            n = {'null': 1, 'str': 1, 'arr0': 1, 'arr2': 3, 'arr12': 3, 'obj0': 1, 'obj1': 2, 'obj2': 4, 'objarr': 9, 'arrobj': 6,
                 'deep': 13, 'objobj': 6}[shape]
            for w in range(1, n):
                for l in ((), (1,)):
                    cs.append(Case(f"{op}-{shape}-at{w}-{'.'.join(map(str, l))}", one, op=op, shape=shape, where=w, lens=l,
                                   form=('ptr', 'text', 'json')[w % 3], warm=True))
            for warm in (True, False):
                cs.append(Case(f'history2-{op}-{shape}-{warm}', history, shape=shape, n=2, op0=op, warm=warm, weight=100,
                               thorough_only=not warm and shape not in ('arr2', 'obj2')))
            cs.append(Case(f'history3-{op}-{shape}', history, shape=shape, n=3, op0=op, warm=True, weight=500, thorough_only=True))
    return cs
