"""shared by harnesses: reference semantics written from the RFCs"""
from symex.session import no, all_, any_, iff, eq_


class Missing(Exception):
    pass


def is_index(tok):
    """RFC 6901 array-index: "0" or a digit 1-9 followed by digits"""
    n = len(tok)
    if n == 0:
        return False
    if n == 1:
        return (tok[0] >= '0') & (tok[0] <= '9')
    return (tok[0] >= '1') & (tok[0] <= '9') & all_((c >= '0') & (c <= '9') for c in tok[1:])


def index_value(tok):
    v = 0
    for c in tok:
        v = v * 10 + (ord(c) - 48)
    return v


def step(doc, tok):
    """one RFC 6901 evaluation step on plain data"""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == tok:
                return v
        raise Missing
    if isinstance(doc, (list, tuple)):
        if is_index(tok):
            v = index_value(tok)
            for i in range(len(doc)):
                if v == i:
                    return doc[i]
        raise Missing
    raise Missing


def lookup(doc, toks):
    for t in toks:
        doc = step(doc, t)
    return doc


def same(a, b):
    """the JSON values a and b are equal, as one condition.  Numbers by value, types apart."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    ba, bb = is_bool(a), is_bool(b)
    if ba or bb:
        return iff(a, b) if ba and bb else False
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all_(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        return all_(any_((k == q) & same(v, w) for q, w in b.items()) for k, v in a.items())
    return a == b


def is_bool(x):
    return isinstance(x, bool)


def distinct(s, ks):
    """assume the strings are pairwise different"""
    for i in range(len(ks)):
        for j in range(i):
            s.assume(no(ks[i] == ks[j]))


def clone(x):
    """a copy of plain data that shares no container with it"""
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clone(v) for v in x]
    return x


def strict(a, b):
    """like same, but also the same order of members and int/float kept apart; for 'unchanged' checks"""
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all_((k == q) & strict(v, w) for (k, v), (q, w) in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all_(strict(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    return same(a, b)


def nodes(doc, path=()):
    """every (path, value) of plain data, depth first"""
    yield path, doc
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from nodes(v, path + (k,))
    elif isinstance(doc, (list, tuple)):
        for i, v in enumerate(doc):
            yield from nodes(v, path + (str(i),))


def tree_ok(s, node, parent=None, key=None, path=()):
    """the whole structure under a JSON node is consistent: parent, key, path, type, value"""
    s.check(node.parent is parent, 'a child does not point to its container')
    if parent is not None:
        s.check(node.key == key, lambda: f'a child at {key} has key {node.key}', key=None)
    s.check(eq_(list(node.path), list(path)), lambda: f'a node at {list(path)} says its path is {node.path}')
    d = node.data
    v = node.value
    if isinstance(d, list):
        s.check(node.type == 'array', 'type of an array')
        s.check(isinstance(v, list) and len(v) == len(d), 'value of an array')
        for i, c in enumerate(d):
            tree_ok(s, c, node, str(i), path + (str(i),))
            s.check(strict(v[i], c.value), 'the value of an array is not made of the values of its items')
    elif isinstance(d, dict):
        s.check(node.type == 'object', 'type of an object')
        s.check(isinstance(v, dict) and eq_(list(v), list(d)), 'value of an object')
        for k, c in d.items():
            tree_ok(s, c, node, k, path + (k,))
            s.check(strict(v[k], c.value), 'the value of an object is not made of the values of its members')
    else:
        t = 'null' if d is None else 'boolean' if is_bool(d) else 'string' if isinstance(d, str) else 'number'
        s.check(node.type == t, lambda: f'type {node.type} for {t} data')
        s.check(v is d or v == d, 'value of a scalar')


def some(m, *key):
    """a fixed selection of one in m cases"""
    from zlib import crc32
    return crc32(repr(key).encode()) % m == 0


def number(*key):
    from zlib import crc32
    return crc32(repr(key).encode()) >> 3


def preserve(s, *objs):
    """give the containers that are attributes of the objects (modules, classes, catalogs) back as they are now"""
    for o in objs:
        kept = {n: v for n, v in vars(o).items() if isinstance(v, (dict, set, list)) and not n.startswith('__')}
        s.cleanups.append(lambda o=o, kept=kept: [setattr(o, n, v) for n, v in kept.items()])
        for n, v in kept.items():
            v = v.copy()
            if isinstance(v, dict):
                for k, w in list(v.items()):
                    if isinstance(w, dict):
                        v[k] = w.copy()
            setattr(o, n, v)


def empty(o):
    """forget everything in the containers that are attributes of the object"""
    for n, v in list(vars(o).items()):
        if isinstance(v, (dict, set, list)):
            setattr(o, n, type(v)())
