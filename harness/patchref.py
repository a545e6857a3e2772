"""RFC 6902 on plain data, written from the RFC; used as the oracle of C09-C11"""
from harness.util import Missing, lookup, is_index, index_value, same, clone


class RefError(Exception):
    pass


def locate(doc, toks):
    """-> (parent, index or key, exists)"""
    try:
        parent = lookup(doc, toks[:-1])
    except Missing:
        raise RefError('parent')
    t = toks[-1]
    if isinstance(parent, list):
        if t == '-':
            return parent, len(parent), False
        if is_index(t):
            v = index_value(t)
            for i in range(len(parent) + 1):
                if v == i:
                    return parent, i, i < len(parent)
        raise RefError('index')
    if isinstance(parent, dict):
        for k in parent:
            if k == t:
                return parent, k, True
        return parent, t, False
    raise RefError('scalar')


def add(doc, toks, v):
    if not toks:
        return clone(v)
    p, i, ex = locate(doc, toks)
    if isinstance(p, list):
        p.insert(i, clone(v))
    else:
        p[i] = clone(v)
    return doc


def remove(doc, toks):
    if not toks:
        return None
    p, i, ex = locate(doc, toks)
    if not ex:
        raise RefError('missing')
    del p[i]
    return doc


def replace(doc, toks, v):
    if not toks:
        return clone(v)
    p, i, ex = locate(doc, toks)
    if not ex:
        raise RefError('missing')
    p[i] = clone(v)
    return doc


def get(doc, toks):
    try:
        return lookup(doc, toks)
    except Missing:
        raise RefError('missing')


def move(doc, toks, frm):
    if len(frm) < len(toks):
        inside = True
        for x, y in zip(frm, toks):
            if not x == y:
                inside = False
                break
        if inside:
            raise RefError('into itself')
    v = get(doc, frm)
    doc = remove(doc, frm)
    return add(doc, toks, v)


def copy(doc, toks, frm):
    return add(doc, toks, get(doc, frm))


def test(doc, toks, v):
    if not same(get(doc, toks), v):
        raise RefError('test')
    return doc


def apply(doc, op, toks, v=None, frm=None):
    """apply to a copy; -> (ok, result)"""
    doc = clone(doc)
    try:
        if op in ('add', 'replace', 'test'):
            return True, globals()[op](doc, toks, v)
        if op in ('move', 'copy'):
            return True, globals()[op](doc, toks, frm)
        return True, remove(doc, toks)
    except RefError:
        return False, None
