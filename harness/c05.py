"""C05: Relative JSON Pointers."""
from jschon import JSON, JSONPointer, RelativeJSONPointer
from jschon.exc import RelativeJSONPointerMalformedError, RelativeJSONPointerReferenceError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.c01 import valid, tokens
from harness.util import Missing, lookup, nodes, distinct, strict

BOUNDS = 'texts of up to 6 characters (quick) / 8 (thorough) over all Unicode scalar values; evaluation from every ' \
         'node of 5 documents of depth up to 4 with up to 5 levels up, index adjustments from -13 to 13 and references of up to 2 ' \
         'symbolic tokens'


def parse_ref(t):
    """reference scanner -> (up, over, ref) or None"""
    n, i = len(t), 0

    def digit(c):
        return (c >= '0') & (c <= '9')
    if n == 0 or not digit(t[0]):
        return None
    up = ord(t[0]) - 48
    i = 1
    if t[0] != '0':
        while i < n and digit(t[i]):
            up = up * 10 + (ord(t[i]) - 48)
            i += 1
    over = 0
    if i < n and (t[i] == '+' or t[i] == '-'):
        neg = t[i] == '-'
        i += 1
        if i >= n or not (digit(t[i]) and t[i] != '0'):
            return None
        while i < n and digit(t[i]):
            over = over * 10 + (ord(t[i]) - 48)
            i += 1
        over = -over if neg else over
    rest = t[i:]
    if rest == '#':
        return up, over, '#'
    if not valid(rest):
        return None
    return up, over, rest


class MyMalformed(RelativeJSONPointerMalformedError):
    pass


class MyRef(RelativeJSONPointerReferenceError):
    pass


class Mine(RelativeJSONPointer):
    malformed_exc = MyMalformed
    reference_exc = MyRef


def parse(s, n, sub):
    t = s.string('t', n, default='1-2/a~0')
    cls = Mine if sub else RelativeJSONPointer
    want = parse_ref(t)
    kind, p = s.run(cls, t)
    if want is None:
        s.reach('rejected')
        s.check(kind == 'exc', 'an invalid relative JSON pointer was accepted')
        s.check(isinstance(p, RelativeJSONPointerMalformedError), lambda: f'wrong exception {type(p).__name__}')
        s.check(not sub or type(p) is MyMalformed, 'a subclass does not raise its own malformed_exc')
        return
    s.reach('accepted')
    s.check(kind == 'ok', 'a valid relative JSON pointer was rejected')
    up, over, ref = want
    s.check(str(p) == t, 'str() does not give back the text')
    q = cls(up=up, over=over, ref='#' if isinstance(ref, str) and ref == '#' else JSONPointer(ref))
    s.check(p == q, 'not equal to the pointer built from its parts')
    s.check(str(q) == t, 'the text of the pointer built from its parts differs')
    s.check(s.hash_of(p) == s.hash_of(q), 'equal pointers have different hashes')
    s.obs(str(p))


def build(s, lens, index):
    """construction from parts -> text -> parse"""
    up, over = s.int('up', 0, 120, 2), s.int('over', -120, 120, -1)
    ks = [s.string(f'k{i}', n, default='~/') for i, n in enumerate(lens)]
    p = RelativeJSONPointer(up=up, over=over, ref='#' if index else JSONPointer(ks))
    want = str(up)
    if over > 0:
        want = want + '+' + str(over)
    elif over < 0:
        want = want + str(over)
    want = want + ('#' if index else str(JSONPointer(ks)))
    s.check(str(p) == want, 'the text is not that of the parts')
    q = RelativeJSONPointer(want)
    s.check(p == q, 'parsing the text gives an unequal pointer')
    s.check(s.hash_of(p) == s.hash_of(q), 'equal pointers have different hashes')
    s.obs(str(p))


def unequal(s):
    """pointers that differ in a part are unequal"""
    def one(i):
        ref = s.pick(['#', '', 'k'], f'ref{i}')
        k = s.string(f'k{i}', 1, default='a') if ref == 'k' else ''
        u, o = s.int(f'u{i}', 0, 30, 1), s.int(f'o{i}', -30, 30, 0)
        return (u, o, ref, k), RelativeJSONPointer(up=u, over=o, ref='#' if ref == '#' else JSONPointer([k] if ref else []))
    (a, p), (b, q) = one(0), one(1)
    same = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
    s.check(iff(p == q, same), '== does not mean equal parts')
    s.check(iff(str(p) == str(q), same), 'the text does not determine the pointer')
    s.check((p == '0') is False, 'equal to a string')


DOCS = {
    'scalar': lambda s: 5,
    'arr': lambda s: list(range(12)),
    'nest': lambda s: {'a': [{'b': 1, 'c': [True, None]}, ['x', 'y', 'z'], 3], 'd': {'e': {}}},
    'keys': lambda s: {s.string('x', 1, default='a'): [1, {'y': [10, 20]}], 'zz': 2},
    'arrs': lambda s: [[[1, 2], [3]], [[4, 5, 6], []], 7],
}


def evaluate(s, doc, ref, lens, mode):
    data = DOCS[doc](s)
    root = JSON(data)
    paths = [p for p, _ in nodes(data)]
    start = s.pick(paths, 'start')
    node = JSONPointer(start).evaluate(root)
    up = s.choose(6, 'up')
    over = s.int('over', -13, 13, 0) if mode == 'over' else 0
    ks = [s.string(f'k{i}', n, default='0a') for i, n in enumerate(lens)]
    if s.flag('text'):
        text = str(up)
        if over > 0:
            text = text + '+' + str(over)
        elif over < 0:
            text = text + str(over)
        p = Mine(text + ('#' if ref == '#' else str(JSONPointer(ks))))
    else:
        p = Mine(up=up, over=over, ref='#' if ref == '#' else JSONPointer(ks))
    kind, r = s.run(p.evaluate, node)

    # reference
    want = None
    try:
        if up > len(start):
            raise Missing
        at = start[:len(start) - up]
        if over != 0:
            if not at:
                raise Missing
            arr = lookup(data, at[:-1])
            if not isinstance(arr, list):
                raise Missing
            i = int(at[-1]) + over
            for j in range(len(arr)):
                if i == j:
                    at = at[:-1] + (str(j),)
                    break
            else:
                raise Missing
        if ref == '#':
            if not at:
                raise Missing
            key = at[-1]
            want = int(key) if isinstance(lookup(data, at[:-1]), list) else key
        else:
            lookup(data, list(at) + ks)
            want = list(at) + ks
    except Missing:
        s.reach('missing')
        s.check(kind == 'exc', 'a location that does not exist was found')
        s.check(isinstance(r, RelativeJSONPointerReferenceError), lambda: f'wrong exception {type(r).__name__}')
        s.check(type(r) is MyRef, 'a subclass does not raise its own reference_exc')
        return
    s.reach('found')
    s.check(kind == 'ok', lambda: f'a location that exists was not found: {type(r).__name__}')
    if ref == '#':
        s.check(isinstance(r, int) == isinstance(want, int), 'the wrong kind of key')
        s.check(r == want, 'the wrong index or key')
    else:
        s.check(isinstance(r, JSON), 'not a node')
        s.check(eq_(list(r.path), want), 'the wrong node')
        s.check(JSONPointer(want).evaluate(root) is r, 'not a node of this document')


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(0, 9 if T else 7):
        cs.append(Case(f'parse-{n}', parse, n=n, sub=n % 2 == 1, weight=3.0 ** n, bounds=f'text of {n} characters',
                       reach=('rejected',) if n == 0 else ('accepted', 'rejected')))
    for lens in [(), (0,), (1,), (2,), (1, 1)]:
        cs.append(Case('build-' + '.'.join(map(str, lens)), build, lens=lens, index=False, weight=40))
    cs.append(Case('build-index', build, lens=(), index=True, weight=20))
    cs.append(Case('unequal', unequal, weight=60))
    for doc in DOCS:
        for mode in ('plain', 'over'):
            cs.append(Case(f'eval-{doc}-{mode}-#', evaluate, doc=doc, ref='#', lens=(), mode=mode, weight=50,
                           reach=('missing',)))
            for lens in [(), (1,)] + ([(1, 1), (2,)] if T or mode == 'plain' else []):
                cs.append(Case(f"eval-{doc}-{mode}-{'.'.join(map(str, lens))}", evaluate, doc=doc, ref='/', lens=lens,
                               mode=mode, weight=60))
    return cs
