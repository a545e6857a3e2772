"""C02: the algebra of JSON pointers."""
from jschon import JSONPointer
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_

BOUNDS = 'pointers of up to 3 keys (quick) / 4 (thorough), each key up to 2 characters over all Unicode scalar ' \
         'values; every index and slice bound from -5 to 5 and every step from -2 to 2'


def keys(s, name, lens, default='ab'):
    return [s.string(f'{name}{i}', n, default=default) for i, n in enumerate(lens)]


def join(s, a, b, how):
    """self / suffix and JSONPointer(x, y) append the keys, unescaped, and leave both operands as they were"""
    ka, kb = keys(s, 'a', a), keys(s, 'b', b, '~/')
    p = JSONPointer(ka)
    if how == 'str':
        r = p
        for k in kb:
            r = r / k
    elif how == 'list':
        src = list(kb)
        r = p / src
        src.append('x')
        src.reverse()
    elif how == 'tuple':
        r = p / tuple(kb)
    elif how == 'pointer':
        q = JSONPointer(kb)
        r = p / q
        s.check(eq_(list(q), kb), 'the right operand changed')
    elif how == 'gen':
        r = p / (k for k in kb)
    elif how == 'args':
        r = JSONPointer(p, kb)
    elif how == 'args2':
        r = JSONPointer(ka, JSONPointer(kb))
    s.check(eq_(list(r), ka + kb), 'the keys are not those of the left followed by those of the right')
    s.check(len(r) == len(a) + len(b), 'wrong length')
    s.check(eq_(list(p), ka), 'the left operand changed')
    s.check(r == JSONPointer(ka + kb), 'not equal to the pointer built from all keys')
    s.check(str(r) == str(p) + str(JSONPointer(kb)), 'str() of the whole is not the concatenation of its parts')
    s.obs(str(r))


def index(s, a):
    ka = keys(s, 'a', a)
    p = JSONPointer(ka)
    i = s.choose(11, 'i') - 5
    kind, r = s.run(lambda: p[i])
    if -len(a) <= i < len(a):
        s.check(kind == 'ok' and isinstance(r, str), 'an index in range is refused')
        s.check(r == ka[i], 'wrong key')
    else:
        s.check(kind == 'exc' and isinstance(r, IndexError), 'an index out of range gives no IndexError')
    s.check(len(p) == len(a), 'wrong length')


def slices(s, a):
    ka = keys(s, 'a', a)
    p = JSONPointer(ka)
    bounds = [None, 0, 1, 2, 3, 5, -1, -2, -5]
    lo, hi = s.pick(bounds, 'lo'), s.pick(bounds, 'hi')
    step = s.pick([None, 1, 2, -1, -2], 'step')
    r = p[lo:hi:step]
    s.check(isinstance(r, JSONPointer), 'a slice is not a pointer')
    s.check(eq_(list(r), ka[lo:hi:step]), 'a slice does not hold the slice of the keys')
    s.check(eq_(list(p), ka), 'slicing changed the pointer')
    s.obs(list(r))


def order(s, a, b):
    """==, hash and the prefix order"""
    ka, kb = keys(s, 'a', a), keys(s, 'b', b)
    p, q = JSONPointer(ka), JSONPointer(kb)
    same = eq_(ka, kb)
    pre = eq_(ka, kb[:len(ka)])
    erp = eq_(kb, ka[:len(kb)])
    s.check(iff(p == q, same), '== does not mean equal keys')
    s.check(iff(p != q, no(same)), '!= does not mean different keys')
    s.check(iff(p <= q, pre), '<= does not mean prefix')
    s.check(iff(p < q, pre & (len(a) < len(b))), '< does not mean proper prefix')
    s.check(iff(p >= q, erp), '>= is not the converse of <=')
    s.check(iff(p > q, erp & (len(b) < len(a))), '> is not the converse of <')
    if s.is_true(same):
        s.check(s.hash_of(p) == s.hash_of(q), 'equal pointers have different hashes')
        s.check(str(p) == str(q), 'equal pointers have different texts')
        d = {p: 1}
        s.check(q in d and d[q] == 1, 'an equal pointer does not find the dictionary entry')
        s.reach('equal')
    else:
        s.check(no(str(p) == str(q)), 'different pointers have the same text')
        s.reach('different')
    s.obs(bool(p == q), bool(p <= q))


def sequence(s, a, m):
    """the Sequence protocol: iteration, containment, count, index, reversed"""
    ka = keys(s, 'a', a)
    k = s.string('k', m, default='ab')
    p = JSONPointer(ka)
    s.check(eq_([x for x in p], ka), 'iteration')
    s.check(eq_(list(reversed(p)), ka[::-1]), 'reversed')
    s.check(iff(k in p, any_(k == x for x in ka)), 'containment')
    n = 0
    for x in ka:
        n = n + 1 if s.is_true(x == k) else n
    s.check(p.count(k) == n, 'count')
    kind, r = s.run(p.index, k)
    if n:
        s.check(kind == 'ok' and all_([ka[r] == k] + [no(x == k) for x in ka[:r]]), 'index')
    else:
        s.check(kind == 'exc' and isinstance(r, ValueError), 'index of a missing key')
    s.check(bool(p) == (len(a) > 0), 'truth value')


def foreign(s, n):
    """values of other types are never equal, and cannot be ordered or joined"""
    k = s.string('k', n, default='a')
    p = JSONPointer([k])
    for o in (str(p), [k], (k,), None, 1):
        s.check((p == o) is False, 'a pointer equals a value of another type')
        s.check((p != o) is True, 'a pointer equals a value of another type')
        s.check(isinstance(s.run(lambda: p < o)[1], TypeError), 'ordered against a value of another type')
        s.check(isinstance(s.run(lambda: p <= o)[1], TypeError), 'ordered against a value of another type')
    s.check(isinstance(s.run(lambda: p / 5)[1], TypeError), 'joined with a number')
    s.check(isinstance(s.run(lambda: p / None)[1], TypeError), 'joined with None')
    s.check(isinstance(s.run(lambda: p['a'])[1], TypeError), 'indexed by a string')


def independent(s, n):
    """a pointer does not share state with what it was built from"""
    k = s.string('k', n, default='a')
    src = [k, 'x']
    p = JSONPointer(src)
    q = JSONPointer(p)
    r = p[:]
    t = p / 'y'
    src[0] = 'changed'
    del src[1]
    for z, want in ((p, [k, 'x']), (q, [k, 'x']), (r, [k, 'x']), (t, [k, 'x', 'y'])):
        s.check(eq_(list(z), want), 'a pointer changed with the list it was built from')
    u = q / 'z'
    s.check(eq_(list(q), [k, 'x']) and eq_(list(p), [k, 'x']) and eq_(list(u), [k, 'x', 'z']), 'aliasing')


def cases(tier):
    T = tier == 'thorough'
    shapes = [(), (1,), (2,), (1, 1), (0, 2), (1, 1, 1)] + ([(2, 2), (2, 1, 2), (1, 1, 1, 1)] if T else [])
    cs = []
    for how in ('str', 'list', 'tuple', 'pointer', 'gen', 'args', 'args2'):
        for a, b in [((), (1,)), ((1,), (2,)), ((1,), ()), ((1, 0), (1, 1))] + ([((2, 2), (2, 2))] if T else []):
            cs.append(Case(f'join-{how}-{len(a)}-{len(b)}-{sum(b)}', join, a=a, b=b, how=how, weight=5.0 ** sum(a + b)))
    for a in [(), (1,), (1, 1), (0, 1, 2)] + ([(1, 1, 1, 1)] if T else []):
        cs.append(Case(f'index-{len(a)}', index, a=a))
        cs.append(Case(f'slice-{len(a)}', slices, a=a, weight=30))
    for a in shapes:
        for b in shapes:
            cs.append(Case(f"order-{'.'.join(map(str, a))}-{'.'.join(map(str, b))}", order, a=a, b=b,
                           reach=('equal',) if a == b else ('different',), weight=5))
    for a in [(), (1,), (1, 1), (1, 1, 1)]:
        for m in (0, 1):
            cs.append(Case(f'seq-{len(a)}-{m}', sequence, a=a, m=m))
    for n in (0, 1, 2):
        cs.append(Case(f'foreign-{n}', foreign, n=n))
        cs.append(Case(f'independent-{n}', independent, n=n))
    return cs
