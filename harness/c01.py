"""C01: the JSON Pointer text codec."""
from jschon import JSONPointer
from jschon.exc import JSONPointerMalformedError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_

BOUNDS = 'pointer texts of up to 8 characters (quick) / 11 (thorough), up to 3 keys of up to 3 characters each; every ' \
         'character ranges over all Unicode scalar values'
ASSUMPTIONS = ['lone surrogate code points are outside the claim']


def valid(t):
    """RFC 6901: *( "/" *( unescaped / "~0" / "~1" ) )"""
    n = len(t)
    if n == 0:
        return True
    ok = t[0] == '/'
    for i in range(n):
        tail = any_([t[i + 1] == '0', t[i + 1] == '1']) if i + 1 < n else False
        ok = ok & (no(t[i] == '~') | tail)
    return ok


def tokens(t):
    """unescaped reference tokens of a valid pointer text, by a one-pass scanner"""
    out, cur, i = [], '', 1
    if len(t) == 0:
        return []
    while i < len(t):
        c = t[i]
        if c == '/':
            out.append(cur)
            cur = ''
        elif c == '~':
            i += 1
            cur = cur + ('~' if t[i] == '0' else '/')
        else:
            cur = cur + c
        i += 1
    out.append(cur)
    return out


def escaped(k):
    out = ''
    for c in k:
        if c == '~':
            out = out + '~0'
        elif c == '/':
            out = out + '~1'
        else:
            out = out + c
    return out


def parse(s, n):
    t = s.string('t', n, default='/a~1b')
    ok = valid(t)
    kind, p = s.run(JSONPointer, t)
    if kind == 'exc':
        s.reach('rejected')
        s.check(isinstance(p, JSONPointerMalformedError), lambda: f'wrong exception {type(p).__name__}')
        s.check(no(ok), 'a valid JSON pointer was rejected')
        s.obs('rejected')
        return
    s.reach('accepted')
    s.check(ok, 'an invalid JSON pointer was accepted')
    want = tokens(t)
    got = list(p)
    s.check(len(got) == len(want), lambda: f'{len(got)} keys instead of {len(want)}')
    s.check(eq_(got, want), 'keys are not the unescaped reference tokens')
    s.check(len(p) == len(want), 'len() is not the number of keys')
    back = str(p)
    s.check(back == t, 'str() does not give back the text')
    s.obs(got, back)


def build(s, lens):
    keys = [s.string(f'k{i}', n, default='~/a') for i, n in enumerate(lens)]
    p = JSONPointer(keys)
    s.check(eq_(list(p), keys), 'keys are not those given')
    text = str(p)
    want = ''
    for k in keys:
        want = want + '/' + escaped(k)
    s.check(text == want, 'str() is not the escaped form')
    q = JSONPointer(text)
    s.check(eq_(list(q), keys), 'parsing the text does not give the keys back')
    s.check(q == p, 'the reparsed pointer is not equal')
    s.obs(text)


def concat(s, a, b, c):
    """several arguments: text + iterable + text"""
    t1 = s.string('t1', a, default='/x')
    ks = [s.string('k', b, default='~')] if b is not None else []
    t2 = s.string('t2', c, default='/y')
    ok = valid(t1) & valid(t2)
    kind, p = s.run(JSONPointer, t1, ks, t2)
    if kind == 'exc':
        s.check(isinstance(p, JSONPointerMalformedError), lambda: f'wrong exception {type(p).__name__}')
        s.check(no(ok), 'valid arguments were rejected')
        return
    s.check(ok, 'an invalid text argument was accepted')
    s.check(eq_(list(p), tokens(t1) + ks + tokens(t2)), 'the keys are not the concatenation')
    s.obs(list(p))


def token(s, n):
    k = s.string('k', n, default='~/~')
    e = JSONPointer.escape(k)
    s.check(e == escaped(k), 'escape() does not give the RFC 6901 escaped form')
    s.check(JSONPointer.unescape(e) == k, 'unescape() does not undo escape()')
    s.obs(e)


class MyMalformed(JSONPointerMalformedError):
    pass


class MyPointer(JSONPointer):
    malformed_exc = MyMalformed


def subclass(s, n):
    t = s.string('t', n, default='/~')
    kind, p = s.run(MyPointer, t)
    if kind == 'exc':
        s.check(type(p) is MyMalformed, 'a subclass does not raise its own malformed_exc')
        s.check(no(valid(t)), 'valid text rejected')
    else:
        s.check(valid(t), 'invalid text accepted')
        s.check(type(p) is MyPointer, 'constructing a subclass gives another class')
        s.check(eq_(list(p), tokens(t)), 'keys')


def bad_type(s):
    v = s.pick([5, 2.5, True, None, object()], 'v')
    kind, p = s.run(JSONPointer, v)
    s.check(kind == 'exc' and isinstance(p, TypeError), 'a non-string, non-iterable argument is accepted')


def cases(tier):
    cs = []
    top = 11 if tier == 'thorough' else 8
    for n in range(top + 1):
        cs.append(Case(f'parse-{n}', parse, n=n, weight=3.0 ** n, bounds=f'text of {n} characters',
                       reach=('accepted',) if n == 0 else ('accepted', 'rejected')))
    for lens in [(), (0,), (1,), (2,), (3,), (0, 0), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (0, 2, 1)] + (
            [(4,), (5,), (3, 2), (2, 2, 2)] if tier == 'thorough' else []):
        cs.append(Case('build-' + '-'.join(map(str, lens)), build, lens=lens, weight=4.0 ** sum(lens),
                       bounds=f'keys of lengths {lens}'))
    for a, b, c in [(2, 1, 2), (0, 1, 3), (3, None, 2), (1, 0, 1)]:
        cs.append(Case(f'concat-{a}-{b}-{c}', concat, a=a, b=b, c=c, weight=50))
    for n in range(6 if tier == 'thorough' else 5):
        cs.append(Case(f'token-{n}', token, n=n, weight=4.0 ** n))
    for n in range(4):
        cs.append(Case(f'subclass-{n}', subclass, n=n, weight=10))
    cs.append(Case('bad-type', bad_type))
    return cs
