"""C25: URIs as values."""
from jschon import URI
from jschon.exc import URIError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness import uriref
from harness.util import some, number

BOUNDS = 'URIs put together from symbolic components: scheme of up to 3 characters, host up to 2, path up to 6 (3 free segments), query and ' \
         'fragment up to 3 with percent escapes; references of up to 5 free characters resolved against 9 bases with symbolic segments; every ' \
         'combination of replaced and removed components; every combination of validation requirements'
ASSUMPTIONS = ['hosts are registered names; IP literals, user names and ports are tried with fixed texts only; empty ones (file:///x) are left out',
               'paths have no empty segments where ".." occurs, a path that ".." empties may lose its "/", base paths start with "/" (package rfc3986 differs from the RFC there)',
               'escapes of unreserved characters are not decoded for comparison (nor does the statement say so)']

LOWER = ((0x61, 0x7a),)
ALPHA = ((0x41, 0x5a), (0x61, 0x7a))
WORD = ((0x2d, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0x7e, 0x7e))
SEG = ((0x21, 0x21), (0x24, 0x24), (0x26, 0x2e), (0x30, 0x3b), (0x3d, 0x3d), (0x40, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0x7e, 0x7e))
QF = SEG + ((0x2f, 0x2f), (0x3f, 0x3f))
HEXD = ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))


def shown(u):
    return repr(u)


def text(s, name, shape, ranges=SEG):
    """shape: a digit is that many free characters, % an escape, other characters themselves"""
    if shape.startswith('='):
        return shape[1:]
    r = ''
    for i, c in enumerate(shape):
        if c.isdigit():
            r = r + s.string(f'{name}{i}', int(c), ranges=ranges, default='abc')
        elif c == '%':
            r = r + '%' + s.string(f'{name}{i}', 2, ranges=HEXD, default='2f')
        else:
            r = r + c
    return r


def make(s, shape, name='u'):
    """components from a shape (scheme, host, path, query, fragment)"""
    sc, h, p, q, f = shape
    return [None if sc is None else s.string(name + 's', 1, ranges=ALPHA, default='h') + text(s, name + 'S', sc, WORD[:3] + WORD[4:5]),
            None if h is None else text(s, name + 'h', h, WORD), text(s, name + 'p', p),
            None if q is None else text(s, name + 'q', q, QF), None if f is None else text(s, name + 'f', f, QF)]


def parts(u):
    return [u.scheme, u.authority, u.path if u.path is not None else '', u.query, u.fragment]


def whole(s, shape):
    c = make(s, shape)
    t = uriref.unparse(c)
    u = URI(t)
    s.check(str(u) == t, lambda: f'URI({t!r}) reads {u}')
    s.check(uriref.equal(parts(u), c), lambda: f'components of {t!r} are {parts(u)}')
    s.check(len(u) == len(t), 'length')
    s.check(u == t and t == u and u == URI(t) and no(u != t) and u is not None and no(u == None), 'a URI equals its text')
    if shape[0] is not None and shape[1] is None and shape[2] == '':
        return         # rfc3986 has no scheme-only URIs
    s.check(u.is_absolute() is (shape[0] is not None and shape[4] is None), 'is_absolute')
    s.check(u.has_absolute_base() is (shape[0] is not None), 'has_absolute_base')
    s.obs(str(u))


NAMES = ('scheme', 'authority', 'path', 'query', 'fragment')


def copied(s, shape, how):
    """how: for each component keep, drop, none, new"""
    c = make(s, shape)
    u = URI(uriref.unparse(c))
    new = ['x' + s.string('ns', 1, ranges=ALPHA, default='y'), s.string('na', 2, ranges=WORD, default='h'), '/' + s.string('np', 1, ranges=SEG, default='p'),
           s.string('nq', 1, ranges=QF, default='q'), s.string('nf', 1, ranges=QF, default='f')]
    kw, want = {}, list(c)
    for i, (n, h) in enumerate(zip(NAMES, how)):
        if h != 'keep':
            kw[n] = {'drop': False, 'none': None, 'new': new[i]}[h]
            want[i] = new[i] if h == 'new' else '' if n == 'path' else None
        elif len(how) % 2:
            kw[n] = True
    if want[1] is not None and want[2] != '' and no(want[2].startswith('/')):
        return
    before = str(u)
    v = u.copy(**kw)
    s.check(v is not u and type(v) is URI, 'not a new URI')
    s.check(uriref.equal(parts(v), want), lambda: f'copy of {before!r} with {kw} is {v}')
    s.check(str(v) == uriref.unparse(want), 'text of a copy')
    s.check(str(u) == before and uriref.equal(parts(u), c), 'the original changed')


def compare(s, a, b):
    x, y = make(s, a, 'u'), make(s, b, 'v')
    u, v = URI(uriref.unparse(x)), URI(uriref.unparse(y))
    want = uriref.equal(uriref.normal(x), uriref.normal(y))
    got = u == v
    s.check(iff(got, want), lambda: f'{u} == {v} is {got}')
    s.check(iff(v == u, got), 'equality is not symmetric')
    s.check(iff(u != v, no(got)), '!= is not the opposite of ==')
    s.check(iff(u == str(v), got), 'a URI and a text compare differently from two URIs')
    s.check(iff(str(u) == v, got), 'a text and a URI compare differently from two URIs')
    if got:
        s.reach('equal')
        s.check(s.hash_of(u) == s.hash_of(v), lambda: f'{u} and {v} are equal but their hashes are not')
        s.check({u: 1}.get(v) == 1, 'an equal URI is not found in a mapping')
    else:
        s.reach('unequal')
        s.check({u: 1}.get(v) is None, 'an unequal URI is found in a mapping')


BASES = {'deep': (None, '1', '/1/b;p', '1', None), 'root': (None, '1', '/', None, None), 'bare': (None, '1', '', None, None), 'file': (None, None, '/1/b', None, None),
         'dir': (None, '1', '/1/b/', 'q', None), 'frag': (None, 'h', '/1/b', None, '1'), 'port': (None, '=u@h:80', '/a', None, None),
         'up': (None, 'h', '/b/../1', None, None), 'pct': (None, 'h', '/a%/b', '%', None)}


def resolved(s, base, shape, scheme):
    c = make(s, BASES[base], 'b')
    c[0] = scheme
    r = text(s, 'r', shape, ranges=((0x21, 0x21), (0x23, 0x24), (0x2e, 0x2f), (0x3a, 0x3a), (0x3f, 0x3f), (0x61, 0x63)))
    ref = uriref.parse(r)
    s.assume(no(any_([r.startswith('//'), ref[2].find('//') >= 0, r.find('##') >= 0])))
    if ref[1] is not None and ref[1] == '':
        return         # rfc3986 drops an empty authority
    if ref[4] is not None and ref[4].find('#') >= 0:
        return
    if ref[0] is None and ref[1] is None:
        seg = ref[2].split('/')[0]
        s.assume(seg.find(':') < 0)
    elif ref[0] is not None and ref[2] != '' and no(ref[2].startswith('/')):
        return
    b, u = URI(uriref.unparse(c)), URI(r)
    keep, keepb = str(u), str(b)
    t = u.resolve(b)
    want = uriref.resolve(ref, uriref.normal(c))
    if want[2] == '/' and not t.path and '..' in r:
        return         # rfc3986 takes "/../" to "", see ASSUMPTIONS
    s.check(str(t) == uriref.unparse(want), lambda: f'{r!r} resolved against {b} is {t}, should be {uriref.unparse(want)}')
    s.check(str(u) == keep and str(b) == keepb, 'resolving changes its inputs')
    s.check(u.resolve(b) == t, 'resolving again gives another URI')
    s.obs(str(t))


REFS = ['', '.', './', '..', '../', '../g', '../..', '../../', '../../g', '../../../g', '/./g', '/../g', 'g.', '.g', 'g..', '..g', './../g', './g/.', 'g/./h', 'g/../h',
        'g;x=1/./y', 'g;x=1/../y', 'g?y/./x', 'g?y/../x', 'g#s/./x', 'g#s/../x', 'g:h', '//g', '?y', '#s', 'g?y#s', ';x', 'g;x?y#s', '//g/../x?y#z', 'u:/a/../b', 'g/']


def fixed(s, base):
    """the examples of RFC 3986 5.4 and more, with symbolic bases"""
    c = make(s, BASES[base], 'b')
    c[0] = 'http'
    r = s.pick(REFS, 'ref')
    t = URI(r).resolve(URI(uriref.unparse(c)))
    want = uriref.resolve(uriref.parse(r), uriref.normal(c))
    if want[2] == '/' and not t.path and '..' in r:
        return
    s.check(str(t) == uriref.unparse(want), lambda: f'{r!r} resolved against {uriref.unparse(c)} is {t}')


def validated(s, shape, req):
    c = make(s, shape)
    u = URI(uriref.unparse(c))
    scheme, norm, frag, nonempty = req
    bad = scheme and c[0] is None or not frag and c[4] is not None or not nonempty and c[4] is not None and len(c[4]) > 0
    if not bad and norm:
        bad = no(uriref.equal(uriref.normal(c), c))
    kind, e = s.run(u.validate, require_scheme=scheme, require_normalized=norm, allow_fragment=frag, allow_non_empty_fragment=nonempty)
    s.check(iff(kind == 'exc', bad), lambda: f'validation of {u} with {req}: {kind}')
    if kind == 'exc':
        s.check(isinstance(e, URIError), 'wrong exception')
        s.reach('refused')
    else:
        s.check(e is None, 'validate returns something')
        s.reach('accepted')


def other(s):
    """comparing with other things"""
    u = URI('http://h/' + s.string('p', 2, ranges=SEG, default='ab'))
    x = s.pick([None, 'http://h/ab', 'HTTP://H/./ab', '', 'ab'], 'x')
    want = False if x is None else u == URI(x)
    s.check(iff(u == x, want), 'comparison with a text')
    s.check(iff(u != x, no(want)), '!= with a text')
    for y in (5, [], {}):
        k, r = s.run(lambda: u == y)
        s.check(k == 'exc' or r is False, lambda: f'a URI equals {y!r}')
    s.check(repr(u) == "URI('" + str(u) + "')", 'repr') if s.symbolic is False else None


def cases(tier):
    T = tier == 'thorough'
    cs = []
    SCH, HOST, PATH, QS, FS = (None, '', '1'), (None, '1', '2', '=u@h:8'), ('', '/', '/1', '/2/1', '1', '/%', '1/%b'), (None, '', '1', '%1'), (None, '', '1', '1%')
    shapes = [(a, b, p, q, f) for a in SCH for b in HOST for p in PATH for q in QS for f in FS if (b is None or not p or p[0] == '/')]
    # without a scheme and an authority a first segment has no colon; WORD characters are not free of ':'; so leave those relative paths to `resolved`
    shapes = [x for x in shapes if not (x[0] is None and x[1] is None and x[2][:1] not in ('', '/'))]
    for x in shapes:
        if T or some(5, x):
            cs.append(Case(f'whole-{x}', whole, shape=x, weight=2))
    from itertools import product
    for i, how in enumerate(product(('keep', 'drop', 'none', 'new'), repeat=5)):
        x = [y for y in shapes if y[2][:1] in ('', '/')][number(how) % 150]
        if T or some(3, how):
            cs.append(Case(f'copy-{".".join(how)}', copied, shape=x, how=how))
    pairs = [((None, None, '/2', None, None), (None, None, '/2', None, None)), (('', '1', '', None, None), ('', '1', '', None, None)),
             (('1', None, '/1', None, None), ('1', None, '/1', None, None)), (('', 'h', '/%', None, None), ('', 'h', '/%', None, None)),
             (('', 'h', '/1', '%', None), ('', 'h', '/1', '%', None)), (('', 'h', '/1', None, '%'), ('', 'h', '/1', None, '%')),
             (('', 'h', '/a', '', None), ('', 'h', '/1', None, None)), (('', 'h', '/a', None, ''), ('', 'h', '/1', None, None)),
             (('', 'h', '/a', None, '1'), ('', 'h', '/a', None, '1')), (('', 'h', '/a', '1', '1'), ('', 'h', '/a', '1', '1')),
             (('', '2', '/1', None, None), ('', '2', '/1', None, None)), (('', 'h', '/a/1/b', None, None), ('', 'h', '/b', None, None)),
             (('', 'h', '/2/b', None, None), ('', 'h', '/b', None, None)), (('', 'h', '/a/2', None, None), ('', 'h', '/1', None, None)),
             (('', 'h', '/a/2/b', None, None), ('', 'h', '/1', None, None)), (('', 'h', '', None, None), ('', 'h', '/', None, None)),
             (('', 'h', '/1%', None, None), ('', 'h', '/1%', None, None)), (('', 'h', '/%b%', None, None), ('', 'h', '/%b%', None, None))]
    for i, (a, b) in enumerate(pairs if T else pairs[:-1]):
        cs.append(Case(f'equal-{i}', compare, a=a, b=b, weight=40))
    for b in BASES:
        cs.append(Case(f'fixed-{b}', fixed, base=b, weight=4))
        for i, shape in enumerate(('1', '2', '3', '../1', './2', '1/../1', '/2', 'a/2', 'a?1', '?2', '#2', '1#1', 'a:/2', '../../1', '/../1', '..1', '4') + (('5', '../3', '3/..', '1/./2') if T else ())):
            if T or b in ('deep', 'dir') or some(2, b, i):
                cs.append(Case(f'resolve-{b}-{shape}', resolved, base=b, shape=shape, scheme=('http', 'file', 'x+y')[i % 3], weight=3.0 ** sum(int(c) for c in shape if c.isdigit())))
    for req in product((False, True), repeat=4):
        for x in ((None, None, '/1', None, None), ('', '1', '/1', None, None), ('', '1', '/a', None, ''), ('', 'h', '/%', None, '1'), ('', 'h', '/a', '%', '%'), ('', 'h', '/2/b', None, None),
                  (None, None, '', None, '1'), ('1', 'h', '', None, None), (None, 'h', '/a/2', '1', '')):
            cs.append(Case(f'validate-{req}-{x}', validated, shape=x, req=req, weight=2))
    cs.append(Case('other', other))
    return cs
