"""C23: the catalog's sources."""
import builtins
import io
import os
import sys
import jschon.utils
from jschon import Catalog, LocalSource, RemoteSource, URI
from jschon.catalog import Source
from jschon.exc import CatalogError, JschonError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness import sch
from harness.util import some, number, strict, preserve

prepare = sch.prepare
BOUNDS = 'up to 3 sources with base URIs of up to 3 symbolic path characters (nested, overlapping, equal), added in every order, with and without a ' \
         'default source; URIs with up to 5 symbolic path characters; every kind of invalid URI and base URI, every kind of failing source; local ' \
         'and remote sources with 5 base directories/URLs, 3 suffixes and up to 5 symbolic characters of remainder'
ASSUMPTIONS = ['the network is a stand-in for the module "requests", files are a stand-in for open()',
               'the file system is not consulted: where a local source reads is judged by the path it opens, without symbolic links']

SEG = ((0x2d, 0x2d), (0x2f, 0x2f), (0x61, 0x62))


class Recorder(Source):
    def __init__(self, log, name, result=None, exc=None, **k):
        super().__init__(**k)
        self.log, self.name, self.result, self.exc = log, name, result, exc

    def __call__(self, relative_path):
        self.log.append((self.name, relative_path))
        if self.exc is not None:
            raise self.exc
        return self.result


def catalog(s):
    preserve(s, Catalog)
    return Catalog('sources')


def normal(s, t):
    """no empty segments, so that the text is in normal form; '-' and letters only otherwise"""
    s.assume(t.find('//') < 0)


def select(s, lens, order, default, n):
    cat = catalog(s)
    log = []
    bases = ['https://h.example/' + (s.string(f'b{i}', m, ranges=SEG, default='a/b'[:m]) + '/' if m else '') for i, m in enumerate(lens)]
    path = s.string('u', n, ranges=SEG, default='a/b/a'[:n])
    for b in bases:
        normal(s, b[8:])
    uri = 'https://h.example/' + path
    normal(s, uri[8:])
    docs = {i: {'doc': i} for i in range(len(bases))}
    added = []
    for i in order:
        if i == 'd':
            if default:
                cat.add_uri_source(None, Recorder(log, 'd', {'doc': 'd'}))
        else:
            cat.add_uri_source(URI(bases[i]), Recorder(log, i, docs[i]))
            added.append(i)
    best = None
    for i in added:
        if uri.startswith(bases[i]) and (best is None or len(bases[i]) >= len(bases[best])):
            best = i
    for again in range(2):
        del log[:]
        kind, r = s.run(cat.load_json, URI(uri))
        if best is None and not default:
            s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'no source, but {r!r}')
            s.check(log == [], 'a source that does not match is asked')
            s.reach('none')
            continue
        s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
        name, rest, doc = ('d', uri, {'doc': 'd'}) if best is None else (best, uri[len(bases[best]):], docs[best])
        s.check(len(log) == 1, lambda: f'{len(log)} sources asked')
        s.check(log[0][0] == name, lambda: f'source {log[0][0]} asked for {uri}, should be {name} of {bases}')
        s.check(log[0][1] == rest, lambda: f'asked for {log[0][1]}, should be {rest}')
        s.check(r == doc, 'another document')
        s.reach(str(name))


def prefixes(s, n):
    """base URIs of different lengths below each other, the shorter first and last"""
    cat = catalog(s)
    log = []
    c = s.string('c', n, ranges=((0x61, 0x63),), default='a')
    b = ['https://h.example/', 'https://h.example/a/', 'https://h.example/a/b/', 'https://h.example/ab/', 'https://h.example:80/a/', 'http://h.example/a/', 'https://h.example/a/?q=/']
    order = s.pick([(0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (2, 0, 1, 6, 3, 5, 4), (1, 2, 0, 3, 4, 6, 5)], 'order')
    for i in order:
        try:
            cat.add_uri_source(URI(b[i]), Recorder(log, i, i))
        except CatalogError:
            s.check(i == 6, 'a base URI is refused')
    for t, w in (('https://h.example/' + c, 0), ('https://h.example/a/' + c, 1), ('https://h.example/a/b/' + c, 2), ('https://h.example/ab/' + c, 3), ('https://h.example/a/b', 1), ('https://h.example/a', 0),
                 ('https://h.example:80/a/' + c, 4), ('http://h.example/a/b/' + c, 5), ('https://h.example/abc/' + c, 0), ('https://h.example/a/b/' + c + '?x=/a/', 2)):
        del log[:]
        kind, r = s.run(cat.load_json, URI(t))
        s.check(kind == 'ok' and r == w and log == [(w, t[len(b[w]):])], lambda: f'{t}: {r!r} from {log}, should be source {w}')


def refused(s):
    """URIs and base URIs that are not acceptable"""
    cat = catalog(s)
    log = []
    cat.add_uri_source(None, Recorder(log, 'd', 1))
    cat.add_uri_source(URI('https://h.example/'), Recorder(log, 'h', 2))
    c = s.string('c', 2, ranges=((0x61, 0x62), (0x2e, 0x2f), (0x41, 0x42)), default='a.')
    t = s.pick(['', 'a', '/a', '//h.example/a', 'https://h.example/a#', 'https://h.example/a#b', '#a', 'HTTPS://h.example/a', 'https://H.example/a', 'https://h.example/./' + c, 'https://h.example/../a',
                'https://h.example/%2f', 'https://h.example/a/../b', '?q', 'https://h.example/a?q#f'], 'uri')
    kind, r = s.run(cat.load_json, URI(t))
    s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'{t} gives {r!r}')
    s.check(log == [], 'a source is asked for an invalid URI')
    b = s.pick(['https://h.example', 'https://h.example/a', 'https://h.example/a/#', 'https://h.example/a/#x', 'a/', '/a/', '//h/a/', 'HTTPS://h.example/a/', 'https://h.example/./a/', 'https://h.example/a?/',
                'https://h.example/' + c + '/../', 'urn:a'], 'base')
    e = s.raises(CatalogError, cat.add_uri_source, URI(b), Recorder(log, 'x', 3))
    s.check(e is not None, lambda: f'the base URI {b} is accepted')
    for u in ('https://h.example/a/b', 'https://h.example/a'):
        del log[:]
        s.check(cat.load_json(URI(u)) == 2 and log[0][0] == 'h', 'a refused source is used')


class Odd(Exception):
    pass


def failing(s, how):
    """a source that fails"""
    cat = catalog(s)
    log = []
    e = {'catalog': lambda: CatalogError('x'), 'os': lambda: OSError(2, 'no'), 'value': lambda: ValueError('bad json'), 'odd': lambda: Odd(1, 2), 'key': lambda: KeyError('k'), 'type': lambda: TypeError(),
         'notimpl': lambda: NotImplementedError(), 'unicode': lambda: UnicodeDecodeError('utf-8', b'', 0, 1, 'x'), 'jschon': lambda: JschonError('j'), 'recursion': lambda: RecursionError('deep')}[how]()
    cat.add_uri_source(URI('https://h.example/'), Recorder(log, 'outer', 'outer'))
    cat.add_uri_source(None, Recorder(log, 'd', 'd'))
    cat.add_uri_source(URI('https://h.example/a/'), Recorder(log, 'a', exc=e))
    c = s.string('c', 1, ranges=((0x61, 0x7a),), default='x')
    kind, r = s.run(cat.load_json, URI('https://h.example/a/' + c))
    s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'a failing source gives {r!r}')
    s.check([n for n, _ in log] == ['a'], lambda: f'asked {log}')
    s.check(how == 'catalog' or r.__cause__ is e, 'the reason is lost')
    kind, r = s.run(cat.get_schema, URI('https://h.example/a/' + c + '#x'))
    s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'get_schema gives {r!r}')
    s.check(cat.load_json(URI('https://h.example/b')) == 'outer', 'other sources')
    if how == 'notimpl':
        cat.add_uri_source(URI('https://n.example/'), Source())
        kind, r = s.run(cat.load_json, URI('https://n.example/x'))
        s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'a plain Source gives {r!r}')


def replaced(s):
    """the same base URI again; catalogs apart"""
    cat = catalog(s)
    log = []
    c = s.string('c', 1, ranges=((0x61, 0x7a),), default='a')
    b = 'https://h.example/' + c + '/'
    cat.add_uri_source(URI(b), Recorder(log, 1, 1))
    s.check(cat.load_json(URI(b + 'x')) == 1, 'first')
    cat.add_uri_source(URI(b), Recorder(log, 2, 2))
    s.check(cat.load_json(URI(b + 'x')) == 2, 'the later source counts')
    cat.add_uri_source(None, Recorder(log, 3, 3))
    cat.add_uri_source(None, Recorder(log, 4, 4))
    s.check(cat.load_json(URI('https://x.example/')) == 4 and log[-1] == (4, 'https://x.example/'), 'default')
    other = Catalog('others')
    e = s.raises(CatalogError, other.load_json, URI(b + 'x'))
    s.check(e is not None, 'sources are shared between catalogs')


def fragment(s, frag):
    """a schema is loaded by its URI without the fragment"""
    log = []
    preserve(s, sch.CAT)
    c = s.string('c', 1, ranges=((0x61, 0x7a),), default='x')
    sch.CAT.add_uri_source(URI('https://s.example/d/'), Recorder(log, 's', {'$defs': {'a': {'const': 1, '$anchor': 'n'}}, 'const': 2}))
    m = sch.Made(s, True)
    k, r = s.run(sch.CAT.get_schema, URI('https://s.example/d/' + c + frag), metaschema_uri=sch.DIALECT['2020'], cacheid=m.cacheid)
    want = {'': 2, '#': 2, '#n': 1, '#/$defs/a': 1}.get(frag)
    s.check(len(log) == 1 and log[0][1] == c, lambda: f'asked {log}')
    if want is None:
        s.check(k == 'exc' and isinstance(r, CatalogError), lambda: f'{frag} gives {r!r}')
    else:
        s.check(k == 'ok' and r['const'].value == want, lambda: f'{frag} gives {r!r}')
        sch.CAT.get_schema(URI('https://s.example/d/' + c + '#n'), metaschema_uri=sch.DIALECT['2020'], cacheid=m.cacheid)
        s.check(len(log) == 1, 'loaded again')


# ---- files and the network
class Response:
    def __init__(self, fail):
        self.fail = fail

    def raise_for_status(self):
        if self.fail:
            raise OSError('status')

    def json(self, **k):
        return {'remote': 1}


class Requests:
    def __init__(self, log, fail=False):
        self.log, self.fail = log, fail

    def get(self, url, *a, **k):
        self.log.append(url)
        return Response(self.fail)


def with_open(s, log, exc=None):
    real = builtins.open, io.open

    def fake(path, mode='r', *a, **k):
        p = path if isinstance(path, str) else path.__fspath__()
        log.append(p)
        if exc is not None:
            raise exc
        return io.StringIO('{"local": 1}')

    def undo():
        builtins.open, io.open = real
    s.cleanups.append(undo)
    builtins.open = io.open = fake


def inside(p, base, suffix):
    """the path p is not above the directory base, by its text"""
    root = base.rstrip('/')
    if base == '.':
        root = ''
    elif p == (root or '/') + (suffix or ''):       # nothing remained of the URI
        return True
    elif no(p.startswith(root + '/')):
        return False
    elif p[len(root):] == '/':
        return True
    depth = 0
    for c in (p[len(root) + 1:] if base != '.' else p).split('/'):
        depth += -1 if c == '..' else 0 if c == '.' else 1
        if depth < 0 or no(c != ''):
            return False
    return True


FREE = ((0x21, 0x21), (0x2d, 0x2f), (0x3f, 0x3f), (0x61, 0x62))


def local(s, base, suffix, n, lead):
    cat = catalog(s)
    log = []
    t = lead + s.string('t', n, ranges=FREE, default='a/b.b'[:n])
    src = LocalSource(base, suffix=suffix) if suffix is not None else LocalSource(base)
    cat.add_uri_source(URI('https://h.example/d/'), src)
    u = URI('https://h.example/d/' + t)
    if no(u == 'https://h.example/d/' + t) or no(str(u) == str(URI(str(u)).copy())):
        return
    with_open(s, log)
    k, r = s.run(cat.load_json, u)
    if k == 'exc':
        s.check(isinstance(r, CatalogError), lambda: f'{type(r).__name__}: {r}')
        s.check(len(log) == 0, 'a file is opened for a refused URI')
        s.reach('refused')
        return
    s.check(len(log) == 1 and r == {'local': 1}, lambda: f'opened {log}')
    s.check(inside(log[0], str(base), suffix), lambda: f'{t!r} below {base} opens {log[0]!r}')
    # without slashes that mean nothing to the file system, the path is the remainder with the suffix
    if t != '' and no(any_([t.find('//') >= 0, t.startswith('/'), t.endswith('/')])):
        rest = '/'.join([c for c in t.split('/') if no(c == '.')])
        want = (str(base).rstrip('/') + '/' if str(base) not in ('.', '') else '') + rest + (suffix or '')
        s.check(log[0] == want, lambda: f'{t!r} below {base} opens {log[0]!r}, should be {want!r}')
        s.reach('opened')


def leading(s, base, k, n):
    """a remainder that begins with slashes"""
    log = []
    with_open(s, log)
    t = '/' * k + s.string('t', n, ranges=((0x2d, 0x2d), (0x2f, 0x2f), (0x61, 0x62)), default='etc'[:n])
    src = LocalSource(base)
    kind, r = s.run(src, t)
    if kind == 'exc':
        s.check(isinstance(r, JschonError), lambda: f'{type(r).__name__}: {r}')
        return
    s.check(len(log) == 1 and inside(log[0], base, None), lambda: f'{t!r} below {base} opens {log}')


def missing(s, how):
    log = []
    e = {'none': FileNotFoundError(2, 'No such file', 'name'), 'perm': PermissionError(13, 'no', 'name'), 'dir': IsADirectoryError(21, 'dir', 'name'), 'bare': OSError('x'), 'val': ValueError('null byte')}[how]
    cat = catalog(s)
    cat.add_uri_source(URI('https://h.example/d/'), LocalSource('/base'))
    with_open(s, log, e)
    c = s.string('c', 1, ranges=((0x61, 0x7a),), default='x')
    kind, r = s.run(cat.load_json, URI('https://h.example/d/' + c))
    s.check(kind == 'exc' and isinstance(r, CatalogError), lambda: f'{type(r).__name__}: {r}')


def remote(s, base, suffix, n, fail):
    cat = catalog(s)
    log = []
    t = s.string('t', n, ranges=((0x2d, 0x2d), (0x2f, 0x2f), (0x3a, 0x3a), (0x61, 0x62), (0x3f, 0x3f)), default='a/b'[:n])
    keep = jschon.utils.requests, sys.modules.get('requests')

    def undo():
        jschon.utils.requests = keep[0]
        if keep[1] is None:
            sys.modules.pop('requests', None)
        else:
            sys.modules['requests'] = keep[1]
    s.cleanups.append(undo)
    jschon.utils.requests = sys.modules['requests'] = Requests(log, fail)
    cat.add_uri_source(URI('https://h.example/d/'), RemoteSource(URI(base), suffix=suffix) if suffix is not None else RemoteSource(URI(base)))
    u = 'https://h.example/d/' + t
    k, r = s.run(cat.load_json, URI(u))
    s.check(len(log) == 1, lambda: f'fetched {log}')
    if fail:
        s.check(k == 'exc' and isinstance(r, CatalogError), lambda: f'{type(r).__name__}: {r}')
    else:
        s.check(k == 'ok' and r == {'remote': 1}, lambda: f'{type(r).__name__}: {r}')
    d = base[:base.rfind('/') + 1]
    if t == '':
        d = base
    elif t[0] == '?':
        d = base.split('?')[0]
    s.check(log[0] == d + t + (suffix or ''), lambda: f'{t!r} at {base} fetches {log[0]!r}')


def cases(tier):
    T = tier == 'thorough'
    from itertools import permutations
    cs = []
    for lens in [(0,), (1,), (2,), (3,), (1, 1), (1, 3), (3, 1), (0, 1), (2, 3)] + ([(1, 3, 3), (1, 1, 3), (3, 3), (0, 1, 3)] if T else [(0, 1, 3)]):
        for default in (False, True):
            for i, order in enumerate(permutations(list(range(len(lens))) + ['d'])):
                for n in (0, 2, 4, 5):
                    w = 3 ** (sum(lens) + n) / 20
                    if T and w < 3000 or w < 400 and some(2, lens, default, order, n):
                        cs.append(Case(f"select-{'.'.join(map(str, lens))}-{default}-{i}-{n}", select, lens=lens, order=order, default=default, n=n, weight=w))
    cs += [Case(f'prefixes-{n}', prefixes, n=n, weight=30) for n in (0, 1, 2)]
    cs.append(Case('refused', refused, weight=20))
    cs += [Case(f'failing-{h}', failing, how=h) for h in ('catalog', 'os', 'value', 'odd', 'key', 'type', 'notimpl', 'unicode', 'jschon', 'recursion')]
    cs.append(Case('replaced', replaced))
    cs += [Case(f'fragment-{f}', fragment, frag=f) for f in ('', '#', '#n', '#/$defs/a', '#zz', '#/zz')]
    for base in ('/base', '/base/dir/', 'rel/dir', '.', '/'):
        for suffix in (None, '', '.json'):
            for lead in ('', 'a/', '/', 'a/b', '%2Fa'):
                for n in (0, 1, 2, 3) + ((4,) if T else ()):
                    if T or some(2, base, suffix, lead, n):
                        cs.append(Case(f'local-{base}-{suffix}-{lead}-{n}', local, base=base, suffix=suffix, n=n, lead=lead, weight=5 ** n / 4))
        for k in (0, 1, 2, 3):
            for n in (0, 1, 2, 3):
                if base not in ('/', '.', '/base/dir/'):
                    cs.append(Case(f'leading-{base}-{k}-{n}', leading, base=base, k=k, n=n, weight=2 ** n))
    cs += [Case(f'missing-{h}', missing, how=h) for h in ('none', 'perm', 'dir', 'bare', 'val')]
    for base in ('https://r.example/', 'https://r.example/x/y/', 'http://r.example/x/y', 'https://r.example/x?q'):
        for suffix in (None, '', '.json'):
            for n in (0, 1, 2, 3):
                for fail in (False, True):
                    if T or some(2, base, suffix, n, fail):
                        cs.append(Case(f'remote-{base}-{suffix}-{n}-{fail}', remote, base=base, suffix=suffix, n=n, fail=fail, weight=4 ** n / 2))
    return cs
