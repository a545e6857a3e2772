"""C20: annotations and errors are collected from exactly the right results."""
from jschon import JSON
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch, schref
from harness.programs import P, W, wrapped
from harness.util import same, clone, strict, nodes, some
from harness.c18 import unordered

prepare = sch.prepare
BOUNDS = f'{len(P)} schema programs covering every keyword and every kind of nesting, with symbolic instance values and partly symbolic ' \
         f'names, each by itself and reached by {len(W)} routes and by two of them in a row (a fixed half, in quick a twelfth); annotations and errors collected from the root result, for every instance location, for every keyword that occurs and ' \
         'one that does not, and for both together; 2019-09 and 2020-12'
BASE = 'https://example.org/root'


def reference(value, x, dialect):
    return schref.evaluate(value, x, dialect, base=BASE)


def bag(got, want, cmp):
    """every got has its own want, and none is left"""
    if len(got) != len(want):
        return False
    want = list(want)
    for g in got:
        for i, w in enumerate(want):
            if cmp(g, w):
                del want[i]
                break
        else:
            return False
    return True


def one(s, program, how=()):
    dialect, value, x = wrapped(s, program, how)
    k, r = s.run(sch.evaluate, s, value, x, dialect)
    s.check(k == 'ok', lambda: f'evaluation raises {type(r).__name__}: {r}')
    ref = reference(value, x, dialect)
    s.check(bool(r.valid) == ref.valid, 'verdict')
    s.reach('valid' if ref.valid else 'invalid')
    anns = [(p, ip, k, v) for p, ip, k, v in ref.anns if v is not None]
    errs = ref.errs if not ref.valid else []
    got = list(r.collect_annotations())
    s.check(bag(got, [v for *_, v in anns], unordered), lambda: f'annotations {shown(got)} should be {shown(anns)}')
    nerr = len(errs) + (1 if ref.own else 0)
    ge = list(r.collect_errors())
    s.check(len(ge) == nerr, lambda: f'{len(ge)} errors {shown(ge)}, should be {shown([(e[0], e[1]) for e in errs])}')
    s.check(all(e is not None for e in ge), 'an error without a value')
    keys = {k for _, _, k, _ in anns} | {e[2] for e in errs} | {'nothing', 'title', 'properties'}
    doc = JSON(clone(x))
    places = [(ip, lookup(doc, ip)) for ip, _ in nodes(x)]
    for key in sorted(keys):
        here = [a for a in anns if a[2] == key]
        got = list(r.collect_annotations(key=key))
        s.check(bag(got, [a[3] for a in here], unordered), lambda: f'annotations of {key}: {shown(got)} should be {shown(here)}')
        s.check(len(list(r.collect_errors(key=key))) == len([e for e in errs if e[2] == key]), lambda: f'errors of {key}')
    for ip, node in places:
        here = [a for a in anns if at(a[1], ip)]
        got = list(r.collect_annotations(node))
        s.check(bag(got, [a[3] for a in here], unordered), lambda: f'annotations at {ip}: {shown(got)} should be {shown(here)}')
        eh = [e for e in errs if at(e[1], ip)]
        n = len(eh) + (1 if ref.own and not ip else 0)
        s.check(len(list(r.collect_errors(node))) == n, lambda: f'errors at {ip}')
        for key in sorted(keys):
            got = list(r.collect_annotations(node, key))
            want = [a[3] for a in here if a[2] == key]
            s.check(bag(got, want, unordered), lambda: f'annotations of {key} at {ip}: {shown(got)} should be {shown(want)}')
            s.check(len(list(r.collect_errors(node, key))) == len([e for e in eh if e[2] == key]), lambda: f'errors of {key} at {ip}')


def lookup(doc, ip):
    for t in ip:
        doc = doc[int(t)] if doc.type == 'array' else doc[t]
    return doc


def at(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def shown(x):
    return str(x)[:200]


def values(s, kind, where):
    """annotation values of every kind, from every annotation keyword and an unknown one: passed through unchanged, never affecting the verdict"""
    v = {'int': lambda: s.int('v', -9, 9, 1), 'real': lambda: s.real('v', -90, 90, 10, 15), 'str': lambda: s.string('v', 1, default='t'), 'bool': lambda: s.flag('v'),
         'arr': lambda: [s.int('v', -9, 9, 1), None], 'obj': lambda: {'a': {'b': s.int('v', -9, 9, 1)}}, 'empty': lambda: {}, 'zero': lambda: 0, 'str0': lambda: '',
         'arr0': lambda: []}[kind]()
    keys = ['default', 'examples', 'title', 'description', 'deprecated', 'readOnly', 'writeOnly', 'x', 'contentMediaType', 'contentEncoding', 'format', 'contentSchema']
    # a format must be a string, a contentSchema a schema (any value is kept)
    if not isinstance(v, str):
        keys.remove('format')
    bound = s.int('m', 0, 9, 5)
    d = {'minLength': bound, **{k: v for k in keys}}
    if where == 'any':
        d = {'anyOf': [d, {'contentMediaType': 'other'}]}
    x = 'abcde'
    r = sch.evaluate(s, d, x)
    ok = where == 'any' or bool(bound <= 5)
    s.check(bool(r.valid) == ok, 'annotation keywords affect the verdict')
    live = bool(bound <= 5)
    node = JSON(x)
    for k in keys:
        want = [v] if live else []
        if where == 'any' and k == 'contentMediaType':
            want = want + ['other']
        got = list(r.collect_annotations(node, k))
        s.check(bag(got, want, lambda a, b: bool(strict(a, b))), lambda: f'{k} is annotated as {shown(got)}')


def cases(tier):
    cs = [Case(f'program-{p}', one, program=p, weight=10) for p in P]
    cs += [Case(f'program-{p}-{w}', one, program=p, how=(w,), weight=10) for p in P for w in W]
    cs += [Case(f'program-{p}-{w}-{u}', one, program=p, how=(w, u), weight=15) for p in P for w in W for u in W if some(2 if tier == 'thorough' else 12, p, w, u)]
    cs += [Case(f'value-{k}-{w}', values, kind=k, where=w) for k in ('int', 'real', 'str', 'bool', 'arr', 'obj', 'empty', 'zero', 'str0', 'arr0') for w in ('root', 'any')]
    return cs
