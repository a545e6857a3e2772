"""C27: format."""
import jschon.formats
import jschon.vocabulary.format as fmt
from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.vocabulary.format import format_validator
from symex.runner import Case
from symex.session import no, all_, any_, iff
from harness import sch
from harness.c01 import valid as pointer_ok
from harness.util import some, preserve

BOUNDS = 'every history of up to 5 operations out of registering a validator (for any set of types), enabling formats in one of two catalogs, making ' \
         'a schema and evaluating, with symbolic format names (one letter) and instances of every type; validators that reject one symbolic value; ' \
         'formats in 9 places of a schema, in 3 dialects and in one without the vocabulary; one schema evaluated for 2 values (thorough: 3) that Python may hold for equal; "json-pointer" for every text of up to 4 characters'
ASSUMPTIONS = ['validators are functions that return or raise ValueError, and do not depend on anything else', 'a schema has the formats that were enabled and registered when it was made']

TWO = None
NAMES = ((0x61, 0x63),)
TYPES = sch.TYPES


def prepare(*a):
    global TWO
    sch.prepare()
    if TWO is None:
        TWO = create_catalog('2020-12', name='verif2')


def fresh(s):
    preserve(s, fmt, sch.CAT, TWO)


def instance(s, types=TYPES):
    """any type -> (type, plain value)"""
    t = s.pick(types, 'type')
    return t, {'null': lambda: None, 'boolean': lambda: s.flag('b'), 'number': lambda: s.int('i', 0, 2, 1), 'string': lambda: s.string('x', 1, ranges=NAMES, default='a'),
               'array': lambda: [s.int('i', 0, 2, 1)], 'object': lambda: {'k': s.int('i', 0, 2, 1)}}[t]()


class Rejects:
    """a validator that rejects scalars equal to what, and arrays and objects that have it"""

    def __init__(self, what):
        self.what = what
        self.calls = 0

    def __call__(self, value):
        self.calls += 1
        if rejected(value, self.what):
            raise ValueError('no')


def rejected(value, what):
    if isinstance(value, dict):
        return any(bool(v == what) for v in value.values())
    if isinstance(value, (list, tuple)):
        return any(bool(v == what) for v in value)
    if isinstance(value, bool) or isinstance(what, bool):
        return value is what
    return bool(value == what) if value is not None and what is not None else value is what


SETS = (('string',), ('number', 'string'), ('array', 'object', 'null'), TYPES, (), ('boolean',))


def history(s, ops, fixed):
    """registering, enabling, making and evaluating in any order"""
    fresh(s)
    cats = (sch.CAT, TWO)
    caches = [c.cache() for c in cats]
    ids = [c.__enter__() for c in caches]
    s.cleanups.append(lambda: [c.__exit__(None, None, None) for c in caches])
    reg, on, made = [], [], []
    t, x = instance(s)
    for i, op in enumerate(ops):
        f = s.string(f'f{i}', 1, ranges=NAMES, default='a')
        k = s.choose(2, f'c{i}') if op in ('enable', 'make') else 0
        if op == 'register':
            types = s.pick(SETS, f't{i}')
            what = s.int(f'w{i}', 0, 2, 1) if t in ('number', 'array', 'object') else s.string(f'w{i}', 1, ranges=NAMES, default='a') if t == 'string' else x
            v = Rejects(what)
            s.check(format_validator(f, instance_types=types)(v) is v, 'the decorator returns the function')
            reg.append((f, types, v))
        elif op == 'enable':
            more = s.pick([(), ('zz',), ('json-pointer', 'zz')], f'more{i}') if fixed else ()
            cats[k].enable_formats(f, *more)
            on.append((k, f))
            s.check(cats[k].is_format_enabled(f), 'not enabled')
        elif op == 'make':
            r = JSONSchema({'format': f}, catalog=cats[k], cacheid=ids[k], uri=URI(f'https://example.org/{i}'), metaschema_uri=sch.DIALECT['2020'])
            act = None
            for g, types, v in reg:
                if g == f:
                    act = types, v
            if not any(c == k and bool(g == f) for c, g in on):
                act = None
            made.append((r, f, act))
    for k in (0, 1):
        for c in 'abc':
            s.check(iff(cats[k].is_format_enabled(c), any_(g == c for d, g in on if d == k)), lambda: f'the format {c} in catalog {k}')
    for r, f, act in made:
        kind, res = s.run(r.evaluate, JSON(x))
        s.check(kind == 'ok', lambda: f'{type(res).__name__}: {res}')
        fails = act is not None and t in act[0] and rejected(x, act[1].what)
        s.check(bool(res.valid) == (not fails), lambda: f'{"valid" if res.valid else "invalid"} for {x!r} ({t})')
        if res.valid:
            s.check(list(res.collect_annotations()) == [f], lambda: f'annotations {list(res.collect_annotations())}')
        else:
            s.check(len(list(res.collect_errors())) == 1, 'errors')
        s.reach('fails' if fails else 'passes')


PLACES = {
    'root': (lambda f: f, lambda x: x), 'allOf': (lambda f: {'allOf': [True, f]}, lambda x: x), 'not': (lambda f: {'not': {'not': f}}, lambda x: x), 'props': (lambda f: {'properties': {'a': f}}, lambda x: {'a': x, 'b': None}),
    'items': (lambda f: {'items': f}, lambda x: [x]), 'ref': (lambda f: {'$ref': '#/$defs/f', '$defs': {'f': f}}, lambda x: x), 'else': (lambda f: {'if': False, 'else': f}, lambda x: x),
    'names': (lambda f: {'propertyNames': f}, lambda x: {x: 1}), 'one': (lambda f: {'oneOf': [f, False]}, lambda x: x),
}


def places(s, place, dialect, enabled, second):
    fresh(s)
    a, b = s.string('a', 1, ranges=NAMES, default='a'), s.string('b', 1, ranges=NAMES, default='b')
    w = s.string('w', 1, ranges=NAMES, default='c')
    x = s.string('x', 1, ranges=NAMES, default='c')
    v = Rejects(w)
    format_validator(a)(v)
    if enabled:
        sch.CAT.enable_formats(a)
    f = {'format': b}
    if second:
        f = {'minLength': 0, 'format': b, 'title': 'x'}
    p, wrap = PLACES[place]
    m = sch.schema(s, p(f), dialect)
    res = m.evaluate(JSON(wrap(x)))
    fails = enabled and bool(a == b) and bool(x == w)
    s.check(bool(res.valid) == (not fails), lambda: f'{"valid" if res.valid else "invalid"} for {x!r}')
    s.check(v.calls == (1 if enabled and a == b else 0), 'the validator is not called once')
    if res.valid and place not in ('not',):
        s.check(list(res.collect_annotations(key='format')) == [b], 'annotation')
    s.reach('fails' if fails else 'passes')


def pointer(s, n, how):
    """the format that comes with the library"""
    preserve(s, sch.CAT)
    if how != 'off':
        sch.CAT.enable_formats('json-pointer')
    t = s.string('t', n, default='/~0a'[:n])
    r = sch.schema(s, {'format': 'json-pointer'})
    v = r.evaluate(JSON(t)).valid
    s.check(iff(v, True if how == 'off' else pointer_ok(t)), lambda: f'{t!r} is {v}')
    for x in (None, True, n, [t], {t: t}):
        s.check(r.evaluate(JSON(x)).valid, lambda: f'{x!r} is no text')
    s.reach('valid' if v else 'invalid')


def foreign(s):
    """a dialect without the vocabulary"""
    from harness import c26
    fresh(s)
    a, x = s.string('a', 1, ranges=NAMES, default='a'), s.string('x', 1, ranges=NAMES, default='b')
    with_it = s.flag('with')
    c26.prepare()
    c26.world(s, m=c26.meta({c26.CORE: True, **({c26.URIS['f']: True} if with_it else {})}))
    format_validator(a)(Rejects(x))
    sch.CAT.enable_formats(a)
    r = JSONSchema({'$schema': 'https://m.example/m', 'format': a}, catalog=sch.CAT, cacheid=c26.here(s), uri=sch.ROOT)
    s.check(bool(r.evaluate(JSON(x)).valid) == (not with_it), 'the format of a dialect')


def again(s, d, n, what):
    """the same schema for values that are equal in Python, though not in JSON"""
    fresh(s)
    f = s.string('f', 1, ranges=NAMES, default='a')
    w = {'number': lambda: s.int('w', 0, 1, 1), 'boolean': lambda: s.flag('w'), 'string': lambda: s.string('w', 1, ranges=((0x30, 0x31),), default='1')}[what]()
    T = s.pick([('number', 'boolean'), (what,), ('array', what, 'null')], 'types')

    def v(x):
        if isinstance(x, bool) == isinstance(w, bool) and isinstance(x, str) == isinstance(w, str) and x == w:
            raise ValueError('no')
    format_validator(f, instance_types=T)(v)
    sch.CAT.enable_formats(f)
    r = sch.schema(s, {'format': f, 'items': {'format': f}}, d)
    s.reach('made')
    for i in range(n):
        t = s.pick(['number', 'boolean', 'string', 'array'], f'type{i}')
        x = {'number': lambda: s.int(f'x{i}', 0, 1, 1), 'boolean': lambda: s.flag(f'x{i}'), 'string': lambda: s.string(f'x{i}', 1, ranges=((0x30, 0x31),), default='1'), 'array': lambda: [s.flag(f'x{i}')]}[t]()
        fails = t in T and t == what and x == w or t == 'array' and what == 'boolean' and x[0] is w
        s.check(bool(r.evaluate(JSON(x)).valid) == (not fails), lambda: f'{x!r} at {i}, where {w!r} is rejected among {T}')


def odd(s):
    """formats that are no text, or that nothing is registered for"""
    fresh(s)
    sch.CAT.enable_formats('', 'a')
    v = s.pick(['', 'a', 5, None, [], ['a'], {}, True], 'format')
    t, x = instance(s)
    kind, r = s.run(sch.schema, s, {'format': v})
    s.check(kind == 'ok', lambda: f'{type(r).__name__}: {r}')
    res = r.evaluate(JSON(x))
    s.check(res.valid, lambda: f'{x!r} is invalid for the format {v!r}, which has no validator')
    s.check(bool(r.validate().valid) == isinstance(v, str), 'the schema itself')


def cases(tier):
    T = tier == 'thorough'
    from itertools import product
    cs = []
    for n in (2, 3, 4) + ((5,) if T else ()):
        for ops in product(('register', 'enable', 'make'), repeat=n):
            if 'make' not in ops or ops.count('make') > 2 or ops[-1] != 'make' and not T and n > 3 or ops.count('register') > 2:
                continue
            if n < 4 or T and some({4: 1, 5: 6}[n], ops) or some(3, ops) and n == 4:
                cs.append(Case(f"history-{'.'.join(ops)}", history, ops=ops, fixed=n < 4, weight=6 ** n / 30 * (3 if ops.count('register') > 1 else 1)))
    for p, d, e, two in product(PLACES, ('2019', '2020', 'next'), (False, True), (False, True)):
        if T or some(2, p, d, e, two):
            cs.append(Case(f'places-{p}-{d}-{e}-{two}', places, place=p, dialect=d, enabled=e, second=two, weight=3))
    cs += [Case(f'pointer-{n}-{h}', pointer, n=n, how=h, weight=3 ** n) for n in range(6 if T else 5) for h in ('on', 'off')]
    cs += [Case(f'again-{d}-{n}-{w}', again, d=d, n=n, what=w, weight=8 ** n / 5) for d in ('2019', '2020', 'next') for n in ((2, 3) if T else (2,)) for w in ('number', 'boolean', 'string')]
    cs += [Case('foreign', foreign, weight=5), Case('odd', odd, weight=10)]
    return cs
