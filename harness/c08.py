"""C08: JSON text and files."""
import json

from jschon import JSON
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, clone, strict, tree_ok
from harness.c07 import build, SHAPES

BOUNDS = 'documents of 24 shapes with integers from -10^12 to 10^12, decimals, strings and keys of up to 2 (thorough: 3) symbolic characters ' \
         '(all Unicode scalar values), through text and through files, in places with 3 text encodings; texts of up to 3 (quick) / 4 (thorough) characters ' \
         'of the JSON alphabet; numbers of magnitude 0 to 9.9e999; 1 change (2) at any place of 4 documents between printing them; NaN, Infinity and -Infinity in 9 positions with symbolic surroundings'

MORE = {'int': 'int', 'real': 'real', 'str3': 'str3', 'mix': ((1, ['null', 'bool', 'real']), (2, ((0, 'str2'),))),
        'mix1': ((1, ['null', 'bool', 'real']), (2, ((0, 'str1'),))), 'key1': ((1, 'null'),), 'key2': ((2, 'null'),), 'key3': ((3, 'str1'),), 'nest4': [[['int'], 'str1'], ()], 'two': ((1, 'str1'), (1, 'int'))}


FULLY = ('int', 'real', 'str0', 'str1', 'str2', 'str3', 'key1', 'key2')


def typed(a, b):
    """strict, and integers stay integers"""
    if isinstance(a, dict) and isinstance(b, dict):
        return all_(typed(v, w) for v, w in zip(a.values(), b.values())) & strict(a, b)
    if isinstance(a, list) and isinstance(b, list):
        return all_(typed(v, w) for v, w in zip(a, b)) & strict(a, b)
    return (isinstance(a, float) == isinstance(b, float)) & same(a, b)


def roundtrip(s, t, via):
    v = build(s, (MORE | SHAPES)[t], 'a', small=t not in FULLY)
    keep = clone(v)
    j = JSON(v)
    s.check(str(j) == j.dumps(), 'str() is not dumps()')
    if via == 'text':
        text = j.dumps()
        r = JSON.loads(text)
    else:
        f = s.path('doc.json')
        j.dumpf(f)
        r = JSON.loadf(f)
        text = j.dumps()
    s.check(strict(j.value, keep), 'printing changed the document')
    s.check(r == j, 'the document loaded is not equal to the one printed')
    s.check(typed(r.value, keep), 'the data loaded is not the data printed')
    tree_ok(s, r)
    s.check(typed(json.loads(text), keep), 'the text printed is not the JSON text of the value')
    # printed again after a change
    if r.type == 'array' and len(r):
        r[0] = 'new'
        s.check(typed(json.loads(r.dumps()), ['new'] + keep[1:]), 'the text after a change is not that of the new value')
    elif r.type == 'object':
        k = s.pick(['new', '', 'a"'], 'newkey')
        r[k] = [1]
        m = clone(keep)
        m[k] = [1]
        s.check(same(json.loads(r.dumps()), m), 'the text after a change is not that of the new value')
    sub = j
    while sub.type == 'array' and len(sub):
        sub = sub[0]
        s.check(typed(json.loads(sub.dumps()), sub.value), 'the text of a node is not that of its value')


ALPHA = tuple((ord(c), ord(c)) for c in '"+,-.:INaEe[]{}\\nl ') + ((48, 57),)
FORMS = ['@', '[@]', '[1, @]', '{"a": @}', '{"a": [0, {"b": @}], "c": 1}', ' @ ', '[@, "x"]', '{"@": @}', '[[], @, @]']


def constants(s, form):
    c = s.pick(['NaN', 'Infinity', '-Infinity'], 'constant')
    text = form.replace('@', c)
    pad = s.string('pad', 1, ranges=((9, 10), (13, 13), (32, 32)))
    text = pad + text + pad
    via = s.pick(['text', 'file'], 'via')
    if via == 'text':
        k, r = s.run(JSON.loads, text)
    else:
        f = s.path('c.json')
        with open(f, 'w') as h:
            h.write(text)
        k, r = s.run(JSON.loadf, f)
    s.check(k == 'exc', f'{c} was loaded')
    s.check(isinstance(r, ValueError), lambda: f'wrong exception {type(r).__name__}')
    # as a string it is just a string
    q = JSON.loads('["' + c + '"]')
    s.check(q.value == [c], 'a string was mistaken for a constant')


def changed(s, shape, ops):
    """printed, changed at any depth, and printed again"""
    v = {'arr': [[1], 2, {'a': 3}], 'obj': {'a': [[1], {}], 'b': {'a': 5}}, 'deep': [[[[0]]]], 'flat': [1, 2, 3]}[shape]
    v = clone(v)
    j = JSON(clone(v))
    f = s.path('c.json')
    n = 0

    def here():
        s.check(same(json.loads(j.dumps()), v) & same(json.loads(str(j)), v), lambda: f'{j.dumps()} is printed for {v}')
        j.dumpf(f)
        s.check(JSON.loadf(f).value == v and j.value == v, lambda: f'another document than {v} is written')
    here()
    for i in range(ops):
        node, at = j, v
        while True:
            kids = [(q, w) for q, w in (enumerate(at) if isinstance(at, list) else at.items()) if isinstance(w, (list, dict)) and (n or len(w))]
            if not kids or not s.flag(f'down{n}'):
                break
            q, w = s.pick(kids, f'child{n}')
            node, at, n = node[q], w, n + 1
        n += 1
        op = s.pick(['set', 'del', 'insert', 'replace', 'add', 'same'], f'op{n}')
        x = s.pick([7, [8]], f'new{n}')
        if isinstance(at, list):
            k = s.pick(list(range(len(at))) or [0], f'at{n}')
            if op == 'insert' or op == 'add' or not at:
                node.insert(k, x) if op != 'add' else node.add(f'/{k}', x)
                at.insert(k, clone(x))
            elif op == 'set' or op == 'same':
                node[k] = x if op == 'set' else clone(at[k])
                at[k] = clone(x) if op == 'set' else at[k]
            elif op == 'replace':
                node.replace(f'/{k}', x)
                at[k] = clone(x)
            else:
                del node[k]
                del at[k]
        else:
            k = s.pick(['a', 'b'], f'at{n}')
            if op == 'del' and k in at:
                del node[k]
                del at[k]
            elif op == 'replace':
                node.replace('', {k: x})
                at.clear()
                at[k] = clone(x)
            else:
                node[k] = x
                at[k] = clone(x)
        here()
    s.reach('done')


def values(s):
    """values that are no JSON cannot be printed"""
    for v in (float('nan'), float('inf'), float('-inf')):
        for w in (v, [1, v], {'a': {'b': v}}):
            k, r = s.run(lambda: JSON(w).dumps())
            s.check(k == 'exc' and isinstance(r, ValueError), f'{v} was printed')


def text(s, n, first):
    t = s.string('t', n, ranges=ALPHA, default='[1, 2]')
    s.assume(any_(t[0] == c for c in first))
    k, r = s.run(JSON.loads, t)
    kw, w = s.run(lambda: json.loads(t, parse_constant=bad))
    if kw == 'ok' and infinite(w):
        kw = 'exc'
    s.check(k == kw, 'loads accepts what is no JSON text, or refuses a JSON text')
    if k == 'ok':
        s.reach('ok')
        s.check(typed(r.value, w), 'the wrong data was loaded')
        k, q = s.run(r.dumps)
        s.check(k == 'ok', lambda: f'what was loaded cannot be printed: {q}')
        s.check(JSON.loads(q) == r, 'not equal after printing and loading')
    else:
        s.check(isinstance(r, ValueError), lambda: f'wrong exception {type(r).__name__}')


def infinite(v):
    return any(infinite(e) for e in v) if isinstance(v, list) else any(infinite(e) for e in v.values()) if isinstance(v, dict) else isinstance(v, float) and abs(v) == float('inf')


def large(s, form):
    """numbers beyond the range of floating point numbers are refused, not loaded as what cannot be printed"""
    digits = s.pick(['30', '1', '99'], 'high') + s.string('digits', 1, ranges=((48, 57),), default='8')
    sign = s.pick(['', '-'], 'sign')
    m, e = s.pick([('1', 'e'), ('9.9', 'E+'), ('0', 'E'), ('1.7976931348623157', 'e'), ('1.7976931348623159', 'e+')], 'mantissa')
    number = sign + m + e + digits
    text = form.replace('@', number)
    want = infinite(float(number))
    for via in ('text', 'file'):
        if via == 'text':
            k, r = s.run(JSON.loads, text)
        else:
            f = s.path('l.json')
            with open(f, 'w') as h:
                h.write(text)
            k, r = s.run(JSON.loadf, f)
        if want:
            s.check(k == 'exc' and isinstance(r, ValueError), lambda: f'{number} was loaded as {r!r}')
            s.reach('refused')
            continue
        s.check(k == 'ok', lambda: f'{number}: {type(r).__name__}: {r}')
        s.check(same(r.value, json.loads(text)), lambda: f'{number} was loaded as {r.value}')
        s.check(JSON.loads(r.dumps()) == r, 'not equal after printing and loading')
        s.reach('loaded')


def encoding(s, t, enc):
    """files are UTF-8, whatever the encoding of the place"""
    s.locale(enc)
    v = build(s, (MORE | SHAPES)[t], 'a', small=t not in FULLY)
    f, g = s.path('e.json'), s.path('g.json')
    k, r = s.run(JSON(v).dumpf, f)
    s.check(k == 'ok', lambda: f'{type(r).__name__}: {r}')
    with open(f, encoding='utf-8') as h:
        k, text = s.run(h.read)
    s.check(k == 'ok', 'the file is not UTF-8')
    s.check(typed(json.loads(text), v), 'the file has another document')
    with open(g, 'w', encoding='utf-8') as h:
        h.write(json.dumps(v, ensure_ascii=False))
    k, r = s.run(JSON.loadf, g)
    s.check(k == 'ok', lambda: f'a UTF-8 file: {type(r).__name__}: {r}')
    s.check(typed(r.value, v), lambda: f'another document was loaded: {r.value}')
    s.reach('done')


def bad(c):
    raise ValueError(c)


def cases(tier):
    T = tier == 'thorough'
    cs = [Case(f'{via}-{t}', roundtrip, t=t, via=via, weight=20 if t in ('mix', 'str3', 'obj3', 'objobj', 'key2', 'arrobj', 'arrobj2') else 2) for t in (MORE | SHAPES) for via in ('text', 'file')
          if T or t not in ('str3', 'mix') and (via == 'text' or t != 'key2')]
    cs += [Case(f'constants-{i}', constants, form=f) for i, f in enumerate(FORMS)]
    cs.append(Case('values', values))
    cs += [Case(f'changed-{t}-{n}', changed, shape=t, ops=n, weight=10 ** n) for t in ('arr', 'obj', 'deep', 'flat') for n in ((1, 2) if T else (1,) if t != 'flat' else (2,))]
    cs += [Case(f'encoding-{t}-{e}', encoding, t=t, enc=e, weight=5) for t in ('str2', 'key1', 'two', 'nest4') for e in ('ascii', 'latin-1', 'utf-8')]
    cs += [Case(f'large-{i}', large, form=FORMS[i], weight=50) for i in (0, 3, 6)]
    for n in range(1, 5 if T else 4):
        for first in ('"', '[', '{', '-', '0123456789', 'INanl+,.:Ee]}\\ '):
            cs.append(Case(f'loads-{n}-{first[0]}', text, n=n, first=first, weight=4.0 ** n))
    return cs
