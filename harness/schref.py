"""A reference evaluator for JSON Schema 2019-09 and 2020-12 on plain data, written from the specifications.

Conditions over symbolic values are decided branch by branch (mostly implied by the path condition already).
It knows nothing of jschon: a schema document is plain data, registered under a base URI by Docs."""
from urllib.parse import urljoin, unquote
from symex.session import no, all_, any_, iff, eq_
from harness.util import same, is_bool


class Unresolvable(Exception):
    pass


def kind(x):
    if x is None:
        return 'null'
    if is_bool(x):
        return 'boolean'
    if isinstance(x, str):
        return 'string'
    if isinstance(x, (list, tuple)):
        return 'array'
    if isinstance(x, dict):
        return 'object'
    return 'number'


def is_integer(x):
    return x.is_integer() if isinstance(x, float) else True


# ---------------------------------------------------------------- assertion keywords as conditions
def a_type(v, x):
    ts = [v] if isinstance(v, str) else v
    k = kind(x)
    r = any_(t == k for t in ts)
    if k == 'number':
        r = r | (any_(t == 'integer' for t in ts) & is_integer(x))
    return r


def a_enum(v, x):
    return any_(same(x, y) for y in v)


def a_const(v, x):
    return same(x, v)


def num(f):
    return lambda v, x: f(v, x) if kind(x) == 'number' else True


def text(f):
    return lambda v, x: f(v, x) if kind(x) == 'string' else True


def arr(f):
    return lambda v, x: f(v, x) if kind(x) == 'array' else True


def obj(f):
    return lambda v, x: f(v, x) if kind(x) == 'object' else True


def unique(v, x):
    if not v:
        return True
    return all_(no(same(x[i], x[j])) for i in range(len(x)) for j in range(i))


def has(x, name):
    return any_(k == name for k in x)


ASSERT = {
    'type': a_type, 'enum': a_enum, 'const': a_const,
    'maximum': num(lambda v, x: x <= v), 'minimum': num(lambda v, x: x >= v),
    'exclusiveMaximum': num(lambda v, x: x < v), 'exclusiveMinimum': num(lambda v, x: x > v),
    'multipleOf': num(lambda v, x: x % v == 0),      # integers only
    'maxLength': text(lambda v, x: len(x) <= v), 'minLength': text(lambda v, x: len(x) >= v),
    'maxItems': arr(lambda v, x: len(x) <= v), 'minItems': arr(lambda v, x: len(x) >= v),
    'uniqueItems': arr(unique),
    'maxProperties': obj(lambda v, x: len(x) <= v), 'minProperties': obj(lambda v, x: len(x) >= v),
    'required': obj(lambda v, x: all_(has(x, n) for n in v)),
    'dependentRequired': obj(lambda v, x: all_(no(has(x, n)) | all_(has(x, d) for d in ds) for n, ds in v.items())),
}

# the patterns used in the harnesses, each as a condition on the characters
PATTERNS = {
    '0': lambda t: any_(c == '0' for c in t),
    '^a': lambda t: len(t) > 0 and t[0] == 'a',
    'a': lambda t: any_(c == 'a' for c in t),
    'b': lambda t: any_(c == 'b' for c in t),
    '': lambda t: True,
    '^[0-9]': lambda t: len(t) > 0 and (t[0] >= '0') & (t[0] <= '9'),
    '^.b': lambda t: len(t) > 1 and no(t[0] == '\n') & (t[1] == 'b'),
    'x|y': lambda t: any_((c == 'x') | (c == 'y') for c in t),
    '[^a-z]': lambda t: any_((c < 'a') | (c > 'z') for c in t),
    'aa': lambda t: any_((t[i] == 'a') & (t[i + 1] == 'a') for i in range(len(t) - 1)),
}
ASSERT['pattern'] = text(lambda v, x: PATTERNS[v](x))


class R:
    """valid; what was evaluated; annotations (keyword path, instance path, keyword, value) if it passed; errors (keyword path,
    instance path, keyword) a report of this failing schema shows; note: the schema has an error message of its own (false)"""
    __slots__ = ('valid', 'items', 'props', 'anns', 'errs', 'own')

    def __init__(self):
        self.valid, self.items, self.props, self.anns, self.errs, self.own = True, set(), [], [], [], False

    def take(self, o):
        """what an in-place subschema that passed has evaluated"""
        self.items |= o.items
        self.props += o.props


class Docs:
    """schema resources by URI"""

    def __init__(self, dialect='2020', **docs):
        self.dialect = dialect
        self.res = {}        # base URI -> resource root
        self.anchor = {}     # (base, name) -> (schema, base, dynamic)
        self.base = {}       # id(subschema) -> base URI
        for uri, d in docs.items():
            self.add(uri, d)

    def add(self, uri, doc):
        self.scan(doc, uri)
        return self

    LIST = ('allOf', 'anyOf', 'oneOf', 'prefixItems')
    MAP = ('properties', 'patternProperties', 'dependentSchemas', '$defs')
    ONE = ('not', 'if', 'then', 'else', 'items', 'additionalItems', 'unevaluatedItems', 'contains', 'additionalProperties',
           'unevaluatedProperties', 'propertyNames')

    def subschemas(self, sch):
        """(tokens, subschema)"""
        for k, v in sch.items():
            if k in self.LIST or k == 'items' and isinstance(v, list):
                for i, x in enumerate(v):
                    yield (k, str(i)), x
            elif k in self.MAP:
                for n, x in v.items():
                    yield (k, n), x
            elif k in self.ONE:
                yield (k,), v

    def scan(self, sch, base):
        if not isinstance(sch, dict):
            return
        if '$id' in sch:
            base = urljoin(base, sch['$id'])
            base = base[:-1] if base.endswith('#') else base
        if base not in self.res:
            self.res[base] = sch
        self.base[id(sch)] = base
        for key, dyn in (('$anchor', False), ('$dynamicAnchor', True)):
            if key in sch:
                self.anchor[base, sch[key]] = (sch, dyn)
        for toks, x in self.subschemas(sch):
            self.scan(x, base)

    def target(self, base, ref):
        """-> (schema, base URI of the schema, fragment)"""
        uri = urljoin(base, ref)
        u, _, frag = uri.partition('#')
        if u not in self.res:
            raise Unresolvable(uri)
        node, b = self.res[u], u
        if not frag:
            return node, b, frag
        frag = unquote(frag)
        if not frag.startswith('/'):
            if (u, frag) not in self.anchor:
                raise Unresolvable(uri)
            return self.anchor[u, frag][0], u, frag
        for t in frag[1:].split('/'):
            t = t.replace('~1', '/').replace('~0', '~')
            try:
                node = node[int(t)] if isinstance(node, list) else node[t]
            except (KeyError, IndexError, ValueError, TypeError):
                raise Unresolvable(uri)
            if isinstance(node, dict):
                b = self.base.get(id(node), b)
        if not isinstance(node, (dict, bool)):
            raise Unresolvable(uri)
        return node, b, frag


# keywords that evaluate in place with nothing but annotations of their own value
NOTES = ('title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples')
CONTENT = ('contentMediaType', 'contentEncoding')


class Evaluator:
    def __init__(self, docs):
        self.docs, self.dialect = docs, docs.dialect

    def run(self, sch, inst, base):
        return self.ev(sch, inst, base, ((base, sch),), (), ())

    def ev(self, sch, x, base, scope, ep, ip):
        """scope: ((base URI, schema), ...) from the outermost schema to this one"""
        r = R()
        if is_bool(sch):
            r.valid = True if sch else False
            r.own = not r.valid
            return r
        nb = self.docs.base.get(id(sch), base)
        base = nb
        scope = scope + ((base, sch),)
        k = kind(x)
        old = self.dialect == '2019'
        inner = []           # annotations of subschemas that count if this schema passes
        ok = True

        def note(key, v):
            r.anns.append((ep + (key,), ip, key, v))

        def error(key):
            r.errs.append((ep + (key,), ip, key))

        def ev(s2, y, path, inst=()):
            return self.ev(s2, y, base, scope, ep + path, ip + inst)

        # a keyword that fails evaluates and annotates nothing, and one that passes reports no errors
        def inplace(key, todo, good=all, message=True):
            """in-place subschemas [(schema, path below the keyword)] and the verdict of the keyword from theirs"""
            outs = [(ev(s2, x, (key,) + path), path) for s2, path in todo]
            passed = good([o.valid for o, _ in outs])
            for o, path in outs:
                if passed and o.valid:
                    r.take(o)
                    inner.extend(o.anns)
                elif not passed and not o.valid:
                    self.show(r, o, ep + (key,) + path, ip)
            if not passed and message:
                error(key)
            return passed

        def children(key, todo, shared, message=True):
            """subschemas for items or members: [(subschema, value, instance token, path below the keyword)]; -> which passed"""
            outs = [(ev(s2, y, (key,) + path, (tok,)), tok, path) for s2, y, tok, path in todo]
            good = all([o.valid for o, _, _ in outs])
            for o, tok, path in outs:
                if o.valid and good:
                    inner.extend(o.anns)
                if not good:
                    if shared:
                        r.errs.extend(o.errs)
                    elif not o.valid:
                        self.show(r, o, ep + (key,) + path, ip + (tok,))
            if not good and message:
                error(key)
            return good

        for key, v in sch.items():
            if key in ASSERT:
                if not ASSERT[key](v, x):
                    ok = False
                    error(key)
        # references
        if '$ref' in sch:
            t, b, _ = self.docs.target(base, sch['$ref'])
            ok &= self.through(r, inner, t, x, b, scope, ep + ('$ref',), ip)
        if '$dynamicRef' in sch and not old:
            t, b, frag = self.docs.target(base, sch['$dynamicRef'])
            if isinstance(t, dict) and frag and t.get('$dynamicAnchor') == frag:
                for ub, _ in scope:
                    if (ub, frag) in self.docs.anchor and self.docs.anchor[ub, frag][1]:
                        t, b = self.docs.anchor[ub, frag][0], ub
                        break
            ok &= self.through(r, inner, t, x, b, scope, ep + ('$dynamicRef',), ip)
        if '$recursiveRef' in sch and old:
            t, b, _ = self.docs.target(base, '#')
            if isinstance(t, dict) and t.get('$recursiveAnchor') is True:
                for ub, _ in scope:
                    root = self.docs.res[ub]
                    if isinstance(root, dict) and root.get('$recursiveAnchor') is True:
                        t, b = root, ub
                        break
            ok &= self.through(r, inner, t, x, b, scope, ep + ('$recursiveRef',), ip)
        # logic
        for key, good in (('allOf', all), ('anyOf', any), ('oneOf', lambda vs: vs.count(True) == 1)):
            if key in sch:
                ok &= inplace(key, [(s2, (str(i),)) for i, s2 in enumerate(sch[key])], good)
        if 'not' in sch:
            o = ev(sch['not'], x, ('not',))
            if o.valid:
                ok = False
                r.errs.extend(o.errs)
                error('not')
        if 'if' in sch:
            branch = 'then' if inplace('if', [(sch['if'], ())], message=False) else 'else'
            if branch in sch:
                ok &= inplace(branch, [(sch[branch], ())], message=False)
        # arrays
        if k == 'array':
            start, rest = 0, None
            pre = 'items' if old else 'prefixItems'
            if pre in sch and isinstance(sch[pre], list):
                start = min(len(sch[pre]), len(x))
                good = children(pre, [(sch[pre][i], x[i], str(i), (str(i),)) for i in range(start)], False)
                ok &= good
                if good and start:
                    r.items |= set(range(start))
                    note(pre, True if start == len(x) and not old else start - 1)
                if old and good and 'additionalItems' in sch:
                    rest = 'additionalItems'
            elif old and 'items' in sch:
                rest = 'items'
            if not old and 'items' in sch:
                rest = 'items'
            if rest:
                if old and rest == 'items' and is_bool(sch['items']):
                    good = sch['items'] or not len(x)
                    if not good:
                        error('items')
                else:
                    good = children(rest, [(sch[rest], x[i], str(i), ()) for i in range(start, len(x))], True, not (old and rest == 'items'))
                ok &= good
                if good and start < len(x):
                    r.items |= set(range(start, len(x)))
                    note(rest, True)
            if 'contains' in sch:
                outs = [ev(sch['contains'], x[i], ('contains',), (str(i),)) for i in range(len(x))]
                hit = [i for i, o in enumerate(outs) if o.valid]
                enough = bool(len(hit) >= sch.get('minContains', 1))
                few = bool(len(hit) <= sch['maxContains']) if 'maxContains' in sch else True
                ok &= enough and few
                if not few:
                    error('maxContains')
                if not enough and 'minContains' in sch:
                    error('minContains')
                if not hit and not ('minContains' in sch and enough):
                    error('contains')
                    for o in outs:
                        r.errs.extend(o.errs)
                else:
                    for i in hit:
                        inner.extend(outs[i].anns)
                    if not old:
                        r.items |= set(hit)
                    note('contains', hit)
        # objects
        if k == 'object':
            props = sch.get('properties', {})
            pats = sch.get('patternProperties', {})
            extra, byname, bypat, t1, t2, t3 = [], [], [], [], [], []
            for n, y in x.items():
                hit = False
                for p, s2 in props.items():
                    if p == n:
                        hit = True
                        t1.append((s2, y, n, (p,)))
                        byname.append(n)
                        break
                phit = False
                for p, s2 in pats.items():
                    if PATTERNS[p](n):
                        phit = True
                        t2.append((s2, y, n, (p,)))
                if phit:
                    bypat.append(n)
                if not hit and not phit and 'additionalProperties' in sch:
                    t3.append((sch['additionalProperties'], y, n, ()))
                    extra.append(n)
            for key, todo, names in (('properties', t1, byname), ('patternProperties', t2, bypat), ('additionalProperties', t3, extra)):
                if key in sch:
                    if children(key, todo, key == 'additionalProperties'):
                        note(key, names)
                        r.props += names
                    else:
                        ok = False
            if 'propertyNames' in sch:
                ok &= children('propertyNames', [(sch['propertyNames'], n, n, ()) for n in x], True)
            if 'dependentSchemas' in sch:
                hit = [n for n in sch['dependentSchemas'] if any(bool(q == n) for q in x)]
                if inplace('dependentSchemas', [(sch['dependentSchemas'][n], (n,)) for n in hit]):
                    note('dependentSchemas', hit)
                else:
                    ok = False
        # what is left
        if k == 'array' and 'unevaluatedItems' in sch:
            left = [i for i in range(len(x)) if i not in r.items]
            if not children('unevaluatedItems', [(sch['unevaluatedItems'], x[i], str(i), ()) for i in left], True):
                ok = False
            elif left:
                r.items |= set(left)
                note('unevaluatedItems', True)
        if k == 'object' and 'unevaluatedProperties' in sch:
            left = [n for n in x if not any(n is q for q in r.props)]
            if children('unevaluatedProperties', [(sch['unevaluatedProperties'], x[n], n, ()) for n in left], True):
                r.props += left
                note('unevaluatedProperties', left)
            else:
                ok = False
        for key in sch:
            if key in NOTES or key not in (KNOWN_2019 if old else KNOWN_2020):
                note(key, sch[key])
        if k == 'string':
            for key in CONTENT:
                if key in sch:
                    note(key, sch[key])
            if 'contentSchema' in sch and 'contentMediaType' in sch:
                note('contentSchema', sch['contentSchema'])
        if 'format' in sch:
            note('format', sch['format'])
        r.anns += inner
        if not ok:
            r.valid = False
            r.items, r.props, r.anns = set(), [], []
        return r

    def show(self, r, o, ep, ip):
        """a failing subschema with a report of its own"""
        if o.own:
            r.errs.append((ep, ip, ep[-1]))
        r.errs.extend(o.errs)

    def through(self, r, inner, t, x, b, scope, ep, ip):
        o = self.ev(t, x, b, scope, ep, ip)
        if o.valid:
            r.take(o)
            inner.extend(o.anns)
        else:
            self.show(r, o, ep, ip)
        return o.valid


COMMON = set(ASSERT) | set(NOTES) | set(CONTENT) | set(
    '$schema $vocabulary $id $ref $anchor $defs $comment allOf anyOf oneOf not if then else dependentSchemas items unevaluatedItems contains '
    'minContains maxContains properties patternProperties additionalProperties unevaluatedProperties propertyNames format contentSchema'.split())
KNOWN_2019 = COMMON | {'$recursiveRef', '$recursiveAnchor', 'additionalItems'}
KNOWN_2020 = COMMON | {'$dynamicRef', '$dynamicAnchor', 'prefixItems'}


def evaluate(sch, inst, dialect='2020', base='https://example.org/root'):
    return Evaluator(Docs(dialect).add(base, sch)).run(sch, inst, base)


def valid(sch, inst, dialect='2020'):
    return evaluate(sch, inst, dialect).valid
