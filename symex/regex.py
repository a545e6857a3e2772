"""Python's `re` over symbolic strings.

Whether a pattern matches is one boolean expression over the characters (no forking), built from
the parse tree of CPython's own re._parser; where the match lies (groups, spans) is found by a
backtracking interpreter that forks, and only when somebody asks."""
import re
import re._parser as sp
import re._constants as sc

from . import engine
from .expr import E
from .values import (parts, b_in, b_cmp, b_and, b_or, b_not, cbool, ceq, mkstr, SymStr, LazyStr,
                     is_sym, pin, ranges_of, str_join, mkbool, SymBool)

MAXREP = sc.MAXREPEAT


class Unsupported(Exception):
    pass


def _word():
    r = ranges_of('isalnum')
    return _norm(list(r) + [(95, 95)])


def _norm(rs):
    rs = sorted(rs)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def _invert(rs):
    out, p = [], 0
    for lo, hi in _norm(rs):
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= 0x10ffff:
        out.append((p, 0x10ffff))
    return tuple(out)


def _category(c, ascii_):
    n = str(c)
    neg = 'NOT' in n
    if 'DIGIT' in n:
        r = ((48, 57),) if ascii_ else ranges_of('isdecimal')
    elif 'SPACE' in n:
        r = _norm([(9, 13), (32, 32)]) if ascii_ else ranges_of('isspace')
    elif 'WORD' in n:
        r = _norm([(48, 57), (65, 90), (95, 95), (97, 122)]) if ascii_ else _word()
    else:
        raise Unsupported(n)
    return _invert(r) if neg else r


def _set_ranges(items, flags):
    neg, rs = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            rs.append((av, av))
        elif op is sc.RANGE:
            rs.append((av[0], av[1]))
        elif op is sc.CATEGORY:
            rs.extend(_category(av, flags & re.ASCII))
        else:
            raise Unsupported(str(op))
    return _invert(rs) if neg else _norm(rs)


def _ic(rs):
    """case-insensitive closure for ASCII letters; anything else is unsupported"""
    out = list(rs)
    for lo, hi in rs:
        if hi > 127 and not (lo <= 128 and hi == 0x10ffff):
            raise Unsupported('IGNORECASE beyond ASCII')
        for c in range(lo, min(hi, 127) + 1):
            ch = chr(c)
            if ch.isalpha():
                out += [(ord(ch.lower()),) * 2, (ord(ch.upper()),) * 2]
                if ch in 'kK':
                    out.append((0x212a, 0x212a))
                if ch in 'sS':
                    out.append((0x17f, 0x17f))
                if ch in 'iI':
                    out += [(0x130, 0x131)]
    return _norm(out)


class Prog:
    """simplified tree: ('set', ranges) ('seq', [..]) ('alt', [..]) ('rep', lo, hi, greedy, n)
    ('grp', k, n) ('at', kind) ('look', ahead, neg, n)"""

    def __init__(self, pattern, flags):
        p = sp.parse(pattern, flags)
        self.flags = p.state.flags
        self.groupindex = dict(p.state.groupdict)
        self.groups = p.state.groups - 1
        self.tree = self.conv(p)

    def conv(self, p):
        out = []
        for op, av in p:
            f = self.flags
            if op is sc.LITERAL:
                out.append(('set', self.cs(((av, av),))))
            elif op is sc.NOT_LITERAL:
                out.append(('set', _invert(self.cs(((av, av),)))))
            elif op is sc.ANY:
                out.append(('set', ((0, 0x10ffff),) if f & re.DOTALL else _invert([(10, 10)])))
            elif op is sc.IN:
                out.append(('set', self.cs(_set_ranges(av, f))))
            elif op is sc.BRANCH:
                out.append(('alt', [self.conv(x) for x in av[1]]))
            elif op is sc.SUBPATTERN:
                group, add, dele, sub = av
                if add or dele:
                    raise Unsupported('inline flags')
                n = self.conv(sub)
                out.append(('grp', group, n) if group is not None else n)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                out.append(('rep', lo, None if hi is MAXREP else hi, op is sc.MAX_REPEAT, self.conv(sub)))
            elif op is sc.AT:
                out.append(('at', str(av)))
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                d, sub = av
                if d < 0:
                    raise Unsupported('lookbehind')
                out.append(('look', op is sc.ASSERT_NOT, self.conv(sub)))
            else:
                raise Unsupported(str(op))
        return out[0] if len(out) == 1 else ('seq', out)

    def cs(self, rs):
        return _ic(rs) if self.flags & re.IGNORECASE else rs


def at_cond(kind, i, items, flags):
    n = len(items)
    if kind in ('AT_BEGINNING_STRING',) or (kind == 'AT_BEGINNING' and not flags & re.MULTILINE):
        return i == 0
    if kind == 'AT_END_STRING':
        return i == n
    if kind == 'AT_END':
        if i == n:
            return True
        if flags & re.MULTILINE:
            return b_in(items[i], ((10, 10),))
        if i == n - 1:
            return b_in(items[i], ((10, 10),))
        return False
    if kind == 'AT_BEGINNING':
        return i == 0 or b_in(items[i - 1], ((10, 10),))
    if kind in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
        w = _word() if not flags & re.ASCII else _norm([(48, 57), (65, 90), (95, 95), (97, 122)])
        a = b_in(items[i - 1], w) if i > 0 else False
        b = b_in(items[i], w) if i < n else False
        x = b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        return x if kind == 'AT_BOUNDARY' else b_not(x)
    raise Unsupported(kind)


class Exists:
    """ends(node, i) -> {j: condition that node can match items[i:j]}"""

    def __init__(self, prog, items):
        self.p, self.items, self.memo = prog, items, {}

    def ends(self, node, i):
        key = (id(node), i)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._ends(node, i)
        return r

    def _then(self, cur, node):
        out = {}
        for j, c in cur.items():
            for k, d in self.ends(node, j).items():
                x = b_and(c, d)
                if x is not False:
                    out[k] = b_or(out.get(k, False), x)
        return out

    def _ends(self, node, i):
        op = node[0]
        if op == 'set':
            if i >= len(self.items):
                return {}
            c = b_in(self.items[i], node[1])
            return {} if c is False else {i + 1: c}
        if op == 'seq':
            cur = {i: True}
            for x in node[1]:
                cur = self._then(cur, x)
                if not cur:
                    break
            return cur
        if op == 'alt':
            out = {}
            for x in node[1]:
                for k, d in self.ends(x, i).items():
                    out[k] = b_or(out.get(k, False), d)
            return out
        if op == 'grp':
            return self.ends(node[2], i)
        if op == 'at':
            c = at_cond(node[1], i, self.items, self.p.flags)
            return {} if c is False else {i: c}
        if op == 'look':
            c = b_or(*self.ends(node[2], i).values()) if self.ends(node[2], i) else False
            c = b_not(c) if node[1] else c
            return {} if c is False else {i: c}
        if op == 'rep':
            _, lo, hi, _, sub = node
            cur, out, n = {i: True}, {}, 0
            limit = len(self.items) - i + lo + 1
            if hi is not None:
                limit = min(limit, hi)
            while True:
                if n >= lo:
                    for k, d in cur.items():
                        out[k] = b_or(out.get(k, False), d)
                if n >= limit or not cur:
                    break
                cur = self._then(cur, sub)
                n += 1
            return out
        raise Unsupported(op)


class Finder:
    """forking backtracking matcher with captures, in CPython's preference order"""

    def __init__(self, prog, shadow, items):
        self.p, self.s, self.items = prog, shadow, items

    def run(self, start, full):
        def accept(i, caps):
            if full and i != len(self.items):
                return None
            return i, caps
        return self.m(self.p.tree, start, {}, accept)

    def m(self, node, i, caps, k):
        op = node[0]
        if op == 'set':
            if i < len(self.items) and cbool(self.items[i], node[1], ord(self.s[i])):
                return k(i + 1, caps)
            return None
        if op == 'seq':
            return self.seq(node[1], 0, i, caps, k)
        if op == 'alt':
            for x in node[1]:
                r = self.m(x, i, caps, k)
                if r is not None:
                    return r
            return None
        if op == 'grp':
            g = node[1]

            def kk(j, c):
                c = dict(c)
                c[g] = (i, j)
                c['last'] = g
                return k(j, c)
            return self.m(node[2], i, caps, kk)
        if op == 'at':
            c = at_cond(node[1], i, self.items, self.p.flags)
            if isinstance(c, E):
                # evaluate the shadow concretely
                c = engine.ENGINE.branch(c, bool(at_cond(node[1], i, tuple(map(ord, self.s)), self.p.flags)))
            return k(i, caps) if c else None
        if op == 'look':
            r = self.m(node[2], i, caps, lambda j, c: (j, c))
            if (r is None) == node[1]:
                return k(i, caps if r is None else r[1])
            return None
        if op == 'rep':
            _, lo, hi, greedy, sub = node
            return self.rep(lo, hi, greedy, sub, 0, i, -1, caps, k)
        raise Unsupported(op)

    def seq(self, xs, n, i, caps, k):
        if n == len(xs):
            return k(i, caps)
        return self.m(xs[n], i, caps, lambda j, c: self.seq(xs, n + 1, j, c, k))

    def rep(self, lo, hi, greedy, sub, n, i, last, caps, k):
        def more():
            if (hi is not None and n >= hi) or (n >= lo and i == last):
                return None
            return self.m(sub, i, caps,
                          lambda j, c: self.rep(lo, hi, greedy, sub, n + 1, j, i, c, k))
        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(i, caps)
        r = k(i, caps)
        return r if r is not None else more()


_progs = {}


def prog(pattern, flags):
    key = (pattern, flags)
    r = _progs.get(key)
    if r is None:
        try:
            r = Prog(pattern, flags)
        except Unsupported as e:
            r = e
        _progs[key] = r
    return r


class SymMatch:
    def __init__(self, pat, string, mode, pos=0, res=None):
        self.re, self.string, self._mode, self.pos = pat, string, mode, pos
        self._res = res
        self.endpos = len(string)

    def _get(self):
        if self._res is None:
            s, it = parts(self.string)
            f = Finder(prog(self.re.pattern, self.re.flags), s, it)
            starts = range(self.pos, len(it) + 1) if self._mode == 'search' else (self.pos,)
            for st in starts:
                r = f.run(st, self._mode == 'fullmatch')
                if r is not None:
                    self._res = (st,) + r
                    break
            else:
                raise AssertionError('regex model: existence and search disagree')
        return self._res

    def __bool__(self):
        return True

    def _span(self, g):
        st, en, caps = self._get()
        if isinstance(g, str):
            try:
                g = self.re.groupindex[g]
            except KeyError:
                raise IndexError('no such group')
        if g == 0:
            return st, en
        if g > self.re.groups:
            raise IndexError('no such group')
        return caps.get(g)

    def _one(self, g, default=None):
        sp_ = self._span(g)
        return default if sp_ is None else self.string[sp_[0]:sp_[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(g, default) for n, g in self.re.groupindex.items()}

    def span(self, g=0):
        return self._span(g) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        return self._get()[2].get('last')

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, g in self.re.groupindex.items():
            if g == i:
                return n
        return None

    def expand(self, t):
        raise Unsupported('expand')


def _exists(pat, string, mode, pos=0):
    pr = prog(pat.pattern, pat.flags)
    if isinstance(pr, Unsupported):
        raise pr
    s, it = parts(string)
    ex = Exists(pr, it)
    if mode == 'fullmatch':
        e = ex.ends(pr.tree, pos).get(len(it), False)
        v = pat.fullmatch(s, pos)
    elif mode == 'match':
        e = b_or(*ex.ends(pr.tree, pos).values())
        v = pat.match(s, pos)
    else:
        e = b_or(*[c for st in range(pos, len(it) + 1) for c in ex.ends(pr.tree, st).values()])
        v = pat.search(s, pos)
    return e, v is not None


def call(pat, name, args, kw):
    """pattern method with a symbolic string argument"""
    pr = prog(pat.pattern, pat.flags)
    if isinstance(pr, Unsupported) or kw:
        return getattr(pat, name)(*[pin(a, 'regex ' + pat.pattern[:20]) for a in args],
                                  **{k: pin(v, 'regex') for k, v in kw.items()})
    if name in ('match', 'search', 'fullmatch'):
        string = args[0]
        pos = args[1] if len(args) > 1 else 0
        if len(args) > 2:
            return getattr(pat, name)(*[pin(a, 'regex') for a in args])
        if not isinstance(string, str):
            raise TypeError('expected string or bytes-like object')
        if type(string) is LazyStr:
            string = string.force()
        pos = pin(pos, 'regex pos')
        if type(string) is str:
            return getattr(pat, name)(string, pos)
        e, v = _exists(pat, string, name, pos)
        if isinstance(e, E):
            e = engine.ENGINE.branch(e, v)
        return SymMatch(pat, string, name, pos) if e else None
    if name == 'finditer':
        return iter(list(_iter(pat, args[0])))
    if name == 'findall':
        out = []
        for m in _iter(pat, args[0]):
            if pat.groups == 0:
                out.append(m.group())
            elif pat.groups == 1:
                out.append(m._one(1, ''))
            else:
                out.append(m.groups(''))
        return out
    if name in ('sub', 'subn'):
        repl, string = args[0], args[1]
        count = args[2] if len(args) > 2 else 0
        if not callable(repl):
            if is_sym(repl) or '\\' in repl:
                return getattr(pat, name)(*[pin(a, 'regex sub') for a in args])
            const = repl
            repl = lambda m: const
        s, out, p, n = string, [], 0, 0
        for m in _iter(pat, string):
            if count and n >= count:
                break
            out.append(s[p:m.start()])
            out.append(repl(m))
            p = m.end()
            n += 1
        out.append(s[p:])
        r = str_join('', out)
        return (r, n) if name == 'subn' else r
    if name == 'split':
        string = args[0]
        mx = args[1] if len(args) > 1 else 0
        out, p, n = [], 0, 0
        for m in _iter(pat, string):
            if mx and n >= mx:
                break
            out.append(string[p:m.start()])
            out.extend(m.groups())
            p = m.end()
            n += 1
        out.append(string[p:])
        return out
    return getattr(pat, name)(*[pin(a, 'regex.' + name) for a in args], **kw)


def _iter(pat, string):
    pr = prog(pat.pattern, pat.flags)
    s, it = parts(string)
    f = Finder(pr, s, it)
    pos, last_empty = 0, -1
    n = len(it)
    prev_end_of_match = -1
    st = 0
    while st <= n:
        r = f.run(st, False)
        if r is not None and r[0] == st and prev_end_of_match == st and r[0] == st:
            # empty match right after the previous match: CPython retries for a non-empty one
            r2 = f.m(pr.tree, st, {}, lambda i, c: (i, c) if i != st else None)
            r = r2
        if r is None:
            st += 1
            continue
        en = r[0]
        yield SymMatch(pat, string, 'search', st, res=(st,) + r)
        prev_end_of_match = en
        st = en
