"""C03: JSON pointers as URI fragments."""
from jschon import JSONPointer
from jschon.exc import JSONPointerMalformedError
from symex.runner import Case
from symex.session import no, all_, any_, iff, eq_
from harness.c01 import valid, tokens

BOUNDS = 'encoding: up to 3 keys, up to 3 characters in all (quick) / 4 (thorough), over all Unicode scalar values; ' \
         'decoding: every text of up to 6 (quick) / 8 (thorough) ASCII characters, percent escapes included'
ASSUMPTIONS = ['lone surrogate code points are outside the claim',
               'urllib.parse.quote and unquote behave as modelled (every sampled path is re-run with the real ones)']

# RFC 3986: fragment = *( pchar / "/" / "?" ); pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~" + "!$&'()*+,;=" + ":@" + "/?"
HEX = '0123456789ABCDEFabcdef'


def legal(t):
    """is t derivable from the RFC 3986 fragment production?"""
    n = len(t)
    # a position is inside an escape if one of the two characters before it is a '%'
    ok = True
    for i in range(n):
        esc = (t[i - 1] == '%' if i >= 1 else False) | (t[i - 2] == '%' if i >= 2 else False)
        ishex = any_((t[i] >= lo) & (t[i] <= hi) for lo, hi in (('0', '9'), ('A', 'F'), ('a', 'f')))
        plain = any_((t[i] >= lo) & (t[i] <= hi) for lo, hi in (('A', 'Z'), ('a', 'z'), ('?', '?'), ('@', '@'), ('_', '_'),
                     ('~', '~'), ('!', '!'), ('$', '$'), ('&', ';'), ('=', '=')))
        ok = ok & (ishex & esc | no(esc) & (plain | (t[i] == '%' if i + 2 < n else False)))
    return ok


def encode(s, lens):
    ks = [s.string(f'k{i}', n, default='é% ') for i, n in enumerate(lens)]
    p = JSONPointer(ks)
    f = p.uri_fragment()
    s.check(legal(f), 'the fragment has characters that RFC 3986 does not allow in one')
    q = JSONPointer.parse_uri_fragment(f)
    s.check(isinstance(q, JSONPointer), 'not a pointer')
    s.check(eq_(list(q), ks), 'decoding the fragment does not give the keys back')
    s.check(q == p, 'decoding the fragment gives an unequal pointer')
    s.obs(f)


def readable(s, n):
    """characters a fragment may hold are not escaped, apart from '~' and '/' of a key in the JSON pointer way"""
    k = s.string('k', n, ranges=((0x26, 0x2e), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0x21, 0x21),
                                 (0x24, 0x24), (0x3d, 0x3d)), default='a')
    s.check(no(k == ';') if n == 0 else True, '')
    s.check(JSONPointer((k,)).uri_fragment() == '/' + k, 'characters that are plain in a fragment were changed')


def hexval(c):
    return '0123456789abcdef'.index(c.lower())


def decode_ascii(t):
    """reference percent decoding when every escape is of an ASCII octet; None otherwise"""
    out, i, n = '', 0, len(t)
    while i < n:
        if t[i] == '%' and i + 2 < n and t[i + 1] in HEX and t[i + 2] in HEX:
            if t[i + 1] not in '01234567':
                return None
            hi = hexval(t[i + 1])
            lo = hexval(t[i + 2])
            out = out + chr(16 * hi + lo)
            i += 3
        else:
            out = out + t[i]
            i += 1
    return out


def decode(s, n, first):
    """a fragment that somebody else wrote"""
    t = s.string('t', n, ranges=((0x20, 0x7e),), default='/%7e1')
    if first is not None and n:
        s.assume(t[0] == first)
    want = decode_ascii(t)
    if want is None:
        return
    kind, p = s.run(JSONPointer.parse_uri_fragment, t)
    if kind == 'exc':
        s.check(isinstance(p, JSONPointerMalformedError), lambda: f'wrong exception {type(p).__name__}')
        s.check(no(valid(want)), 'the fragment of a valid pointer was rejected')
        s.reach('rejected')
        return
    s.reach('accepted')
    s.check(valid(want), 'the fragment of an invalid pointer was accepted')
    s.check(eq_(list(p), tokens(want)), 'wrong keys')
    s.obs(list(p))


def cases(tier):
    T = tier == 'thorough'
    cs = []
    for lens in [(), (0,), (1,), (2,), (3,), (1, 1), (1, 2), (0, 1), (1, 1, 1)] + ([(4,), (2, 2), (1, 1, 2)] if T else []):
        cs.append(Case('encode-' + '-'.join(map(str, lens)), encode, lens=lens, weight=9.0 ** sum(lens),
                       bounds=f'keys of lengths {lens}'))
    for n in range(0, 4):
        cs.append(Case(f'readable-{n}', readable, n=n, weight=20))
    for n in range(0, 9 if T else 7):
        cs.append(Case(f'decode-{n}', decode, n=n, first='/' if n > 4 else None, weight=4.0 ** n,
                       bounds=f'{n} printable ASCII characters' + (' starting with /' if n > 4 else '')))
    return cs
