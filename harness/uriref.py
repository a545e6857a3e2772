"""RFC 3986 on (symbolic) texts, written from the RFC: parsing, resolution, case normalisation, dot segments."""
from symex.session import no, all_, any_


def letter(c):
    return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z')


def parse(t):
    """appendix B, with the grammar of schemes -> [scheme, authority, path, query, fragment]; None for what is not there"""
    frag = query = auth = scheme = None
    i = t.find('#')
    if i >= 0:
        t, frag = t[:i], t[i + 1:]
    i = t.find('?')
    if i >= 0:
        t, query = t[:i], t[i + 1:]
    i = t.find(':')
    if i > 0 and t.find('/', 0, i) < 0 and is_scheme(t[:i]):
        scheme, t = t[:i], t[i + 1:]
    if t.startswith('//'):
        i = t.find('/', 2)
        if i < 0:
            auth, t = t[2:], ''
        else:
            auth, t = t[2:i], t[i:]
    return [scheme, auth, t, query, frag]


def is_scheme(t):
    return bool(letter(t[0]) & all_(letter(c) | (c >= '0') & (c <= '9') | (c == '+') | (c == '-') | (c == '.') for c in t[1:]))


def unparse(u):
    """section 5.3"""
    r = ''
    if u[0] is not None:
        r = r + u[0] + ':'
    if u[1] is not None:
        r = r + '//' + u[1]
    r = r + u[2]
    if u[3] is not None:
        r = r + '?' + u[3]
    if u[4] is not None:
        r = r + '#' + u[4]
    return r


def dots(p):
    """section 5.2.4"""
    out = []
    while p != '':
        if p.startswith('../'):
            p = p[3:]
        elif p.startswith('./'):
            p = p[2:]
        elif p.startswith('/./'):
            p = p[2:]
        elif p == '/.':
            p = '/'
        elif p.startswith('/../'):
            p = p[3:]
            if out:
                out.pop()
        elif p == '/..':
            p = '/'
            if out:
                out.pop()
        elif p == '.' or p == '..':
            p = ''
        else:
            i = p.find('/', 1)
            if i < 0:
                out.append(p)
                p = ''
            else:
                out.append(p[:i])
                p = p[i:]
    r = ''
    for x in out:
        r = r + x
    return r


def resolve(ref, base):
    """section 5.2.2 (strict) on parsed references"""
    s, a, p, q, f = ref
    if s is not None:
        return [s, a, dots(p), q, f]
    if a is not None:
        return [base[0], a, dots(p), q, f]
    if p == '':
        return [base[0], base[1], base[2], q if q is not None else base[3], f]
    if p.startswith('/'):
        return [base[0], base[1], dots(p), q, f]
    if base[1] is not None and base[2] == '':
        m = '/' + p
    else:
        m = base[2][:base[2].rfind('/') + 1] + p
    return [base[0], base[1], dots(m), q, f]


def lower(t):
    r = ''
    for c in t:
        if (c >= 'A') & (c <= 'Z'):
            r = r + chr(ord(c) + 32)
        else:
            r = r + c
    return r


def escapes(t):
    """upper case in percent escapes"""
    if t is None:
        return None
    r, i = '', 0
    while i < len(t):
        if t[i] == '%' and i + 2 < len(t):
            for c in t[i:i + 3]:
                if (c >= 'a') & (c <= 'f'):
                    r = r + chr(ord(c) - 32)
                else:
                    r = r + c
            i += 3
        else:
            r = r + t[i]
            i += 1
    return r


def normal(u):
    """6.2.2.1 and 6.2.2.3; the authority is a host here"""
    s, a, p, q, f = u
    return [None if s is None else lower(s), None if a is None else lower(a), dots(escapes(p)), escapes(q), escapes(f)]


def equal(u, v):
    """parsed references, component by component"""
    return all_((x is y) if x is None or y is None else x == y for x, y in zip(u, v))
