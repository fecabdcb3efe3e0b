"""RFC 3986 references: split, join, resolve (5.2), normalise (6.2.2)."""
import re

_SPLIT = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$', re.S)


def split(text):
    m = _SPLIT.match(text)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def join(scheme, authority, path, query, fragment):
    out = ''
    if scheme is not None:
        out += scheme + ':'
    if authority is not None:
        out += '//' + authority
    out += path or ''
    if query is not None:
        out += '?' + query
    if fragment is not None:
        out += '#' + fragment
    return out


def remove_dot_segments(path):
    inp, out = path, ''
    while inp:
        if inp.startswith('../'):
            inp = inp[3:]
        elif inp.startswith('./'):
            inp = inp[2:]
        elif inp.startswith('/./'):
            inp = inp[2:]
        elif inp == '/.':
            inp = '/'
        elif inp.startswith('/../'):
            inp = inp[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp == '/..':
            inp = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp in ('.', '..'):
            inp = ''
        else:
            j = inp.find('/', 1) if inp.startswith('/') else inp.find('/')
            if j < 0:
                out, inp = out + inp, ''
            else:
                out, inp = out + inp[:j], inp[j:]
    return out


def resolve(ref, base):
    bs, ba, bp, bq, _ = split(base)
    rs, ra, rp, rq, rf = split(ref)
    if rs is not None:
        s, a, p, q = rs, ra, remove_dot_segments(rp), rq
    else:
        s = bs
        if ra is not None:
            a, p, q = ra, remove_dot_segments(rp), rq
        else:
            a = ba
            if rp == '':
                p = bp
                q = rq if rq is not None else bq
            else:
                if rp.startswith('/'):
                    p = remove_dot_segments(rp)
                else:
                    if ba is not None and bp == '':
                        merged = '/' + rp
                    else:
                        merged = bp[:bp.rfind('/') + 1] + rp
                    p = remove_dot_segments(merged)
                q = rq
    return join(s, a, p, q, rf)


def _pct(s):
    return re.sub('%[0-9A-Fa-f]{2}', lambda m: m.group(0).upper(), s) if s else s


def normalize(text):
    """Case of scheme and host, case of percent-escapes, dot segments."""
    s, a, p, q, f = split(text)
    if s is not None:
        s = s.lower()
    if a is not None:
        user, at, hostport = a.rpartition('@')
        a = (_pct(user) + '@' if at else '') + hostport.lower()
    p = remove_dot_segments(_pct(p))
    return join(s, a, p, _pct(q), _pct(f))
