"""RFC 6901 JSON Pointer and draft-bhutton-relative-json-pointer."""

DIGITS = '0123456789'


class Malformed(Exception):
    pass


class NoSuch(Exception):
    pass


def parse(text):
    if text == '':
        return []
    if text[0] != '/':
        raise Malformed(text)
    keys = []
    for token in text[1:].split('/'):
        out, i = [], 0
        while i < len(token):
            c = token[i]
            if c == '~':
                nxt = token[i + 1:i + 2]
                if nxt == '0':
                    out.append('~')
                elif nxt == '1':
                    out.append('/')
                else:
                    raise Malformed(text)
                i += 2
            else:
                out.append(c)
                i += 1
        keys.append(''.join(out))
    return keys


def escape(key):
    return ''.join({'~': '~0', '/': '~1'}.get(c, c) for c in key)


def write(keys):
    return ''.join('/' + escape(k) for k in keys)


def array_index(key):
    """The index denoted by a canonical array index token, else None."""
    if key == '' or any(c not in DIGITS for c in key) or (len(key) > 1 and key[0] == '0'):
        return None
    n = 0
    for c in key:
        n = n * 10 + DIGITS.index(c)
        if n > 10 ** 9:
            return 10 ** 9
    return n


def step(value, key):
    if isinstance(value, dict):
        if key not in value:
            raise NoSuch(key)
        return value[key]
    if isinstance(value, (list, tuple)):
        i = array_index(key)
        if i is None or i >= len(value):
            raise NoSuch(key)
        return value[i]
    raise NoSuch(key)


def evaluate(value, keys):
    for k in keys:
        value = step(value, k)
    return value


# ---------------------------------------------------------------- relative

def parse_relative(text):
    """(up, over, keys or None for '#')"""
    i = 0
    while i < len(text) and text[i] in DIGITS:
        i += 1
    up = text[:i]
    if up == '' or (len(up) > 1 and up[0] == '0'):
        raise Malformed(text)
    rest = text[i:]
    over = 0
    if rest[:1] in ('+', '-') and rest[:1]:
        j = 1
        while j < len(rest) and rest[j] in DIGITS:
            j += 1
        num = rest[1:j]
        if num == '' or num[0] == '0':
            raise Malformed(text)
        over = int(num) if rest[0] == '+' else -int(num)
        rest = rest[j:]
    if rest == '#':
        return int(up), over, None
    return int(up), over, parse(rest)


def evaluate_relative(root, at, up, over, keys):
    """Evaluate from the location `at` (a list of keys) in plain data.
    Returns ('key', k), ('index', i) or ('node', location)."""
    at = list(at)
    if up > len(at):
        raise NoSuch('up')
    at = at[:len(at) - up]
    if over:
        if not at or not isinstance(evaluate(root, at[:-1]), list):
            raise NoSuch('over')
        parent = evaluate(root, at[:-1])
        i = int(at[-1]) + over
        if i < 0 or i >= len(parent):
            raise NoSuch('range')
        at = at[:-1] + [str(i)]
    if keys is None:
        if not at:
            raise NoSuch('root')
        parent = evaluate(root, at[:-1])
        return ('index', int(at[-1])) if isinstance(parent, list) else ('key', at[-1])
    evaluate(evaluate(root, at), keys)
    return 'node', at + list(keys)
