"""RFC 8259 texts, by its grammar."""
import re

_NUMBER = re.compile(r'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?')
_CHAR = re.compile(r'[^"\\\x00-\x1f]')
_HEX = re.compile(r'[0-9A-Fa-f]{4}')
_WS = ' \t\n\r'


class NotJSON(Exception):
    pass


def recognise(text):
    """Raise NotJSON unless the text is a JSON text; return whether names repeat in an object,
    or text is escaped that is not Unicode, so that its value is open."""
    i, open_ = _value(text, _space(text, 0))
    if _space(text, i) != len(text):
        raise NotJSON(i)
    return open_


def _space(t, i):
    while i < len(t) and t[i] in _WS:
        i += 1
    return i


def _value(t, i):
    for word in ('null', 'true', 'false'):
        if t.startswith(word, i):
            return i + len(word), False
    c = t[i:i + 1]
    if c == '"':
        i, _, open_ = _string(t, i)
        return i, open_
    if c == '[':
        i = _space(t, i + 1)
        if t[i:i + 1] == ']':
            return i + 1, False
        any_open = False
        while True:
            i, open_ = _value(t, _space(t, i))
            any_open = any_open or open_
            i = _space(t, i)
            if t[i:i + 1] == ']':
                return i + 1, any_open
            if t[i:i + 1] != ',':
                raise NotJSON(i)
            i += 1
    if c == '{':
        i = _space(t, i + 1)
        if t[i:i + 1] == '}':
            return i + 1, False
        names, any_open = set(), False
        while True:
            i, name, open_ = _string(t, _space(t, i))
            any_open = any_open or open_ or name in names
            names.add(name)
            i = _space(t, i)
            if t[i:i + 1] != ':':
                raise NotJSON(i)
            i, open_ = _value(t, _space(t, i + 1))
            any_open = any_open or open_
            i = _space(t, i)
            if t[i:i + 1] == '}':
                return i + 1, any_open
            if t[i:i + 1] != ',':
                raise NotJSON(i)
            i += 1
    m = _NUMBER.match(t, i)
    if not m:
        raise NotJSON(i)
    return m.end(), False


def _string(t, i):
    if t[i:i + 1] != '"':
        raise NotJSON(i)
    i += 1
    out = []
    while t[i:i + 1] != '"':
        if t[i:i + 1] == '\\':
            e = t[i + 1:i + 2]
            if e == 'u':
                if not _HEX.match(t, i + 2):
                    raise NotJSON(i)
                out.append(chr(int(t[i + 2:i + 6], 16)))
                i += 6
            elif e and e in '"\\/bfnrt':
                out.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(e, e))
                i += 2
            else:
                raise NotJSON(i)
        elif _CHAR.match(t, i):
            out.append(t[i])
            i += 1
        else:
            raise NotJSON(i)
    try:
        name = ''.join(out).encode('utf-16-le', 'surrogatepass').decode('utf-16-le')
        return i + 1, name, False
    except UnicodeDecodeError:
        return i + 1, None, True
