"""Strategies for RFC 3986 URIs, as lists [scheme, authority, path, query, fragment]."""
from hypothesis import strategies as st

PCHAR = "abcXYZ019-._~!$&'()*+,;=:@"
unit = st.one_of(st.sampled_from(PCHAR), st.sampled_from(PCHAR), st.sampled_from(['%41', '%2F', '%c3%A9', '%7e', '%e2%82%AC', '%20', '%25']))
seg = st.lists(unit, min_size=1, max_size=5).map(''.join).filter(lambda s: s not in ('.', '..'))
simple_seg = st.sampled_from(['a', 'b', 'c', 'foo', 'b.json', 'x%41', '%7Ey', 'A'])
segment = st.one_of(simple_seg, seg)
dotted = st.one_of(segment, segment, st.sampled_from(['.', '..', '..']))
schemes = st.sampled_from(['http', 'https', 'ftp', 'a', 'tag', 'x-y.z+1', 'urn', 'HTTP', 'Https'])
hosts = st.sampled_from(['h', 'example.com', 'Example.COM', '127.0.0.1', '[::1]', '[FE80::1]', 'a-b.c', 'localhost', 'sub.example.com'])
authority = st.tuples(st.sampled_from(['', '', '', 'u@', 'u:p@', 'us%c3%a9r@', 'U@']), hosts, st.sampled_from(['', '', '', ':80', ':8080', ':0'])).map(''.join)
qf = st.one_of(st.sampled_from(['', 'q', 'a=b&c=d', '/', '?', '/a/b', 'x/../y', '%c3%a9', '%C3%A9']),
               st.lists(st.one_of(unit, st.sampled_from('/?')), max_size=5).map(''.join))
opt_qf = st.one_of(st.none(), st.none(), qf)
abs_path = st.tuples(st.lists(segment, min_size=0, max_size=4).map(lambda s: ''.join('/' + x for x in s)), st.sampled_from(['', '', '/'])).map(''.join)
dot_path = st.tuples(st.lists(dotted, min_size=1, max_size=5).map(lambda s: ''.join('/' + x for x in s)), st.sampled_from(['', '', '/'])).map(''.join)
rel_path = st.tuples(st.lists(dotted, min_size=1, max_size=4).map('/'.join), st.sampled_from(['', '', '/'])).map(''.join).filter(lambda p: ':' not in p.split('/')[0])
opaque = st.lists(segment, min_size=1, max_size=2).map(':'.join)


def parts(scheme, auth, path, query=opt_qf, fragment=opt_qf):
    return st.tuples(scheme, auth, path, query, fragment).map(list)


none = st.none()
hierarchical = parts(schemes, authority, abs_path)
rooted = parts(schemes, none, abs_path.filter(bool))
opaque_uri = parts(schemes, none, opaque)
absolute = st.one_of(hierarchical, hierarchical, hierarchical, rooted, opaque_uri)
network = parts(none, authority, abs_path)
relative = st.one_of(parts(none, none, rel_path), parts(none, none, rel_path), parts(none, none, abs_path.filter(bool)), parts(none, none, st.just('')), network)
reference = st.one_of(absolute, relative, relative)
plain_relative = st.one_of(parts(none, none, st.lists(segment, min_size=1, max_size=3).map('/'.join).filter(lambda p: ':' not in p.split('/')[0])),
                           parts(none, none, abs_path.filter(bool)), parts(none, none, st.just('')), network)
