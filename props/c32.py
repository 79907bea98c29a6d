"""C32 Paging and URI helpers recover what the server said."""
import datetime
from decimal import Decimal
from rdflib import Literal, URIRef
from rdflib.namespace import XSD
from MyCapytain.common.utils import dict_to_literal, expand_namespace, literal_to_dict, parse_pagination, parse_uri
from props._util import Registry

RELS = [('previous', 'prev'), ('next', 'next'), ('last', 'last'), ('current', 'current'), ('first', 'first')]
ENDPOINT = 'http://dts.example/api/dts/'
LAYOUT = {  # where the page stands among the parameters
    'alone': '{p}', 'first': '{p}&id=x', 'last': 'id=x&{p}', 'middle': 'id=x&{p}&nav=parents', 'look-alike': 'mypage=7&{p}&page_size=8', 'fragment': 'id=x&{p}#page=4', 'none': 'id=x', 'nothing': '',
}
BASES = ['', '/api/dts/collections', 'http://dts.example/api', './page=9', 'http://dts.example/?']


def h_pagination(sx, many, layouts, bases, digits, txt):
    if sx.bool('no header'):
        got = parse_pagination({'Content-Type': 'text/xml'})
        sx.check(tuple(got) == (None,) * 5, 'no relation without header', got=tuple(got))
        return
    present = [r for r in RELS if sx.bool('has ' + r[0])] if many else [sx.choice('relation', RELS)]
    if not many and sx.bool('another'):
        present.append(RELS[(RELS.index(present[0]) + 2) % len(RELS)])
    sep = sx.choice('separator', [', ', ',', ' , '])
    quoted = sx.choice('rel form', ['"%s"', '%s'])
    extra = sx.choice('extra', ['', '; title="t"'])
    links, want = [], {}
    layout = sx.choice('layout', layouts)
    base = sx.choice('base', bases)
    ident = sx.str('identifier', 1, txt)
    if sx.bool('an unrelated link'):
        links.append('</other?page=77>; rel="license"')
    for rel, field in present:
        page = sx.str('page ' + rel, sx.choice('digits ' + rel, digits), '0123456789')
        query = LAYOUT[layout].replace('x', ident).replace('{p}', 'page=' + page)
        href = base + ('' if base.endswith('?') else '?') + query if query else base or '/'
        links.append('<%s>; rel=%s%s' % (href, quoted % rel, extra))
        want[field] = None if layout in ('none', 'nothing') else page
    got = parse_pagination({'Link': sep.join(links)})
    sx.observe('pages', list(got))
    for rel, field in RELS:
        sx.check(getattr(got, field) == want.get(field), 'page of the relation', relation=rel, got=getattr(got, field), want=want.get(field))


URIS = {  # how the route is given: (before the name, absolute path)
    'relative': ('', ENDPOINT), 'dot': ('./', ENDPOINT), 'parent': ('../', 'http://dts.example/api/'), 'root': ('/', 'http://dts.example/'),
    'same host': ('http://dts.example/api/', 'http://dts.example/api/'), 'other host': ('https://other.example:8080/a/', 'https://other.example:8080/a/'),
    'no scheme': ('//other.example/', 'http://other.example/'), 'query only': (None, ENDPOINT),
}


def h_uri(sx, forms, lens, txt, counts):
    form = sx.choice('form', forms)
    before, base = URIS[form]
    if before is None:
        uri, path = '', base
    else:
        name = sx.str('name', sx.choice('length of name', [1, 2]), 'ab.;')
        sx.assume(name not in ('.', '..') and not name.endswith(';'))
        uri, path = before + name, base + name
    n = sx.choice('parameters', counts)
    want = {}
    pairs = []
    for i in range(n):
        key = sx.choice('key %d' % i, ['api', 'id'])
        value = sx.str('value %d' % i, sx.choice('length %d' % i, lens), txt)
        how = sx.choice('encoding %d' % i, ['', '%20', '+', '%26'])
        pairs.append(key + '=' + value + how)
        want.setdefault(key, []).append(value + {'': '', '%20': ' ', '+': ' ', '%26': '&'}[how])
    if pairs:
        uri += '?' + '&'.join(pairs)
    if sx.bool('fragment'):
        uri += '#part'
    got = parse_uri(uri, ENDPOINT)
    sx.observe('route', [got.path, sorted(got.query_dict)])
    sx.check(got.path == path, 'absolute path', got=got.path, want=path)
    sx.check(sorted(got.query_dict) == sorted(want), 'all parameters', got=sorted(got.query_dict), want=sorted(want))
    for k in want:
        sx.check(list(got.query_dict[k]) == want[k], 'with all their values', got=got.query_dict[k], want=want[k])


def h_namespace(sx, n, lens, plens, txt):
    nsmap = {}
    used = []
    for i in range(n):
        p = sx.str('prefix %d' % i, sx.choice('length of prefix %d' % i, plens), 'ab')
        for q in used:
            sx.assume(q != p)
        used.append(p)
        nsmap[p] = 'http://ns.example/%d#' % i
    if sx.bool('default namespace'):
        nsmap[None] = 'http://default.example/'
    s = sx.str('text', sx.choice('length of text', lens), txt)
    got = expand_namespace(nsmap, s)
    want = s
    for i, p in enumerate(used):
        if s.startswith(p + ':'):
            want = 'http://ns.example/%d#' % i + s[len(p) + 1:]
    sx.observe('expanded', got)
    sx.check(got == want, 'only the leading declared prefix is expanded', got=got, want=want)


def h_literals(sx, lens, txt):
    kind = sx.choice('kind', ['text', 'language', 'number', 'boolean', 'uri'])
    if kind == 'number':
        v = sx.choice('number', [0, 1, -5, 10 ** 9])
        x, want = Literal(v), v
    elif kind == 'boolean':
        v = sx.bool('boolean')
        x, want = Literal(v), v
    else:
        v = sx.str('value', sx.choice('length', lens), txt)
        x = {'text': lambda: Literal(v), 'language': lambda: Literal(v, lang='fr'), 'uri': lambda: URIRef(v)}[kind]()
        want = {'text': v, 'language': {'@value': v, '@language': 'fr'}, 'uri': {'@id': v}}[kind]
    d = literal_to_dict(x)
    sx.observe('dict', d)
    sx.check(type(d) is type(want) if kind in ('number', 'boolean') else isinstance(d, type(want)), 'kind of value', got=d, want=want)
    sx.check(d == want, 'value of the literal', got=d, want=want)
    back = dict_to_literal(d if isinstance(d, dict) else {'@value': d})
    y = back[0] if isinstance(back[0], URIRef) else Literal(back[0], lang=back[1] if len(back) > 1 else None)
    sx.check(type(y) is type(x) and str(y) == str(x) and getattr(y, 'language', None) == getattr(x, 'language', None), 'and back', got=repr(y), want=repr(x))
    sx.check(literal_to_dict(None) is None, 'nothing')


TYPED = [('abc', XSD.date, 'abc'), ('2001-02-03', XSD.date, datetime.date(2001, 2, 3)), ('1.50', XSD.decimal, Decimal('1.50')), ('x1', XSD.integer, 'x1'), ('01', XSD.integer, 1),
         ('x', URIRef('urn:type'), 'x'), ('', XSD.string, ''), ('x', XSD.string, 'x'), ('true', XSD.boolean, True), ('0', XSD.boolean, False), ('2.5', XSD.double, 2.5),
         ('x', XSD.anyURI, 'x')]


def h_typed(sx, values):
    text, datatype, want = sx.choice('literal', values)
    d = literal_to_dict(Literal(text, datatype=datatype))
    sx.observe('value', str(d))
    if isinstance(want, str):
        sx.check(isinstance(d, str) and str(d) == want, 'text of the literal', got=repr(d), want=want)
    else:
        sx.check(type(d) is type(want) and d == want, 'value of the literal', got=repr(d), want=repr(want))


R = Registry()
R.add('pagination', h_pagination, dict(many=False, layouts=list(LAYOUT), bases=BASES, digits=[1, 2], txt='a&='), dict(many=False, layouts=list(LAYOUT), bases=BASES, digits=[1, 4], txt='a&=?;,'), 'position of the page')
R.add('relations', h_pagination, dict(many=True, layouts=['last', 'first', 'none'], bases=BASES[:2], digits=[1], txt='ab'), dict(many=True, layouts=['last', 'first', 'none'], bases=BASES, digits=[1, 3], txt='ab'), 'any relations')
R.add('uri', h_uri, dict(forms=list(URIS), lens=[0, 1, 2], txt='ab1:/.', counts=[0, 1, 2]), dict(forms=list(URIS), lens=[0, 1, 3], txt='ab1:/.@?', counts=[0, 1, 2]), 'arbitrary names and values')
R.add('namespace', h_namespace, dict(n=2, lens=[0, 1, 2, 3, 4, 5], plens=[1, 2], txt='ab:'), dict(n=3, lens=[0, 1, 2, 3, 4, 5], plens=[1, 2], txt='ab:'), 'arbitrary prefixes and text')
R.add('typed', h_typed, dict(values=TYPED), {**dict(values=TYPED)}, 'typed values')
R.add('literals', h_literals, dict(lens=[0, 1, 2], txt=None), dict(lens=[0, 1, 2, 3, 4], txt=None), 'arbitrary values')
names, get, bounds = R.names, R.get, R.bounds
