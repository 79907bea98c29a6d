"""C28 DTS reference listings are complete, typed and ordered."""
import requests
from rdflib.namespace import DCTERMS
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import DtsCitation, DtsReference, DtsReferenceSet
from MyCapytain.errors import EmptyReference, PaginationBrowsingError
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from props._http import Answer, Net, query
from props._util import Registry, raises

ENDPOINT = 'http://dts.example/api/dts/'
CTX = {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#', 'dc': 'http://purl.org/dc/terms/'}
ENTRY = {'collections': './collections', 'documents': './documents', 'navigation': './navigation'}
NEXT = ['./navigation?id=t&page={p}', '?page={p}&level=1', 'http://dts.example/api/dts/navigation?startpage=99&page={p}&page_size=7']
TXT = '12ab.- \u03b1"'


class Ref:
    def __init__(self, sx, k, forms, lens, txt, types):
        self.form = sx.choice('form %d' % k, forms)
        # only the first is arbitrary unless its text is asked to be compared with others
        self.start = sx.str('reference %d' % k, sx.choice('length %d' % k, lens), txt)
        self.end = self.start + 'z' if self.form == 'range' else None
        self.own = sx.choice('type %d' % k, types)
        self.json = {'dts:ref': self.start} if self.form == 'single' else {'dts:start': self.start, 'dts:end': self.end}
        if self.own is not None:
            self.json['dts:citeType'] = self.own
        self.title = None
        if k == 0 and sx.bool('with metadata'):
            self.title = sx.str('title', 1, txt)
            self.json['dts:dublincore'] = {'dc:title': [{'@value': self.title, '@language': 'en'}]}


def serve(sx, pages, forms, level, cite, cites=()):
    """a server which has these pages; page numbers are what it says they are"""
    numbers = [1]
    for i in range(1, len(pages)):
        n = sx.str('page number %d' % i, sx.choice('digits %d' % i, [1, 2]), '23456789')
        for m in numbers[1:]:
            sx.assume(m != n)
        numbers.append(n)
    form = sx.choice('next link', forms) if len(pages) > 1 else None

    def answer(call):
        if not call.url.endswith('navigation'):
            return Answer(ENTRY)
        asked = call.get('page')
        k = None
        for i, n in enumerate(numbers):
            if (i == 0 and asked is None) or (i > 0 and asked is not None and asked == n):
                k = i
        if k is None:
            return Answer({}, 404)
        members = [r.json for r in pages[k]]
        body = {'@context': CTX, '@id': '/api/dts/navigation', 'member': members[0] if len(members) == 1 and bare else members}
        if level is not None:
            body['dts:level'] = level
        own = cites[k] if cites else cite
        if own is not None:
            body['dts:citeType'] = own
        if len(pages) > 1:
            body['view'] = {'@id': '/x', '@type': 'PartialCollectionView', 'first': form.format(p='1'), 'last': form.format(p=numbers[-1])}
            if k + 1 < len(pages):
                body['view']['next'] = form.replace('{p}', numbers[k + 1])
            if k:
                body['view']['previous'] = form.replace('{p}', str(numbers[k - 1]))
        return Answer(body)
    bare = sx.bool('one member without a list')
    return Net(sx, answer)


def check_refs(sx, got, refs, level, cite, mixed=False):
    sx.check(isinstance(got, DtsReferenceSet) and len(got) == len(refs), 'every member once', got=len(got), want=len(refs))
    sx.observe('references', [[r.start, r.end, r.type] for r in got])
    for x, r in zip(got, refs):
        sx.check(isinstance(x, DtsReference), 'DTS references')
        sx.check(x.start == r.start and x.end == r.end and x.is_range() == (r.form == 'range'), 'in order, as references or ranges', got=[x.start, x.end], want=[r.start, r.end])
        want = r.own if r.own is not None else r.page_cite if mixed else cite
        sx.check((x.type is None) if want is None else (x.type is not None and str(x.type) == want), 'with the type of their citation', got=str(x.type), want=want)
        titles = [str(v) for v in x.metadata.get(DCTERMS.title, 'en')] if r.title is not None else []
        sx.check(titles == ([r.title] if r.title is not None else []), 'and metadata', got=titles, want=r.title)
    sx.check(got.level == level, 'level', got=got.level, want=level)
    if mixed:
        return
    if cite is None:
        sx.check(got.citation is None, 'no citation', got=str(got.citation))
    else:
        sx.check(isinstance(got.citation, DtsCitation) and got.citation.name == cite, 'citation', got=str(got.citation))


def h_pages(sx, sizes, forms, lens, txt, types, nexts, cites):
    set_graph(bind_graph())
    split = sx.choice('pages', sizes)
    refs = [Ref(sx, k, forms, lens, txt, types) for k in range(sum(split))]
    pages, at = [], 0
    for s in split:
        pages.append(refs[at:at + s])
        at += s
    level = sx.choice('level', [None, 1, 3])
    cite = sx.choice('citation', cites)
    net = serve(sx, pages, nexts, level, cite)
    got = HttpDtsResolver(ENDPOINT).getReffs('t')
    check_refs(sx, got, refs, level, cite)
    asked = [c for c in net.calls if c.url.endswith('navigation')]
    sx.check(len(asked) == len(pages), 'each page once', got=len(asked), want=len(pages))


SUBS = ['none', 'text', 'single', 'range', 'tuple']


def h_query(sx, lens, txt, nexts):
    """what is asked from the server"""
    set_graph(bind_graph())
    tid = sx.str('text', sx.choice('length', lens), txt)
    a, b = sx.str('start', 1, txt), sx.str('end', 1, txt)
    form = sx.choice('subreference', SUBS)
    sub = {'none': None, 'text': a, 'single': DtsReference(a), 'range': DtsReference(a, b), 'tuple': (a, b)}[form]
    want = {} if form == 'none' else {'ref': a} if form in ('text', 'single') else {'start': a, 'end': b}
    kw = {}
    if form != 'none':
        kw['subreference'] = sub
    level = 1
    if sx.bool('level given'):
        level = kw['level'] = sx.int('level', 0, 9)
    group = 1
    extra = sx.choice('additional', [None, {}, {'groupBy': 4}, {'exclude': 'dc:title'}])
    if extra is not None:
        kw['additional_parameters'] = extra
        group = extra.get('groupBy', 1)
    exclude = (extra or {}).get('exclude')
    refs = [Ref(sx, k, ['single'], [1], 'a', [None]) for k in range(2)]
    net = serve(sx, [[refs[0]], [refs[1]]], nexts, 1, None)
    got = HttpDtsResolver(ENDPOINT).getReffs(tid, **kw)
    check_refs(sx, got, refs, 1, None)
    asked = [c for c in net.calls if c.url.endswith('navigation')]
    sx.check(len(asked) == 2, 'both pages')
    for c in asked:
        q = [(k, v) for k, v in c.query if k != 'page']
        sx.observe('query', q)
        w = query(id=tid, level=level, groupBy=group, exclude=exclude, **want)
        sx.check(q == w, 'every page is asked with the same arguments', got=q, want=w)


def h_faults(sx):
    """answers which are not a listing"""
    set_graph(bind_graph())
    kind = sx.choice('answer', ['nothing', 'error', 'no reference', 'half a range', 'no member', 'error later', 'nothing later'])
    one = {'dts:ref': '1'}

    def answer(call):
        if not call.url.endswith('navigation'):
            return Answer(ENTRY)
        if kind == 'nothing':
            return Answer({})
        if kind == 'error':
            return Answer({}, 500)
        if kind.endswith('later') and call.get('page') is not None:
            return Answer({}, 500 if kind == 'error later' else 200)
        body = {'@context': CTX, '@id': '/n', 'dts:level': 1, 'member': [one]}
        if kind == 'no reference':
            body['member'] = [one, {'dts:citeType': 'x'}]
        if kind == 'half a range':
            body['member'] = [one, {'dts:start': 'x'}]
        if kind == 'no member':
            body['member'] = []
        if kind.endswith('later'):
            body['view'] = {'@id': '/v', 'next': '?page=2'}
        return Answer(body)
    Net(sx, answer)
    r = HttpDtsResolver(ENDPOINT)
    go = lambda: r.getReffs('t')
    sx.observe('kind', kind)
    if kind == 'no member':
        got = go()
        sx.check(len(got) == 0 and got.level == 1, 'an empty listing', got=len(got))
    else:
        want = {'nothing': PaginationBrowsingError, 'error': requests.HTTPError, 'no reference': EmptyReference, 'half a range': EmptyReference,
                'error later': requests.HTTPError, 'nothing later': PaginationBrowsingError}[kind]
        e = raises(want, go)
        sx.check(e is not None, 'an incomplete answer raises', kind=kind, got=repr(e))


def h_mixed(sx, sizes, cites, types):
    """pages which are not of the same citation level"""
    set_graph(bind_graph())
    split = sx.choice('pages', sizes)
    refs = [Ref(sx, k, ['single'], [1], '123', types) for k in range(sum(split))]
    pages, at, own = [], 0, [sx.choice('citation of page %d' % i, cites) for i in range(len(split))]
    for s, c in zip(split, own):
        pages.append(refs[at:at + s])
        for r in pages[-1]:
            r.page_cite = c
        at += s
    serve(sx, pages, NEXT[:1], 2, None, own)
    r = HttpDtsResolver(ENDPOINT)
    check_refs(sx, r.getReffs('t'), refs, 2, None, mixed=True)
    if sx.bool('asked again'):
        check_refs(sx, r.getReffs('t'), refs, 2, None, mixed=True)


def h_equal(sx, forms, lens, txt, types):
    """references and sets of them are equal when they say the same"""
    set_graph(bind_graph())
    a, b = Ref(sx, 0, forms, lens, txt, types), Ref(sx, 1, forms, lens, txt, types)
    x = DtsReference(*([a.start] if a.end is None else [a.start, a.end]), type_=a.own)
    y = DtsReference(*([b.start] if b.end is None else [b.start, b.end]), type_=b.own)
    same = a.start == b.start and a.end == b.end and a.own == b.own
    sx.check((x == y) == same and (x != y) == (not same), 'equality of references', got=[x == y, x != y], want=same)
    sx.check(len({x, y}) == (1 if same else 2), 'equal references are one member of a set')
    la, lb = sx.choice('level 0', [1, 2]), sx.choice('level 1', [1, 2])
    ca, cb = sx.choice('citation 0', [None, 'p']), sx.choice('citation 1', [None, 'p', 'q'])
    s = DtsReferenceSet(x, level=la, citation=ca and DtsCitation(ca))
    t = DtsReferenceSet(y, level=lb, citation=cb and DtsCitation(cb))
    same = same and la == lb and ca == cb
    sx.observe('same', same)
    sx.check((s == t) == same and (s != t) == (not same), 'equality of sets', got=[s == t, s != t], want=same)
    sx.check((x in s) and (y in t), 'membership')


R = Registry()
R.add('pages', h_pages, dict(sizes=[(0,), (1,), (2,), (1, 1), (2, 1), (0, 1), (1, 0, 1)], forms=['single', 'range'], lens=[1], txt=TXT, types=[None, 'line'], nexts=NEXT[2:], cites=[None, 'poem']),
      dict(sizes=[(0,), (1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (0, 2)], forms=['single', 'range'], lens=[1], txt=TXT, types=[None, 'line'], nexts=NEXT, cites=[None, 'poem']), 'splits of a listing')
R.add('texts', h_pages, dict(sizes=[(1,), (1, 1), (1, 1, 1)], forms=['single'], lens=[1, 2, 3], txt=None, types=[None], nexts=NEXT, cites=['poem']),
      dict(sizes=[(1,), (1, 1), (1, 1, 1), (1, 0, 1)], forms=['single', 'range'], lens=[1, 2, 3, 5], txt=None, types=[None], nexts=NEXT, cites=['poem']), 'arbitrary references')
R.add('query', h_query, dict(lens=[1, 2], txt='ab:&', nexts=NEXT), dict(lens=[1, 2, 3], txt=None, nexts=NEXT), 'arguments')
R.add('mixed', h_mixed, dict(sizes=[(1, 1), (1, 1, 1), (2, 1)], cites=[None, 'poem', 'line'], types=[None, 'letter']), dict(sizes=[(1, 1), (1, 1, 1), (2, 2), (1, 0, 2)], cites=[None, 'poem', 'line'], types=[None, 'letter', 'line']), 'pages of several citation levels')
R.add('faults', h_faults, {}, {}, 'answers which are not a listing')
R.add('equal', h_equal, dict(forms=['single', 'range'], lens=[1], txt='ab', types=[None, 'p', 'q']), dict(forms=['single', 'range'], lens=[1, 2], txt='abz', types=[None, 'p', 'q']), 'two references')
names, get, bounds = R.names, R.get, R.bounds
