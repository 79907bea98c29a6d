"""C31 DTS documents report the navigation of their Link header."""
import requests
from rdflib.namespace import DCTERMS
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import DtsReference
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from props._http import Answer, Net, query
from props._util import Registry, raises

ENDPOINT = 'http://dts.example/api/dts/'
ENTRY = {'collections': './collections', 'documents': './documents', 'navigation': './navigation'}
CTX = {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#', 'dct': 'http://purl.org/dc/terms/'}
DOC = 'urn:cts:ns:g.w.v'
COLLECTION = {'@context': CTX, '@id': DOC, '@type': 'Resource', 'title': 'The title', 'totalItems': 0, 'dts:dublincore': {'dct:creator': ['someone']},
              'dts:citeDepth': 2, 'dts:citeStructure': [{'dts:citeType': 'book', 'dts:citeStructure': [{'dts:citeType': 'line'}]}]}
WHERE = ['http://dts.example/api/dts/documents', '/api/dts/documents', '']


class Target:
    """what a link of the header points to"""

    def __init__(self, sx, label, kinds, lens, txt):
        self.kind = sx.choice(label, kinds)
        self.start = self.end = None
        if self.kind in ('single', 'range'):
            self.start = sx.str(label + ' start', sx.choice('length of ' + label, lens), txt)
        if self.kind == 'range':
            self.end = self.start + 'z'

    def href(self, where, id_first):
        ident = 'id=' + DOC
        if self.kind == 'whole':
            return where + '?' + ident
        ref = 'ref=' + self.start if self.kind == 'single' else ('start=' + self.start + '&end=' + self.end)
        return where + '?' + (ident + '&' + ref if id_first else ref + '&' + ident)

    @property
    def asked(self):
        return {'single': dict(ref=self.start), 'range': dict(start=self.start, end=self.end)}.get(self.kind, {})

    @property
    def reference(self):
        return {'single': lambda: DtsReference(self.start), 'range': lambda: DtsReference(self.start, self.end)}.get(self.kind, lambda: None)()


class Server:
    def __init__(self, sx):
        self.header, self.members, self.status = None, [], 200
        self.net = Net(sx, self.answer)

    def answer(self, call):
        if call.url.endswith('collections'):
            return Answer(COLLECTION)
        if call.url.endswith('navigation'):
            return Answer({'@context': CTX, '@id': '/n', 'dts:citeType': 'line', 'dts:level': 1, 'member': [{'dts:ref': m} for m in self.members]})
        if not call.url.endswith('documents'):
            return Answer(ENTRY)
        headers = requests.structures.CaseInsensitiveDict({} if self.header is None else {'Link': self.header})
        text = '<TEI xmlns="http://www.tei-c.org/ns/1.0"><text>of ' + (call.get('ref') or call.get('start') or 'everything') + '</text></TEI>'
        return Answer(text, self.status, headers=headers)


def same(sx, got, want, what):
    """two references, either of which may be None"""
    if want is None or got is None:
        sx.check(got is None and want is None, what, got=got, want=want)
    else:
        sx.check(got.start == want.start and got.end == want.end and got.is_range() == want.is_range(), what, got=got, want=want)


def obtain(sx, lens, txt, kinds=('whole', 'single', 'range')):
    """a document: of the resolver, or of another document of it"""
    server = Server(sx)
    own = Target(sx, 'own', list(kinds), lens, txt)
    return server, own, HttpDtsResolver(ENDPOINT)


def asks(sx, server, what, do, path, **want):
    before = len(server.net.calls)
    got = do()
    calls = [c for c in server.net.calls[before:] if c.url != ENDPOINT]
    if path is None:
        sx.check(not calls, 'nothing is asked', step=what)
    else:
        sx.check(len(calls) == 1, 'one request', step=what)
        sx.check(calls[0].url == ENDPOINT + path, 'to the route', step=what, got=calls[0].url)
        sx.check(calls[0].query == query(**want), 'for exactly this', step=what, got=calls[0].query, want=query(**want))
    return got


def is_document(sx, d, target):
    sx.check(d.id == DOC, 'of the same text', got=d.id)
    same(sx, d.reference, target.reference, 'the reference of the document')
    want = 'of ' + (target.start or 'everything')
    sx.check(d.export(Mimetypes.PLAINTEXT) == want, 'the text which was sent', got=d.export(Mimetypes.PLAINTEXT), want=want)


RELS = ['prev', 'next', 'up', 'first', 'last', 'collection', 'self']


def h_links(sx, rels, absent, kinds, lens, txt, orders, wheres):
    set_graph(bind_graph())
    server, own, resolver = obtain(sx, [1], 'x')
    where, id_first = sx.choice('where', wheres), sx.bool('identifier first')
    targets = {}
    for r in rels:
        t = Target(sx, r, kinds, lens, txt)
        if t.kind != 'absent':
            targets[r] = t
    links = ['<' + t.href(where, id_first) + '>; rel="%s"' % r for r, t in targets.items()]
    for r in absent:
        links.append('<%s?id=%s&ref=%s>; rel="%s"' % (where, DOC, '9' if r in ('first', 'last') else 'other', r))
    if sx.choice('order', orders) == 'reversed':
        links.reverse()
    server.header = ', '.join(links) if links else sx.choice('no links', [None, ''])
    d = asks(sx, server, 'document', lambda: resolver.getTextualNode(DOC, own.reference), 'documents', id=DOC, **own.asked)
    is_document(sx, d, own)

    def ref_of(rel):
        return targets[rel].reference if rel in targets else None
    for what, rel in (('prevId', 'prev'), ('nextId', 'next'), ('parentId', 'up')):
        got = asks(sx, server, what, lambda: getattr(d, what), None)
        same(sx, got, ref_of(rel), what + ' is that of the header')
    got = d.siblingsId
    sx.check(len(got) == 2, 'two siblings')
    same(sx, got[0], ref_of('prev'), 'the siblings are those of the header')
    same(sx, got[1], ref_of('next'), 'the siblings are those of the header')
    sx.observe('links', [None if x is None else str(x) for x in (d.prevId, d.nextId, d.parentId)])
    rel = sx.choice('followed', ['prev', 'next', 'up'])
    what = {'prev': 'prev', 'next': 'next', 'up': 'parent'}[rel]
    t = targets.get(rel)
    if t is None or t.reference is None:
        sx.check(asks(sx, server, what, lambda: getattr(d, what), None) is None, 'no such passage')
    else:
        is_document(sx, asks(sx, server, what, lambda: getattr(d, what), 'documents', id=DOC, **t.asked), t)


def h_encoded(sx, rels, texts):
    """percent-encoded targets, and parameters which are not part of the reference"""
    set_graph(bind_graph())
    server, own, resolver = obtain(sx, [1], 'x', ['single'])
    rel = sx.choice('relation', rels)
    kind = sx.choice('kind', ['single', 'range'])
    raw, text = sx.choice('text', texts)
    c = sx.str('letter', 1, 'abc1.')
    mine = 'ref=' + c + raw if kind == 'single' else 'start=' + c + raw + '&end=' + raw + c
    href = WHERE[0] + '?before=1&' + mine + '&id=' + DOC + '&reference=2&after='
    # what follows the query is not part of it
    tail = sx.choice('fragment', ['', '#top', '#id?ref=q'])
    if tail:
        href = WHERE[0] + '?id=' + DOC + '&' + mine + tail
    server.header = '<' + href + '>; rel=' + sx.choice('quoted', ['"%s"', '%s']) % rel + sx.choice('more', ['', '; title="next, or so"', '; type="text/xml"'])
    d = resolver.getTextualNode(DOC, own.reference)
    got = {'prev': d.prevId, 'next': d.nextId, 'up': d.parentId}
    for r in got:
        want = None
        if r == rel:
            want = DtsReference(c + text) if kind == 'single' else DtsReference(c + text, text + c)
        same(sx, got[r], want, 'the reference of the link')


def h_listing(sx, lens, txt, counts):
    """references below a document"""
    set_graph(bind_graph())
    server, own, resolver = obtain(sx, lens, txt)
    server.members = [sx.str('reference %d' % i, 1, txt) for i in range(sx.choice('references', counts))]
    d = resolver.getTextualNode(DOC, own.reference)
    is_document(sx, d, own)
    op = sx.choice('operation', ['childIds', 'first', 'last', 'children', 'getReffs', 'getReffs below'])
    if op == 'getReffs':
        level = sx.int('level', 1, 9)
        got = asks(sx, server, op, lambda: d.getReffs(level), 'navigation', id=DOC, level=level, groupBy=1, **own.asked)
    elif op == 'getReffs below':
        level = sx.int('level', 1, 9)
        sub = Target(sx, 'below', ['single', 'range'], lens, txt)
        got = asks(sx, server, op, lambda: d.getReffs(level=level, subreference=sub.reference), 'navigation', id=DOC, level=level, groupBy=1, **sub.asked)
    else:
        got = asks(sx, server, op, lambda: d.childIds, 'navigation', id=DOC, level=1, groupBy=1, **own.asked)
        sx.check(asks(sx, server, op, lambda: d.childIds, None) == got, 'asked once')
    sx.check([r.start for r in got] == server.members, 'the references listed', got=got, want=server.members)
    sx.check(all(r.end is None or r.end == '' for r in got), 'none of them a range')
    if op in ('first', 'last'):
        want = None if not server.members else server.members[0 if op == 'first' else -1]
        ident = getattr(d, op + 'Id')
        if want is None:
            sx.check(ident is None and asks(sx, server, op, lambda: getattr(d, op), None) is None, 'no such passage')
        else:
            sx.check(ident.start == want, op + ' child', got=ident)
            p = asks(sx, server, op, lambda: getattr(d, op), 'documents', id=DOC, ref=want)
            sx.check(p.export(Mimetypes.PLAINTEXT) == 'of ' + want, 'the text which was sent')
    if op == 'children':
        before = len(server.net.calls)
        got = list(d.children)
        sx.check([c.query for c in server.net.calls[before:]] == [query(id=DOC, ref=m) for m in server.members], 'every child is fetched once')
        sx.check([p.reference.start for p in got] == server.members, 'and is what it is')


def h_collection(sx):
    """metadata are those of the collection, which is read once"""
    set_graph(bind_graph())
    server, own, resolver = obtain(sx, [1], 'ab')
    server.header = sx.choice('header', [None, '<' + ENDPOINT + 'collections?id=' + DOC + '>; rel="collection"'])
    d = resolver.getTextualNode(DOC, own.reference)
    known = sx.bool('already read')
    if known:
        asks(sx, server, 'collection', lambda: d.collection, 'collections', id=DOC)
    if sx.bool('of another passage'):
        first, d = d, d.getTextualNode(DtsReference('7'))
    route = None if known else 'collections'
    what = sx.choice('asked', ['depth', 'metadata', 'collection', 'title'])
    got = asks(sx, server, what, lambda: d.get_title() if what == 'title' else getattr(d, what), route, **(dict(id=DOC) if route else {}))
    if what == 'depth':
        sx.check(got == 2, 'depth', got=got)
    asks(sx, server, 'again', lambda: (d.collection, d.metadata, d.depth), None)
    sx.check(d.collection.id == DOC and d.depth == 2, 'the collection of the document')
    sx.check([str(x) for x in d.metadata.get(DCTERMS.creator)] == ['someone'], 'its metadata')


def h_walk(sx, n, steps, txt):
    """from one document to another, and back: each has its own links"""
    set_graph(bind_graph())
    refs = []
    for i in range(n):
        t = Target(sx, 'passage %d' % i, ['single', 'range'], [1], txt)
        for o in refs:
            sx.assume(o.start != t.start)
        refs.append(t)
    server, _, resolver = obtain(sx, [1], 'x', ['single'])
    plain = server.answer

    def answer(call):
        server.header = None
        at = call.get('ref') or call.get('start')
        for i, t in enumerate(refs):
            if at is not None and at == t.start:
                links = ['<%s>; rel="next"' % refs[i + 1].href(WHERE[0], True)] if i + 1 < n else []
                links += ['<%s>; rel="prev"' % refs[i - 1].href(WHERE[0], False)] if i else []
                links += ['<%s>; rel="up"' % refs[0].href(WHERE[0], True)] if i > 1 else []
                server.header = ', '.join(links)
        return plain(call)
    Net(sx, answer)
    at = sx.choice('start', list(range(n)))
    docs = [(at, resolver.getTextualNode(DOC, refs[at].reference))]
    for k in range(steps):
        i, d = docs[sx.choice('from %d' % k, list(range(len(docs))))]
        move = sx.choice('move %d' % k, ['next', 'prev', 'parent'])
        to = {'next': i + 1 if i + 1 < n else None, 'prev': i - 1 if i else None, 'parent': 0 if i > 1 else None}[move]
        got = getattr(d, move)
        if to is None:
            sx.check(got is None, 'no such passage', move=move)
        else:
            is_document(sx, got, refs[to])
            docs.append((to, got))
    for i, d in docs:
        same(sx, d.nextId, refs[i + 1].reference if i + 1 < n else None, 'next of each')
        same(sx, d.prevId, refs[i - 1].reference if i else None, 'previous of each')
        same(sx, d.parentId, refs[0].reference if i > 1 else None, 'parent of each')
    sx.observe('met', [str(d.reference) for i, d in docs])


R = Registry()
KINDS = ['absent', 'single', 'range']
R.add('links', h_links, dict(rels=['prev', 'next', 'up'], absent=['first', 'collection', 'last', 'self'], kinds=KINDS + ['whole'], lens=[1], txt='ab1', orders=['given', 'reversed'], wheres=WHERE[:1]),
      dict(rels=['prev', 'next', 'up', 'first', 'last'], absent=['collection', 'self'], kinds=KINDS, lens=[1, 2], txt='ab1.:-', orders=['given', 'reversed'], wheres=WHERE[:1]), 'links of a document')
R.add('lone', h_links, dict(rels=['prev', 'next', 'up'], absent=[], kinds=KINDS + ['whole'], lens=[1], txt='abA1.:-', orders=['given'], wheres=WHERE),
      dict(rels=['prev', 'next', 'up'], absent=[], kinds=KINDS + ['whole'], lens=[1, 2], txt='abA1.:_-', orders=['given', 'reversed'], wheres=WHERE), 'every subset of them')
TEXTS = [('%20b', ' b'), ('%26', '&'), ('%3D1', '=1'), ('+', ' '), ('%C3%A9', '\u00e9'), ('%C3%89B', '\u00c9B'), ('%2B', '+'), ('@x[1]', '@x[1]')]
R.add('encoded', h_encoded, dict(rels=['prev', 'next', 'up'], texts=TEXTS), {**dict(rels=['prev', 'next', 'up'], texts=TEXTS)}, 'encoded targets')
R.add('walk', h_walk, dict(n=3, steps=2, txt='123'), dict(n=3, steps=3, txt='0123'), 'from one document to another')
R.add('listing', h_listing, dict(lens=[1], txt='ab1', counts=[0, 1, 2]), dict(lens=[1, 2], txt='ab1.', counts=[0, 1, 2, 3]), 'references and children')
R.add('collection', h_collection, {}, {}, 'metadata')
names, get, bounds = R.names, R.get, R.bounds
