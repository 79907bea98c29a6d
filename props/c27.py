"""C27 The DTS retriever sends exactly the requested query."""
import requests
from MyCapytain.common.reference import BaseReference, CtsReference, DtsReference
from MyCapytain.retrievers.dts import HttpDtsRetriever
from props._http import Answer, Net, query
from props._util import Registry, raises

ENDPOINT = 'http://dts.example/api/dts/'
TXT = 'a:. &=%+?#\u00e9'
ROUTES = {  # what the entry document says: where that is, with which parameters
    'relative': (lambda n: './%s/' % n, lambda n: ENDPOINT + n + '/', lambda n: []),
    'absolute path': (lambda n: '/other/%s' % n, lambda n: 'http://dts.example/other/' + n, lambda n: []),
    'query': (lambda n: '?api=%s' % n, lambda n: ENDPOINT, lambda n: [('api', n)]),
    'elsewhere': (lambda n: 'https://%s.example/dts?k=1&k=2&e=' % n, lambda n: 'https://%s.example/dts' % n, lambda n: [('e', ''), ('k', '1'), ('k', '2')]),
    'other host': (lambda n: '//%s.example:81/a/b;p' % n, lambda n: 'http://%s.example:81/a/b;p' % n, lambda n: []),
}


def entry(form):
    return {'@context': '/dts/api/contexts/EntryPoint.jsonld', '@id': '/dts/api/', '@type': 'EntryPoint',
            **{n: ROUTES[form][0](n) for n in ('collections', 'documents', 'navigation')}}


def setup(sx, form, status, encodings):
    encoding = sx.choice('encoding', encodings)
    answer = Answer('body \u00e9', status, encoding=encoding, truth=encoding or 'utf-8')
    net = Net(sx, lambda call: Answer(entry(form)) if call.url == ENDPOINT and call.get('api') is None else answer)
    return net, HttpDtsRetriever(ENDPOINT), answer


def verify(sx, net, form, route, status, go, want, answer, mimetype='application/ld+json'):
    want = sorted(want + ROUTES[form][2](route), key=lambda kv: kv[0])
    for again in (False, True):
        before = len(net.calls)
        if status >= 400:
            sx.check(raises(requests.HTTPError, go) is not None, 'an HTTP error raises')
        else:
            got = go()
            sx.check(got is answer and got.text == 'body \u00e9', 'the response is returned as received')
        asked = net.calls[before:]
        sx.check(len(asked) == (1 if again else 2), 'the entry document once, then one request each', got=[c.url for c in asked])
        if not again:
            sx.check(asked[0].method == 'GET' and asked[0].url == ENDPOINT and asked[0].query == [], 'the entry document', got=asked[0].url)
        call = asked[-1]
        sx.check(call.method == 'GET' and call.url == ROUTES[form][1](route), 'to the route advertised', got=call.url)
        sx.check([k for k, v in call.query] == [k for k, v in want], 'exactly the parameters given', got=call.query, want=want)
        sx.check([v for k, v in call.query] == [v for k, v in want], 'with their values', got=call.query, want=want)
        sx.check(call.headers.get('Accept') == mimetype, 'media type', got=call.headers)
        sx.observe('query', call.query)


def reference(sx, lens, txt, forms):
    form = sx.choice('reference', forms)
    if form == 'none':
        return None, {}
    if form == 'number':
        n = sx.int('reference number', 0, 30)
        return n, {'ref': str(n)}
    a = sx.str('start', sx.choice('length of start', lens), txt)
    if form == 'text':
        return a, {'ref': a}
    if form == 'base':
        return BaseReference(a), {'ref': a}
    if form == 'dts':
        return DtsReference(a, type_='book'), {'ref': a}
    if form == 'cts':
        return CtsReference('1.2'), {'ref': '1.2'}
    if form == 'cts range':
        return CtsReference('1.2-1.3'), {'start': '1.2', 'end': '1.3'}
    b = sx.str('end', sx.choice('length of end', lens), txt)
    return {'base range': lambda: BaseReference(a, b), 'dts range': lambda: DtsReference(a, b, type_='book'), 'tuple': lambda: (a, b)}[form](), {'start': a, 'end': b}


FORMS = ['none', 'number', 'text', 'base', 'dts', 'cts', 'cts range', 'base range', 'dts range', 'tuple']


def optional(sx, label, make):
    return make() if sx.bool(label + ' given') else None


def h_collection(sx, forms, lens, txt):
    form = sx.choice('routes', forms)
    status = sx.choice('status', [200, 404])
    net, r, answer = setup(sx, form, status, ['utf-8', None, 'iso-8859-1'] if form == 'relative' else ['utf-8'])
    kw = {'collection_id': optional(sx, 'identifier', lambda: sx.str('identifier', sx.choice('length', lens), txt))}
    nav = sx.choice('direction', [None, 'children', 'parents'])
    if nav is not None:
        kw['nav'] = nav
    page = kw['page'] = optional(sx, 'page', lambda: sx.int('page', 1, 10 ** 6))
    # the first page of children is what a server gives when asked nothing else
    want = query(id=kw['collection_id'], nav='parents' if nav == 'parents' else None, page=None if page is None or page == 1 else page)
    verify(sx, net, form, 'collections', status, lambda: r.get_collection(**kw), want, answer)


def h_navigation(sx, forms, lens, txt, refs, most):
    form = sx.choice('routes', forms)
    net, r, answer = setup(sx, form, 200, ['utf-8'])
    ident = sx.str('identifier', sx.choice('length', lens), txt)
    ref, want = reference(sx, lens, txt, refs)
    level = optional(sx, 'level', lambda: sx.int('level', 0, most))
    group = optional(sx, 'group', lambda: sx.int('group', 1, most))
    max_ = optional(sx, 'maximum', lambda: sx.int('maximum', 1, most))
    exclude = optional(sx, 'exclude', lambda: sx.str('exclude', 1, txt))
    page = optional(sx, 'page', lambda: sx.int('page', 1, most))
    want = query(id=ident, level=level, groupBy=group, max=max_, exclude=exclude, page=page, **want)
    verify(sx, net, form, 'navigation', 200,
           lambda: r.get_navigation(ident, level=level, ref=ref, group_by=group, max_=max_, exclude=exclude, page=page), want, answer)


def h_document(sx, forms, lens, txt, refs):
    form = sx.choice('routes', forms)
    status = sx.choice('status', [200, 500])
    net, r, answer = setup(sx, form, status, ['utf-8', None] if form == 'relative' else [None])
    ident = sx.str('identifier', sx.choice('length', lens), txt)
    ref, want = reference(sx, lens, txt, refs)
    kw = {}
    mimetype = 'application/tei+xml, application/xml'
    if sx.bool('media type given'):
        mimetype = kw['mimetype'] = 'text/plain'
    verify(sx, net, form, 'documents', status, lambda: r.get_document(ident, ref=ref, **kw), query(id=ident, **want), answer, mimetype)


def h_entry(sx):
    """an entry document which cannot be had"""
    status = sx.choice('status', [404, 500])
    net = Net(sx, lambda call: Answer('{}', status))
    r = HttpDtsRetriever(ENDPOINT)
    op = sx.choice('operation', ['collection', 'navigation', 'document'])
    go = lambda: getattr(r, 'get_' + op)('x')
    sx.check(raises(requests.HTTPError, go) is not None and raises(requests.HTTPError, go) is not None, 'an HTTP error raises')
    sx.check(all(c.url == ENDPOINT for c in net.calls), 'nothing else is asked')


def h_history(sx, ops, steps, forms, same_host):
    """one request after the other, of two retrievers: each is sent as if it were the only one"""
    form = sx.choice('routes', forms)
    ends = [ENDPOINT, sx.choice('second endpoint', same_host)]
    bases = {e: e.partition('?')[0] for e in ends}

    def answer(call):
        if call.url in bases.values():
            return Answer({n: ('./%s/' % n if form == 'relative' else './%s?key=%s' % (n, n)) for n in ('collections', 'documents', 'navigation')})
        return Answer('body')
    net = Net(sx, answer)
    retrievers = [HttpDtsRetriever(e) for e in ends]
    for k in range(steps):
        i = sx.choice('retriever %d' % k, [0, 1])
        r, op = retrievers[i], sx.choice('operation %d' % k, ops)
        ident = sx.str('identifier %d' % k, 1, 'ab')
        kw, want, route = {}, {'id': ident}, op
        if op != 'collections':
            ref = sx.choice('reference %d' % k, [None, '1', ('2', '3')])
            kw['ref'] = ref
            want.update({} if ref is None else {'ref': ref} if isinstance(ref, str) else {'start': ref[0], 'end': ref[1]})
        if op != 'documents' and sx.bool('page given %d' % k):
            kw['page'] = want['page'] = sx.int('page %d' % k, 2, 9)
        if op == 'collections' and sx.bool('parents %d' % k):
            kw['nav'] = want['nav'] = 'parents'
        if form != 'relative':
            want['key'] = op
        {'collections': r.get_collection, 'navigation': r.get_navigation, 'documents': r.get_document}[op](ident, **kw)
        call = net.last
        sx.check(call.url == bases[ends[i]] + route + ('/' if form == 'relative' else ''), 'to the route advertised by its endpoint', got=call.url)
        sx.check(call.query == query(**want), 'exactly the parameters given, whatever was asked before', got=call.query, want=query(**want))
    sx.observe('queries', [c.query for c in net.calls])


R = Registry()
ALL = list(ROUTES)
R.add('collection', h_collection, dict(forms=ALL, lens=[0, 1, 2], txt=TXT), dict(forms=ALL, lens=[0, 1, 2, 3, 4], txt=None), 'arbitrary arguments')
R.add('navigation', h_navigation, dict(forms=['query'], lens=[1], txt=TXT, refs=FORMS, most=9), dict(forms=['query', 'relative'], lens=[1, 2], txt=None, refs=FORMS, most=20), 'arbitrary arguments')
R.add('document', h_document, dict(forms=ALL, lens=[1], txt=TXT, refs=FORMS), dict(forms=ALL, lens=[1, 2, 3], txt=None, refs=FORMS), 'arbitrary arguments')
R.add('words', h_collection, dict(forms=['relative'], lens=[3, 4, 7, 8], txt=None), dict(forms=['relative', 'query'], lens=list(range(12)), txt=None), 'identifiers of the length of words')
R.add('history', h_history, dict(ops=['collections', 'documents', 'navigation'], steps=2, forms=['relative', 'query'], same_host=['http://dts.example/other/', 'http://dts2.example/api/dts/']),
      dict(ops=['collections', 'documents', 'navigation'], steps=3, forms=['relative', 'query'], same_host=['http://dts.example/other/', 'http://dts2.example/api/dts/', 'http://dts.example/api/']), 'requests one after the other')
R.add('entry', h_entry, {}, {}, 'no entry document')
names, get, bounds = R.names, R.get, R.bounds
