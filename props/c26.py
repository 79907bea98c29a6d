"""C26 The CTS retriever sends exactly the requested query."""
import requests
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from props._http import Answer, Net, query
from props._util import Registry, raises

TXT = 'a:. &=%+?#\u00e9'
OPS = {  # operation: (request name, accepts level, accepts context)
    'getCapabilities': ('GetCapabilities', False, False), 'getValidReff': ('GetValidReff', True, False),
    'getFirstUrn': ('GetFirstUrn', False, False), 'getPrevNextUrn': ('GetPrevNextUrn', False, False),
    'getLabel': ('GetLabel', False, False), 'getPassage': ('GetPassage', False, True), 'getPassagePlus': ('GetPassagePlus', False, True)}
ENDPOINTS = ['http://cts.example/api', 'http://cts.example/api?key=1']


BODIES = ['<answer/>', '', '\ufeff\n <answer/> \r\n', '<a>\u00e9 &#233; \U0001d11e</a>\x0b']


def setup(sx, lens, txt, body='<answer/>'):
    """the endpoint, its default inventory, and a server which answers `body` or an error"""
    endpoint = sx.choice('endpoint', ENDPOINTS)
    default = sx.str('default inventory', sx.choice('length of default', lens), txt) if sx.bool('default inventory given') else None
    status = sx.int('status of the error', 400, 599) if sx.bool('an error') else sx.int('status', 200, 299)
    encoding = sx.choice('encoding', ['utf-8', None, 'iso-8859-1'])
    net = Net(sx, lambda call: Answer(body, status, encoding=encoding, truth=encoding or 'utf-8'))
    return endpoint, default, status, net, HttpCtsRetriever(endpoint, inventory=default)


def verify(sx, endpoint, status, net, go, want, body='<answer/>'):
    if 'key=1' in endpoint:
        want = sorted(want + [('key', '1')], key=lambda kv: kv[0])
    if status >= 400:
        sx.check(raises(requests.HTTPError, go) is not None, 'an HTTP error raises')
    else:
        got = go()
        sx.check(got == body, 'the body is returned as received', got=got)
    sx.check(len(net.calls) == 1, 'one request', got=len(net.calls))
    call = net.last
    sx.check(call.method == 'GET' and call.url == 'http://cts.example/api', 'to the endpoint', got=call.url)
    sx.observe('query', call.query)
    sx.check([k for k, v in call.query] == [k for k, v in want], 'exactly the parameters given', got=call.query, want=want)
    sx.check([v for k, v in call.query] == [v for k, v in want], 'with their values', got=call.query, want=want)


def h_operations(sx, ops, lens, txt):
    body = sx.choice('body', BODIES)
    endpoint, default, status, net, r = setup(sx, lens[-1:] if body != BODIES[0] else lens, txt, body)
    op = sx.choice('operation', ops)
    name, level, context = OPS[op]
    urn = sx.str('urn', sx.choice('length', lens), txt)
    as_object = sx.choice('urn given as', ['text', 'keyword'])
    args, kw = ([], {'urn': urn}) if as_object == 'keyword' or op == 'getCapabilities' else ([urn], {})
    want = {'request': name, 'urn': urn}
    if op == 'getCapabilities' and sx.bool('no urn'):
        kw = {}
        want['urn'] = None
    inv = None
    if sx.bool('inventory given'):
        inv = kw['inventory'] = sx.str('inventory', sx.choice('length of inventory', lens), txt)
    want['inv'] = inv if inv is not None else default
    if level and sx.bool('level given'):
        kw['level'] = want['level'] = sx.int('level', 0, 12)
    if context and sx.bool('context given'):
        kw['context'] = want['context'] = sx.int('context', 0, 12)
    verify(sx, endpoint, status, net, lambda: getattr(r, op)(*args, **kw), query(**want), body)


def reference(sx, lens, txt, forms, label='reference'):
    """a passage reference in some form: what is given, the text of it, its depth"""
    form = sx.choice(label, forms)
    if form == 'none':
        return None, None, 0
    depth = sx.choice('depth of ' + label, [1, 2])
    parts = [sx.str('%s %d' % (label, i), sx.choice('length of %s %d' % (label, i), lens), txt) for i in range(depth)]
    one = '.'.join(parts)
    if sx.bool('a range'):
        text = one + '-' + '.'.join(parts[:-1] + ['z'])
    else:
        text = one
    return (CtsReference(text) if form == 'object' else text), text, depth


def h_common(sx, ops, lens, txt):
    endpoint, default, status, net, r = setup(sx, [1], 'i')
    op = sx.choice('operation', ops)
    tid = 'urn:cts:ns:' + sx.str('text', sx.choice('length', lens), txt)
    given = URN(tid) if op != 'getMetadata' and sx.bool('as a URN') else tid
    if op == 'getMetadata':
        kw = {}
        if sx.bool('inventory given'):
            kw['inventory'] = 'other'
        none = sx.bool('no identifier')
        want = query(request='GetCapabilities', urn=None if none else tid, inv=kw.get('inventory', default))
        go = lambda: r.getMetadata(**kw) if none else r.getMetadata(tid, **kw)
    elif op == 'getTextualNode':
        ref, text, depth = reference(sx, [1], txt, ['none', 'text', 'object'])
        prevnext, metadata = sx.bool('prevnext'), sx.bool('metadata')
        want = query(request='GetPassagePlus' if prevnext or metadata else 'GetPassage', urn=tid + ('' if text is None else ':' + text), inv=default)
        go = lambda: r.getTextualNode(given, subreference=ref, prevnext=prevnext, metadata=metadata)
    elif op == 'getSiblings':
        ref, text, depth = reference(sx, [1], txt, ['text', 'object'])
        want = query(request='GetPrevNextUrn', urn=tid + ':' + text, inv=default)
        go = lambda: r.getSiblings(given, ref)
    else:
        ref, text, depth = reference(sx, [1], txt, ['none', 'text', 'object'])
        level = sx.int('level', 1, 9)
        want = query(request='GetValidReff', urn=tid + ('' if text is None else ':' + text), level=level + depth, inv=default)
        go = lambda: r.getReffs(given, level=level, subreference=ref)
    verify(sx, endpoint, status, net, go, want)


def h_history(sx, ops, steps, txt):
    """one query after the other, of two retrievers: each is sent as if it were the only one"""
    net = Net(sx, lambda call: Answer('<answer/>'))
    defaults = [sx.choice('default of %d' % i, [None, 'i', 'j']) for i in range(2)]
    retrievers = [HttpCtsRetriever('http://cts.example/api%d' % (i if sx.bool('endpoints differ') else 0) if i else 'http://cts.example/api0', inventory=defaults[i]) for i in range(2)]
    for k in range(steps):
        i = sx.choice('retriever %d' % k, [0, 1])
        r = retrievers[i]
        op = sx.choice('operation %d' % k, ops)
        urn = 'urn:' + sx.str('urn %d' % k, 1, txt)
        kw, want = {}, {'urn': urn}
        if op in OPS and sx.bool('inventory given %d' % k):
            kw['inventory'] = sx.choice('inventory %d' % k, ['i', 'k'])
        want['inv'] = kw.get('inventory', defaults[i])
        want['request'] = OPS[op][0] if op in OPS else 'GetPassage' if op == 'getTextualNode' else 'GetPrevNextUrn'
        if op == 'getValidReff' and sx.bool('level given %d' % k):
            kw['level'] = want['level'] = sx.int('level %d' % k, 0, 9)
        if op == 'getSiblings':
            ref = sx.str('reference %d' % k, 1, txt)
            want['urn'] = urn + ':' + ref
            got = r.getSiblings(urn, ref)
        else:
            got = getattr(r, op)(urn, **kw) if op != 'getCapabilities' else r.getCapabilities(urn=urn, **kw)
        sx.check(got == '<answer/>' and len(net.calls) == k + 1, 'one request each', got=len(net.calls))
        sx.check(net.last.method == 'GET' and net.last.url == r.endpoint, 'to its endpoint', got=net.last.url)
        sx.check(net.last.query == query(**want), 'exactly the parameters given, whatever was asked before', got=net.last.query, want=query(**want))
    sx.observe('queries', [c.query for c in net.calls])


INV = ('<ti:TextInventory xmlns:ti="http://chs.harvard.edu/xmlns/cts"><ti:textgroup urn="urn:cts:ns:g" projid="ns:g"><ti:groupname xml:lang="eng">G</ti:groupname>'
       '<ti:work urn="urn:cts:ns:g.w" groupUrn="urn:cts:ns:g" xml:lang="lat"><ti:title xml:lang="eng">W</ti:title>'
       '<ti:edition urn="urn:cts:ns:g.w.v" workUrn="urn:cts:ns:g.w"><ti:label xml:lang="eng">V</ti:label></ti:edition></ti:work></ti:textgroup></ti:TextInventory>')


def h_metadata(sx):
    endpoint, default, status, net, r = setup(sx, [1], 'i', INV)
    res = HttpCtsResolver(r)
    ident = sx.choice('identifier', [None, 'urn:cts:ns:g', 'urn:cts:ns:g.w', 'urn:cts:ns:g.w.v'])
    kw = {'inventory': 'other'} if sx.bool('inventory given') else {}

    def go():
        got = res.getMetadata(ident, **kw) if ident is not None else res.getMetadata(**kw)
        if ident is not None:
            sx.check(got.id == ident, 'the collection asked for', got=got.id)
        sx.check(len(got.readableDescendants) == (0 if ident == 'urn:cts:ns:g.w.v' else 1), 'with its texts')
        return INV
    verify(sx, endpoint, status, net, go, query(request='GetCapabilities', urn=ident, inv=kw.get('inventory', default)), INV)


R = Registry()
R.add('operations', h_operations, dict(ops=list(OPS), lens=[0, 1, 2], txt=TXT), dict(ops=list(OPS), lens=[0, 1, 2], txt=None), 'arbitrary arguments')
R.add('common', h_common, dict(ops=['getMetadata', 'getTextualNode', 'getSiblings', 'getReffs'], lens=[1, 2], txt='aB1'),
      dict(ops=['getMetadata', 'getTextualNode', 'getSiblings', 'getReffs'], lens=[1, 2, 3], txt='aB12\u00e9_'), 'operations common to all retrievers')
R.add('history', h_history, dict(ops=['getCapabilities', 'getValidReff', 'getPassage', 'getTextualNode', 'getSiblings'], steps=2, txt='ab'),
      dict(ops=['getCapabilities', 'getValidReff', 'getLabel', 'getTextualNode', 'getSiblings'], steps=3, txt='ab'), 'queries one after the other')
R.add('metadata', h_metadata, {}, {}, 'HttpCtsResolver.getMetadata')
names, get, bounds = R.names, R.get, R.bounds
