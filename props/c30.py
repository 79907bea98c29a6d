"""C30 Remote CTS passages ask for, and report, the right passage."""
from rdflib.namespace import DC
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resources.texts.remote.cts import CtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from props._http import Answer, Net, query
from props._util import Registry

CTS = RDF_NAMESPACES.CTS
TIDS = ['urn:cts:ns:g.w.v', 'urn:cts:latinLit:phi1294.phi002.perseus-lat2', 'urn:cts:ns:g.w']
NOW = {'text': TIDS[0], 'answers': TIDS[0]}      # the text asked, and what the answers call it
NS = 'xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:tei="http://www.tei-c.org/ns/1.0"'
CITATION = '<ti:citation label="book" xpath="/tei:div[@n=\'?\']" scope="/tei:TEI"><ti:citation label="line" xpath="/tei:l[@n=\'?\']" scope="/tei:TEI/tei:div[@n=\'?\']"/></ti:citation>'


def urn_of(ref):
    return NOW['text'] if ref is None else NOW['text'] + ':' + ref


class Server:
    """answers of a CTS service about one text"""

    def __init__(self, sx):
        self.next = self.prev = None        # None: the element is empty
        self.first = None
        self.reffs = []
        self.plus = True                    # the answer to GetPassagePlus says which the siblings are
        self.labels = ''
        self.citation = 'none'
        self.net = Net(sx, self.answer)

    def answer(self, call):
        name, urn = call.get('request'), call.get('urn')
        # The request is repeated, which is no part of the answer
        req, rep = '<ti:requestName>%s</ti:requestName>' % name + ('' if urn is None else '<ti:requestUrn>' + urn + '</ti:requestUrn><ti:urn>' + urn + '</ti:urn>'), ''
        if name in ('GetPassage', 'GetValidReff'):
            req += self.labels + (CITATION if self.citation != 'none' else '')
        if name in ('GetLabel', 'GetPassagePlus'):
            rep += '<ti:urn>' + urn + '</ti:urn><ti:label>' + self.labels + (CITATION if self.citation != 'none' else '') + '</ti:label>'
        if name in ('GetPassage', 'GetPassagePlus'):
            rep += '<ti:passage><tei:TEI><tei:text>text of ' + urn + '</tei:text></tei:TEI></ti:passage>'
        if name == 'GetPrevNextUrn' or (name == 'GetPassagePlus' and self.plus):
            rep += '<ti:prevnext>' + self.element('prev', self.prev) + self.element('next', self.next) + '</ti:prevnext>'
        if name == 'GetFirstUrn':
            rep += self.urn(self.first)
        if name == 'GetValidReff':
            rep += '<ti:reff level="%s">' % call.get('level') + ''.join([self.urn(r) for r in self.reffs]) + '</ti:reff>'
        return Answer('<ti:%s %s><ti:request>' % (name, NS) + req + '</ti:request><ti:reply>' + rep + '</ti:reply></ti:%s>' % name)

    def urn(self, ref):
        return '<ti:urn/>' if ref is None else '<ti:urn>' + NOW['answers'] + ':' + ref + '</ti:urn>'

    def element(self, tag, ref):
        return '<ti:%s>' % tag + ('' if ref is None else self.urn(ref)) + '</ti:%s>' % tag


def naming(sx, tids=TIDS[:1]):
    """which text is asked, and by which name the service calls it"""
    NOW['text'] = NOW['answers'] = sx.choice('text', tids)
    if len(tids) > 1 and sx.bool('answers name an edition'):
        NOW['answers'] = NOW['text'].rsplit('.', 1)[0] + '.other-ed1'


def symref(sx, label, depths, lens, txt, ranges):
    """a reference: its text, that of its parent (None at the top), its depth"""
    depth = sx.choice('depth of ' + label, depths)
    if depth == 0:
        return None, None, 0
    parts = [sx.str('%s %d' % (label, i), sx.choice('length of %s %d' % (label, i), lens), txt) for i in range(depth)]
    one, up = '.'.join(parts), '.'.join(parts[:-1])
    kind = sx.choice('a range of ' + label, ranges)
    if kind == 'beside':
        return one + '-' + '.'.join(parts[:-1] + ['z']), (up if depth > 1 else None), depth
    if kind == 'across' and depth > 1:
        return one + '-' + '.'.join(parts[:-2] + ['z', '1']), up + '-' + '.'.join(parts[:-2] + ['z']), depth
    return one, (up if depth > 1 else None), depth


def start(sx, server, origin, own):
    """a text, or a passage of it, at `own` or at the text as a whole"""
    text = CtsText(urn=NOW['text'] if origin != 'text at a passage' else urn_of(own), retriever=HttpCtsRetriever('http://cts.example/api'))
    if origin == 'passage':
        return text.getTextualNode(own)
    if origin == 'passage with context':
        return text.getPassagePlus(own)
    return text


def told(sx, call, want, what, **more):
    sx.check(call.method == 'GET' and call.url == 'http://cts.example/api', 'to the endpoint')
    sx.check(call.query == query(**want), what, got=call.query, want=query(**want), **more)


def is_passage(sx, p, ref):
    sx.check(str(p.urn) == urn_of(ref), 'the passage obtained is the one asked for', got=str(p.urn), want=urn_of(ref))
    sx.check((None if p.reference is None else str(p.reference)) == ref, 'and so is its reference')
    if ref is not None:
        sx.check(p.id == ref, 'its identifier')
    sx.check(p.export() == 'text of ' + urn_of(ref), 'with its text', got=p.export())


FORMS = {'getTextualNode': ['none', 'text', 'object', 'urn', 'urn text', 'list'], 'getPassagePlus': ['none', 'text', 'object', 'list'],
         'getValidReff': ['none', 'text', 'object'], 'getReffs': ['none', 'text', 'object'],
         'getPrevNextUrn': ['text', 'object'], 'getFirstUrn': ['none', 'text', 'object', 'urn text']}
NAMES = {'getTextualNode': 'GetPassage', 'getPassagePlus': 'GetPassagePlus', 'getValidReff': 'GetValidReff', 'getReffs': 'GetValidReff',
         'getPrevNextUrn': 'GetPrevNextUrn', 'getFirstUrn': 'GetFirstUrn'}


def h_asked(sx, origins, owns, depths, lens, txt, ranges, ops, tids=TIDS[:1]):
    set_graph(bind_graph())
    naming(sx, tids)
    server = Server(sx)
    server.prev, server.next, server.first = '7', '9', '1.1'
    server.reffs = ['1', '2']
    origin = sx.choice('from', origins)
    own, _, own_depth = symref(sx, 'own', owns, [1], 'xy', ranges[:1]) if origin != 'text' else (None, None, 0)
    o = start(sx, server, origin, own)
    op = sx.choice('operation', ops)
    form = sx.choice('given as', FORMS[op])
    level = {}
    if form == 'none':
        args, ref = [], own
    else:
        ref, _, _ = symref(sx, 'asked', depths, lens, txt, ranges if form != 'list' else ranges[:1])
        args = [ref]
        if form == 'object':
            args = [CtsReference(ref)]
        elif form == 'urn':
            args = [URN(urn_of(ref))]
        elif form == 'urn text':
            args = [urn_of(ref)]
        elif form == 'list':
            args = [ref.split('.')]
    before = len(server.net.calls)
    if op in ('getValidReff', 'getReffs'):
        level = {'level': sx.int('level', 1, 9)}
        got = getattr(o, op)(level['level'], *args)
        if op == 'getReffs' and own is not None:
            level['level'] = level['level'] + own_depth
    else:
        got = getattr(o, op)(*args)
    sx.check(len(server.net.calls) == before + 1, 'one request')
    sx.observe('query', server.net.last.query)
    told(sx, server.net.last, dict(request=NAMES[op], urn=urn_of(ref), **level), 'the URN of the text with the passage asked for', operation=op)
    if op in ('getTextualNode', 'getPassagePlus'):
        is_passage(sx, got, ref)
    else:
        want = {'getPrevNextUrn': ('7', '9'), 'getFirstUrn': '1.1'}.get(op, ['1', '2'])
        sx.check(got == want, 'the answer of the service', got=got, want=want)


def h_neighbours(sx, depths, lens, txt, ranges, origins, counts, tids=TIDS[:1]):
    """what a passage knows of its surroundings, asked twice"""
    set_graph(bind_graph())
    naming(sx, tids)
    server = Server(sx)
    ref, parent, depth = symref(sx, 'own', depths, lens, txt, ranges)
    server.plus = sx.bool('siblings in the passage')
    origin = sx.choice('from', origins)
    topic = sx.choice('about', ['siblings', 'parent', 'first', 'children'])
    if ref is None:
        below = ''
    else:
        below = ref + '.'
    if topic == 'siblings':
        server.prev = sx.str('prev', 1, txt) if sx.bool('has a previous one') else None
        server.next = sx.str('next', 1, txt) if sx.bool('has a next one') else None
    elif topic == 'first':
        server.first = below + sx.str('first', 1, txt) if sx.bool('has a first one') else None
    elif topic == 'children':
        server.reffs = [below + sx.str('child %d' % i, 1, txt) for i in range(sx.choice('children', counts))]
    p = start(sx, server, origin, ref)
    is_passage(sx, p, ref)
    sx.check(p.depth == (depth or None), 'depth', got=p.depth)
    known = origin == 'passage with context' and server.plus

    def asks(step, do, **want):
        n = len(server.net.calls)
        got = do()
        if not want:
            sx.check(len(server.net.calls) == n, 'no request is needed', step=step)
        else:
            sx.check(len(server.net.calls) == n + 1, 'one request', step=step)
            told(sx, server.net.last, want, 'the URN of the passage', step=step)
        return got

    def reached(what, do, ref):
        """the neighbouring passage"""
        if ref is None:
            sx.check(asks(what, do) is None, 'no such passage')
        else:
            is_passage(sx, asks(what, do, request='GetPassage', urn=urn_of(ref)), ref)

    if topic == 'siblings':
        told_by = {} if known else dict(request='GetPrevNextUrn', urn=urn_of(ref))
        attr = sx.choice('first asked', ['prevId', 'nextId', 'siblingsId'])
        asks('siblings', lambda: getattr(p, attr), **told_by)
        got = asks('siblings again', lambda: (p.prevId, p.nextId, p.siblingsId))
        want = (server.prev, server.next, (server.prev, server.next))
        sx.check(got == want, 'previous and next', got=got, want=want)
        sx.observe('siblings', got)
        reached('prev', lambda: p.prev, server.prev)
        reached('next', lambda: p.next, server.next)
    elif topic == 'parent':
        sx.check(asks('parent', lambda: p.parentId) == parent, 'parent', got=p.parentId, want=parent)
        reached('parent passage', lambda: p.parent, parent)
    elif topic == 'first':
        got = asks('first', lambda: p.firstId, request='GetFirstUrn', urn=urn_of(ref))
        sx.check(got == server.first, 'first child', got=got)
        sx.check(asks('first again', lambda: p.firstId) == got, 'first child')
        reached('first passage', lambda: p.first, server.first)
    else:
        got = asks('children', lambda: p.childIds, request='GetValidReff', urn=urn_of(ref), level=depth + 1)
        sx.check([str(x) for x in got] == server.reffs, 'children', got=got, want=server.reffs)
        last = server.reffs[-1] if server.reffs else None
        sx.check(asks('last', lambda: p.lastId) == last, 'last child')
        reached('last passage', lambda: p.last, last)
        n = len(server.net.calls)
        got = list(p.children)
        sx.check(len(got) == len(server.reffs) and len(server.net.calls) == n + len(got), 'every child is fetched once')
        for c, r in zip(got, server.reffs):
            is_passage(sx, c, r)


def h_labels(sx, lens, txt, langs, ops, tags):
    """titles and labels, in their languages"""
    set_graph(bind_graph())
    naming(sx)
    server = Server(sx)
    server.citation = sx.choice('citation', ['none', 'given'])
    want = []
    for tag, dc in (('groupname', DC.creator), ('title', DC.title), ('label', DC.subject), ('description', DC.description)):
        for i in range(sx.choice('number of ' + tag, tags)):
            lang = sx.choice('language of %s %d' % (tag, i), langs)
            value = '%s%d ' % (tag, i) + sx.str('%s %d' % (tag, i), sx.choice('length of %s %d' % (tag, i), lens), txt) + '.'
            server.labels += '<ti:%s' % tag + ('' if lang is None else ' xml:lang="%s"' % lang) + '>' + value + '</ti:%s>' % tag
            want += [(str(CTS.term(tag)), value, lang or 'eng'), (str(dc), value, lang or 'eng')]
    text = CtsText(urn=NOW['text'], retriever=HttpCtsRetriever('http://cts.example/api'))
    op = sx.choice('operation', ops)
    o = text
    if op == 'getPassagePlus':
        o = text.getPassagePlus('1.1')
    elif op == 'getLabel':
        sx.check(text.getLabel() is text.metadata, 'the metadata of the text')
    elif op == 'getTextualNode':
        text.getTextualNode('1.1')
    else:
        text.getValidReff()
    got = sorted((str(p), str(v), v.language) for p, v in o.metadata.graph.predicate_objects(o.asNode()) if getattr(v, 'language', None) is not None)
    sx.check(got == sorted(want), 'labels and titles of the answer in their languages', got=got, want=sorted(want))
    sx.observe('labels', got)
    if server.citation == 'given':
        sx.check([c.name for c in text.citation] == ['book', 'line'], 'the citation scheme of the answer')
        sx.check(len(text.citation) == 2, 'its depth')
    else:
        sx.check(not text.citation.is_set(), 'no citation scheme')


def h_all(sx, counts, txt):
    """every reference of a text of two levels"""
    set_graph(bind_graph())
    naming(sx)
    server = Server(sx)
    server.citation = 'given'
    text = CtsText(urn=NOW['text'], retriever=HttpCtsRetriever('http://cts.example/api'))
    server.reffs = [sx.str('reference %d' % i, 1, txt) for i in range(sx.choice('references', counts))]
    if sx.bool('label known'):
        text.getLabel()
    got = text.reffs
    sx.check(got == server.reffs * 2, 'the references of each level', got=got)
    asked = [c.query for c in server.net.calls if c.get('request') == 'GetValidReff']
    sx.check(asked == [query(request='GetValidReff', urn=NOW['text'], level=i) for i in (1, 2)], 'asked level by level', got=asked)
    got = text.getValidReff(-1)
    told(sx, server.net.last, dict(request='GetValidReff', urn=NOW['text'], level=2), 'the deepest level')


def h_resolver(sx, tids, depths, lens, txt, ranges, ops):
    """the same through the resolver"""
    set_graph(bind_graph())
    naming(sx, tids)
    server = Server(sx)
    server.prev, server.next, server.reffs = sx.choice('prev', ['7', None]), sx.choice('next', ['9', None]), ['1', '2.1']
    resolver = HttpCtsResolver(HttpCtsRetriever('http://cts.example/api', inventory=sx.choice('inventory', [None, 'inv'])))
    inv = resolver.endpoint.inventory
    op = sx.choice('operation', ops)
    ref, _, depth = symref(sx, 'asked', depths, lens, txt, ranges)
    whole = sx.bool('asked by its whole URN')
    args = [urn_of(ref) if whole else NOW['text']]
    sub = None
    if not whole and ref is not None:
        sub = CtsReference(ref) if sx.bool('as a reference') else ref
    if op == 'getTextualNode':
        prevnext, metadata = sx.bool('prevnext'), sx.bool('metadata')
        kw = {'subreference': sub} if sub is not None else {}
        got = resolver.getTextualNode(*args, prevnext=prevnext, metadata=metadata, **kw)
        told(sx, server.net.last, dict(request='GetPassagePlus' if prevnext or metadata else 'GetPassage', urn=urn_of(ref), inv=inv), 'the passage asked for')
        is_passage(sx, got, ref)
    elif op == 'getSiblings':
        sx.assume(ref is not None)
        got = resolver.getSiblings(*args, sub) if sub is not None else resolver.getSiblings(NOW['text'], urn_of(ref))
        told(sx, server.net.last, dict(request='GetPrevNextUrn', urn=urn_of(ref), inv=inv), 'the passage asked for')
        sx.check(got == (server.prev, server.next), 'previous and next', got=got)
    else:
        level = sx.int('level', 1, 9)
        kw = {'subreference': sub} if sub is not None else {}
        got = resolver.getReffs(*args, level=level, **kw)
        call = server.net.last
        sx.check(call.get('request') == 'GetValidReff' and call.get('urn') == urn_of(ref) and call.get('inv') == inv, 'the passage asked for', got=call.query)
        if sub is None:
            told(sx, call, dict(request='GetValidReff', urn=urn_of(ref), level=level + (depth if whole else 0), inv=inv), 'at the level below it')
        sx.check(got == ['1', '2.1'], 'references of the answer', got=got)
    sx.check(len(server.net.calls) == 1, 'one request')
    sx.observe('query', server.net.last.query)


def h_history(sx, steps, txt, ops):
    """two texts of one retriever: neither disturbs the other"""
    set_graph(bind_graph())
    naming(sx)
    server = Server(sx)
    r = HttpCtsRetriever('http://cts.example/api')
    refs = [sx.str('reference %d' % i, 1, txt) for i in range(2)]
    held = [CtsText(urn=TIDS[0], retriever=r), CtsText(urn=TIDS[1], retriever=r)]
    for k in range(steps):
        i = sx.choice('text %d' % k, [0, 1])
        op = sx.choice('operation %d' % k, ops)
        NOW['text'] = NOW['answers'] = TIDS[i]
        ref = refs[sx.choice('which %d' % k, [0, 1])]
        server.next, server.prev = ref + '9', None
        server.reffs = [ref + 'x']
        if op == 'passage':
            p = held[i].getTextualNode(ref)
            is_passage(sx, p, ref)
            sx.check(p.siblingsId == (None, ref + '9'), 'its siblings', got=p.siblingsId)
            told(sx, server.net.last, dict(request='GetPrevNextUrn', urn=urn_of(ref)), 'asked for this passage')
            sx.check(list(p.childIds) == [ref + 'x'], 'its children', got=p.childIds)
            told(sx, server.net.last, dict(request='GetValidReff', urn=urn_of(ref), level=2), 'asked for this passage')
        elif op == 'plus':
            p = held[i].getPassagePlus(ref)
            is_passage(sx, p, ref)
            sx.check(p.siblingsId == (None, ref + '9'), 'its siblings', got=p.siblingsId)
        elif op == 'export':
            got = held[i].export(Mimetypes.PLAINTEXT)
            told(sx, server.net.last, dict(request='GetPassage', urn=urn_of(None)), 'a text is exported as a whole')
            sx.check(got == 'text of ' + TIDS[i], 'its text', got=got)
        elif op == 'reffs':
            sx.check(held[i].getValidReff(1, ref) == [ref + 'x'], 'references')
            told(sx, server.net.last, dict(request='GetValidReff', urn=urn_of(ref), level=1), 'asked for this passage')
        else:
            sx.check(held[i].getPrevNextUrn(ref) == (None, ref + '9'), 'siblings')
            told(sx, server.net.last, dict(request='GetPrevNextUrn', urn=urn_of(ref)), 'asked for this passage')
    sx.observe('queries', [c.query for c in server.net.calls])


R = Registry()
ORIGINS = ['text', 'text at a passage', 'passage', 'passage with context']
OPS = list(FORMS)
R.add('asked', h_asked, dict(origins=ORIGINS, owns=[1, 2], depths=[1, 2], lens=[1], txt='ab1', ranges=['single', 'beside'], ops=OPS),
      dict(origins=ORIGINS, owns=[1, 2, 3], depths=[1, 2, 3], lens=[1, 2], txt='abAB12', ranges=['single', 'beside', 'across'], ops=OPS), 'any request')
R.add('neighbours', h_neighbours, dict(depths=[0, 1, 2], lens=[1], txt='ab1', ranges=['single', 'beside', 'across'], origins=ORIGINS[2:], counts=[0, 1, 2]),
      dict(depths=[0, 1, 2, 3], lens=[1, 2], txt='abAB12', ranges=['single', 'beside', 'across'], origins=ORIGINS[2:], counts=[0, 1, 2, 3]), 'surroundings of a passage')
R.add('labels', h_labels, dict(lens=[0, 1], txt='a ', langs=[None, 'eng', 'en'], ops=['getLabel', 'getPassagePlus', 'getTextualNode', 'getValidReff'], tags=[0, 1]),
      dict(lens=[1], txt='a \u00e9', langs=[None, 'eng', 'en'], ops=['getLabel', 'getPassagePlus', 'getTextualNode', 'getValidReff'], tags=[0, 2]), 'labels')
R.add('names', h_asked, dict(origins=ORIGINS, owns=[1], depths=[1, 2], lens=[1], txt='ab1', ranges=['single', 'beside'], ops=['getTextualNode', 'getReffs', 'getPrevNextUrn'], tids=TIDS),
      dict(origins=ORIGINS, owns=[1, 2], depths=[1, 2], lens=[1], txt='ab1', ranges=['single', 'beside'], ops=OPS, tids=TIDS), 'texts of any name')
R.add('named', h_neighbours, dict(depths=[1], lens=[1], txt='ab1', ranges=['single'], origins=ORIGINS[2:], counts=[1, 2], tids=TIDS),
      dict(depths=[0, 1, 2], lens=[1], txt='ab1', ranges=['single', 'beside'], origins=ORIGINS[2:], counts=[1, 2], tids=TIDS), 'passages of texts of any name')
R.add('resolver', h_resolver, dict(tids=TIDS[:2], depths=[0, 1, 2], lens=[1], txt='ab1', ranges=['single', 'beside'], ops=['getTextualNode', 'getSiblings', 'getReffs']),
      dict(tids=TIDS, depths=[0, 1, 2, 3], lens=[1], txt='ab1', ranges=['single', 'beside', 'across'], ops=['getTextualNode', 'getSiblings', 'getReffs']), 'through the resolver')
R.add('history', h_history, dict(steps=2, txt='ab', ops=['passage', 'plus', 'reffs', 'siblings', 'export']), dict(steps=3, txt='ab', ops=['passage', 'plus', 'reffs', 'siblings', 'export']), 'two texts')
R.add('repeated', h_labels, dict(lens=[0], txt='a', langs=[None, 'eng', 'en'], ops=['getLabel', 'getPassagePlus'], tags=[2, 0]),
      dict(lens=[0, 1], txt='a', langs=['eng', 'en'], ops=['getLabel', 'getPassagePlus', 'getTextualNode', 'getValidReff'], tags=[0, 2]), 'several labels')
R.add('all', h_all, dict(counts=[0, 1, 2], txt='ab'), dict(counts=[0, 1, 2, 3], txt='abc1'), 'every reference')
names, get, bounds = R.names, R.get, R.bounds
