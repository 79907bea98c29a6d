"""C33 Extracting a subgraph keeps exactly what was asked."""
from rdflib import BNode, Graph, Literal, URIRef
from MyCapytain.common.constants import GRAPH_BINDINGS, Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.utils import Subgraph
from MyCapytain.resources.prototypes.metadata import Collection
from props._util import Registry

PREDICATES = [URIRef('p:one'), URIRef('p:two')]


def key(node):
    return (type(node).__name__, str(node))


def rows(graph):
    return sorted((key(s), str(p), key(o)) for s, p, o in graph)


def distances(start, edges):
    """steps from start, for the nodes which can be reached"""
    out = [(start, 0)]
    for node, d in out:
        for a, b in edges:
            if a == node and not any(b == n for n, _ in out):
                out.append((b, d + 1))
    return out


def distance(dist, node):
    for n, d in dist:
        if n == node:
            return d
    return None


def expected(triples, target, up, down):
    """triples within the limits; those about anonymous nodes which would not be described are left out"""
    below = distances(target, [(s, o) for s, p, o in triples])
    above = distances(target, [(o, s) for s, p, o in triples])
    out = []
    for t in triples:
        d, u = distance(below, t[0]), distance(above, t[2])
        keep = d is not None and (down < 0 or d < down)
        if keep and isinstance(t[2], BNode) and down >= 0 and d == down - 1:
            keep = False
        if not keep:
            keep = u is not None and (up < 0 or u < up)
        if keep and not any(t == x for x in out):
            out.append(t)
    return out


def world(sx, n, names, kinds, chain=''):
    """n triples between nodes with arbitrary names"""
    graph, triples = Graph(), []
    first = chain and sx.bool('the chain first')
    for i in range(n):
        s = URIRef('n:' + sx.str('subject %d' % i, 1, names))
        kind = sx.choice('kind %d' % i, kinds)
        text = 'n:' + sx.str('object %d' % i, 1, names)
        o = {'uri': URIRef, 'literal': Literal, 'anonymous': BNode}[kind](text)
        if kinds[-1] == 'anonymous' and i > 0 and sx.bool('about the anonymous %d' % i):
            s = BNode(str(s))
        t = (s, PREDICATES[sx.choice('predicate %d' % i, [0, 1]) if i == 1 else 0], o)
        triples.append(t)
    links = [(URIRef('n:' + x), PREDICATES[0], URIRef('n:' + y)) for x, y in zip(chain, chain[1:])]
    triples = links + triples if first else triples + links
    for t in triples:
        graph.add(t)
    return graph, triples


def h_extract(sx, n, names, kinds, ups, downs, calls=1, chain=''):
    graph, triples = world(sx, sx.choice('triples', n), names, kinds, chain)
    before = rows(graph)
    sub = Subgraph(GRAPH_BINDINGS)
    want = []
    for i in range(calls):
        target = URIRef('n:' + ('a' if i == 0 else sx.str('target %d' % i, 1, names)))
        up, down = sx.choice('up %d' % i, ups), sx.choice('down %d' % i, downs)
        sub.graphiter(graph, target, ascendants=up, descendants=down)
        want += [t for t in expected(triples, target, up, down) if not any(t == x for x in want)]
    got = rows(sub.graph)
    sx.observe('subgraph', got)
    sx.check(got == rows(want), 'exactly the triples within the limits, once', got=got, want=rows(want))
    sx.check(rows(graph) == before, 'the source is unchanged')


def h_default(sx, n, names):
    graph, triples = world(sx, n, names, ['uri'])
    sub = Subgraph(GRAPH_BINDINGS)
    sub.graphiter(graph, URIRef('n:a'))
    sx.check(rows(sub.graph) == rows([t for t in expected(triples, URIRef('n:a'), 0, 1)]), 'by default what is said of the node itself')


def h_long(sx, lengths):
    """a long chain, closed or not"""
    n = sx.choice('length', lengths)
    graph = Graph()
    triples = [(URIRef('n:%d' % i), PREDICATES[0], URIRef('n:%d' % (i + 1))) for i in range(n)]
    if sx.bool('closed'):
        triples.append((URIRef('n:%d' % n), PREDICATES[0], URIRef('n:0')))
    for t in triples:
        graph.add(t)
    sub = Subgraph(GRAPH_BINDINGS)
    if sx.bool('upwards'):
        sub.graphiter(graph, URIRef('n:%d' % n), ascendants=-1, descendants=0)
    else:
        sub.graphiter(graph, URIRef('n:0'), ascendants=0, descendants=-1)
    sx.check(rows(sub.graph) == rows(triples), 'all of them')


def h_collection(sx, n, kinds, txt, fmts, linked, chain=5):
    """what the RDF exports of a collection hand to the serialiser: all that is connected to it from above, and its children's links"""
    set_graph(bind_graph())
    items, parents = [], []
    for i in range(n):
        c = Collection('urn:' + 'abcd'[i])
        k = sx.choice('parent of %d' % i, [None] + list(range(i)))
        parents.append(k)
        if k is not None:
            c.parent = items[k]
        c.set_label(sx.str('label %d' % i, 1, txt), 'eng')
        if i in linked and sx.bool('link of %d' % i):
            c.metadata.add(RDF_NAMESPACES.DTS.term('see'), {'uri': URIRef, 'literal': Literal}[sx.choice('kind of link %d' % i, kinds)]('urn:' + sx.str('link %d' % i, 1, 'abcd')))
        items.append(c)
    if sx.bool('a long chain'):
        # What a collection links to may link to more, however far, and back
        previous = items[sx.choice('chain from', [0, n - 1])].asNode()
        for i in range(chain):
            node = URIRef('urn:x%d' % i)
            get_graph().add((previous, PREDICATES[i % 2], node))
            previous = node
        get_graph().add((previous, PREDICATES[0], items[0].asNode() if sx.bool('closed') else Literal('end')))
    caught = []

    def serialize(self, destination=None, format='turtle', **k):
        caught.append((format, rows(self)))
        return 'serialised'
    sx.patch(Graph, 'serialize', serialize)
    before = rows(get_graph())
    all_ = list(get_graph())
    k = sx.choice('exported', list(range(n)))
    fmt = sx.choice('format', fmts)
    out = items[k].export(fmt)
    sx.check(out == 'serialised' and len(caught) == 1 and caught[0][0] == {Mimetypes.JSON.LD: 'json-ld', Mimetypes.XML.RDF: 'xml'}[fmt], 'one serialisation', got=[c[0] for c in caught])
    want = rows(expected(all_, items[k].asNode(), 1, -1))
    sx.check(caught[0][1] == want, 'what is connected to the collection', got=caught[0][1], want=want)
    own = [r for r in caught[0][1] if r[0] == key(items[k].asNode())]
    sx.check(own == [r for r in before if r[0] == key(items[k].asNode())], 'all that is said of it')
    for i in range(n):
        if parents[i] == k:
            sx.check(any(r[0] == key(items[i].asNode()) and r[2] == key(items[k].asNode()) for r in caught[0][1]), 'its children')
    sx.check(rows(get_graph()) == before, 'the graph is unchanged')


R = Registry()
LIM = [0, 1, 2, 3, -1]
R.add('extract', h_extract, dict(n=[1, 2, 3], names='abc', kinds=['uri'], ups=[0, 1, 2, -1], downs=[0, 1, 2, 3, -1]),
      dict(n=[1, 2, 3, 4], names='abcd', kinds=['uri'], ups=[0, 1, 2, -1], downs=[0, 1, 2, 3, -1]), 'URIs only')
R.add('deep', h_extract, dict(n=[2], names='abcde', kinds=['uri'], ups=[0], downs=[2, 3, 4], chain='abcde'),
      dict(n=[2, 3], names='abcdef', kinds=['uri'], ups=[0], downs=[2, 3, 4, 5], chain='abcdef'), 'shared descendants')
R.add('values', h_extract, dict(n=[2, 3], names='ab', kinds=['uri', 'literal'], ups=[0, 1, -1], downs=[1, 2, -1]),
      dict(n=[2, 3], names='abc', kinds=['uri', 'literal'], ups=[0, 1, -1], downs=[1, 2, 3, -1]), 'literals which read like nodes')
R.add('anonymous', h_extract, dict(n=[1, 2, 3], names='ab', kinds=['uri', 'anonymous'], ups=[0], downs=LIM),
      dict(n=[1, 2, 3], names='abc', kinds=['uri', 'literal', 'anonymous'], ups=[0], downs=LIM), 'anonymous nodes')
R.add('several', h_extract, dict(n=[2], names='abc', kinds=['uri'], ups=[0, 1], downs=[0, 1, -1], calls=2),
      dict(n=[2, 3], names='abc', kinds=['uri'], ups=[0, 1, -1], downs=[0, 1, 2, -1], calls=2), 'around several nodes')
R.add('default', h_default, dict(n=2, names='abc'), dict(n=3, names='abcd'), 'default limits')
R.add('long', h_long, dict(lengths=[30]), dict(lengths=[2, 30, 60]), 'long chains')
R.add('collection', h_collection, dict(n=3, kinds=['uri', 'literal'], linked=[0, 2], txt='ab', fmts=[Mimetypes.JSON.LD, Mimetypes.XML.RDF]),
      dict(n=4, kinds=['uri', 'literal'], linked=[0, 2], txt='ab', fmts=[Mimetypes.JSON.LD, Mimetypes.XML.RDF]), 'exports of collections')
names, get, bounds = R.names, R.get, R.bounds
