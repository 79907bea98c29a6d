"""C36 Objects keep to the graph they were created in."""
from lxml import etree
from rdflib import BNode, Graph, Literal, URIRef
from rdflib.namespace import DC
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import Citation
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsText
from MyCapytain.resources.collections.cts import (
    XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata)
from props._util import Registry
from props.c17 import row_of
from props.texts import snap

G = 'urn:cts:n:g'
A, B, M = 'http://a.org/', 'http://b.org/', 'http://my.org/'
KEYS = {'title': DC.title, 'a': URIRef(A + 'p'), 'b': URIRef(B + 'p'), 'my': URIRef(M + 'p')}
# prefixes users bind: the same prefix for two namespaces, two prefixes for one
BINDINGS = {'none': {}, 'a': {'my': M, 'one': A}, 'b': {'my': B, 'other': M}}


def world(bindings):
    g = bind_graph()
    for p, ns in BINDINGS[bindings].items():
        g.bind(p, ns)
    return g


def make(kind, label, members):
    """the object, in the current graph"""
    if kind == 'metadata':
        m = Metadata(node=URIRef(G))
        m.add(DC.creator, label, 'eng')
        return m
    if kind == 'text':
        t = PrototypeCtsText(urn=G + '.w.t', citation=Citation(name='line', refsDecl="/a[@n='$1']"))
        t.set_title(label, 'eng')
        return t
    if kind == 'generic':
        top = Collection(G)
        top.set_label(label, 'eng')
        for i in range(members):
            c = Collection('m%d' % i)
            c.set_label(label, None)
            c.parent = top
        return top
    if kind == 'dts':
        doc = {'@context': {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#'}, '@id': G, '@type': 'Collection',
               'title': label, 'totalItems': members, 'member': [{'@id': 'm%d' % i, '@type': 'Resource', 'title': label, 'totalItems': 0} for i in range(members)]}
        return DtsCollection.parse(doc)
    inv = XmlCtsTextInventoryMetadata('inv')
    g = XmlCtsTextgroupMetadata(G, parent=inv)
    g.set_cts_property('groupname', label, 'eng')
    for i in range(members):
        w = XmlCtsWorkMetadata(G + '.w%d' % i, parent=g)
        w.lang = 'lat'
        w.set_cts_property('title', label, 'eng')
        e = XmlCtsEditionMetadata(w.id + '.e', parent=w)
        e.set_cts_property('label', label, 'eng')
        e.citation = Citation(name='line', refsDecl="/a[@n='$1']")
    return inv


def parts(kind, obj):
    if kind in ('metadata', 'text'):
        return [obj]
    return [obj] + obj.descendants


def change(kind, obj, what, key, value, lang):
    """something is said of each of the parts"""
    for x in parts(kind, obj):
        m = x if kind == 'metadata' else x.metadata
        if what == 'add':
            m.add(key, value, lang)
        elif what == 'set':
            m.set(key, value, lang)
        elif what == 'remove':
            m.remove(DC.creator if kind == 'metadata' else key)
        elif kind == 'text':
            x.set_subject(value, lang or 'lat')
        elif kind != 'metadata':
            x.set_label(value, lang)



def triples(g):
    return sorted(('_' if isinstance(s, BNode) else str(s), str(p)) + tuple('' if y is None else y for y in row_of(o)) for s, p, o in g)


def long(ctx, name):
    prefix, colon, rest = name.partition(':')
    if colon and prefix in ctx:
        return ctx[prefix] + rest
    return name if colon or name.startswith('@') or '@vocab' not in ctx else ctx['@vocab'] + name


def expanded(ctx, x):
    if isinstance(x, dict):
        return sorted(((long(ctx, k), expanded(ctx, v)) for k, v in x.items() if k != '@context'), key=lambda r: r[0])
    if isinstance(x, list):
        out = [expanded(ctx, y) for y in x]
        return sorted(out, key=repr) if all(isinstance(y, dict) and '@id' not in y for y in x) else out
    return x


def exports(kind, obj):
    """what the exports mean"""
    out = {}
    if kind in ('metadata', 'text'):
        m = obj if kind == 'metadata' else obj.metadata
        out['json'] = sorted((k, str(l), sorted(v) if isinstance(v, list) else [v]) for k, d in m.export(Mimetypes.JSON.Std).items() for l, v in d.items())
        out['rdf'] = triples(Graph().parse(data=m.export(Mimetypes.XML.RDF), format='xml'))
        out['ld'] = triples(Graph().parse(data=m.export(Mimetypes.JSON.LD), format='json-ld'))
        xml = m.export(Mimetypes.XML.CapiTainS.CTS)
        names = ' '.join('xmlns%s="%s"' % (':' + p if p else '', ns) for p, ns in m.graph.namespaces() if p != 'xml')
        out['xml'] = snap_all('<all %s>%s</all>' % (names, xml))
        return out
    for name, f, fmt in (('rdf', Mimetypes.XML.RDF, 'xml'), ('ld', Mimetypes.JSON.LD, 'json-ld')):
        out[name] = triples(Graph().parse(data=obj.export(f), format=fmt))
    dts = obj.export(Mimetypes.JSON.DTS.Std)
    out['dts'] = expanded(dts['@context'], dts)
    if kind == 'inventory':
        out['xml'] = snap_all(obj.export(Mimetypes.XML.CapiTainS.CTS))
        out['cts'] = snap_all(obj.export(Mimetypes.XML.CTS))
    return out


def snap_all(xml):
    def see(x):
        # the order in which values are written is that of the store
        return (x.tag, (x.text or '').strip(), sorted(x.attrib.items()), sorted((see(y) for y in x), key=lambda r: repr(r[0]) + r[1] + repr(r[2:])))
    return see(etree.fromstring(xml))


def see(kind, obj):
    out = []
    for x in parts(kind, obj):
        m = x if kind == 'metadata' else x.metadata
        row = [sorted((str(p),) + tuple('' if y is None else y for y in row_of(o)) for p, o in m.graph.predicate_objects(x.asNode())),
               sorted(str(v) for v in m.get(KEYS['title'])), sorted(str(v) for v in m[KEYS['a']]), str(m.get_single(KEYS['b'])), sorted(str(v) for v in m.get(DC.creator, 'eng'))]
        if kind in ('generic', 'dts', 'inventory'):
            row += [x.id, str(x.type), str(x.model), str(x.get_label('eng')) if len(row[0]) < 5 else None, x.size]
        out.append(row)
    return out


def h_worlds(sx, kinds, members, lens, bindings, whats, keys, current):
    ka, kb = sx.choice('kinds', kinds)
    kind = {'A': ka, 'B': kb}
    bound = dict(zip('AB', sx.choice('bindings', bindings)))
    key = {w: KEYS[k] for w, k in zip('AB', sx.choice('keys', keys))}
    what = dict(zip('AB', sx.choice('changes', whats)))
    n = {w: sx.choice('members in ' + w, members) for w in 'AB'}
    label = {w: sx.str('label in ' + w, lens, 'ab') for w in 'AB'}
    value = {w: sx.str('value in ' + w, lens, 'ab') for w in 'AB'}
    lang = dict(zip('AB', sx.choice('languages', [(None, 'fre'), ('fre', 'fre')])))
    # each by itself
    want, said = {}, {}
    for w in 'AB':
        set_graph(world(bound[w]))
        obj = make(kind[w], label[w], n[w])
        change(kind[w], obj, what[w], key[w], value[w], lang[w])
        want[w], said[w] = see(kind[w], obj), exports(kind[w], obj)
    # then one next to the other
    graphs = {w: world(bound[w]) for w in 'AB'}
    graphs['C'] = world('none')
    objs = {}
    for w in 'AB':
        set_graph(graphs[w])
        objs[w] = make(kind[w], label[w], n[w])
    set_graph(graphs[sx.choice('current when they change', current)])
    change(kind['A'], objs['A'], what['A'], key['A'], value['A'], lang['A'])
    change(kind['B'], objs['B'], what['B'], key['B'], value['B'], lang['B'])
    set_graph(graphs[sx.choice('current when read', ['A', 'B', 'C'])])
    for w in sx.choice('read first', ['AB', 'BA']):
        got = see(kind[w], objs[w])
        sx.check(got == want[w], 'what is said of it', world=w, got=got, want=want[w])
        e = exports(kind[w], objs[w])
        for f in e:
            sx.check(e[f] == said[w][f], 'what is exported of it', world=w, format=f, got=e[f], want=said[w][f])
    sx.check(len(graphs['C']) == 0, 'nothing is said elsewhere', got=list(graphs['C']))
    sx.observe('all', [want, sorted(said['A']), sorted(said['B'])])


R = Registry()
ALL = ['generic', 'inventory', 'dts', 'metadata', 'text']
SAME = [(k, k) for k in ALL]
MIX = [(k, ALL[(i + j) % 5]) for i, k in enumerate(ALL) for j in range(1, 5)]
W = ['add', 'set', 'remove', 'label']
R.add('worlds', h_worlds, dict(kinds=SAME, members=[1], lens=1, bindings=[('none', 'none'), ('a', 'b')], whats=[('add', 'add')], keys=[('a', 'b'), ('my', 'title')], current='AC'),
      dict(kinds=SAME, members=[0, 1, 2], lens=1, bindings=[('none', 'none'), ('a', 'b'), ('b', 'a'), ('a', 'none')], whats=[(x, y) for x in W for y in W], keys=[(x, y) for x in KEYS for y in KEYS], current='ABC'), 'two graphs, side by side')
R.add('mixed', h_worlds, dict(kinds=MIX, members=[1], lens=1, bindings=[('a', 'none')], whats=[('label', 'remove')], keys=[('b', 'b')], current='B'),
      dict(kinds=MIX, members=[1, 2], lens=1, bindings=[('a', 'none'), ('b', 'a')], whats=[('label', 'remove'), ('add', 'set')], keys=[('b', 'b'), ('a', 'my')], current='ABC'), 'objects of several kinds')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ["The two graphs are prepared with bind_graph, as the one the library starts with is; more prefixes may be bound."]
