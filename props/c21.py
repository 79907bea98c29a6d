"""C21 DTS collections round-trip through JSON-LD."""
from rdflib import Literal, URIRef
from rdflib.namespace import DCTERMS, SKOS
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.common.reference import Citation
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata
from props._util import Registry
from props.c08 import forests

HYDRA = RDF_NAMESPACES.HYDRA
CTX = {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#', 'dct': 'http://purl.org/dc/terms/',
       'x': 'http://x.org/', 'cts': 'http://chs.harvard.edu/xmlns/cts/'}
TXT = [(0x20, 0x7E), (0xE9, 0xE9), (0x3B1, 0x3C9)]


class Spots:
    def __init__(self, sx, spots, lens, txt):
        self.sx = sx
        self.spot = sx.choice('arbitrary', spots)
        if self.spot is not None:
            self.value = sx.str('value', sx.choice('length', lens), txt)

    def __call__(self, what, default):
        if what == self.spot:
            return self.value
        return default


def tree(shape, val, n):
    out = []
    for sub in shape:
        n[0] += 1
        d = {'dts:citeType': val('citation', 'level') + str(n[0])}
        if sub:
            d['dts:citeStructure'] = tree(sub, val, n)
        out.append(d)
    return out


def outline(cs):
    return [(c.name, outline(c.children)) for c in cs]


def doc_outline(ds):
    return [(d['dts:citeType'], doc_outline(d.get('dts:citeStructure', []))) for d in ds]


def base(sx, tag, ident, val, types, total, desc):
    d = {'@id': ident, '@type': sx.choice('type ' + tag, types), 'title': val('title ' + tag, 'Title ' + tag), 'totalItems': total}
    if desc:
        d['description'] = val('description ' + tag, 'About ' + tag)
    return d


def metadata(sx, which, val):
    """[(section, key, json value, (text, language, is a link))]"""
    out = []
    for section, key, kind in which:
        if kind == 'text':
            v = val('plain', 'text')
            out.append((section, key, v, (v, None, False)))
        elif kind == 'link':
            out.append((section, key, {'@id': 'http://x.org/it'}, ('http://x.org/it', None, True)))
        elif kind == 'number':
            out.append((section, key, 12, ('12', None, False)))
        elif kind == 'real':
            out.append((section, key, 1.5, ('1.5', None, False)))
        elif kind == 'truth':
            out.append((section, key, True, ('true', None, False)))
        elif kind == 'other text':
            out.append((section, key, 'other', ('other', None, False)))
        else:
            v = val('in a language', 'texte')
            out.append((section, key, {'@value': v, '@language': kind}, (v, kind, False)))
    return out


SETS = [[],
        [('dts:dublincore', 'dct:title', 'text')],
        [('dts:dublincore', 'dct:title', 'fre'), ('dts:dublincore', 'dct:title', 'eng')],
        [('dts:dublincore', 'dct:creator', 'text'), ('dts:dublincore', 'dct:creator', 'fre'), ('dts:extensions', 'x:y', 'text')],
        [('dts:extensions', 'x:y', 'number'), ('dts:extensions', 'x:z', 'text'), ('dts:extensions', 'x:y', 'link')],
        [('dts:dublincore', 'dct:source', 'link'), ('dts:extensions', 'x:y', 'link')],
        [('dts:dublincore', 'dct:title', 'text'), ('dts:dublincore', 'dct:title', 'other text'), ('dts:extensions', 'x:y', 'eng')],
        [('dts:dublincore', 'dct:creator', 'eng'), ('dts:dublincore', 'dct:creator', 'fre'), ('dts:dublincore', 'dct:creator', 'lat')],
        [('dts:extensions', 'x:y', 'real'), ('dts:extensions', 'x:z', 'truth'), ('dts:extensions', 'x:z', 'number')],
        [('dts:dublincore', 'dct:title', 'text'), ('dts:extensions', 'dct:title', 'other text'), ('dts:extensions', 'dct:creator', 'eng')]]
FULL = {'dct:title': str(DCTERMS.title), 'dct:creator': str(DCTERMS.creator), 'dct:source': str(DCTERMS.source), 'x:y': 'http://x.org/y', 'x:z': 'http://x.org/z'}


def same_metadata(sx, coll, want, tag):
    for k, full in FULL.items():
        got = [(str(o), getattr(o, 'language', None), isinstance(o, URIRef)) for o in coll.metadata.get(URIRef(full))]
        exp = []
        for _, key, _, w in want:
            if key == k and not any(w == e for e in exp):
                exp.append(w)
        sx.check(len(got) == len(exp) and all(any(g == e for g in got) for e in exp), tag + ': metadata of the document', got=got, want=exp)


def full_type(t):
    prefix, _, name = t.rpartition(':')
    return {'': str(HYDRA), 'x': 'http://x.org/', 'cts': str(RDF_NAMESPACES.CTS)}[prefix] + name


def check_base(sx, coll, d, tag):
    sx.check(coll.id == d['@id'], tag + ': identifier', got=coll.id, want=d['@id'])
    sx.check(str(coll.get_label()) == d['title'], tag + ': title', got=coll.get_label(), want=d['title'])
    sx.check(str(coll.type) == full_type(d['@type']) and coll.readable == (d['@type'] == 'Resource'), tag + ': type')
    sx.check(coll.size == d['totalItems'], tag + ': size', got=coll.size, want=d['totalItems'])
    desc = coll.metadata.get_single(HYDRA.description)
    if 'description' in d:
        sx.check(desc is not None and str(desc) == d['description'], tag + ': description', got=desc)
    else:
        sx.check(desc is None, tag + ': no description')


def check_coll(sx, coll, doc, members, cites, metas, tag, direction):
    check_base(sx, coll, doc, tag)
    want_depth = doc.get('dts:citeDepth', depth_of(cites))
    sx.check(outline(coll.citation.children) == doc_outline(cites), tag + ': citation tree', got=outline(coll.citation.children), want=doc_outline(cites))
    sx.check(coll.citation.depth == want_depth, tag + ': citation depth', got=coll.citation.depth, want=want_depth)
    same_metadata(sx, coll, metas, tag)
    if direction == 'children':
        got = coll.members
        sx.check([m.id for m in got] == [m['@id'] for m in members], tag + ': members in order', got=[m.id for m in got])
        for c, m in zip(got, members):
            check_base(sx, c, m, tag + ': member')
            sx.check(c.parents == {coll}, tag + ': parent of the member')
            sx.check(coll[c.id] is c and c.id in coll, tag + ': member found')
        sx.check([x.id for x in coll.readableDescendants] == [m['@id'] for m in members if m['@type'] == 'Resource'], tag + ': readable exactly when Resource')
    else:
        sx.check(sorted(p.id for p in coll.parents) == sorted(m['@id'] for m in members), tag + ': parents', got=sorted(p.id for p in coll.parents))
        sx.check(coll.members == [], tag + ': no members')
        for p in coll.parents:
            for m in members:
                if m['@id'] == p.id:
                    check_base(sx, p, m, tag + ': parent')


def expand_type(doc, t):
    prefix, colon, name = t.rpartition(':')
    return doc['@context'].get(prefix if colon else '@vocab', 'undeclared:') + name


def depth_of(cites):
    return 0 if not cites else 1 + max(depth_of(c.get('dts:citeStructure', [])) for c in cites)


def h_collection(sx, sizes, spots, lens, txt, types, sets, cite_sizes=(0,), descs=(False,), directions=('children',), totals=(0,), short=False):
    set_graph(bind_graph())
    val = Spots(sx, spots, lens, txt)
    n = sx.choice('members', sizes)
    ident = val('identifier', 'urn:top')
    doc = {'@context': CTX}
    doc.update(base(sx, 'top', ident, val, types, max(min(n, 1), n + sx.choice('on other pages', list(totals))), sx.choice('description', list(descs))))
    members = []
    for i in range(n):
        mid = 'urn:m:' + val('member identifier', 'ember') + str(i)
        sx.assume(mid != ident)
        members.append(base(sx, 'member %d' % i, mid, val, types, i, sx.choice('description %d' % i, list(descs))))
    if members:
        doc['member'] = members
    shape = sx.choice('citations', [f for k in cite_sizes for f in forests(k)])
    cites = tree(shape, val, [0])
    if cites:
        doc['dts:citeStructure'] = cites
    if sx.choice('depth given', [False, True] if cites or short else [False]):
        # A document may give fewer structures than there are levels
        doc['dts:citeDepth'] = depth_of(cites) + sx.choice('undescribed levels', [0, 1]) if cites else 2
    metas = metadata(sx, sx.choice('metadata', sets), val)
    for section, key, v, _ in metas:
        into = doc.setdefault(section, {})
        if key in into:
            into[key] = (into[key] if isinstance(into[key], list) else [into[key]]) + [v]
        else:
            into[key] = v
    direction = sx.choice('direction', list(directions))
    coll = DtsCollection.parse(doc, direction=direction)
    check_coll(sx, coll, doc, members, cites, metas, 'parsed', direction)
    if direction == 'parents':
        return
    out = coll.export(Mimetypes.JSON.DTS.Std)
    sx.observe('exported', [out['@id'], out['title'], out['totalItems']])
    for k in ('@id', 'title', 'totalItems'):
        sx.check(out[k] == doc[k], 'exported: ' + k, got=out[k], want=doc[k])
    typed = lambda d: dict(d, **{'@type': expand_type(out, d['@type'])})
    sx.check(expand_type(out, out['@type']) == full_type(doc['@type']), 'exported: @type', got=out['@type'], want=doc['@type'])
    sx.check(out.get('description') == doc.get('description'), 'exported: description')
    sx.check([typed(m) for m in out.get('member', [])] == [dict(m, **{'@type': full_type(m['@type'])}) for m in members], 'exported: members', got=out.get('member'), want=members)
    check_coll(sx, coll, doc, members, cites, metas, 'after the export', direction)
    set_graph(bind_graph())
    back = DtsCollection.parse(out)
    check_coll(sx, back, doc, members, cites, metas, 'parsed again', direction)


def h_cts(sx, lens, txt, spots):
    """CTS collections as DTS collections"""
    set_graph(bind_graph())
    val = Spots(sx, spots, lens, txt)
    inv = CtsTextInventoryMetadata('urn:inventory')
    inv.set_label(val('inventory', 'Inventory'), 'eng')
    tg = CtsTextgroupMetadata('urn:cts:n:g', parent=inv)
    tg.set_cts_property('groupname', val('groupname', 'Group'), 'eng')
    wk = CtsWorkMetadata('urn:cts:n:g.w', parent=tg)
    wk.lang = 'lat'
    wk.set_cts_property('title', val('title', 'Work'), 'eng')
    x = CtsEditionMetadata('urn:cts:n:g.w.e', parent=wk)
    x.set_cts_property('label', val('label', 'Edition'), 'eng')
    x.set_cts_property('description', val('description', 'About'), 'fre')
    if sx.bool('cited'):
        x.citation = Citation(name=val('citation', 'book'), refsDecl="/a[@n='$1']", child=Citation(name='line', refsDecl="/a[@n='$1']/b[@n='$2']"))
    if sx.bool('about'):
        x.set_link(RDF_NAMESPACES.CTS.about, 'urn:cts:n:other.w')
    chain = [inv, tg, wk, x]
    titles = [val('inventory', 'Inventory'), val('groupname', 'Group'), val('title', 'Work'), val('label', 'Edition')]
    k = sx.choice('collection', [0, 1, 2, 3])
    doc = chain[k].export(Mimetypes.JSON.DTS.Std)
    sx.observe('document', [doc['@id'], doc['title'], doc['totalItems']])
    set_graph(bind_graph())
    back = DtsCollection.parse(doc)
    sx.check(back.id == chain[k].id and str(back.get_label()) == titles[k] and back.size == (1 if k < 3 else 0), 'cts: identifier, title and size',
             got=[back.id, back.get_label(), back.size])
    sx.check(back.type == chain[k].type, 'cts: type', got=back.type, want=chain[k].type)
    sx.check([m.type for m in back.members] == [c.type for c in chain[k + 1:k + 2]], 'cts: types of the members')
    sx.check([(m.id, str(m.get_label())) for m in back.members] == ([(chain[k + 1].id, titles[k + 1])] if k < 3 else []), 'cts: members')
    if k == 3:
        want = [val('citation', 'book'), 'line'] if x.citation is not None else []
        got = outline(back.citation.children)
        sx.check(got == ([(want[0], [('line', [])])] if want else []), 'cts: citation', got=got)
        sx.check([(str(o), o.language) for o in back.metadata.get(RDF_NAMESPACES.CTS.description)] == [(val('description', 'About'), 'fre')], 'cts: description')
        about = [str(o) for o in back.metadata.get(RDF_NAMESPACES.CTS.about)]
        sx.check(about == [str(o) for o in x.get_link(RDF_NAMESPACES.CTS.about)], 'cts: link', got=about)


R = Registry()
T = ['Collection', 'Resource']
T2 = T + ['x:Kind', 'cts:work', 'x:Resource']
TEXTS = ['title top', 'title member 0', 'description top', 'description member 0', 'plain', 'in a language', 'citation']
R.add('texts', h_collection, dict(sizes=[1], spots=TEXTS, lens=[0, 1, 2], txt=TXT, types=['Collection'], sets=SETS[3:4], cite_sizes=(2,), descs=(True,)),
      dict(sizes=[1, 2], spots=TEXTS, lens=[0, 1, 3], txt=TXT, types=['Collection'], sets=SETS[3:4], cite_sizes=(2,), descs=(True,)), 'arbitrary texts')
R.add('names', h_collection, dict(sizes=[0, 1, 2], spots=['identifier', 'member identifier'], lens=[1, 2], txt='ab/', types=['Resource'], sets=SETS[:1]),
      dict(sizes=[0, 1, 2], spots=['identifier', 'member identifier'], lens=[1, 2, 3], txt='ab/.1', types=T, sets=SETS[:1]), 'arbitrary identifiers')
R.add('members', h_collection, dict(sizes=[0, 1, 2], spots=[None], lens=[1], txt='a', types=T2, sets=SETS[:1], descs=(False, True), directions=('children', 'parents'), totals=(0, 5, -1)),
      dict(sizes=[0, 1, 2, 3, 4], spots=[None], lens=[1], txt='a', types=T2, sets=SETS[:2], descs=(False, True), directions=('children', 'parents'), totals=(0, 5, -1)), 'members and parents')
R.add('more', h_collection, dict(sizes=[3], spots=[None], lens=[1], txt='a', types=T + ['x:Resource'], sets=SETS[:1], directions=('children', 'parents'), totals=(0, -1)),
      dict(sizes=[3, 5], spots=[None], lens=[1], txt='a', types=T + ['x:Resource'], sets=SETS[:1], directions=('children', 'parents'), totals=(0, -1)), 'more members')
R.add('metadata', h_collection, dict(sizes=[0, 1], spots=[None, 'plain', 'in a language'], lens=[1], txt='ab', types=['Collection'], sets=SETS),
      dict(sizes=[0, 1], spots=[None, 'plain', 'in a language'], lens=[1, 2], txt='ab1', types=T, sets=SETS, descs=(False, True)), 'Dublin Core and extensions')
R.add('citations', h_collection, dict(sizes=[0, 1], spots=[None], lens=[1], txt='ab', types=['Resource'], sets=SETS[:1], cite_sizes=(0, 1, 2, 3), short=True),
      dict(sizes=[0, 1], spots=['citation'], lens=[1], txt='ab', types=['Resource'], sets=SETS[:2], cite_sizes=(0, 1, 2, 3, 4), short=True), 'citation trees')
CP = ['inventory', 'groupname', 'title', 'label', 'description', 'citation']
R.add('cts', h_cts, dict(lens=[0, 1, 2], txt=TXT, spots=CP), dict(lens=[0, 1, 2, 3], txt=TXT, spots=CP), 'CTS inventories as DTS')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Documents have the title and totalItems the specification requires and an inline @context; members of a document have distinct identifiers; '
               'metadata of the members themselves (other than title, type, size, description) and keys of the DTS, Hydra, RDF and RDFS namespaces are not exported.']
