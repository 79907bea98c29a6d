"""C35 Copied and pickled objects say what the originals say."""
import copy
import pickle
from rdflib import Literal, URIRef
from rdflib.namespace import DC
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import Citation, CtsReference, CtsReferenceSet, DtsCitation, DtsCitationSet, DtsReference, DtsReferenceSet, URN
from MyCapytain.resources.collections.cts import (
    XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata, XmlCtsTranslationMetadata)
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata)
from MyCapytain.resources.prototypes.metadata import Collection
from props._util import Registry
from props.texts import build, snap

HOW = {'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'deepcopy': copy.deepcopy, 'copy': copy.copy,
       'pickled twice': lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x)))), 'copied copy': lambda x: copy.deepcopy(copy.deepcopy(x))}
DEEP = ['pickle', 'deepcopy', 'pickled twice', 'copied copy']


def ids(sx, tag, lens):
    return sx.str(tag, lens, 'ab1')


def one(r):
    return (type(r), r.start, r.end, r.is_range(), None if not isinstance(r, DtsReference) else None if r.type is None else str(r.type))


def members(s):
    return (type(s), [one(r) for r in s], s.level, None if s.citation is None else s.citation.name)


def reference(sx, tag, kind, lens, types):
    a = ids(sx, tag + ' start', lens)
    b = ids(sx, tag + ' end', lens) if sx.bool(tag + ' is a range') else None
    if kind == 'cts':
        return CtsReference(a) if b is None else CtsReference(a, b)
    t = sx.choice(tag + ' type', types)
    if t == 'sym':
        t = sx.str(tag + ' of type', 1, 'ab')
    return DtsReference(*([a] if b is None else [a, b]), type_=t)


def h_references(sx, n, lens, types):
    set_graph(bind_graph())
    kind = sx.choice('kind', ['cts', 'dts'])
    k = sx.choice('references', n)
    refs = [reference(sx, 'ref %d' % i, kind, lens, types) for i in range(k)]
    how = sx.choice('how', list(HOW))
    for r in refs:
        c = HOW[how](r)
        sx.check(one(c) == one(r), 'a reference: the same', got=one(c), want=one(r))
        sx.check(c == r and r == c and not c != r, 'a reference: equal')
        sx.check(hash(c) == hash(r), 'a reference: the same hash')
        sx.check(str(c) == str(r) and repr(c) == repr(r), 'a reference: the same text', got=str(c), want=str(r))
    level = sx.choice('level', [1, 2])
    cite = sx.choice('citation', [False, True])
    if kind == 'cts':
        s = CtsReferenceSet(refs, level=level, citation=Citation(name='line') if cite else None)
    else:
        s = DtsReferenceSet(*refs, level=level, citation=DtsCitation(name='line') if cite else None)
    before = members(s)
    c = HOW[how](s)
    sx.check(members(c) == before, 'a set: the same', got=members(c), want=before)
    for r in refs:
        sx.check(r in c, 'a set: the references are found')
        sx.check(c.index(r) == s.index(r), 'a set: where they were')
        if r.end is None:
            sx.check(str(r.start) in c, 'a set: their texts are found')
    if kind == 'dts':
        sx.check(c == s, 'a set: equal')
        for r in c:
            r.type = 'other'
        if how != 'copy':
            sx.check(members(s) == before, 'a set: the original keeps its types', got=members(s), want=before)
    sx.observe('texts', [str(r) for r in c])


def h_urn(sx, lens, shapes):
    n = sx.choice('components', shapes)
    parts = [sx.str('component %d' % i, lens, 'ab1') for i in range(n)]
    text = 'urn:cts:' + parts[0]
    if n > 1:
        text += ':' + '.'.join(parts[1:4])
    if n > 2 and sx.bool('reference'):
        text += ':' + ids(sx, 'passage', lens)
    u = URN(text)
    if sx.bool('asked before'):
        str(u)
    how = sx.choice('how', list(HOW))
    c = HOW[how](u)
    sx.check(c == u and str(c) == text, 'a URN: the same', got=str(c), want=text)
    sx.check((c.namespace, c.textgroup, c.work, c.version, c.reference) == (u.namespace, u.textgroup, u.work, u.version, u.reference), 'a URN: the same components')
    sx.check(len(c) == len(u), 'a URN: the same length')
    if how != 'copy':
        new = sx.str('new', 1, 'xy')
        c.namespace = new
        want = 'urn:cts:' + new + text[len('urn:cts:') + len(parts[0]):]
        sx.check(str(c) == want, 'a URN: the copy changes', got=str(c), want=want)
        sx.check(str(u) == text and u.upTo(URN.NAMESPACE) == 'urn:cts:' + parts[0], 'a URN: the original does not', got=str(u), want=text)
        u.namespace = 'other'
        sx.check(str(c) == want and c.upTo(URN.NAMESPACE) == 'urn:cts:' + new, 'a URN: nor does the copy with the original')


def look(c, top):
    """all there is to see of a tree of citations"""
    return [(type(x), x.name, getattr(x, 'refsDecl', None), x.is_root(), x.depth, len(x), [y.name for y in x.children],
             x.root is top) for x in top]


def tree(sx, cls, shape, tag=''):
    return [cls(name=sx.str('name ' + tag + str(i), 1, 'ab'), children=tree(sx, cls, s, tag + str(i))) for i, s in enumerate(shape)]


def h_citations(sx, depths, shapes):
    kind = sx.choice('kind', ['chain', 'set', 'citation'])
    if kind == 'chain':
        d = sx.choice('levels', depths)
        c = None
        for i in reversed(range(d)):
            c = Citation(name=sx.str('name %d' % i, 1, 'ab'), refsDecl='/' + '/'.join("a[@n='$%d']" % (k + 1) for k in range(i + 1)), child=c)
        top = c
    else:
        t = tree(sx, DtsCitation, sx.choice('shape', shapes))
        top = DtsCitationSet(t) if kind == 'set' else DtsCitation(name='top', children=t)
    how = sx.choice('how', DEEP)
    before = look(top, top)
    which = sx.choice('which', ['root', 'a member'])
    all_ = [x for x in top]
    if which == 'root' or not all_:
        c = HOW[how](top)
    else:
        k = sx.choice('member', list(range(len(all_))))
        m = HOW[how](all_[k])
        c = m.root
        sx.check(m.name == all_[k].name and any(m is x for x in c) and [x.name for x in m] == [x.name for x in all_[k]], 'the member is where it was')
    sx.check(type(c) is type(top) and c is not top, 'another citation')
    got = look(c, c)
    sx.check(got == before, 'the same citations', got=got, want=before)
    sx.check(c.depth == top.depth and len(c) == len(top), 'the same depth and length')
    sx.check(all(not any(x is y for y in all_) for x in c), 'none is shared')
    if kind == 'chain':
        for i, x in enumerate(c):
            filled = x.fill(['k'] * (i + 1))
            sx.check(filled == all_[i].fill(['k'] * (i + 1)), 'filled alike')
            sx.check((x.scope, x.xpath) == (all_[i].scope, all_[i].xpath), 'split alike')
        last = [x for x in c][-1]
        last.child = Citation(name='more', refsDecl="/b[@n='$1']")
    else:
        c.add_child(DtsCitation(name='more'))
    sx.check(look(top, top) == before, 'the original does not grow with the copy', got=look(top, top), want=before)
    sx.check(len(c) == len(top) + 1, 'the copy grows')


CLASSES = {'cts': (CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata),
           'xml': (XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata, XmlCtsTranslationMetadata)}


def rows(obj):
    return sorted((str(p), str(o), str(getattr(o, 'language', None)), type(o)) for p, o in obj.graph.predicate_objects(obj.asNode()))


def inventory(sx, kind, works, lens):
    I, G, W, E, T = CLASSES[kind]
    inv = I('inv')
    g = G('urn:cts:n:g', parent=inv)
    g.set_cts_property('groupname', sx.str('groupname', lens, 'ab'), 'eng')
    for i in range(works):
        w = W('urn:cts:n:g.' + sx.str('work %d' % i, 1, 'ab') + str(i), parent=g)
        w.lang = 'lat'
        w.set_cts_property('title', sx.str('title %d' % i, lens, 'ab'), 'eng')
        for t in range(sx.choice('texts of %d' % i, [0, 1, 2])):
            x = (E, T)[t](w.id + '.t%d' % t, parent=w, **({'lang': 'ger'} if t else {}))
            x.set_cts_property('label', sx.str('label %d %d' % (i, t), lens, 'ab'), 'eng')
            x.citation = Citation(name='book', refsDecl="/a[@n='$1']", child=Citation(name='line', refsDecl="/a[@n='$1']/b[@n='$2']"))
    return inv


def generic(sx, n, lens):
    top = Collection('top')
    all_ = [top]
    for i in range(n):
        c = Collection('c' + sx.str('member %d' % i, 1, 'ab') + str(i))
        c.parent = all_[sx.choice('parent of %d' % i, list(range(len(all_))))]
        c.set_label(sx.str('label %d' % i, lens, 'ab'), sx.choice('language %d' % i, ['eng', None]))
        all_.append(c)
    return top


def whole(top):
    out = []
    for x in [top] + top.descendants:
        cite = getattr(x, 'citation', None)
        out.append((type(x), x.id, str(x.get_label()), x.size, [m.id for m in x.members], [p.id for p in x.parents], str(getattr(x, 'lang', None)),
                    rows(x), None if cite is None else [(k.name, k.refsDecl) for k in cite], x.readable))
    return out


def h_collections(sx, kinds, sizes, lens, hows=DEEP):
    set_graph(bind_graph())
    kind = sx.choice('kind', kinds)
    n = sx.choice('size', sizes)
    top = generic(sx, n, lens) if kind == 'generic' else inventory(sx, kind, n, lens)
    before = whole(top)
    how = sx.choice('how', hows)
    if sx.bool('read in another graph'):
        # what is pickled is often read by another process
        dump = pickle.dumps(top)
        set_graph(bind_graph())
        c = pickle.loads(dump)
    else:
        c = HOW[how](top)
    got = whole(c)
    sx.check(got == before, 'the same collections', got=got, want=before)
    old = [top] + top.descendants
    sx.check(all(not any(x is y for y in old) for x in [c] + c.descendants), 'none is shared')
    for x in c.descendants:
        sx.check(c[x.id] is x, 'found in the copy')
        sx.check(any(x.parent is y for y in [c] + c.descendants), 'parents are in the copy')
    if kind != 'generic':
        for f in (Mimetypes.XML.CTS, Mimetypes.XML.CapiTainS.CTS):
            sx.check(c.export(f) == top.export(f) or sorted(c.export(f).split('\n')) == sorted(top.export(f).split('\n')), 'exported alike')
    sx.observe('whole', [(x.id, str(x.get_label())) for x in [c] + c.descendants])
    # what happens to the copy does not happen to the original
    act = sx.choice('then', ['label', 'delete', 'add', 'label of the original'])
    if act == 'label':
        for x in [c] + c.descendants:
            x.set_label('new', 'fre')
            x.metadata.add(DC.title, 'new', 'fre')
        sx.check(whole(top) == before, 'the original keeps its labels', got=whole(top), want=before)
        sx.check(all(str(x.get_label('fre')) == 'new' for x in [c] + c.descendants), 'the copy has new ones')
    elif act == 'delete':
        for x in list(c.members):
            del c[x.id]
        sx.check(whole(top) == before, 'the original keeps its members', got=whole(top), want=before)
        sx.check(c.members == [], 'the copy has none')
    elif act == 'add':
        k = Collection('new') if kind == 'generic' else CLASSES[kind][1]('urn:cts:n:new')
        k.parent = c
        sx.check(whole(top) == before, 'the original has no other member', got=whole(top), want=before)
        sx.check(c[k.id] is k, 'the copy has it')
    else:
        for x in old:
            x.set_label('new', 'fre')
        sx.check(whole(c) == before, 'the copy keeps its labels', got=whole(c), want=before)


def h_metadata(sx, n, lens):
    set_graph(bind_graph())
    m = Metadata(node=URIRef('urn:m')) if sx.bool('named') else Metadata()
    other = Metadata(node=URIRef('urn:o'))
    other.add(DC.title, 'other')
    for i in range(sx.choice('values', n)):
        m.add(sx.choice('key %d' % i, [DC.title, DC.creator]), sx.str('value %d' % i, lens, 'ab'), sx.choice('language %d' % i, ['eng', None]))
    before = rows(m)
    c = HOW[sx.choice('how', DEEP)](m)
    sx.observe('rows', rows(c))
    sx.check(rows(c) == before, 'the same values', got=rows(c), want=before)
    sx.check(c.asNode() == m.asNode(), 'of the same node')
    sx.check([str(x) for x in sorted(c[DC.title])] == [str(x) for x in sorted(m[DC.title])], 'read alike')
    c.add(DC.title, 'new', 'fre')
    sx.check(rows(m) == before, 'the original keeps its values', got=rows(m), want=before)
    m.remove(DC.creator)
    sx.check(rows(c) == sorted(before + [(str(DC.title), 'new', 'fre', Literal)]), 'the copy keeps its own', got=rows(c))
    sx.check(rows(other) == [(str(DC.title), 'other', 'None', Literal)], 'others are as they were')


def h_dts(sx, n, lens):
    set_graph(bind_graph())
    doc = {'@context': {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#'}, '@id': 'top', '@type': 'Collection',
           'title': sx.str('title', lens, 'ab'), 'totalItems': sx.choice('members', n), 'dts:citeDepth': 2,
           'dts:citeStructure': [{'dts:citeType': 'book', 'dts:citeStructure': [{'dts:citeType': sx.str('citation', 1, 'ab')}]}]}
    doc['member'] = [{'@id': 'm%d' % i, '@type': sx.choice('type %d' % i, ['Collection', 'Resource']), 'title': sx.str('title %d' % i, lens, 'ab'), 'totalItems': i}
                     for i in range(doc['totalItems'])]

    def see(c):
        return [(type(x), x.id, str(x.get_label()), x.size, x.readable, list(x.children), sorted(p.id for p in x.parents), rows(x),
                 [k.name for k in x.citation], x.citation.depth) for x in [c] + c.descendants]
    top = DtsCollection.parse(doc)
    before = see(top)
    c = HOW[sx.choice('how', DEEP)](top)
    sx.observe('titles', [str(x.get_label()) for x in [c] + c.descendants])
    sx.check(see(c) == before, 'the same collections', got=see(c), want=before)
    sx.check(all(list(x.parents)[0] is c for x in c.descendants), 'parents are in the copy')
    sx.check(c.export(Mimetypes.JSON.DTS.Std) == top.export(Mimetypes.JSON.DTS.Std), 'exported alike')
    for x in [c] + c.descendants:
        x.set_label('new', 'fre')
        x.citation.add_child(DtsCitation(name='more'))
        x.metadata.remove(URIRef('https://www.w3.org/ns/hydra/core#totalItems'))
    c.children.clear()
    sx.check(see(top) == before, 'the original is as it was', got=see(top), want=before)


def h_text(sx, shapes, opts):
    set_graph(bind_graph())
    text, m = build(sx, sx.choice('shape', shapes), **sx.choice('markup', opts))
    text.set_creator('somebody', 'eng')
    text.set_title('something', 'eng')
    refs = [CtsReference(x.ref) for x in m.level(m.depth)]

    def see(t):
        return [str(t.urn), [str(r) for r in t.getReffs(level=m.depth)], [(k.name, k.refsDecl) for k in t.citation], rows(t.metadata),
                str(t.get_creator('eng')), str(t.get_title('eng')), [t.getTextualNode(r).export(Mimetypes.PLAINTEXT) for r in refs],
                [[str(x) for x in t.getTextualNode(r).siblingsId] for r in refs]]
    before, source = see(text), snap(text.xml)
    how = HOW[sx.choice('how', DEEP)]
    if sx.bool('a passage'):
        p = text.getTextualNode(refs[0])
        q = how(p)
        sx.check((str(q.urn), str(q.reference), q.export(Mimetypes.PLAINTEXT), q.export(Mimetypes.XML.Std)) ==
                 (str(p.urn), str(p.reference), p.export(Mimetypes.PLAINTEXT), p.export(Mimetypes.XML.Std)), 'the same passage')
        sx.check([str(x) for x in q.siblingsId] == [str(x) for x in p.siblingsId], 'the same neighbours')
        c = q.textObject
    else:
        c = how(text)
    sx.observe('text', before[6])
    sx.check(c is not text and see(c) == before, 'the same text', got=see(c), want=before)
    c.set_title('another', 'eng')
    c.urn.namespace = 'other'
    c.xml.set('n', 'other')
    sx.check(see(text) == before and snap(text.xml) == source, 'the original is as it was')


R = Registry()
R.add('references', h_references, dict(n=[0, 1, 2], lens=(1, 2), types=[None, 'sym']), dict(n=[0, 1, 2, 3], lens=(1, 2), types=[None, 'sym']), 'references and sets of references')
R.add('urn', h_urn, dict(lens=(1, 2), shapes=[1, 2, 3, 4]), dict(lens=(1, 2), shapes=[1, 2, 3, 4]), 'URNs')
R.add('citations', h_citations, dict(depths=[1, 2, 3], shapes=[[[]], [[], []], [[[]], []]]), dict(depths=[1, 2, 3, 4], shapes=[[[]], [[], []], [[[]], []], [[[], []], [[]]], [[[[]]]]]), 'trees of citations')
R.add('generic', h_collections, dict(kinds=['generic'], sizes=[0, 1, 2], lens=1), dict(kinds=['generic'], sizes=[0, 1, 2, 3], lens=1), 'trees of collections')
R.add('inventory', h_collections, dict(kinds=['cts', 'xml'], sizes=[0, 1], lens=1), dict(kinds=['cts', 'xml'], sizes=[0, 1, 2], lens=1), 'CTS inventories')
R.add('metadata', h_metadata, dict(n=[0, 1, 2], lens=1), dict(n=[0, 1, 2, 3], lens=1), 'metadata')
R.add('dts', h_dts, dict(n=[0, 1, 2], lens=1), dict(n=[0, 1, 2, 3], lens=(1, 2)), 'DTS collections')
R.add('text', h_text, dict(shapes=[2, [1, 2]], opts=[dict(text='word'), dict(text='sym', inner=True)]), dict(shapes=[2, 3, [1, 2], [[1], [1]]], opts=[dict(text='word'), dict(text='sym', inner=True), dict(header=True)]), 'local texts')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['copy.copy of a citation, collection or URN shares what it holds, as copy.copy does: only values are compared there.']
