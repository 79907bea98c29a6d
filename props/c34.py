"""C34 A text presents the titles, creator and descriptions of its collections."""
import os
from rdflib.namespace import DC
from MyCapytain.common.constants import RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.common.reference import Citation, CtsReference
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.collections.cts import (
    XmlCtsCitation, XmlCtsCommentaryMetadata, XmlCtsEditionMetadata, XmlCtsTextgroupMetadata, XmlCtsTranslationMetadata, XmlCtsWorkMetadata)
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsCommentaryMetadata, CtsEditionMetadata, CtsTextgroupMetadata, CtsTextInventoryMetadata, CtsTranslationMetadata, CtsWorkMetadata)
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.resources.texts.remote.cts import CtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever
from props._http import Answer, Net
from props._util import Registry
from props.c17 import Store, equal, match
from props.c25 import DECL, NS, Node, write
from props.texts import build

CTS = RDF_NAMESPACES.CTS
LANGS = [None, 'eng', 'en']
# name in CTS, name for texts and their predicate
FIELDS = [('groupname', 'creator', DC.creator), ('title', 'title', DC.title),
          ('label', 'subject', DC.subject), ('description', 'description', DC.description)]
NAMES = [f[0] for f in FIELDS]
PLAIN = [(CtsTextgroupMetadata, CtsWorkMetadata, c) for c in (CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata)]
XML = [(XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, c) for c in (XmlCtsEditionMetadata, XmlCtsTranslationMetadata, XmlCtsCommentaryMetadata)]


def one_of(sx, got, st, who, name, lang, tag, langless=True):
    """a value in the language, or one in another if there is none"""
    rows = st.get(who, name)
    ok = [r for r in rows if r[3] == lang] if lang is not None or not langless else []
    ok = ok or rows
    sx.check(got is None if not ok else got is not None and any(match(got, r) for r in ok), tag,
             lang=lang, got=got, want=[r[2:4] for r in ok])


def check_text(sx, t, st, who, tag):
    for name, short, key in FIELDS:
        rows = st.get(who, name)
        equal(sx, t.metadata.get(CTS.term(name)), rows, tag + ': every %s, in its language' % name)
        equal(sx, t.metadata.get(key), rows, tag + ': every %s as %s' % (name, short))
        if not any(len(r[2]) == 0 for r in rows):
            for lang in LANGS:
                one_of(sx, getattr(t, 'get_' + short)(lang), st, who, name, lang, tag + ': %s in a language' % short)
                one_of(sx, t.get_cts_metadata(name, lang), st, who, name, lang, tag + ': CTS %s in a language' % name)


def check_collection(sx, e, w, g, st, who, tag):
    """the collections and what a text's own metadata says of them"""
    owners = dict(groupname=g, title=w, label=e, description=e)
    for name, short, key in FIELDS:
        equal(sx, owners[name].metadata.get(CTS.term(name)), st.get(who, name), tag + ': %s of the collection' % name)
        for lang in LANGS:
            got = getattr(e, 'get_' + short)(lang)
            one_of(sx, got, st, who, name, lang, tag + ': %s according to the metadata of the text' % short)


def fill(sx, st, who, i, owners, lens, langs=LANGS, names=NAMES, txt='a-c "<\u00e9'):
    name = names[sx.choice('field %d' % i, list(range(len(names))))]
    s = sx.str('value %d' % i, sx.choice('length %d' % i, lens), txt)
    lang = sx.choice('lang %d' % i, langs)
    owners[name].set_cts_property(name, s, lang)
    for x in (who if isinstance(who, list) else [who]):
        st.add(x, name, s, lang, 'text')


def h_fill(sx, n, classes, lens, twice):
    """a text filled from its collections"""
    set_graph(bind_graph())
    G, W, E = sx.choice('classes', classes)
    inv = CtsTextInventoryMetadata('inv') if sx.bool('in an inventory') else None
    g = G('urn:cts:n:g', parent=inv)
    w = W('urn:cts:n:g.w', parent=g)
    e = E('urn:cts:n:g.w.e', parent=w, lang='lat')
    owners = dict(groupname=g, title=w, label=e, description=e)
    st = Store()
    for i in range(n):
        fill(sx, st, 'e', i, owners, lens)
    cite = sx.choice('scheme of the collection', ['none', 'unset', 'set'])
    if cite != 'none':
        e.citation = Citation(name='chapter', refsDecl="#xpath(/tei:TEI//tei:div[@n='$1'])" if cite == 'set' else None)
    own = sx.choice('scheme of the text', [True, False])
    if own:
        t, _ = build(sx, 1, ids_fixed=True, text='word')
        mine = t.citation
    else:
        class Any:
            def __getattr__(self, name):
                raise AssertionError('asked the network')
        t = CtsText('urn:cts:n:g.w.e', retriever=Any())
        mine = t.citation
    u, _ = build(sx, 1, ids_fixed=True, text='word')
    t.set_metadata_from_collection(e)
    if twice and sx.bool('twice'):
        t.set_metadata_from_collection(e)
    check_text(sx, t, st, 'e', 'filled')
    check_text(sx, u, st, 'u', 'another text')
    check_collection(sx, e, w, g, st, 'e', 'filled')
    if own or cite != 'set':
        sx.check(t.citation is mine, 'filled: its own citation scheme kept')
    else:
        sx.check(t.citation is e.citation or [c.refsDecl for c in t.citation] == [c.refsDecl for c in e.citation], 'filled: with the citation scheme of the collection')


def h_two(sx, n, lens):
    """two texts, of one work or of two, filled one after the other"""
    set_graph(bind_graph())
    how = sx.choice('texts', ['one work', 'one group', 'apart'])
    gs = [CtsTextgroupMetadata('urn:cts:n:g')]
    gs.append(gs[0] if how != 'apart' else CtsTextgroupMetadata('urn:cts:n:g2'))
    ws = [CtsWorkMetadata('urn:cts:n:g.w', parent=gs[0])]
    ws.append(ws[0] if how == 'one work' else CtsWorkMetadata(gs[1].id + '.w2', parent=gs[1]))
    es = [CtsEditionMetadata('urn:cts:n:g.w.e', parent=ws[0], lang='lat')]
    es.append(CtsTranslationMetadata(ws[1].id + '.e2', parent=ws[1], lang='eng'))
    st = Store()
    for i in range(n):
        k = sx.choice('object %d' % i, [0, 1])
        owners = dict(groupname=gs[k], title=ws[k], label=es[k], description=es[k])
        name = NAMES[sx.choice('field %d' % i, list(range(len(NAMES))))]
        s = sx.str('value %d' % i, sx.choice('length %d' % i, lens), 'ab')
        lang = sx.choice('lang %d' % i, ['eng', 'en'])
        owners[name].set_cts_property(name, s, lang)
        for j in (0, 1):
            if dict(groupname=gs, title=ws, label=es, description=es)[name][j] is owners[name]:
                st.add(j, name, s, lang, 'text')
    t, _ = build(sx, 1, ids_fixed=True, text='word')
    u, _ = build(sx, 1, ids_fixed=True, text='word')
    p = t.getTextualNode(CtsReference('1'))
    t.set_metadata_from_collection(es[0])
    u.set_metadata_from_collection(es[1])
    check_text(sx, t, st, 0, 'first')
    check_text(sx, u, st, 1, 'second')
    check_text(sx, p, st, 'p', 'a passage retrieved before')
    p.set_metadata_from_collection(es[0])
    check_text(sx, p, st, 0, 'passage')
    for k in (0, 1):
        check_collection(sx, es[k], ws[k], gs[k], st, k, 'two')


def tag(name, s, lang):
    return '<ti:%s%s>%s</ti:%s>' % (name, '' if lang is None else ' xml:lang="%s"' % lang, s, name)


def h_resolver(sx, n, lens, txt):
    """texts of a corpus folder, read by its resolver"""
    set_graph(bind_graph())
    root = sx.scratch()
    st = Store()
    said = dict((x, []) for x in ('groupname', 'title', 'v0', 'v1'))
    for i in range(n):
        name = NAMES[sx.choice('field %d' % i, list(range(4)))]
        s = sx.str('value %d' % i, sx.choice('length %d' % i, lens), txt)
        lang = sx.choice('lang %d' % i, LANGS)
        if name in said:
            said[name].append(tag(name, s, lang))
            ks = [0, 1]
        else:
            k = sx.choice('text %d' % i, [0, 1])
            said['v%d' % k].append(tag(name, s, lang))
            ks = [k]
        for k in ks:
            st.add(k, name, s, lang, 'text')
    path = os.path.join(root, 'data', 'g')
    write(os.path.join(path, '__cts__.xml'), '<ti:textgroup %s urn="urn:cts:ns:g">%s</ti:textgroup>' % (NS, ''.join(said['groupname'])))
    write(os.path.join(path, 'w', '__cts__.xml'),
          '<ti:work %s groupUrn="urn:cts:ns:g" urn="urn:cts:ns:g.w" xml:lang="lat">%s%s</ti:work>' % (NS, ''.join(said['title']), ''.join(
              '<ti:%s workUrn="urn:cts:ns:g.w" urn="urn:cts:ns:g.w.v%d" xml:lang="eng">%s</ti:%s>' % (kind, k, ''.join(said['v%d' % k]), kind)
              for k, kind in enumerate(['edition', 'translation']))))
    for k in (0, 1):
        write(os.path.join(path, 'w', 'g.w.v%d.xml' % k),
              '<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc><refsDecl n="CTS">%s</refsDecl></encodingDesc></teiHeader>'
              '<text><body><div n="1"><l n="1">text %d</l></div></body></text></TEI>' % (''.join(
                  '<cRefPattern n="%s" matchPattern="%s" replacementPattern="%s"/>' % d for d in reversed(DECL[:2])), k))
    res = CtsCapitainsLocalResolver([root])
    first = sx.choice('first asked', [0, 1])
    got = {}
    for k in (first, 1 - first, first):
        ref = sx.choice('passage %d' % len(got), [None, '1', '1.1', '1-1.1'])
        t = res.getTextualNode('urn:cts:ns:g.w.v%d' % k, ref, metadata=True)
        got[len(got)] = (k, t)
    plain = res.getTextualNode('urn:cts:ns:g.w.v0', '1')
    for i in got:
        check_text(sx, got[i][1], st, got[i][0], 'resolver')
    check_text(sx, plain, st, 'none', 'resolver, metadata not asked')
    for k in (0, 1):
        e = res.getMetadata('urn:cts:ns:g.w.v%d' % k)
        check_collection(sx, e, e.parent, e.parent.parent, st, k, 'resolver')


def h_remote(sx, n, lens, txt):
    """what a CTS API says of a text"""
    set_graph(bind_graph())
    st = Store()
    said = dict((x, []) for x in NAMES)
    order = []
    for i in range(n):
        name = NAMES[sx.choice('field %d' % i, list(range(4)))]
        s = sx.str('value %d' % i, sx.choice('length %d' % i, lens), txt)
        lang = sx.choice('lang %d' % i, LANGS)
        order.append((name, tag(name, s, lang)))
        # a value without a language is in the default one
        st.add('t', name, s, lang or 'eng', 'text')
    label = '<ti:label>%s</ti:label>'
    inner = ''.join(x[1] for x in sorted(order, key=lambda x: NAMES.index(x[0])))
    cite = "<ti:citation label='book' xpath='/tei:div[@n=\"?\"]' scope='/tei:TEI/tei:text'/>" if sx.bool('with a citation') else ''
    wrap = '<TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><div n="1"><l n="1">x</l></div></body></text></TEI>'
    rest = {
        'GetLabel': label % (inner + cite),
        'GetPassagePlus': '<ti:urn>urn:cts:ns:g.w.v:1</ti:urn><ti:passage>%s</ti:passage>' % wrap + label % (inner + cite) + '<ti:prevnext><ti:prev/><ti:next/></ti:prevnext>',
    }

    def answer(call):
        r = call.get('request')
        return Answer('<ti:%s %s><ti:request><ti:requestName>%s</ti:requestName></ti:request><ti:reply>%s</ti:reply></ti:%s>' % (r, NS, r, rest[r], r))
    Net(sx, answer)
    r = HttpCtsRetriever('http://cts.example/api')
    how = sx.choice('asked', ['label', 'passage', 'resolver'])
    own = None if how == 'resolver' or not sx.bool('its own citation') else Citation(name='poem', refsDecl="#xpath(/tei:TEI//tei:lg[@n='$1'])")
    if how == 'label':
        t = CtsText('urn:cts:ns:g.w.v', retriever=r, citation=own)
        got = t.getLabel()
        sx.check(got is t.metadata, 'the metadata of the text')
    elif how == 'passage':
        text = CtsText('urn:cts:ns:g.w.v', retriever=r, citation=own)
        t = text.getPassagePlus('1')
        if own is not None and not cite:
            sx.check([(c.name, c.refsDecl) for c in text.citation] == [('poem', own.refsDecl)], 'its own citation scheme kept', got=[(c.name, c.refsDecl) for c in text.citation])
        elif cite:
            sx.check([(c.name, c.scope) for c in text.citation] == [('book', '/tei:TEI/tei:text')], 'the citation scheme of the reply', got=text.citation.name)
        else:
            sx.check(not text.citation.is_set(), 'no citation scheme of the text')
    else:
        t = HttpCtsResolver(r).getTextualNode('urn:cts:ns:g.w.v', subreference='1', metadata=True)
    check_text(sx, t, st, 't', how)
    if own is not None and how == 'label':
        sx.check([(c.name, c.refsDecl) for c in t.citation] == [('poem', own.refsDecl)], how + ': its own citation scheme kept', got=[(c.name, c.refsDecl) for c in t.citation])
    elif cite:
        sx.check([(c.name, c.scope, c.xpath) for c in t.citation] == [('book', '/tei:TEI/tei:text', '/tei:div[@n="?"]')], how + ': citation scheme',
                 got=[(c.name, c.scope, c.xpath) for c in t.citation])
    else:
        sx.check(not t.citation.is_set(), how + ': no citation scheme')
    other = CtsText('urn:cts:ns:g.w.v', retriever=r)
    check_text(sx, other, st, 'none', 'another text')


ASSUMPTIONS = []
R = Registry()
R.add('fill', h_fill, dict(n=2, classes=PLAIN[:1] + XML[1:], lens=[0, 1], twice=False), dict(n=3, classes=PLAIN[:1] + XML[1:2], lens=[1], twice=True), 'texts filled from their collections')
R.add('two', h_two, dict(n=2, lens=[1]), dict(n=3, lens=[1]), 'two texts')
R.add('resolver', h_resolver, dict(n=1, lens=[1, 2], txt='ab'), dict(n=2, lens=[1], txt='ab'), 'texts of a corpus folder')
R.add('remote', h_remote, dict(n=2, lens=[0, 1], txt='ab'), dict(n=3, lens=[0, 1], txt='ab'), 'texts of an API')
names, get, bounds = R.names, R.get, R.bounds
