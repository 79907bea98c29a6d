"""C19 A CTS inventory survives export and parsing."""
from lxml import etree
from rdflib import Literal, URIRef
from rdflib.namespace import DCTERMS
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.common.reference import Citation
from MyCapytain.resources.collections.cts import (
    XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata,
    XmlCtsTranslationMetadata, XmlCtsCommentaryMetadata, XmlCtsCitation)
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata,
    CtsCommentaryMetadata)
from props._util import Registry

CTS = RDF_NAMESPACES.CTS
PLAIN = {'ti': CtsTextInventoryMetadata, 'tg': CtsTextgroupMetadata, 'wk': CtsWorkMetadata, 'edition': CtsEditionMetadata,
         'translation': CtsTranslationMetadata, 'commentary': CtsCommentaryMetadata}
PARSED = {'ti': XmlCtsTextInventoryMetadata, 'tg': XmlCtsTextgroupMetadata, 'wk': XmlCtsWorkMetadata,
          'edition': XmlCtsEditionMetadata, 'translation': XmlCtsTranslationMetadata, 'commentary': XmlCtsCommentaryMetadata}
KINDS = ['edition', 'translation', 'commentary']
TXT = ' a1<>&"\'\u00e9'
LANGS = [None, 'eng', 'en']


class Texts:
    """where the arbitrary value goes, all others are fixed"""

    def __init__(self, sx, spots, lens, txt):
        self.spot = sx.choice('arbitrary', spots)
        if self.spot is not None:
            n = sx.choice('length', lens)
            self.value = sx.str('value', n, txt)
            if n:
                # blank text is indentation for an XML reader
                sx.assume(self.value.strip(' ') != '')
        self.used = False

    def __call__(self, what, default):
        if what == self.spot and not self.used:
            self.used = True
            return self.value
        return default


def rows(obj, preds):
    out = []
    for p in preds:
        for o in obj.metadata.get(p):
            out.append((str(p), str(o), getattr(o, 'language', None), isinstance(o, URIRef)))
    return sorted(out, key=lambda r: tuple('' if x is None else str(x) for x in r))


def citation_rows(c):
    return None if c is None else [(x.name, x.refsDecl, x.scope, x.xpath) for x in c]


PREDS = {'tg': [CTS.groupname], 'wk': [CTS.term('title')], 'text': [CTS.label, CTS.description, CTS.about]}


def picture(inv):
    """everything the inventory says, in the order of its members"""
    out = []
    for g, tg in inv.textgroups.items():
        works = []
        for w, wk in tg.works.items():
            texts = []
            for t, x in wk.texts.items():
                texts.append((t, x.id, str(x.urn), x.TYPE_URI, x.subtype, x.lang, rows(x, PREDS['text']), citation_rows(x.citation),
                              x.parent is wk))
            works.append((w, wk.id, str(wk.urn), wk.lang, rows(wk, PREDS['wk']), texts, wk.parent is tg))
        out.append((g, tg.id, str(tg.urn), rows(tg, PREDS['tg']), works, tg.parent is inv))
    return (inv.id, out)


def by_kind(p):
    """works list editions, translations and commentaries in that order once parsed: nothing is promised about the order of texts"""
    return (p[0], sorted(((g[0], g[1], g[2], g[3], sorted((w[:5] + (sorted(w[5], key=lambda t: t[0]), w[6]) for w in g[4]), key=lambda w: w[0]), g[5])
                          for g in p[1]), key=lambda g: g[0]))


REFS = ["/tei:TEI/tei:body/tei:div[@n='$1']", "/tei:TEI/tei:body/tei:div[@n='$1']//tei:l[@n='$2']",
        "/tei:TEI/tei:body/tei:div[@n='$1']//tei:l[@n='$2']/tei:w[@n='$3']"]


def scheme(sx, depth, names, k):
    c = None
    for i in reversed(range(depth)):
        c = Citation(name=sx.str('citation %d %d' % (k, i), 1, names), refsDecl=REFS[i], child=c)
    return c


def build(sx, classes, shape, kinds, langs, val, optional, langless, meta=False, more=None):
    """shape: list of groups, each a list of works, each a number of texts"""
    inv = classes['ti'](val('inventory', 'inv'))
    n = 0
    for i, group in enumerate(shape):
        gu = 'urn:cts:ns:g%d' % i + val('urn', '')
        tg = classes['tg'](gu, parent=inv)
        labels(sx, tg, 'groupname', val, langs, optional)
        for j, work in enumerate(group):
            wu = gu + '.w%d' % j
            wk = classes['wk'](wu, parent=tg)
            lang = sx.choice('work language %d%d' % (i, j), langless)
            if lang is not None:
                wk.lang = lang
            labels(sx, wk, 'title', val, langs, optional)
            for k in range(work):
                kind = sx.choice('kind %d' % n, kinds)
                tl = None
                if kind != 'edition' and sx.bool('own language %d' % n):
                    tl = val('language', 'ger')
                x = classes[kind](wu + '.t%d' % k, parent=wk, lang=tl)
                labels(sx, x, 'label', val, langs, optional)
                labels(sx, x, 'description', val, langs, optional)
                if more:
                    for a in range(sx.choice('links %d' % n, more['links'])):
                        x.set_link(CTS.about, 'urn:cts:ns:' + sx.str('about %d %d' % (n, a), 1, 'abc'))
                    for a in range(sx.choice('labels %d' % n, more['labels'])):
                        p = sx.choice('what %d %d' % (n, a), ['label', 'description'])
                        x.set_cts_property(p, sx.str('label %d %d' % (n, a), 1, 'ab'), sx.choice('lang %d %d' % (n, a), LANGS[:2]))
                    x.citation = scheme(sx, sx.choice('levels %d' % n, more['levels']), 'ab', n)
                    n += 1
                    continue
                if optional and sx.bool('about %d' % n):
                    x.set_link(CTS.about, val('about', 'urn:cts:ns:other.w'))
                if not optional or sx.bool('cited %d' % n):
                    x.citation = Citation(name=val('citation', 'book'), refsDecl="/tei:TEI/tei:body/tei:div[@n='$1']",
                                          child=Citation(name='line', refsDecl="/tei:TEI/tei:body/tei:div[@n='$1']//tei:l[@n='$2']"))
                if meta:
                    m = sx.choice('metadata', meta)
                    if m == 'uri':
                        x.metadata.add(DCTERMS.source, URIRef('urn:' + val('structured', 'x')))
                    elif m == 'typed':
                        x.metadata.add(DCTERMS.source, Literal('1837', datatype=URIRef('http://www.w3.org/2001/XMLSchema#gYear')))
                    else:
                        x.metadata.add(DCTERMS.source, val('structured', 'x'), m)
                n += 1
    return inv


def labels(sx, obj, prop, val, langs, optional):
    if optional:
        which = sx.choice(prop + ' in', langs)
    else:
        which = langs[0]
    for l in which:
        obj.set_cts_property(prop, val(prop, prop + ' of it in ' + str(l)), l)


def h_trip(sx, shapes, kinds, langs, spots, lens, txt=TXT, optional=True, classes=('plain',), fmts=('cts',), langless=('lat',), meta=False, more=None):
    set_graph(bind_graph())
    val = Texts(sx, spots, lens, txt)
    cl = {'plain': PLAIN, 'parsed': PARSED}[sx.choice('classes', list(classes))]
    inv = build(sx, cl, sx.choice('shape', shapes), kinds, langs, val, optional, list(langless), meta, more)
    before = by_kind(picture(inv))
    n = len(inv)
    fmt = sx.choice('format', list(fmts))
    extra = None
    if fmt == 'collection':
        coll = CtsTextInventoryCollection('coll')
        inv.parent = coll
        doc = coll.export(Mimetypes.XML.CTS)
        before = ('coll',) + before[1:]
        n = len(coll)
    elif fmt in ('capitains', 'plain'):
        doc = inv.export(Mimetypes.XML.CapiTainS.CTS)
        extra = structured(inv)
        if fmt == 'plain':
            doc = etree.fromstring(doc)
    elif fmt == 'etree':
        doc = inv.export(Mimetypes.PYTHON.ETREE)
    else:
        doc = inv.export(Mimetypes.XML.CTS)
    if fmt not in ('etree', 'plain'):
        sx.observe('size', len(doc))
        sx.check(doc == (coll if fmt == 'collection' else inv).export(Mimetypes.XML.CapiTainS.CTS if fmt == 'capitains' else Mimetypes.XML.CTS),
                 'exporting again gives the same document')
    if fmt != 'collection':
        sx.check(by_kind(picture(inv)) == before, 'the inventory is unchanged by its export')
    set_graph(bind_graph())
    back = XmlCtsTextInventoryMetadata.parse(doc)
    after = by_kind(picture(back))
    sx.check(after == before, 'the same inventory once parsed', got=after, want=before)
    sx.check(len(back) == n, 'as many texts')
    if extra is not None:
        got = structured(back)
        sx.check(got == extra, 'the same structured metadata once parsed', got=got, want=extra)
    for d in back.readableDescendants:
        sx.check(back[d.id] is d and isinstance(d, tuple(PARSED[k] for k in KINDS)), 'texts are found and parsed as XML texts')
        sx.check(d.citation is None or isinstance(d.citation, XmlCtsCitation), 'citations are XML citations')


def structured(inv):
    out = []
    for x in inv.readableDescendants:
        for o in x.metadata.get(DCTERMS.source):
            out.append((x.id, str(o), getattr(o, 'language', None), str(getattr(o, 'datatype', None)), isinstance(o, URIRef)))
    return sorted(out, key=lambda r: tuple('' if x is None else str(x) for x in r))


def h_part(sx, lens, txt=TXT):
    """a work or a group exported alone"""
    set_graph(bind_graph())
    val = Texts(sx, [None, 'title', 'label', 'groupname'], lens, txt)
    inv = build(sx, PLAIN, [[1]], KINDS, [['eng']], val, False, ['lat'])
    tg = list(inv.textgroups.values())[0]
    wk = list(tg.works.values())[0]
    x = list(wk.texts.values())[0]
    part = sx.choice('part', ['tg', 'wk', 'text'])
    obj = {'tg': tg, 'wk': wk, 'text': x}[part]
    want = {'tg': (tg.id, rows(tg, PREDS['tg'])), 'wk': (wk.id, rows(wk, PREDS['wk']), wk.lang),
            'text': (x.id, rows(x, PREDS['text']), x.TYPE_URI, citation_rows(x.citation))}
    doc = obj.export(Mimetypes.XML.CTS)
    set_graph(bind_graph())
    if part == 'text':
        t = PARSED[x.subtype].parse(doc)
    elif part == 'wk':
        w = XmlCtsWorkMetadata.parse(doc)
        sx.check((w.id, rows(w, PREDS['wk']), w.lang) == want['wk'], 'work alone')
        t = list(w.texts.values())[0]
    else:
        g = XmlCtsTextgroupMetadata.parse(doc)
        sx.check((g.id, rows(g, PREDS['tg'])) == want['tg'], 'group alone')
        w = list(g.works.values())[0]
        sx.check((w.id, rows(w, PREDS['wk']), w.lang) == want['wk'], 'work of the group')
        t = list(w.texts.values())[0]
    got = (t.id, rows(t, PREDS['text']), t.TYPE_URI, citation_rows(t.citation))
    sx.check(got == want['text'], 'text alone', got=got, want=want['text'])


def h_reread(sx, rounds, langs, kinds, txt='ab'):
    """documents about the same texts, read one after the other"""
    set_graph(bind_graph())
    labels = {}
    kind = sx.choice('kind', kinds)
    for i in range(sx.choice('documents', rounds)):
        wl = sx.choice('work language %d' % i, langs)
        tl = None if kind == 'edition' else sx.choice('text language %d' % i, [None] + langs)
        label = sx.str('label %d' % i, 1, txt)
        doc = ('<ti:TextInventory xmlns:ti="http://chs.harvard.edu/xmlns/cts" tiid="inv"><ti:textgroup urn="urn:cts:ns:g">'
               '<ti:groupname xml:lang="eng">g</ti:groupname><ti:work urn="urn:cts:ns:g.w" xml:lang="' + wl + '">'
               '<ti:title xml:lang="eng">w</ti:title><ti:' + kind + ' workUrn="urn:cts:ns:g.w" urn="urn:cts:ns:g.w.t"' +
               ('' if tl is None else ' xml:lang="' + tl + '"') + '><ti:label xml:lang="eng">' + label + '</ti:label>'
               '</ti:' + kind + '></ti:work></ti:textgroup></ti:TextInventory>')
        inv = XmlCtsTextInventoryMetadata.parse(doc)
        x = inv['urn:cts:ns:g.w.t']
        sx.check(x.subtype == kind, 'the kind the document gives')
        sx.check(x.parent.lang == wl, 'the work has the language of the document', got=x.parent.lang, want=wl)
        sx.check(x.lang == (tl or wl), 'the text has the language of the document', got=x.lang, want=tl or wl)
        labels[i] = label
        got = sorted(str(o) for o in x.metadata.get(CTS.label))
        sx.check(all(g in list(labels.values()) for g in got) and label in got, 'the label of the document is there', got=got)
        sx.check(len(inv) == 1 and list(inv.textgroups) == ['urn:cts:ns:g'], 'one text in each')


# texts without a language nor a type, with the type of what is read
WORDS = [('text', None), ('true', None), ('urnal', None), ('null', None), ('https', None), ('12', 'integer'), ('false', None), ('None', None), ('hdl', None), ('-384', 'integer'), ('1.5', 'float'), ('12a', None), ('1.5.2', None), ('', None)]
XSD = 'http://www.w3.org/2001/XMLSchema#'


def h_given(sx, counts, lens, txt, words):
    """structured metadata of a document which is given"""
    set_graph(bind_graph())
    place = sx.choice('described', ['group', 'work', 'text'])
    fields, want, keys = '', [], ['dct:source', 'dct:title']
    for i in range(sx.choice('fields', counts)):
        key = sx.choice('key %d' % i, [0, 1])
        kind = sx.choice('kind %d' % i, ['plain', 'eng', 'uri', 'typed', 'word'])
        text, attr = sx.str('text %d' % i, sx.choice('length %d' % i, lens), txt), ''
        row = (text, None, None, False)
        if kind == 'eng':
            attr, row = ' xml:lang="eng"', (text, 'eng', None, False)
        elif kind == 'uri':
            text = sx.choice('scheme %d' % i, ['urn:', 'http://', 'https://', 'hdl:']) + text
            row = (text, None, None, True)
        elif kind == 'typed':
            type_, full = sx.choice('type %d' % i, [('xsd:string', XSD + 'string'), ('dct:kind', 'http://purl.org/dc/terms/kind'), ('http://kinds.example/a', 'http://kinds.example/a')])
            attr, row = ' rdf:datatype="' + type_ + '"', (text, None, full, False)
        elif kind == 'word':
            text, t = sx.choice('word %d' % i, words)
            row = (text, None, t and XSD + t, False)
        fields += '<' + keys[key] + attr + '>' + text + '</' + keys[key] + '>'
        if (key,) + row not in want:
            want.append((key,) + row)
    extra = '<cpt:structured-metadata>' + fields + '</cpt:structured-metadata>'
    at = lambda p: extra if p == place else ''
    doc = ('<ti:TextInventory xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:dct="http://purl.org/dc/terms/" xmlns:xsd="' + XSD + '" '
           'xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cpt="http://purl.org/capitains/ns/1.0#" tiid="inv"><ti:textgroup urn="urn:cts:ns:g">'
           '<ti:groupname xml:lang="eng">g</ti:groupname>' + at('group') + '<ti:work urn="urn:cts:ns:g.w" xml:lang="lat">'
           '<ti:title xml:lang="eng">w</ti:title>' + at('work') + '<ti:edition workUrn="urn:cts:ns:g.w" urn="urn:cts:ns:g.w.t">'
           '<ti:label xml:lang="eng">l</ti:label>' + at('text') + '</ti:edition></ti:work></ti:textgroup></ti:TextInventory>')
    inv = XmlCtsTextInventoryMetadata.parse(doc)
    for p, u in (('group', 'urn:cts:ns:g'), ('work', 'urn:cts:ns:g.w'), ('text', 'urn:cts:ns:g.w.t')):
        for k, key in enumerate([DCTERMS.source, DCTERMS.title]):
            got = [(str(o), getattr(o, 'language', None), None if getattr(o, 'datatype', None) is None else str(o.datatype), isinstance(o, URIRef))
                   for o in inv[u].metadata.get(key)]
            exp = [w[1:] for w in want if p == place and w[0] == k]
            sx.check(len(got) == len(exp) and all(any(g == e for g in got) for e in exp), 'the structured metadata the document gives', got=got, want=exp)
    sx.observe('fields', [list(w) for w in want])


R = Registry()
ONE = [[[1]]]
SPOTS = ['groupname', 'title', 'label', 'description', 'citation', 'structured']
SHAPES = [[], [[]], [[0]], [[1]], [[2]], [[1, 1]], [[1], [1]], [[2, 1], [1]]]
R.add('text', h_trip, dict(shapes=ONE, kinds=['edition'], langs=[['eng']], spots=['groupname', 'title', 'label', 'description', 'citation'], lens=[1, 2], optional=False),
      dict(shapes=ONE, kinds=KINDS, langs=[['eng']], spots=['groupname', 'title', 'label', 'description', 'citation'], lens=[1, 2, 3], optional=False,
           classes=('plain', 'parsed'), fmts=('cts', 'etree', 'collection')), 'arbitrary text in each place')
R.add('names', h_trip, dict(shapes=ONE, kinds=['translation'], langs=[['eng']], spots=['inventory', 'urn', 'language', 'about'], lens=[1, 2], txt='ab&<"1', optional=True, fmts=('cts', 'collection')),
      dict(shapes=ONE, kinds=KINDS, langs=[['eng']], spots=['inventory', 'urn', 'language', 'about'], lens=[1, 2], txt='ab&<>"\'1', optional=True, fmts=('cts', 'etree', 'collection', 'capitains')), 'arbitrary names')
R.add('shape', h_trip, dict(shapes=SHAPES[:-1], kinds=KINDS, langs=[['eng']], spots=[None], lens=[1], optional=False, classes=('plain', 'parsed'), fmts=('cts', 'collection', 'plain'), langless=(None, 'lat')),
      dict(shapes=SHAPES + [[[1], [], [2]]], kinds=KINDS, langs=[['eng']], spots=[None], lens=[1], optional=False, classes=('plain', 'parsed'), fmts=('cts', 'collection', 'etree', 'capitains'), langless=(None, 'lat')), 'shapes')
R.add('optional', h_trip, dict(shapes=ONE, kinds=['edition', 'commentary'], langs=[[], ['eng'], ['eng', 'en'], [None]], spots=[None, 'label'], lens=[0, 1], txt='ab', optional=True),
      dict(shapes=ONE, kinds=KINDS, langs=[[], ['eng'], ['eng', 'en'], [None], [None, 'eng']], spots=[None, 'label'], lens=[0, 1], txt='ab', optional=True, langless=(None, 'lat'), fmts=('cts', 'collection', 'capitains')), 'optional parts')
R.add('structured', h_trip, dict(shapes=ONE, kinds=['edition'], langs=[['eng']], spots=['structured'], lens=[1, 2], txt='0a&.t', optional=False, fmts=('capitains', 'plain'), meta=['uri', 'eng', 'typed']),
      dict(shapes=ONE, kinds=KINDS, langs=[['eng']], spots=['structured'], lens=[1, 2, 3], txt='01a&.<e-"', optional=False, fmts=('capitains', 'plain'), meta=['uri', 'eng', 'fre', 'typed']), 'structured metadata')
R.add('links', h_trip, dict(shapes=ONE, kinds=KINDS, langs=[['eng']], spots=[None], lens=[1], optional=False, more=dict(links=[0, 1, 2], labels=[0], levels=[0])),
      dict(shapes=[[[2]]], kinds=KINDS, langs=[['eng']], spots=[None], lens=[1], optional=False, more=dict(links=[0, 1, 2, 3], labels=[0], levels=[0])), 'any number of links')
R.add('labels', h_trip, dict(shapes=ONE, kinds=['translation'], langs=[[]], spots=[None], lens=[1], optional=False, more=dict(links=[0], labels=[1, 2, 3], levels=[0])),
      dict(shapes=ONE, kinds=KINDS, langs=[[]], spots=[None], lens=[1], optional=False, more=dict(links=[0, 1], labels=[2, 3], levels=[0, 1])), 'several labels and descriptions, also the same in two languages')
R.add('levels', h_trip, dict(shapes=ONE, kinds=['edition'], langs=[['eng']], spots=[None], lens=[1], optional=False, more=dict(links=[0], labels=[0], levels=[0, 1, 2, 3])),
      dict(shapes=[[[1]], [[2]]], kinds=KINDS[:2], langs=[['eng']], spots=[None], lens=[1], optional=False, more=dict(links=[0], labels=[0], levels=[0, 1, 2, 3])), 'citation schemes of up to three levels, levels of one name')
R.add('part', h_part, dict(lens=[1, 2]), dict(lens=[1, 2, 3]), 'groups, works and texts alone')
R.add('given', h_given, dict(counts=[0, 1, 2], lens=[1], txt='abc', words=WORDS[:7]), dict(counts=[1, 2], lens=[1, 2], txt='abc', words=WORDS), 'structured metadata of a document given')
R.add('reread', h_reread, dict(rounds=[1, 2], langs=['lat', 'grc'], kinds=KINDS), dict(rounds=[1, 2, 3], langs=['lat', 'grc', 'eng'], kinds=KINDS),
      'documents about the same texts read one after the other')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Texts are not blank (indentation for the XML reader); editions have the language of their work, as CTS inventories say.']
