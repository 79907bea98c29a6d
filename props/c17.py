"""C17 Metadata returns exactly what was stored."""
from rdflib import BNode, Literal, URIRef
from rdflib.namespace import DC, DCTERMS
from MyCapytain.common.constants import RDF_NAMESPACES
from MyCapytain.common.metadata import Metadata
from MyCapytain.resources.prototypes.cts.inventory import CtsEditionMetadata, CtsTextgroupMetadata, CtsWorkMetadata
from MyCapytain.resources.prototypes.metadata import ResourceCollection
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from props._util import Registry

KEYS = [DC.title, DC.creator]
LANGS = [None, 'eng', 'en']


class Store:
    """what should be stored: a list of (node, key, value, language, kind)"""

    def __init__(self):
        self.rows = []

    def add(self, *row):
        if not any(same(r, row) for r in self.rows):
            self.rows.append(row)

    def set(self, *row):
        self.rows = [r for r in self.rows if not (r[0] == row[0] and r[1] == row[1])]
        self.rows.append(row)

    def remove(self, node, key=None, obj=None):
        self.rows = [r for r in self.rows if not (r[0] == node and (key is None or r[1] == key) and (obj is None or same(r, obj)))]

    def get(self, node, key, lang=None):
        return [r for r in self.rows if r[0] == node and r[1] == key and (lang is None or r[3] == lang)]


def same(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[3] == b[3] and a[4] == b[4] and a[2] == b[2]


def value(sx, i, kinds, lens=(1,)):
    """(value to pass, language to pass, text, stored language, kind)"""
    k = sx.choice('kind %d' % i, kinds)
    s = sx.str('value %d' % i, sx.choice('length %d' % i, list(lens)), 'a-c "<\u00e9')
    if k == 'uri':
        s = 'u:' + sx.str('uri %d' % i, 1, 'ab')
        return URIRef(s), None, s, None, 'uri'
    if k == 'literal':
        lang = sx.choice('lang %d' % i, LANGS)
        return Literal(s, lang=lang), None, s, lang, 'text'
    if k == 'int':
        n = sx.choice('number %d' % i, [0, 7])
        return n, None, str(n), None, 'int'
    lang = sx.choice('lang %d' % i, LANGS)
    return s, lang, s, lang, 'text'


def kind_of(o):
    if isinstance(o, URIRef):
        return 'uri'
    if not isinstance(o, Literal):
        return type(o).__name__
    if o.datatype is not None:
        return 'int' if str(o.datatype).endswith('#integer') else str(o.datatype)
    return 'text'


def row_of(o):
    return str(o), getattr(o, 'language', None), kind_of(o)


def match(o, r):
    s, l, k = row_of(o)
    return k == r[4] and l == r[3] and s == r[2]


def equal(sx, got, rows, tag):
    got = list(got)
    sx.check(len(got) == len(rows) and all(any(match(o, r) for o in got) for r in rows), tag,
             got=[row_of(o) for o in got], want=[r[2:] for r in rows])


def audit(sx, st, objs, tag):
    for name, m in objs:
        for key in KEYS:
            rows = st.get(name, key)
            equal(sx, m.get(key), rows, tag + ': values of a key')
            equal(sx, m[key], rows, tag + ': item access')
            one = m.get_single(key)
            sx.check(one is None if not rows else one is not None and any(match(one, r) for r in rows), tag + ': a single value', got=one)
            for lang in LANGS[1:]:
                lr = st.get(name, key, lang)
                equal(sx, m.get(key, lang), lr, tag + ': values of a key in a language')
                for one in (m.get_single(key, lang), m[key, lang], m.get_single(str(key), lang)):
                    ok = lr or rows
                    sx.check(one is None if not ok else one is not None and any(match(one, r) for r in ok), tag + ': a single value in a language', got=one)


def h_history(sx, steps, kinds, ops, lens):
    objs = [('A', Metadata(URIRef('n:a'))), ('B', Metadata() if sx.bool('blank') else Metadata(URIRef('n:b')))]
    st = Store()
    for i in range(steps):
        name, m = objs[sx.choice('object %d' % i, [0, 1])] if i else objs[0]
        op = sx.choice('op %d' % i, ops if i else ['add', 'set'])
        key = KEYS[sx.choice('key %d' % i, [0, 1])] if i else KEYS[0]
        if op == 'remove':
            what = sx.choice('removed %d' % i, ['all', 'key', 'value'])
            if what == 'all':
                m.remove()
                st.remove(name)
            elif what == 'key':
                m.remove(key)
                st.remove(name, key)
            else:
                v, _, s, l, k = value(sx, i, ['literal'], lens)
                m.remove(key, v)
                st.remove(name, key, (name, key, s, l, k))
            continue
        v, lang, s, l, k = value(sx, i, kinds, lens)
        getattr(m, op)(key, v, lang)
        getattr(st, op)(name, key, s, l, k)
    audit(sx, st, objs, 'history')
    other = Metadata(objs[0][1].asNode())
    audit(sx, st, [('A', other)], 'another view')
    sx.observe('stored', [(r[0], r[2]) for r in st.rows])


def h_unlink(sx):
    """triples of others pointing at this object"""
    a, b = Metadata(URIRef('n:a')), Metadata(URIRef('n:b'))
    key = sx.choice('key', KEYS)
    s = sx.str('value', 2, 'a-c')
    a.add(key, b.asNode())
    a.add(key, s, 'eng')
    b.add(key, s)
    b.add(key, a.asNode())
    p = sx.choice('predicate', [None] + KEYS)
    b.unlink(predicate=p)
    got = sorted(str(x) for x in a.get(key))
    sx.check(got == ([s] if p is None or p == key else sorted([s, 'n:b'])), 'unlink: only the links to the object', got=got)
    sx.check(sorted(str(x) for x in b.get(key)) == sorted([s, 'n:a']), 'unlink: values of the object kept')


def h_get_or(sx, n):
    """the metadata linked to a subject"""
    subjects = [URIRef('s:1'), URIRef('s:' + sx.str('subject', 1, '12'))]
    nodes = [Metadata(URIRef('n:%d' % i)) for i in range(n)]
    for i, m in enumerate(nodes):
        m.add(DC.title, 'title %d' % i)
    links = []
    for i in range(n):
        s = subjects[sx.choice('linked to %d' % i, [0, 1])]
        key = KEYS[sx.choice('by %d' % i, [0, 1])]
        Metadata(s).add(key, nodes[i].asNode())
        links.append((s, key, i))
    subject = subjects[sx.choice('asked', [0, 1])]
    key = KEYS[sx.choice('asked by', [0, 1])]
    fresh = URIRef('n:new') if sx.bool('node for a new one') else None
    got = Metadata.getOr(subject, key, **({} if fresh is None else {'node': fresh}))
    found = [i for s, k, i in links if s == subject and k == key]
    sx.observe('found', found)
    titles = [str(x) for x in got.get(DC.title)]
    if found:
        sx.check(titles in [['title %d' % i] for i in found] and str(got.asNode()) in ['n:%d' % i for i in found], 'getOr: the metadata linked', got=titles, want=found)
    else:
        sx.check(titles == [] and (isinstance(got.asNode(), BNode) if fresh is None else got.asNode() == fresh), 'getOr: new metadata', got=titles)
        got.add(DC.title, 'other')
    for i, m in enumerate(nodes):
        sx.check([str(x) for x in m.get(DC.title)] == ['title %d' % i], 'getOr: nothing else changed')


PROPS = [('creator', DC.creator), ('title', DC.title), ('description', DC.description), ('subject', DC.subject)]


def h_text(sx, n, lens=(0, 1)):
    """setters and getters of texts"""
    from props.texts import build
    t, _ = build(sx, 1, ids_fixed=True, text='word')
    u, _ = build(sx, 1, ids_fixed=True, text='word')
    st = Store()
    for i in range(n):
        which = sx.choice('property %d' % i, list(range(len(PROPS) + 1)))
        v, lang, s, l, k = value(sx, i, ['text', 'literal'], lens)
        if which == len(PROPS):
            # A title may be given in the terms of Dublin Core: it is that of a text without another
            t.metadata.add(DCTERMS.title, v, lang)
            st.add('t', 'term', s, l, k)
            continue
        name, key = PROPS[which]
        getattr(t, 'set_' + name)(v, lang)
        st.add('t', name, s, l, k)
    for name, key in PROPS:
        rows = st.get('t', name)
        equal(sx, t.metadata.get(key), rows, 'text: values')
        for lang in LANGS:
            one = getattr(t, 'get_' + name)(lang)
            ok = st.get('t', name, lang) or rows
            if name == 'title' and not rows:
                ok = st.get('t', 'term', lang) or st.get('t', 'term')
            sx.check(one is None if not ok else one is not None and any(match(one, r) for r in ok), 'text: a single value', got=one)
            sx.check(getattr(u, 'get_' + name)(lang) is None, 'text: other texts unaffected')


def h_cts(sx, n):
    """properties in the CTS namespace and labels"""
    w = CtsWorkMetadata('urn:cts:n:g.w', parent=CtsTextgroupMetadata('urn:cts:n:g'))
    t = CtsEditionMetadata('urn:cts:n:g.w.t', parent=w, lang='lat')
    st = Store()
    for i in range(n):
        who = sx.choice('object %d' % i, [0, 1])
        prop = ['title', 'label'][who] if sx.bool('main property %d' % i) else 'description'
        v, lang, s, l, k = value(sx, i, ['text'])
        (w, t)[who].set_cts_property(prop, v, lang)
        for r in st.get(who, prop, l):
            sx.assume(False)       # one value for a property and language
        st.add(who, prop, s, l, k)
    for who, x in enumerate((w, t)):
        for prop in ('title', 'label', 'description'):
            rows = st.get(who, prop)
            got = x.get_cts_property(prop)
            sx.check(len(got) == len(rows) and all(any(l == r[3] and match(got[l], r) for l in got) for r in rows),
                     'cts: property by language', got=list(got.items()))
            for lang in LANGS[1:]:
                ok = st.get(who, prop, lang) or rows
                one = x.get_cts_property(prop, lang)
                sx.check(one is None if not ok else one is not None and any(match(one, r) for r in ok), 'cts: property in a language', got=one)
        main = ['title', 'label'][who]
        rows = st.get(who, main)
        for lang in LANGS:
            ok = (st.get(who, main, lang) if lang else []) or rows
            one = x.get_label(lang)
            sx.check(one is None if not ok else one is not None and any(match(one, r) for r in ok), 'cts: label', got=one)
    rows = st.get(0, 'title')
    for lang in LANGS:
        ok = (st.get(0, 'title', lang) if lang else []) or rows
        one = t.get_title(lang)
        sx.check(one is None if not ok else one is not None and any(match(one, r) for r in ok), 'cts: title of a text is that of its work', got=one)
        one = t.get_creator(lang)
        sx.check(one is None, 'cts: creator of a text is the name of its group', got=one)


R = Registry()
OPS = ['add', 'set', 'remove']
R.add('history', h_history, dict(steps=3, kinds=['text'], ops=OPS, lens=[1]),
      dict(steps=3, kinds=['text', 'literal', 'uri', 'int'], ops=OPS, lens=[1, 2]), 'every history of operations')
R.add('kinds', h_history, dict(steps=2, kinds=['text', 'literal', 'uri', 'int'], ops=OPS, lens=[0, 2]), None, 'every kind of value')
R.add('long', h_history, None, dict(steps=4, kinds=['text'], ops=OPS, lens=[1]), 'histories of 4 operations', ('thorough',))
R.add('unlink', h_unlink, {}, {}, 'removal of links')
R.add('getOr', h_get_or, dict(n=2), dict(n=3), 'metadata linked to a subject')
R.add('text', h_text, dict(n=2), dict(n=3), 'setters of texts')
R.add('cts', h_cts, dict(n=2), dict(n=3), 'CTS properties')
names, get, bounds = R.names, R.get, R.bounds
