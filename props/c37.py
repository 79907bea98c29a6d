"""C37 A collection says of itself what it was told, and nothing of others."""
from rdflib import Literal, URIRef
from rdflib.namespace import DC, RDFS, SKOS
from MyCapytain.common.constants import RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata)
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from props._util import Registry
from props.c17 import LANGS, Store, equal, match, value

DTS = RDF_NAMESPACES.DTS
CTS = RDF_NAMESPACES.CTS
DCS = [('creator', DC.creator), ('title', DC.title), ('description', DC.description), ('subject', DC.subject)]
# class, its type, its model, the CTS property which is its label, whether it has a language
KINDS = {
    'collection': (Collection, DTS.collection, DTS.collection, None, False),
    'resource': (ResourceCollection, DTS.collection, DTS.collection, None, True),
    'dts': (DtsCollection, DTS.collection, DTS.collection, None, False),
    'inventory': (CtsTextInventoryMetadata, CTS.TextInventory, DTS.collection, 'name', False),
    'group': (CtsTextgroupMetadata, CTS.textgroup, DTS.collection, 'groupname', False),
    'work': (CtsWorkMetadata, CTS.work, DTS.collection, 'title', True),
    'edition': (CtsEditionMetadata, CTS.edition, DTS.resource, 'label', True),
    'translation': (CtsTranslationMetadata, CTS.translation, DTS.resource, 'label', True),
    'commentary': (CtsCommentaryMetadata, CTS.commentary, DTS.resource, 'label', True)}
IDS = ['urn:cts:n:g.w.a', 'urn:cts:n:g.w.b']


def one_of(sx, got, st, who, key, lang, tag):
    rows = st.get(who, key)
    ok = (st.get(who, key, lang) if lang else []) or rows
    sx.check(got is None if not ok else got is not None and any(match(got, r) for r in ok), tag, lang=lang, got=got, want=[r[2:] for r in ok])


def h_told(sx, kinds, steps, ops, lens):
    """two collections of any class, told anything in any order"""
    set_graph(bind_graph())
    names = [sx.choice('class 0', kinds), sx.choice('class 1', kinds)]
    objs = [KINDS[k][0](i) for k, i in zip(names, IDS)]
    st = Store()
    last = [dict(type=str(KINDS[k][1]), model=str(KINDS[k][2]), version=None, lang=None) for k in names]
    for i in range(steps):
        who = sx.choice('object %d' % i, [0, 1]) if i else 0
        x, main, has_lang = objs[who], KINDS[names[who]][3], KINDS[names[who]][4]
        op = sx.choice('op %d' % i, [o for o in ops if (o != 'property' or main) and (o != 'lang' or has_lang)])
        if op in ('label', 'property'):
            v, lang, s, l, k = value(sx, i, ['text'], lens)
            if op == 'label':
                x.set_label(v, lang)
            else:
                x.set_cts_property(main, v, lang)
                st.add(who, 'cts', s, l, k)
            st.add(who, 'label', s, l, k)
        elif op == 'link':
            s = 'u:' + sx.str('uri %d' % i, 1, 'ab')
            x.set_link(CTS.about, URIRef(s) if sx.bool('as a URI %d' % i) else s) if main else x.metadata.add(CTS.about, URIRef(s))
            st.add(who, 'link', s, None, 'uri')
        else:
            s = ('http://t.org/' if op != 'lang' else '') + sx.str('value %d' % i, sx.choice('length %d' % i, lens), 'abc')
            setattr(x, op, URIRef(s) if op in ('type', 'model') and sx.bool('as a URI %d' % i) else s)
            last[who][op] = s
    sx.observe('told', [list(r) for r in st.rows])
    for who, x in enumerate(objs):
        sx.check(x.id == IDS[who] and str(x.asNode()) == IDS[who], 'identifier', got=x.id)
        for lang in LANGS:
            one_of(sx, x.get_label(lang), st, who, 'label', lang, 'label')
        equal(sx, x.metadata.get(SKOS.prefLabel), st.get(who, 'label'), 'labels are metadata')
        equal(sx, x.graph.objects(x.asNode(), RDFS.label), st.get(who, 'label'), 'labels')
        equal(sx, x.metadata.get(CTS.about), st.get(who, 'link'), 'links')
        main = KINDS[names[who]][3]
        if main:
            equal(sx, x.metadata.get(CTS.term(main)), st.get(who, 'cts'), 'CTS property')
            equal(sx, x.get_link(CTS.about), st.get(who, 'link'), 'links asked')
            for lang in LANGS:
                if lang is not None:
                    one_of(sx, x.get_cts_property(main, lang), st, who, 'cts', lang, 'CTS property in a language')
            by = x.get_cts_property(main)
            sx.check(len(by) == len(set(r[3] for r in st.get(who, 'cts'))), 'CTS property in all its languages', got=list(by))
            for l in by:
                one_of(sx, by[l], st, who, 'cts', l, 'CTS property in each of its languages')
        for p in ('type', 'model', 'version') + (('lang',) if KINDS[names[who]][4] else ()):
            got, want = getattr(x, p), last[who][p]
            sx.check(got is None if want is None else got is not None and str(got) == want, p + ' is the last one given', got=got, want=want)


def h_resource(sx, steps, lens):
    """what is asked by name is the Dublin Core metadata of a resource"""
    set_graph(bind_graph())
    objs = [ResourceCollection(i) for i in IDS]
    st = Store()
    for i in range(steps):
        who = sx.choice('object %d' % i, [0, 1]) if i else 0
        name, key = DCS[sx.choice('property %d' % i, [0, 1, 2, 3])]
        v, lang, s, l, k = value(sx, i, ['text'], lens)
        objs[who].metadata.add(key, v, lang)
        st.add(who, name, s, l, k)
    sx.observe('told', [list(r) for r in st.rows])
    for who, x in enumerate(objs):
        for name, key in DCS:
            for lang in LANGS:
                one_of(sx, getattr(x, 'get_' + name)(lang), st, who, name, lang, name)
        sx.check(x.readable is False and x.members == [] and x.size == 0, 'nothing else')


LEVELS = ['group', 'work', 'text', 'other text', 'description']


def h_cts(sx, steps, lens, kinds):
    """a CTS text is described by its group, its work and itself"""
    set_graph(bind_graph())
    g = CtsTextgroupMetadata('urn:cts:n:g')
    w = CtsWorkMetadata('urn:cts:n:g.w', parent=g)
    cls = KINDS[sx.choice('class', kinds)][0]
    wl = sx.choice('language of the work', [None, 'lat'])
    if wl:
        w.lang = wl
    tl = sx.choice('language of the text', [None, 'eng'])
    t = cls('urn:cts:n:g.w.t', parent=w, lang=tl)
    u = CtsEditionMetadata('urn:cts:n:g.w.u', parent=w)
    st = Store()
    for i in range(steps):
        level = sx.choice('told %d' % i, LEVELS)
        v, lang, s, l, k = value(sx, i, ['text'], lens)
        if level == 'description':
            t.set_cts_property('description', v, lang)
        else:
            {'group': g, 'work': w, 'text': t, 'other text': u}[level].set_cts_property(
                {'group': 'groupname', 'work': 'title', 'text': 'label', 'other text': 'label'}[level], v, lang)
        st.add(0, level, s, l, k)
    sx.observe('told', [list(r) for r in st.rows])
    for x, label, desc in ((t, 'text', 'description'), (u, 'other text', 'none')):
        for lang in LANGS:
            for name, key in (('creator', 'group'), ('title', 'work'), ('subject', label), ('description', desc), ('label', label)):
                one_of(sx, getattr(x, 'get_' + name)(lang), st, 0, key, lang, 'cts: ' + name)
        sx.check(x.readable is True and x.members == [] and x.descendants == [], 'cts: a text has no members')
    sx.check(t.lang == (tl or wl) and u.lang == wl and w.lang == wl, 'cts: language, that of the work without its own', got=[t.lang, u.lang, w.lang])
    sx.check(t.subtype == cls.__name__[3:-8].lower(), 'cts: kind of text', got=t.subtype)


R = Registry()
K = list(KINDS)
OPS = ['label', 'property', 'link', 'type', 'model', 'version', 'lang']
R.add('told', h_told, dict(kinds=['collection', 'dts', 'group', 'translation'], steps=2, ops=OPS, lens=[0, 1]),
      dict(kinds=['collection', 'resource', 'work', 'edition'], steps=3, ops=OPS, lens=[1]), 'two collections')
R.add('classes', h_told, dict(kinds=K, steps=1, ops=OPS, lens=[0, 1, 2]), dict(kinds=K, steps=2, ops=OPS, lens=[0, 1, 2]), 'any classes')
R.add('resource', h_resource, dict(steps=2, lens=[0, 1]), dict(steps=3, lens=[0, 1]), 'resources')
R.add('cts', h_cts, dict(steps=2, lens=[0, 1], kinds=['edition', 'translation', 'commentary']),
      dict(steps=3, lens=[0, 1], kinds=['edition', 'commentary']), 'CTS texts')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['A type or model given replaces the one of the class.']
