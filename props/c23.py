"""C23 The local resolver finds exactly the right texts."""
import os
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import Citation, CtsReference, URN
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.errors import InvalidURN, UnknownCollection, UnknownObjectError
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.collections.cts import (
    XmlCtsCommentaryMetadata, XmlCtsEditionMetadata, XmlCtsTextgroupMetadata, XmlCtsTextInventoryMetadata, XmlCtsTranslationMetadata, XmlCtsWorkMetadata)
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from props._util import Registry, raises

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
KIND = {'edition': XmlCtsEditionMetadata, 'translation': XmlCtsTranslationMetadata, 'commentary': XmlCtsCommentaryMetadata}
LEVEL = ['group', 'work', 'version']


class Text:
    def __init__(self, k, names, kind, obj):
        self.k, self.names, self.kind, self.obj = k, names, kind, obj
        self.urn = urn(names)
        self.path = os.path.join(DATA, 'text%d.xml' % (k % 3))


def urn(names):
    return 'urn:cts:ns' + ''.join((':' if i == 0 else '.') + x for i, x in enumerate(names))


def corpus(sx, n, where, lens, txt, kinds, split=False, shared=False, silent=False):
    """a resolver holding n texts whose group, work and version names are g, w, v but for the arbitrary ones"""
    set_graph(bind_graph())
    tic = CtsTextInventoryCollection('tic')
    invs = [XmlCtsTextInventoryMetadata('inv0', parent=tic)]
    if split:
        invs.append(XmlCtsTextInventoryMetadata('inv1', parent=tic))
    res = CtsCapitainsLocalResolver([], dispatcher=CollectionDispatcher(tic), autoparse=False)
    loose = sx.choice('arbitrary', where)
    texts = []
    groups, works = [], []
    for k in range(n):
        names = ['g', 'w', 'v%d' % k]
        for i, l in enumerate(LEVEL):
            if l in loose:
                names[i] = sx.str('%s %d' % (l, k), sx.choice('length %s %d' % (l, k), lens), txt)
        for t in texts:
            sx.assume(t.names != names)
        tg = wk = None
        if shared and sx.bool('text %d in the other inventory' % k):
            home = invs[1]
        else:
            home = invs[0] if shared else None
        for u, o in groups:
            if u == names[:1] and (home is None or home is o.parent):
                tg = o
        for u, o in works:
            if u == names[:2] and (home is None or home is o.parent.parent):
                wk = o
        if tg is None:
            tg = XmlCtsTextgroupMetadata(urn(names[:1]), parent=home or invs[len(groups) % len(invs)])
            groups.append((names[:1], tg))
        if wk is None:
            wk = XmlCtsWorkMetadata(urn(names[:2]), parent=tg)
            if not silent:
                wk.lang = 'lat'
            works.append((names[:2], wk))
        kind = sx.choice('kind %d' % k, kinds)
        x = KIND[kind](urn(names), parent=wk, lang=None if kind == 'edition' else 'eng')
        x.set_cts_property('label', 'label %d' % k, 'eng')
        t = Text(k, names, kind, x)
        x.path = t.path
        with open(t.path) as f:
            x.citation = CapitainsCtsText(urn=urn(names), resource=xmlparser(f)).citation
        texts.append(t)
    # the order of the inventory
    order = [t for i in tic.members for g in i.members for w in g.members for x in w.members for t in texts if t.obj is x]
    return res, order, texts


def probe(sx, texts, lens, txt, levels):
    """a URN of some level, arbitrary where the texts are"""
    l = sx.choice('level', levels)
    base = sx.choice('asked like text', list(range(len(texts))))
    names = list(texts[base].names[:l])
    other = sx.choice('other component', [None] + list(range(l)))
    if other is not None:
        names[other] = sx.str('asked', sx.choice('length asked', lens), txt)
    return names


def expected(texts, names):
    return [t for t in texts if t.names[:len(names)] == names]


def check_text(sx, got, t, tag):
    sx.check(type(got) is KIND[t.kind] and got.id == t.urn and str(got.urn) == t.urn, tag + ': kind and identifier', got=got.id, want=t.urn)
    sx.check(got.citation is not None and [c.name for c in got.citation] == ['book', 'line'] and got.citation.refsDecl == t.obj.citation.refsDecl, tag + ': citation')
    sx.check(got.lang == ('lat' if t.kind == 'edition' else 'eng'), tag + ': language', got=got.lang)
    sx.check([str(x) for x in got.metadata.get(got.DC_TITLE_KEY, 'eng')] == ['label %d' % t.k], tag + ': label')


def ids(objs):
    return [o.id for o in objs]


def h_metadata(sx, n, where, lens, txt, kinds, levels, split=False, shared=False):
    res, order, texts = corpus(sx, n, where, lens, txt, kinds, split, shared)
    names = probe(sx, texts, lens, txt, levels)
    want = expected(order, names)
    q = urn(names)
    before = sorted(t.urn for t in texts)
    asked = URN(q) if sx.bool('as a URN') else q
    if not want:
        e = raises(Exception, lambda: res.getMetadata(asked))
        sx.check(isinstance(e, UnknownCollection), 'an unknown identifier raises', got=repr(e))
    else:
        got = res.getMetadata(asked)
        sx.check(got.id == q, 'the collection asked for', got=got.id, want=q)
        if len(names) == 3:
            found = [got]
        else:
            found = got.readableDescendants
        sx.observe('found', ids(found))
        sx.check(sorted(ids(found)) == sorted(t.urn for t in want), 'exactly its texts', got=ids(found), want=[t.urn for t in want])
        for t in want:
            x = got[t.urn]
            check_text(sx, x, t, 'text')
            sx.check(x.parent.id == urn(t.names[:2]) and x.parent.parent.id == urn(t.names[:1]), 'under its work and group')
        top = got.parents[-1] if got.parents else got
        home = [p.id for p in want[0].obj.parents]
        if all(t.obj.parents[2] is want[0].obj.parents[2] for t in want):
            sx.check(top.id == home[2], 'in the inventory which holds it', got=top.id, want=home)
        else:
            sx.check(top.id not in ('inv0', 'inv1'), 'in no inventory which holds a part of it', got=top.id)
    sx.check(sorted(ids(res.texts)) == before, 'the corpus is unchanged')
    sx.check(res.getMetadata() is res.inventory and res.getMetadata('inv0') is res.inventory['inv0'], 'inventories')


def h_filters(sx, n, where, lens, txt, kinds, levels, langs=(None,), categories=(None,), split=False, no_lang=False):
    res, order, texts = corpus(sx, n, where, lens, txt, kinds, split, silent=no_lang)
    names = probe(sx, texts, lens, txt, levels)
    ns = sx.choice('namespace', ['ns', 'n', 'nsx']) if not names else 'ns'
    q = urn(names) if names else 'urn:cts:' + ns
    lang = sx.choice('language', list(langs))
    cat = sx.choice('category', list(categories))
    if sx.bool('uncited'):
        order[-1].obj.citation = None
        order.pop()
    speaks = lambda t: lang is None or lang == ('eng' if t.kind != 'edition' else None if no_lang else 'lat')
    want = [t for t in expected(order, names) if ns == 'ns' and (cat is None or t.kind == cat) and speaks(t)]
    args = {}
    given = sx.choice('identifier', ['text', 'urn', 'none'])
    if given != 'none':
        args['urn'] = q if given == 'text' else URN(q)
    else:
        want = [t for t in order if (cat is None or t.kind == cat) and speaks(t)]
    if lang is not None:
        args['lang'] = lang
    if cat is not None:
        args['category'] = cat
    got, page, count = res.__getTextMetadata__(**args)
    sx.observe('found', ids(got))
    sx.check(len(got) == len(want) and all(g is t.obj for g, t in zip(got, want)), 'exactly the texts asked for, in order', got=ids(got), want=[t.urn for t in want])
    sx.check(count == len(want), 'their number')


def h_text(sx, n, where, lens, txt, kinds, levels, what):
    res, order, texts = corpus(sx, n, where, lens, txt, kinds)
    names = probe(sx, texts, lens, txt, levels)
    q = urn(names)
    want = expected(order, names)
    if len(names) == 2:
        want = [t for t in want if t.kind == 'edition']
    op = sx.choice('operation', what)
    asked = URN(q) if sx.bool('as a URN') else q
    ref = sx.choice('reference', [None, '1', '2.1', '1.1-1.2'])
    ref_given = CtsReference(ref) if ref is not None and sx.bool('as a reference') else ref
    if op == 'node':
        go = lambda: res.getTextualNode(asked, ref_given, metadata=sx.bool('with metadata'))
    elif op == 'siblings':
        if ref is None:
            sx.assume(False)
        go = lambda: res.getSiblings(asked, ref_given)
    elif op == 'reffs':
        if ref is not None and ref != '1':
            sx.assume(False)
        go = lambda: res.getReffs(asked, level=1 if ref is None else 2, subreference=ref_given)
    else:
        go = lambda: res.__getText__(asked)
    if not want:
        e = raises(Exception, go)
        if len(names) == 1:
            sx.check(isinstance(e, InvalidURN), 'not a text', got=repr(e))
        elif len(names) == 2:
            sx.check(isinstance(e, UnknownObjectError), 'a work without edition', got=repr(e))
        else:
            sx.check(isinstance(e, UnknownCollection), 'an unknown text', got=repr(e))
        return
    if len(names) == 1:
        sx.check(raises(InvalidURN, go) is not None, 'not a text')
        return
    got = go()
    for_each = []
    for t in want:
        with open(t.path) as f:
            direct = CapitainsCtsText(urn=URN(t.urn), resource=xmlparser(f))
        if op == 'node':
            p = direct.getTextualNode(CtsReference(ref)) if ref is not None else direct
            same = (str(got.urn) == (t.urn if ref is None else t.urn + ':' + ref)
                    and got.export(Mimetypes.PLAINTEXT) == p.export(Mimetypes.PLAINTEXT) and (ref is None or str(got.reference) == str(p.reference)))
        elif op == 'siblings':
            same = got == direct.getTextualNode(CtsReference(ref)).siblingsId
        elif op == 'reffs':
            same = list(got) == list(direct.getReffs(level=1) if ref is None else direct.getReffs(level=2, subreference=CtsReference(ref)))
        else:
            text, meta = got
            same = meta is t.obj and str(text.urn) == t.urn and text.export(Mimetypes.PLAINTEXT) == direct.export(Mimetypes.PLAINTEXT)
        for_each.append(same)
    sx.observe('operation', [op, q, for_each])
    sx.check(any(for_each), op + ': of a text asked for', got=[t.urn for t in want])


R = Registry()
K = ['edition', 'translation', 'commentary']
R.add('metadata', h_metadata, dict(n=2, where=LEVEL, lens=[1, 2], txt='ab', kinds=['edition'], levels=[1, 2, 3]),
      dict(n=3, where=LEVEL, lens=[1, 2], txt='ab', kinds=['edition'], levels=[1, 2, 3]), 'one kind of name arbitrary')
R.add('kinds', h_metadata, dict(n=2, where=['version', 'work'], lens=[1], txt='ab', kinds=K, levels=[1, 2, 3], split=True),
      dict(n=2, where=['group', 'version', 'work'], lens=[1, 2], txt='ab', kinds=K, levels=[1, 2, 3], split=True), 'kinds of texts')
R.add('groups', h_metadata, dict(n=2, where=['group'], lens=[1, 2], txt='ab', kinds=['edition'], levels=[1, 3], split=True),
      dict(n=3, where=['group'], lens=[1, 2], txt='ab', kinds=['edition'], levels=[1, 2, 3], split=True), 'two inventories')
R.add('shared', h_metadata, dict(n=2, where=['version', 'work'], lens=[1], txt='ab', kinds=['edition'], levels=[1, 2, 3], split=True, shared=True),
      dict(n=3, where=LEVEL, lens=[1], txt='ab', kinds=['edition', 'translation'], levels=[1, 2, 3], split=True, shared=True), 'a group in two inventories')
R.add('silent', h_filters, dict(n=2, where=['version'], lens=[1], txt='ab', kinds=K, levels=[0, 1, 3], langs=[None, 'lat', 'eng'], no_lang=True),
      dict(n=3, where=['version'], lens=[1], txt='ab', kinds=K, levels=[0, 1, 2, 3], langs=[None, 'lat', 'eng', 'fre'], no_lang=True), 'texts in no language')
R.add('filters', h_filters, dict(n=2, where=LEVEL, lens=[1, 2], txt='ab', kinds=['edition'], levels=[0, 1, 2, 3]),
      dict(n=3, where=LEVEL, lens=[1, 2], txt='ab', kinds=['edition'], levels=[0, 1, 2, 3], split=True), 'filter on identifiers')
R.add('categories', h_filters, dict(n=2, where=['version'], lens=[1], txt='ab', kinds=K, levels=[1, 2], langs=[None, 'lat', 'eng', 'fre', 'en', 'latin'], categories=[None] + K),
      dict(n=3, where=['version'], lens=[1], txt='abc', kinds=K, levels=[0, 1, 2, 3], langs=[None, 'lat', 'eng', 'fre', 'en', 'latin', ''], categories=[None] + K), 'filter on language and kind')
R.add('text', h_text, dict(n=2, where=['work', 'version'], lens=[1, 2], txt='ab', kinds=['edition'], levels=[1, 2, 3], what=['text']),
      dict(n=3, where=LEVEL, lens=[1], txt='ab', kinds=['edition', 'translation'], levels=[1, 2, 3], what=['text']), 'text lookup')
R.add('operations', h_text, dict(n=2, where=['work'], lens=[1], txt='ab', kinds=['edition', 'translation'], levels=[2, 3], what=['node', 'siblings', 'reffs']),
      dict(n=2, where=['work', 'version'], lens=[1, 2], txt='ab', kinds=['edition', 'translation'], levels=[2, 3], what=['node', 'siblings', 'reffs']), 'operations by identifier')
names, get, bounds = R.names, R.get, R.bounds
