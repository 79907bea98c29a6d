"""C25 Loading a corpus directory registers every well-formed text once."""
import os
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import CtsReference
from MyCapytain.errors import UndispatchedTextError
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.collections.cts import (
    XmlCtsCommentaryMetadata, XmlCtsEditionMetadata, XmlCtsTextInventoryMetadata, XmlCtsTranslationMetadata)
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from props._util import Registry, raises

KIND = {'edition': XmlCtsEditionMetadata, 'translation': XmlCtsTranslationMetadata, 'commentary': XmlCtsCommentaryMetadata}
NS = 'xmlns:ti="http://chs.harvard.edu/xmlns/cts"'
LEVEL = ['group', 'work', 'version']
DECL = [('book', '(\\w+)', "#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1'])"),
        ('line', '(\\w+).(\\w+)', "#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2'])"),
        ('word', '(\\w+).(\\w+).(\\w+)', "#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2']/tei:w[@n='$3'])")]


def urn(*names):
    return 'urn:cts:ns' + ''.join((':' if i == 0 else '.') + x for i, x in enumerate(names))


# names of the folders of the corpus, of the textgroups, of the works
PLAIN = [('folder', 'dir', 'sub')]
NAMES = [('cor[1]', 'dir', 'sub'), ('folder', 'd[a]', 'sub'), ('folder', 'dir', 's [b]'), ('a b', '_d', '_w'), ('{x}', 'D\u00e9', '{y}'), ('f*', '[!g]?', '%s')]


class Node:
    def __init__(self, **k):
        self.__dict__.update(k)


def tei(k, depth, state):
    if state == 'malformed':
        return '<TEI><text></TEI>'
    decl = '' if state == 'nocite' else '<refsDecl n="CTS">%s</refsDecl>' % ''.join(
        '<cRefPattern n="%s" matchPattern="%s" replacementPattern="%s"/>' % d for d in reversed(DECL[:depth]))
    return ('<TEI xmlns="http://www.tei-c.org/ns/1.0"><teiHeader><encodingDesc>%s</encodingDesc></teiHeader><text><body>'
            '<div n="1"><l n="1"><w n="1">text %d</w></l></div></body></text></TEI>' % (decl, k))


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(content)


def corpus(sx, root, n, where, lens, txt, places, kinds, states, depths, ondisk, names=PLAIN):
    """n texts somewhere in one or two folders"""
    loose = sx.choice('arbitrary', where)

    def name(level, k, fixed):
        if level == loose:
            return sx.str('%s %d' % (level, k), sx.choice('length %s %d' % (level, k), lens), txt)
        return fixed
    of = sx.choice('named', names)
    folders = [Node(path=os.path.join(root, of[0] + '%d' % i), groups=[]) for i in range(2)]
    texts = []
    for k in range(n):
        place = 'folder 0' if k == 0 else sx.choice('place %d' % k, places)
        f = texts[-1].folder if place in ('same work', 'same group') else folders[1 if place == 'other folder' else 0]
        if place in ('same work', 'same group'):
            g = texts[-1].group
        else:
            g = Node(name=name('group', k, 'g'), works=[], path=os.path.join(f.path, 'data', of[1] + '%d' % k))
            for h in f.groups:
                sx.assume(h.name != g.name)
            f.groups.append(g)
        if place == 'same work':
            w = texts[-1].work
        else:
            w = Node(name=name('work', k, 'w'), texts=[], path=os.path.join(g.path, of[2] + '%d' % k))
            for v in g.works:
                sx.assume(v.name != w.name)
            g.works.append(w)
        t = Node(k=k, folder=f, group=g, work=w, name=name('version', k, 'v%d' % (k if place != 'other folder' else sx.choice('version', [0, k]))),
                 kind=sx.choice('kind %d' % k, kinds), state=sx.choice('state %d' % k, states), depth=sx.choice('depth %d' % k, depths))
        for v in w.texts:
            sx.assume(v.name != t.name)
        w.texts.append(t)
        t.urn = urn(g.name, w.name, t.name)
        t.exists = False
        texts.append(t)
    for t in texts:
        # the files there are: those of some of the possible names
        parts = [ondisk if l == loose else [x.name] for l, x in zip(LEVEL, [t.group, t.work, t])]
        os.makedirs(t.work.path, exist_ok=True)
        if t.state != 'missing':
            for a in parts[0]:
                for b in parts[1]:
                    for c in parts[2]:
                        p = os.path.join(t.work.path, '%s.%s.%s.xml' % (a, b, c))
                        if t.group.name == a and t.work.name == b and t.name == c:
                            t.exists, t.path = True, p
                            write(p, tei(t.k, t.depth, t.state))
                        elif not os.path.exists(p):
                            write(p, tei(99, 2, 'ok'))
        t.valid = t.exists and t.state == 'ok'
    for f in folders:
        os.makedirs(os.path.join(f.path, 'data'), exist_ok=True)
        for g in f.groups:
            write(os.path.join(g.path, '__cts__.xml'), '<ti:textgroup %s urn="%s"><ti:groupname xml:lang="eng">Group</ti:groupname></ti:textgroup>' % (NS, urn(g.name)))
            for w in g.works:
                write(os.path.join(w.path, '__cts__.xml'),
                      '<ti:work %s groupUrn="%s" urn="%s" xml:lang="lat"><ti:title xml:lang="eng">Work</ti:title>%s</ti:work>' % (
                          NS, urn(g.name), urn(g.name, w.name), ''.join(
                              '<ti:%s workUrn="%s" urn="%s"%s><ti:label xml:lang="eng">label %d</ti:label></ti:%s>' % (
                                  t.kind, urn(g.name, w.name), t.urn, '' if t.kind == 'edition' else ' xml:lang="eng"', t.k, t.kind) for t in w.texts)))
    return folders, texts


def selects(c):
    """the XPath of the passages, whatever the quotes and the wrapping"""
    x = c.refsDecl.replace("'", '"')
    return x[7:-1] if x.startswith('#xpath(') else x


def distinct(urns):
    out = []
    for u in urns:
        if u not in out:
            out.append(u)
    return sorted(out)


class Watch(CtsCapitainsLocalResolver):
    invalids = None

    def _clean_invalids(self, invalids):
        self.invalids = [t.id for t in invalids]


def check_loaded(sx, res, texts, home=lambda t: 'default'):
    sx.check(sorted(t.id for t in res.texts) == distinct(t.urn for t in texts), 'every text described is there once',
             got=[t.id for t in res.texts], want=[t.urn for t in texts])
    got, page, count = res.__getTextMetadata__()
    want = distinct(t.urn for t in texts if t.valid)
    sx.observe('usable', [t.id for t in sorted(got, key=lambda x: x.id)])
    sx.check(sorted(t.id for t in got) == want and count == len(want), 'exactly the well-formed texts are usable', got=[t.id for t in got], want=want)
    groups = [g for i in res.inventory.members for g in i.members]
    sx.check(sorted(g.id for g in groups) == distinct(urn(t.group.name) for t in texts), 'textgroups', got=[g.id for g in groups])
    works = [w for g in groups for w in g.members]
    sx.check(sorted(w.id for w in works) == distinct(urn(t.group.name, t.work.name) for t in texts), 'works', got=[w.id for w in works])
    for x in got:
        sx.check(x.parent.id == urn(*[y for t in texts if t.urn == x.id for y in (t.group.name, t.work.name)][:2])
                 and x.parent.parent.id == urn([t.group.name for t in texts if t.urn == x.id][0]), 'under its work and textgroup')
        fits = []
        for t in texts:
            if t.valid and t.urn == x.id:
                fits.append(type(x) is KIND[t.kind] and os.path.normpath(x.path) == t.path
                            and [c.name for c in x.citation] == [d[0] for d in DECL[:t.depth]]
                            and [selects(c) for c in x.citation] == [d[2].replace("'", '"')[7:-1] for d in DECL[:t.depth]]
                            # what is said of one URN in two places is said of the same text
                            and sorted(str(l) for l in x.metadata.get(x.DC_TITLE_KEY, 'eng')) == sorted('label %d' % o.k for o in texts if o.urn == x.id)
                            and x.parent.parent.parent.id == home(t))
        sx.check(any(fits), 'with its kind, label, path and citation', got=[x.id, type(x).__name__, x.path, [(c.name, c.refsDecl) for c in x.citation], [str(l) for l in x.metadata.get(x.DC_TITLE_KEY, "eng")], x.parent.parent.parent.id])
        ks = [t.k for t in texts if t.valid and t.urn == x.id]
        deep = min(t.depth for t in texts if t.valid and t.urn == x.id)
        text = res.getTextualNode(x.id, CtsReference('.'.join(['1'] * deep))).export(Mimetypes.PLAINTEXT)
        sx.check(text in ['text %d' % k for k in ks], 'its text can be read', got=text, want=ks)


def h_load(sx, n, where, lens, txt, places, kinds, states, depths, ondisk, twice=False, names=PLAIN):
    set_graph(bind_graph())
    root = sx.scratch()
    folders, texts = corpus(sx, root, n, where, lens, txt, places, kinds, states, depths, ondisk, names)
    paths = [f.path for f in folders]
    if twice and sx.bool('a folder listed twice'):
        paths.append(paths[0])
        doubled = [t.urn for t in texts if t.folder is folders[0] and not t.valid]
    else:
        doubled = []
    res = Watch(paths)
    sx.check(sorted(res.invalids) == sorted([t.urn for t in texts if not t.valid] + doubled), 'the others are reported as invalid',
             got=res.invalids, want=[t.urn for t in texts if not t.valid])
    check_loaded(sx, res, texts)


def h_broken(sx, n, places, broken):
    """a metadata file which cannot be read"""
    set_graph(bind_graph())
    root = sx.scratch()
    folders, texts = corpus(sx, root, n, [()], [1], 'a', places, ['edition'], ['ok'], [2], ['a'])
    victim = sx.choice('victim', texts)
    what = sx.choice('broken', broken)
    how = sx.choice('how', ['<ti:a', '', '<other/>'])
    if how == '<other/>':
        content = '<ti:%s %s/>' % ('textgroup' if what == 'group' else 'work', NS)
    else:
        content = how
    node = victim.group if what == 'group' else victim.work
    write(os.path.join(node.path, '__cts__.xml'), content)
    lost = [t for t in texts if (t.group if what == 'group' else t.work) is node]
    strict = sx.bool('errors are raised')

    class Mine(Watch):
        RAISE_ON_GENERIC_PARSING_ERROR = strict
    if strict:
        sx.check(raises(Exception, lambda: Mine([f.path for f in folders])) is not None, 'an unreadable metadata file raises when configured so')
        return
    res = Mine([f.path for f in folders])
    left = [t for t in texts if t not in lost]
    got, page, count = res.__getTextMetadata__()
    sx.observe('usable', sorted(t.id for t in got))
    sx.check(sorted(t.id for t in got) == distinct(t.urn for t in left), 'the others are not lost', got=[t.id for t in got], want=[t.urn for t in left])


def h_dispatch(sx, n, where, lens, txt, places, kinds):
    """inventories which take the groups of some names"""
    set_graph(bind_graph())
    root = sx.scratch()
    folders, texts = corpus(sx, root, n, where, lens, txt, places, kinds, ['ok'], [1], ['a', 'b', 'aa', 'ab', 'ba', 'bb'])
    tic = CtsTextInventoryCollection('tic')
    for i in ('inv0', 'inv1'):
        XmlCtsTextInventoryMetadata(i, parent=tic)
    d = CollectionDispatcher(tic)
    d.__methods__ = []
    pre = sx.str('prefix', 1, txt)
    by = sx.choice('criterion', ['identifier', 'path'])

    @d.inventory('inv0')
    def first(collection, path=None, **kwargs):
        return collection.id.startswith('urn:cts:ns:' + pre)

    if by == 'path':
        @d.inventory('inv1')
        def second(collection, path=None, **kwargs):
            return 'folder0' in path

    def home(t):
        if by == 'path' and t.folder is folders[0]:
            return 'inv1'
        if t.group.name.startswith(pre):
            return 'inv0'
        return None
    # a group which is in two folders stays where it was first filed
    at = {}
    where_to = []
    for t in sorted(texts, key=lambda t: folders.index(t.folder)):
        h = None
        for u, v in where_to:
            if u == t.group.name and v is not None:
                h = v
        if h is None:
            h = home(t)
            where_to.append((t.group.name, h))
        at[t.k] = h
    strict = sx.bool('errors are raised')

    class Mine(Watch):
        RAISE_ON_UNDISPATCHED = strict
    left = [t for t in texts if at[t.k] is not None]
    if strict and any(at[t.k] is None for t in texts):
        sx.check(raises(UndispatchedTextError, lambda: Mine([f.path for f in folders], dispatcher=d)) is not None, 'a textgroup nothing accepts raises when configured so')
        return
    res = Mine([f.path for f in folders], dispatcher=d)
    check_loaded(sx, res, left, lambda t: at[t.k])


R = Registry()
PLACES = ['same work', 'same group', 'folder 0', 'other folder']
K = ['edition', 'translation', 'commentary']
S = ['ok', 'missing', 'nocite', 'malformed']
R.add('states', h_load, dict(n=2, where=[()], lens=[1], txt='a', places=PLACES[:2] + PLACES[3:], kinds=['edition'], states=S, depths=[2], ondisk=['a'], twice=True),
      dict(n=3, where=[()], lens=[1], txt='a', places=PLACES[:2] + PLACES[3:], kinds=['edition', 'translation'], states=S, depths=[2], ondisk=['a']), 'texts which are not well-formed')
R.add('folders', h_load, dict(n=2, where=['version'], lens=[1], txt='a', places=PLACES, kinds=['edition'], states=S[:2], depths=[1], ondisk=['a'], names=NAMES),
      dict(n=3, where=['version'], lens=[1], txt='ab', places=PLACES, kinds=['edition'], states=S[:3], depths=[1], ondisk=['a'], names=NAMES), 'folders of any name')
R.add('names', h_load, dict(n=2, where=LEVEL, lens=[1, 2], txt='ab', places=PLACES, kinds=['edition'], states=['ok'], depths=[1], ondisk=['a', 'ab']),
      dict(n=3, where=LEVEL, lens=[1, 2], txt='ab', places=PLACES, kinds=['edition'], states=['ok'], depths=[1], ondisk=['a', 'ab']), 'one kind of name arbitrary')
R.add('kinds', h_load, dict(n=2, where=['version'], lens=[1], txt='ab', places=PLACES[:2] + PLACES[3:], kinds=K, states=['ok'], depths=[1, 2, 3], ondisk=['a', 'b']),
      dict(n=3, where=['version'], lens=[1], txt='abc', places=PLACES[:2] + PLACES[3:], kinds=K, states=['ok'], depths=[1, 2, 3], ondisk=['a', 'b']), 'kinds of texts and citation schemes')
R.add('broken', h_broken, dict(n=2, places=PLACES[:2] + PLACES[3:], broken=['group', 'work']), dict(n=4, places=PLACES[:2] + PLACES[3:], broken=['group', 'work']), 'unreadable metadata')
R.add('dispatch', h_dispatch, dict(n=2, where=['group'], lens=[1, 2], txt='ab', places=PLACES[1:], kinds=['edition']),
      dict(n=3, where=['group'], lens=[1, 2], txt='ab', places=PLACES[1:], kinds=['edition']), 'inventories')
names, get, bounds = R.names, R.get, R.bounds
