"""C16 Merging inventories is a union that keeps every member."""
from rdflib import Literal
from rdflib.namespace import DC
from MyCapytain.common.reference import Citation
from MyCapytain.errors import InvalidURN
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata)
from props._util import Registry, raises

GROUP = 'urn:cts:n:g'


class Want:
    def __init__(self):
        self.works = {}      # list of [id, [texts]] kept as association lists: identifiers are symbolic
        self.order = []

    def text(self, work, ident, kind, label, cite, obj):
        for w, ts in self.order:
            if w == work:
                for t in ts:
                    if t[0] == ident:
                        t[1:] = [kind, label, cite, obj]
                        return
                ts.append([ident, kind, label, cite, obj])
                return
        self.order.append([work, [[ident, kind, label, cite, obj]]])

    def work(self, work):
        if not any(w == work for w, _ in self.order):
            self.order.append([work, []])


KINDS = [CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata]


def fill_work(sx, w, wu, n, tag, want, taken, cited=(True,), kinds=(0,)):
    mine = []
    for t in range(n):
        tu = wu + '.' + sx.str('text %s%d' % (tag, t), 1, 'xy')
        for other in mine:
            sx.assume(other != tu)
        mine.append(tu)
        # one kind and label for each identifier: both inventories describe the same texts
        kind = KINDS[sx.choice('kind ' + tag + str(t), list(kinds))]
        x = kind(tu, parent=w, lang='lat')
        x.set_cts_property('label', 'label of ' + tu, 'eng')
        cite = Citation(name='cite ' + tag + str(t), refsDecl="/a[@n='$1']")
        if not sx.choice('cited ' + tag + str(t), list(cited)):
            cite = None
        x.citation = cite
        x.path = tag + str(t)
        want.text(wu, tu, kind, 'label of ' + tu, cite, x)


def group(sx, shape, tag, want, parent=None, cited=(True,), kinds=(0,)):
    g = CtsTextgroupMetadata(GROUP, parent=parent)
    g.set_cts_property('groupname', 'name', 'eng')
    mine = []
    for i, n in enumerate(shape):
        wu = GROUP + '.' + sx.str('work %s%d' % (tag, i), 1, 'abc')
        for other in mine:
            sx.assume(other != wu)
        mine.append(wu)
        w = CtsWorkMetadata(wu, parent=g)
        w.lang = 'lat'
        w.set_cts_property('title', 'title of ' + wu, 'eng')
        want.work(wu)
        fill_work(sx, w, wu, n, tag + str(i), want, mine, cited, kinds)
    return g


def check_group(sx, g, want, parent, tag):
    works = g.works
    have = sorted(works)
    exp = sorted(w for w, _ in want.order)
    sx.check(have == exp, tag + ': works of both', got=have, want=exp)
    sx.check(g.parent is parent, tag + ': the group keeps its parent')
    sx.check(str(g.get_label('eng')) == 'name', tag + ': label of the group')
    for wu, texts in want.order:
        if wu not in works:
            return
        w = works[wu]
        sx.check(w.parent is g, tag + ': parent of the work')
        sx.check(isinstance(w, CtsWorkMetadata) and str(w.urn) == wu and w.id == wu, tag + ': urn of the work')
        sx.check(str(w.get_label('eng')) == 'title of ' + wu, tag + ': label of the work', got=w.get_label('eng'))
        sx.check([str(x) for x in w.metadata.get(w.DC_TITLE_KEY, 'eng')] == ['title of ' + wu], tag + ': title of the work')
        check_work(sx, w, texts, tag)
    sx.check(len(g) == sum(len(ts) for _, ts in want.order), tag + ': number of texts')
    for wu, texts in want.order:
        for t in texts:
            sx.check(t[0] in g and g[t[0]].id == t[0], tag + ': text reachable from the group')


def check_work(sx, w, texts, tag):
    have = sorted(w.texts)
    exp = sorted(t[0] for t in texts)
    sx.check(have == exp, tag + ': texts of both', got=have, want=exp)
    for tu, kind, label, cite, obj in texts:
        x = w.texts[tu]
        sx.check(x.parent is w, tag + ': parent of the text')
        sx.check(type(x) is kind and str(x.urn) == tu and x.id == tu, tag + ': urn and kind of the text')
        if cite is None:
            sx.check(x.citation is None, tag + ': no citation')
        else:
            sx.check(x.citation is not None and x.citation.name == cite.name and x.citation.refsDecl == cite.refsDecl, tag + ': citation of the text')
        sx.check(x.path == obj.path, tag + ': the text added last', got=x.path, want=obj.path)
        got = [str(o) for o in x.metadata.get(x.DC_TITLE_KEY, 'eng')]
        sx.check(got == [label], tag + ': label of the text', got=got, want=[label])
        sx.check(x.lang == 'lat', tag + ': language of the text')


def own(g):
    return [(u, w, w.parent, [(v, t, t.parent) for v, t in w.texts.items()]) for u, w in g.works.items()]


def alike(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1] and x[2] is y[2] and len(x[3]) == len(y[3]) and all(
        s[0] == t[0] and s[1] is t[1] and s[2] is t[2] for s, t in zip(x[3], y[3])) for x, y in zip(a, b))


def h_groups(sx, shapes, twice, cited=(True,), kinds=(0,)):
    inv = CtsTextInventoryMetadata('inv')
    wants = [Want(), Want()]
    gs = []
    for i, tag in enumerate('AB'):
        s = sx.choice('shape ' + tag, shapes)
        gs.append(group(sx, s, tag, wants[i], parent=inv if i == 0 else CtsTextInventoryMetadata('other'), cited=cited, kinds=kinds))
    first = sx.choice('merged into', [0, 1])
    x, y = gs[first], gs[1 - first]
    home = x.parent
    merged = Want()
    for w in (wants[first], wants[1 - first]):
        for wu, ts in w.order:
            merged.work(wu)
            for t in ts:
                merged.text(wu, *t)
    before = own(y)
    ret = x.update(y)
    sx.check(alike(own(y), before) and y.parent is not home, 'merge: the group merged in is as it was')
    sx.check(ret is x, 'merge returns the group')
    check_group(sx, x, merged, home, 'merge')
    if twice:
        again = sx.choice('then', ['same again', 'itself'])
        x.update(y if again == 'same again' else x)
        check_group(sx, x, merged, home, again)
    sx.observe('works', sorted(x.works))


def h_works(sx, sizes, cited=(True,), kinds=(0,)):
    homes = [CtsTextgroupMetadata(GROUP), CtsTextgroupMetadata(GROUP)]
    ws, wants = [], []
    for i, tag in enumerate('AB'):
        w = CtsWorkMetadata(GROUP + '.w', parent=homes[i])
        w.lang = 'lat'
        want = Want()
        want.work(GROUP + '.w')
        fill_work(sx, w, GROUP + '.w', sx.choice('size ' + tag, sizes), tag, want, [], cited, kinds)
        ws.append(w)
        wants.append(want)
    how = sx.choice('merged', ['pair', 'twice', 'itself'])
    merged = Want()
    merged.work(GROUP + '.w')
    for w in (wants if how != 'itself' else wants[:1]):
        for wu, ts in w.order:
            for t in ts:
                merged.text(wu, *t)
    sx.check(ws[0].update(ws[0] if how == 'itself' else ws[1]) is ws[0], 'merge returns the work')
    if how == 'twice':
        ws[0].update(ws[1])
    check_work(sx, ws[0], merged.order[0][1], 'works')
    sx.check(ws[0].parent is homes[0], 'works: the work keeps its parent')
    sx.observe('texts', sorted(ws[0].texts))


def h_other(sx, alphabet, lens):
    """items of different urns, or of another kind"""
    a, b = [sx.str('group ' + x, sx.choice('length of group ' + x, lens), alphabet) for x in 'AB']
    v, w = [sx.str('work ' + x, sx.choice('length of work ' + x, lens), alphabet) for x in 'AB']
    kind = sx.choice('kind', ['groups', 'works', 'group with work', 'work with group'])
    sx.assume(a != b if kind != 'works' else a + '.' + v != b + '.' + w)
    ga, gb = CtsTextgroupMetadata('urn:cts:n:' + a), CtsTextgroupMetadata('urn:cts:n:' + b)
    wa, wb = CtsWorkMetadata('urn:cts:n:%s.%s' % (a, v), parent=ga), CtsWorkMetadata('urn:cts:n:%s.%s' % (b, w), parent=gb)
    ta, tb = CtsEditionMetadata(str(wa.urn) + '.t', parent=wa), CtsEditionMetadata(str(wb.urn) + '.t', parent=wb)
    if kind == 'groups':
        e = raises(InvalidURN, ga.update, gb)
    elif kind == 'works':
        e = raises(InvalidURN, wa.update, wb)
    elif kind == 'group with work':
        e = raises(TypeError, ga.update, wa)
    else:
        e = raises(TypeError, wa.update, ga)
    sx.check(e is not None, 'other: refused', kind=kind)
    for g, w, t in ((ga, wa, ta), (gb, wb, tb)):
        sx.check(list(g.works.values()) == [w] and g.works[w.id] is w and list(w.texts) == [t.id] and w.texts[t.id] is t
                 and w.parent is g and t.parent is w, 'other: both unchanged')


R = Registry()
R.add('groups', h_groups, dict(shapes=[[], [0], [1], [2], [1, 1]], twice=True), dict(shapes=[[], [0], [1], [2], [1, 1], [2, 1]], twice=True), 'pairs of textgroups')
R.add('works', h_works, dict(sizes=[0, 1, 2]), dict(sizes=[0, 1, 2]), 'pairs of works')
R.add('uncited', h_works, dict(sizes=[1, 2], cited=(False, True), kinds=(0, 1)), dict(sizes=[1, 2], cited=(False, True), kinds=(0, 1, 2)), 'texts of any kind, with or without a citation')
R.add('kinds', h_groups, dict(shapes=[[0], [1]], twice=True, cited=(False, True), kinds=(0, 1, 2)), dict(shapes=[[0], [1], [2]], twice=True, cited=(False, True), kinds=(0, 1, 2)), 'kinds of texts, with or without a citation')
R.add('other', h_other, dict(alphabet='ab1', lens=[1, 2]), dict(alphabet='a-z0-9', lens=[1, 2, 3]), 'items of different URNs')
names, get, bounds = R.names, R.get, R.bounds
