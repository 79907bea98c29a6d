"""C15 A collection tree finds and lists its members exactly."""
import itertools
from rdflib import Literal, URIRef
from rdflib.namespace import DC, RDFS
from MyCapytain.errors import UnknownCollection
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata)
from MyCapytain.resources.collections.dts import DtsCollection
from props._util import Registry, raises


class Readable(ResourceCollection):
    readable = True


TXT = 'abA1'
PREFIXES = ['c:', 'urn:cts:n:']


def tree(sx, n, orders, lens, readable=True, classes=('plain',), prefixes=('c:',), early=(False,)):
    """any tree of n nodes linked in any of the orders; returns nodes and parent positions"""
    ids, nodes, up = [], [], [None]
    cls = {'plain': Collection, 'inventories': CtsTextInventoryMetadata}[sx.choice('classes', list(classes))]
    prefix = sx.choice('prefix of all', list(prefixes))
    for i in range(n):
        s = prefix + sx.str('id%d' % i, sx.choice('length%d' % i, lens), TXT)
        for t in ids:
            sx.assume(s != t)
        ids.append(s)
        if i:
            up.append(sx.choice('parent%d' % i, list(range(i))))
        nodes.append((Readable if readable and i and sx.bool('readable%d' % i) else cls)(s))
    seq = list(range(1, n))
    how = sx.choice('linked', [o for o in orders if o in ('down', 'up') or len(o) == n - 1])
    if how == 'up':
        seq.reverse()
    elif how != 'down':
        seq = list(how)
    # What the collections say while they are linked is no answer for later
    looked = sx.choice('asked in between', list(early))
    for i in seq:
        if looked:
            for x in nodes:
                x.parents, x.descendants, x.members
        nodes[i].parent = nodes[up[i]]
    return ids, nodes, up


def below(up, i):
    out = []
    for j in range(len(up)):
        k = up[j]
        while k is not None and k != i:
            k = up[k]
        if k == i:
            out.append(j)
    return out


def same_nodes(sx, got, nodes, want, tag):
    """the same objects, each once"""
    got = list(got)
    sx.check(len(got) == len(want) and all(any(g is nodes[w] for g in got) for w in want), tag, got=[g.id for g in got],
             want=[nodes[w].id for w in want])


def shape_of(sx, nodes, up, tag):
    for i, x in enumerate(nodes):
        kids = [j for j in range(len(up)) if up[j] == i]
        same_nodes(sx, x.members, nodes, kids, tag + ': members')
        sx.check(x.size == len(kids), tag + ': size')
        same_nodes(sx, x.descendants, nodes, below(up, i), tag + ': descendants')
        same_nodes(sx, x.readableDescendants, nodes, [j for j in below(up, i) if isinstance(nodes[j], Readable)], tag + ': readable')
        chain, k = [], up[i]
        while k is not None:
            chain.append(nodes[k])
            k = up[k]
        ps = x.parents
        sx.check(len(ps) == len(chain) and all(a is b for a, b in zip(ps, chain)), tag + ': parents from the closest', got=[p.id for p in ps])
        sx.check(x.parent is (chain[0] if chain else None), tag + ': parent')


def look(sx, nodes, ids, up, i, key, tag):
    """lookup of key from node i"""
    allowed = [i] + below(up, i)
    hit = None
    for j in allowed:
        if ids[j] == key:
            hit = j
            break
    inside = key in nodes[i]
    sx.check(inside is (hit is not None), tag + ': membership', got=inside)
    if hit is None:
        sx.check(raises(UnknownCollection, nodes[i].__getitem__, key) is not None, tag + ': unknown member refused')
    else:
        try:
            got = nodes[i][key]
        except Exception as e:
            sx.fail(tag + ': member found', error=repr(e))
            return
        sx.check(got is nodes[hit], tag + ': member found', got=got.id)


def h_shape(sx, n, orders, classes=('plain', 'inventories'), lens=(1, 2), early=(False,)):
    ids, nodes, up = tree(sx, sx.choice('size', n), orders, list(lens), classes=classes, early=early)
    shape_of(sx, nodes, up, 'tree')


def h_lookup(sx, n, orders, lens, classes=('plain', 'inventories'), prefixes=('c:',)):
    ids, nodes, up = tree(sx, sx.choice('size', n), orders, lens, readable=False, classes=classes, prefixes=prefixes)
    key = sx.choice('prefix', list(prefixes) + ['']) + sx.str('key', sx.choice('key length', [1, 2]), TXT)
    look(sx, nodes, ids, up, sx.choice('asked', list(range(len(nodes)))), key, 'lookup')
    sx.observe('key', key)


def facts(x):
    return sorted((str(p), str(o)) for p, o in x.graph.predicate_objects(x.asNode()))


def h_delete(sx, n, lens, deletions, classes=('plain', 'inventories')):
    ids, nodes, up = tree(sx, sx.choice('size', n), ['down'], lens, readable=False, classes=classes)
    for i, x in enumerate(nodes):
        x.set_label('label %d' % i, 'eng')
        x.metadata.add(DC.title, Literal('title %d' % (i % 2), lang='fre'))
    alive = list(range(len(nodes)))
    for d in range(deletions):
        cands = [i for i in alive if i]
        if not cands:
            return
        i = cands[sx.choice('deleted %d' % d, list(range(len(cands))))]
        above, k = [], up[i]
        while k is not None:
            above.append(k)
            k = up[k]
        asked = above[sx.choice('asked %d' % d, list(range(len(above))))]
        gone = [i] + below(up, i)
        alive = [j for j in alive if j not in gone]
        before = dict((j, facts(nodes[j])) for j in alive)
        del nodes[asked][ids[i]]
        for j in alive:
            sx.check(facts(nodes[j]) == before[j], 'delete: metadata of the others unchanged', of=ids[j], got=facts(nodes[j]), want=before[j])
            sx.check(str(nodes[j].get_label('eng')) == 'label %d' % j, 'delete: label of the others unchanged')
        kept = [None if j not in alive else up[j] for j in range(len(nodes))]
        sx.check(facts(nodes[i]) == [], 'delete: metadata of the item removed')
        sx.check(list(nodes[0].graph.subject_predicates(nodes[i].asNode())) == [], 'delete: nothing points to what was removed')
        for j in alive:
            got = nodes[j].descendants
            want = [k for k in below(up, j) if k in alive]
            same_nodes(sx, got, nodes, want, 'delete: it and only it unreachable')
        for j in range(len(nodes)):
            sx.check((ids[j] in nodes[0]) is (j in alive), 'delete: membership from the root')
        sx.check(raises(UnknownCollection, nodes[0].__getitem__, ids[i]) is not None, 'delete: no longer found')


KINDS = [CtsEditionMetadata, CtsTranslationMetadata, CtsCommentaryMetadata]


def h_cts(sx, shapes, asks):
    """inventories of the CTS classes"""
    inv = CtsTextInventoryMetadata('inv')
    shape = sx.choice('shape', shapes)
    nodes, ids, up, kinds = [inv], ['inv'], [None], {}

    def put(cls, parent, ident, **k):
        x = cls(ident, parent=nodes[parent], **k)
        nodes.append(x)
        ids.append(ident)
        up.append(parent)
        return len(nodes) - 1
    for g, works in enumerate(shape):
        gu = 'urn:cts:n:' + ['g', 'g1', 'h'][g]
        gi = put(CtsTextgroupMetadata, 0, gu)
        for w, texts in enumerate(works):
            wu = (gu if not sx.bool('foreign work %d%d' % (g, w)) else 'urn:cts:n:z' + str(g)) + '.' + ['w', 'w1', 'v'][w]
            wi = put(CtsWorkMetadata, gi, wu)
            nodes[wi].lang = 'lat'
            for t in range(texts):
                k = KINDS[sx.choice('kind', [0, 1, 2]) if asks == 'langs' else t % 3]
                lg = 'l' + sx.str('lang', 1, 'ab') if asks == 'langs' else 'lat'
                s = (wu if asks == 'langs' or t or not sx.bool('foreign text') else 'urn:cts:n:g.z%d' % len(nodes)) + '.t' + (sx.str('text id', 1, 'ab') if asks == 'keys' else str(t))
                for other in ids:
                    sx.assume(other != s)
                ti = put(k, wi, s, lang=lg)
                kinds[ti] = (k, lg)
    if asks == 'keys':
        key = 'urn:cts:n:g.w.t' + sx.str('key', 1, 'abc')
        look(sx, nodes, ids, up, sx.choice('asked', list(range(len(nodes)))), key, 'cts')
        look(sx, nodes, ids, up, 0, sx.choice('whole', ids[1:] + ['urn:cts:n:g.', 'urn:cts:n', '']), 'cts')
    same_nodes(sx, inv.descendants, nodes, list(range(1, len(nodes))), 'cts: descendants')
    same_nodes(sx, inv.readableDescendants, nodes, list(kinds), 'cts: readable ones are the texts')
    sx.check(len(inv) == len(kinds), 'cts: length counts texts', got=len(inv))
    for i, x in enumerate(nodes):
        if isinstance(x, CtsTextgroupMetadata):
            sx.check(len(x) == len([k for k in kinds if up[up[k]] == i]), 'cts: texts of the group')
        if isinstance(x, CtsWorkMetadata):
            mine = [k for k in kinds if up[k] == i]
            sx.check(len(x) == len(mine), 'cts: texts of the work')
            same_nodes(sx, x.get_translation_in(), nodes, [k for k in mine if kinds[k][0] is CtsTranslationMetadata], 'cts: translations')
            want = 'l' + sx.str('wanted lang', sx.choice('wanted length', [0, 1]), 'ab') if mine and asks == 'langs' else 'lat'
            same_nodes(sx, x.get_translation_in(want), nodes,
                       [k for k in mine if kinds[k][0] is CtsTranslationMetadata and kinds[k][1] == want], 'cts: translations in a language')
            for k in mine:
                same_nodes(sx, nodes[k].editions(), nodes, [j for j in mine if kinds[j][0] is CtsEditionMetadata], 'cts: editions of the work')
                same_nodes(sx, nodes[k].translations(), nodes, [j for j in mine if kinds[j][0] is CtsTranslationMetadata], 'cts: translations of a text')
                sx.check([p.id for p in nodes[k].parents] == [ids[i], ids[up[i]], 'inv'], 'cts: parents')


DTS = 'https://www.w3.org/ns/hydra/core#'


def h_dts(sx, n, lens, deletions, txt=TXT):
    """DTS collections read from nested documents"""
    n = sx.choice('size', n)
    ids, docs, up, kinds = [], [], [None], []
    for i in range(n):
        s = 'urn:d:' + sx.str('id%d' % i, sx.choice('length%d' % i, lens), txt)
        for t in ids:
            sx.assume(s != t)
        ids.append(s)
        if i:
            up.append(sx.choice('parent%d' % i, list(range(i))))
        kinds.append(sx.choice('type%d' % i, ['Collection', 'Resource']))
        docs.append({'@id': s, '@type': kinds[i], 'title': 'Title %d' % i, 'totalItems': 0, 'member': []})
    docs[0]['@context'] = {'@vocab': DTS}
    for i in range(n - 1, 0, -1):
        docs[up[i]]['member'].insert(0, docs[i])
        docs[up[i]]['totalItems'] += 1
    root = DtsCollection.parse(docs[0])
    alive = list(range(n))

    def state(tag):
        found = {0: root}
        for i in range(n):
            # Parents come before their members
            if i and i in alive:
                kids = [m for m in found[up[i]].members if m.id == ids[i]]
                sx.check(len(kids) == 1, tag + ': member listed by its parent', of=ids[i], got=len(kids))
                found[i] = kids[0]
        for i in alive:
            x = found[i]
            mine = [j for j in below(up, i) if j in alive]
            sx.check([m.id for m in x.members] == [ids[j] for j in mine if up[j] == i], tag + ': members')
            same_nodes(sx, x.descendants, found, mine, tag + ': descendants')
            same_nodes(sx, x.readableDescendants, found, [j for j in mine if kinds[j] == 'Resource'], tag + ': readable')
            sx.check(x.parents == (set() if not i else {found[up[i]]}), tag + ': parent')
            for j in range(n):
                inside = j == i or j in mine
                sx.check((ids[j] in x) is inside, tag + ': membership', of=ids[j])
                if inside:
                    sx.check(x[ids[j]] is found[j], tag + ': lookup')
                else:
                    sx.check(raises(UnknownCollection, x.__getitem__, ids[j]) is not None, tag + ': absent refused')
        return found
    found = state('read')
    for d in range(deletions):
        cands = [i for i in alive if i]
        if not cands:
            return
        i = cands[sx.choice('deleted %d' % d, list(range(len(cands))))]
        gone = [i] + below(up, i)
        alive = [j for j in alive if j not in gone]
        before = dict((j, facts(found[j])) for j in alive)
        above = [0] if up[i] == 0 else [0, up[i]]
        del found[sx.choice('asked %d' % d, above)][ids[i]]
        for j in alive:
            sx.check(facts(found[j]) == before[j], 'removed: metadata of the others unchanged', of=ids[j])
        sx.check(facts(found[i]) == [], 'removed: metadata of the item')
        sx.check(list(root.graph.subject_predicates(found[i].asNode())) == [], 'removed: nothing points to it')
        found = state('removed')


R = Registry()
PERMS = ['down', 'up', (2, 1, 3), (2, 3, 1), (3, 1, 2)]
R.add('shape', h_shape, dict(n=[4], orders=PERMS), dict(n=[2, 4], orders=PERMS + [(1, 3, 2)]), 'trees of 4 collections')
R.add('early', h_shape, dict(n=[3, 4], orders=['down', 'up'], lens=[1], classes=['plain'], early=[True]), dict(n=[3, 4, 5], orders=['down', 'up'], lens=[1], early=[True]), 'collections asked while they are linked')
R.add('shape5', h_shape, dict(n=[5], orders=['down']), dict(n=[5], orders=['down', 'up']), 'trees of 5 collections', ('thorough',))
R.add('lookup', h_lookup, dict(n=[2, 3, 4], orders=['down', 'up'], lens=[1, 2]), dict(n=[2, 4, 5], orders=['down', 'up'], lens=[1, 2]), 'lookups of any identifier')
R.add('urns', h_lookup, dict(n=[3, 4], orders=['down'], lens=[1, 2], prefixes=PREFIXES[1:]), dict(n=[4, 5], orders=['down', 'up'], lens=[1, 2], prefixes=PREFIXES[1:]), 'lookups of URNs, not nested like the collections')
R.add('delete', h_delete, dict(n=[2, 4], lens=[1], deletions=2), dict(n=[3, 4], lens=[1, 2], deletions=2), 'removals')
R.add('dts', h_dts, dict(n=[1, 3, 4], lens=[1], deletions=2), dict(n=[2, 4], lens=[1, 2], deletions=2), 'DTS collections read from nested documents')
R.add('cts', h_cts, dict(shapes=[[], [[]], [[2]], [[1, 1], [1]]], asks='keys'), dict(shapes=[[], [[]], [[2]], [[1, 1], [1]], [[2, 1]], [[2], [1]]], asks='keys'), 'CTS inventories')
R.add('langs', h_cts, dict(shapes=[[[2]], [[1], [1]]], asks='langs'), dict(shapes=[[[3]], [[2], [1]], [[1, 1]]], asks='langs'), 'kinds and languages of texts')
names, get, bounds = R.names, R.get, R.bounds
