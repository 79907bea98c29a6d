"""C13 Walking a local text passage by passage never derails."""
from MyCapytain.common.reference import CtsReference
from props._util import Registry
from props.c11 import HEADER, DEEP, XMLID, compare, full, identity, prepare
from props.texts import FROM, STYLED, ODD, build, snap

STEPS = ['next', 'prev', 'first', 'last', 'parent', 'child', 'again']


def arrive(sx, text, m, p, node, tag):
    """p is the passage of that node"""
    if node is None:
        sx.check(p is None, tag + ': nothing there', got=getattr(p, 'reference', p))
        return
    if p is None:
        sx.fail(tag + ': something there', want=node.ref)
        return
    d = len(node.path)
    identity(sx, text, p, node.ref, d, tag)
    compare(sx, m, p.xml, text.xml, [node.el], m.leaves(node), tag)
    sx.check(p.id == str(text.urn) + ':' + node.ref, tag + ': id', got=p.id)


def facts(sx, text, m, p, node, tag):
    kids = [k.ref for k in node.kids]
    have = [str(x) for x in p.childIds]
    sx.check(have == kids, tag + ': childIds', got=have, want=kids)
    sx.check(same(p.firstId, kids[0] if kids else None), tag + ': firstId', got=p.firstId)
    sx.check(same(p.lastId, kids[-1] if kids else None), tag + ': lastId', got=p.lastId)
    sx.check(same(p.parentId, '.'.join(node.path[:-1]) or None), tag + ': parentId', got=p.parentId)


def same(ref, want):
    return ref is None if want is None else ref is not None and str(ref) == want


def move(m, node, step):
    lv = m.level(len(node.path))
    i = [x is node for x in lv].index(True)
    if step == 'next':
        return lv[i + 1] if i + 1 < len(lv) else None
    if step == 'prev':
        return lv[i - 1] if i else None
    if step == 'first':
        return node.kids[0] if node.kids else None
    if step == 'last':
        return node.kids[-1] if node.kids else None
    if step == 'parent':
        return m.find(node.path[:-1]) if len(node.path) > 1 else None


def h_walk(sx, shapes, opts, steps, kinds):
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    prepare(m)
    before = snap(text.xml)
    nodes = m.all()
    node = nodes[sx.choice('from', list(range(len(nodes))))]
    p = text.getTextualNode(node.ref, simple=sx.bool('simple'))
    for k in range(steps):
        step = sx.choice('step %d' % k, kinds)
        tag = 'walk'
        if step == 'child':
            got = list(p.children)
            sx.check(len(got) == len(node.kids), 'children: every child', got=len(got))
            if not got:
                break
            i = sx.choice('child %d' % k, list(range(len(node.kids))))
            p, node = got[i], node.kids[i]
        elif step == 'again':
            facts(sx, text, m, p, node, 'facts')
            continue
        else:
            p, node = getattr(p, step), move(m, node, step)
        arrive(sx, text, m, p, node, step)
        if node is None:
            break
    if node is not None:
        facts(sx, text, m, p, node, 'at the end')
        sx.observe('reached', str(p.reference))
    sx.check(snap(text.xml) == before, 'source unchanged')


def h_level(sx, shapes, opts):
    """next to the end of the level and back"""
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    prepare(m)
    nodes = m.level(sx.choice('level', list(range(1, m.depth + 1))))
    p = text.first if nodes is m.top else text.getTextualNode(nodes[0].ref)
    seen = []
    for n in nodes:
        arrive(sx, text, m, p, n, 'forward')
        seen.append(str(p.reference))
        last, p = p, p.next
    sx.check(p is None, 'forward: ends', got=getattr(p, 'reference', p))
    sx.observe('seen', seen)
    p = last
    for n in reversed(nodes):
        arrive(sx, text, m, p, n, 'backward')
        p = p.prev
    sx.check(p is None, 'backward: ends', got=getattr(p, 'reference', p))


def h_text(sx, shapes, opts):
    """children of the whole text"""
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    prepare(m)
    what = sx.choice('asked', ['first', 'last', 'children', 'ids'])
    if what == 'children':
        got = list(text.children)
        sx.check(len(got) == len(m.top), 'children of the text')
        for p, n in zip(got, m.top):
            arrive(sx, text, m, p, n, 'child of the text')
    elif what == 'ids':
        sx.check([str(x) for x in text.childIds] == [n.ref for n in m.top], 'childIds of the text')
        sx.check(str(text.firstId) == m.top[0].ref and str(text.lastId) == m.top[-1].ref, 'firstId and lastId of the text')
        sx.check(text.parentId is None and text.nextId is None and text.prevId is None, 'nothing around the text')
    else:
        arrive(sx, text, m, getattr(text, what), m.top[0 if what == 'first' else -1], what + ' of the text')


def h_range(sx, shapes, opts, steps):
    """walking from a range: windows of the same size, clipped"""
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    prepare(m)
    nodes = m.level(sx.choice('level', list(range(1, m.depth + 1))))
    i = sx.choice('start', list(range(len(nodes) - 1)))
    j = sx.choice('end', list(range(i + 1, len(nodes))))
    p = text.getTextualNode(CtsReference(nodes[i].ref + '-' + nodes[j].ref))
    for k in range(steps):
        step = sx.choice('step %d' % k, ['next', 'prev', 'first', 'last', 'parentId'])
        n = j - i + 1
        kids = [x for nd in nodes[i:j + 1] for x in nd.kids]
        if step in ('first', 'last'):
            want = (kids[0] if step == 'first' else kids[-1]) if kids else None
            arrive(sx, text, m, getattr(p, step), want, step + ' of a range')
            return
        if step == 'parentId':
            sx.check(same(p.parentId, parent_of(nodes[i], nodes[j])), 'parent of a range', got=p.parentId)
            return
        i, j = (j + 1, min(len(nodes) - 1, j + n)) if step == 'next' else (max(0, i - n), i - 1)
        p = getattr(p, step)
        if i > j:
            sx.check(p is None, step + ' of a range: none')
            return
        want = nodes[i].ref + '-' + nodes[j].ref
        have = str(p.reference)
        sx.check(have == want or (i == j and have == nodes[i].ref), step + ' of a range', got=have, want=want)
        compare(sx, m, p.xml, text.xml, full(m, m.span(nodes[i], nodes[j]), nodes[i], nodes[j]), m.span(nodes[i], nodes[j]), step + ' of a range')


def parent_of(a, b):
    if len(a.path) == 1:
        return None
    x, y = '.'.join(a.path[:-1]), '.'.join(b.path[:-1])
    return x if x == y else x + '-' + y


def h_two(sx, shapes, kinds):
    """passages of two texts"""
    held, at = [build(sx, sx.choice('shape %d' % i, shapes), text='word') for i in range(2)], []
    for k, (text, m) in enumerate(held):
        prepare(m)
        nodes = m.all()
        n = nodes[sx.choice('from %d' % k, [0, len(nodes) - 1])]
        at.append((text.getTextualNode(n.ref, simple=sx.bool('simple %d' % k)), n))
    for k in sx.choice('order', [[0, 1], [1, 0]]):
        p, n = at[k]
        step = sx.choice('step %d' % k, kinds)
        arrive(sx, held[k][0], held[k][1], getattr(p, step), move(held[k][1], n, step), step + ' in this text')
        facts(sx, held[k][0], held[k][1], p, n, 'in this text')
    sx.observe('reached', [str(p.reference) for p, n in at])


R = Registry()
W = {'text': 'word'}
R.add('walk', h_walk, dict(shapes=[[1, 2], [[1, 1], [1]]], opts=[dict(ids_fixed=True)], steps=3, kinds=STEPS),
      dict(shapes=[3, [1, 2], [2, 1, 1], [[1, 1], [1]], [[1], [1, 2]]], opts=[{}, DEEP, HEADER, XMLID], steps=3, kinds=STEPS), 'every walk from every passage')
R.add('walk2', h_walk, dict(shapes=[2, [2, 1]], opts=[DEEP, HEADER, XMLID], steps=2, kinds=STEPS),
      dict(shapes=[[1, 2]], opts=[{}], steps=4, kinds=STEPS), 'every walk, arbitrary identifiers')
R.add('level', h_level, dict(shapes=[3, [1, 2, 1], [[1, 2], [1]]], opts=[{}, DEEP, XMLID]),
      dict(shapes=[3, 5, [1, 2, 1], [[1, 2], [1]], [[2, 1], [1, 1]]], opts=[{}, DEEP, HEADER, XMLID]), 'whole levels, forth and back')
LONG = [{'lens': (1, 2), 'text': 'word', 'idtxt': '1a'}, {'idtxt': ODD, 'text': 'word'}]
R.add('long', h_walk, dict(shapes=[2, [1, 2]], opts=LONG, steps=1, kinds=STEPS), dict(shapes=[2, [1, 2], [[1], [2]]], opts=LONG, steps=2, kinds=STEPS), 'identifiers of one or two letters, or odd ones')
R.add('ragged', h_walk, dict(shapes=[[0, 2], [2, 0], [[1, 0], [2]]], opts=[dict(ids_fixed=True)], steps=2, kinds=STEPS),
      dict(shapes=[[0, 2], [2, 0], [[1, 0], [2]], [1, 0, 1]], opts=[{}, dict(ids_fixed=True)], steps=3, kinds=STEPS), 'passages without passages')
R.add('from', h_walk, dict(shapes=[[1, 2]], opts=[dict(o, ids_fixed=True) for o in FROM], steps=1, kinds=STEPS), dict(shapes=[2, [1, 2], [[1], [2]]], opts=[dict(o, ids_fixed=True) for o in FROM], steps=2, kinds=STEPS), 'schemes which do not name every element')
R.add('styles', h_walk, dict(shapes=[[1, 2]], opts=[dict(o, ids_fixed=True) for o in STYLED], steps=1, kinds=STEPS), dict(shapes=[[1, 2], [[1, 1], [2]]], opts=[dict(o, ids_fixed=True) for o in STYLED], steps=2, kinds=STEPS), 'schemes with other tests')
GIVEN = [dict(given=['tree', 'text', 'file'], text='word'), dict(given=['tree'], text='word', objectify=False)]
R.add('given', h_walk, dict(shapes=[[1, 2]], opts=[dict(o, ids_fixed=True) for o in GIVEN], steps=1, kinds=STEPS), dict(shapes=[2, [1, 2], [[1], [2]]], opts=[dict(o, ids_fixed=True) for o in GIVEN], steps=2, kinds=STEPS), 'texts given as a tree, a string or a file')
R.add('two', h_two, dict(shapes=[2, [1, 2]], kinds=STEPS[:5]), dict(shapes=[2, [1, 2], [[1, 1], [1]]], kinds=STEPS[:5]), 'passages of two texts')
R.add('text', h_text, dict(shapes=[1, 3, [2, 1], [[1, 2], [1]]], opts=[{}, DEEP, HEADER]),
      dict(shapes=[1, 3, 4, [2, 1], [1, 1, 2], [[1, 2], [1]]], opts=[{}, DEEP, HEADER, XMLID]), 'children of texts')
R.add('range', h_range, dict(shapes=[3, [2, 1]], opts=[W, XMLID], steps=2),
      dict(shapes=[3, 5, [1, 2, 1], [[1, 1], [2]]], opts=[W, DEEP, HEADER, XMLID], steps=3), 'walks from ranges')
names, get, bounds = R.names, R.get, R.bounds
