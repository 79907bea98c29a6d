"""C12 Neighbour references of a passage are its true neighbours."""
from MyCapytain.common.reference import CtsReference
from MyCapytain.errors import InvalidSiblingRequest
from props._util import Registry, raises
from props.texts import FROM, STYLED, ODD, build

MARKUP = [{}, {'seps': ('/', '//', '//'), 'wrap': True, 'noise': True, 'text': 'same'},
          {'header': True, 'noise': True, 'text': 'numbers', 'seps': ('//', '/', '/'), 'tags': ('div', 'lg', 'l')},
          {'attr': 'xml:base', 'text': 'word', 'objectify': False}]


def window(sx, got, nodes, lo, hi, tag):
    """got designates the nodes lo..hi, or None when the window is empty"""
    if lo > hi:
        sx.check(got is None, tag + ': none at the end of the text', got=got)
        return
    want = nodes[lo].ref if lo == hi else nodes[lo].ref + '-' + nodes[hi].ref
    ok = [want, want + '-' + want] if lo == hi else [want]
    if got is None:
        sx.fail(tag + ': the neighbour', got=None, want=want)
        return
    sx.check(isinstance(got, CtsReference), tag + ': a reference')
    sx.check(any(str(got) == w for w in ok), tag + ': the neighbour', got=str(got), want=want)


def neighbours(sx, p, nodes, i, j, tag):
    n = j - i + 1
    order = sx.choice('read', ['siblings', 'next first', 'prev first'])
    if order == 'siblings':
        prev, nxt = p.siblingsId
    elif order == 'next first':
        nxt, prev = p.nextId, p.prevId
    else:
        prev, nxt = p.prevId, p.nextId
    sx.observe('prev/next', [str(prev), str(nxt)])
    window(sx, prev, nodes, max(0, i - n), i - 1, tag + ' prev')
    window(sx, nxt, nodes, j + 1, min(len(nodes) - 1, j + n), tag + ' next')
    window(sx, p.prevId, nodes, max(0, i - n), i - 1, tag + ' prev again')
    window(sx, p.nextId, nodes, j + 1, min(len(nodes) - 1, j + n), tag + ' next again')


def h_single(sx, shapes, opts):
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    nodes = m.level(sx.choice('level', list(range(1, m.depth + 1))))
    i = sx.choice('position', list(range(len(nodes))))
    simple = sx.bool('simple')
    p = text.getTextualNode(CtsReference(nodes[i].ref), simple=simple)
    neighbours(sx, p, nodes, i, i, 'simple' if simple else 'single')


def h_range(sx, shapes, opts):
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    nodes = m.level(sx.choice('level', list(range(1, m.depth + 1))))
    i = sx.choice('start', list(range(len(nodes))))
    j = sx.choice('end', list(range(i, len(nodes))))
    p = text.getTextualNode(CtsReference(nodes[i].ref + '-' + nodes[j].ref))
    neighbours(sx, p, nodes, i, j, 'range')


def h_words(sx, shapes, lens):
    """words of the passages: the neighbours are those of the passages"""
    text, m = build(sx, sx.choice('shape', shapes), text='word')
    nodes = m.level(sx.choice('level', list(range(1, m.depth + 1))))
    i = sx.choice('start', list(range(len(nodes))))
    form = sx.choice('form', ['single', 'simple', 'range'])
    j = i if form != 'range' else sx.choice('end', list(range(i, len(nodes))))
    word = '@' + sx.str('word', lens, 'a1')
    if sx.bool('occurrence'):
        word += '[%s]' % sx.str('number', 1, '12')
    ref = nodes[i].ref + word
    if form == 'range':
        ref = sx.choice('words', ['start', 'end', 'both'])
        ref = nodes[i].ref + (word if ref != 'end' else '') + '-' + nodes[j].ref + (word if ref != 'start' else '')
    p = text.getTextualNode(CtsReference(ref), simple=form == 'simple')
    neighbours(sx, p, nodes, i, j, 'word')


def h_mixed(sx, shapes):
    """bounds of two levels: documented to be refused"""
    text, m = build(sx, sx.choice('shape', shapes), text='word')
    a, b = m.level(1)[0], m.leaves(m.level(1)[-1])[-1]
    if sx.bool('deep start'):
        a, b = m.leaves(a)[0], m.level(1)[-1]
    p = text.getTextualNode(CtsReference(a.ref + '-' + b.ref))
    what = sx.choice('asked', ['siblingsId', 'nextId', 'prevId', 'next', 'prev'])
    sx.check(raises(InvalidSiblingRequest, getattr, p, what) is not None, 'bounds of two levels refused')


def h_two(sx, shapes):
    """passages of two texts, which are asked in turns"""
    held, got = [build(sx, sx.choice('shape', shapes), text='word') for i in range(2)], []
    for k in range(2):
        text, m = held[k]
        nodes = m.level(sx.choice('level %d' % k, list(range(1, m.depth + 1))))
        i = sx.choice('position %d' % k, list(range(len(nodes))))
        j = sx.choice('length %d' % k, [i, len(nodes) - 1])
        ref = nodes[i].ref if i == j else nodes[i].ref + '-' + nodes[j].ref
        p = text.getTextualNode(CtsReference(ref), simple=sx.bool('simple %d' % k) if i == j else False)
        if k == 0 and sx.bool('asked at once'):
            neighbours(sx, p, nodes, i, j, 'of this text')
        got.append((p, nodes, i, j))
    for p, nodes, i, j in got[::-1]:
        n = j - i + 1
        prev, nxt = p.siblingsId
        sx.observe('prev/next', [str(prev), str(nxt)])
        window(sx, prev, nodes, max(0, i - n), i - 1, 'of this text prev')
        window(sx, nxt, nodes, j + 1, min(len(nodes) - 1, j + n), 'of this text next')


R = Registry()
R.add('single', h_single, dict(shapes=[1, 3, [1, 2], [2, 1, 1], [[1, 2], [1]], [[1], [1, 1]]], opts=MARKUP),
      dict(shapes=[1, 2, 3, 4, [1, 2], [2, 1, 1], [2, 2], [[1, 2], [1]], [[1], [1, 1]], [[2, 1], [1], [1, 1]]], opts=MARKUP), 'any passage of any level')
R.add('range', h_range, dict(shapes=[3, 5, [1, 2, 1], [[1, 2], [1]]], opts=[dict(MARKUP[0], text='word'), MARKUP[2]]),
      dict(shapes=[3, 5, 7, [1, 2, 1], [2, 3, 1], [[1, 2], [1]], [[2], [1, 2], [1]]], opts=[dict(MARKUP[0], text='word')] + MARKUP[1:]), 'any range of one level')
LONG = [{'lens': (1, 2), 'text': 'word', 'idtxt': '1a'}, {'idtxt': ODD, 'text': 'word'}]
RAGGED = [[0, 2], [2, 0, 1], [[1, 0], [2]]]
R.add('long', h_single, dict(shapes=[3, [1, 2]], opts=LONG), dict(shapes=[3, [2, 1, 1], [[1, 2], [1]]], opts=LONG), 'identifiers of one or two letters, or odd ones')
R.add('long range', h_range, dict(shapes=[3, [1, 2]], opts=LONG), dict(shapes=[4, [2, 1, 1]], opts=LONG), 'ranges of them')
R.add('ragged', h_single, dict(shapes=RAGGED, opts=MARKUP[:1]), dict(shapes=RAGGED, opts=MARKUP), 'passages without passages')
R.add('from', h_single, dict(shapes=[3, [1, 2]], opts=FROM), dict(shapes=[3, [2, 1, 1], [[1, 2], [1]]], opts=FROM), 'schemes which do not name every element')
R.add('styles', h_single, dict(shapes=[[1, 2]], opts=STYLED), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=STYLED), 'schemes with other tests')
GIVEN = [dict(given=['tree', 'text', 'file'], text='word'), dict(given=['tree'], text='word', objectify=False)]
R.add('given', h_single, dict(shapes=[2, [1, 2]], opts=GIVEN), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=GIVEN), 'texts given as a tree, a string or a file')
R.add('two', h_two, dict(shapes=[3, [1, 2]]), dict(shapes=[4, [2, 1, 1]]), 'passages of two texts')
R.add('words', h_words, dict(shapes=[2, [1, 2]], lens=1), dict(shapes=[3, [1, 2], [[1], [1, 1]]], lens=(1, 2)), 'words of passages')
R.add('mixed', h_mixed, dict(shapes=[[1, 2], [[1], [2]]]), dict(shapes=[[1, 2], [2, 1, 1], [[1], [2]], [[1, 1], [1, 2]]]), 'ranges between levels')
names, get, bounds = R.names, R.get, R.bounds
