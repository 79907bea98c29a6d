"""C11 A retrieved passage contains exactly the text asked for."""
from MyCapytain.common.reference import CtsReference
from MyCapytain.errors import CitationDepthError
from props._util import Registry
from props.texts import FROM, STYLED, ODD, build, element, snap, kind, attrs

NOISE = ('head', 'lb', '#', 'teiHeader')


def raw_covers(m, el, span):
    return any(x.el is el or el in x.up for x in span)


covers = raw_covers


def prepare(m):
    """ancestors of every leaf"""
    for x in m.leaves():
        x.up = list(x.el.iterancestors())
    return m


def compare(sx, m, got, src, whole, span, tag):
    """got: retrieved fragment; src: element of the source; whole: elements asked for or strictly inside the range"""
    got, src = element(got), element(src)
    sx.check(kind(got) == kind(src) and attrs(got) == attrs(src), tag + ': markup and attributes',
             got=[kind(got), attrs(got)], want=[kind(src), attrs(src)])
    if any(src is w for w in whole):
        sx.check(snap(got) == snap(src), tag + ': passage as in the source', got=snap(got), want=snap(src))
        return
    sx.check(not (got.text or '').strip(), tag + ': ancestors without text', got=got.text)
    mine = [c for c in got.iterchildren() if kind(c) not in NOISE]
    theirs = [c for c in src.iterchildren() if covers(m, c, span)]
    sx.check(len(mine) == len(theirs), tag + ': exactly the passages asked', got=[snap(c) for c in mine], want=[snap(c) for c in theirs])
    if mine:
        sx.check(not (mine[-1].tail or '').strip(), tag + ': nothing after the last passage', got=mine[-1].tail)
    for a, b in zip(mine, theirs):
        compare(sx, m, a, b, whole, span, tag)


def ask(text, form, comps, end=None):
    ref = '.'.join(comps) + ('' if end is None else '-' + '.'.join(end))
    if form == 'text':
        return text.getTextualNode(ref)
    if form == 'list':
        return text.getTextualNode(list(comps))
    return text.getTextualNode(CtsReference(ref))


def full(m, span, a, b):
    """elements entirely inside the range: its bounds and what lies strictly between them"""
    return [n.el for n in m.all() if all(x in span for x in m.leaves(n)) and not above(n, a) and not above(n, b)]


def above(n, x):
    return n is not x and n.el in list(x.el.iterancestors())


def identity(sx, text, p, ref, depth, tag):
    sx.check(str(p.reference) == ref, tag + ': reference', got=str(p.reference), want=ref)
    sx.check(str(p.urn) == str(text.urn) + ':' + ref, tag + ': urn', got=str(p.urn))
    sx.check(p.citation is list(text.citation.root)[depth - 1], tag + ': citation')
    sx.check(p.depth == depth, tag + ': depth', got=p.depth)


def h_single(sx, shapes, opts):
    o = dict(sx.choice('markup', opts))
    text, m = build(sx, sx.choice('shape', shapes), **o)
    prepare(m)
    d = sx.choice('reference depth', list(range(1, m.depth + 1)))
    comps = [sx.str('ref%d' % i, o.get('lens', 1), o.get('idtxt', 'a-zA-Z0-9')) for i in range(d)]
    ref = '.'.join(comps)
    before = snap(text.xml)
    node = m.find(comps)
    form = sx.choice('form', ['text', 'object', 'list', 'simple'])
    try:
        p = text.getTextualNode(ref, simple=True) if form == 'simple' else ask(text, form, comps)
    except Exception as e:
        sx.check(node is None, 'existing passage retrieved', error=repr(e))
        return
    sx.check(node is not None, 'unknown passage refused', got=snap(p.xml))
    if form == 'simple':
        sx.check(snap(p.xml) == snap(node.el), 'simple: the passage itself', got=snap(p.xml), want=snap(node.el))
    else:
        compare(sx, m, p.xml, text.xml, [node.el], m.leaves(node), 'passage')
        identity(sx, text, p, ref, d, 'passage')
    first = snap(p.xml)
    q = p.getTextualNode(ref) if sx.bool('asked again from the passage') else ask(text, 'object', comps)
    compare(sx, m, q.xml, text.xml, [node.el], m.leaves(node), 'asked again')
    sx.check(snap(p.xml) == first, 'the first answer is kept')
    sx.check(snap(text.xml) == before, 'source unchanged')
    sx.observe('passage', snap(q.xml))


def h_range(sx, shapes, opts, deep):
    o = dict(sx.choice('markup', opts))
    text, m = build(sx, sx.choice('shape', shapes), **o)
    prepare(m)
    before = snap(text.xml)
    nodes = m.all()
    a = nodes[sx.choice('start', list(range(len(nodes))))]
    b = nodes[sx.choice('end', list(range(len(nodes))))]
    if not deep and len(a.path) != len(b.path):
        sx.assume(False)
    la, lb, ls = m.leaves(a), m.leaves(b), m.leaves()
    if ls.index(la[0]) > ls.index(lb[0]) or ls.index(la[-1]) > ls.index(lb[-1]):
        sx.assume(False)
    span = m.span(a, b)
    p = ask(text, sx.choice('form', ['text', 'object']), a.path, b.path)
    compare(sx, m, p.xml, text.xml, full(m, span, a, b), span, 'range')
    identity(sx, text, p, a.ref + '-' + b.ref, len(a.path), 'range')
    sx.observe('passage', snap(p.xml))
    other = nodes[sx.choice('asked next', [0, len(nodes) - 1])]
    q = p.getTextualNode(other.ref)
    compare(sx, m, q.xml, text.xml, [other.el], m.leaves(other), 'asked next')
    q = ask(text, 'object', a.path, b.path)
    compare(sx, m, q.xml, text.xml, full(m, span, a, b), span, 'range again')
    sx.check(snap(text.xml) == before, 'source unchanged')


def h_deep(sx, shapes):
    text, m = build(sx, sx.choice('shape', shapes))
    leaf = m.leaves()[0]
    extra = [sx.str('extra', 1, 'a-zA-Z0-9')]
    form = sx.choice('form', ['text', 'object', 'list', 'simple', 'start', 'end', 'subreference'])
    deep = leaf.path + extra
    try:
        if form in ('text', 'object', 'list'):
            p = ask(text, form, deep)
        elif form == 'simple':
            p = text.getTextualNode('.'.join(deep), simple=True)
        elif form == 'start':
            p = ask(text, 'text', deep, leaf.path)
        elif form == 'end':
            p = ask(text, 'text', leaf.path, deep)
        else:
            p = text.getTextualNode('.'.join(deep) + '@a[1]')
    except Exception as e:
        if form not in ('end',):
            sx.check(isinstance(e, CitationDepthError), 'deeper than the scheme: CitationDepthError', got=repr(e))
        return
    sx.fail('deeper than the scheme refused', got=snap(p.xml))


def h_unknown(sx, shapes):
    """ranges with a bound that does not exist"""
    text, m = build(sx, sx.choice('shape', shapes))
    d = sx.choice('depth', list(range(1, m.depth + 1)))
    a = m.level(d)[0].path
    b = [sx.str('bound%d' % i, 1, 'a-zA-Z0-9') for i in range(d)]
    sx.assume(m.find(b) is None)
    try:
        p = ask(text, 'text', b, a) if sx.bool('unknown first') else ask(text, 'text', a, b)
    except Exception:
        return
    sx.fail('unknown bound refused', got=snap(p.xml))


def h_two(sx, shapes, urns):
    """two texts: each gives its own passages"""
    held = [build(sx, sx.choice('shape %d' % i, shapes), text='sym', txt='ab', urn=sx.choice('urn %d' % i, urns)) for i in range(2)]
    for t, m in held:
        prepare(m)
    for k in range(3):
        text, m = held[k % 2]
        nodes = m.all()
        n = nodes[sx.choice('passage %d' % k, list(range(len(nodes))))]
        p = text.getTextualNode(n.ref, simple=True) if sx.bool('simple %d' % k) else ask(text, 'object', n.path)
        if p.xml is not None and kind(p.xml) == 'TEI':
            compare(sx, m, p.xml, text.xml, [n.el], m.leaves(n), 'each text has its own')
            identity(sx, text, p, n.ref, len(n.path), 'each text has its own')
        else:
            sx.check(snap(p.xml) == snap(n.el), 'each text has its own', got=snap(p.xml))
        sx.observe('passage', snap(p.xml))


R = Registry()
PLAIN = {}
DEEP = {'seps': ('/', '//', '//'), 'wrap': True, 'noise': True, 'text': 'same'}
HEADER = {'header': True, 'noise': True, 'text': 'numbers', 'seps': ('//', '/', '/'), 'tags': ('div', 'lg', 'l')}
INNER = {'inner': True, 'noise': True}
XMLID = {'attr': 'xml:base', 'text': 'word', 'objectify': False, 'distract': True, 'inner': True}
WORD = {'text': 'word', 'noise': True}
SHAPES = [2, 3, [2, 1], [1, 2], [1, 1, 2], [[1, 2], [1]], [[2], [1, 1]]]
R.add('single', h_single, dict(shapes=[2, [1, 2], [[1, 1], [1]]], opts=[INNER, DEEP, XMLID]),
      dict(shapes=SHAPES, opts=[PLAIN, INNER, DEEP, HEADER, XMLID]), 'any one-passage reference')
R.add('range', h_range, dict(shapes=[3, [2, 1], [1, 2, 1]], opts=[PLAIN, DEEP, dict(XMLID, noise=True)], deep=True),
      dict(shapes=SHAPES + [4, [2, 2, 1], [1, 1, 1, 1]], opts=[PLAIN, INNER, DEEP, HEADER, XMLID, WORD], deep=True), 'any range in document order')
R.add('range3', h_range, dict(shapes=[[[1, 2], [1]], [[1], [1], [2]]], opts=[dict(WORD, text='numbers')], deep=False),
      dict(shapes=[[[1, 2], [1]], [[2], [1, 1]], [[1, 1], [2, 1]]], opts=[dict(WORD, text='numbers'), HEADER, DEEP], deep=True), 'ranges of three levels')
def wrapped(*ws):
    return [{'seps': ('/', '//', '//'), 'wrap': w, 'text': 'word', 'ids_fixed': True} for w in ws]


R.add('wrapped', h_range, dict(shapes=[[3]], opts=wrapped([0, 1, -1], [2, -1, 1], [1]), deep=True),
      dict(shapes=[[3], [3, 2], [2, 3], [[1, 3], [2]]], opts=wrapped([0, 1, -1], [1, -1, 0], [2, -1, 1], [1, 1, 0], [0, 2, 0], [1, 2, -1], [1]), deep=True),
      'passages within elements which are no passages')
R.add('from', h_single, dict(shapes=[2, [1, 2]], opts=FROM), dict(shapes=[2, [1, 2], [[1, 1], [2]]], opts=FROM + [dict(FROM[0], base='text')]), 'schemes which do not name every element')
R.add('from range', h_range, dict(shapes=[[2, 1]], opts=FROM, deep=True), dict(shapes=[3, [2, 1], [[1, 1], [2]]], opts=FROM + [dict(FROM[0], base='text')], deep=True), 'ranges of them')
LONG = {'lens': (1, 2), 'text': 'word', 'idtxt': '1a'}
STRANGE = {'idtxt': ODD, 'text': 'word'}
RAGGED = [[0, 2], [2, 0], [1, 0, 1], [[1, 0], [2]]]
R.add('long', h_single, dict(shapes=[2, [2, 1]], opts=[LONG, STRANGE]), dict(shapes=[2, [2, 1], [[1], [2]]], opts=[LONG, STRANGE]), 'identifiers of one or two letters, or odd ones')
R.add('long range', h_range, dict(shapes=[[2, 1]], opts=[LONG, STRANGE], deep=True), dict(shapes=[[2, 1], 3], opts=[LONG, STRANGE], deep=True), 'ranges of them')
R.add('ragged', h_single, dict(shapes=RAGGED, opts=[WORD]), dict(shapes=RAGGED, opts=[PLAIN, WORD, DEEP]), 'passages without passages')
R.add('ragged range', h_range, dict(shapes=RAGGED[:3], opts=[dict(text='word')], deep=True), dict(shapes=RAGGED, opts=[dict(text='word'), DEEP], deep=True), 'ranges, passages without passages')
R.add('styles', h_single, dict(shapes=[2, [1, 2]], opts=STYLED), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=STYLED), 'schemes with other tests')
GIVEN = [dict(given=['tree', 'text', 'file'], text='word'), dict(given=['tree'], text='word', objectify=False)]
TAILS = [dict(tail=True, text='word', inner=True), dict(DEEP, tail=True, text='word')]
R.add('loose', h_single, dict(shapes=[2, [1, 2]], opts=TAILS), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=TAILS), 'texts with words between the passages')
R.add('loose range', h_range, dict(shapes=[[2, 1]], opts=TAILS, deep=True), dict(shapes=[3, [2, 1], [1, 2, 1]], opts=TAILS, deep=True), 'ranges of them')
R.add('given', h_single, dict(shapes=[2, [1, 2]], opts=GIVEN), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=GIVEN), 'texts given as a tree, a string or a file')
R.add('given range', h_range, dict(shapes=[[2, 1]], opts=[dict(o, ids_fixed=True) for o in GIVEN], deep=True), dict(shapes=[3, [2, 1]], opts=GIVEN, deep=True), 'ranges of them')
R.add('two', h_two, dict(shapes=[2, [1, 1]], urns=['urn:cts:lat:a.b.c']), dict(shapes=[2, [1, 2]], urns=['urn:cts:lat:a.b.c', 'urn:cts:lat:a.b.d']), 'two texts')
R.add('deep', h_deep, dict(shapes=[2, [1, 1], [[1, 1], [1]]]), dict(shapes=SHAPES), 'references deeper than the scheme')
R.add('unknown', h_unknown, dict(shapes=[2, [1, 2]]), dict(shapes=SHAPES), 'ranges with an unknown bound')
names, get, bounds = R.names, R.get, R.bounds
